//! C09 blending, C10 motion blending, the blending part of C21.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::p_params::any;
use crate::refm::*;
use glam::{Quat, Vec3A, Vec4};
use glam_ext::Transform3A;
use ozz_animation_rs::*;

#[derive(Clone, Debug)]
pub struct Layer {
    pub weight: f32,
    pub pose: Vec<Xf>,
    /// empty: no per-joint weights
    pub jw: Vec<f32>,
}

#[derive(Clone, Debug)]
pub struct Blend {
    pub n: usize,
    pub rest: Vec<Xf>,
    pub layers: Vec<Layer>,
    pub adds: Vec<Layer>,
    pub threshold: f32,
}

fn weight(s: &mut Src) -> f32 {
    match s.draw(10) {
        0 => 1.0,
        1 => 0.0,
        2 => -0.0,
        3 => -s.unit() * 2.0,
        4 => *s.pick(&[1e-45, 1e-40, f32::MIN_POSITIVE, 1e-30, 1e-12, 1e-7, 1e4, 1e6]),
        5 => s.unit() * 20.0,
        6 => s.unit() * 0.1,
        _ => s.unit(),
    }
}
fn joint_weights(s: &mut Src, n: usize) -> Vec<f32> {
    match s.draw(5) {
        0 => vec![0.0; n],
        1 => {
            let w = weight(s);
            vec![w; n]
        }
        _ => {
            if n > 12 {
                let mut r = Rng::new(s.draw(1 << 32));
                (0..n)
                    .map(|_| match r.next() % 6 {
                        0 => 0.0,
                        1 => 1.0,
                        2 => -((r.next() % 100) as f32) / 50.0,
                        _ => (r.next() % 1000) as f32 / 700.0,
                    })
                    .collect()
            } else {
                (0..n).map(|_| weight(s)).collect()
            }
        }
    }
}
fn threshold(s: &mut Src) -> f32 {
    match s.draw(6) {
        0 | 1 => 0.1,
        2 => s.unit() * 0.999 + 0.001,
        3 => 1e-6 + s.unit() * 1e-3,
        4 => 1.0 + s.unit() * 3.0,
        _ => *s.pick(&[1.0, 0.5, 0.25, 1e-6, 100.0]),
    }
}
/// Unit scales most of the time; rotations sometimes exactly opposite to another layer's.
fn layer_pose(s: &mut Src, n: usize, prev: Option<&Vec<Xf>>) -> Vec<Xf> {
    let mut p = pose(s, n);
    if let Some(q) = prev {
        match s.draw(8) {
            0 => p = q.clone(),
            1 => {
                // same rotations, other sign
                for i in 0..n {
                    for k in 3..7 {
                        p[i][k] = -q[i][k];
                    }
                }
            }
            _ => {}
        }
    }
    p
}

pub fn blend_case(s: &mut Src, max: usize) -> Blend {
    let many = if s.one_in(100) { 6 + s.below(60) } else if s.one_in(1500) { 250 + s.below(400) } else { 0 };
    let n = if many > 0 { 1 + s.below(5) } else if s.one_in(200) { 120 + s.below(904) } else { match s.draw(12) { 0 => 0, 1 => 60 + s.below(60), _ => 1 + s.len(max) } };
    let rest = pose(s, n);
    let nl = if many > 0 { many } else { s.draw(6) as usize };
    let any_partial = s.draw(3) != 0;
    let mut layers: Vec<Layer> = Vec::new();
    for _ in 0..nl {
        let w = weight(s);
        let p = layer_pose(s, n, layers.last().map(|l| &l.pose));
        let jw = if any_partial && s.bool() { joint_weights(s, n) } else { Vec::new() };
        layers.push(Layer { weight: w, pose: p, jw });
    }
    let na = if many > 0 && s.bool() { s.below(many) } else { s.draw(4).saturating_sub(1) as usize };
    let mut adds = Vec::new();
    for _ in 0..na {
        let w = match s.draw(4) {
            0 => 1.0,
            1 => -1.0,
            2 => s.sym(1.0),
            _ => s.sym(3.0),
        };
        let mut p = layer_pose(s, n, None);
        if s.bool() {
            // small deltas, the usual content of additive layers
            for x in p.iter_mut() {
                for k in 0..3 { x[k] *= 0.1; }
                let q = qnorm([x[3] as f64 * 0.2, x[4] as f64 * 0.2, x[5] as f64 * 0.2, x[6] as f64 + x[6].signum() as f64]);
                for k in 0..4 { x[3 + k] = q[k] as f32; }
                for k in 7..10 { x[k] = 1.0 + (x[k] % 1.0) * 0.2; }
            }
        }
        let jw = if s.bool() { joint_weights(s, n) } else { Vec::new() };
        adds.push(Layer { weight: w, pose: p, jw });
    }
    Blend { n, rest, layers, adds, threshold: threshold(s) }
}

impl Blend {
    pub fn skeleton(&self) -> Skeleton {
        let mut rest = self.rest.clone();
        while rest.len() % 4 != 0 {
            rest.push(XF_ID);
        }
        skel(&SkelSpec { parents: (0..self.n as i16).map(|i| i - 1).collect(), names: (0..self.n).map(|i| format!("b{i}")).collect(), rest })
    }
    pub fn brief(&self) -> String {
        let l = |x: &Vec<Layer>| x.iter().map(|l| format!("{:?}{}", l.weight, if l.jw.is_empty() { "" } else { "*jw" })).collect::<Vec<_>>().join(",");
        format!("blend of {} joints, layers [{}], additive [{}], threshold {}", self.n, l(&self.layers), l(&self.adds), self.threshold)
    }
}
/// Packs weights; lanes beyond the last joint get `pad`.
pub fn pack_weights(w: &[f32], pad: f32) -> Vec<Vec4> {
    (0..w.len().div_ceil(4)).map(|g| Vec4::from_array(std::array::from_fn(|l| w.get(g * 4 + l).copied().unwrap_or(pad)))).collect()
}

pub fn run_blend(b: &Blend, sk: &Skeleton, ctx: Option<BlendingContext>, extra: usize) -> Result<(Vec<SoaTransform>, BlendingContext), String> {
    let soa = b.n.div_ceil(4);
    let mut ins: Vec<Vec<SoaTransform>> = Vec::new();
    for l in b.layers.iter().chain(&b.adds) {
        let mut v = to_soa(&l.pose, &XF_ID);
        for k in 0..extra / 2 { v.push(soa_sentinel(k as u32)); }
        ins.push(v);
    }
    let mut out: Vec<SoaTransform> = (0..soa + extra).map(|k| soa_sentinel(k as u32)).collect();
    let ctx = {
        let mut job: BlendingJob<&Skeleton, &[SoaTransform], &mut [SoaTransform]> = BlendingJob::default();
        job.set_skeleton(sk);
        if let Some(c) = ctx { job.set_context(c); }
        job.set_threshold(b.threshold);
        for (i, l) in b.layers.iter().enumerate() {
            let mut x = BlendingLayer::with_weight(&ins[i][..], l.weight);
            x.joint_weights = pack_weights(&l.jw, 1.0);
            job.layers_mut().push(x);
        }
        for (i, l) in b.adds.iter().enumerate() {
            let mut x = BlendingLayer::with_weight(&ins[b.layers.len() + i][..], l.weight);
            x.joint_weights = pack_weights(&l.jw, 1.0);
            job.additive_layers_mut().push(x);
        }
        job.set_output(&mut out);
        ensure!(job.validate(), "valid blending job not accepted");
        job.run().map_err(|e| format!("valid blending job failed: {e:?}"))?;
        job.take_context().ok_or("context lost")?
    };
    for k in soa..soa + extra {
        ensure!(soa_bits(&out[k..k + 1]) == soa_bits(&[soa_sentinel(k as u32)]), "output {k} beyond the skeleton's {soa} SoA joints was written");
    }
    Ok((out, ctx))
}

pub struct RefOut {
    pub t: V3,
    pub tt: V3,
    pub q: Option<Q>,
    pub s: [Option<f64>; 3],
    pub ts: V3,
    pub filled: bool,
}

/// The documented blend of one joint, in f64. `None` parts are numerically undecidable.
pub fn blend_ref(b: &Blend, i: usize) -> RefOut {
    let (mut t, mut q, mut sc) = ([0.0; 3], [0.0; 4], [0.0; 3]);
    let (mut tm, mut sm) = ([0.0; 3], [0.0; 3]);
    let mut acc = 0.0f64;
    let mut amb = false;
    let mut put = |x: &Xf, w: f64, acc: &mut f64, amb: &mut bool| {
        let (xt, xq, xs) = xf64(x);
        for k in 0..3 {
            t[k] += w * xt[k];
            tm[k] += w * xt[k].abs();
            sc[k] += w * xs[k];
            sm[k] += w * xs[k].abs();
        }
        let d = qdot(q, xq);
        let a = qlen(q);
        if w > 1e-6 * a && a > 1e-6 * w && (d.abs() < 1e-5 * a || a < 1e-30) {
            *amb = true;
        }
        q = qadd(q, qscale(xq, if d < 0.0 { -w } else { w }));
        *acc += w;
    };
    for l in &b.layers {
        if l.weight <= 0.0 {
            continue;
        }
        let w = l.weight as f64 * if l.jw.is_empty() { 1.0 } else { (l.jw[i] as f64).max(0.0) };
        put(&l.pose[i], w, &mut acc, &mut amb);
    }
    let fill = b.threshold as f64 - acc;
    let filled = fill > 0.0;
    if filled {
        put(&b.rest[i], fill, &mut acc, &mut amb);
        // the fill-in weight is a difference of rounded weights
        let (rt, _, rs) = xf64(&b.rest[i]);
        for k in 0..3 {
            tm[k] += b.threshold as f64 * rt[k].abs() * 0.25;
            sm[k] += b.threshold as f64 * rs[k].abs() * 0.25;
        }
    }
    let n = b.layers.len() as f64 + 4.0;
    let mut q = if qlen(q) > 1e-12 { qnorm(q) } else { amb = true; [0.0, 0.0, 0.0, 1.0] };
    let mut t = t.map(|x| x / acc);
    let mut tt = tm.map(|x| x / acc * n * 4e-7 + 1e-12);
    let mut sco = sc.map(|x| Some(x / acc));
    let mut ts = sm.map(|x| x / acc * n * 4e-7 + 1e-12);
    for l in &b.adds {
        let (xt, xq, xs) = xf64(&l.pose[i]);
        if l.weight == 0.0 { continue; }
        let w = (l.weight as f64).abs() * if l.jw.is_empty() { 1.0 } else { (l.jw[i] as f64).max(0.0) };
        let sg = if l.weight < 0.0 { -1.0 } else { 1.0 };
        if xq[3].abs() < 1e-7 && w != 0.0 && w != 1.0 { amb = true; }
        let r = if xq[3] < 0.0 { qscale(xq, -1.0) } else { xq };
        let mut iq = qnorm([r[0] * w, r[1] * w, r[2] * w, (r[3] - 1.0) * w + 1.0]);
        if sg < 0.0 { iq = qconj(iq); }
        q = qmul(q, iq);
        for k in 0..3 {
            t[k] += sg * w * xt[k];
            tt[k] += 4e-7 * (t[k].abs() + w * xt[k].abs());
            let f = 1.0 - w + xs[k] * w;
            let fm = 1.0 + w + (xs[k] * w).abs();
            let old = sco[k].unwrap_or(0.0);
            if sg > 0.0 {
                ts[k] = ts[k] * f.abs() + old.abs() * fm * 4e-7 + 1e-12;
                sco[k] = sco[k].map(|v| v * f);
            } else if f.abs() < 1e-3 * fm {
                sco[k] = None;
            } else {
                ts[k] = ts[k] / f.abs() + (old / f).abs() * (4e-7 * fm / f.abs() + 4e-7) + 1e-12;
                sco[k] = sco[k].map(|v| v / f);
            }
        }
        tt.iter_mut().for_each(|x| *x += 1e-12);
    }
    RefOut { t, tt, q: if amb { None } else { Some(q) }, s: sco, ts, filled }
}

pub fn qdiff(a: Q, b: Q) -> f64 {
    let d = |s: f64| (0..4).map(|k| (a[k] - s * b[k]).abs()).fold(0.0, f64::max);
    d(1.0).min(d(-1.0))
}

fn check_blend(b: &Blend, out: &[SoaTransform], c: &mut Case) -> Res {
    for i in 0..b.n {
        let g = soa_get(out, i);
        let (gt, gq, gs) = xf64(&g);
        let r = blend_ref(b, i);
        if r.filled && b.layers.iter().any(|l| l.weight > 0.0) { c.label("rest pose fills in"); }
        for k in 0..3 {
            ensure!((gt[k] - r.t[k]).abs() <= r.tt[k], "{}: joint {i} translation {gt:?}, want {:?}", b.brief(), r.t);
            match r.s[k] {
                Some(w) => ensure!((gs[k] - w).abs() <= r.ts[k], "{}: joint {i} scale {gs:?}, want {:?}", b.brief(), r.s),
                None => {}
            }
        }
        ensure!((qlen(gq) - 1.0).abs() < 1e-5, "{}: joint {i} rotation {gq:?} has length {}", b.brief(), qlen(gq));
        match r.q {
            Some(w) => ensure!(qdiff(gq, w) < 2e-5, "{}: joint {i} rotation {gq:?}, want {w:?}", b.brief()),
            None => c.label("hemisphere undecidable"),
        }
    }
    Ok(())
}

fn c09_reference(s: &mut Src, c: &mut Case) -> Res {
    let b = blend_case(s, 10);
    c.describe(|| b.brief());
    let sk = b.skeleton();
    let ctx = match s.draw(3) { 0 => None, 1 => Some(BlendingContext::new(b.n.div_ceil(4) + s.below(3))), _ => Some(BlendingContext::new(0)) };
    let extra = s.below(4);
    let (out, _) = run_blend(&b, &sk, ctx, extra)?;
    c.nontrivial = b.n > 0 && b.layers.iter().filter(|l| l.weight > 0.0).count() + b.adds.len() > 1;
    if b.n > 0 && b.layers.iter().all(|l| l.weight <= 0.0) { c.label("no effective layer"); }
    if b.layers.iter().any(|l| l.weight > 0.0 && !l.jw.is_empty()) { c.label("partial"); }
    check_blend(&b, &out, c)
}

/// One layer, or equal layers: the blend is the layer.
fn c09_same(s: &mut Src, c: &mut Case) -> Res {
    let n = 1 + s.len(12);
    let p = pose(s, n);
    let k = 1 + s.below(5);
    let mut layers = Vec::new();
    for i in 0..k {
        let mut q = p.clone();
        if i > 0 { for x in q.iter_mut() { if s.bool() { for v in &mut x[3..7] { *v = -*v; } } } }
        layers.push(Layer { weight: 0.05 + s.unit() * 3.0, pose: q, jw: if s.bool() { (0..n).map(|_| 0.1 + s.unit() * 2.0).collect() } else { Vec::new() } });
    }
    // below the threshold the rest pose takes part; make it equal as well
    let b = Blend { n, rest: p.clone(), layers, adds: Vec::new(), threshold: threshold(s) };
    c.describe(|| b.brief());
    c.nontrivial = k > 1;
    let (out, _) = run_blend(&b, &b.skeleton(), None, s.below(3))?;
    for i in 0..n {
        let g = soa_get(&out, i);
        let (gt, gq, gs) = xf64(&g);
        let (wt, wq, ws) = xf64(&p[i]);
        ensure!(qdiff(gq, qnorm(wq)) < 2e-6, "{}: all layers have rotation {wq:?} at joint {i}, blended to {gq:?}", b.brief());
        for k in 0..3 {
            ensure!((gt[k] - wt[k]).abs() <= 4e-6 * wt[k].abs() + 1e-30 && (gs[k] - ws[k]).abs() <= 4e-6 * ws[k].abs() + 1e-30,
                "{}: all layers equal at joint {i} ({:?}) but the blend is {g:?}", b.brief(), p[i]);
        }
    }
    Ok(())
}

/// Ineffective layers (zero or negative weights) in any position change no bit.
fn c09_ineffective(s: &mut Src, c: &mut Case) -> Res {
    let b = blend_case(s, 10);
    c.describe(|| b.brief());
    let sk = b.skeleton();
    let (a, _) = run_blend(&b, &sk, None, 0)?;
    let mut d = b.clone();
    for _ in 0..1 + s.below(3) {
        let at = s.below(d.layers.len() + 1);
        let w = match s.draw(3) { 0 => 0.0, 1 => -0.0, _ => -s.unit() * 3.0 };
        let jw = if s.bool() { joint_weights(s, b.n) } else { Vec::new() };
        d.layers.insert(at, Layer { weight: w, pose: pose(s, b.n), jw });
    }
    for _ in 0..s.below(2) {
        let at = s.below(d.adds.len() + 1);
        let jw = if s.bool() { joint_weights(s, b.n) } else { Vec::new() };
        d.adds.insert(at, Layer { weight: 0.0, pose: pose(s, b.n), jw });
    }
    let (e, _) = run_blend(&d, &sk, None, 0)?;
    for i in 0..b.n {
        ensure!(bits(&soa_get(&a, i)) == bits(&soa_get(&e, i)), "{} and {}: ineffective layers change joint {i} from {:?} to {:?}", b.brief(), d.brief(), soa_get(&a, i), soa_get(&e, i));
    }
    c.nontrivial = b.n > 0 && b.layers.iter().any(|l| l.weight > 0.0);
    Ok(())
}

/// Additive then subtractive application of one delta is the identity; scale factors are undone.
fn c09_add_sub(s: &mut Src, c: &mut Case) -> Res {
    let n = 1 + s.len(10);
    let base = pose(s, n);
    let rest = pose(s, n);
    let mut delta = pose(s, n);
    for x in delta.iter_mut() { for v in &mut x[7..10] { *v = 0.5 + (*v).abs() % 1.5; } }
    let w = 0.05 + s.unit() * 0.95;
    let jw = if s.bool() { (0..n).map(|_| s.unit()).collect() } else { Vec::new() };
    let add = Layer { weight: w, pose: delta.clone(), jw: jw.clone() };
    let sub = Layer { weight: -w, pose: delta, jw };
    let one = Layer { weight: 1.0, pose: base, jw: Vec::new() };
    let b0 = Blend { n, rest: rest.clone(), layers: vec![one.clone()], adds: Vec::new(), threshold: 0.1 };
    let mut adds = vec![add, sub];
    if s.bool() { adds.swap(0, 1); }
    let b1 = Blend { n, rest, layers: vec![one], adds, threshold: 0.1 };
    c.describe(|| b1.brief());
    c.nontrivial = true;
    let sk = b0.skeleton();
    let (x, _) = run_blend(&b0, &sk, None, 0)?;
    let (y, _) = run_blend(&b1, &sk, None, 0)?;
    for i in 0..n {
        let (p, q) = (soa_get(&x, i), soa_get(&y, i));
        let (at, aq, as_) = xf64(&p);
        let (bt, bq, bs) = xf64(&q);
        let dt = xf64(&b1.adds[0].pose[i]).0;
        ensure!(qdiff(aq, bq) < 1e-5, "{}: adding and subtracting a delta turns joint {i} from {aq:?} to {bq:?}", b1.brief());
        for k in 0..3 {
            ensure!((at[k] - bt[k]).abs() <= 1e-6 * (at[k].abs() + dt[k].abs()) + 1e-30 && (as_[k] - bs[k]).abs() <= 4e-6 * as_[k].abs() + 1e-30,
                "{}: adding and subtracting a delta turns joint {i} from {p:?} to {q:?}", b1.brief());
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C21

pub fn c21_blending(s: &mut Src, c: &mut Case) -> Res {
    let mut b = blend_case(s, 60);
    if b.n == 0 { return Ok(()); }
    let n = b.n;
    // rotations nearly at right angles to the first layer's, where the sign of
    // the dot product is all that matters
    if b.layers.len() > 1 && s.draw(4) == 0 {
        c.label("near-orthogonal rotations");
        let first = b.layers[0].pose.clone();
        for l in b.layers.iter_mut().skip(1) {
            for (i, x) in l.pose.iter_mut().enumerate() {
                if s.draw(5) == 0 { continue; }
                let q = xf64(&first[i]).1;
                let p = match s.below(3) {
                    0 => [-q[1], q[0], -q[3], q[2]],
                    1 => [-q[2], q[3], q[0], -q[1]],
                    _ => [-q[3], -q[2], q[1], q[0]],
                };
                let e = 10f64.powf(-1.0 - 7.0 * s.unit() as f64) * if s.bool() { 1.0 } else { -1.0 };
                let r = qadd(p, qscale(q, e));
                for k in 0..4 { x[3 + k] = r[k] as f32; }
            }
        }
    }
    // foreign joints that hold anything at all
    let wild = s.draw(4) == 0;
    // a permutation of b's joints with foreign joints mixed in
    let extra = s.below(6);
    let m = n + extra;
    let mut p: Vec<usize> = (0..m).collect();
    for i in 0..m - 1 {
        let j = i + s.below(m - i);
        p.swap(i, j);
    }
    let mut d = b.clone();
    d.n = m;
    let mix = |v: &Vec<Xf>, s: &mut Src| -> Vec<Xf> {
        p.iter().map(|k| if *k < n { v[*k] } else if wild { std::array::from_fn(|_| any(s)) } else { xform_cheap(s) }).collect()
    };
    d.rest = mix(&b.rest, s);
    for (x, y) in d.layers.iter_mut().chain(d.adds.iter_mut()).zip(b.layers.iter().chain(b.adds.iter())) {
        x.pose = mix(&y.pose, s);
        if !y.jw.is_empty() {
            x.jw = p.iter().map(|k| if *k < n { y.jw[*k] } else if wild { any(s) } else { s.sym(2.0) }).collect();
        }
    }
    c.describe(|| format!("{}; permutation {p:?}", b.brief()));
    c.nontrivial = n > 4 && b.layers.len() + b.adds.len() > 0;
    let (x, _) = run_blend(&b, &b.skeleton(), None, 0)?;
    let (y, _) = run_blend(&d, &d.skeleton(), None, 0)?;
    for i in 0..m {
        if p[i] < n {
            let (u, v) = (soa_get(&x, p[i]), soa_get(&y, i));
            ensure!(bits(&u) == bits(&v), "{}: joint {} moved to position {i} blends to {v:?} instead of {u:?}", b.brief(), p[i]);
        }
    }
    b.n = n;
    Ok(())
}

// ------------------------------------------------------------------ C10

fn motion_weight(s: &mut Src) -> f32 {
    match s.draw(8) {
        0 => 1.0,
        1 => 0.0,
        2 => -s.unit() * 2.0,
        3 => *s.pick(&[1e-9, 1e-6, 1e-3, 100.0, 1e6, -0.0, -1e6]),
        _ => s.unit() * 2.0,
    }
}
pub fn motion_layers(s: &mut Src) -> Vec<(f32, V3, Q, V3)> {
    let n = if s.one_in(60) { 7 + s.below(60) } else if s.one_in(1000) { 250 + s.below(400) } else { s.draw(7) as usize };
    let mut out: Vec<(f32, V3, Q, V3)> = Vec::new();
    for i in 0..n {
        let mut t = match s.draw(6) {
            0 => [0.0; 3],
            1 => unit_vec(s),
            4 => scale(unit_vec(s), 50.0 * 10f64.powf(-7.5 * s.unit() as f64)),
            2 if i > 0 => scale(out[i - 1].1, -1.0),
            3 if i > 0 => scale(out[i - 1].1, 0.25 + s.unit() as f64 * 3.0),
            _ => scale(unit_vec(s), 0.001 + s.unit() as f64 * 50.0),
        };
        if len(t) < 1e-6 { t = [0.0; 3]; }
        let t = t.map(|x| x as f32 as f64);
        let mut q = unit_quat(s);
        if i > 0 && s.draw(6) == 0 { q = qscale(out[i - 1].2, -1.0); }
        // not quite unit, as accumulated deltas are
        if s.draw(6) == 5 { q = qscale(q, 0.7 + s.unit() as f64 * 0.8); }
        let q = q.map(|x| x as f32 as f64);
        out.push((motion_weight(s), t, q, [s.real(3.0) as f64, 1.0, 1.0]));
    }
    out
}
pub fn motion_delta(l: &(f32, V3, Q, V3)) -> Transform3A {
    let f = |v: V3| Vec3A::new(v[0] as f32, v[1] as f32, v[2] as f32);
    Transform3A { translation: f(l.1), rotation: Quat::from_xyzw(l.2[0] as f32, l.2[1] as f32, l.2[2] as f32, l.2[3] as f32), scale: f(l.3) }
}
fn run_motion(ls: &[(f32, V3, Q, V3)]) -> Result<Transform3A, String> {
    let mut job = MotionBlendingJob::default();
    job.set_output(Transform3A { translation: Vec3A::splat(9.0), rotation: Quat::from_xyzw(1.0, 0.0, 0.0, 0.0), scale: Vec3A::splat(5.0) });
    for l in ls {
        job.layers_mut().push(MotionBlendingLayer { weight: l.0, delta: motion_delta(l) });
    }
    ensure!(job.validate(), "motion blending job not accepted");
    job.run().map_err(|e| format!("{e:?}"))?;
    Ok(job.output())
}
fn motion_brief(ls: &[(f32, V3, Q, V3)]) -> String {
    ls.iter().map(|l| format!("w={:?} t={:?} q={:?}", l.0, l.1, l.2)).collect::<Vec<_>>().join(" | ")
}

fn c10_reference(s: &mut Src, c: &mut Case) -> Res {
    let ls = motion_layers(s);
    c.describe(|| motion_brief(&ls));
    let o = run_motion(&ls)?;
    let eff: Vec<_> = ls.iter().filter(|l| l.0 > 0.0).collect();
    c.nontrivial = eff.len() > 1;
    let got_t = v3a(o.translation);
    let got_q = q4(o.rotation);
    ensure!(o.scale == Vec3A::ONE, "{}: scale {:?} is not one", motion_brief(&ls), o.scale);
    if eff.is_empty() {
        c.label("no effective layer");
        ensure!(o.translation == Vec3A::ZERO && o.rotation == Quat::IDENTITY, "{}: no effective layer, but the result is {o:?}", motion_brief(&ls));
        return Ok(());
    }
    let nn = (eff.len() as f64 / 8.0).max(1.0);
    let acc: f64 = eff.iter().map(|l| l.0 as f64).sum();
    let avg: f64 = eff.iter().map(|l| l.0 as f64 * len(l.1)).sum::<f64>() / acc;
    let mut dir = [0.0; 3];
    let mut q = [0.0; 4];
    let mut amb = false;
    for l in &eff {
        let w = l.0 as f64;
        if len(l.1) > 0.0 { dir = add(dir, scale(norm(l.1), w)); }
        let d = qdot(q, l.2);
        let a = qlen(q);
        if w > 1e-6 * a && a > 1e-6 * w && d.abs() < 1e-5 * a { amb = true; }
        q = qadd(q, qscale(l.2, if d < 0.0 { -w } else { w }));
    }
    ensure!((qlen(got_q) - 1.0).abs() < 1e-5, "{}: rotation {got_q:?} is not unit", motion_brief(&ls));
    if amb { c.label("hemisphere undecidable"); } else {
        let w = qnorm(q);
        ensure!(qdiff(got_q, w) < 1e-5 * nn, "{}: rotation {got_q:?}, want {w:?}", motion_brief(&ls));
    }
    ensure!(got_t.iter().all(|x| x.is_finite()), "{}: translation {got_t:?}", motion_brief(&ls));
    let dl = len(dir) / acc;
    if dl > 1e-3 {
        let want = scale(norm(dir), avg);
        let tol = avg * (2e-6 + 2e-6 / dl) * nn;
        for k in 0..3 {
            ensure!((got_t[k] - want[k]).abs() <= tol, "{}: translation {got_t:?}, want {want:?}", motion_brief(&ls));
        }
    } else {
        c.label("directions cancel out");
        let l = len(got_t);
        ensure!(l == 0.0 || (l - avg).abs() <= 1e-3 * avg, "{}: translation length {l}, weighted average {avg}", motion_brief(&ls));
    }
    Ok(())
}

/// Common weight scale by powers of two, ineffective layers and (for
/// translation) layer order do not matter.
fn c10_invariance(s: &mut Src, c: &mut Case) -> Res {
    let ls = motion_layers(s);
    let k = *s.pick(&[2.0f32, 0.5, 16.0, 0.0625, 1024.0]);
    c.describe(|| format!("{} scaled by {k}", motion_brief(&ls)));
    c.nontrivial = ls.iter().filter(|l| l.0 > 0.0).count() > 1;
    let a = run_motion(&ls)?;
    let mut m = ls.clone();
    for l in m.iter_mut() { l.0 *= k; }
    for _ in 0..s.below(3) {
        let at = s.below(m.len() + 1);
        let w = *s.pick(&[0.0f32, -0.0, -1.0, -1e6]);
        let t = scale(unit_vec(s), 7.0);
        let q = unit_quat(s);
        m.insert(at, (w, t, q, [1.0; 3]));
    }
    let b = run_motion(&m)?;
    let fa = [v3a(a.translation), v3a(b.translation)];
    let e = len(sub(fa[0], fa[1]));
    ensure!(e <= 1e-5 * len(fa[0]).max(1e-9), "{}: translation {:?} becomes {:?} with all weights scaled by {k}", motion_brief(&ls), fa[0], fa[1]);
    ensure!(qdiff(q4(a.rotation), q4(b.rotation)) < 1e-6, "{}: rotation {:?} becomes {:?} with all weights scaled by {k}", motion_brief(&ls), a.rotation, b.rotation);
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C09",
            rule: "at least one joint and two effective (or additive) layers; for the metamorphic facets: several layers / an effective layer",
            assumptions: &[
                "layer and rest rotations are unit quaternions (to f32 rounding), weights finite and at most 1e6, thresholds at least 1e-6",
                "where a hemisphere decision is within rounding of a tie only the length of the rotation is checked",
            ],
            facets: &[
                Facet { name: "reference", run: c09_reference, quick: 3_000_000, thorough: 150_000_000 },
                Facet { name: "same", run: c09_same, quick: 800_000, thorough: 40_000_000 },
                Facet { name: "ineffective", run: c09_ineffective, quick: 800_000, thorough: 40_000_000 },
                Facet { name: "addsub", run: c09_add_sub, quick: 800_000, thorough: 40_000_000 },
            ],
        },
        Prop {
            id: "C10",
            rule: "at least two layers with positive weight",
            assumptions: &["weights between 1e-9 and 1e6 (or not positive), translation lengths 0 or between 1e-6 and 1e3", "hemisphere ties and cancelling directions: only lengths are checked"],
            facets: &[
                Facet { name: "reference", run: c10_reference, quick: 18_000_000, thorough: 900_000_000 },
                Facet { name: "invariance", run: c10_invariance, quick: 9_000_000, thorough: 450_000_000 },
            ],
        },
    ]
}
