//! Workloads whose results must not depend on the platform (C19). Compiled
//! into the harness and into every variant of /verif/xplat; uses no math
//! beyond + - * / and sqrt, so that all variants generate the same inputs.

use crate::archw;
use crate::engine::{Rng, Src};
use crate::gen::*;
use glam::{Mat4, Quat, Vec2, Vec3, Vec3A, Vec4};
use glam_ext::Transform3A;
use ozz_animation_rs::math::*;
use ozz_animation_rs::*;
use std::simd::prelude::*;

#[derive(Default)]
pub struct Out {
    pub words: Vec<u32>,
    /// (first word, what follows)
    pub labels: Vec<(usize, &'static str)>,
    pub input: u64,
    pub nontrivial: bool,
    pub wild: bool,
}
impl Out {
    fn at(&mut self, l: &'static str) { self.labels.push((self.words.len(), l)); }
    fn f(&mut self, x: f32) { self.words.push(if x.is_nan() { 0x7fc0_0000 } else { x.to_bits() }); }
    fn fs(&mut self, xs: &[f32]) { for x in xs { self.f(*x); } }
    fn u(&mut self, x: u32) { self.words.push(x); }
    fn soa(&mut self, v: &[SoaTransform]) {
        for t in v {
            for x in [t.translation.x, t.translation.y, t.translation.z, t.rotation.x, t.rotation.y, t.rotation.z, t.rotation.w, t.scale.x, t.scale.y, t.scale.z] {
                self.fs(&x.to_array());
            }
        }
    }
    fn err(&mut self, e: &OzzError) {
        self.at("error");
        for b in format!("{e:?}").bytes() { self.u(b as u32); }
    }
    fn inp(&mut self, x: u64) { self.input = (self.input.rotate_left(7) ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15); }
    fn inf(&mut self, xs: &[f32]) { for x in xs { self.inp(if x.is_nan() { 1 } else { x.to_bits() as u64 }); } }
    pub fn hash(&self) -> u64 {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for w in &self.words { h = (h.rotate_left(5) ^ *w as u64).wrapping_mul(0x517c_c1b7_2722_0a95); h ^= h >> 29; }
        h
    }
}

pub const NAMES: [&str; 12] = ["sampling", "blending", "local_to_model", "skinning", "ik_aim", "ik_two_bone", "track_sampling", "track_triggering", "motion_blending", "math", "loading", "name_order"];

pub fn run(facet: usize, s: &mut Src, o: &mut Out) {
    match facet {
        0 => sampling(s, o),
        1 => blending(s, o),
        2 => l2m(s, o),
        3 => skinning(s, o),
        4 => ik_aim(s, o),
        5 => ik_two_bone(s, o),
        6 => track_sampling(s, o),
        7 => track_triggering(s, o),
        8 => motion(s, o),
        9 => math(s, o),
        10 => loading(s, o),
        _ => name_order(s, o),
    }
}

// ---------------------------------------------------------------- values

/// A number; `w`: 0 ordinary, 1 any finite, 2 anything.
fn num(s: &mut Src, w: u64) -> f32 {
    match w {
        0 => s.real(4.0),
        1 => match s.draw(8) {
            0 => s.finite(),
            1 => *s.pick(&[-0.0, 0.0, 1e-30, -1e-38, 1e15, -3e10, f32::MIN_POSITIVE, 1.0]),
            _ => s.sym(10.0),
        },
        _ => match s.draw(12) {
            0 => *s.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -0.0, f32::MAX, f32::MIN, -f32::NAN]),
            1 | 2 => s.finite(),
            _ => s.sym(10.0),
        },
    }
}
fn wildness(s: &mut Src, o: &mut Out) -> u64 {
    let w = [0, 0, 0, 1, 1, 2][s.below(6)];
    o.wild = w > 0;
    w
}
fn nums<const N: usize>(s: &mut Src, w: u64) -> [f32; N] {
    let mut r = [0.0; N];
    for x in r.iter_mut() { *x = num(s, w); }
    r
}
fn qn(s: &mut Src, w: u64) -> Quat {
    if w > 0 && s.one_in(8) { return Quat::from_array(nums(s, w)); }
    quat32(s)
}
fn wpose(s: &mut Src, o: &mut Out, n: usize, w: u64) -> Vec<SoaTransform> {
    let mut p = pose(s, n);
    if w > 0 {
        for x in p.iter_mut() {
            if s.one_in(3) { let k = s.below(10); x[k] = num(s, w); }
        }
    }
    for x in &p { o.inf(x); }
    to_soa(&p, &XF_ID)
}
fn mat(s: &mut Src, w: u64) -> Mat4 {
    let q = qn(s, w);
    let t = Vec3::from(nums::<3>(s, w));
    let k = if s.bool() { Vec3::ONE } else { Vec3::from(nums::<3>(s, w)) };
    // columns by hand: only + and *
    let (x, y, z, ww) = (q.x, q.y, q.z, q.w);
    Mat4::from_cols(
        Vec4::new((1.0 - 2.0 * (y * y + z * z)) * k.x, 2.0 * (x * y + z * ww) * k.x, 2.0 * (x * z - y * ww) * k.x, 0.0),
        Vec4::new(2.0 * (x * y - z * ww) * k.y, (1.0 - 2.0 * (x * x + z * z)) * k.y, 2.0 * (y * z + x * ww) * k.y, 0.0),
        Vec4::new(2.0 * (x * z + y * ww) * k.z, 2.0 * (y * z - x * ww) * k.z, (1.0 - 2.0 * (x * x + y * y)) * k.z, 0.0),
        Vec4::new(t.x, t.y, t.z, 1.0),
    )
}
fn in_mat(o: &mut Out, m: &Mat4) { o.inf(&m.to_cols_array()); }

// ---------------------------------------------------------------- jobs

fn anim_for(s: &mut Src, o: &mut Out) -> (AnimSpec, Animation) {
    let spec = anim_spec(s, &AnimOpts { max_tracks: 24, max_timepoints: 40, hemisphere: false });
    let b = archw::animation_bytes(&spec.data(), false);
    for c in b.chunks(8) { o.inp(c.iter().fold(0, |a, x| a << 8 | *x as u64)); }
    let a = Animation::from_archive(&mut Archive::from_slice(&b).unwrap()).expect("load");
    (spec, a)
}
fn sampling(s: &mut Src, o: &mut Out) {
    let (spec, a) = anim_for(s, o);
    let n = a.num_soa_tracks();
    let steps = 1 + s.below(6);
    o.nontrivial = spec.max_keys() > 2;
    let mut j: SamplingJobRef = SamplingJob::default();
    let mut out = vec![SoaTransform::IDENTITY; n];
    let mut ctx = SamplingContext::new(a.num_tracks());
    j.set_animation(&a);
    j.set_context(&mut ctx);
    j.set_output(&mut out);
    for _ in 0..steps {
        let r = match s.draw(12) { 0 => num(s, 2), _ => anim_ratio(s, &spec.timepoints) };
        o.inf(&[r]);
        j.set_ratio(r);
        o.at("sampled pose");
        o.f(j.ratio());
        match j.run() { Ok(()) => o.soa(j.output().unwrap()), Err(e) => o.err(&e) }
    }
    drop(j);
    o.at("context");
    o.f(ctx.ratio());
    for k in ctx.translation_entries().iter().chain(ctx.rotation_entries()).chain(ctx.scale_entries()) { o.u(*k); }
    for k in [ctx.translation_next(), ctx.rotation_next(), ctx.scale_next()] { o.u(k as u32); }
}

fn skel_for(s: &mut Src, o: &mut Out, n: usize) -> Skeleton {
    let spec = skel_spec(s, n);
    let b = archw::skeleton_bytes(&spec, false);
    for c in b.chunks(8) { o.inp(c.iter().fold(0, |a, x| a << 8 | *x as u64)); }
    Skeleton::from_archive(&mut Archive::from_slice(&b).unwrap()).expect("load")
}
fn weight(s: &mut Src, w: u64) -> f32 {
    match s.draw(6) { 0 => 0.0, 1 => 1.0, 2 if w > 0 => num(s, w), 3 if w > 0 => -0.0, _ => s.unit() }
}
fn blending(s: &mut Src, o: &mut Out) {
    let w = wildness(s, o);
    let n = 1 + s.len(16);
    let sk = skel_for(s, o, n);
    let soa = sk.num_soa_joints();
    let (nl, na) = (s.below(4), s.below(3));
    o.nontrivial = nl + na > 0;
    let poses: Vec<Vec<SoaTransform>> = (0..nl + na).map(|_| wpose(s, o, n, w)).collect();
    let mut out = vec![SoaTransform::IDENTITY; soa];
    let mut j: BlendingJobRef = BlendingJob::default();
    j.set_skeleton(&sk);
    let th = if s.bool() { 0.1 } else { s.unit() + 1e-3 };
    j.set_threshold(th);
    o.inf(&[th]);
    for (k, p) in poses.iter().enumerate() {
        let x = weight(s, w);
        o.inf(&[x]);
        let mut l = BlendingLayer::with_weight(&p[..], x);
        if s.one_in(3) {
            for _ in 0..soa {
                let a = [weight(s, w), weight(s, w), weight(s, w), weight(s, w)];
                o.inf(&a);
                l.joint_weights.push(Vec4::from(a));
            }
        }
        if k < nl { j.layers_mut().push(l) } else { j.additive_layers_mut().push(l) }
    }
    j.set_output(&mut out);
    o.at("blended pose");
    match j.run() { Ok(()) => o.soa(j.output().unwrap()), Err(e) => o.err(&e) }
}

fn l2m(s: &mut Src, o: &mut Out) {
    let w = wildness(s, o);
    let n = 1 + s.len(30);
    let sk = skel_for(s, o, n);
    let mut m = vec![Mat4::IDENTITY; n];
    o.nontrivial = n > 1;
    for k in 0..1 + s.below(3) {
        let p = wpose(s, o, n, w);
        let root = mat(s, w);
        in_mat(o, &root);
        let mut j: LocalToModelJobRef = LocalToModelJob::default();
        j.set_skeleton(&sk);
        j.set_input(&p);
        if s.bool() { j.set_root(&root); }
        if k > 0 {
            j.set_from(s.below(n) as i32 - s.draw(2) as i32);
            j.set_to(if s.bool() { n as i32 } else { s.below(n) as i32 });
            j.set_from_excluded(s.bool());
        }
        j.set_output(&mut m);
        let r = j.run();
        drop(j);
        o.at("model matrices");
        match r { Ok(()) => for x in &m { o.fs(&x.to_cols_array()); }, Err(e) => o.err(&e) }
    }
}

fn skinning(s: &mut Src, o: &mut Out) {
    let w = wildness(s, o);
    let (v, n, jn) = (1 + s.below(8), 1 + s.below(6), 1 + s.below(8));
    let ms: Vec<Mat4> = (0..jn).map(|_| mat(s, w)).collect();
    let its: Vec<Mat4> = (0..jn).map(|_| mat(s, w)).collect();
    for m in ms.iter().chain(&its) { in_mat(o, m); }
    let idx: Vec<u16> = (0..v * n).map(|_| s.below(jn) as u16).collect();
    for i in &idx { o.inp(*i as u64); }
    let ws: Vec<f32> = (0..v * n.max(2)).map(|_| weight(s, w) / n as f32).collect();
    o.inf(&ws);
    let mut vs = |o: &mut Out| -> Vec<Vec3> { (0..v).map(|_| { let x = nums::<3>(s, w); o.inf(&x); Vec3::from(x) }).collect() };
    let (pos, nor, tan) = (vs(o), vs(o), vs(o));
    let kind = s.draw(3);
    let it = s.bool();
    o.nontrivial = true;
    let (mut a, mut b, mut c) = (vec![Vec3::ZERO; v], vec![Vec3::ZERO; v], vec![Vec3::ZERO; v]);
    let mut j: SkinningJobRef = SkinningJob::default();
    j.set_vertex_count(v);
    j.set_influences_count(n);
    j.set_joint_matrices(&ms);
    if it { j.set_joint_it_matrices(&its); }
    j.set_joint_indices(&idx);
    if n > 1 { j.set_joint_weights(&ws); }
    j.set_in_positions(&pos);
    j.set_out_positions(&mut a);
    if kind > 0 { j.set_in_normals(&nor); j.set_out_normals(&mut b); }
    if kind > 1 { j.set_in_tangents(&tan); j.set_out_tangents(&mut c); }
    let r = j.run();
    drop(j);
    o.at("skinned positions, normals, tangents");
    match r { Ok(()) => for x in [&a, &b, &c] { for x in x { o.fs(&x.to_array()); } }, Err(e) => o.err(&e) }
}

fn v3n(s: &mut Src, o: &mut Out, w: u64) -> Vec3A {
    let x = nums::<3>(s, w);
    o.inf(&x);
    Vec3A::from(x)
}
fn axis(s: &mut Src, o: &mut Out, w: u64) -> Vec3A {
    let u = unit_vec(s);
    let x = if w > 1 && s.one_in(12) { nums::<3>(s, w) } else { [u[0] as f32, u[1] as f32, u[2] as f32] };
    o.inf(&x);
    Vec3A::from(x)
}
fn ik_aim(s: &mut Src, o: &mut Out) {
    let w = wildness(s, o);
    let m = mat(s, w);
    in_mat(o, &m);
    let mut j = IKAimJob::default();
    j.set_joint(m);
    j.set_target(v3n(s, o, w));
    j.set_forward(axis(s, o, w));
    j.set_offset(if s.bool() { Vec3A::ZERO } else { v3n(s, o, w) });
    j.set_up(axis(s, o, w));
    j.set_pole_vector(v3n(s, o, w));
    let (t, x) = (num(s, w), weight(s, w));
    o.inf(&[t, x]);
    j.set_twist_angle(t);
    j.set_weight(x);
    o.nontrivial = x != 0.0;
    o.at("aim correction");
    match j.run() {
        Ok(()) => { o.fs(&j.joint_correction().to_array()); o.u(j.reached() as u32) }
        Err(e) => o.err(&e),
    }
}
fn ik_two_bone(s: &mut Src, o: &mut Out) {
    let w = wildness(s, o);
    let mut j = IKTwoBoneJob::default();
    let (a, b, c) = (mat(s, w), mat(s, w), mat(s, w));
    for m in [&a, &b, &c] { in_mat(o, m); }
    j.set_start_joint(a);
    j.set_mid_joint(b);
    j.set_end_joint(c);
    j.set_target(v3n(s, o, w));
    j.set_pole_vector(v3n(s, o, w));
    j.set_mid_axis(axis(s, o, w));
    let (t, x, k) = (num(s, w), weight(s, w), s.ratio());
    o.inf(&[t, x, k]);
    j.set_twist_angle(t);
    j.set_weight(x);
    j.set_soften(k);
    o.nontrivial = x != 0.0;
    o.at("two-bone corrections");
    match j.run() {
        Ok(()) => {
            o.fs(&j.start_joint_correction().to_array());
            o.fs(&j.mid_joint_correction().to_array());
            o.u(j.reached() as u32)
        }
        Err(e) => o.err(&e),
    }
}

fn track_bytes_for(s: &mut Src, o: &mut Out, dim: usize) -> (TrackSpec, Vec<u8>) {
    let w = s.draw(3) / 2;
    o.wild = w > 0;
    let mut t = track_spec(s, dim, &TrackOpts { max_keys: 20, patched: s_patched(w), range: 5.0 });
    if w > 0 {
        for v in t.values.iter_mut() { if s.one_in(4) { v[s.below(t.dim.min(4))] = num(s, 2); } }
    }
    let b = archw::track_bytes(&t, false);
    for c in b.chunks(8) { o.inp(c.iter().fold(0, |a, x| a << 8 | *x as u64)); }
    (t, b)
}
fn s_patched(w: u64) -> bool { w == 0 }

fn track_sampling(s: &mut Src, o: &mut Out) {
    let dim = 1 + s.below(5);
    let (t, b) = track_bytes_for(s, o, dim);
    o.nontrivial = t.ratios.len() > 1;
    let rs: Vec<f32> = (0..1 + s.below(6)).map(|_| match s.draw(6) { 0 => num(s, 2), 1 | 2 if !t.ratios.is_empty() => *s.pick(&t.ratios), _ => s.unit() }).collect();
    o.inf(&rs);
    macro_rules! go {
        ($t:ty, $f:expr) => {{
            let tr = Track::<$t>::from_archive(&mut Archive::from_slice(&b).unwrap()).expect("load");
            let mut j: TrackSamplingJobRef<$t> = TrackSamplingJob::default();
            j.set_track(&tr);
            for r in &rs {
                j.set_ratio(*r);
                o.at("track value");
                match j.run() { Ok(()) => { let v: Vec<f32> = $f(j.result()); o.fs(&v) } Err(e) => o.err(&e) }
            }
        }};
    }
    match dim {
        1 => go!(f32, |x: f32| vec![x]),
        2 => go!(Vec2, |x: Vec2| x.to_array().to_vec()),
        3 => go!(Vec3, |x: Vec3| x.to_array().to_vec()),
        4 => go!(Vec4, |x: Vec4| x.to_array().to_vec()),
        _ => go!(Quat, |x: Quat| x.to_array().to_vec()),
    }
}
fn track_triggering(s: &mut Src, o: &mut Out) {
    let (t, b) = track_bytes_for(s, o, 1);
    let tr = Track::<f32>::from_archive(&mut Archive::from_slice(&b).unwrap()).expect("load");
    let mut j: TrackTriggeringJobRef = TrackTriggeringJob::default();
    j.set_track(&tr);
    for _ in 0..1 + s.below(3) {
        let th = if s.bool() && !t.values.is_empty() { s.pick(&t.values)[0] } else { s.sym(5.0) };
        let (f, to) = (s.sym(3.0), s.sym(3.0));
        o.inf(&[th, f, to]);
        j.set_threshold(th);
        j.set_from(f);
        j.set_to(to);
        o.at("edges");
        match j.run() {
            Ok(it) => for e in it.take(2000) {
                // the fields are private; Debug prints floats exactly
                let d = format!("{e:?}");
                let x: f32 = d.split("ratio: ").nth(1).and_then(|r| r.split([',', ' ', '}']).next()).and_then(|r| r.parse().ok()).unwrap_or(f32::NAN);
                o.f(x);
                o.u(d.contains("true") as u32);
                o.nontrivial = true;
            },
            Err(e) => o.err(&e),
        }
    }
}

fn motion(s: &mut Src, o: &mut Out) {
    let w = wildness(s, o);
    let n = s.below(5);
    o.nontrivial = n > 0;
    let ds: Vec<(Transform3A, f32)> = (0..n).map(|_| {
        let t = v3n(s, o, w);
        let q = qn(s, w);
        let x = weight(s, w);
        o.inf(&q.to_array());
        o.inf(&[x]);
        (Transform3A { translation: t, rotation: q, scale: Vec3A::ONE }, x)
    }).collect();
    let mut j = MotionBlendingJob::default();
    for (d, x) in &ds { j.layers_mut().push(MotionBlendingLayer { delta: *d, weight: *x }); }
    let r = j.run();
    let out = j.output();
    o.at("blended motion");
    match r {
        Ok(()) => { o.fs(&out.translation.to_array()); o.fs(&out.rotation.to_array()); o.fs(&out.scale.to_array()) }
        Err(e) => o.err(&e),
    }
}

fn math(s: &mut Src, o: &mut Out) {
    let w = wildness(s, o);
    o.nontrivial = true;
    for _ in 0..4 {
        let x = match s.draw(4) { 0 => f32::from_bits(s.draw(1 << 32) as u32), 1 => s.sym(8192.0), _ => num(s, w) };
        o.inf(&[x]);
        o.at("sin, cos, asin, acos");
        let (a, b) = f32_sin_cos(x);
        o.fs(&[a, b, f32_sin(x), f32_cos(x), f32_asin(x), f32_acos(x)]);
    }
    let mut l = |o: &mut Out| { let x = nums::<4>(s, w); o.inf(&x); x };
    let (a, b) = (SoaVec3::new(l(o), l(o), l(o)), SoaVec3::new(l(o), l(o), l(o)));
    let (p, q) = (SoaQuat::new(l(o), l(o), l(o), l(o)), SoaQuat::new(l(o), l(o), l(o), l(o)));
    let f = f32x4::from_array(l(o));
    let v = |o: &mut Out, v: SoaVec3| { for x in [v.x, v.y, v.z] { o.fs(&x.to_array()); } };
    let k = |o: &mut Out, v: SoaQuat| { for x in [v.x, v.y, v.z, v.w] { o.fs(&x.to_array()); } };
    o.at("SoaVec3 neg, add, sub, mul_num, lerp");
    for x in [a.neg(), a.add(&b), a.sub(&b), a.mul_num(f), SoaVec3::lerp(&a, &b, f)] { v(o, x); }
    o.at("SoaQuat conjugate, add, mul, mul_num, normalize, nlerp, positive_w, dot");
    for x in [p.conjugate(), p.add(&q), p.mul(&q), p.mul_num(f), p.normalize(), p.nlerp(&q, f), p.positive_w()] { k(o, x); }
    o.fs(&p.dot(&q).to_array());
    o.at("SoaMat4::from_affine");
    for c in SoaMat4::from_affine(&a, &p, &b).cols { o.fs(&c.to_array()); }
}

/// What loading makes of archives, valid or damaged.
fn loading(s: &mut Src, o: &mut Out) {
    let big = s.bool();
    let kind = s.draw(3);
    let mut b = match kind {
        0 => { let n = s.len(20); let k = skel_spec(s, n); archw::skeleton_bytes(&k, big) }
        1 => archw::animation_bytes(&anim_spec(s, &AnimOpts { max_tracks: 12, max_timepoints: 20, hemisphere: false }).data(), big),
        _ => { let d = 1 + s.below(5); archw::track_bytes(&track_spec(s, d, &TrackOpts { max_keys: 12, patched: true, range: 5.0 }), big) }
    };
    o.nontrivial = true;
    if s.bool() {
        o.wild = true;
        for _ in 0..1 + s.below(3) {
            let i = s.below(b.len());
            b[i] = s.draw(256) as u8;
        }
        if s.one_in(4) { let n = s.below(b.len()); b.truncate(n); }
    }
    for c in b.chunks(8) { o.inp(c.iter().fold(0, |a, x| a << 8 | *x as u64)); }
    let mut ar = match Archive::from_slice(&b) { Ok(a) => a, Err(e) => { o.at("tag"); return o.err(&e) } };
    o.at("loaded");
    match kind {
        0 => match Skeleton::from_archive(&mut ar) {
            Ok(k) => {
                for p in k.joint_parents() { o.u(*p as u16 as u32); }
                o.soa(k.joint_rest_poses());
                let mut names: Vec<(i16, String)> = k.joint_names().iter().map(|(n, i)| (*i, n.to_string())).collect();
                names.sort();
                for (i, n) in names { o.u(i as u16 as u32); for c in n.bytes() { o.u(c as u32); } }
            }
            Err(e) => load_err(o, &e),
        },
        1 => match Animation::from_archive(&mut ar) {
            Ok(a) => {
                o.f(a.duration());
                o.u(a.num_tracks() as u32);
                for c in a.name().bytes() { o.u(c as u32); }
                o.fs(a.timepoints());
            }
            Err(e) => load_err(o, &e),
        },
        _ => macro_track(&b, o),
    }
}
/// The order of joint names is the same in every process of one platform.
fn name_order(s: &mut Src, o: &mut Out) {
    let n = 2 + s.len(60);
    let k = skel_spec(s, n);
    let b = archw::skeleton_bytes(&k, false);
    for c in b.chunks(8) { o.inp(c.iter().fold(0, |a, x| a << 8 | *x as u64)); }
    o.nontrivial = true;
    match Archive::from_slice(&b).and_then(|mut a| Skeleton::from_archive(&mut a)) {
        Ok(k) => {
            o.at("order of joint names");
            for (_, i) in k.joint_names().iter() { o.u(*i as u16 as u32); }
        }
        Err(e) => load_err(o, &e),
    }
}
fn macro_track(b: &[u8], o: &mut Out) {
    macro_rules! go {
        ($t:ty) => {
            match Track::<$t>::from_archive(&mut Archive::from_slice(b).unwrap()) {
                Ok(t) => { o.u(t.key_count() as u32); o.fs(t.ratios()); for c in t.name().bytes() { o.u(c as u32); } }
                Err(e) => load_err(o, &e),
            }
        };
    }
    go!(f32);
    go!(Vec2);
    go!(Vec3);
    go!(Vec4);
    go!(Quat);
}
fn load_err(o: &mut Out, _: &OzzError) {
    // the kind of error may name what the platform could not provide
    o.at("load error");
    o.u(0xE0);
}

/// Keeps `Rng` used in every variant.
pub fn rng(seed: u64) -> Rng { Rng::new(seed) }
