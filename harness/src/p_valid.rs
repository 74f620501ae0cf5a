//! C16: validation and execution agree, errors leave outputs alone.
//!
//! Every facet drives one job object through a random sequence of set/clear
//! operations while a model tracks what is present, how long it is and
//! whether its lock is poisoned.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::p_params::{any, any3, any_mat};
use glam::{Mat4, Quat, Vec3, Vec3A, Vec4};
use glam_ext::Transform3A;
use ozz_animation_rs::*;
use std::sync::{Arc, PoisonError};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Want {
    /// validate() is true and run() succeeds
    Valid,
    /// validate() is false and run() fails with InvalidJob
    Invalid,
    /// validate() is false and run() fails with LockPoison
    Poisoned,
    /// invalid and poisoned: either error
    Both,
    /// only something the job does not need is poisoned: either, but consistently
    Unneeded,
}

/// Model of one buffer.
#[derive(Clone)]
struct Slot<T: 'static + std::fmt::Debug + Clone> {
    buf: OzzArcBuf<T>,
    len: usize,
    poisoned: bool,
}
impl<T: 'static + std::fmt::Debug + Clone + Send + Sync> Slot<T> {
    fn new(v: Vec<T>, poison: bool) -> Slot<T> {
        let len = v.len();
        let buf = ozz_arc_buf(v);
        if poison {
            let b = buf.clone();
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                let _g = b.write().unwrap();
                std::panic::resume_unwind(Box::new(()));
            }));
        }
        Slot { buf, len, poisoned: poison }
    }
    fn snap(&self) -> Vec<T> {
        self.buf.read().unwrap_or_else(PoisonError::into_inner).clone()
    }
}

/// Collects the model's verdict.
struct Verdict {
    invalid: bool,
    poisoned: bool,
    unneeded: bool,
}
impl Verdict {
    fn new() -> Verdict {
        Verdict { invalid: false, poisoned: false, unneeded: false }
    }
    fn need(&mut self, present: bool) {
        self.invalid |= !present;
    }
    fn buf<T: 'static + std::fmt::Debug + Clone>(&mut self, s: &Option<Slot<T>>, min: usize) {
        match s {
            None => self.invalid = true,
            Some(s) => {
                self.invalid |= s.len < min;
                self.poisoned |= s.poisoned;
            }
        }
    }
    fn unneeded<T: 'static + std::fmt::Debug + Clone>(&mut self, s: &Option<Slot<T>>) {
        self.unneeded |= s.as_ref().map_or(false, |s| s.poisoned);
    }
    fn want(&self) -> Want {
        match (self.invalid, self.poisoned, self.unneeded) {
            (true, false, false) => Want::Invalid,
            (true, _, _) => Want::Both,
            (false, true, _) => Want::Poisoned,
            (false, false, true) => Want::Unneeded,
            _ => Want::Valid,
        }
    }
}

fn judge(want: Want, validate: Option<bool>, r: &Result<(), OzzError>, c: &mut Case, what: &str) -> Res {
    c.label(match want {
        Want::Valid => "valid",
        Want::Invalid => "invalid",
        Want::Poisoned => "poisoned",
        Want::Both => "invalid and poisoned",
        Want::Unneeded => "unneeded buffer poisoned",
    });
    match want {
        Want::Valid => ensure!(r.is_ok(), "{what}: a valid job fails with {r:?}"),
        Want::Invalid => ensure!(matches!(r, Err(OzzError::InvalidJob)), "{what}: an invalid job gives {r:?} instead of InvalidJob"),
        Want::Poisoned => ensure!(matches!(r, Err(OzzError::LockPoison)), "{what}: a poisoned lock gives {r:?} instead of LockPoison"),
        Want::Both => ensure!(matches!(r, Err(OzzError::LockPoison) | Err(OzzError::InvalidJob)), "{what}: an invalid job with a poisoned lock gives {r:?}"),
        Want::Unneeded => ensure!(matches!(r, Err(OzzError::LockPoison) | Ok(())), "{what}: a valid job gives {r:?}"),
    }
    if let Some(v) = validate {
        ensure!(v == r.is_ok(), "{what}: validate() is {v} but run() gives {r:?}");
    }
    Ok(())
}

fn poison(s: &mut Src) -> bool {
    s.draw(16) == 15
}
/// A length around `need`.
fn length(s: &mut Src, need: usize) -> usize {
    match s.draw(8) {
        0 => 0,
        1 => need.saturating_sub(1),
        2 => need + 1,
        3 => need + s.below(5),
        4 => s.below(need + 1),
        _ => need,
    }
}

fn sentinel(n: usize) -> Vec<SoaTransform> {
    (0..n).map(|k| soa_sentinel(k as u32)).collect()
}
fn identities(n: usize) -> Vec<SoaTransform> {
    vec![SoaTransform::IDENTITY; n]
}

// ------------------------------------------------------------- sampling

fn c16_sampling(s: &mut Src, c: &mut Case) -> Res {
    let anims: Vec<(Arc<Animation>, usize)> = (0..2)
        .map(|_| {
            let max_tracks = if s.one_in(50) { 600 } else { 30 };
            let spec = anim_spec(s, &AnimOpts { max_tracks, max_timepoints: 8, hemisphere: true });
            (Arc::new(spec.build()), spec.num_tracks.div_ceil(4))
        })
        .collect();
    let mut job: SamplingJobArc = SamplingJob::default();
    let (mut anim, mut ctx, mut out): (Option<usize>, Option<usize>, Option<Slot<SoaTransform>>) = (None, None, None);
    let mut log = Vec::new();
    let steps = 1 + s.len(24);
    if s.draw(3) != 0 {
        // start from a complete job
        let a = s.below(2);
        job.set_animation(anims[a].0.clone());
        anim = Some(a);
        job.set_context(SamplingContext::new(anims[a].1 * 4));
        ctx = Some(anims[a].1);
        out = Some(Slot::new(sentinel(anims[a].1), false));
        job.set_output(out.as_ref().unwrap().buf.clone());
    }
    for _ in 0..steps {
        let need = anim.map_or(1, |a| anims[a].1);
        match s.draw(9) {
            0 => {
                job.clear_animation();
                anim = None;
                log.push("clear_animation".into());
            }
            1 | 2 => {
                let a = s.below(2);
                job.set_animation(anims[a].0.clone());
                anim = Some(a);
                log.push(format!("set_animation(soa {})", anims[a].1));
            }
            3 => {
                if s.bool() { job.clear_context() } else { job.take_context(); }
                ctx = None;
                log.push("clear_context".into());
            }
            4 | 5 => {
                let n = length(s, need);
                let tracks = if n == 0 { 0 } else { n * 4 - s.below(4) };
                job.set_context(SamplingContext::new(tracks));
                ctx = Some(n);
                log.push(format!("set_context({tracks} tracks)"));
            }
            6 => {
                job.clear_output();
                out = None;
                log.push("clear_output".into());
            }
            7 => {
                let n = length(s, need);
                let p = poison(s);
                out = Some(Slot::new(sentinel(n), p));
                job.set_output(out.as_ref().unwrap().buf.clone());
                log.push(format!("set_output({n}{})", if p { ", poisoned" } else { "" }));
            }
            _ => {
                job.set_ratio(s.ratio() * 1.5 - 0.25);
                log.push("set_ratio".into());
            }
        }
        let need = anim.map_or(1, |a| anims[a].1);
        let mut v = Verdict::new();
        v.need(anim.is_some());
        v.need(ctx.is_some());
        if let Some(n) = ctx { v.need(n >= need || anim.is_none()); }
        v.buf(&out, if anim.is_some() { need } else { 0 });
        let want = v.want();
        let before = out.as_ref().map(|o| soa_bits(&o.snap()));
        let valid = job.validate();
        let r = job.run();
        c.nontrivial |= want != Want::Valid;
        judge(want, Some(valid), &r, c, &format!("SamplingJob after {log:?}"))?;
        if r.is_err() {
            ensure!(before == out.as_ref().map(|o| soa_bits(&o.snap())), "SamplingJob fails with {r:?} but writes its output (after {log:?})");
        }
    }
    c.describe(|| format!("{log:?}"));
    Ok(())
}

// --------------------------------------------------------- local to model

fn mbits(v: &[Mat4]) -> Vec<[u32; 16]> {
    v.iter().map(|m| m.to_cols_array().map(f32::to_bits)).collect()
}

fn small_skel(s: &mut Src) -> (Arc<Skeleton>, usize) {
    let n = match s.draw(6) { 0 => 0, 5 if s.one_in(8) => 200 + s.below(825), _ => 1 + s.len(20) };
    let p = parents(s, n);
    let sk = skel(&SkelSpec { names: (0..n).map(|i| format!("{i}")).collect(), rest: vec![XF_ID; n.div_ceil(4) * 4], parents: p });
    (Arc::new(sk), n)
}

fn c16_local_to_model(s: &mut Src, c: &mut Case) -> Res {
    let sks = [small_skel(s), small_skel(s)];
    let mut job: LocalToModelJobArc = LocalToModelJob::default();
    let (mut sk, mut inp, mut out): (Option<usize>, Option<Slot<SoaTransform>>, Option<Slot<Mat4>>) = (None, None, None);
    let mut log: Vec<String> = Vec::new();
    let mark = Mat4::from_cols_array(&[77.5; 16]);
    if s.draw(3) != 0 {
        job.set_skeleton(sks[0].0.clone());
        sk = Some(0);
        inp = Some(Slot::new(identities(sks[0].1.div_ceil(4)), false));
        job.set_input(inp.as_ref().unwrap().buf.clone());
        out = Some(Slot::new(vec![mark; sks[0].1], false));
        job.set_output(out.as_ref().unwrap().buf.clone());
    }
    for _ in 0..1 + s.len(24) {
        let need = sk.map_or(1, |a| sks[a].1);
        match s.draw(10) {
            0 => { job.clear_skeleton(); sk = None; log.push("clear_skeleton".into()); }
            1 | 2 => {
                let a = s.below(2);
                job.set_skeleton(sks[a].0.clone());
                sk = Some(a);
                log.push(format!("set_skeleton({} joints)", sks[a].1));
            }
            3 => { job.clear_input(); inp = None; log.push("clear_input".into()); }
            4 | 5 => {
                let n = length(s, need.div_ceil(4));
                let p = poison(s);
                inp = Some(Slot::new(identities(n), p));
                job.set_input(inp.as_ref().unwrap().buf.clone());
                log.push(format!("set_input({n}{})", if p { ", poisoned" } else { "" }));
            }
            6 => { job.clear_output(); out = None; log.push("clear_output".into()); }
            7 => {
                let n = length(s, need);
                let p = poison(s);
                out = Some(Slot::new(vec![mark; n], p));
                job.set_output(out.as_ref().unwrap().buf.clone());
                log.push(format!("set_output({n}{})", if p { ", poisoned" } else { "" }));
            }
            8 => {
                let any = |s: &mut Src| *s.pick(&[-1, 0, 1, -2, 5, 1023, 1024, i32::MAX, i32::MIN, i32::MAX - 1]);
                let (f, t) = (any(s), any(s));
                job.set_from(f);
                job.set_to(t);
                job.set_from_excluded(s.bool());
                log.push(format!("range {f}..={t}"));
            }
            _ => {
                job.set_root(&Mat4::from_translation(vec3(s, 3.0)));
                log.push("set_root".into());
            }
        }
        let need = sk.map_or(1, |a| sks[a].1);
        let mut v = Verdict::new();
        v.need(sk.is_some());
        v.buf(&inp, if sk.is_some() { need.div_ceil(4) } else { 0 });
        v.buf(&out, if sk.is_some() { need } else { 0 });
        let want = v.want();
        let before = out.as_ref().map(|o| mbits(&o.snap()));
        let valid = job.validate();
        let r = job.run();
        c.nontrivial |= want != Want::Valid;
        judge(want, Some(valid), &r, c, &format!("LocalToModelJob after {log:?}"))?;
        if r.is_err() {
            ensure!(before == out.as_ref().map(|o| mbits(&o.snap())), "LocalToModelJob fails with {r:?} but writes its output (after {log:?})");
        }
    }
    c.describe(|| format!("{log:?}"));
    Ok(())
}

// --------------------------------------------------------------- blending

struct LayerModel {
    slot: Slot<SoaTransform>,
    weights: usize,
}

fn c16_blending(s: &mut Src, c: &mut Case) -> Res {
    let sks = [small_skel(s), small_skel(s)];
    let mut job: BlendingJobArc = BlendingJob::default();
    let mut sk: Option<usize> = None;
    let mut ctx = true;
    let mut thr = 0.1f32;
    let mut out: Option<Slot<SoaTransform>> = None;
    let mut layers: [Vec<LayerModel>; 2] = Default::default();
    let mut log: Vec<String> = Vec::new();
    if s.draw(4) != 0 {
        job.set_skeleton(sks[0].0.clone());
        sk = Some(0);
        out = Some(Slot::new(sentinel(sks[0].1.div_ceil(4)), false));
        job.set_output(out.as_ref().unwrap().buf.clone());
    }
    for _ in 0..1 + s.len(30) {
        let need = sk.map_or(1, |a| sks[a].1.div_ceil(4));
        match s.draw(16) {
            0 => { job.clear_skeleton(); sk = None; log.push("clear_skeleton".into()); }
            1 => {
                let a = s.below(2);
                job.set_skeleton(sks[a].0.clone());
                sk = Some(a);
                log.push(format!("set_skeleton({} joints)", sks[a].1));
            }
            2 => { if s.bool() { job.clear_context() } else { job.take_context(); } ctx = false; log.push("clear_context".into()); }
            3 | 4 => {
                let n = s.below(12);
                job.set_context(if s.bool() { BlendingContext::new(n) } else { BlendingContext::default() });
                ctx = true;
                log.push(format!("set_context({n})"));
            }
            5 => {
                thr = *s.pick(&[0.1, 1.0, 0.0, -0.0, -1.0, f32::MIN_POSITIVE, f32::INFINITY, f32::NAN, 0.5, 2.0]);
                job.set_threshold(thr);
                log.push(format!("set_threshold({thr})"));
            }
            6 => { job.clear_output(); out = None; log.push("clear_output".into()); }
            7 | 8 => {
                let n = length(s, need);
                let p = poison(s);
                out = Some(Slot::new(sentinel(n), p));
                job.set_output(out.as_ref().unwrap().buf.clone());
                log.push(format!("set_output({n}{})", if p { ", poisoned" } else { "" }));
            }
            9..=13 => {
                let k = s.below(2);
                let n = if s.bool() { need } else { length(s, need) };
                let p = poison(s);
                let w = match s.draw(4) { 0 => 0, 1 => length(s, need), _ => need };
                let weight = *s.pick(&[1.0f32, 0.5, 0.0, -1.0, 3.0]);
                let slot = Slot::new(identities(n), p);
                let mut l = BlendingLayer::with_weight(slot.buf.clone(), weight);
                l.joint_weights = vec![Vec4::splat(0.75); w];
                let m = LayerModel { slot, weights: w };
                let v = if k == 0 { job.layers_mut() } else { job.additive_layers_mut() };
                let at = s.below(v.len() + 1);
                v.insert(at, l);
                layers[k].insert(at, m);
                log.push(format!("{}layer {at}: {n} transforms{} {w} joint weights, weight {weight}", if k == 1 { "additive " } else { "" }, if p { " poisoned" } else { "" }));
            }
            _ => {
                let k = s.below(2);
                let v = if k == 0 { job.layers_mut() } else { job.additive_layers_mut() };
                if !v.is_empty() {
                    let at = s.below(v.len());
                    v.remove(at);
                    layers[k].remove(at);
                    log.push(format!("remove {}layer {at}", if k == 1 { "additive " } else { "" }));
                }
            }
        }
        let min = sk.map_or(0, |a| sks[a].1.div_ceil(4));
        let mut v = Verdict::new();
        v.need(sk.is_some());
        v.need(ctx);
        v.need(thr > 0.0);
        v.buf(&out, min);
        for l in layers.iter().flatten() {
            v.need(l.slot.len >= min);
            v.need(l.weights == 0 || l.weights >= min);
            v.poisoned |= l.slot.poisoned;
        }
        let want = v.want();
        let before = out.as_ref().map(|o| soa_bits(&o.snap()));
        let valid = job.validate();
        let r = job.run();
        c.nontrivial |= want != Want::Valid;
        judge(want, Some(valid), &r, c, &format!("BlendingJob after {log:?}"))?;
        if r.is_err() {
            ensure!(before == out.as_ref().map(|o| soa_bits(&o.snap())), "BlendingJob fails with {r:?} but writes its output (after {log:?})");
        }
    }
    c.describe(|| format!("{log:?}"));
    Ok(())
}

// --------------------------------------------------------------- skinning

fn c16_skinning(s: &mut Src, c: &mut Case) -> Res {
    let mut job: SkinningJobArc = SkinningJob::default();
    let (mut nv, mut ni) = (0usize, 0usize);
    let mut jm: Option<Slot<Mat4>> = None;
    let mut it: Option<Slot<Mat4>> = None;
    let mut ji: Option<Slot<u16>> = None;
    let mut jw: Option<Slot<f32>> = None;
    let mut ins: [Option<Slot<Vec3>>; 3] = Default::default();
    let mut outs: [Option<Slot<Vec3>>; 3] = Default::default();
    let mut log: Vec<String> = Vec::new();
    let mark = Vec3::new(5.5, -6.5, 7.5);
    let mut todo: Vec<u64> = Vec::new();
    if s.draw(4) != 0 {
        // start from a complete job (set in this order: counts, then buffers)
        todo = vec![18, 16, 14, 12, 10, 8, 6, 4, 2, 0];
        if s.bool() { todo.retain(|x| *x != 2); }
        if s.bool() { todo.retain(|x| *x != 4 && *x != 6); }
    }
    let steps = 1 + s.len(24);
    let mut done = 0;
    while done < steps {
        let setup = !todo.is_empty();
        let op = match todo.pop() { Some(o) => o, None => s.draw(20) };
        let p = !setup && poison(s);
        let ps = if p { ", poisoned" } else { "" };
        let exact = setup || s.draw(3) == 0;
        let len = |s: &mut Src, need: usize| if exact { need } else { length(s, need) };
        let unset = !setup && op % 2 == 1;
        match op / 2 {
            0 => {
                // counts
                if setup {
                    nv = s.below(6);
                    ni = 1 + s.below(6);
                } else {
                    match s.draw(5) {
                        0 => nv = s.below(8),
                        1 | 2 => ni = s.below(8),
                        3 => nv = *s.pick(&[0, 1, 2, usize::MAX, usize::MAX / 2, 1 << 62, usize::MAX / 5 + 1]),
                        _ => ni = *s.pick(&[0, 1, 2, 3, 4, 5, usize::MAX, usize::MAX / 2, 1 << 63]),
                    }
                }
                job.set_vertex_count(nv);
                job.set_influences_count(ni);
                log.push(format!("counts({nv} vertices, {ni} influences)"));
            }
            1 => {
                if unset { job.clear_joint_it_matrices(); it = None; log.push("clear_joint_it_matrices".into()); } else {
                    let n = 1 + s.below(2);
                    it = Some(Slot::new(vec![Mat4::IDENTITY; n], p));
                    job.set_joint_it_matrices(it.as_ref().unwrap().buf.clone());
                    log.push(format!("set_joint_it_matrices({n}{ps})"));
                }
            }
            k @ (2 | 3) => {
                let k = k as usize;
                let k = k - 1;
                if unset {
                    if k == 1 { job.clear_in_normals() } else { job.clear_in_tangents() }
                    ins[k] = None;
                    log.push(format!("clear_in {k}"));
                } else {
                    let n = len(s, nv.min(9));
                    ins[k] = Some(Slot::new(vec![Vec3::ONE; n], p));
                    let b = ins[k].as_ref().unwrap().buf.clone();
                    if k == 1 { job.set_in_normals(b) } else { job.set_in_tangents(b) }
                    log.push(format!("set_in {k}({n}{ps})"));
                }
            }
            4 => {
                if unset { job.clear_in_positions(); ins[0] = None; log.push("clear_in_positions".into()); } else {
                    let n = len(s, nv.min(9));
                    ins[0] = Some(Slot::new(vec![Vec3::ONE; n], p));
                    job.set_in_positions(ins[0].as_ref().unwrap().buf.clone());
                    log.push(format!("set_in_positions({n}{ps})"));
                }
            }
            5 => {
                if unset { job.clear_joint_matrices(); jm = None; log.push("clear_joint_matrices".into()); } else {
                    let n = if exact { 1 } else { s.below(3) };
                    jm = Some(Slot::new(vec![Mat4::IDENTITY; n], p));
                    job.set_joint_matrices(jm.as_ref().unwrap().buf.clone());
                    log.push(format!("set_joint_matrices({n}{ps})"));
                }
            }
            6 => {
                if unset { job.clear_joint_indices(); ji = None; log.push("clear_joint_indices".into()); } else {
                    let n = len(s, nv.saturating_mul(ni).min(80));
                    ji = Some(Slot::new(vec![0u16; n], p));
                    job.set_joint_indices(ji.as_ref().unwrap().buf.clone());
                    log.push(format!("set_joint_indices({n}{ps})"));
                }
            }
            7 => {
                if unset { job.clear_joint_weights(); jw = None; log.push("clear_joint_weights".into()); } else {
                    let n = len(s, nv.saturating_mul(ni.saturating_sub(1)).min(80));
                    jw = Some(Slot::new(vec![0.25f32; n], p));
                    job.set_joint_weights(jw.as_ref().unwrap().buf.clone());
                    log.push(format!("set_joint_weights({n}{ps})"));
                }
            }
            k @ (8 | 9) if !setup && k == 9 && s.bool() => {
                let k = 1 + s.below(2);
                if unset {
                    if k == 1 { job.clear_out_normals() } else { job.clear_out_tangents() }
                    outs[k] = None;
                    log.push(format!("clear_out {k}"));
                } else {
                    let n = len(s, nv.min(9));
                    outs[k] = Some(Slot::new(vec![mark; n], p));
                    let b = outs[k].as_ref().unwrap().buf.clone();
                    if k == 1 { job.set_out_normals(b) } else { job.set_out_tangents(b) }
                    log.push(format!("set_out {k}({n}{ps})"));
                }
            }
            9 if setup => {
                for k in 1..3 {
                    outs[k] = Some(Slot::new(vec![mark; nv], false));
                    let b = outs[k].as_ref().unwrap().buf.clone();
                    if k == 1 { job.set_out_normals(b) } else { job.set_out_tangents(b) }
                }
                log.push(format!("set_out 1, 2({nv})"));
            }
            _ => {
                if unset { job.clear_out_positions(); outs[0] = None; log.push("clear_out_positions".into()); } else {
                    let n = len(s, nv.min(9));
                    outs[0] = Some(Slot::new(vec![mark; n], p));
                    job.set_out_positions(outs[0].as_ref().unwrap().buf.clone());
                    log.push(format!("set_out_positions({n}{ps})"));
                }
            }
        }
        if !todo.is_empty() { continue; }
        done += 1;

        let mut v = Verdict::new();
        v.need(ni > 0);
        v.buf(&jm, 1);
        // no buffer can hold more than usize::MAX elements
        let size = |a: usize, b: usize| a.checked_mul(b).unwrap_or(usize::MAX);
        v.buf(&ji, size(nv, ni));
        if ni > 1 { v.buf(&jw, size(nv, ni - 1)) } else { v.unneeded(&jw) }
        v.buf(&ins[0], nv);
        v.buf(&outs[0], nv);
        if ins[1].is_some() {
            v.buf(&ins[1], nv);
            v.buf(&outs[1], nv);
            if ins[2].is_some() { v.buf(&ins[2], nv); v.buf(&outs[2], nv); } else { v.unneeded(&outs[2]) }
            if let Some(m) = &it { v.poisoned |= m.poisoned; }
        } else {
            v.need(ins[2].is_none());
            v.unneeded(&ins[2]);
            v.unneeded(&outs[1]);
            v.unneeded(&outs[2]);
            v.unneeded(&it);
        }
        let want = v.want();
        let snap = |o: &[Option<Slot<Vec3>>; 3]| -> Vec<Vec<[u32; 3]>> {
            o.iter().map(|x| x.as_ref().map_or(Vec::new(), |x| x.snap().iter().map(|y| y.to_array().map(f32::to_bits)).collect())).collect()
        };
        let before = snap(&outs);
        let valid = job.validate();
        let r = job.run();
        c.nontrivial |= want != Want::Valid;
        judge(want, Some(valid), &r, c, &format!("SkinningJob after {log:?}"))?;
        if r.is_err() {
            ensure!(before == snap(&outs), "SkinningJob fails with {r:?} but writes its outputs (after {log:?})");
        }
    }
    c.describe(|| format!("{log:?}"));
    Ok(())
}

// ------------------------------------------------------- IK, tracks, motion

/// Len² of the axis must be 1 within the library's normalisation tolerance.
fn axis(s: &mut Src) -> (Vec3A, Option<bool>) {
    let u = unit_vec(s);
    let k = match s.draw(8) {
        0 => 0.0f64,
        1 => 0.5,
        2 => 2.0,
        3 => 1.0 + (s.unit() as f64 - 0.5) * 0.004,
        4 => *s.pick(&[1.0e-30, 1.0e30, 0.99, 1.01, 0.9995, 1.0005, f64::NAN, f64::INFINITY]),
        _ => 1.0,
    };
    let v = Vec3A::new((u[0] * k) as f32, (u[1] * k) as f32, (u[2] * k) as f32);
    let l: f64 = v.to_array().iter().map(|x| *x as f64 * *x as f64).sum();
    let d = (l - 1.0).abs();
    // undecided only within rounding of the tolerance
    let ok = if l.is_nan() { Some(false) } else if d < 0.002 - 1e-5 { Some(true) } else if d > 0.002 + 1e-5 { Some(false) } else { None };
    (v, ok)
}
fn qbits(q: Quat) -> [u32; 4] { q.to_array().map(f32::to_bits) }

fn c16_ik(s: &mut Src, c: &mut Case) -> Res {
    let mut aim = IKAimJob::default();
    let mut bone = IKTwoBoneJob::default();
    let mut log: Vec<String> = Vec::new();
    for _ in 0..1 + s.len(12) {
        let (v, ok) = axis(s);
        let t = unit_vec(s);
        let t = Vec3A::new(t[0] as f32, t[1] as f32, t[2] as f32) * (0.1 + s.unit() * 3.0);
        let w = *s.pick(&[1.0f32, 0.5, 0.0, -1.0, 2.0]);
        let want = match ok { Some(true) => Want::Valid, Some(false) => Want::Invalid, None => continue };
        c.nontrivial |= want == Want::Invalid;
        log.push(format!("axis {v} target {t} weight {w}"));
        if s.bool() {
            aim.set_forward(v);
            aim.set_target(t);
            aim.set_weight(w);
            let before = (qbits(aim.joint_correction()), aim.reached());
            let r = aim.run();
            judge(want, None, &r, c, &format!("IKAimJob {log:?}"))?;
            if r.is_err() {
                ensure!(before == (qbits(aim.joint_correction()), aim.reached()), "IKAimJob fails with {r:?} but changes its outputs ({log:?})");
            }
        } else {
            bone.set_mid_axis(v);
            bone.set_target(t);
            bone.set_weight(w);
            bone.set_mid_joint(Mat4::from_translation(Vec3::new(0.0, 1.0, 0.0)));
            bone.set_end_joint(Mat4::from_translation(Vec3::new(1.0, 1.0, 0.0)));
            let o = |b: &IKTwoBoneJob| (qbits(b.start_joint_correction()), qbits(b.mid_joint_correction()), b.reached());
            let before = o(&bone);
            let r = bone.run();
            judge(want, None, &r, c, &format!("IKTwoBoneJob {log:?}"))?;
            if r.is_err() {
                ensure!(before == o(&bone), "IKTwoBoneJob fails with {r:?} but changes its outputs ({log:?})");
            }
        }
    }
    c.describe(|| format!("{log:?}"));
    Ok(())
}

fn c16_tracks(s: &mut Src, c: &mut Case) -> Res {
    let tracks: Vec<Arc<Track<f32>>> = (0..2)
        .map(|_| Arc::new(crate::p_archive::load_track::<f32>(&track_spec(s, 1, &TrackOpts { max_keys: 12, patched: true, range: 3.0 }))))
        .collect();
    let mut js: TrackSamplingJobArc<f32> = TrackSamplingJob::default();
    let mut jt: TrackTriggeringJobArc = TrackTriggeringJob::default();
    let mut has = [false; 2];
    let mut log: Vec<String> = Vec::new();
    for _ in 0..1 + s.len(12) {
        let (k, op) = (s.below(2), s.draw(4));
        match (k, op) {
            (0, 0) => js.clear_track(),
            (1, 0) => jt.clear_track(),
            (0, 1 | 2) => js.set_track(s.pick(&tracks).clone()),
            (1, 1 | 2) => jt.set_track(s.pick(&tracks).clone()),
            (0, _) => js.set_ratio(s.ratio() * 3.0 - 1.0),
            _ => {
                jt.set_from(s.sym(4.0));
                jt.set_to(s.sym(4.0));
                jt.set_threshold(s.real(3.0));
            }
        }
        if op < 3 { has[k] = op > 0; }
        log.push(format!("{} {}", ["sampling", "triggering"][k], ["clear_track", "set_track", "set_track", "set inputs"][op as usize]));
        let want = |h: bool| if h { Want::Valid } else { Want::Invalid };
        let before = js.result().to_bits();
        let v = js.validate();
        let r = js.run();
        judge(want(has[0]), Some(v), &r, c, &format!("TrackSamplingJob after {log:?}"))?;
        if r.is_err() {
            ensure!(before == js.result().to_bits(), "TrackSamplingJob fails but changes its result");
        }
        let v = jt.validate();
        let r = jt.run().map(|it| assert!(it.take(10_000).count() < 10_000, "endless edges"));
        judge(want(has[1]), Some(v), &r, c, &format!("TrackTriggeringJob after {log:?}"))?;
        c.nontrivial |= !has[0] || !has[1];
    }
    // motion blending is always valid
    let mut mj = MotionBlendingJob::default();
    for _ in 0..s.below(4) {
        let t = vec3(s, 4.0);
        mj.layers_mut().push(MotionBlendingLayer { weight: s.sym(2.0), delta: Transform3A::new(t, quat32(s), Vec3::ONE) });
    }
    let v = mj.validate();
    let r = mj.run();
    judge(Want::Valid, Some(v), &r, c, "MotionBlendingJob")?;
    c.describe(|| format!("{log:?}"));
    Ok(())
}

/// Values never decide: a job whose objects and sizes are right runs to Ok
/// whatever numbers its buffers, matrices and scalar parameters hold.
fn c16_numbers(s: &mut Src, c: &mut Case) -> Res {
    let quat = |s: &mut Src| Quat::from_xyzw(any(s), any(s), any(s), any(s));
    let soas = |s: &mut Src, n: usize| -> Vec<SoaTransform> {
        (0..n)
            .map(|_| {
                let xs: Vec<Xf> = (0..4).map(|_| std::array::from_fn(|_| any(s))).collect();
                to_soa(&xs, &xs[0])[0]
            })
            .collect()
    };
    let extra = |s: &mut Src| if s.draw(3) == 0 { 1 + s.below(3) } else { 0 };
    let what = s.draw(7);
    c.nontrivial = true;
    let (valid, r, name): (Option<bool>, Result<(), OzzError>, &str) = match what {
        0 => {
            let (sk, n) = small_skel(s);
            let (a, b) = (n.div_ceil(4) + extra(s), n + extra(s));
            let mut job: LocalToModelJobArc = LocalToModelJob::default();
            job.set_skeleton(sk);
            job.set_input(ozz_arc_buf(soas(s, a)));
            job.set_output(ozz_arc_buf(vec![Mat4::IDENTITY; b]));
            if s.bool() { job.set_root(&any_mat(s)); }
            if s.bool() {
                job.set_from(s.below(n + 4) as i32 - 2);
                job.set_to(s.below(n + 4) as i32 - 2);
                job.set_from_excluded(s.bool());
            }
            let v = job.validate();
            (Some(v), job.run(), "LocalToModelJob")
        }
        1 => {
            let (sk, n) = small_skel(s);
            let mut job: BlendingJobArc = BlendingJob::default();
            job.set_skeleton(sk);
            let thr = any(s);
            if thr > 0.0 { job.set_threshold(thr); }
            let need = n.div_ceil(4);
            let len = need + extra(s);
            job.set_output(ozz_arc_buf(sentinel(len)));
            for k in 0..s.below(5) {
                let len = need + extra(s);
                let w = any(s);
                let mut l = BlendingLayer::with_weight(ozz_arc_buf(soas(s, len)), w);
                if s.bool() {
                    l.joint_weights = (0..need + extra(s)).map(|_| Vec4::new(any(s), any(s), any(s), any(s))).collect();
                }
                if k % 2 == 0 { job.layers_mut().push(l) } else { job.additive_layers_mut().push(l) }
            }
            let v = job.validate();
            (Some(v), job.run(), "BlendingJob")
        }
        2 => {
            let (nv, ni, nm) = (s.below(6), 1 + s.below(8), 1 + s.below(5));
            let mut job: SkinningJobArc = SkinningJob::default();
            job.set_vertex_count(nv);
            job.set_influences_count(ni);
            let mats = |s: &mut Src| ozz_arc_buf((0..nm).map(|_| any_mat(s)).collect::<Vec<_>>());
            job.set_joint_matrices(mats(s));
            if s.bool() { job.set_joint_it_matrices(mats(s)); }
            job.set_joint_indices(ozz_arc_buf((0..nv * ni).map(|_| s.below(nm) as u16).collect::<Vec<_>>()));
            if ni > 1 { job.set_joint_weights(ozz_arc_buf((0..nv * (ni - 1)).map(|_| any(s)).collect::<Vec<_>>())); }
            let vs = |s: &mut Src| ozz_arc_buf((0..nv).map(|_| Vec3::new(any(s), any(s), any(s))).collect::<Vec<_>>());
            let zs = || ozz_arc_buf(vec![Vec3::ZERO; nv]);
            job.set_in_positions(vs(s));
            job.set_out_positions(zs());
            let pnt = s.draw(3);
            if pnt > 0 { job.set_in_normals(vs(s)); job.set_out_normals(zs()); }
            if pnt > 1 { job.set_in_tangents(vs(s)); job.set_out_tangents(zs()); }
            let v = job.validate();
            (Some(v), job.run(), "SkinningJob")
        }
        3 => {
            let mut job = MotionBlendingJob::default();
            for _ in 0..s.below(5) {
                let delta = Transform3A { translation: any3(s), rotation: quat(s), scale: any3(s) };
                job.layers_mut().push(MotionBlendingLayer { weight: any(s), delta });
            }
            let v = job.validate();
            (Some(v), job.run(), "MotionBlendingJob")
        }
        4 => {
            let u = unit_vec(s).map(|x| x as f32);
            let mut j = IKAimJob::default();
            j.set_forward(Vec3A::from(u));
            // each input wild or left alone, so that one wild input meets ordinary ones
            if s.bool() { j.set_target(any3(s)); }
            if s.bool() { j.set_offset(any3(s)); }
            if s.bool() { j.set_up(any3(s)); }
            if s.bool() { j.set_pole_vector(any3(s)); }
            if s.bool() { j.set_twist_angle(any(s)); }
            if s.bool() { j.set_weight(any(s)); }
            if s.bool() { j.set_joint(any_mat(s)); }
            (None, j.run(), "IKAimJob")
        }
        5 => {
            let u = unit_vec(s).map(|x| x as f32);
            let mut j = IKTwoBoneJob::default();
            j.set_mid_axis(Vec3A::from(u));
            if s.bool() {
                j.set_mid_joint(Mat4::from_translation(Vec3::new(0.0, 1.0, 0.0)));
                j.set_end_joint(Mat4::from_translation(Vec3::new(1.0, 1.0, 0.0)));
            }
            if s.bool() { j.set_target(any3(s)); }
            if s.bool() { j.set_pole_vector(any3(s)); }
            if s.bool() { j.set_twist_angle(any(s)); }
            if s.bool() { j.set_soften(any(s)); }
            if s.bool() { j.set_weight(any(s)); }
            if s.draw(3) == 0 { j.set_start_joint(any_mat(s)); }
            if s.draw(3) == 0 { j.set_mid_joint(any_mat(s)); }
            if s.draw(3) == 0 { j.set_end_joint(any_mat(s)); }
            (None, j.run(), "IKTwoBoneJob")
        }
        _ => {
            let mut spec = track_spec(s, 1, &TrackOpts { max_keys: 12, patched: true, range: 3.0 });
            for v in spec.values.iter_mut().flatten() { if s.bool() { *v = any(s); } }
            let t = Arc::new(crate::p_archive::load_track::<f32>(&spec));
            if s.bool() {
                let mut j: TrackSamplingJobArc<f32> = TrackSamplingJob::default();
                j.set_track(t);
                j.set_ratio(any(s));
                let v = j.validate();
                (Some(v), j.run(), "TrackSamplingJob")
            } else {
                let mut j: TrackTriggeringJobArc = TrackTriggeringJob::default();
                j.set_track(t);
                j.set_from(s.sym(40.0));
                j.set_to(s.sym(40.0));
                j.set_threshold(any(s));
                let v = j.validate();
                let r = j.run().map(|it| assert!(it.take(10_000).count() < 10_000, "endless edges"));
                (Some(v), r, "TrackTriggeringJob")
            }
        }
    };
    c.label(name);
    c.describe(|| format!("{name} with arbitrary numbers"));
    ensure!(valid != Some(false), "{name}: validate() rejects a job for the numbers it is given");
    ensure!(r.is_ok(), "{name}: run() fails with {r:?} for the numbers it is given");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C16",
        rule: "at least one step of the sequence leaves the job invalid or a lock poisoned (numbers: every case)",
        assumptions: &[
            "an unneeded poisoned buffer may be reported or not, but validate() and run() must agree",
            "IK axes within rounding of the normalisation tolerance are skipped",
        ],
        facets: &[
            Facet { name: "sampling", run: c16_sampling, quick: 240_000, thorough: 12_000_000 },
            Facet { name: "local_to_model", run: c16_local_to_model, quick: 800_000, thorough: 40_000_000 },
            Facet { name: "blending", run: c16_blending, quick: 800_000, thorough: 40_000_000 },
            Facet { name: "skinning", run: c16_skinning, quick: 800_000, thorough: 40_000_000 },
            Facet { name: "ik", run: c16_ik, quick: 800_000, thorough: 40_000_000 },
            Facet { name: "numbers", run: c16_numbers, quick: 2_000_000, thorough: 100_000_000 },
            Facet { name: "tracks", run: c16_tracks, quick: 800_000, thorough: 40_000_000 },
        ],
    }]
}
