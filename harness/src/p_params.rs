//! C22: jobs, layers and buffers hold exactly what they are given.
//!
//! Every facet applies a random sequence of set/clear/take/run operations to
//! one object of each kind next to a model of what it must hold, and compares
//! every getter with the model after every step.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::p_ik::{aim_case, bone_case, set_aim, set_bone};
use glam::{Mat4, Quat, Vec3, Vec3A, Vec4};
use glam_ext::Transform3A;
use ozz_animation_rs::base::OzzIndex;
use ozz_animation_rs::*;
use std::ops::{Deref, DerefMut};
use std::rc::Rc;
use std::sync::{Arc, RwLock};

/// Any float, NaN and infinities included.
pub fn any(s: &mut Src) -> f32 {
    match s.draw(10) {
        0 => *s.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY]),
        1 | 2 => *s.pick(&[0.0, 1.0, -1.0, -0.0, 0.5, 2.0]),
        3 | 4 => s.unit(),
        _ => s.finite(),
    }
}
pub fn any3(s: &mut Src) -> Vec3A { Vec3A::new(any(s), any(s), any(s)) }
pub fn any_mat(s: &mut Src) -> Mat4 { Mat4::from_cols_array(&std::array::from_fn(|_| any(s))) }

fn fb(x: f32) -> u32 { if x.is_nan() { 0x7FC0_0000 } else { x.to_bits() } }
fn vb(v: Vec3A) -> [u32; 3] { v.to_array().map(fb) }
fn mb(m: Mat4) -> [u32; 16] { m.to_cols_array().map(fb) }
fn qb(q: Quat) -> [u32; 4] { q.to_array().map(fb) }
fn tb(t: &Transform3A) -> [u32; 10] {
    let (a, b, c) = (vb(t.translation), qb(t.rotation), vb(t.scale));
    [a[0], a[1], a[2], b[0], b[1], b[2], b[3], c[0], c[1], c[2]]
}
/// A parameter documented to be clamped may read back clamped or not.
fn same_clamped(got: f32, set: f32) -> bool {
    fb(got) == fb(set) || if set.is_nan() { (0.0..=1.0).contains(&got) } else { got == set.clamp(0.0, 1.0) }
}

const ID: [u32; 4] = [0, 0, 0, 0x3F80_0000];

fn c22_aim(s: &mut Src, c: &mut Case) -> Res {
    let mut j = IKAimJob::default();
    let mut vecs = [Vec3A::ZERO, Vec3A::X, Vec3A::ZERO, Vec3A::Y, Vec3A::Y]; // target forward offset up pole
    let (mut twist, mut weight, mut joint) = (0.0f32, 1.0f32, Mat4::IDENTITY);
    let (mut corr, mut reached) = (ID, false);
    let mut log: Vec<String> = Vec::new();
    let mut touched = 0u32;
    for i in 0..1 + s.len(24) {
        if i > 0 {
            let op = s.below(14);
            touched |= 1 << op;
            match op {
                0..=4 => {
                    let v = any3(s);
                    vecs[op] = v;
                    match op { 0 => j.set_target(v), 1 => j.set_forward(v), 2 => j.set_offset(v), 3 => j.set_up(v), _ => j.set_pole_vector(v) }
                    log.push(format!("set_{} {v}", ["target", "forward", "offset", "up", "pole_vector"][op]));
                }
                5 => { twist = any(s); j.set_twist_angle(twist); log.push(format!("set_twist_angle {twist}")); }
                6 => { weight = any(s); j.set_weight(weight); log.push(format!("set_weight {weight}")); }
                7 => { joint = any_mat(s); j.set_joint(joint); log.push(format!("set_joint {joint}")); }
                8 => { j.clear_joint_correction(); corr = ID; log.push("clear_joint_correction".into()); }
                9 => { j.clear_reached(); reached = false; log.push("clear_reached".into()); }
                10 => { j.clear_outs(); corr = ID; reached = false; log.push("clear_outs".into()); }
                _ => {
                    // a solvable problem, so that there are outputs to clear
                    let a = aim_case(s);
                    set_aim(&mut j, &a);
                    vecs = [j.target(), j.forward(), j.offset(), j.up(), j.pole_vector()];
                    twist = j.twist_angle();
                    weight = j.weight();
                    joint = j.joint();
                    let ok = j.run().is_ok();
                    if ok { corr = qb(j.joint_correction()); reached = j.reached(); }
                    c.label("run");
                    log.push("solve".into());
                }
            }
        }
        let got = [j.target(), j.forward(), j.offset(), j.up(), j.pole_vector()];
        for (k, n) in ["target", "forward", "offset", "up", "pole_vector"].iter().enumerate() {
            ensure!(vb(got[k]) == vb(vecs[k]), "IKAimJob::{n}() is {} instead of {} after {log:?}", got[k], vecs[k]);
        }
        ensure!(fb(j.twist_angle()) == fb(twist), "IKAimJob::twist_angle() is {} instead of {twist} after {log:?}", j.twist_angle());
        ensure!(same_clamped(j.weight(), weight), "IKAimJob::weight() is {} instead of {weight} after {log:?}", j.weight());
        ensure!(mb(j.joint()) == mb(joint), "IKAimJob::joint() is {} instead of {joint} after {log:?}", j.joint());
        ensure!(qb(j.joint_correction()) == corr, "IKAimJob::joint_correction() is {} after {log:?}", j.joint_correction());
        ensure!(j.reached() == reached, "IKAimJob::reached() is {} after {log:?}", j.reached());
    }
    c.nontrivial = touched.count_ones() >= 2;
    c.describe(|| format!("{log:?}"));
    Ok(())
}

fn c22_two_bone(s: &mut Src, c: &mut Case) -> Res {
    let mut j = IKTwoBoneJob::default();
    let mut vecs = [Vec3A::ZERO, Vec3A::Z, Vec3A::Y]; // target mid_axis pole
    let mut nums = [0.0f32, 1.0, 1.0]; // twist soften weight
    let mut mats = [Mat4::IDENTITY; 3];
    let (mut cs, mut cm, mut reached) = (ID, ID, false);
    let mut log: Vec<String> = Vec::new();
    let mut touched = 0u32;
    for i in 0..1 + s.len(24) {
        if i > 0 {
            let op = s.below(16);
            touched |= 1 << op;
            match op {
                0..=2 => {
                    let v = any3(s);
                    vecs[op] = v;
                    match op { 0 => j.set_target(v), 1 => j.set_mid_axis(v), _ => j.set_pole_vector(v) }
                    log.push(format!("set_{} {v}", ["target", "mid_axis", "pole_vector"][op]));
                }
                3..=5 => {
                    let x = any(s);
                    nums[op - 3] = x;
                    match op { 3 => j.set_twist_angle(x), 4 => j.set_soften(x), _ => j.set_weight(x) }
                    log.push(format!("set_{} {x}", ["twist_angle", "soften", "weight"][op - 3]));
                }
                6..=8 => {
                    let m = any_mat(s);
                    mats[op - 6] = m;
                    match op { 6 => j.set_start_joint(m), 7 => j.set_mid_joint(m), _ => j.set_end_joint(m) }
                    log.push(format!("set_{}_joint {m}", ["start", "mid", "end"][op - 6]));
                }
                9 => { j.clear_start_joint_correction(); cs = ID; log.push("clear_start_joint_correction".into()); }
                10 => { j.clear_mid_joint_correction(); cm = ID; log.push("clear_mid_joint_correction".into()); }
                11 => { j.clear_reached(); reached = false; log.push("clear_reached".into()); }
                12 => { j.clear_outs(); cs = ID; cm = ID; reached = false; log.push("clear_outs".into()); }
                _ => {
                    let b = bone_case(s);
                    set_bone(&mut j, &b);
                    vecs = [j.target(), j.mid_axis(), j.pole_vector()];
                    nums = [j.twist_angle(), j.soften(), j.weight()];
                    mats = [j.start_joint(), j.mid_joint(), j.end_joint()];
                    if j.run().is_ok() {
                        cs = qb(j.start_joint_correction());
                        cm = qb(j.mid_joint_correction());
                        reached = j.reached();
                    }
                    c.label("run");
                    log.push("solve".into());
                }
            }
        }
        let got = [j.target(), j.mid_axis(), j.pole_vector()];
        for (k, n) in ["target", "mid_axis", "pole_vector"].iter().enumerate() {
            ensure!(vb(got[k]) == vb(vecs[k]), "IKTwoBoneJob::{n}() is {} instead of {} after {log:?}", got[k], vecs[k]);
        }
        ensure!(fb(j.twist_angle()) == fb(nums[0]), "IKTwoBoneJob::twist_angle() is {} instead of {} after {log:?}", j.twist_angle(), nums[0]);
        ensure!(same_clamped(j.soften(), nums[1]), "IKTwoBoneJob::soften() is {} instead of {} after {log:?}", j.soften(), nums[1]);
        ensure!(same_clamped(j.weight(), nums[2]), "IKTwoBoneJob::weight() is {} instead of {} after {log:?}", j.weight(), nums[2]);
        let got = [j.start_joint(), j.mid_joint(), j.end_joint()];
        for (k, n) in ["start", "mid", "end"].iter().enumerate() {
            ensure!(mb(got[k]) == mb(mats[k]), "IKTwoBoneJob::{n}_joint() is {} instead of {} after {log:?}", got[k], mats[k]);
        }
        ensure!(qb(j.start_joint_correction()) == cs, "IKTwoBoneJob::start_joint_correction() is {} after {log:?}", j.start_joint_correction());
        ensure!(qb(j.mid_joint_correction()) == cm, "IKTwoBoneJob::mid_joint_correction() is {} after {log:?}", j.mid_joint_correction());
        ensure!(j.reached() == reached, "IKTwoBoneJob::reached() is {} after {log:?}", j.reached());
    }
    c.nontrivial = touched.count_ones() >= 2;
    c.describe(|| format!("{log:?}"));
    Ok(())
}

fn ptr_is<T>(got: Option<&Rc<T>>, want: &Option<Rc<T>>) -> bool {
    match (got, want) { (Some(a), Some(b)) => Rc::ptr_eq(a, b), (None, None) => true, _ => false }
}
fn soa_buf(n: usize) -> OzzRcBuf<SoaTransform> { ozz_rc_buf(vec![SoaTransform::IDENTITY; n]) }

fn c22_local_to_model(s: &mut Src, c: &mut Case) -> Res {
    let n = 1 + s.below(9);
    let sks: Vec<Rc<Skeleton>> = (0..2).map(|_| Rc::new(skel(&skel_spec(s, n)))).collect();
    let mut j: LocalToModelJobRc = LocalToModelJob::default();
    let (mut sk, mut inp, mut out): (Option<Rc<Skeleton>>, Option<OzzRcBuf<SoaTransform>>, Option<OzzRcBuf<Mat4>>) = (None, None, None);
    let (mut root, mut from, mut to, mut excl) = (Mat4::IDENTITY, SKELETON_NO_PARENT, SKELETON_MAX_JOINTS, false);
    let mut log: Vec<String> = Vec::new();
    let mut touched = 0u32;
    for i in 0..1 + s.len(24) {
        if i > 0 {
            let op = s.below(11);
            touched |= 1 << op;
            match op {
                0 => { let k = s.pick(&sks).clone(); j.set_skeleton(k.clone()); sk = Some(k); log.push("set_skeleton".into()); }
                1 => { j.clear_skeleton(); sk = None; log.push("clear_skeleton".into()); }
                2 => { let b = soa_buf(s.below(4)); j.set_input(b.clone()); inp = Some(b); log.push("set_input".into()); }
                3 => { j.clear_input(); inp = None; log.push("clear_input".into()); }
                4 => { let b = ozz_rc_buf(vec![Mat4::IDENTITY; s.below(12)]); j.set_output(b.clone()); out = Some(b); log.push("set_output".into()); }
                5 => { j.clear_output(); out = None; log.push("clear_output".into()); }
                6 => { root = any_mat(s); j.set_root(&root); log.push(format!("set_root {root}")); }
                7 | 8 => {
                    let f = op == 7;
                    let v = match s.draw(3) {
                        0 => {
                            let x = *s.pick(&[-1i32, 0, 1, n as i32, 1023, 1024, -7, i32::MAX, i32::MIN, 40_000, 70_000]);
                            if f { j.set_from(x) } else { j.set_to(x) }
                            x
                        }
                        1 => {
                            let x = *s.pick(&[-1i16, 0, 1, n as i16, 1023, 1024, -7, i16::MAX, i16::MIN]);
                            if f { j.set_from(x) } else { j.set_to(x) }
                            x as i32
                        }
                        _ => {
                            let x = *s.pick(&[0usize, 1, n, 1023, 1024, 40_000, i32::MAX as usize]);
                            if f { j.set_from(x) } else { j.set_to(x) }
                            x as i32
                        }
                    };
                    if f { from = v } else { to = v }
                    log.push(format!("set_{} {v}", if f { "from" } else { "to" }));
                }
                9 => { excl = s.bool(); j.set_from_excluded(excl); log.push(format!("set_from_excluded {excl}")); }
                _ => { let _ = j.validate(); let _ = j.run(); log.push("run".into()); }
            }
        }
        ensure!(ptr_is(j.skeleton(), &sk), "LocalToModelJob::skeleton() is not what was set after {log:?}");
        ensure!(ptr_is(j.input(), &inp), "LocalToModelJob::input() is not what was set after {log:?}");
        ensure!(ptr_is(j.output(), &out), "LocalToModelJob::output() is not what was set after {log:?}");
        ensure!(mb(j.root()) == mb(root), "LocalToModelJob::root() is {} instead of {root} after {log:?}", j.root());
        ensure!(j.from() == from && j.to() == to && j.from_excluded() == excl, "LocalToModelJob from/to/from_excluded are {}/{}/{} instead of {from}/{to}/{excl} after {log:?}", j.from(), j.to(), j.from_excluded());
    }
    // index conversions
    let x = s.draw(1 << 15) as i16;
    ensure!(OzzIndex::usize(&x) == x as usize && OzzIndex::i32(&x) == x as i32 && OzzIndex::i32(&-x) == -(x as i32), "index {x} as i16 converts to {} {}", OzzIndex::usize(&x), OzzIndex::i32(&x));
    let x = s.draw(1 << 31) as i32;
    ensure!(OzzIndex::usize(&x) == x as usize && OzzIndex::i32(&x) == x && OzzIndex::i32(&-x) == -x, "index {x} as i32 converts to {} {}", OzzIndex::usize(&x), OzzIndex::i32(&x));
    let x = x as usize;
    ensure!(OzzIndex::usize(&x) == x && OzzIndex::i32(&x) == x as i32, "index {x} as usize converts to {} {}", OzzIndex::usize(&x), OzzIndex::i32(&x));
    c.nontrivial = touched.count_ones() >= 2;
    c.describe(|| format!("{log:?}"));
    Ok(())
}

type LayerModel = (usize, f32, Vec<Vec4>);

fn c22_blending(s: &mut Src, c: &mut Case) -> Res {
    let n = 1 + s.below(9);
    let sks: Vec<Rc<Skeleton>> = (0..2).map(|_| Rc::new(skel(&skel_spec(s, n)))).collect();
    let soa = (n + 3) / 4;
    let bufs: Vec<OzzRcBuf<SoaTransform>> = (0..3).map(|k| soa_buf(soa + k)).collect();
    let mut j: BlendingJobRc = BlendingJob::default();
    let (mut sk, mut out, mut ctx): (Option<Rc<Skeleton>>, Option<OzzRcBuf<SoaTransform>>, bool) = (None, None, true);
    let mut threshold = 0.1f32;
    let mut layers: [Vec<LayerModel>; 2] = [Vec::new(), Vec::new()];
    // motion blending, same kind of layers
    let mut m = MotionBlendingJob::default();
    let (mut ml, mut mo): (Vec<(f32, Transform3A)>, Transform3A) = (Vec::new(), Transform3A::default());
    let mut log: Vec<String> = Vec::new();
    let mut touched = 0u32;
    for i in 0..1 + s.len(24) {
        if i > 0 {
            let op = s.below(18);
            touched |= 1 << op;
            match op {
                0 => { let k = s.pick(&sks).clone(); j.set_skeleton(k.clone()); sk = Some(k); log.push("set_skeleton".into()); }
                1 => { j.clear_skeleton(); sk = None; log.push("clear_skeleton".into()); }
                2 => { let b = soa_buf(soa + s.below(2)); j.set_output(b.clone()); out = Some(b); log.push("set_output".into()); }
                3 => { j.clear_output(); out = None; log.push("clear_output".into()); }
                4 => { j.set_context(if s.bool() { BlendingContext::new(soa) } else { BlendingContext::default() }); ctx = true; log.push("set_context".into()); }
                5 => { j.clear_context(); ctx = false; log.push("clear_context".into()); }
                6 => {
                    let t = j.take_context();
                    ensure!(t.is_some() == ctx, "BlendingJob::take_context() gives a context: {} instead of {ctx} after {log:?}", t.is_some());
                    ctx = false;
                    log.push("take_context".into());
                }
                7 => { threshold = any(s); j.set_threshold(threshold); log.push(format!("set_threshold {threshold}")); }
                8..=11 => {
                    let k = s.below(2);
                    let b = s.below(3);
                    let w = any(s);
                    let jw: Vec<Vec4> = (0..s.below(soa + 2)).map(|_| Vec4::new(any(s), any(s), any(s), any(s))).collect();
                    let (l, model) = match s.draw(3) {
                        0 => (BlendingLayer::with_weight(bufs[b].clone(), w), (b, w, Vec::new())),
                        1 => (BlendingLayer::with_joint_weights(bufs[b].clone(), jw.clone()), (b, 0.0, jw)),
                        _ => (BlendingLayer::new(bufs[b].clone()), (b, 0.0, Vec::new())),
                    };
                    if k == 0 { j.layers_mut().push(l) } else { j.additive_layers_mut().push(l) }
                    log.push(format!("push {} layer {model:?}", ["normal", "additive"][k]));
                    layers[k].push(model);
                }
                12 => {
                    let k = s.below(2);
                    if let Some(l) = (if k == 0 { j.layers_mut() } else { j.additive_layers_mut() }).last_mut() {
                        let w = any(s);
                        l.weight = w;
                        layers[k].last_mut().unwrap().1 = w;
                    }
                    log.push("change a weight".into());
                }
                13 => {
                    let k = s.below(2);
                    (if k == 0 { j.layers_mut() } else { j.additive_layers_mut() }).clear();
                    layers[k].clear();
                    log.push(format!("clear layers {k}"));
                }
                14 => { let (w, t) = (any(s), Transform3A { translation: any3(s), rotation: Quat::from_xyzw(any(s), any(s), any(s), any(s)), scale: any3(s) }); m.layers_mut().push(MotionBlendingLayer { weight: w, delta: t }); ml.push((w, t)); log.push("push motion".into()); }
                15 => { if s.bool() { m.layers_mut().clear(); ml.clear(); } else { mo = Transform3A { translation: any3(s), rotation: Quat::from_xyzw(any(s), any(s), any(s), any(s)), scale: any3(s) }; m.set_output(mo); } log.push("motion output".into()); }
                16 => {
                    if s.bool() {
                        m.clear_output();
                        mo = Transform3A::default();
                    } else {
                        ensure!(m.validate() && m.run().is_ok(), "motion blending fails after {log:?}");
                        mo = m.output();
                    }
                    log.push("motion run".into());
                }
                _ => { let _ = j.validate(); let _ = j.run(); log.push("run".into()); }
            }
        }
        ensure!(ptr_is(j.skeleton(), &sk), "BlendingJob::skeleton() is not what was set after {log:?}");
        ensure!(ptr_is(j.output(), &out), "BlendingJob::output() is not what was set after {log:?}");
        ensure!(j.context().is_some() == ctx, "BlendingJob::context() is present: {} instead of {ctx} after {log:?}", j.context().is_some());
        ensure!(fb(j.threshold()) == fb(threshold), "BlendingJob::threshold() is {} instead of {threshold} after {log:?}", j.threshold());
        for (k, ls) in [j.layers(), j.additive_layers()].iter().enumerate() {
            ensure!(ls.len() == layers[k].len(), "BlendingJob holds {} layers (kind {k}) instead of {} after {log:?}", ls.len(), layers[k].len());
            for (l, want) in ls.iter().zip(&layers[k]) {
                let w4 = |v: &[Vec4]| v.iter().map(|x| x.to_array().map(fb)).collect::<Vec<_>>();
                ensure!(Rc::ptr_eq(&l.transform, &bufs[want.0]) && fb(l.weight) == fb(want.1) && w4(&l.joint_weights) == w4(&want.2), "a blending layer (kind {k}) has weight {} and joint weights {:?} instead of {want:?} after {log:?}", l.weight, l.joint_weights);
            }
        }
        ensure!(m.layers().len() == ml.len() && m.layers().iter().zip(&ml).all(|(a, b)| fb(a.weight) == fb(b.0) && tb(&a.delta) == tb(&b.1)), "MotionBlendingJob::layers() is not what was pushed after {log:?}");
        ensure!(tb(&m.output()) == tb(&mo), "MotionBlendingJob::output() is {:?} instead of {mo:?} after {log:?}", m.output());
    }
    c.nontrivial = touched.count_ones() >= 2;
    c.describe(|| format!("{log:?}"));
    Ok(())
}

fn c22_sampling(s: &mut Src, c: &mut Case) -> Res {
    let anims: Vec<Rc<Animation>> = (0..2).map(|_| Rc::new(anim_spec(s, &AnimOpts { max_tracks: 9, max_timepoints: 8, hemisphere: true }).build())).collect();
    let mut j: SamplingJobRc = SamplingJob::default();
    let (mut an, mut out): (Option<Rc<Animation>>, Option<OzzRcBuf<SoaTransform>>) = (None, None);
    // number of tracks and storage of the context
    let mut ctx: Option<(usize, *const u32)> = None;
    let mut parked: Vec<SamplingContext> = Vec::new();
    let mut ratio = 0.0f32;
    let mut log: Vec<String> = Vec::new();
    let mut touched = 0u32;
    for i in 0..1 + s.len(20) {
        if i > 0 {
            let op = s.below(10);
            touched |= 1 << op;
            match op {
                0 => { let k = s.pick(&anims).clone(); j.set_animation(k.clone()); an = Some(k); log.push("set_animation".into()); }
                1 => { j.clear_animation(); an = None; log.push("clear_animation".into()); }
                2 | 3 => {
                    let n = s.below(14);
                    let k = if let (true, Some(p)) = (s.bool(), parked.pop()) { p } else { SamplingContext::new(n) };
                    ctx = Some((k.max_tracks(), k.translation_entries().as_ptr()));
                    j.set_context(k);
                    log.push(format!("set_context {ctx:?}"));
                }
                4 => { j.clear_context(); ctx = None; log.push("clear_context".into()); }
                5 => {
                    let k = j.take_context();
                    ensure!(k.as_ref().map(|k| (k.max_tracks(), k.translation_entries().as_ptr())) == ctx, "SamplingJob::take_context() is not the context that was set ({ctx:?}) after {log:?}");
                    parked.extend(k);
                    ctx = None;
                    log.push("take_context".into());
                }
                6 => { let b = soa_buf(s.below(5)); j.set_output(b.clone()); out = Some(b); log.push("set_output".into()); }
                7 => { j.clear_output(); out = None; log.push("clear_output".into()); }
                8 => { ratio = any(s); j.set_ratio(ratio); log.push(format!("set_ratio {ratio}")); }
                _ => { let _ = j.validate(); let _ = j.run(); log.push("run".into()); }
            }
        }
        ensure!(ptr_is(j.animation(), &an), "SamplingJob::animation() is not what was set after {log:?}");
        ensure!(ptr_is(j.output(), &out), "SamplingJob::output() is not what was set after {log:?}");
        ensure!(j.context().map(|k| (k.max_tracks(), k.translation_entries().as_ptr())) == ctx, "SamplingJob::context() is not what was set ({ctx:?}) after {log:?}");
        ensure!(same_clamped(j.ratio(), ratio), "SamplingJob::ratio() is {} instead of {ratio} after {log:?}", j.ratio());
    }
    c.nontrivial = touched.count_ones() >= 2;
    c.describe(|| format!("{log:?}"));
    Ok(())
}

fn c22_skinning(s: &mut Src, c: &mut Case) -> Res {
    let mut j: SkinningJobRc = SkinningJob::default();
    let mut counts = [0usize; 2];
    let mut mats: [Option<OzzRcBuf<Mat4>>; 2] = [None, None];
    let (mut idx, mut wei): (Option<OzzRcBuf<u16>>, Option<OzzRcBuf<f32>>) = (None, None);
    let mut vs: [Option<OzzRcBuf<Vec3>>; 6] = Default::default();
    let mut log: Vec<String> = Vec::new();
    let mut touched = 0u32;
    for i in 0..1 + s.len(30) {
        if i > 0 {
            let op = s.below(13);
            touched |= 1 << op;
            let set = s.draw(3) > 0;
            let l = s.below(9);
            match op {
                0 => { counts[0] = *s.pick(&[0, 1, 2, 3, 1000, 70_000, 1 << 32, usize::MAX]); j.set_vertex_count(counts[0]); }
                1 => { counts[1] = *s.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 256, 70_000, usize::MAX]); j.set_influences_count(counts[1]); }
                2 | 3 => {
                    let b = ozz_rc_buf(vec![Mat4::IDENTITY; l]);
                    match (op, set) {
                        (2, true) => j.set_joint_matrices(b.clone()),
                        (2, false) => j.clear_joint_matrices(),
                        (_, true) => j.set_joint_it_matrices(b.clone()),
                        _ => j.clear_joint_it_matrices(),
                    }
                    mats[op - 2] = set.then_some(b);
                }
                4 => { let b = ozz_rc_buf(vec![0u16; l]); if set { j.set_joint_indices(b.clone()) } else { j.clear_joint_indices() } idx = set.then_some(b); }
                5 => { let b = ozz_rc_buf(vec![0.5f32; l]); if set { j.set_joint_weights(b.clone()) } else { j.clear_joint_weights() } wei = set.then_some(b); }
                6..=11 => {
                    let b = ozz_rc_buf(vec![Vec3::ONE; l]);
                    let k = op - 6;
                    match (k, set) {
                        (0, true) => j.set_in_positions(b.clone()),
                        (0, _) => j.clear_in_positions(),
                        (1, true) => j.set_in_normals(b.clone()),
                        (1, _) => j.clear_in_normals(),
                        (2, true) => j.set_in_tangents(b.clone()),
                        (2, _) => j.clear_in_tangents(),
                        (3, true) => j.set_out_positions(b.clone()),
                        (3, _) => j.clear_out_positions(),
                        (4, true) => j.set_out_normals(b.clone()),
                        (4, _) => j.clear_out_normals(),
                        (5, true) => j.set_out_tangents(b.clone()),
                        _ => j.clear_out_tangents(),
                    }
                    vs[k] = set.then_some(b);
                }
                _ => { let _ = j.validate(); let _ = j.run(); }
            }
            log.push(format!("{} {}", ["vertex_count", "influences_count", "joint_matrices", "joint_it_matrices", "joint_indices", "joint_weights", "in_positions", "in_normals", "in_tangents", "out_positions", "out_normals", "out_tangents", "run"][op], if set { "set" } else { "clear" }));
        }
        ensure!(j.vertex_count() == counts[0] && j.influences_count() == counts[1], "SkinningJob counts are {}/{} instead of {counts:?} after {log:?}", j.vertex_count(), j.influences_count());
        ensure!(ptr_is(j.joint_matrices(), &mats[0]), "SkinningJob::joint_matrices() is not what was set after {log:?}");
        ensure!(ptr_is(j.joint_it_matrices(), &mats[1]), "SkinningJob::joint_it_matrices() is not what was set after {log:?}");
        ensure!(ptr_is(j.joint_indices(), &idx), "SkinningJob::joint_indices() is not what was set after {log:?}");
        ensure!(ptr_is(j.joint_weights(), &wei), "SkinningJob::joint_weights() is not what was set after {log:?}");
        let got = [j.in_positions(), j.in_normals(), j.in_tangents(), j.out_positions(), j.out_normals(), j.out_tangents()];
        for (k, n) in ["in_positions", "in_normals", "in_tangents", "out_positions", "out_normals", "out_tangents"].iter().enumerate() {
            ensure!(ptr_is(got[k], &vs[k]), "SkinningJob::{n}() is not what was set after {log:?}");
        }
    }
    c.nontrivial = touched.count_ones() >= 2;
    c.describe(|| format!("{log:?}"));
    Ok(())
}

fn c22_tracks(s: &mut Src, c: &mut Case) -> Res {
    let load = |s: &mut Src| Rc::new(crate::p_archive::load_track::<f32>(&track_spec(s, 1, &TrackOpts { max_keys: 8, patched: true, range: 3.0 })));
    let tracks = [load(s), load(s)];
    let quats: Vec<Rc<Track<Quat>>> = (0..2).map(|_| Rc::new(crate::p_archive::load_track::<Quat>(&track_spec(s, 5, &TrackOpts { max_keys: 5, patched: true, range: 1.0 })))).collect();
    let mut js: TrackSamplingJobRc<f32> = TrackSamplingJob::default();
    let mut jq: TrackSamplingJobRc<Quat> = TrackSamplingJob::default();
    let mut jt: TrackTriggeringJobRc = TrackTriggeringJob::default();
    let (mut ts, mut tq, mut tt): (Option<Rc<Track<f32>>>, Option<Rc<Track<Quat>>>, Option<Rc<Track<f32>>>) = (None, None, None);
    let (mut rs, mut rq, mut nums) = (0.0f32, 0.0f32, [0.0f32; 3]);
    let (mut os, mut oq) = (0u32, ID);
    let mut log: Vec<String> = Vec::new();
    let mut touched = 0u32;
    for i in 0..1 + s.len(24) {
        if i > 0 {
            let op = s.below(15);
            touched |= 1 << op;
            log.push(format!("op {op}"));
            match op {
                0 => { let t = s.pick(&tracks).clone(); js.set_track(t.clone()); ts = Some(t); }
                1 => { js.clear_track(); ts = None; }
                2 => { rs = any(s); js.set_ratio(rs); }
                3 => { if s.bool() { js.clear_result() } else { js.clear_outs() } os = 0; }
                4 => { if js.run().is_ok() { os = fb(js.result()); } }
                5 => { let t = s.pick(&quats).clone(); jq.set_track(t.clone()); tq = Some(t); }
                6 => { jq.clear_track(); tq = None; }
                7 => { rq = any(s); jq.set_ratio(rq); }
                8 => { if s.bool() { jq.clear_result() } else { jq.clear_outs() } oq = ID; }
                9 => { if jq.run().is_ok() { oq = qb(jq.result()); } }
                10 => { let t = s.pick(&tracks).clone(); jt.set_track(t.clone()); tt = Some(t); }
                11 => { jt.clear_track(); tt = None; }
                12 => { nums[0] = any(s); jt.set_from(nums[0]); }
                13 => { nums[1] = any(s); jt.set_to(nums[1]); }
                _ => { nums[2] = any(s); jt.set_threshold(nums[2]); }
            }
        }
        ensure!(ptr_is(js.track(), &ts) && ptr_is(jq.track(), &tq) && ptr_is(jt.track(), &tt), "a track job's track() is not what was set after {log:?}");
        ensure!(same_clamped(js.ratio(), rs) && same_clamped(jq.ratio(), rq), "TrackSamplingJob::ratio() is {}/{} instead of {rs}/{rq} after {log:?}", js.ratio(), jq.ratio());
        ensure!(fb(js.result()) == os && qb(jq.result()) == oq, "TrackSamplingJob::result() is {}/{} after {log:?}", js.result(), jq.result());
        ensure!(fb(jt.from()) == fb(nums[0]) && fb(jt.to()) == fb(nums[1]) && fb(jt.threshold()) == fb(nums[2]), "TrackTriggeringJob from/to/threshold are {}/{}/{} instead of {nums:?} after {log:?}", jt.from(), jt.to(), jt.threshold());
    }
    c.nontrivial = touched.count_ones() >= 2;
    c.describe(|| format!("{log:?}"));
    Ok(())
}

/// Views of one buffer flavour against a plain vector.
fn views<B: OzzMutBuf<u32>>(s: &mut Src, b: &mut B, model: &mut Vec<u32>, what: &str) -> Res {
    for _ in 0..1 + s.below(5) {
        if s.bool() && !model.is_empty() {
            let (i, v) = (s.below(model.len()), s.draw(1000) as u32);
            let mut w = b.mut_buf().map_err(|e| format!("{what}: mut_buf fails with {e:?}"))?;
            ensure!(w.deref() == &model[..], "{what}: mut_buf() shows {:?} instead of {model:?}", w.deref());
            w.deref_mut()[i] = v;
            model[i] = v;
        }
        let x = b.buf().map_err(|e| format!("{what}: buf fails with {e:?}"))?;
        let y = b.buf().map_err(|e| format!("{what}: a second buf fails with {e:?}"))?;
        ensure!(x.deref() == &model[..] && y.deref() == &model[..], "{what}: buf() shows {:?} instead of {model:?}", x.deref());
    }
    Ok(())
}

fn c22_buffers(s: &mut Src, c: &mut Case) -> Res {
    let mut model: Vec<u32> = (0..s.len(40)).map(|_| s.draw(1000) as u32).collect();
    let (mut m1, mut m2, mut m3, mut m4) = (model.clone(), model.clone(), model.clone(), model.clone());
    let mut v = model.clone();
    views(s, &mut v, &mut m1, "Vec")?;
    let mut raw = model.clone();
    { let mut r: &mut [u32] = &mut raw; views(s, &mut r, &mut m2, "&mut [T]")?; }
    ensure!(raw == m2, "&mut [T]: writes are lost");
    { let r: &[u32] = &raw; ensure!(r.buf().map_err(|e| format!("{e:?}"))?.deref() == &m2[..], "&[T]: buf() differs"); }
    let rc = ozz_rc_buf(model.clone());
    let mut k = rc.clone();
    views(s, &mut k, &mut m3, "Rc<RefCell<Vec<T>>>")?;
    ensure!(*rc.borrow() == m3, "Rc<RefCell<Vec<T>>>: writes are lost");
    let arc = ozz_arc_buf(model.clone());
    let mut k = arc.clone();
    views(s, &mut k, &mut m4, "Arc<RwLock<Vec<T>>>")?;
    ensure!(*arc.read().unwrap() == m4, "Arc<RwLock<Vec<T>>>: writes are lost");
    // resizing behind the job's back is seen by the next view
    let n = s.len(40);
    model.resize(n, 7);
    *rc.borrow_mut() = model.clone();
    *arc.write().unwrap() = model.clone();
    ensure!(rc.buf().map_err(|e| format!("{e:?}"))?.deref() == &model[..] && arc.buf().map_err(|e| format!("{e:?}"))?.deref() == &model[..], "a view does not show the current contents");
    // a poisoned lock is reported by both views, also when poisoned by a writer that panicked
    let dead: OzzArcBuf<u32> = Arc::new(RwLock::new(model.clone()));
    let d = dead.clone();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || { let _g = d.write().unwrap(); std::panic::resume_unwind(Box::new(())); }));
    ensure!(dead.buf().err().map_or(false, |e| e.is_lock_poison()) && dead.clone().mut_buf().err().map_or(false, |e| e.is_lock_poison()), "a poisoned lock is not reported");
    // objects behind every kind of reference are the same object
    let sk = Rc::new(skel(&skel_spec(s, 1 + model.len() % 5)));
    let a = Arc::new(skel(&skel_spec(s, 2)));
    let p: *const Skeleton = &*sk;
    ensure!(std::ptr::eq(OzzObj::<Skeleton>::obj(&sk), p) && std::ptr::eq(OzzObj::<Skeleton>::obj(&&*sk), p) && std::ptr::eq(OzzObj::<Skeleton>::obj(&*sk), p) && std::ptr::eq(OzzObj::<Skeleton>::obj(&a), &*a), "obj() is another object");
    // errors classify themselves
    let kinds = [std::io::ErrorKind::UnexpectedEof, std::io::ErrorKind::NotFound, std::io::ErrorKind::PermissionDenied, std::io::ErrorKind::Interrupted, std::io::ErrorKind::Other];
    let kind = *s.pick(&kinds);
    let e = OzzError::from(std::io::Error::from(kind));
    ensure!(matches!(e, OzzError::IO(k) if k == kind), "an I/O error of kind {kind:?} becomes {e:?}");
    let good = s.below(6);
    let mut bytes = vec![b'a'; good];
    bytes.extend([0xFF, b'b']);
    let u = OzzError::from(std::str::from_utf8(&bytes).unwrap_err());
    ensure!(matches!(u, OzzError::Utf8(k) if k as usize == good), "a UTF-8 error after {good} bytes becomes {u:?}");
    let all = [OzzError::LockPoison, OzzError::InvalidJob, e, u, OzzError::InvalidTag, OzzError::InvalidVersion, OzzError::Unexcepted, OzzError::InvalidIndex];
    for (i, e) in all.iter().enumerate() {
        let got = [e.is_lock_poison(), e.is_invalid_job(), e.is_io(), e.is_utf8(), e.is_invalid_tag(), e.is_invalid_version(), e.is_unexcepted()];
        for (k, g) in got.iter().enumerate() {
            ensure!(*g == (k == i), "{e:?} answers {g} to question {k}");
        }
    }
    c.nontrivial = !model.is_empty();
    c.describe(|| format!("{} elements, {kind:?}", model.len()));
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        rule: "at least two different operations are applied to the object (buffers: the buffer is not empty)",
        assumptions: &["parameters documented to be clamped may read back clamped or as set", "NaNs are compared as NaN, indices beyond i32 are not used"],
        facets: &[
            Facet { name: "aim", run: c22_aim, quick: 400_000, thorough: 20_000_000 },
            Facet { name: "two_bone", run: c22_two_bone, quick: 400_000, thorough: 20_000_000 },
            Facet { name: "local_to_model", run: c22_local_to_model, quick: 400_000, thorough: 20_000_000 },
            Facet { name: "blending", run: c22_blending, quick: 400_000, thorough: 20_000_000 },
            Facet { name: "sampling", run: c22_sampling, quick: 150_000, thorough: 8_000_000 },
            Facet { name: "skinning", run: c22_skinning, quick: 400_000, thorough: 20_000_000 },
            Facet { name: "tracks", run: c22_tracks, quick: 400_000, thorough: 20_000_000 },
            Facet { name: "buffers", run: c22_buffers, quick: 400_000, thorough: 20_000_000 },
        ],
    }]
}

