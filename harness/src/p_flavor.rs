//! C18: buffer flavours and threads; C17: purity over job reuse.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::p_archive::{load_track, Flat};
use crate::p_blend::*;
use crate::p_ik::*;
use crate::p_skel::root_mat;
use crate::p_skin::*;
use crate::p_track::{edge, trig_track};
use crate::{archw, p_sampling, xwork};
use glam::{Mat4, Quat, Vec2, Vec3, Vec3A, Vec4};
use glam_ext::Transform3A;
use ozz_animation_rs::*;
use std::cell::{RefCell, RefMut};
use std::fmt::Debug;
use std::rc::Rc;
use std::sync::{Arc, Mutex, RwLock};

// ---------------------------------------------------------------- flavours

thread_local! {
    static ARENA: RefCell<Vec<Box<dyn FnOnce()>>> = RefCell::new(Vec::new());
}
/// Frees everything stashed since its creation; must outlive the jobs.
struct Arena;
impl Drop for Arena {
    fn drop(&mut self) {
        loop {
            let f = ARENA.with(|a| a.borrow_mut().pop());
            match f { Some(f) => f(), None => return }
        }
    }
}
fn stash<T: 'static>(t: T) -> &'static mut T {
    let p = Box::into_raw(Box::new(t));
    ARENA.with(|a| a.borrow_mut().push(Box::new(move || drop(unsafe { Box::from_raw(p) }))));
    unsafe { &mut *p }
}

thread_local! {
    /// How many other owners and weak references shared data has, and the
    /// chance (of 4) that an input is being read elsewhere.
    static COMPANY: std::cell::Cell<(usize, usize, u64, u64)> = const { std::cell::Cell::new((0, 0, 0, 0)) };
}
fn set_company(s: &mut Src) {
    let c = if s.bool() { (0, 0, 0, 0) } else { (s.below(7), s.below(3), s.draw(5), s.draw(64)) };
    COMPANY.set(c);
}
fn company<T: ?Sized + 'static>(r: &Rc<T>) {
    let c = COMPANY.get();
    for _ in 0..c.0 { stash(r.clone()); }
    for _ in 0..c.1 { stash(Rc::downgrade(r)); }
}
fn company_arc<T: ?Sized + 'static>(r: &Arc<T>) {
    let c = COMPANY.get();
    for _ in 0..c.0 { stash(r.clone()); }
    for _ in 0..c.1 { stash(Arc::downgrade(r)); }
}
fn reading() -> bool {
    let (a, b, k, x) = COMPANY.get();
    COMPANY.set((a, b, k, x.wrapping_mul(5).wrapping_add(1) & 0xffff));
    (x >> 2) % 4 < k
}

trait El: 'static + Debug + Clone {}
impl<T: 'static + Debug + Clone> El for T {}

trait Obj {
    type T<X: 'static + Debug>: OzzObj<X>;
    fn obj<X: 'static + Debug>(x: X) -> Self::T<X>;
}
trait Buf {
    type B<X: El>: OzzMutBuf<X>;
    fn buf<X: El>(v: Vec<X>) -> Self::B<X>;
}
trait Ins {
    type B<X: El>: OzzBuf<X>;
    fn ins<X: El>(v: Vec<X>) -> Self::B<X>;
}
trait Ctx {
    type C: sampling_ctx::AsSamplingContext;
    fn ctx(c: SamplingContext) -> Self::C;
}
mod sampling_ctx {
    pub use ozz_animation_rs::sampling_job::AsSamplingContext;
}

struct Own;
struct Bor;
struct Rcd;
struct Arcd;
struct BorMut;

impl Obj for Own { type T<X: 'static + Debug> = X; fn obj<X: 'static + Debug>(x: X) -> X { x } }
impl Obj for Bor { type T<X: 'static + Debug> = &'static X; fn obj<X: 'static + Debug>(x: X) -> &'static X { stash(x) } }
impl Obj for Rcd { type T<X: 'static + Debug> = Rc<X>; fn obj<X: 'static + Debug>(x: X) -> Rc<X> { let r = Rc::new(x); company(&r); r } }
impl Obj for Arcd { type T<X: 'static + Debug> = Arc<X>; fn obj<X: 'static + Debug>(x: X) -> Arc<X> { let r = Arc::new(x); company_arc(&r); r } }

impl Buf for Own { type B<X: El> = Vec<X>; fn buf<X: El>(v: Vec<X>) -> Vec<X> { v } }
impl Buf for Bor { type B<X: El> = &'static mut [X]; fn buf<X: El>(v: Vec<X>) -> &'static mut [X] { &mut stash(v)[..] } }
impl Buf for Rcd { type B<X: El> = OzzRcBuf<X>; fn buf<X: El>(v: Vec<X>) -> OzzRcBuf<X> { let r = ozz_rc_buf(v); company(&r); r } }
impl Buf for Arcd { type B<X: El> = OzzArcBuf<X>; fn buf<X: El>(v: Vec<X>) -> OzzArcBuf<X> { let r = ozz_arc_buf(v); company_arc(&r); r } }

impl Ins for Own { type B<X: El> = Vec<X>; fn ins<X: El>(v: Vec<X>) -> Vec<X> { v } }
impl Ins for Bor { type B<X: El> = &'static [X]; fn ins<X: El>(v: Vec<X>) -> &'static [X] { &stash(v)[..] } }
impl Ins for BorMut { type B<X: El> = &'static mut [X]; fn ins<X: El>(v: Vec<X>) -> &'static mut [X] { &mut stash(v)[..] } }
impl Ins for Rcd { type B<X: El> = Rc<RefCell<Vec<X>>>; fn ins<X: El>(v: Vec<X>) -> Self::B<X> {
    let r = Rc::new(RefCell::new(v));
    company(&r);
    // somebody else is reading the buffer all along
    if reading() { let own: &'static _ = stash(r.clone()); stash(own.borrow()); }
    r
} }
impl Ins for Arcd { type B<X: El> = Arc<RwLock<Vec<X>>>; fn ins<X: El>(v: Vec<X>) -> Self::B<X> {
    let r = Arc::new(RwLock::new(v));
    company_arc(&r);
    if reading() { let own: &'static _ = stash(r.clone()); stash(own.read().unwrap()); }
    r
} }

impl Ctx for Own { type C = SamplingContext; fn ctx(c: SamplingContext) -> SamplingContext { c } }
impl Ctx for Bor { type C = &'static mut SamplingContext; fn ctx(c: SamplingContext) -> &'static mut SamplingContext { stash(c) } }

/// Runs `$f::<Obj, Ins, Buf, Ctx>` for the four plain and some mixed combinations.
macro_rules! flavours {
    ($f:ident, $($a:expr),*) => {
        vec![
            ("owned", $f::<Own, Own, Own, Own>($($a),*)),
            ("borrowed", $f::<Bor, Bor, Bor, Bor>($($a),*)),
            ("Rc", $f::<Rcd, Rcd, Rcd, Own>($($a),*)),
            ("Arc", $f::<Arcd, Arcd, Arcd, Own>($($a),*)),
            ("Arc/&mut/owned", $f::<Arcd, BorMut, Own, Bor>($($a),*)),
            ("Rc/Arc/borrowed", $f::<Rcd, Arcd, Bor, Bor>($($a),*)),
            ("owned/borrowed/Arc", $f::<Own, Bor, Arcd, Bor>($($a),*)),
            ("borrowed/owned/Rc", $f::<Bor, Own, Rcd, Own>($($a),*)),
        ]
    };
}
fn all_same<T: PartialEq + Debug>(what: &str, rs: Vec<(&'static str, Result<T, String>)>) -> Res {
    let (n0, r0) = &rs[0];
    for (n, r) in &rs[1..] {
        ensure!(r == r0, "{what} with {n} data gives {}, with {n0} data {}", brief(r), brief(r0));
    }
    r0.as_ref().map(|_| ()).map_err(|e| format!("{what}: {e}"))
}
fn brief<T: Debug>(t: &T) -> String {
    let mut s = format!("{t:?}");
    s.truncate(300);
    s
}

type TBits = Vec<[u32; 10]>;
type MBits = Vec<[u32; 16]>;
type VBits = Vec<[u32; 3]>;
fn mbits(v: &[Mat4]) -> MBits { v.iter().map(|m| m.to_cols_array().map(f32::to_bits)).collect() }
fn vbits(v: &[Vec3]) -> VBits { v.iter().map(|m| m.to_array().map(f32::to_bits)).collect() }
fn qbits(q: Quat) -> [u32; 4] { q.to_array().map(f32::to_bits) }
fn abits(t: &Transform3A) -> [u32; 10] {
    let (a, q, s) = (t.translation, t.rotation, t.scale);
    [a.x, a.y, a.z, q.x, q.y, q.z, q.w, s.x, s.y, s.z].map(f32::to_bits)
}

fn er(e: OzzError) -> String { format!("{e:?}") }

fn f_sampling<O: Obj, I: Ins, B: Buf, C: Ctx>(spec: &AnimSpec, ratios: &[f32], extra: usize) -> Result<Vec<TBits>, String> {
    let a = spec.build();
    let n = a.num_soa_tracks();
    let ctx = SamplingContext::new(a.num_tracks() + extra);
    let mut j: SamplingJob<O::T<Animation>, B::B<SoaTransform>, C::C> = SamplingJob::default();
    j.set_animation(O::obj(a));
    j.set_context(C::ctx(ctx));
    j.set_output(B::buf((0..n + extra).map(|k| soa_sentinel(k as u32)).collect()));
    let mut out = Vec::new();
    for r in ratios {
        j.set_ratio(*r);
        ensure!(j.validate(), "valid job not accepted");
        j.run().map_err(er)?;
        out.push(soa_bits(&j.output().unwrap().buf().map_err(er)?));
    }
    let _ = I::ins(vec![0u8]);
    Ok(out)
}

#[derive(Clone, Debug)]
struct L2m {
    spec: SkelSpec,
    locals: Vec<Vec<SoaTransform>>,
    root: Option<Mat4>,
    ranges: Vec<(i32, i32, bool)>,
    extra: usize,
}
fn l2m_case(s: &mut Src) -> L2m {
    let n = match s.draw(10) { 0 => 0, 1 if s.one_in(20) => 60 + s.below(240), 2 if s.one_in(60) => 1000 + s.below(25), _ => 1 + s.len(40) };
    let spec = skel_spec(s, n);
    let extra = s.below(3);
    let k = 1 + s.below(3);
    let mut ranges = vec![(-1, SKELETON_MAX_JOINTS, false)];
    let mut locals = Vec::new();
    for i in 0..k {
        let p = pose(s, n);
        let mut v = to_soa(&p, &XF_ID);
        for e in 0..extra { v.push(soa_sentinel(e as u32)); }
        locals.push(v);
        if i > 0 {
            let f = s.below(n.max(1)) as i32 - s.draw(2) as i32;
            let t = if s.bool() { n as i32 } else { s.below(n.max(1)) as i32 };
            ranges.push((f, t, s.bool()));
        }
    }
    L2m { spec, locals, root: if s.bool() { Some(root_mat(s)) } else { None }, ranges, extra }
}
fn f_l2m<O: Obj, I: Ins, B: Buf, C: Ctx>(k: &L2m) -> Result<Vec<MBits>, String> {
    let sk = skel(&k.spec);
    let n = sk.num_joints();
    let mut j: LocalToModelJob<O::T<Skeleton>, I::B<SoaTransform>, B::B<Mat4>> = LocalToModelJob::default();
    j.set_skeleton(O::obj(sk));
    j.set_output(B::buf(vec![Mat4::from_cols_array(&[3.25; 16]); n + k.extra]));
    if let Some(r) = &k.root { j.set_root(r); }
    let mut out = Vec::new();
    for (l, r) in k.locals.iter().zip(&k.ranges) {
        j.set_input(I::ins(l.clone()));
        j.set_from(r.0);
        j.set_to(r.1);
        j.set_from_excluded(r.2);
        ensure!(j.validate(), "valid job not accepted");
        j.run().map_err(er)?;
        out.push(mbits(&j.output().unwrap().buf().map_err(er)?));
        ensure!(soa_bits(&j.input().unwrap().buf().map_err(er)?) == soa_bits(l), "input modified");
    }
    Ok(out)
}

fn f_blending<O: Obj, I: Ins, B: Buf, C: Ctx>(b: &Blend, extra: usize) -> Result<TBits, String> {
    let sk = b.skeleton();
    let soa = sk.num_soa_joints();
    let mut j: BlendingJob<O::T<Skeleton>, I::B<SoaTransform>, B::B<SoaTransform>> = BlendingJob::default();
    j.set_skeleton(O::obj(sk));
    j.set_threshold(b.threshold);
    for (k, l) in b.layers.iter().chain(&b.adds).enumerate() {
        let mut v = to_soa(&l.pose, &XF_ID);
        for e in 0..extra { v.push(soa_sentinel(e as u32)); }
        let mut x = BlendingLayer::with_weight(I::ins(v), l.weight);
        x.joint_weights = pack_weights(&l.jw, 1.0);
        if k < b.layers.len() { j.layers_mut().push(x) } else { j.additive_layers_mut().push(x) }
    }
    j.set_output(B::buf((0..soa + extra).map(|k| soa_sentinel(k as u32)).collect()));
    ensure!(j.validate(), "valid job not accepted");
    j.run().map_err(er)?;
    for (x, l) in j.layers().iter().chain(j.additive_layers()).zip(b.layers.iter().chain(&b.adds)) {
        let want = to_soa(&l.pose, &XF_ID);
        ensure!(soa_bits(&x.transform.buf().map_err(er)?[..want.len()]) == soa_bits(&want), "layer modified");
    }
    let r = soa_bits(&j.output().unwrap().buf().map_err(er)?);
    Ok(r)
}

fn f_skinning<O: Obj, I: Ins, B: Buf, C: Ctx>(k: &Skin) -> Result<[VBits; 3], String> {
    let mut j: SkinningJob<I::B<Mat4>, I::B<u16>, I::B<f32>, I::B<Vec3>, B::B<Vec3>> = SkinningJob::default();
    j.set_vertex_count(k.vertices);
    j.set_influences_count(k.influences);
    j.set_joint_matrices(I::ins(k.matrices.clone()));
    if let Some(m) = &k.it { j.set_joint_it_matrices(I::ins(m.clone())); }
    j.set_joint_indices(I::ins(k.indices.clone()));
    if let Some(w) = &k.weights { j.set_joint_weights(I::ins(w.clone())); }
    j.set_in_positions(I::ins(k.pos.clone()));
    if let Some(x) = &k.nor { j.set_in_normals(I::ins(x.clone())); }
    if let Some(x) = &k.tan { j.set_in_tangents(I::ins(x.clone())); }
    let o = |i: usize| B::buf(vec![UNTOUCHED; k.out[i].unwrap_or(0)]);
    if k.out[0].is_some() { j.set_out_positions(o(0)); }
    if k.out[1].is_some() { j.set_out_normals(o(1)); }
    if k.out[2].is_some() { j.set_out_tangents(o(2)); }
    ensure!(j.validate(), "valid job not accepted");
    j.run().map_err(er)?;
    let get = |b: Option<&B::B<Vec3>>| -> Result<VBits, String> { match b { Some(b) => Ok(vbits(&b.buf().map_err(er)?)), None => Ok(Vec::new()) } };
    Ok([get(j.out_positions())?, get(j.out_normals())?, get(j.out_tangents())?])
}

fn f_track<V: Flat + track::TrackValue + 'static, O: Obj>(t: &TrackSpec, ratios: &[f32]) -> Result<Vec<Vec<u32>>, String> {
    let mut j: TrackSamplingJob<V, O::T<Track<V>>> = TrackSamplingJob::default();
    j.set_track(O::obj(load_track::<V>(t)));
    let mut out = Vec::new();
    for r in ratios {
        j.set_ratio(*r);
        j.run().map_err(er)?;
        out.push(j.result().flat().iter().map(|x| x.to_bits()).collect());
    }
    Ok(out)
}
use ozz_animation_rs::track;

fn f_trigger<O: Obj>(t: &TrackSpec, iv: &[(f32, f32)], thr: f32) -> Result<Vec<Vec<(u32, bool)>>, String> {
    let mut j: TrackTriggeringJob<O::T<Track<f32>>> = TrackTriggeringJob::default();
    j.set_track(O::obj(load_track::<f32>(t)));
    j.set_threshold(thr);
    let mut out = Vec::new();
    for (f, to) in iv {
        j.set_from(*f);
        j.set_to(*to);
        let it = j.run().map_err(er)?;
        out.push(it.take(5000).map(|e| { let e = edge(&e); (e.0.to_bits(), e.1) }).collect());
    }
    Ok(out)
}
macro_rules! objs {
    ($f:ident $(,$v:ty)?; $($a:expr),*) => {
        vec![
            ("owned", $f::<$($v,)? Own>($($a),*)),
            ("borrowed", $f::<$($v,)? Bor>($($a),*)),
            ("Rc", $f::<$($v,)? Rcd>($($a),*)),
            ("Arc", $f::<$($v,)? Arcd>($($a),*)),
        ]
    };
}

fn small_anim(s: &mut Src) -> AnimSpec {
    anim_spec(s, &AnimOpts { max_tracks: 24, max_timepoints: 40, hemisphere: false })
}
fn ratios(s: &mut Src, tps: &[f32]) -> Vec<f32> {
    (0..1 + s.below(5)).map(|_| anim_ratio(s, tps)).collect()
}

fn c18_sampling(s: &mut Src, c: &mut Case) -> Res {
    let _a = Arena;
    set_company(s);
    let spec = small_anim(s);
    let rs = ratios(s, &spec.timepoints);
    let extra = s.below(4);
    c.nontrivial = spec.max_keys() > 2;
    c.describe(|| format!("{} at {rs:?}", spec.brief()));
    let (a, b, d) = (&spec, &rs[..], extra);
    all_same("sampling", flavours!(f_sampling, a, b, d))
}
fn c18_l2m(s: &mut Src, c: &mut Case) -> Res {
    let _a = Arena;
    set_company(s);
    let k = l2m_case(s);
    c.nontrivial = k.spec.parents.len() > 1;
    c.describe(|| format!("parents {:?} ranges {:?}", k.spec.parents, k.ranges));
    all_same("local-to-model", flavours!(f_l2m, &k))
}
fn c18_blending(s: &mut Src, c: &mut Case) -> Res {
    let _a = Arena;
    set_company(s);
    let b = blend_case(s, 20);
    let extra = s.below(3);
    c.nontrivial = b.n > 0 && b.layers.len() + b.adds.len() > 0;
    c.describe(|| b.brief());
    all_same("blending", flavours!(f_blending, &b, extra))
}
fn c18_skinning(s: &mut Src, c: &mut Case) -> Res {
    let _a = Arena;
    set_company(s);
    let k = skin_case(s, 12);
    c.nontrivial = k.vertices > 0;
    c.describe(|| format!("{} vertices, {} influences", k.vertices, k.influences));
    all_same("skinning", flavours!(f_skinning, &k))
}
fn c18_tracks(s: &mut Src, c: &mut Case) -> Res {
    let _a = Arena;
    set_company(s);
    let (t, thr) = trig_track(s);
    let iv: Vec<(f32, f32)> = (0..1 + s.below(3)).map(|_| (s.sym(3.0), s.sym(3.0))).collect();
    all_same("triggering", objs!(f_trigger; &t, &iv, thr))?;
    let dim = 1 + s.below(5);
    let t = track_spec(s, dim, &TrackOpts { max_keys: 20, patched: true, range: 5.0 });
    let rs = if t.ratios.is_empty() { vec![0.5] } else { (0..1 + s.below(5)).map(|_| if s.bool() { *s.pick(&t.ratios) } else { s.unit() }).collect() };
    c.nontrivial = t.ratios.len() > 1;
    c.describe(|| format!("{t:?} at {rs:?}"));
    match dim {
        1 => all_same("sampling a f32 track", objs!(f_track, f32; &t, &rs)),
        2 => all_same("sampling a Vec2 track", objs!(f_track, Vec2; &t, &rs)),
        3 => all_same("sampling a Vec3 track", objs!(f_track, Vec3; &t, &rs)),
        4 => all_same("sampling a Vec4 track", objs!(f_track, Vec4; &t, &rs)),
        _ => all_same("sampling a Quat track", objs!(f_track, Quat; &t, &rs)),
    }
}

// ------------------------------------------------- pipelines with sharing

/// Everything a frame computes.
type Frame = (TBits, TBits, MBits, Option<VBits>);

struct Pipe {
    a: AnimSpec,
    b: AnimSpec,
    sk: SkelSpec,
    frames: Vec<(f32, f32, f32)>,
    skin: Option<Skin>,
}
fn pipe_case(s: &mut Src) -> Pipe {
    let n = 1 + s.len(30);
    let tps = |s: &mut Src| { let k = 2 + s.below(10); timepoints(s, k) };
    let t = tps(s);
    let a = anim_spec_with(s, n, t, false);
    let t = tps(s);
    let b = anim_spec_with(s, n, t, false);
    let sk = skel_spec(s, n);
    let frames = (0..1 + s.below(4)).map(|_| (anim_ratio(s, &a.timepoints), anim_ratio(s, &b.timepoints), s.unit())).collect();
    let skin = if s.bool() {
        let mut k = skin_case(s, 8);
        k.it = None;
        k.matrices.clear();
        for i in k.indices.iter_mut() { *i %= n as u16; }
        Some(k)
    } else {
        None
    };
    Pipe { a, b, sk, frames, skin }
}

/// Each stage by itself, values copied between stages.
fn pipe_copied(p: &Pipe, a: &Animation, b: &Animation, sk: &Skeleton) -> Result<Vec<Frame>, String> {
    let mut out = Vec::new();
    for (ra, rb, w) in &p.frames {
        let pa = p_sampling::sample_new(a, a.num_tracks(), true, *ra, 0)?;
        let pb = p_sampling::sample_new(b, b.num_tracks(), true, *rb, 0)?;
        let mut bl = vec![SoaTransform::IDENTITY; sk.num_soa_joints()];
        {
            let mut j: BlendingJobRef = BlendingJob::default();
            j.set_skeleton(sk);
            j.layers_mut().push(BlendingLayer::with_weight(&pa[..], *w));
            j.layers_mut().push(BlendingLayer::with_weight(&pb[..], 1.0 - *w));
            j.set_output(&mut bl);
            j.run().map_err(er)?;
        }
        let mut m = vec![Mat4::ZERO; sk.num_joints()];
        {
            let mut j: LocalToModelJobRef = LocalToModelJob::default();
            j.set_skeleton(sk);
            j.set_input(&bl);
            j.set_output(&mut m);
            j.run().map_err(er)?;
        }
        let skin = match &p.skin {
            None => None,
            Some(k) => {
                let mut k = k.clone();
                k.matrices = m.clone();
                let (r, _, o) = run_skin(&k, k.vertices);
                r.map_err(er)?;
                Some(vbits(&o[0]))
            }
        };
        out.push((soa_bits(&pa), soa_bits(&bl), mbits(&m), skin));
    }
    Ok(out)
}

macro_rules! shared_pipe {
    ($name:ident, $sj:ty, $bj:ty, $lj:ty, $kj:ty, $rc:ident, $buf:ident, $lock:expr) => {
        /// Long-lived jobs connected through shared buffers.
        fn $name(p: &Pipe) -> Result<Vec<Frame>, String> {
            let (a, b) = ($rc::new(p.a.build()), $rc::new(p.b.build()));
            let sk = $rc::new(skel(&p.sk));
            let soa = || $buf(vec![soa_sentinel(7); sk.num_soa_joints()]);
            let (pa, pb, bl) = (soa(), soa(), soa());
            let m = $buf(vec![Mat4::ZERO; sk.num_joints()]);
            let mut ja: $sj = SamplingJob::default();
            ja.set_animation(a.clone());
            ja.set_context(SamplingContext::new(a.num_tracks()));
            ja.set_output(pa.clone());
            let mut jb: $sj = SamplingJob::default();
            jb.set_animation(b.clone());
            jb.set_context(SamplingContext::new(b.num_tracks()));
            jb.set_output(pb.clone());
            let mut j: $bj = BlendingJob::default();
            j.set_skeleton(sk.clone());
            j.layers_mut().push(BlendingLayer::new(pa.clone()));
            j.layers_mut().push(BlendingLayer::new(pb.clone()));
            j.set_output(bl.clone());
            let mut l: $lj = LocalToModelJob::default();
            l.set_skeleton(sk.clone());
            l.set_input(bl.clone());
            l.set_output(m.clone());
            let mut kj: $kj = SkinningJob::default();
            let ko = $buf(Vec::<Vec3>::new());
            if let Some(k) = &p.skin {
                $lock(&ko).resize(k.out[0].unwrap(), UNTOUCHED);
                kj.set_vertex_count(k.vertices);
                kj.set_influences_count(k.influences);
                kj.set_joint_matrices(m.clone());
                kj.set_joint_indices($buf(k.indices.clone()));
                if let Some(w) = &k.weights { kj.set_joint_weights($buf(w.clone())); }
                kj.set_in_positions($buf(k.pos.clone()));
                kj.set_out_positions(ko.clone());
            }
            let mut out = Vec::new();
            for (ra, rb, w) in &p.frames {
                ja.set_ratio(*ra);
                jb.set_ratio(*rb);
                ja.run().map_err(er)?;
                jb.run().map_err(er)?;
                j.layers_mut()[0].weight = *w;
                j.layers_mut()[1].weight = 1.0 - *w;
                j.run().map_err(er)?;
                l.run().map_err(er)?;
                let skin = if p.skin.is_some() {
                    kj.run().map_err(er)?;
                    Some(vbits(&ko.buf().map_err(er)?))
                } else {
                    None
                };
                out.push((soa_bits(&pa.buf().map_err(er)?), soa_bits(&bl.buf().map_err(er)?), mbits(&m.buf().map_err(er)?), skin));
            }
            Ok(out)
        }
    };
}
fn rc_mut<T>(b: &OzzRcBuf<T>) -> RefMut<'_, Vec<T>> { b.borrow_mut() }
fn arc_mut<T>(b: &OzzArcBuf<T>) -> std::sync::RwLockWriteGuard<'_, Vec<T>> { b.write().unwrap() }
shared_pipe!(pipe_rc, SamplingJobRc, BlendingJobRc, LocalToModelJobRc, SkinningJobRc, Rc, ozz_rc_buf, rc_mut);
shared_pipe!(pipe_arc, SamplingJobArc, BlendingJobArc, LocalToModelJobArc, SkinningJobArc, Arc, ozz_arc_buf, arc_mut);

fn c18_pipeline(s: &mut Src, c: &mut Case) -> Res {
    let p = pipe_case(s);
    c.nontrivial = p.frames.len() > 1;
    c.describe(|| format!("{} / {} frames {:?} skin {}", p.a.brief(), p.b.brief(), p.frames, p.skin.is_some()));
    let (a, b, sk) = (p.a.build(), p.b.build(), skel(&p.sk));
    let r0 = pipe_copied(&p, &a, &b, &sk);
    all_same("sampling, blending, local-to-model, skinning", vec![("copied", r0), ("Rc", pipe_rc(&p)), ("Arc", pipe_arc(&p))])
}

// ---------------------------------------------------------------- threads

/// Lets the harness compile whatever the library declares; the declaration
/// itself is probed by `is_sync!`.
struct Share<T>(T);
unsafe impl<T> Send for Share<T> {}
unsafe impl<T> Sync for Share<T> {}
impl<T> Share<T> {
    fn get(&self) -> &T { &self.0 }
}

macro_rules! probe {
    ($t:ty, $bound:path) => {{
        struct P<T: ?Sized>(std::marker::PhantomData<T>);
        trait No { fn has(&self) -> bool { false } }
        impl<T: ?Sized> No for &P<T> {}
        impl<T: ?Sized + $bound> P<T> { fn has(&self) -> bool { true } }
        (&P::<$t>(std::marker::PhantomData)).has()
    }};
}

fn c18_declared(s: &mut Src, c: &mut Case) -> Res {
    let _ = s.draw(2);
    c.nontrivial = true;
    for (n, ok) in [
        ("Skeleton", probe!(Skeleton, Send) && probe!(Skeleton, Sync)),
        ("Animation", probe!(Animation, Send) && probe!(Animation, Sync)),
        ("Track<f32>", probe!(Track<f32>, Send) && probe!(Track<f32>, Sync)),
        ("Track<Quat>", probe!(Track<Quat>, Send) && probe!(Track<Quat>, Sync)),
        ("SamplingContext", probe!(SamplingContext, Send)),
        ("SamplingJobArc", probe!(SamplingJobArc, Send)),
        ("BlendingJobArc", probe!(BlendingJobArc, Send)),
        ("LocalToModelJobArc", probe!(LocalToModelJobArc, Send)),
        ("SkinningJobArc", probe!(SkinningJobArc, Send)),
        ("TrackSamplingJobArc<Vec3>", probe!(TrackSamplingJobArc<Vec3>, Send)),
        ("TrackTriggeringJobArc", probe!(TrackTriggeringJobArc, Send)),
        ("IKTwoBoneJob", probe!(IKTwoBoneJob, Send)),
        ("IKAimJob", probe!(IKAimJob, Send)),
        ("MotionBlendingJob", probe!(MotionBlendingJob, Send)),
    ] {
        ensure!(ok, "{n} cannot be shared with or sent to other threads");
    }
    Ok(())
}

/// Several threads use the same skeleton, animations and tracks at once.
fn c18_threads(s: &mut Src, c: &mut Case) -> Res {
    let n = 1 + s.len(60);
    let k = 2 + s.below(20);
    let tps = timepoints(s, k);
    let a = anim_spec_with(s, n, tps.clone(), false);
    let b = anim_spec_with(s, n, tps, false);
    let sk = skel_spec(s, n);
    let threads = 2 + s.below(3);
    let jobs: Vec<Vec<(f32, f32, f32)>> = (0..threads).map(|_| (0..1 + s.below(6)).map(|_| (anim_ratio(s, &a.timepoints), anim_ratio(s, &b.timepoints), s.unit())).collect()).collect();
    let t = track_spec(s, 1, &TrackOpts { max_keys: 30, patched: true, range: 3.0 });
    let thr = if t.values.is_empty() { 0.5 } else { s.pick(&t.values)[0] };
    c.nontrivial = true;
    c.describe(|| format!("{} threads over {}", threads, a.brief()));
    let (xa, xb, xs) = (a.build(), b.build(), skel(&sk));
    let xt = load_track::<f32>(&t);
    let trig = |tr: &Track<f32>, fs: &[(f32, f32, f32)]| -> Vec<(u32, bool, u32)> {
        let mut o = Vec::new();
        for f in fs {
            let mut j: TrackTriggeringJobRef = TrackTriggeringJob::default();
            j.set_track(tr);
            j.set_from(f.0 - f.2);
            j.set_to(f.1 + f.2 * 2.0);
            j.set_threshold(thr);
            let mut k: TrackSamplingJobRef<f32> = TrackSamplingJob::default();
            k.set_track(tr);
            k.set_ratio(f.1);
            k.run().unwrap();
            let v = k.result().to_bits();
            o.extend(j.run().unwrap().take(1000).map(|e| { let e = edge(&e); (e.0.to_bits(), e.1, v) }));
        }
        o
    };
    // every thread's work is done alone first
    let mut want = Vec::new();
    for f in &jobs {
        let p = Pipe { a: a.clone(), b: b.clone(), sk: sk.clone(), frames: f.clone(), skin: None };
        want.push((pipe_copied(&p, &xa, &xb, &xs)?, trig(&xt, f)));
    }
    let sh = Share((xa, xb, xs, xt));
    let bar = std::sync::Barrier::new(threads);
    let got: Mutex<Vec<Option<Result<_, String>>>> = Mutex::new((0..threads).map(|_| None).collect());
    std::thread::scope(|sc| {
        for (i, f) in jobs.iter().enumerate() {
            let (sh, bar, got, trig) = (&sh, &bar, &got, &trig);
            let p = Share(Pipe { a: a.clone(), b: b.clone(), sk: sk.clone(), frames: f.clone(), skin: None });
            sc.spawn(move || {
                let x = sh.get();
                bar.wait();
                let r = pipe_copied(p.get(), &x.0, &x.1, &x.2).map(|r| (r, trig(&x.3, &p.get().frames)));
                got.lock().unwrap()[i] = Some(r);
            });
        }
    });
    for (i, (g, w)) in got.into_inner().unwrap().into_iter().zip(want).enumerate() {
        let g = g.unwrap()?;
        ensure!(g == w, "thread {i} of {threads} gets {}, alone {}", brief(&g), brief(&w));
    }
    Ok(())
}

/// Every kind of job, run by several threads at once on data of their own.
fn c18_concurrent(s: &mut Src, c: &mut Case) -> Res {
    let kind = s.below(11);
    let threads = 3 + s.below(3);
    let seeds: Vec<Vec<u64>> = (0..threads).map(|_| (0..8).map(|_| s.draw(1 << 40)).collect()).collect();
    c.label(xwork::NAMES[kind]);
    c.describe(|| format!("{threads} threads of {} jobs, {seeds:?}", xwork::NAMES[kind]));
    let one = |seed: u64| {
        let mut o = xwork::Out::default();
        xwork::run(kind, &mut Src::random(seed, 0), &mut o);
        o
    };
    let alone: Vec<Vec<_>> = seeds.iter().map(|v| v.iter().map(|x| one(*x)).collect()).collect();
    c.nontrivial = alone.iter().flatten().any(|o| o.nontrivial);
    let bar = std::sync::Barrier::new(threads);
    let err: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|sc| {
        for (v, w) in seeds.iter().zip(&alone) {
            let (bar, err, one) = (&bar, &err, &one);
            sc.spawn(move || {
                bar.wait();
                for _ in 0..3 {
                    for (x, w) in v.iter().zip(w) {
                        let o = one(*x);
                        if o.words != w.words {
                            err.lock().unwrap().get_or_insert_with(|| format!("{} (seed {x}) gives {} beside other threads, {} alone", xwork::NAMES[kind], brief(&o.words), brief(&w.words)));
                            return;
                        }
                    }
                }
            });
        }
    });
    match err.into_inner().unwrap() { Some(e) => Err(e), None => Ok(()) }
}

/// A job sees a buffer shared behind a lock either before or after another
/// thread's job wrote it, never in between.
fn c18_atomic(s: &mut Src, c: &mut Case) -> Res {
    let n = 8 + s.below(120);
    let k = 2 + s.below(4);
    let tps = timepoints(s, k);
    let a = anim_spec_with(s, n, tps, false);
    let mut sk = skel_spec(s, n);
    if s.bool() { for (i, p) in sk.parents.iter_mut().enumerate() { *p = i as i16 - 1; } }
    let rs = [anim_ratio(s, &a.timepoints), anim_ratio(s, &a.timepoints)];
    let rounds = 20 + s.below(40);
    c.describe(|| format!("{} alternating {rs:?}, {rounds} rounds", a.brief()));
    let (xa, xs) = (Arc::new(a.build()), Arc::new(skel(&sk)));
    // the two possible states and what follows from them
    let mut poses = Vec::new();
    let mut models = Vec::new();
    for r in rs {
        let p = p_sampling::sample_new(&xa, n, true, r, 0)?;
        let mut m = vec![Mat4::ZERO; n];
        let mut j: LocalToModelJobRef = LocalToModelJob::default();
        j.set_skeleton(&xs);
        j.set_input(&p);
        j.set_output(&mut m);
        j.run().map_err(er)?;
        drop(j);
        poses.push(soa_bits(&p));
        models.push((mbits(&m), m));
    }
    c.nontrivial = models[0].0 != models[1].0;
    let pose = ozz_arc_buf(p_sampling::sample_new(&xa, n, true, rs[0], 0)?);
    let mats = ozz_arc_buf(models[0].1.clone());
    let mk_l2m = || {
        let mut j: LocalToModelJobArc = LocalToModelJob::default();
        j.set_skeleton(xs.clone());
        j.set_input(pose.clone());
        j
    };
    let writer = {
        let mut j: SamplingJobArc = SamplingJob::default();
        j.set_animation(xa.clone());
        j.set_context(SamplingContext::new(n));
        j.set_output(pose.clone());
        Share(j)
    };
    // reads the pose, writes the shared matrices
    let mid = { let mut j = mk_l2m(); j.set_output(mats.clone()); Share(j) };
    let own = ozz_arc_buf(vec![Mat4::ZERO; n]);
    let reader = { let mut j = mk_l2m(); j.set_output(own.clone()); Share(j) };
    let bar = std::sync::Barrier::new(4);
    let err: Mutex<Option<String>> = Mutex::new(None);
    let fail = |e: String| { err.lock().unwrap().get_or_insert(e); };
    std::thread::scope(|sc| {
        let (bar, fail, models, poses, own, mats, pose) = (&bar, &fail, &models, &poses, &own, &mats, &pose);
        sc.spawn(move || {
            let w = writer;
            let mut w = { let Share(j) = w; j };
            bar.wait();
            for i in 0..rounds {
                w.set_ratio(rs[i % 2]);
                if let Err(e) = w.run() { fail(format!("sampling: {e:?}")); }
            }
        });
        sc.spawn(move || {
            let m = mid;
            let mut m = { let Share(j) = m; j };
            bar.wait();
            for _ in 0..rounds {
                if let Err(e) = m.run() { fail(format!("local-to-model: {e:?}")); }
            }
        });
        sc.spawn(move || {
            let r = reader;
            let mut r = { let Share(j) = r; j };
            bar.wait();
            for _ in 0..rounds {
                if let Err(e) = r.run() { fail(format!("local-to-model: {e:?}")); continue; }
                let got = mbits(&own.read().unwrap());
                if got != models[0].0 && got != models[1].0 {
                    fail("local-to-model read a pose that no sampling job wrote: the output mixes two poses".into());
                }
            }
        });
        sc.spawn(move || {
            bar.wait();
            for _ in 0..rounds {
                let p = soa_bits(&pose.read().unwrap());
                if p != poses[0] && p != poses[1] {
                    fail("a reader saw a half written pose".into());
                }
                let m = mbits(&mats.read().unwrap());
                if m != models[0].0 && m != models[1].0 {
                    fail("a reader saw half written model matrices".into());
                }
            }
        });
    });
    match err.into_inner().unwrap() { Some(e) => Err(e), None => Ok(()) }
}

// ------------------------------------------------------------------ C17

struct OutBuf {
    buf: OzzRcBuf<SoaTransform>,
}
fn dirty_soa(s: &mut Src, n: usize) -> Vec<SoaTransform> {
    let mut r = Rng::new(s.draw(1 << 32));
    let mut f = || match r.next() % 8 { 0 => f32::NAN, 1 => f32::INFINITY, 2 => 0.0, 3 => 1e30, _ => (r.next() >> 40) as f32 / (1u64 << 20) as f32 - 8.0 };
    (0..n).map(|_| {
        let mut v = || { let a = [f(), f(), f(), f()]; std::simd::f32x4::from_array(a) };
        let t = SoaVec3 { x: v(), y: v(), z: v() };
        let q = SoaQuat { x: v(), y: v(), z: v(), w: v() };
        let sc = SoaVec3 { x: v(), y: v(), z: v() };
        SoaTransform { translation: t, rotation: q, scale: sc }
    }).collect()
}
fn check_out(what: &str, before: &TBits, after: &TBits, want: &TBits, n: usize) -> Res {
    for i in 0..after.len() {
        let w = if i < n * 4 { &want[i] } else { &before[i] };
        ensure!(&after[i] == w, "{what}: joint {i} is {:?}, want {:?}{}", after[i].map(f32::from_bits), w.map(f32::from_bits), if i < n * 4 { "" } else { " (beyond the documented range)" });
    }
    Ok(())
}

fn c17_sampling(s: &mut Src, c: &mut Case) -> Res {
    let specs = [small_anim(s), small_anim(s)];
    let anims: Vec<Rc<Animation>> = specs.iter().map(|a| Rc::new(a.build())).collect();
    let big = anims.iter().map(|a| a.num_soa_tracks()).max().unwrap();
    let outs: Vec<OutBuf> = (0..2).map(|_| { let n = big + s.below(3); OutBuf { buf: ozz_rc_buf(dirty_soa(s, n)) } }).collect();
    let mut j: SamplingJobRc = SamplingJob::default();
    j.set_context(SamplingContext::new(big * 4));
    let (mut a, mut o, mut r) = (0, 0, 0.0);
    j.set_animation(anims[0].clone());
    j.set_output(outs[0].buf.clone());
    let mut log = Vec::new();
    let steps = 2 + s.len(16);
    for i in 0..steps {
        match s.draw(6) {
            0 => { a = s.below(2); j.set_animation(anims[a].clone()); }
            1 => { o = s.below(2); j.set_output(outs[o].buf.clone()); }
            2 => {
                // an invalid attempt in between
                j.clear_output();
                ensure!(j.run().is_err(), "a job without output runs");
                j.set_output(outs[o].buf.clone());
            }
            3 => {}
            _ => { r = anim_ratio(s, &specs[a].timepoints); j.set_ratio(r); }
        }
        log.push((a, o, r));
        c.nontrivial |= i > 0;
        let before = soa_bits(&outs[o].buf.borrow());
        let other = soa_bits(&outs[1 - o].buf.borrow());
        j.run().map_err(|e| format!("valid sampling job failed: {e:?}"))?;
        let want = soa_bits(&p_sampling::sample_new(&anims[a], 0, true, r, 0)?);
        check_out(&format!("sampling with a reused job, runs (animation, output, ratio) {log:?}"), &before, &soa_bits(&outs[o].buf.borrow()), &want, anims[a].num_soa_tracks())?;
        ensure!(other == soa_bits(&outs[1 - o].buf.borrow()), "sampling writes an output it was not given");
    }
    for (a, sp) in anims.iter().zip(&specs) {
        crate::p_archive::check_animation(a, &sp.data()).map_err(|e| format!("sampling modifies the animation: {e}"))?;
    }
    c.describe(|| format!("{log:?}"));
    Ok(())
}

fn c17_blending(s: &mut Src, c: &mut Case) -> Res {
    let cases: Vec<Blend> = (0..3).map(|_| blend_case(s, 16)).collect();
    let sks: Vec<Rc<Skeleton>> = cases.iter().map(|b| Rc::new(b.skeleton())).collect();
    let mut j: BlendingJobRc = BlendingJob::default();
    if s.bool() { j.set_context(BlendingContext::new(s.below(8))); }
    let big = sks.iter().map(|k| k.num_soa_joints()).max().unwrap();
    let n = big + s.below(3);
    let out = ozz_rc_buf(dirty_soa(s, n));
    j.set_output(out.clone());
    let mut log = Vec::new();
    for i in 0..2 + s.len(10) {
        let k = s.below(3);
        let b = &cases[k];
        log.push(k);
        j.set_skeleton(sks[k].clone());
        j.set_threshold(b.threshold);
        j.layers_mut().clear();
        j.additive_layers_mut().clear();
        let mut ins = Vec::new();
        for (q, l) in b.layers.iter().chain(&b.adds).enumerate() {
            let buf = ozz_rc_buf(to_soa(&l.pose, &XF_ID));
            ins.push((buf.clone(), soa_bits(&buf.borrow())));
            let mut x = BlendingLayer::with_weight(buf, l.weight);
            x.joint_weights = pack_weights(&l.jw, 1.0);
            if q < b.layers.len() { j.layers_mut().push(x) } else { j.additive_layers_mut().push(x) }
        }
        if s.draw(4) == 0 {
            j.clear_skeleton();
            ensure!(j.run().is_err(), "a job without skeleton runs");
            j.set_skeleton(sks[k].clone());
        }
        let reps = 1 + s.below(2);
        for _ in 0..reps {
            let before = soa_bits(&out.borrow());
            j.run().map_err(|e| format!("valid blending job failed: {e:?}"))?;
            let want = soa_bits(&run_blend(b, &sks[k], None, 0)?.0);
            check_out(&format!("blending with a reused job (cases {log:?}): {}", b.brief()), &before, &soa_bits(&out.borrow()), &want, sks[k].num_soa_joints())?;
        }
        for (x, w) in &ins {
            ensure!(soa_bits(&x.borrow()) == *w, "blending modifies an input layer");
        }
        let rest = to_soa(&b.rest, &XF_ID);
        ensure!(soa_bits(sks[k].joint_rest_poses()) == soa_bits(&rest), "blending modifies the rest pose");
        c.nontrivial |= i > 0;
    }
    c.describe(|| format!("{log:?} of {}", cases.iter().map(|b| b.brief()).collect::<Vec<_>>().join("; ")));
    Ok(())
}

fn c17_l2m(s: &mut Src, c: &mut Case) -> Res {
    let ks = [l2m_case(s), l2m_case(s)];
    let sks: Vec<Rc<Skeleton>> = ks.iter().map(|k| Rc::new(skel(&k.spec))).collect();
    let big = sks.iter().map(|k| k.num_joints()).max().unwrap();
    let nan = Mat4::from_cols_array(&[f32::NAN; 16]);
    let out = ozz_rc_buf(vec![nan; big + s.below(3)]);
    let mut j: LocalToModelJobRc = LocalToModelJob::default();
    j.set_output(out.clone());
    let mut log = Vec::new();
    for i in 0..2 + s.len(10) {
        let q = s.below(2);
        let k = &ks[q];
        let p = s.below(k.locals.len());
        let n = sks[q].num_joints();
        let inp = ozz_rc_buf(k.locals[p].clone());
        let root = k.root.unwrap_or(Mat4::IDENTITY);
        j.set_skeleton(sks[q].clone());
        j.set_input(inp.clone());
        j.set_root(&root);
        let range = if s.bool() { (-1, SKELETON_MAX_JOINTS, false) } else { *s.pick(&k.ranges) };
        j.set_from(range.0);
        j.set_to(range.1);
        j.set_from_excluded(range.2);
        log.push((q, p, range));
        if s.draw(4) == 0 {
            j.clear_input();
            ensure!(j.run().is_err(), "a job without input runs");
            j.set_input(inp.clone());
        }
        for _ in 0..1 + s.below(2) {
            let before = out.borrow().clone();
            j.run().map_err(|e| format!("valid job failed: {e:?}"))?;
            // a new job over a copy of the buffer; a full update needs no copy
            let full = range.0 < 0 && range.1 as usize >= n;
            let mut copy = if full { vec![Mat4::from_cols_array(&[42.0; 16]); n] } else { before.clone() };
            let mut f: LocalToModelJobRef = LocalToModelJob::default();
            f.set_skeleton(&sks[q]);
            f.set_input(&k.locals[p]);
            f.set_root(&root);
            f.set_from(range.0);
            f.set_to(range.1);
            f.set_from_excluded(range.2);
            f.set_output(&mut copy);
            f.run().map_err(|e| format!("valid job failed: {e:?}"))?;
            drop(f);
            let got = out.borrow();
            let (g, w, b) = (mbits(&got), mbits(&copy), mbits(&before));
            for x in 0..g.len() {
                let want = if x < n { &w[x] } else { &b[x] };
                ensure!(&g[x] == want || (got[x].is_nan() && x < n && copy[x].is_nan()), "local-to-model with a reused job (skeleton, pose, range) {log:?}: joint {x} of {n} is {}, want {}", got[x], Mat4::from_cols_array(&want.map(f32::from_bits)));
            }
        }
        ensure!(soa_bits(&inp.borrow()) == soa_bits(&k.locals[p]), "local-to-model modifies its input");
        c.nontrivial |= i > 0;
    }
    c.describe(|| format!("{log:?}"));
    Ok(())
}

fn c17_skinning(s: &mut Src, c: &mut Case) -> Res {
    let ks: Vec<Skin> = (0..3).map(|_| skin_case(s, 8)).collect();
    let mut j: SkinningJobRc = SkinningJob::default();
    let outs: [OzzRcBuf<Vec3>; 3] = std::array::from_fn(|_| ozz_rc_buf(vec![Vec3::splat(f32::NAN); ks.iter().map(|k| k.vertices).fold(16, usize::max)]));
    let mut log = Vec::new();
    for i in 0..2 + s.len(10) {
        let q = s.below(3);
        let k = &ks[q];
        log.push(q);
        j.set_vertex_count(k.vertices);
        j.set_influences_count(k.influences);
        let jm = ozz_rc_buf(k.matrices.clone());
        j.set_joint_matrices(jm.clone());
        let it = k.it.clone().map(ozz_rc_buf);
        match &it { Some(m) => j.set_joint_it_matrices(m.clone()), None => j.clear_joint_it_matrices() }
        let ji = ozz_rc_buf(k.indices.clone());
        j.set_joint_indices(ji.clone());
        match &k.weights { Some(w) => j.set_joint_weights(ozz_rc_buf(w.clone())), None => { if s.bool() { j.clear_joint_weights() } } }
        let ins: [Option<OzzRcBuf<Vec3>>; 3] = [Some(k.pos.clone()), k.nor.clone(), k.tan.clone()].map(|x| x.map(ozz_rc_buf));
        j.set_in_positions(ins[0].clone().unwrap());
        match &ins[1] { Some(x) => j.set_in_normals(x.clone()), None => j.clear_in_normals() }
        match &ins[2] { Some(x) => j.set_in_tangents(x.clone()), None => j.clear_in_tangents() }
        j.set_out_positions(outs[0].clone());
        j.set_out_normals(outs[1].clone());
        j.set_out_tangents(outs[2].clone());
        if s.draw(4) == 0 {
            j.clear_joint_matrices();
            ensure!(j.run().is_err(), "a job without matrices runs");
            j.set_joint_matrices(jm.clone());
        }
        let (r, _, fresh) = run_skin(k, k.vertices);
        r.map_err(|e| format!("valid skinning job failed: {e:?}"))?;
        for _ in 0..1 + s.below(2) {
            let before: Vec<VBits> = outs.iter().map(|o| vbits(&o.borrow())).collect();
            j.run().map_err(|e| format!("valid skinning job failed: {e:?}"))?;
            for w in 0..3 {
                let g = vbits(&outs[w].borrow());
                let f = vbits(&fresh[w]);
                let n = if ins[w].is_some() { k.vertices } else { 0 };
                for x in 0..g.len() {
                    let want = if x < n { f[x] } else { before[w][x] };
                    ensure!(g[x] == want, "skinning with a reused job (cases {log:?}): output {w} of vertex {x} (of {n}) is {:?}, want {:?}; {k:?}", g[x].map(f32::from_bits), want.map(f32::from_bits));
                }
            }
        }
        ensure!(*jm.borrow() == k.matrices && *ji.borrow() == k.indices && it.map(|m| m.borrow().clone()) == k.it, "skinning modifies its matrices or indices");
        ensure!(ins.map(|x| x.map(|x| x.borrow().clone())) == [Some(k.pos.clone()), k.nor.clone(), k.tan.clone()], "skinning modifies its vertices");
        c.nontrivial |= i > 0;
    }
    c.describe(|| format!("{log:?} of {ks:?}"));
    Ok(())
}

fn c17_ik(s: &mut Src, c: &mut Case) -> Res {
    let mut aim = IKAimJob::default();
    let mut bone = IKTwoBoneJob::default();
    let o_aim = |j: &IKAimJob| (qbits(j.joint_correction()), j.reached());
    let o_bone = |j: &IKTwoBoneJob| (qbits(j.start_joint_correction()), qbits(j.mid_joint_correction()), j.reached());
    let mut log = Vec::new();
    let steps = 2 + s.len(12);
    for i in 0..steps {
        if s.bool() {
            let mut a = aim_case(s);
            a.weight = *s.pick(&[1.0, 1.0, 0.5, 0.0, -1.0, 2.0]);
            let bad = s.draw(8) == 0;
            if bad { a.forward = [2.0, 0.0, 0.0]; }
            log.push(format!("{a:?}"));
            let mut f = IKAimJob::default();
            set_aim(&mut aim, &a);
            set_aim(&mut f, &a);
            if s.bool() { aim.clear_outs(); }
            let prev = o_aim(&aim);
            for _ in 0..1 + s.below(2) {
                let (x, y) = (aim.run().is_ok(), f.run().is_ok());
                ensure!(x == y, "aim job: a reused job gives {x}, a new one {y}");
                let want = if y { o_aim(&f) } else { prev };
                ensure!(o_aim(&aim) == want, "aim job: a reused job gives {:?}, a new one {want:?}; {a:?}", o_aim(&aim));
            }
            ensure!(aim.target() == f.target() && aim.forward() == f.forward() && aim.up() == f.up() && aim.pole_vector() == f.pole_vector() && aim.offset() == f.offset() && aim.weight() == f.weight() && aim.twist_angle() == f.twist_angle() && aim.joint() == f.joint(), "the aim job modifies its inputs");
        } else {
            let mut b = bone_case(s);
            b.weight = *s.pick(&[1.0, 1.0, 0.5, 0.0, -1.0, 2.0]);
            b.soften = *s.pick(&[1.0, 1.0, 0.5, 0.0, 0.97, 1.5]);
            if s.draw(8) == 0 { b.axis = [0.0, 0.5, 0.0]; }
            log.push(format!("{b:?}"));
            let mut f = IKTwoBoneJob::default();
            set_bone(&mut bone, &b);
            set_bone(&mut f, &b);
            if s.bool() { bone.clear_outs(); }
            let prev = o_bone(&bone);
            for _ in 0..1 + s.below(2) {
                let (x, y) = (bone.run().is_ok(), f.run().is_ok());
                ensure!(x == y, "two-bone job: a reused job gives {x}, a new one {y}");
                let want = if y { o_bone(&f) } else { prev };
                ensure!(o_bone(&bone) == want, "two-bone job: a reused job gives {:?}, a new one {want:?}; {b:?}", o_bone(&bone));
            }
        }
        c.nontrivial |= i > 0;
    }
    c.describe(|| log.join(" | "));
    Ok(())
}

fn c17_tracks(s: &mut Src, c: &mut Case) -> Res {
    let specs: Vec<(TrackSpec, f32)> = (0..2).map(|_| trig_track(s)).collect();
    let tracks: Vec<Rc<Track<f32>>> = specs.iter().map(|t| Rc::new(load_track::<f32>(&t.0))).collect();
    let mut js: TrackSamplingJobRc<f32> = TrackSamplingJob::default();
    let mut jt: TrackTriggeringJobRc = TrackTriggeringJob::default();
    let mut jm = MotionBlendingJob::default();
    for i in 0..2 + s.len(12) {
        let q = s.below(2);
        match s.draw(3) {
            0 => {
                let r = s.unit() * 1.4 - 0.2;
                js.set_track(tracks[q].clone());
                js.set_ratio(r);
                if s.draw(4) == 0 { js.clear_outs(); }
                let want = f_track::<f32, Own>(&specs[q].0, &[r])?;
                for _ in 0..1 + s.below(2) {
                    js.run().map_err(er)?;
                    ensure!(js.result().to_bits() == want[0][0], "a reused track sampling job gives {}, a new one {}", js.result(), f32::from_bits(want[0][0]));
                }
            }
            1 => {
                let (f, t) = (s.sym(3.0), s.sym(3.0));
                jt.set_track(tracks[q].clone());
                jt.set_from(f);
                jt.set_to(t);
                jt.set_threshold(specs[q].1);
                let want = f_trigger::<Own>(&specs[q].0, &[(f, t)], specs[q].1)?;
                // an abandoned iteration has no effect
                let part = s.below(4);
                let _ = jt.run().map_err(er)?.take(part).count();
                let got: Vec<(u32, bool)> = jt.run().map_err(er)?.take(5000).map(|e| { let e = edge(&e); (e.0.to_bits(), e.1) }).collect();
                ensure!(got == want[0], "a reused triggering job gives {got:?}, a new one {:?}", want[0]);
            }
            _ => {
                let ls = motion_layers(s);
                jm.layers_mut().clear();
                let mut f = MotionBlendingJob::default();
                for l in &ls {
                    jm.layers_mut().push(MotionBlendingLayer { weight: l.0, delta: motion_delta(l) });
                    f.layers_mut().push(MotionBlendingLayer { weight: l.0, delta: motion_delta(l) });
                }
                f.run().map_err(er)?;
                match s.draw(3) { 0 => jm.clear_output(), 1 => jm.set_output(Transform3A { translation: Vec3A::splat(f32::NAN), rotation: Quat::from_xyzw(f32::NAN, 0.0, 2.0, 0.0), scale: Vec3A::splat(7.0) }), _ => {} }
                for _ in 0..1 + s.below(2) {
                    jm.run().map_err(er)?;
                    ensure!(abits(&jm.output()) == abits(&f.output()), "a reused motion blending job gives {:?}, a new one {:?}", jm.output(), f.output());
                }
                for (x, l) in jm.layers().iter().zip(&ls) {
                    ensure!(x.weight.to_bits() == l.0.to_bits() && abits(&x.delta) == abits(&motion_delta(l)), "motion blending modifies its layers");
                }
            }
        }
        c.nontrivial |= i > 0;
    }
    c.describe(|| format!("{specs:?}"));
    let _ = archw::track_bytes as usize;
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C17",
            rule: "the same job object runs at least twice with a reconfiguration in between",
            assumptions: &["a new job over clean buffers is the reference; NaN model matrices are compared as NaN"],
            facets: &[
                Facet { name: "sampling", run: c17_sampling, quick: 120_000, thorough: 6_000_000 },
                Facet { name: "blending", run: c17_blending, quick: 240_000, thorough: 12_000_000 },
                Facet { name: "local_to_model", run: c17_l2m, quick: 400_000, thorough: 20_000_000 },
                Facet { name: "skinning", run: c17_skinning, quick: 400_000, thorough: 20_000_000 },
                Facet { name: "ik", run: c17_ik, quick: 800_000, thorough: 40_000_000 },
                Facet { name: "tracks", run: c17_tracks, quick: 800_000, thorough: 40_000_000 },
            ],
        },
        Prop {
            id: "C18",
            rule: "data with at least one interpolated key / joint hierarchy / layer / vertex; threads: always; atomic: the two states differ",
            assumptions: &["thread schedules are whatever the operating system produces; jobs that share an Rc'd buffer while it is borrowed are misuse and not generated"],
            facets: &[
                Facet { name: "declared", run: c18_declared, quick: 8, thorough: 8 },
                Facet { name: "sampling", run: c18_sampling, quick: 75_000, thorough: 3_750_000 },
                Facet { name: "local_to_model", run: c18_l2m, quick: 150_000, thorough: 7_500_000 },
                Facet { name: "blending", run: c18_blending, quick: 150_000, thorough: 7_500_000 },
                Facet { name: "skinning", run: c18_skinning, quick: 250_000, thorough: 12_500_000 },
                Facet { name: "tracks", run: c18_tracks, quick: 250_000, thorough: 12_500_000 },
                Facet { name: "pipeline", run: c18_pipeline, quick: 75_000, thorough: 3_750_000 },
                Facet { name: "threads", run: c18_threads, quick: 20_000, thorough: 1_000_000 },
                Facet { name: "concurrent", run: c18_concurrent, quick: 8_000, thorough: 400_000 },
                Facet { name: "atomic", run: c18_atomic, quick: 10_000, thorough: 500_000 },
            ],
        },
    ]
}
