#![allow(dead_code, unused_imports)]
//! Builds skeletons, animations and tracks through the archive format.
pub use glam::*;
pub use glam_ext::Transform3A;
#[allow(unused_imports)]
pub use ozz_animation_rs::animation::{Float3Key, QuaternionKey};
pub use ozz_animation_rs::*;
pub use std::cell::RefCell;
pub use std::rc::Rc;

pub struct W(pub Vec<u8>, pub bool);
impl W {
    pub fn new(big: bool) -> W { W(vec![if big { 0 } else { 1 }], big) }
    pub fn u16(&mut self, v: u16) { self.0.extend_from_slice(&if self.1 { v.to_be_bytes() } else { v.to_le_bytes() }); }
    pub fn u32(&mut self, v: u32) { self.0.extend_from_slice(&if self.1 { v.to_be_bytes() } else { v.to_le_bytes() }); }
    pub fn f32(&mut self, v: f32) { self.u32(v.to_bits()); }
    pub fn s(&mut self, v: &str) { self.0.extend_from_slice(v.as_bytes()); self.0.push(0); }
}

/// Joint i is called "j<i>" and rests at (i, 0, 0).
pub fn skeleton_bytes(parents: &[i16], big: bool) -> Vec<u8> {
    let n = parents.len();
    let mut w = W::new(big);
    w.s("ozz-skeleton");
    w.u32(2);
    w.u32(n as u32);
    let names: Vec<String> = (0..n).map(|i| format!("j{i}")).collect();
    w.u32(names.iter().map(|x| x.len() as u32 + 1).sum());
    for x in &names { w.s(x); }
    for p in parents { w.u16(*p as u16); }
    for g in 0..n.div_ceil(4) {
        for c in 0..10 {
            for l in 0..4 {
                w.f32(match c { 0 => (g * 4 + l) as f32, 1..=5 => 0.0, _ => 1.0 });
            }
        }
    }
    w.0
}
pub fn skeleton(parents: &[i16]) -> Skeleton {
    Skeleton::from_archive(&mut Archive::from_slice(&skeleton_bytes(parents, false)).unwrap()).unwrap()
}

/// Key: (time point index, encoded value)
pub type Key = (u16, [u16; 3]);
/// Rotation keys of known value.
pub const Q_ID: [u16; 3] = quat_key(3, 0, [16384, 16384, 16384]);
pub const fn quat_key(largest: u16, sign: u16, v: [u32; 3]) -> [u16; 3] {
    let packed: u64 = (largest as u64) | ((sign as u64) << 2) | ((v[0] as u64) << 3) | ((v[1] as u64) << 18) | ((v[2] as u64) << 33);
    [packed as u16, (packed >> 16) as u16, (packed >> 32) as u16]
}
pub const H: [u16; 9] = [0, 0x3C00, 0x4000, 0x4200, 0x4400, 0x4500, 0x4600, 0x4700, 0x4800]; // halves 0..=8

pub struct Anim {
    pub tps: Vec<f32>,
    /// translation, rotation, scale keys of each track
    pub comps: [Vec<Vec<Key>>; 3],
    pub iframes: usize,
}
impl Anim {
    /// Every track has constant identity keys at the first and last time point.
    pub fn still(tracks: usize, tps: Vec<f32>) -> Anim {
        let last = tps.len() as u16 - 1;
        let n = tracks.div_ceil(4) * 4;
        let k = |v: [u16; 3]| vec![vec![(0, v), (last, v)]; n];
        Anim { tps, comps: [k([0, 0, 0]), k(Q_ID), k([H[1]; 3])], iframes: 0 }
    }
    pub fn bytes(&self, big: bool) -> Vec<u8> {
        let cs: Vec<_> = self.comps.iter().map(|c| comp(c, &self.tps, self.iframes)).collect();
        let mut w = W::new(big);
        w.s("ozz-animation");
        w.u32(7);
        w.f32(1.0);
        w.u32(self.comps[0].len() as u32);
        w.u32(0);
        w.u32(self.tps.len() as u32);
        for c in &cs { w.u32(c.1.len() as u32); }
        for c in &cs { w.u32(c.3.len() as u32); w.u32(c.4.len() as u32); }
        for t in &self.tps { w.f32(*t); }
        for c in &cs {
            for r in &c.0 { if self.tps.len() <= 255 { w.0.push(*r as u8) } else { w.u16(*r) } }
            for p in &c.1 { w.u16(*p); }
            w.0.extend_from_slice(&c.3);
            for d in &c.4 { w.u32(*d); }
            w.f32(if self.iframes > 0 { 1.0 / self.iframes as f32 } else { 1.0 });
            for k in &c.2 { for v in k { w.u16(*v); } }
        }
        w.0
    }
    pub fn build(&self) -> Animation {
        Animation::from_archive(&mut Archive::from_slice(&self.bytes(false)).unwrap()).unwrap()
    }
}
type Comp = (Vec<u16>, Vec<u16>, Vec<[u16; 3]>, Vec<u8>, Vec<u32>);
fn comp(tracks: &[Vec<Key>], tps: &[f32], iframes: usize) -> Comp {
    let mut all: Vec<(f32, usize, usize)> = Vec::new();
    for (t, ks) in tracks.iter().enumerate() {
        for k in 0..ks.len() {
            all.push((if k == 0 { -1.0 } else { tps[ks[k - 1].0 as usize] }, t, k));
        }
    }
    all.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap().then(a.1.cmp(&b.1)));
    let (mut ratios, mut prevs, mut keys) = (Vec::new(), Vec::new(), Vec::new());
    let mut last = vec![0; tracks.len()];
    for (i, (_, t, k)) in all.iter().enumerate() {
        ratios.push(tracks[*t][*k].0);
        keys.push(tracks[*t][*k].1);
        prevs.push(if *k == 0 { 0 } else { i - last[*t] } as u16);
        last[*t] = i;
    }
    let (mut ent, mut desc) = (Vec::new(), Vec::new());
    let n = tracks.len();
    for f in 1..=iframes {
        let ratio = if f == iframes { 1.0 } else { f as f32 / iframes as f32 };
        let mut entries = vec![0u32; n];
        let mut next = 0;
        while next < all.len() && (next < 2 * n || all[next].0 <= ratio) {
            entries[all[next].1] = next as u32;
            next += 1;
        }
        desc.push(ent.len() as u32);
        desc.push(next as u32 - 1);
        for g in entries.chunks(4) {
            let len = |x: u32| (32 - x.leading_zeros()).div_ceil(8).max(1) as usize;
            ent.push((0..4).fold(0u8, |p, i| p | (((len(g[i]) - 1) as u8) << (2 * i))));
            for x in g { ent.extend_from_slice(&x.to_le_bytes()[..len(*x)]); }
        }
    }
    (ratios, prevs, keys, ent, desc)
}

pub fn sample(a: &Animation, ctx: &mut SamplingContext, ratio: f32) -> Vec<SoaTransform> {
    let mut out = vec![SoaTransform::default(); a.num_soa_tracks()];
    let mut job: SamplingJobRef = SamplingJob::default();
    job.set_animation(a);
    job.set_context(ctx);
    job.set_output(&mut out);
    job.set_ratio(ratio);
    job.run().unwrap();
    drop(job);
    out
}

pub fn track_bytes(tag: &str, ratios: &[f32], values: &[f32], steps: &[u8], big: bool) -> Vec<u8> {
    let mut w = W::new(big);
    w.s(tag);
    w.u32(1);
    w.u32(ratios.len() as u32);
    w.u32(0);
    for r in ratios { w.f32(*r); }
    for v in values { w.f32(*v); }
    w.0.extend_from_slice(steps);
    w.0
}
pub fn float_track(ratios: &[f32], values: &[f32], steps: &[u8]) -> Track<f32> {
    let b = track_bytes("ozz-float_track", ratios, values, steps, false);
    Track::from_archive(&mut Archive::from_slice(&b).unwrap()).unwrap()
}
pub fn quat_track(ratios: &[f32], values: &[f32], steps: &[u8]) -> Track<Quat> {
    let b = track_bytes("ozz-quat_track", ratios, values, steps, false);
    Track::from_archive(&mut Archive::from_slice(&b).unwrap()).unwrap()
}
pub fn edges(t: &Track<f32>, from: f32, to: f32, threshold: f32) -> Vec<String> {
    let mut job: TrackTriggeringJobRef = TrackTriggeringJob::default();
    job.set_track(t);
    job.set_from(from);
    job.set_to(to);
    job.set_threshold(threshold);
    let v = job.run().unwrap().map(|e| format!("{e:?}")).collect();
    v
}
pub fn pos(s: &[SoaTransform], joint: usize) -> Vec3 {
    let t = &s[joint / 4].translation;
    Vec3::new(t.x[joint % 4], t.y[joint % 4], t.z[joint % 4])
}
pub fn rot(s: &[SoaTransform], joint: usize) -> Quat {
    let t = &s[joint / 4].rotation;
    Quat::from_xyzw(t.x[joint % 4], t.y[joint % 4], t.z[joint % 4], t.w[joint % 4])
}
pub fn same(a: &[SoaTransform], b: &[SoaTransform]) -> bool {
    format!("{a:?}") == format!("{b:?}")
}
pub fn check(ok: bool, what: &str) {
    if !ok {
        println!("BROKEN: {what}");
        std::process::exit(1);
    }
}
pub fn rc<T>(v: Vec<T>) -> Rc<RefCell<Vec<T>>> { Rc::new(RefCell::new(v)) }
