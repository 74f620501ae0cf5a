//! Generators for skeletons, animations, tracks, poses and values.

use crate::archw;
use crate::engine::{Rng, Src};
use crate::refm::*;
use glam::{Quat, Vec3};
use ozz_animation_rs::*;
use std::simd::prelude::*;

// ---------------------------------------------------------------- values

pub fn unit_quat(s: &mut Src) -> Q {
    match s.draw(8) {
        0 => [0.0, 0.0, 0.0, 1.0],
        1 => {
            let r = 0.5f64.sqrt();
            *s.pick(&[[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, -1.0], [r, 0.0, 0.0, r], [0.0, r, 0.0, -r], [0.5, 0.5, 0.5, 0.5]])
        }
        _ => {
            let mut q = [s.sym(1.0) as f64, s.sym(1.0) as f64, s.sym(1.0) as f64, s.sym(1.0) as f64];
            if qlen(q) < 1e-3 {
                q = [0.0, 0.0, 0.0, 1.0];
            }
            qnorm(q)
        }
    }
}
pub fn quat32(s: &mut Src) -> Quat {
    let q = unit_quat(s);
    Quat::from_xyzw(q[0] as f32, q[1] as f32, q[2] as f32, q[3] as f32)
}
pub fn unit_vec(s: &mut Src) -> V3 {
    if s.draw(4) == 0 {
        return *s.pick(&[[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [-1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, -1.0]]);
    }
    let v = [s.sym(1.0) as f64, s.sym(1.0) as f64, s.sym(1.0) as f64];
    if len(v) < 1e-3 {
        [1.0, 0.0, 0.0]
    } else {
        norm(v)
    }
}
pub fn vec3(s: &mut Src, m: f32) -> Vec3 {
    Vec3::new(s.real(m), s.real(m), s.real(m))
}

/// One joint transform: tx ty tz qx qy qz qw sx sy sz.
pub type Xf = [f32; 10];
pub const XF_ID: Xf = [0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0];

pub fn xform(s: &mut Src) -> Xf {
    let q = unit_quat(s);
    let t = [s.real(10.0), s.real(10.0), s.real(10.0)];
    let sc = match s.draw(4) {
        0 => [1.0, 1.0, 1.0],
        1 => {
            let k = 0.25 + s.unit() * 3.0;
            [k, k, k]
        }
        2 => [0.25 + s.unit() * 3.0, 0.25 + s.unit() * 3.0, 0.25 + s.unit() * 3.0],
        _ => [s.real(3.0), s.real(3.0), s.real(3.0)],
    };
    [t[0], t[1], t[2], q[0] as f32, q[1] as f32, q[2] as f32, q[3] as f32, sc[0], sc[1], sc[2]]
}

/// A cheap transform made from few draws (for big poses).
pub fn xform_cheap(s: &mut Src) -> Xf {
    let mut r = Rng::new(s.draw(1 << 32));
    let mut f = || (r.next() >> 40) as f32 / (1u64 << 23) as f32 - 1.0;
    let q = qnorm([f() as f64, f() as f64, f() as f64, f() as f64 + 1e-3]);
    [f() * 4.0, f() * 4.0, f() * 4.0, q[0] as f32, q[1] as f32, q[2] as f32, q[3] as f32, f() * 1.5 + 1.6, f() * 1.5 + 1.6, f() * 2.0]
}

pub fn pose(s: &mut Src, n: usize) -> Vec<Xf> {
    (0..n).map(|_| if n > 12 { xform_cheap(s) } else { xform(s) }).collect()
}

/// Packs joints (padded with `pad`) into SoA transforms.
pub fn to_soa(js: &[Xf], pad: &Xf) -> Vec<SoaTransform> {
    let mut out = Vec::new();
    for g in 0..js.len().div_ceil(4) {
        let get = |l: usize, c: usize| js.get(g * 4 + l).unwrap_or(pad)[c];
        let v = |c: usize| f32x4::from_array([get(0, c), get(1, c), get(2, c), get(3, c)]);
        out.push(SoaTransform {
            translation: SoaVec3 { x: v(0), y: v(1), z: v(2) },
            rotation: SoaQuat { x: v(3), y: v(4), z: v(5), w: v(6) },
            scale: SoaVec3 { x: v(7), y: v(8), z: v(9) },
        });
    }
    out
}
pub fn soa_get(a: &[SoaTransform], i: usize) -> Xf {
    let t = &a[i / 4];
    let l = i % 4;
    [
        t.translation.x[l],
        t.translation.y[l],
        t.translation.z[l],
        t.rotation.x[l],
        t.rotation.y[l],
        t.rotation.z[l],
        t.rotation.w[l],
        t.scale.x[l],
        t.scale.y[l],
        t.scale.z[l],
    ]
}
pub fn bits(x: &Xf) -> [u32; 10] {
    x.map(|f| f.to_bits())
}
pub fn soa_bits(a: &[SoaTransform]) -> Vec<[u32; 10]> {
    (0..a.len() * 4).map(|i| bits(&soa_get(a, i))).collect()
}
/// A recognisable "untouched" value.
pub fn soa_sentinel(k: u32) -> SoaTransform {
    let f = f32x4::from_array([1000.5 + k as f32, 2000.5, -3000.25, 4000.125]);
    let v = SoaVec3 { x: f, y: f, z: f };
    SoaTransform { translation: v, rotation: SoaQuat { x: f, y: f, z: f, w: f }, scale: v }
}
pub fn xf64(x: &Xf) -> (V3, Q, V3) {
    (
        [x[0] as f64, x[1] as f64, x[2] as f64],
        [x[3] as f64, x[4] as f64, x[5] as f64, x[6] as f64],
        [x[7] as f64, x[8] as f64, x[9] as f64],
    )
}

pub fn name(s: &mut Src, max: usize) -> String {
    // now and then longer than any fixed buffer one might use
    let n = if s.one_in(100) { s.below(700) } else { s.below(max + 1) };
    let alpha = ["a", "B", "7", "_", " ", "-", "é", "骨", "🦴", "\"", "\\", "\t", "/"];
    (0..n).map(|_| *s.pick(&alpha)).collect()
}

// ---------------------------------------------------------------- skeleton

#[derive(Clone, Debug)]
pub struct SkelSpec {
    pub parents: Vec<i16>,
    pub names: Vec<String>,
    /// padded to a multiple of four
    pub rest: Vec<Xf>,
}

pub fn parents(s: &mut Src, n: usize) -> Vec<i16> {
    let shape = s.draw(5);
    let mut out: Vec<i16> = Vec::with_capacity(n);
    let mut path: Vec<i16> = Vec::new(); // current rightmost path
    for i in 0..n {
        let depth = path.len();
        let keep = match shape {
            0 => depth,                                  // chain
            1 => depth.min(1),                           // star
            2 => s.below(depth + 1),                     // any, may start a new root
            3 => depth - s.below(depth.min(3) + 1).min(depth), // deep
            _ => {
                if depth <= 1 { depth } else { 1 + s.below(depth) }
            } // single root
        };
        path.truncate(keep);
        out.push(path.last().copied().unwrap_or(-1));
        path.push(i as i16);
    }
    out
}

/// The i-th of all words over letters that are easily taken for one another:
/// case, blanks at either end, one word continuing another, the empty word.
fn lookalike(mut i: usize) -> String {
    let alpha = [' ', 'a', 'A', '_', '\t', '.', 'á'];
    let mut w = String::new();
    while i > 0 {
        w.push(alpha[(i - 1) % 7]);
        i = (i - 1) / 7;
    }
    w
}

pub fn skel_spec(s: &mut Src, n: usize) -> SkelSpec {
    let parents = parents(s, n);
    let style = s.draw(8);
    let names = (0..n)
        .map(|i| match style {
            5 => format!("{}#{i}#{}", name(s, 2), name(s, 2)),
            6 => lookalike(i),
            7 => format!("{}#{}", name(s, 3), i),
            _ => format!("j{i}"),
        })
        .collect();
    let mut rest = pose(s, n);
    while rest.len() % 4 != 0 {
        rest.push(XF_ID);
    }
    SkelSpec { parents, names, rest }
}
pub fn skel(spec: &SkelSpec) -> Skeleton {
    let b = archw::skeleton_bytes(spec, false);
    Skeleton::from_archive(&mut Archive::from_slice(&b).unwrap()).expect("well-formed skeleton archive must load")
}

// ---------------------------------------------------------------- animation

/// Per-track keys: (time point index, encoded key).
pub type KeyTrack = Vec<(u16, [u16; 3])>;

#[derive(Clone, Debug, Default)]
pub struct AnimSpec {
    pub duration: f32,
    pub name: String,
    pub num_tracks: usize,
    pub timepoints: Vec<f32>,
    /// translations, rotations, scales: one entry per padded track
    pub comps: [Vec<KeyTrack>; 3],
    /// number of intermediate frames of each component (0: none)
    pub iframes: [usize; 3],
}

#[derive(Clone, Debug, Default)]
pub struct Comp {
    pub ratios: Vec<u16>,
    pub previouses: Vec<u16>,
    pub iframe_entries: Vec<u8>,
    pub iframe_desc: Vec<u32>,
    pub iframe_interval: f32,
    pub keys: Vec<[u16; 3]>,
}

#[derive(Clone, Debug, Default)]
pub struct AnimData {
    pub duration: f32,
    pub name: String,
    pub num_tracks: usize,
    pub timepoints: Vec<f32>,
    pub t: Comp,
    pub r: Comp,
    pub s: Comp,
}

pub const ONE_H: u16 = 0x3C00;

pub fn half(s: &mut Src) -> u16 {
    match s.draw(8) {
        0 => 0,
        1 => *s.pick(&[ONE_H, 0xBC00, 0x4000, 0x3800, 0x8000, 0x7BFF, 0xFBFF, 0x0001, 0x8001, 0x03FF, 0x0400, 0x8400]),
        2 | 3 => {
            // any finite
            let h = s.draw(0x7C00) as u16;
            if s.bool() { h | 0x8000 } else { h }
        }
        _ => {
            // magnitude 2^-6 .. 2^6
            let e = 9 + s.draw(12) as u16;
            (e << 10) | s.draw(1024) as u16 | ((s.draw(2) as u16) << 15)
        }
    }
}

pub fn timepoints(s: &mut Src, n: usize) -> Vec<f32> {
    // n >= 2, strictly increasing from 0 to 1
    if n > 120 {
        let skew = s.draw(3);
        let mut v: Vec<f32> = (0..n)
            .map(|i| {
                let x = i as f64 / (n - 1) as f64;
                (match skew {
                    0 => x,
                    1 => x * x,
                    _ => 1.0 - (1.0 - x) * (1.0 - x),
                }) as f32
            })
            .collect();
        v[n - 1] = 1.0;
        v.dedup();
        return v;
    }
    let mut v: Vec<u64> = Vec::new();
    let mut acc = 0u64;
    v.push(0);
    for _ in 1..n {
        acc += 1 + match s.draw(16) {
            0..=3 => 0,
            4..=7 => s.draw(4),
            8..=11 => s.draw(100),
            12..=14 => s.draw(10000),
            // next to which the others are all but simultaneous
            _ => s.draw(1 << 23),
        };
        v.push(acc);
    }
    let mut out: Vec<f32> = v.iter().map(|x| (*x as f64 / acc.max(1) as f64) as f32).collect();
    out.dedup();
    out
}

fn key_times(s: &mut Src, ntp: usize, dense: u64) -> Vec<u16> {
    // sorted distinct indices containing 0 and ntp-1
    let mut v = vec![0u16];
    let inner = ntp - 2;
    if inner > 0 {
        match s.draw(dense) {
            0 => {}
            1 => {
                for _ in 0..s.len(8) {
                    v.push(1 + s.below(inner) as u16);
                }
            }
            2 if inner < 2000 => {
                let mut r = Rng::new(s.draw(1 << 32));
                let p = 1 + s.draw(15);
                for i in 0..inner {
                    if r.next() % 16 < p {
                        v.push(1 + i as u16);
                    }
                }
            }
            _ => {
                for _ in 0..s.len(20) {
                    v.push(1 + s.below(inner) as u16);
                }
            }
        }
    }
    v.push(ntp as u16 - 1);
    v.sort_unstable();
    v.dedup();
    v
}

pub struct AnimOpts {
    pub max_tracks: usize,
    pub max_timepoints: usize,
    pub hemisphere: bool,
}

pub fn anim_spec(s: &mut Src, o: &AnimOpts) -> AnimSpec {
    let num_tracks = 1 + s.len(o.max_tracks - 1);
    let ntp = match s.draw(10) {
        0 => 2,
        1..=5 => 2 + s.below(12),
        6 | 7 => 2 + s.below(60.min(o.max_timepoints - 1)),
        8 => {
            // around the 8-/16-bit boundary
            (250 + s.below(12)).min(o.max_timepoints)
        }
        _ => 2 + s.below(o.max_timepoints - 1),
    };
    let tps = timepoints(s, ntp);
    anim_spec_with(s, num_tracks, tps, o.hemisphere)
}

pub fn anim_spec_with(s: &mut Src, num_tracks: usize, tps: Vec<f32>, hemisphere: bool) -> AnimSpec {
    let ntp = tps.len();
    let padded = num_tracks.div_ceil(4) * 4;
    let mut comps: [Vec<KeyTrack>; 3] = Default::default();
    for c in 0..3 {
        for t in 0..padded {
            let mut keys: KeyTrack = Vec::new();
            if t >= num_tracks {
                let k = match c {
                    0 => [0, 0, 0],
                    1 => quat_encode([0.0, 0.0, 0.0, 1.0]),
                    _ => [ONE_H; 3],
                };
                keys.push((0, k));
                keys.push((ntp as u16 - 1, k));
            } else {
                let times = key_times(s, ntp, if num_tracks > 16 { 6 } else { 4 });
                let cheap = times.len() > 40;
                let mut cheap_rng = if cheap { Some(Rng::new(s.draw(1 << 32))) } else { None };
                let mut prev: Option<Q> = None;
                for tp in times {
                    if c == 1 {
                        let mut q = match &mut cheap_rng {
                            Some(r) => {
                                let mut f = || (r.next() >> 11) as f64 / (1u64 << 53) as f64 * 2.0 - 1.0;
                                qnorm([f(), f(), f(), f() + 1e-3])
                            }
                            None => unit_quat(s),
                        };
                        if let Some(p) = prev {
                            let flip = qdot(p, q) < 0.0;
                            if flip && (hemisphere || s.draw(8) != 7) {
                                q = qscale(q, -1.0);
                            }
                        }
                        prev = Some(q);
                        keys.push((tp, quat_encode(q)));
                    } else {
                        let k = match &mut cheap_rng {
                            Some(r) => {
                                let mut h = || 0x2000 + (r.next() % 0x3000) as u16;
                                [h(), h(), h()]
                            }
                            None => [half(s), half(s), half(s)],
                        };
                        keys.push((tp, k));
                    }
                }
            }
            comps[c].push(keys);
        }
    }
    let mut iframes = [0; 3];
    for f in iframes.iter_mut() {
        *f = match s.draw(64) {
            0..=31 => 0,
            32..=47 => 1 + s.below(4),
            // more frames than fit a byte
            63 if num_tracks <= 12 => 100 + s.below(500),
            _ => 1 + s.below(16),
        };
    }
    AnimSpec { duration: 0.01 + s.unit() * 10.0, name: if s.bool() { name(s, 6) } else { String::new() }, num_tracks, timepoints: tps, comps, iframes }
}

/// More than 65536 keys per component, so that entries need three bytes; in
/// half of the cases with tracks whose keys lie far apart in the sorted stream,
/// so that previous-key offsets need all of their 16 bits.
pub fn huge_spec(s: &mut Src) -> AnimSpec {
    let sparse = s.bool();
    let tracks = if sparse { 12 + s.below(40) } else { 4 + s.below(2) };
    let ntp = if sparse { 70_000 / tracks + s.below(60_000 / tracks) } else { 18_000 + s.below(45_000) };
    let tps = timepoints(s, ntp);
    let ntp = tps.len();
    let mut r = Rng::new(s.draw(1 << 32));
    let padded = tracks.div_ceil(4) * 4;
    // keys of one track may be at most this many time points apart
    let gap = (60_000 / padded).min(ntp - 1);
    let mut comps: [Vec<KeyTrack>; 3] = Default::default();
    for k in 0..3 {
        let one_in = 2 + r.next() % 12;
        for t in 0..padded {
            let far = sparse && t < tracks && r.next() % one_in == 0;
            let mut keys = KeyTrack::new();
            let mut tp = 0;
            while tp < ntp {
                if t < tracks || tp == 0 || tp == ntp - 1 {
                    let key = if k == 1 {
                        let mut f = || (r.next() >> 11) as f64 / (1u64 << 53) as f64 - 0.5;
                        quat_encode(qnorm([f(), f(), f(), 2.0 + f()]))
                    } else {
                        let mut h = || 0x2000 + (r.next() % 0x3000) as u16;
                        [h(), h(), h()]
                    };
                    keys.push((tp as u16, key));
                }
                let step = if t >= tracks { ntp - 1 } else if far { gap - (r.next() % 8).min(gap as u64 / 2) as usize } else { 1 };
                tp = if tp == ntp - 1 { ntp } else { (tp + step.max(1)).min(ntp - 1) };
            }
            comps[k].push(keys);
        }
    }
    let iframes = [s.below(20), s.below(20), s.below(20)];
    AnimSpec { duration: 1.0, name: String::new(), num_tracks: tracks, timepoints: tps, comps, iframes }
}

fn gv4(out: &mut Vec<u8>, v: &[u32]) {
    let n = |x: u32| -> usize {
        if x < 1 << 8 { 1 } else if x < 1 << 16 { 2 } else if x < 1 << 24 { 3 } else { 4 }
    };
    let mut prefix = 0u8;
    for i in 0..4 {
        prefix |= ((n(v[i]) - 1) as u8) << (2 * i);
    }
    out.push(prefix);
    for i in 0..4 {
        out.extend_from_slice(&v[i].to_le_bytes()[..n(v[i])]);
    }
}

fn build_comp(tracks: &[KeyTrack], tps: &[f32], iframes: usize) -> Comp {
    // (previous key's time, track, key)
    let mut all: Vec<(f32, usize, usize)> = Vec::new();
    for (t, keys) in tracks.iter().enumerate() {
        for k in 0..keys.len() {
            let prev = if k == 0 { -1.0 } else { tps[keys[k - 1].0 as usize] };
            all.push((prev, t, k));
        }
    }
    // First keys, then second keys (previous time 0), then by previous time.
    all.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap().then(a.1.cmp(&b.1)));
    let mut c = Comp { iframe_interval: 1.0, ..Comp::default() };
    let mut last = vec![0usize; tracks.len()];
    for (i, (_, t, k)) in all.iter().enumerate() {
        c.ratios.push(tracks[*t][*k].0);
        c.keys.push(tracks[*t][*k].1);
        let off = if *k == 0 { 0 } else { i - last[*t] };
        assert!(off <= u16::MAX as usize, "previous offset too large");
        c.previouses.push(off as u16);
        last[*t] = i;
    }
    if iframes > 0 {
        c.iframe_interval = 1.0 / iframes as f32;
        let n = tracks.len();
        for f in 1..=iframes {
            let ratio = if f == iframes { 1.0 } else { f as f32 * c.iframe_interval };
            let mut entries = vec![0u32; n];
            let mut next = 0usize;
            while next < all.len() && (next < 2 * n || all[next].0 <= ratio) {
                entries[all[next].1] = next as u32;
                next += 1;
            }
            c.iframe_desc.push(c.iframe_entries.len() as u32);
            c.iframe_desc.push(next as u32 - 1);
            for g in entries.chunks(4) {
                gv4(&mut c.iframe_entries, g);
            }
        }
    }
    c
}

impl AnimSpec {
    pub fn data(&self) -> AnimData {
        AnimData {
            duration: self.duration,
            name: self.name.clone(),
            num_tracks: self.num_tracks,
            timepoints: self.timepoints.clone(),
            t: build_comp(&self.comps[0], &self.timepoints, self.iframes[0]),
            r: build_comp(&self.comps[1], &self.timepoints, self.iframes[1]),
            s: build_comp(&self.comps[2], &self.timepoints, self.iframes[2]),
        }
    }
    pub fn build(&self) -> Animation {
        anim_from(&self.data())
    }
    pub fn brief(&self) -> String {
        let n: Vec<usize> = self.comps.iter().map(|c| c.iter().map(|k| k.len()).sum()).collect();
        format!("anim tracks={} timepoints={} keys(t,r,s)={:?} iframes={:?}", self.num_tracks, self.timepoints.len(), n, self.iframes)
    }
    pub fn max_keys(&self) -> usize {
        self.comps.iter().flat_map(|c| c.iter().map(|k| k.len())).max().unwrap_or(0)
    }
}
pub fn anim_from(d: &AnimData) -> Animation {
    let b = archw::animation_bytes(d, false);
    Animation::from_archive(&mut Archive::from_slice(&b).unwrap()).expect("well-formed animation archive must load")
}

/// A sampling ratio, often exactly on or next to a time point.
pub fn anim_ratio(s: &mut Src, tps: &[f32]) -> f32 {
    match s.draw(10) {
        0 => 0.0,
        1 => 1.0,
        2 | 3 | 4 => *s.pick(tps),
        5 => {
            let t = *s.pick(tps);
            if s.bool() { f32::from_bits(t.to_bits() + 1).min(1.0) } else if t > 0.0 { f32::from_bits(t.to_bits() - 1) } else { 0.0 }
        }
        6 => {
            let i = s.below(tps.len() - 1);
            tps[i] + (tps[i + 1] - tps[i]) * s.unit()
        }
        7 => near(s, tps),
        _ => s.unit(),
    }
}

/// Close to a key, at any scale.
pub fn near(s: &mut Src, tps: &[f32]) -> f32 {
    let d = 1.0 / (1u32 << s.draw(31)) as f32;
    let t = *s.pick(tps);
    (if s.bool() { t + d } else { t - d }).max(0.0).min(1.0)
}

// ---------------------------------------------------------------- user tracks

#[derive(Clone, Debug)]
pub struct TrackSpec {
    /// 1..=4 floats, 5 = quaternion
    pub dim: usize,
    pub ratios: Vec<f32>,
    pub values: Vec<[f32; 4]>,
    pub steps: Vec<bool>,
    pub name: String,
}
impl TrackSpec {
    pub fn width(&self) -> usize {
        self.dim.min(4)
    }
}

pub struct TrackOpts {
    pub max_keys: usize,
    /// first key at 0 and last at 1, as the offline builder guarantees
    pub patched: bool,
    pub range: f32,
}

/// `n` strictly increasing key ratios in [0, 1].
pub fn track_ratios(s: &mut Src, n: usize, patched: bool) -> Vec<f32> {
    if n == 0 {
        return Vec::new();
    }
    if n == 1 {
        return vec![if patched || s.bool() { 0.0 } else { s.ratio() }];
    }
    let mut v = timepoints(s, n);
    if !patched {
        let (a, b) = match s.draw(4) {
            0 => (0.0, 1.0),
            1 => (s.unit() * 0.5, 1.0),
            2 => (0.0, 0.5 + s.unit() * 0.5),
            _ => (s.unit() * 0.4, 0.6 + s.unit() * 0.4),
        };
        for x in v.iter_mut() {
            *x = (a + *x * (b - a)).min(1.0);
        }
        v.dedup();
    }
    v
}

pub fn track_spec(s: &mut Src, dim: usize, o: &TrackOpts) -> TrackSpec {
    let n = s.len(o.max_keys);
    let ratios = track_ratios(s, n, o.patched);
    let mode = s.draw(4);
    let mut values = Vec::new();
    let mut steps = Vec::new();
    for _ in 0..ratios.len() {
        values.push(if dim == 5 {
            let q = unit_quat(s);
            [q[0] as f32, q[1] as f32, q[2] as f32, q[3] as f32]
        } else {
            let mut v = [0.0; 4];
            for k in v.iter_mut().take(dim) {
                *k = s.real(o.range);
            }
            v
        });
        steps.push(match mode {
            0 => false,
            1 => true,
            _ => s.bool(),
        });
    }
    TrackSpec { dim, ratios, values, steps, name: if s.one_in(3) { name(s, 6) } else { String::new() } }
}

/// A track with more keys than 16 bits can count.
pub fn huge_track(s: &mut Src, dim: usize) -> TrackSpec {
    let n = 65_530 + s.below(20_000);
    let jitter = if s.bool() { 0.45 } else { 0.0 };
    let steps = s.draw(4);
    let mut r = Rng::new(s.draw(1 << 32));
    let mut unit = move || (r.next() >> 11) as f64 / (1u64 << 53) as f64;
    let mut t = TrackSpec { dim, ratios: Vec::new(), values: Vec::new(), steps: Vec::new(), name: String::new() };
    for i in 0..n {
        let off = if i == 0 || i == n - 1 { 0.0 } else { (unit() - 0.5) * 2.0 * jitter };
        t.ratios.push(((i as f64 + off) / (n - 1) as f64) as f32);
        let mut v = [0.0; 4];
        for x in v.iter_mut().take(t.width()) { *x = (unit() * 2.0 - 1.0) as f32; }
        if dim == 5 {
            v[3] += 2.0;
            v = qnorm(v.map(|x| x as f64)).map(|x| x as f32);
        }
        t.values.push(v);
        t.steps.push(match steps { 0 => false, 1 => true, _ => unit() < 0.5 });
    }
    t
}
