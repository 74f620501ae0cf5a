//! C04 well-formed archives, C05 malformed archives, C06 serialisation.

use crate::archw::*;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::p_sampling::{sample_new, sample_with};
use glam::{Quat, Vec2, Vec3, Vec4};
use ozz_animation_rs::animation::{Float3Key, KeyframesCtrl, QuaternionKey};
use ozz_animation_rs::track::TrackValue;
use ozz_animation_rs::*;
use std::io::{Cursor, Read};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C04",
            rule: "skeletons, animations, the five track types and primitive values are written by an independent encoder in both byte orders, read back from slices, vectors, chunked readers and files, and compared element by element; non-trivial: at least one joint, track or key",
            assumptions: &["joint names are unique, as the offline builder guarantees"],
            facets: &[
                Facet { name: "objects", run: c04_objects, quick: 960_000, thorough: 48_000_000 },
                Facet { name: "sequence", run: c04_sequence, quick: 320_000, thorough: 16_000_000 },
                Facet { name: "primitives", run: c04_primitives, quick: 1_600_000, thorough: 80_000_000 },
                Facet { name: "big", run: c04_big, quick: 3_200, thorough: 160_000 },
                Facet { name: "huge", run: c04_huge, quick: 240, thorough: 12_000 },
                Facet { name: "resource", run: c04_resource, quick: 200, thorough: 400 },
            ],
        },
        Prop {
            id: "C05",
            rule: "well-formed archives (generated or from /repo/resource) are truncated at every kind of position, retagged, or mutated (bit flips, boundary integers, splices), plus raw byte strings; loads run under an allocator that checks bounds, caps and records requests, and again in an AddressSanitizer build; non-trivial: the bytes reach past the tag and version",
            assumptions: &["a request above 1 MiB + 16 times the input length counts as out of proportion"],
            facets: &[
                Facet { name: "prefix", run: c05_prefix, quick: 750_000, thorough: 37_500_000 },
                Facet { name: "faults", run: c05_faults, quick: 200_000, thorough: 10_000_000 },
                Facet { name: "paths", run: c05_paths, quick: 2_000, thorough: 50_000 },
                Facet { name: "tag_version", run: c05_tag, quick: 200_000, thorough: 10_000_000 },
                Facet { name: "mutate", run: c05_mutate, quick: 2_000_000, thorough: 100_000_000 },
                Facet { name: "header", run: c05_header, quick: 1_000_000, thorough: 50_000_000 },
                Facet { name: "resource", run: c05_resource, quick: 20_000, thorough: 1_000_000 },
                Facet { name: "raw", run: c05_raw, quick: 500_000, thorough: 25_000_000 },
                Facet { name: "use", run: c05_use, quick: 300_000, thorough: 15_000_000 },
            ],
        },
        Prop {
            id: "C06",
            rule: "generated objects are serialised with rkyv and with serde (JSON text, JSON through a reader, an in-memory value tree with sorted keys, a strict format that checks announced lengths, bincode, CBOR) and restored; the restored object must equal the original and behave the same; non-trivial: the object has content",
            assumptions: &["values are finite (JSON has no other numbers)"],
            facets: &[
                Facet { name: "skeleton", run: c06_skeleton, quick: 120_000, thorough: 6_000_000 },
                Facet { name: "animation", run: c06_animation, quick: 72_000, thorough: 3_600_000 },
                Facet { name: "track", run: c06_track, quick: 240_000, thorough: 12_000_000 },
                Facet { name: "context", run: c06_context, quick: 72_000, thorough: 3_600_000 },
                Facet { name: "huge", run: c06_huge, quick: 160, thorough: 8_000 },
                Facet { name: "values", run: c06_values, quick: 360_000, thorough: 18_000_000 },
            ],
        },
    ]
}

// ------------------------------------------------------------- comparisons

fn fb(v: &[f32]) -> Vec<u32> {
    v.iter().map(|x| x.to_bits()).collect()
}

pub fn check_skeleton(k: &Skeleton, spec: &SkelSpec) -> Res {
    let n = spec.parents.len();
    ensure!(k.num_joints() == n, "num_joints {} instead of {n}", k.num_joints());
    ensure!(k.num_soa_joints() == n.div_ceil(4), "num_soa_joints {} for {n} joints", k.num_soa_joints());
    ensure!(k.num_aligned_joints() == n.div_ceil(4) * 4, "num_aligned_joints {} for {n} joints", k.num_aligned_joints());
    ensure!(k.joint_parents() == &spec.parents[..], "parents {:?} instead of {:?}", k.joint_parents(), spec.parents);
    ensure!(k.joint_names().len() == n, "{} names for {n} joints", k.joint_names().len());
    for i in 0..n {
        ensure!(k.name_by_joint(i as i16) == Some(spec.names[i].as_str()), "joint {i} is named {:?} instead of {:?}", k.name_by_joint(i as i16), spec.names[i]);
    }
    let rest = soa_bits(k.joint_rest_poses());
    ensure!(rest.len() == n.div_ceil(4) * 4, "rest pose has {} joints", rest.len());
    for i in 0..rest.len() {
        ensure!(rest[i] == bits(&spec.rest[i]), "rest pose of joint {i} is {:?} instead of {:?}", soa_get(k.joint_rest_poses(), i), spec.rest[i]);
    }
    Ok(())
}

fn check_ctrl(what: &str, c: &KeyframesCtrl, d: &Comp) -> Res {
    ensure!(c.ratios == &d.ratios[..], "{what} ratios differ");
    ensure!(c.previouses == &d.previouses[..], "{what} previouses differ");
    ensure!(c.iframe_entries == &d.iframe_entries[..], "{what} iframe entries differ");
    ensure!(c.iframe_desc == &d.iframe_desc[..], "{what} iframe descriptions differ");
    ensure!(c.iframe_interval.to_bits() == d.iframe_interval.to_bits(), "{what} iframe interval {} instead of {}", c.iframe_interval, d.iframe_interval);
    Ok(())
}

pub fn check_animation(a: &Animation, d: &AnimData) -> Res {
    ensure!(a.duration().to_bits() == d.duration.to_bits(), "duration {} instead of {}", a.duration(), d.duration);
    ensure!(a.num_tracks() == d.num_tracks, "num_tracks {} instead of {}", a.num_tracks(), d.num_tracks);
    ensure!(a.num_soa_tracks() == d.num_tracks.div_ceil(4), "num_soa_tracks {}", a.num_soa_tracks());
    ensure!(a.num_aligned_tracks() == d.num_tracks.div_ceil(4) * 4, "num_aligned_tracks {}", a.num_aligned_tracks());
    ensure!(a.name() == d.name, "name {:?} instead of {:?}", a.name(), d.name);
    ensure!(fb(a.timepoints()) == fb(&d.timepoints), "time points differ");
    check_ctrl("translation", &a.translations_ctrl(), &d.t)?;
    check_ctrl("rotation", &a.rotations_ctrl(), &d.r)?;
    check_ctrl("scale", &a.scales_ctrl(), &d.s)?;
    let f3 = |c: &Comp| c.keys.iter().map(|k| Float3Key::new(*k)).collect::<Vec<_>>();
    ensure!(a.translations() == &f3(&d.t)[..], "translation keys differ");
    ensure!(a.scales() == &f3(&d.s)[..], "scale keys differ");
    let q: Vec<QuaternionKey> = d.r.keys.iter().map(|k| QuaternionKey::new(*k)).collect();
    ensure!(a.rotations() == &q[..], "rotation keys differ");
    Ok(())
}

pub trait Flat: TrackValue {
    const DIM: usize;
    fn flat(&self) -> [f32; 4];
    fn unflat(v: [f32; 4]) -> Self;
}
impl Flat for f32 {
    const DIM: usize = 1;
    fn flat(&self) -> [f32; 4] {
        [*self, 0.0, 0.0, 0.0]
    }
    fn unflat(v: [f32; 4]) -> f32 {
        v[0]
    }
}
impl Flat for Vec2 {
    const DIM: usize = 2;
    fn flat(&self) -> [f32; 4] {
        [self.x, self.y, 0.0, 0.0]
    }
    fn unflat(v: [f32; 4]) -> Vec2 {
        Vec2::new(v[0], v[1])
    }
}
impl Flat for Vec3 {
    const DIM: usize = 3;
    fn flat(&self) -> [f32; 4] {
        [self.x, self.y, self.z, 0.0]
    }
    fn unflat(v: [f32; 4]) -> Vec3 {
        Vec3::new(v[0], v[1], v[2])
    }
}
impl Flat for Vec4 {
    const DIM: usize = 4;
    fn flat(&self) -> [f32; 4] {
        self.to_array()
    }
    fn unflat(v: [f32; 4]) -> Vec4 {
        Vec4::from_array(v)
    }
}
impl Flat for Quat {
    const DIM: usize = 5;
    fn flat(&self) -> [f32; 4] {
        self.to_array()
    }
    fn unflat(v: [f32; 4]) -> Quat {
        Quat::from_array(v)
    }
}

pub fn check_track<V: Flat>(t: &Track<V>, spec: &TrackSpec) -> Res {
    let n = spec.ratios.len();
    ensure!(t.key_count() == n, "key_count {} instead of {n}", t.key_count());
    ensure!(fb(t.ratios()) == fb(&spec.ratios), "ratios {:.900} instead of {:.900}", format!("{:?}", t.ratios()), format!("{:?}", spec.ratios));
    ensure!(t.values().len() == n, "{} values for {n} keys", t.values().len());
    for i in 0..n {
        ensure!(fb(&t.values()[i].flat()) == fb(&spec.values[i]), "value {i} is {:?} instead of {:?}", t.values()[i], spec.values[i]);
    }
    ensure!(t.steps().len() == n.div_ceil(8), "{} step bytes for {n} keys", t.steps().len());
    for i in 0..n.div_ceil(8) * 8 {
        let got = t.steps()[i / 8] >> (i % 8) & 1 == 1;
        ensure!(got == (i < n && spec.steps[i]), "step flag {i} is {got}");
    }
    ensure!(t.name() == spec.name, "name {:.900?} instead of {:.900?}", t.name(), spec.name);
    Ok(())
}

pub fn load_track<V: Flat>(spec: &TrackSpec) -> Track<V> {
    Track::from_archive(&mut Archive::from_slice(&track_bytes(spec, false)).unwrap()).expect("well-formed track archive must load")
}

// ------------------------------------------------------------- objects

pub enum Obj {
    Skel(SkelSpec),
    Anim(AnimData),
    Track(TrackSpec),
}

pub fn any_obj(s: &mut Src, small: bool) -> Obj {
    match s.draw(3) {
        0 => {
            let n = s.len(if small { 12 } else { 120 });
            Obj::Skel(skel_spec(s, n))
        }
        1 => {
            if s.one_in(12) {
                // no track at all, or raw contents (loading does not interpret them)
                let mut d = AnimData { duration: s.unit(), ..AnimData::default() };
                d.name = name(s, 4);
                d.num_tracks = s.below(3);
                for c in [&mut d.t, &mut d.r, &mut d.s] {
                    let n = s.len(9);
                    for _ in 0..n {
                        c.ratios.push(s.draw(256) as u16);
                        c.previouses.push(s.draw(65536) as u16);
                        c.keys.push([s.draw(65536) as u16, s.draw(65536) as u16, s.draw(65536) as u16]);
                    }
                    let n = s.len(9);
                    for _ in 0..n {
                        c.iframe_entries.push(s.draw(256) as u8);
                    }
                    let n = s.len(5);
                    for _ in 0..n {
                        c.iframe_desc.push(s.draw(1 << 32) as u32);
                    }
                    c.iframe_interval = s.unit();
                }
                Obj::Anim(d)
            } else {
                Obj::Anim(anim_spec(s, &AnimOpts { max_tracks: if small { 5 } else { 14 }, max_timepoints: if small { 12 } else { 320 }, hemisphere: false }).data())
            }
        }
        _ => {
            let dim = 1 + s.below(5);
            Obj::Track(track_spec(s, dim, &TrackOpts { max_keys: if small { 10 } else { 90 }, patched: false, range: 100.0 }))
        }
    }
}

impl Obj {
    pub fn write(&self, w: &mut W) {
        match self {
            Obj::Skel(x) => w.skeleton(x),
            Obj::Anim(x) => w.animation(x),
            Obj::Track(x) => w.track(x),
        }
    }
    pub fn bytes(&self, big: bool) -> Vec<u8> {
        let mut w = W::new(big);
        self.write(&mut w);
        w.buf
    }
    pub fn brief(&self) -> String {
        match self {
            Obj::Skel(x) => format!("skeleton of {} joints {:?}", x.parents.len(), &x.names[..x.names.len().min(3)]),
            Obj::Anim(x) => format!("animation {:?} tracks={} timepoints={} keys={}/{}/{}", x.name, x.num_tracks, x.timepoints.len(), x.t.keys.len(), x.r.keys.len(), x.s.keys.len()),
            Obj::Track(x) => format!("track dim={} keys={} name={:?}", x.dim, x.ratios.len(), x.name),
        }
    }
    fn content(&self) -> bool {
        match self {
            Obj::Skel(x) => !x.parents.is_empty(),
            Obj::Anim(x) => !x.t.keys.is_empty(),
            Obj::Track(x) => !x.ratios.is_empty(),
        }
    }
    /// Loads and compares.
    fn check<R: Read>(&self, a: &mut Archive<R>) -> Res {
        let e = |e: OzzError| format!("well-formed archive is rejected: {e:?} ({})", self.brief());
        match self {
            Obj::Skel(x) => check_skeleton(&Skeleton::from_archive(a).map_err(e)?, x),
            Obj::Anim(x) => check_animation(&Animation::from_archive(a).map_err(e)?, x),
            Obj::Track(x) => match x.dim {
                1 => check_track::<f32>(&Track::from_archive(a).map_err(e)?, x),
                2 => check_track::<Vec2>(&Track::from_archive(a).map_err(e)?, x),
                3 => check_track::<Vec3>(&Track::from_archive(a).map_err(e)?, x),
                4 => check_track::<Vec4>(&Track::from_archive(a).map_err(e)?, x),
                _ => check_track::<Quat>(&Track::from_archive(a).map_err(e)?, x),
            },
        }
    }
    fn check_meta<R: Read>(&self, a: &mut Archive<R>, with_joints: bool) -> Res {
        let e = |e: OzzError| format!("meta of a well-formed archive is rejected: {e:?} ({})", self.brief());
        match self {
            Obj::Skel(x) => {
                let m = Skeleton::read_meta(a, with_joints).map_err(e)?;
                let n = x.parents.len();
                ensure!(m.version == 2 && m.num_joints as usize == n, "skeleton meta: version {} joints {}", m.version, m.num_joints);
                if with_joints {
                    ensure!(m.joint_parents == x.parents, "meta parents {:?} instead of {:?}", m.joint_parents, x.parents);
                    ensure!(m.joint_names.len() == n, "meta has {} names for {n} joints", m.joint_names.len());
                    for i in 0..n {
                        ensure!(m.joint_names.get_by_left(&x.names[i]) == Some(&(i as i16)), "meta name {:?} leads to {:?}", x.names[i], m.joint_names.get_by_left(&x.names[i]));
                    }
                } else {
                    ensure!(m.joint_parents.is_empty() && m.joint_names.is_empty(), "meta without joints has joints");
                }
                Ok(())
            }
            Obj::Anim(x) => {
                let m = Animation::read_meta(a).map_err(e)?;
                let got = (m.version, m.duration.to_bits(), m.num_tracks as usize, m.name.clone(), m.timepoints_count as usize);
                let want = (7, x.duration.to_bits(), x.num_tracks, x.name.clone(), x.timepoints.len());
                ensure!(got == want, "animation meta {got:?} instead of {want:?}");
                let got = [m.translations_count, m.t_iframe_entries_count, m.t_iframe_desc_count, m.rotations_count, m.r_iframe_entries_count, m.r_iframe_desc_count, m.scales_count, m.s_iframe_entries_count, m.s_iframe_desc_count];
                let c = |c: &Comp| [c.keys.len() as u32, c.iframe_entries.len() as u32, c.iframe_desc.len() as u32];
                let want: Vec<u32> = [c(&x.t), c(&x.r), c(&x.s)].concat();
                ensure!(got[..] == want[..], "animation meta counts {got:?} instead of {want:?}");
                Ok(())
            }
            Obj::Track(_) => Ok(()),
        }
    }
}

/// A reader that returns few bytes at a time.
struct Drip<'t>(&'t [u8], usize, u32);
impl Read for Drip<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if self.2 > 0 {
            // now and then the call is interrupted and has to be made again
            self.2 = self.2.wrapping_mul(1664525).wrapping_add(1013904223) | 1;
            if self.2 >> 30 == 0 { return Err(std::io::ErrorKind::Interrupted.into()); }
        }
        let n = buf.len().min(self.0.len()).min(self.1);
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

fn scratch(s: &str) -> std::path::PathBuf {
    std::env::temp_dir().join(format!("ozzcheck-{}-{s}", std::process::id()))
}

fn c04_objects(s: &mut Src, c: &mut Case) -> Res {
    let o = any_obj(s, false);
    let big = s.bool();
    let b = o.bytes(big);
    c.nontrivial = o.content();
    c.describe(|| format!("{} big_endian={big} bytes={}", o.brief(), b.len()));
    c.label(if big { "big_endian" } else { "little_endian" });
    let e = |e: OzzError| format!("archive does not open: {e:?}");
    match s.draw(16) {
        0..=7 => o.check(&mut Archive::from_slice(&b).map_err(e)?)?,
        8..=11 => o.check(&mut Archive::from_vec(b.clone()).map_err(e)?)?,
        12..=14 => {
            c.label("chunked_reader");
            let k = 1 + s.below(5);
            o.check(&mut Archive::new(Drip(&b, k, if s.bool() { 0 } else { 1 + s.below(1000) as u32 })).map_err(e)?)?
        }
        _ => {
            c.label("file");
            let p = scratch("c04.ozz");
            std::fs::write(&p, &b).map_err(|e| format!("scratch file: {e}"))?;
            let r = (|| {
                o.check(&mut Archive::from_path(&p).map_err(e)?)?;
                o.check(&mut Archive::from_file(std::fs::File::open(&p).unwrap()).map_err(e)?)?;
                match &o {
                    Obj::Skel(x) => check_skeleton(&Skeleton::from_path(&p).map_err(e)?, x),
                    Obj::Anim(x) => check_animation(&Animation::from_path(&p).map_err(e)?, x),
                    Obj::Track(x) => match x.dim {
                        1 => check_track::<f32>(&Track::from_path(&p).map_err(e)?, x),
                        2 => check_track::<Vec2>(&Track::from_path(&p).map_err(e)?, x),
                        3 => check_track::<Vec3>(&Track::from_path(&p).map_err(e)?, x),
                        4 => check_track::<Vec4>(&Track::from_path(&p).map_err(e)?, x),
                        _ => check_track::<Quat>(&Track::from_path(&p).map_err(e)?, x),
                    },
                }
            })();
            let _ = std::fs::remove_file(&p);
            r?
        }
    }
    let wj = s.bool();
    let mut a = Archive::from_slice(&b).map_err(e)?;
    ensure!(a.endian_swap() == (big != cfg!(target_endian = "big")), "endian_swap() is {} for a {} archive", a.endian_swap(), if big { "big-endian" } else { "little-endian" });
    o.check_meta(&mut a, wj)?;
    let mut a = Archive::from_slice(&b).map_err(e)?;
    let (tag, version) = a.read_tag_version().map_err(e)?;
    let want = match &o {
        Obj::Skel(_) => ("ozz-skeleton", 2),
        Obj::Anim(_) => ("ozz-animation", 7),
        Obj::Track(t) => (["", "ozz-float_track", "ozz-float2_track", "ozz-float3_track", "ozz-float4_track", "ozz-quat_track"][t.dim], 1),
    };
    ensure!((tag.as_str(), version) == want, "tag and version {tag:?} {version}");
    Ok(())
}

/// Several objects, each with its own tag, in one archive: every read must
/// consume exactly its own bytes.
fn c04_sequence(s: &mut Src, c: &mut Case) -> Res {
    let big = s.bool();
    let n = 2 + s.below(4);
    let objs: Vec<Obj> = (0..n).map(|_| any_obj(s, true)).collect();
    let mut w = W::new(big);
    let mut ends = Vec::new();
    for o in &objs {
        o.write(&mut w);
        ends.push(w.buf.len());
    }
    w.buf.extend_from_slice(&[0xEE; 5]);
    c.nontrivial = objs.iter().filter(|o| o.content()).count() >= 2;
    c.describe(|| objs.iter().map(|o| o.brief()).collect::<Vec<_>>().join(" + "));
    let mut cur = Cursor::new(&w.buf[..]);
    let mut a = Archive::new(&mut cur).map_err(|e| format!("{e:?}"))?;
    for o in &objs {
        o.check(&mut a)?;
    }
    drop(a);
    ensure!(cur.position() as usize == ends[n - 1], "after reading everything the reader is at {} instead of {}", cur.position(), ends[n - 1]);
    Ok(())
}

/// Bytes that stand for a boolean: zero is false, all others are true.
const BOOLS: [u64; 5] = [0, 1, 1, 2, 255];

fn c04_primitives(s: &mut Src, c: &mut Case) -> Res {
    let big = s.bool();
    let mut w = W::new(big);
    let n = 1 + s.len(12);
    let mut items: Vec<(u64, u64, u64, String, usize)> = Vec::new();
    for _ in 0..n {
        let k = s.draw(18);
        let v = s.draw(0);
        let v2 = s.draw(0);
        let t = name(s, 4);
        let len = s.below(5);
        items.push((k, v, v2, t, len));
    }
    fn put(w: &mut W, v: u64, bytes: usize) {
        let le = v.to_le_bytes();
        let mut b = le[..bytes].to_vec();
        if w.big {
            b.reverse();
        }
        w.buf.extend_from_slice(&b);
    }
    for (k, v, v2, t, len) in &items {
        let (v, v2) = (*v, *v2);
        match k {
            0 => put(&mut w, BOOLS[v as usize % 5], 1),
            1 | 2 => put(&mut w, v, 1),
            3 | 4 => put(&mut w, v, 2),
            5 | 6 | 9 => put(&mut w, v, 4),
            7 | 8 | 10 => put(&mut w, v, 8),
            11 => w.cstr(t),
            12..=15 => {
                for i in 0..[2, 3, 4, 4][*k as usize - 12] {
                    put(&mut w, v2.rotate_left(i * 7), 4);
                }
            }
            16 => {
                for i in 0..*len {
                    put(&mut w, v.rotate_left(i as u32), 2);
                }
            }
            _ => {
                for i in 0..*len {
                    put(&mut w, v.rotate_left(i as u32), 4);
                }
            }
        }
    }
    c.nontrivial = true;
    c.describe(|| format!("big_endian={big} kinds {:?}", items.iter().map(|i| i.0).collect::<Vec<_>>()));
    let mut a = Archive::from_slice(&w.buf).map_err(|e| format!("{e:?}"))?;
    let er = |e: OzzError| format!("primitive read fails: {e:?}");
    for (k, v, v2, t, len) in &items {
        let (v, v2) = (*v, *v2);
        let f = |i: u32| (v2.rotate_left(i * 7) as u32) as u64;
        let fl = |x: &[f32]| x.iter().map(|x| x.to_bits() as u64).collect::<Vec<_>>();
        let (got, want): (Vec<u64>, Vec<u64>) = match k {
            0 => (vec![if a.read::<bool>().map_err(er)? { 1 } else { 0 }], vec![(BOOLS[v as usize % 5] != 0) as u64]),
            1 => (vec![a.read::<u8>().map_err(er)? as u64], vec![v as u8 as u64]),
            2 => (vec![a.read::<i8>().map_err(er)? as u64], vec![v as i8 as u64]),
            3 => (vec![a.read::<u16>().map_err(er)? as u64], vec![v as u16 as u64]),
            4 => (vec![a.read::<i16>().map_err(er)? as u64], vec![v as i16 as u64]),
            5 => (vec![a.read::<u32>().map_err(er)? as u64], vec![v as u32 as u64]),
            6 => (vec![a.read::<i32>().map_err(er)? as u64], vec![v as i32 as u64]),
            7 => (vec![a.read::<u64>().map_err(er)?], vec![v]),
            8 => (vec![a.read::<i64>().map_err(er)? as u64], vec![v]),
            9 => (fl(&[a.read::<f32>().map_err(er)?]), vec![v as u32 as u64]),
            10 => (vec![a.read::<f64>().map_err(er)?.to_bits()], vec![v]),
            11 => {
                let got: String = a.read().map_err(er)?;
                ensure!(&got == t, "string {got:?} instead of {t:?}");
                continue;
            }
            12 => (fl(&a.read::<Vec2>().map_err(er)?.to_array()), (0..2).map(f).collect()),
            13 => (fl(&a.read::<Vec3>().map_err(er)?.to_array()), (0..3).map(f).collect()),
            14 => (fl(&a.read::<Vec4>().map_err(er)?.to_array()), (0..4).map(f).collect()),
            15 => (fl(&a.read::<Quat>().map_err(er)?.to_array()), (0..4).map(f).collect()),
            16 => {
                let x: Vec<u16> = a.read_vec(*len).map_err(er)?;
                (x.iter().map(|x| *x as u64).collect(), (0..*len).map(|i| v.rotate_left(i as u32) as u16 as u64).collect())
            }
            _ => {
                let mut x = vec![0i32; *len];
                a.read_slice(&mut x).map_err(er)?;
                (x.iter().map(|x| *x as u32 as u64).collect(), (0..*len).map(|i| v.rotate_left(i as u32) as u32 as u64).collect())
            }
        };
        ensure!(got == want, "kind {k}: read {got:x?} instead of {want:x?} (big_endian={big})");
    }
    ensure!(a.read::<u8>().map_err(|e| e.is_io()) == Err(true), "reading past the end is not an IO error");
    Ok(())
}

/// Larger objects: counts beyond the preallocation cap and 8-bit boundaries.
fn c04_big(s: &mut Src, c: &mut Case) -> Res {
    let o = match s.draw(3) {
        0 => {
            let n = 200 + s.below(900);
            Obj::Skel(skel_spec(s, n))
        }
        1 => {
            let ntp = *s.pick(&[254, 255, 256, 257, 1000, 5000]);
            let tps = timepoints(s, ntp);
            let n = 1 + s.below(20);
            Obj::Anim(anim_spec_with(s, n, tps, true).data())
        }
        _ => {
            let n = 1000 + s.below(9000);
            let mut t = TrackSpec { dim: 1 + s.below(5), ratios: timepoints(s, n), values: vec![], steps: vec![], name: name(s, 40) };
            let mut r = Rng::new(s.draw(1 << 32));
            for _ in 0..t.ratios.len() {
                let mut v = [0.0; 4];
                for x in v.iter_mut().take(t.width()) {
                    *x = (r.next() >> 40) as f32;
                }
                t.values.push(v);
                t.steps.push(r.next() & 1 == 1);
            }
            Obj::Track(t)
        }
    };
    c.nontrivial = true;
    c.describe(|| o.brief());
    let big = s.bool();
    let b = o.bytes(big);
    let k = 1 + s.below(5000);
    o.check(&mut Archive::new(Drip(&b, k, if s.bool() { 0 } else { 5 })).map_err(|e| format!("{e:?}"))?)
}

/// Counts and lengths beyond 16 bits: keys, names, bytes of names.
fn c04_huge(s: &mut Src, c: &mut Case) -> Res {
    let long = |s: &mut Src| {
        let n = 65_530 + s.below(10_000);
        let pad = s.below(4);
        let mut t = "b".repeat(pad);
        while t.len() < n { t.push_str("骨ab"); }
        t
    };
    let o = match s.draw(4) {
        0 => {
            let n = 1 + s.len(12);
            let mut k = skel_spec(s, n);
            let i = s.below(n);
            k.names[i] = long(s);
            Obj::Skel(k)
        }
        1 => {
            let mut t = track_spec(s, 1, &TrackOpts { max_keys: 12, patched: false, range: 5.0 });
            t.name = long(s);
            Obj::Track(t)
        }
        2 => {
            let dim = 1 + s.below(5);
            Obj::Track(huge_track(s, dim))
        }
        _ => {
            let mut a = huge_spec(s);
            if s.bool() { a.name = long(s); }
            Obj::Anim(a.data())
        }
    };
    c.nontrivial = true;
    c.describe(|| match &o { Obj::Skel(x) => format!("skeleton of {} joints with a long name", x.parents.len()), Obj::Anim(x) => format!("animation of {} keys", x.t.keys.len()), Obj::Track(x) => format!("track of {} keys", x.ratios.len()) });
    let big = s.bool();
    let b = o.bytes(big);
    let e = |e: OzzError| format!("archive does not open: {e:?}");
    o.check_meta(&mut Archive::from_slice(&b).map_err(e)?, true)?;
    o.check(&mut Archive::from_slice(&b).map_err(e)?)
}

/// Resource files: the loaded animation equals an independent parse, and
/// re-encoding it in the other byte order loads the same.
fn c04_resource(s: &mut Src, c: &mut Case) -> Res {
    let files = crate::archr::resource_files();
    s.draw(1);
    if files.is_empty() {
        return Ok(());
    }
    let p = &files[s.index as usize % files.len()];
    let b = std::fs::read(p).unwrap();
    c.describe(|| p.display().to_string());
    if let Some(d) = crate::archr::parse_animation(&b) {
        c.nontrivial = true;
        let o = Obj::Anim(d);
        o.check(&mut Archive::from_slice(&b).unwrap())?;
        o.check(&mut Archive::from_path(p).map_err(|e| format!("{e:?}"))?)?;
        o.check(&mut Archive::from_slice(&o.bytes(true)).unwrap())?;
        o.check_meta(&mut Archive::from_slice(&b).unwrap(), true)?;
    } else if b.starts_with(b"\x01ozz-skeleton\0") {
        c.nontrivial = true;
        let k = Skeleton::from_path(p).map_err(|e| format!("{}: {e:?}", p.display()))?;
        let m = Skeleton::read_meta(&mut Archive::from_slice(&b).unwrap(), true).map_err(|e| format!("{e:?}"))?;
        let n = k.num_joints();
        ensure!(m.num_joints as usize == n && m.joint_parents == k.joint_parents() && &m.joint_names == k.joint_names(), "{}: meta and skeleton differ", p.display());
        let rest: Vec<Xf> = (0..n.div_ceil(4) * 4).map(|i| soa_get(k.joint_rest_poses(), i)).collect();
        let names = (0..n).map(|i| k.name_by_joint(i as i16).unwrap_or("?").to_string()).collect();
        let spec = SkelSpec { parents: k.joint_parents().to_vec(), names, rest };
        ensure!(skeleton_bytes(&spec, false) == b, "{}: re-encoding the loaded skeleton does not give the file back", p.display());
        check_skeleton(&Skeleton::from_archive(&mut Archive::from_slice(&skeleton_bytes(&spec, true)).unwrap()).map_err(|e| format!("{e:?}"))?, &spec)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C05

#[derive(Clone, Copy, PartialEq, Debug)]
enum Loader {
    Skel,
    SkelMeta(bool),
    Anim,
    AnimMeta,
    F1,
    F2,
    F3,
    F4,
    Q,
}
const LOADERS: [Loader; 10] = [Loader::Skel, Loader::SkelMeta(true), Loader::SkelMeta(false), Loader::Anim, Loader::AnimMeta, Loader::F1, Loader::F2, Loader::F3, Loader::F4, Loader::Q];

/// Every text that a loader returns must be text.
fn text(s: &str) -> u64 {
    if let Err(e) = std::str::from_utf8(std::hint::black_box(s.as_bytes())) {
        panic!("a name is not UTF-8: {e}");
    }
    s.len() as u64
}
fn use_track<V: Flat>(t: &Track<V>) -> u64 {
    let mut h = t.key_count() as u64 + text(t.name());
    for i in 0..t.ratios().len() {
        h = h.wrapping_mul(31) ^ t.ratios()[i].to_bits() as u64 ^ t.values()[i].flat()[0].to_bits() as u64;
    }
    h + t.steps().iter().map(|x| *x as u64).sum::<u64>()
}

/// Loads, touches everything the object exposes, and returns the error.
fn load(l: Loader, b: &[u8]) -> Result<u64, OzzError> {
    load_from(l, &mut Archive::from_slice(b)?)
}
fn load_from<R: Read>(l: Loader, a: &mut Archive<R>) -> Result<u64, OzzError> {
    Ok(match l {
        Loader::Skel => {
            let k = Skeleton::from_archive(a)?;
            let mut h = 0u64;
            for p in k.joint_parents() {
                h = h.wrapping_mul(31) + *p as u16 as u64;
            }
            for x in soa_bits(k.joint_rest_poses()) {
                h = h.wrapping_mul(31) + x[3] as u64;
            }
            for (n, i) in k.joint_names().iter() {
                h = h.wrapping_add(text(n) + *i as u16 as u64);
            }
            h
        }
        Loader::SkelMeta(j) => {
            let m = Skeleton::read_meta(a, j)?;
            m.joint_parents.iter().map(|x| *x as u16 as u64).sum::<u64>() + m.joint_names.iter().map(|(n, _)| text(n)).sum::<u64>()
        }
        Loader::Anim => {
            let x = Animation::from_archive(a)?;
            let mut h = text(x.name());
            for t in x.timepoints() {
                h = h.wrapping_mul(31) + t.to_bits() as u64;
            }
            for c in [x.translations_ctrl(), x.rotations_ctrl(), x.scales_ctrl()] {
                for v in c.ratios.iter().chain(c.previouses) {
                    h = h.wrapping_mul(31) + *v as u64;
                }
                for v in c.iframe_entries {
                    h = h.wrapping_mul(31) + *v as u64;
                }
                for v in c.iframe_desc {
                    h = h.wrapping_mul(31) + *v as u64;
                }
            }
            for k in x.translations().iter().chain(x.scales()) {
                h = h.wrapping_mul(31) + k.decompress().x.to_bits() as u64;
            }
            for k in x.rotations() {
                h = h.wrapping_mul(31) + k.decompress().x.to_bits() as u64;
            }
            h
        }
        Loader::AnimMeta => text(&Animation::read_meta(a)?.name),
        Loader::F1 => use_track(&Track::<f32>::from_archive(a)?),
        Loader::F2 => use_track(&Track::<Vec2>::from_archive(a)?),
        Loader::F3 => use_track(&Track::<Vec3>::from_archive(a)?),
        Loader::F4 => use_track(&Track::<Vec4>::from_archive(a)?),
        Loader::Q => use_track(&Track::<Quat>::from_archive(a)?),
    })
}

fn guarded(l: Loader, b: &[u8]) -> Result<Result<u64, OzzError>, String> {
    crate::alloc_guard::take_max_request();
    let r = load(l, b);
    let m = crate::alloc_guard::take_max_request();
    ensure!(m <= (1 << 20) + 16 * b.len(), "{l:?}: loading {} bytes requested {m} bytes of memory at once", b.len());
    Ok(r)
}

fn loader_of(o: &Obj) -> Loader {
    match o {
        Obj::Skel(_) => Loader::Skel,
        Obj::Anim(_) => Loader::Anim,
        Obj::Track(t) => [Loader::F1, Loader::F2, Loader::F3, Loader::F4, Loader::Q][t.dim - 1],
    }
}

fn c05_prefix(s: &mut Src, c: &mut Case) -> Res {
    let o = any_obj(s, true);
    let b = o.bytes(s.bool());
    let cuts: Vec<usize> = if b.len() <= 220 { (0..b.len()).collect() } else { (0..12).map(|_| if s.bool() { b.len() - 1 - s.below(40) } else { s.below(b.len()) }).collect() };
    c.nontrivial = o.content();
    c.describe(|| format!("{} cut at {} positions of {}", o.brief(), cuts.len(), b.len()));
    let l = loader_of(&o);
    for k in cuts {
        match guarded(l, &b[..k])? {
            Ok(_) => return Err(format!("{l:?} loads from the first {k} of {} bytes ({})", b.len(), o.brief())),
            Err(e) => ensure!(e.is_io(), "{l:?} from the first {k} of {} bytes: {e:?} instead of an IO error", b.len()),
        }
        let metas: &[Loader] = match l {
            Loader::Skel => &[Loader::SkelMeta(true), Loader::SkelMeta(false)],
            Loader::Anim => &[Loader::AnimMeta],
            _ => &[],
        };
        for m in metas {
            let need = match (&o, m) {
                (Obj::Skel(x), Loader::SkelMeta(j)) => {
                    let n = x.parents.len();
                    22 + if *j && n > 0 { 4 + x.names.iter().map(|x| x.len() + 1).sum::<usize>() + 2 * n } else { 0 }
                }
                (Obj::Anim(x), _) => 15 + 4 * 14 + x.name.len(),
                _ => 0,
            };
            let r = guarded(*m, &b[..k])?;
            ensure!(r.is_ok() == (k >= need), "{m:?} of {need} bytes from the first {k} bytes: {}", if r.is_ok() { "accepted" } else { "rejected" });
        }
    }
    ensure!(guarded(l, &b)?.is_ok(), "the complete archive is rejected");
    Ok(())
}

/// A reader that fails from some position on, with an error of its own.
struct Faulty<'t> { b: &'t [u8], at: usize, fail: usize, kind: std::io::ErrorKind, piece: usize, hit: bool }
impl Read for &mut Faulty<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        if buf.is_empty() { return Ok(0); }
        if self.at >= self.fail { self.hit = true; return Err(self.kind.into()); }
        let n = buf.len().min(self.fail - self.at).min(self.b.len() - self.at).min(self.piece);
        buf[..n].copy_from_slice(&self.b[self.at..self.at + n]);
        self.at += n;
        Ok(n)
    }
}

/// A reader's error is what the caller gets, from whatever position.
fn c05_faults(s: &mut Src, c: &mut Case) -> Res {
    use std::io::ErrorKind::*;
    let o = any_obj(s, true);
    let b = o.bytes(s.bool());
    let l = loader_of(&o);
    c.nontrivial = o.content();
    let kind = *s.pick(&[NotFound, PermissionDenied, ConnectionReset, ConnectionAborted, BrokenPipe, WouldBlock, InvalidInput, InvalidData, TimedOut, Unsupported, OutOfMemory, Other, UnexpectedEof]);
    let piece = 1 + s.below(64);
    let cuts: Vec<usize> = if b.len() <= 120 { (0..=b.len()).collect() } else { (0..10).map(|_| s.below(b.len() + 1)).collect() };
    c.describe(|| format!("{} of {} bytes, {kind:?} at {cuts:?}, {piece} bytes at a time", o.brief(), b.len()));
    let mut ls = vec![l];
    match l {
        Loader::Skel => ls.extend([Loader::SkelMeta(true), Loader::SkelMeta(false)]),
        Loader::Anim => ls.push(Loader::AnimMeta),
        _ => {}
    }
    for k in cuts {
        for l in &ls {
            let mut f = Faulty { b: &b, at: 0, fail: k, kind, piece, hit: false };
            let r = Archive::new(&mut f).and_then(|mut a| load_from(*l, &mut a));
            match r {
                Ok(_) => ensure!(!f.hit, "{l:?} loads although its reader failed with {kind:?} at byte {k} of {}", b.len()),
                Err(OzzError::IO(x)) => ensure!(f.hit && x == kind, "{l:?} reports {x:?}, its reader failed with {kind:?} at byte {k} of {}", b.len()),
                Err(e) => return Err(format!("{l:?} reports {e:?}, its reader failed with {kind:?} at byte {k} of {}", b.len())),
            }
            ensure!(k < b.len() || !f.hit, "{l:?} reads beyond the {} bytes of its object", b.len());
        }
    }
    Ok(())
}

/// Paths that cannot be opened or read give an IO error, for every loader.
fn c05_paths(s: &mut Src, c: &mut Case) -> Res {
    use std::io::ErrorKind;
    let d = scratch(&format!("c05-{}", s.draw(1000)));
    std::fs::create_dir_all(&d).map_err(|e| format!("scratch: {e}"))?;
    let empty = d.join("empty");
    std::fs::write(&empty, b"").map_err(|e| format!("scratch: {e}"))?;
    let tail: String = (0..s.below(40)).map(|_| *s.pick(&['a', '.', ' ', '\u{9aa8}', '-', '0'])).collect();
    let cases = [
        (d.join(format!("x{tail}")), Some(ErrorKind::NotFound)),
        (empty.join(format!("x{tail}")), Some(ErrorKind::NotADirectory)),
        (d.join("y".repeat(300)), None),
        (std::path::PathBuf::from(""), Some(ErrorKind::NotFound)),
        (d.join("nul\0byte"), Some(ErrorKind::InvalidInput)),
        (empty.clone(), Some(ErrorKind::UnexpectedEof)),
        (d.clone(), None),
    ];
    c.nontrivial = true;
    c.describe(|| format!("{:?}", cases.iter().map(|c| &c.0).collect::<Vec<_>>()));
    let r = (|| {
        for (p, want) in &cases {
            let rs: [(&str, Option<OzzError>); 8] = [
                ("Skeleton", Skeleton::from_path(p).err()),
                ("Animation", Animation::from_path(p).err()),
                ("Track<f32>", Track::<f32>::from_path(p).err()),
                ("Track<Vec2>", Track::<Vec2>::from_path(p).err()),
                ("Track<Vec3>", Track::<Vec3>::from_path(p).err()),
                ("Track<Vec4>", Track::<Vec4>::from_path(p).err()),
                ("Track<Quat>", Track::<Quat>::from_path(p).err()),
                ("Archive", Archive::from_path(p).err()),
            ];
            for (n, e) in rs {
                match e {
                    None => return Err(format!("{n} opens {p:?}")),
                    Some(OzzError::IO(k)) => ensure!(want.is_none() || *want == Some(k), "{n} from {p:?}: {k:?}, want {want:?}"),
                    Some(e) => return Err(format!("{n} from {p:?}: {e:?}, want an IO error")),
                }
            }
        }
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&d);
    r
}

fn c05_tag(s: &mut Src, c: &mut Case) -> Res {
    let o = any_obj(s, true);
    let big = s.bool();
    let b = o.bytes(big);
    let tag_len = b[1..].iter().position(|x| *x == 0).unwrap();
    let l = loader_of(&o);
    c.nontrivial = true;
    let mut m = b.clone();
    let kind = s.draw(4);
    match kind {
        0 => {
            // another loader
            let other = *s.pick(&LOADERS);
            let same = match other {
                Loader::SkelMeta(_) => l == Loader::Skel,
                Loader::AnimMeta => l == Loader::Anim,
                x => x == l,
            };
            c.describe(|| format!("{} read as {other:?}", o.brief()));
            let r = guarded(other, &b)?;
            match r {
                Ok(_) => ensure!(same, "{} loads as {other:?}", o.brief()),
                Err(e) => ensure!(!same && e.is_invalid_tag(), "{} read as {other:?}: {e:?}", o.brief()),
            }
            return Ok(());
        }
        1 => {
            let i = 1 + s.below(tag_len);
            let x = 1 + s.draw(127) as u8;
            if m[i] == x {
                return Ok(());
            }
            m[i] = x;
        }
        2 => {
            // longer or shorter tag
            if s.bool() {
                m.insert(1 + s.below(tag_len), b'x');
            } else {
                m.remove(1 + s.below(tag_len));
            }
        }
        _ => {
            let p = 1 + tag_len + 1;
            let v = match s.draw(3) {
                0 => s.draw(20) as u32,
                1 => s.draw(1 << 32) as u32,
                _ => 1 << s.draw(32),
            };
            let v = if big { v.to_be_bytes() } else { v.to_le_bytes() };
            if m[p..p + 4] == v {
                return Ok(());
            }
            m[p..p + 4].copy_from_slice(&v);
        }
    }
    c.describe(|| format!("{} head {:?}", o.brief(), String::from_utf8_lossy(&m[..m.len().min(24)])));
    let mut ls = vec![l];
    match l {
        Loader::Skel => ls.extend([Loader::SkelMeta(true), Loader::SkelMeta(false)]),
        Loader::Anim => ls.push(Loader::AnimMeta),
        _ => {}
    }
    for l in ls {
        match guarded(l, &m)? {
            Ok(_) => return Err(format!("{l:?} accepts a wrong {}", if kind == 3 { "version" } else { "tag" })),
            Err(e) => ensure!(if kind == 3 { e.is_invalid_version() } else { e.is_invalid_tag() }, "{l:?}: {e:?} for a wrong {}", if kind == 3 { "version" } else { "tag" }),
        }
    }
    Ok(())
}

fn mutate(s: &mut Src, b: &mut Vec<u8>, from: usize) {
    let n = 1 + s.below(4);
    for _ in 0..n {
        if b.len() <= from {
            return;
        }
        let span = b.len() - from;
        let i = from + if s.bool() { s.below(span.min(64)) } else { s.below(span) };
        match s.draw(8) {
            0 => b[i] ^= 1 << s.draw(8),
            1 => b[i] = s.draw(256) as u8,
            2 => b[i] = *s.pick(&[0, 1, 0x7f, 0x80, 0xff, 0xfe]),
            3 => {
                let v = *s.pick(&[0u32, 1, 2, 3, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fffe, 0xffff_fff9, 0xffff, 0x1_0000, 0x1000_0000, 0x4000_0000, 0x2000_0001]);
                let v = if s.bool() { v.to_be_bytes() } else { v.to_le_bytes() };
                for (k, x) in v.iter().enumerate() {
                    if i + k < b.len() {
                        b[i + k] = *x;
                    }
                }
            }
            4 => b.insert(i, s.draw(256) as u8),
            5 => {
                b.remove(i);
            }
            6 => {
                let k = s.below(b.len() - i + 1);
                b.truncate(i + k);
            }
            _ => {
                let j = from + s.below(span);
                let k = s.below(16.min(b.len() - i.max(j)) + 1);
                let t = b[j..j + k].to_vec();
                b[i..i + k].copy_from_slice(&t);
            }
        }
    }
}

fn c05_mutate(s: &mut Src, c: &mut Case) -> Res {
    let o = any_obj(s, true);
    let mut b = o.bytes(s.bool());
    let head = 1 + b[1..].iter().position(|x| *x == 0).unwrap() + 5;
    let from = if s.one_in(5) { 0 } else { head };
    mutate(s, &mut b, from);
    c.nontrivial = b.len() > head;
    c.describe(|| format!("{} mutated to {} bytes", o.brief(), b.len()));
    let l = loader_of(&o);
    let r = guarded(l, &b)?;
    c.label(if r.is_ok() { "accepted" } else { "rejected" });
    match l {
        Loader::Skel => {
            guarded(Loader::SkelMeta(true), &b)?.ok();
            guarded(Loader::SkelMeta(false), &b)?.ok();
        }
        Loader::Anim => {
            guarded(Loader::AnimMeta, &b)?.ok();
        }
        _ => {}
    }
    Ok(())
}

/// Count fields replaced by boundary values, singly and in combination.
fn c05_header(s: &mut Src, c: &mut Case) -> Res {
    let o = any_obj(s, true);
    let big = s.bool();
    let mut b = o.bytes(big);
    let head = 1 + b[1..].iter().position(|x| *x == 0).unwrap() + 5;
    let fields = match &o {
        Obj::Skel(_) => 2,
        Obj::Anim(_) => 13,
        Obj::Track(_) => 2,
    };
    let n = 1 + s.below(3);
    let mut what = Vec::new();
    for _ in 0..n {
        let f = s.below(fields);
        let p = head + 4 * f;
        if p + 4 > b.len() {
            continue;
        }
        let v: u32 = match s.draw(6) {
            0 => s.draw(8) as u32,
            1 => u32::MAX - s.draw(9) as u32,
            2 => 1 << s.draw(32),
            3 => (1u32 << s.draw(31)).wrapping_sub(1),
            4 => (s.draw(1 << 32) as u32) >> s.draw(31),
            _ => {
                let old = u32::from_le_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]]);
                let old = if big { old.swap_bytes() } else { old };
                if s.bool() { old.wrapping_add(1) } else { old.wrapping_sub(1) }
            }
        };
        b[p..p + 4].copy_from_slice(&if big { v.to_be_bytes() } else { v.to_le_bytes() });
        what.push((f, v));
    }
    c.nontrivial = !what.is_empty();
    c.describe(|| format!("{} with fields {what:?}", o.brief()));
    let l = loader_of(&o);
    let r = guarded(l, &b)?;
    c.label(if r.is_ok() { "accepted" } else { "rejected" });
    if l == Loader::Skel {
        guarded(Loader::SkelMeta(true), &b)?.ok();
        guarded(Loader::SkelMeta(false), &b)?.ok();
    }
    Ok(())
}

fn c05_resource(s: &mut Src, c: &mut Case) -> Res {
    use std::sync::OnceLock;
    static F: OnceLock<Vec<(String, Vec<u8>)>> = OnceLock::new();
    let fs = F.get_or_init(|| {
        crate::archr::resource_files().into_iter().filter_map(|p| std::fs::read(&p).ok().filter(|b| b.len() < 300_000).map(|b| (p.display().to_string(), b))).collect()
    });
    if fs.is_empty() {
        return Ok(());
    }
    let (n, b) = s.pick(fs);
    let mut b = b.clone();
    let head = 1 + b[1..].iter().position(|x| *x == 0).unwrap_or(0) + 5;
    let from = if s.bool() { head } else { 0 };
    mutate(s, &mut b, from);
    c.nontrivial = true;
    c.describe(|| format!("{n} mutated to {} bytes", b.len()));
    for l in LOADERS {
        guarded(l, &b)?.ok();
    }
    Ok(())
}

fn c05_raw(s: &mut Src, c: &mut Case) -> Res {
    let l = *s.pick(&LOADERS);
    let tag = match l {
        Loader::Skel | Loader::SkelMeta(_) => ("ozz-skeleton", 2u32),
        Loader::Anim | Loader::AnimMeta => ("ozz-animation", 7),
        Loader::F1 => ("ozz-float_track", 1),
        Loader::F2 => ("ozz-float2_track", 1),
        Loader::F3 => ("ozz-float3_track", 1),
        Loader::F4 => ("ozz-float4_track", 1),
        Loader::Q => ("ozz-quat_track", 1),
    };
    let mut w = W::new(s.bool());
    if s.draw(8) < 7 {
        w.cstr(tag.0);
        w.u32(tag.1);
        c.nontrivial = true;
    } else if s.bool() {
        w.buf.clear();
    }
    let n = s.len(160);
    let small = s.bool();
    for _ in 0..n {
        w.buf.push(if small && s.draw(4) != 3 { s.draw(3) as u8 } else { s.draw(256) as u8 });
    }
    c.describe(|| format!("{l:?} from {:02x?}", w.buf));
    let r = guarded(l, &w.buf)?;
    c.label(if r.is_ok() { "accepted" } else { "rejected" });
    Ok(())
}

/// Whatever loads can be queried and sampled without touching memory it does
/// not own (the job may refuse by panicking: asserts guard its indices).
fn c05_use(s: &mut Src, c: &mut Case) -> Res {
    let spec = anim_spec(s, &AnimOpts { max_tracks: 9, max_timepoints: 14, hemisphere: true });
    let mut d = spec.data();
    let n = 1 + s.below(3);
    for _ in 0..n {
        let k = s.below(3);
        let cm = [&mut d.t, &mut d.r, &mut d.s].into_iter().nth(k).unwrap();
        let what = s.draw(6);
        let i = s.below(cm.keys.len());
        match what {
            0 => cm.ratios[i] = s.draw(20) as u16,
            1 => cm.previouses[i] = s.draw(65536) as u16 >> s.draw(16),
            2 if !cm.iframe_entries.is_empty() => {
                let i = s.below(cm.iframe_entries.len());
                cm.iframe_entries[i] = s.draw(256) as u8;
            }
            3 if !cm.iframe_desc.is_empty() => {
                let i = s.below(cm.iframe_desc.len());
                cm.iframe_desc[i] = s.draw(1 << 32) as u32 >> s.draw(32);
            }
            4 => cm.iframe_interval = *s.pick(&[0.0, -1.0, f32::NAN, 1e-30, 0.01, 5.0, f32::INFINITY]),
            _ => d.num_tracks = s.below(20),
        }
    }
    c.nontrivial = true;
    let b = animation_bytes(&d, false);
    c.describe(|| format!("{} with damaged references", spec.brief()));
    let Ok(a) = Animation::from_archive(&mut Archive::from_slice(&b).unwrap()) else { return Ok(()) };
    let rs = [0.0, s.unit(), s.unit(), 1.0, s.unit()];
    let nt = a.num_tracks();
    let fits = a.num_tracks() <= 64;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let mut ctx = SamplingContext::new(nt);
        for r in rs {
            let _ = sample_with(&a, &mut ctx, r, 0);
        }
    }));
    c.label(if r.is_ok() { "sampled" } else { "refused" });
    let _ = fits;
    Ok(())
}

// ------------------------------------------------------------------ C06

use serde::de::DeserializeOwned;
use serde::Serialize;

fn serde_all<T: Serialize + DeserializeOwned>(x: &T, s: &mut Src, c: &mut Case) -> Result<T, String> {
    // the strict serialiser validates announced lengths
    let strict = crate::strict::to_value(x).map_err(|e| format!("serialisation announces wrong lengths: {e}"))?;
    match s.draw(8) {
        5 => {
            c.label("bincode");
            let b = bincode::serialize(x).map_err(|e| format!("bincode::serialize: {e}"))?;
            bincode::deserialize(&b).map_err(|e| format!("bincode::deserialize: {e}"))
        }
        6 => {
            c.label("bincode_reader");
            let b = bincode::serialize(x).map_err(|e| format!("bincode::serialize: {e}"))?;
            bincode::deserialize_from(Drip(&b, 7, 3)).map_err(|e| format!("bincode::deserialize_from: {e}"))
        }
        7 => {
            c.label("cbor");
            let mut b = Vec::new();
            ciborium::into_writer(x, &mut b).map_err(|e| format!("ciborium::into_writer: {e}"))?;
            ciborium::from_reader(&b[..]).map_err(|e| format!("ciborium::from_reader: {e}"))
        }
        0 => {
            c.label("json_str");
            let t = serde_json::to_string(x).map_err(|e| format!("to_string: {e}"))?;
            serde_json::from_str(&t).map_err(|e| format!("from_str: {e}"))
        }
        1 => {
            c.label("json_reader");
            let t = serde_json::to_vec(x).map_err(|e| format!("to_vec: {e}"))?;
            serde_json::from_reader(Drip(&t, 7, 3)).map_err(|e| format!("from_reader: {e}"))
        }
        2 => {
            c.label("json_pretty");
            let t = serde_json::to_string_pretty(x).map_err(|e| format!("to_string_pretty: {e}"))?;
            serde_json::from_slice(t.as_bytes()).map_err(|e| format!("from_slice: {e}"))
        }
        3 => {
            c.label("json_value");
            let t = serde_json::to_value(x).map_err(|e| format!("to_value: {e}"))?;
            serde_json::from_value(t).map_err(|e| format!("from_value: {e}"))
        }
        _ => {
            c.label("strict_value");
            serde_json::from_value(strict).map_err(|e| format!("from the strict value tree: {e}"))
        }
    }
}

macro_rules! rkyv_trip {
    ($t:ty, $x:expr) => {{
        use rkyv::ser::Serializer;
        use rkyv::Deserialize;
        let mut ser = rkyv::ser::serializers::AllocSerializer::<4096>::default();
        ser.serialize_value($x).map_err(|e| format!("rkyv serialisation fails: {e:?}"))?;
        let buf = ser.into_serializer().into_inner();
        let a = unsafe { rkyv::archived_root::<$t>(&buf) };
        let y: $t = a.deserialize(&mut rkyv::Infallible).unwrap();
        y
    }};
}

fn c06_skeleton(s: &mut Src, c: &mut Case) -> Res {
    let n = if s.one_in(400) { 120 + s.below(904) } else { s.len(60) };
    let spec = skel_spec(s, n);
    let k = skel(&spec);
    c.nontrivial = n > 0;
    c.describe(|| format!("skeleton of {n} joints"));
    if s.bool() {
        c.label("rkyv");
        check_skeleton(&rkyv_trip!(Skeleton, &k), &spec)?;
    } else {
        check_skeleton(&serde_all(&k, s, c)?, &spec)?;
    }
    check_skeleton(&k, &spec)
}

fn c06_animation(s: &mut Src, c: &mut Case) -> Res {
    let spec = {
        let max_tracks = if s.one_in(400) { 300 } else { 12 };
        anim_spec(s, &AnimOpts { max_tracks, max_timepoints: 280, hemisphere: true })
    };
    c06_animation_of(s, c, &spec)
}
fn c06_animation_of(s: &mut Src, c: &mut Case, spec: &AnimSpec) -> Res {
    let d = spec.data();
    let a = anim_from(&d);
    c.nontrivial = true;
    c.describe(|| spec.brief());
    let r = if s.bool() {
        c.label("rkyv");
        rkyv_trip!(Animation, &a)
    } else {
        serde_all(&a, s, c)?
    };
    check_animation(&r, &d)?;
    for _ in 0..2 {
        let t = anim_ratio(s, &spec.timepoints);
        let x = sample_new(&a, a.num_tracks(), false, t, 0)?;
        let y = sample_new(&r, a.num_tracks(), false, t, 0)?;
        ensure!(soa_bits(&x) == soa_bits(&y), "restored animation samples differently at {t:?}");
    }
    Ok(())
}

fn c06_track(s: &mut Src, c: &mut Case) -> Res {
    let dim = 1 + s.below(5);
    let max_keys = if s.one_in(100) { 1200 } else { 40 };
    let spec = track_spec(s, dim, &TrackOpts { max_keys, patched: false, range: 1000.0 });
    c06_track_of(s, c, &spec)
}
fn c06_track_of(s: &mut Src, c: &mut Case, spec: &TrackSpec) -> Res {
    let dim = spec.dim;
    c.nontrivial = !spec.ratios.is_empty();
    c.describe(|| format!("track dim={dim} keys={} name={:?}", spec.ratios.len(), spec.name));
    macro_rules! go {
        ($v:ty) => {{
            let t: Track<$v> = load_track(spec);
            if s.bool() {
                c.label("rkyv");
                check_track(&rkyv_trip!(Track<$v>, &t), spec)
            } else {
                check_track(&serde_all(&t, s, c)?, spec)
            }
        }};
    }
    match dim {
        1 => go!(f32),
        2 => go!(Vec2),
        3 => go!(Vec3),
        4 => go!(Vec4),
        _ => go!(Quat),
    }
}

fn same_ctx(a: &SamplingContext, b: &SamplingContext) -> Res {
    ensure!(a == b, "restored context differs: {a:?} vs {b:?}");
    let f = |c: &SamplingContext| (c.size(), c.max_tracks(), c.max_soa_tracks(), c.max_outdated(), c.animation_id(), c.ratio().to_bits(), c.translation_next(), c.rotation_next(), c.scale_next());
    ensure!(f(a) == f(b), "restored context differs: {:?} instead of {:?}", f(b), f(a));
    ensure!(a.translations() == b.translations() && a.rotations() == b.rotations() && a.scales() == b.scales(), "restored context has other key frames");
    ensure!(a.translation_entries() == b.translation_entries() && a.rotation_entries() == b.rotation_entries() && a.scale_entries() == b.scale_entries(), "restored context has other entries");
    ensure!(a.translation_outdated() == b.translation_outdated() && a.rotation_outdated() == b.rotation_outdated() && a.scale_outdated() == b.scale_outdated(), "restored context has other outdated flags");
    Ok(())
}

fn c06_context(s: &mut Src, c: &mut Case) -> Res {
    crate::alloc_guard::set_fill(if s.bool() { 0xFF } else { 0x3C });
    let spec = {
        let max_tracks = if s.one_in(200) { 400 } else { 40 };
        anim_spec(s, &AnimOpts { max_tracks, max_timepoints: 60, hemisphere: true })
    };
    c06_context_of(s, c, &spec)
}
/// More keys than 16 bits can count.
fn c06_huge(s: &mut Src, c: &mut Case) -> Res {
    if s.one_in(4) {
        let dim = 1 + s.below(5);
        let t = huge_track(s, dim);
        return c06_track_of(s, c, &t);
    }
    let spec = huge_spec(s);
    if s.one_in(3) { c06_animation_of(s, c, &spec) } else { c06_context_of(s, c, &spec) }
}
fn c06_context_of(s: &mut Src, c: &mut Case, spec: &AnimSpec) -> Res {
    let a = spec.build();
    let over = if s.bool() { s.below(60) } else { 0 };
    let mut ctx = if s.bool() { SamplingContext::from_animation(&a) } else { SamplingContext::new(a.num_tracks() + over) };
    let n = s.below(4);
    for _ in 0..n {
        let r = anim_ratio(s, &spec.timepoints);
        sample_with(&a, &mut ctx, r, 0)?;
    }
    c.nontrivial = n > 0;
    c.describe(|| format!("{} after {n} samples, capacity {}", spec.brief(), ctx.max_tracks()));
    let mut r = match s.draw(4) {
        0 | 1 => {
            c.label("rkyv");
            if s.bool() {
                rkyv_trip!(SamplingContext, &ctx)
            } else {
                let bytes = rkyv::to_bytes::<_, 4096>(&ctx).map_err(|e| format!("{e:?}"))?;
                let ar = rkyv::check_archived_root::<SamplingContext>(&bytes[..]).map_err(|e| format!("valid archive rejected: {e:?}"))?;
                use rkyv::Deserialize;
                ar.deserialize(&mut rkyv::Infallible).unwrap()
            }
        }
        2 => {
            c.label("clone");
            ctx.clone()
        }
        _ => serde_all(&ctx, s, c)?,
    };
    same_ctx(&ctx, &r)?;
    let w = ctx.clone_without_animation_id();
    ensure!(w.animation_id() == 0 && w.max_tracks() == ctx.max_tracks() && w.translations() == ctx.translations(), "clone_without_animation_id differs");
    for _ in 0..2 {
        let t = anim_ratio(s, &spec.timepoints);
        let x = sample_with(&a, &mut ctx, t, 0)?;
        let y = sample_with(&a, &mut r, t, 0)?;
        ensure!(soa_bits(&x) == soa_bits(&y), "restored context continues differently at {t:?}");
        same_ctx(&ctx, &r)?;
    }
    crate::alloc_guard::set_fill(0xA5);
    Ok(())
}

fn c06_values(s: &mut Src, c: &mut Case) -> Res {
    c.nontrivial = true;
    let n = 1 + s.below(5);
    let p: Vec<Xf> = (0..n * 4)
        .map(|_| {
            let mut x = xform(s);
            if s.bool() {
                for v in x.iter_mut() {
                    *v = s.finite();
                }
            }
            x
        })
        .collect();
    let soa = to_soa(&p, &XF_ID);
    c.describe(|| format!("{n} SoA transforms and values"));
    let r: Vec<SoaTransform> = serde_all(&soa, s, c)?;
    ensure!(soa_bits(&r) == soa_bits(&soa), "SoaTransform round-trip differs");
    let t: Vec<SoaVec3> = soa.iter().map(|x| x.translation).collect();
    ensure!(serde_all(&t, s, c)?.iter().zip(&t).all(|(a, b)| a.x.to_array().map(f32::to_bits) == b.x.to_array().map(f32::to_bits) && a.y.to_array().map(f32::to_bits) == b.y.to_array().map(f32::to_bits) && a.z.to_array().map(f32::to_bits) == b.z.to_array().map(f32::to_bits)), "SoaVec3 round-trip differs");
    let q: Vec<SoaQuat> = soa.iter().map(|x| x.rotation).collect();
    let q2 = serde_all(&q, s, c)?;
    for (a, b) in q.iter().zip(&q2) {
        for (x, y) in [(a.x, b.x), (a.y, b.y), (a.z, b.z), (a.w, b.w)] {
            ensure!(x.to_array().map(f32::to_bits) == y.to_array().map(f32::to_bits), "SoaQuat round-trip differs: {a:?} {b:?}");
        }
    }
    // rkyv
    let r: Vec<SoaTransform> = rkyv_trip!(Vec<SoaTransform>, &soa);
    ensure!(soa_bits(&r) == soa_bits(&soa), "SoaTransform rkyv round-trip differs");
    let r: Vec<SoaVec3> = rkyv_trip!(Vec<SoaVec3>, &t);
    ensure!(r.iter().zip(&t).all(|(a, b)| format!("{a:?}") == format!("{b:?}")), "SoaVec3 rkyv round-trip differs");
    let r: Vec<SoaQuat> = rkyv_trip!(Vec<SoaQuat>, &q);
    ensure!(r.iter().zip(&q).all(|(a, b)| format!("{a:?}") == format!("{b:?}")), "SoaQuat rkyv round-trip differs");
    // edges and keys
    let e: Vec<Edge> = (0..n).map(|_| Edge::new(s.finite(), s.bool())).collect();
    let r = serde_all(&e, s, c)?;
    ensure!(r == e, "Edge round-trip differs: {e:?} {r:?}");
    let r: Vec<Edge> = rkyv_trip!(Vec<Edge>, &e);
    ensure!(r == e, "Edge rkyv round-trip differs: {e:?} {r:?}");
    let f: Vec<Float3Key> = (0..n).map(|_| Float3Key::new([s.draw(65536) as u16, s.draw(65536) as u16, s.draw(65536) as u16])).collect();
    ensure!(serde_all(&f, s, c)? == f && rkyv_trip!(Vec<Float3Key>, &f) == f, "Float3Key round-trip differs");
    let f: Vec<QuaternionKey> = (0..n).map(|_| QuaternionKey::new([s.draw(65536) as u16, s.draw(65536) as u16, s.draw(65536) as u16])).collect();
    ensure!(serde_all(&f, s, c)? == f && rkyv_trip!(Vec<QuaternionKey>, &f) == f, "QuaternionKey round-trip differs");
    let f: Vec<InterpSoaFloat3> = t.chunks(1).map(|x| InterpSoaFloat3 { ratio: [x[0].x, x[0].y], value: [x[0], x[0]] }).collect();
    let r = serde_all(&f, s, c)?;
    ensure!(r.iter().zip(&f).all(|(a, b)| format!("{a:?}") == format!("{b:?}")) && r.len() == f.len(), "InterpSoaFloat3 round-trip differs");
    let f: Vec<InterpSoaQuaternion> = q.chunks(1).map(|x| InterpSoaQuaternion { ratio: [x[0].x, x[0].w], value: [x[0], x[0]] }).collect();
    let r = serde_all(&f, s, c)?;
    ensure!(r.iter().zip(&f).all(|(a, b)| format!("{a:?}") == format!("{b:?}")) && r.len() == f.len(), "InterpSoaQuaternion round-trip differs");
    Ok(())
}
