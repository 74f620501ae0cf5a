//! C01 sampling vs reference, C02 context history, C03 key decoding,
//! C21 layout independence (sampling part).

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refm::*;
use ozz_animation_rs::animation::{Float3Key, QuaternionKey};
use ozz_animation_rs::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C01",
            rule: "an animation is generated key by key (own encoder and archive writer) or taken from /repo/resource, sampled at generated ratios with new contexts and compared with a per-track f64 interpolation; non-trivial: some track has more than two keys and the ratio is strictly inside (0,1)",
            assumptions: &["tolerance 4e-6 relative to the larger surrounding key for lerp, 8e-6/norm for nlerp"],
            facets: &[
                Facet { name: "small", run: c01_small, quick: 600_000, thorough: 30_000_000 },
                Facet { name: "wide", run: c01_wide, quick: 80_000, thorough: 4_000_000 },
                Facet { name: "manykeys", run: c01_manykeys, quick: 2_400, thorough: 120_000 },
                Facet { name: "huge", run: c01_huge, quick: 320, thorough: 16_000 },
                Facet { name: "resource", run: c01_resource, quick: 60_000, thorough: 3_000_000 },
            ],
        },
        Prop {
            id: "C02",
            rule: "a history of samples, animation switches, clears, clones, moves and serialisation round-trips over one or two contexts; after every sample the output must equal, bit for bit, a new context's; non-trivial: at least three samples including a backward move, a switch or a restore",
            assumptions: &["animations stay alive while a context refers to them"],
            facets: &[
                Facet { name: "history", run: c02_history, quick: 400_000, thorough: 20_000_000 },
                Facet { name: "playback", run: c02_playback, quick: 40_000, thorough: 2_000_000 },
                Facet { name: "huge", run: c02_huge, quick: 320, thorough: 16_000 },
                Facet { name: "resource", run: c02_resource, quick: 15_000, thorough: 750_000 },
            ],
        },
        Prop {
            id: "C03",
            rule: "half floats: all 65536 patterns in every component and lane, against exact binary16 values; quaternion keys: enumerated corner fields and random bit patterns, against an f64 decoder; four-wide decode compared with single decode bit for bit; non-trivial: a pattern other than zero",
            assumptions: &["quaternion component tolerance 2e-7 absolute, restored component checked through its square within 1e-6"],
            facets: &[
                Facet { name: "half_exhaustive", run: c03_half, quick: 65_536, thorough: 65_536 },
                Facet { name: "half_mixed", run: c03_half_mixed, quick: 200_000, thorough: 10_000_000 },
                Facet { name: "quat_corners", run: c03_quat_corner, quick: 27_000, thorough: 27_000 },
                Facet { name: "quat_random", run: c03_quat_random, quick: 1_000_000, thorough: 60_000_000 },
                Facet { name: "quat_encoded", run: c03_quat_encoded, quick: 200_000, thorough: 10_000_000 },
            ],
        },
        Prop {
            id: "C21",
            rule: "the same joints placed at permuted or shifted positions (tracks, blending layers, weights) with other joints around them; every joint's result must be bit-identical; non-trivial: more than four joints and a permutation that moves joints between lanes or groups",
            assumptions: &[],
            facets: &[
                Facet { name: "sampling", run: c21_sampling, quick: 375_000, thorough: 18_750_000 },
                Facet { name: "blending", run: crate::p_blend::c21_blending, quick: 750_000, thorough: 37_500_000 },
            ],
        },
    ]
}

pub const SMALL: AnimOpts = AnimOpts { max_tracks: 12, max_timepoints: 400, hemisphere: false };

pub fn clampr(r: f32) -> f64 {
    if r.is_nan() || r >= 1.0 { 1.0 } else if r <= 0.0 { 0.0 } else { r as f64 }
}

/// Reference sample of one track component; `None` when the interpolation is
/// too ill-conditioned to compare.
fn ref_keys(keys: &KeyTrack, tps: &[f32], r: f64) -> (usize, f64) {
    // last key at or before r, but never the final one
    let mut i = 0;
    while i + 2 < keys.len() && tps[keys[i + 1].0 as usize] as f64 <= r {
        i += 1;
    }
    let t0 = tps[keys[i].0 as usize] as f64;
    let t1 = tps[keys[i + 1].0 as usize] as f64;
    (i, (r - t0) / (t1 - t0))
}

pub fn check_sample(spec: &AnimSpec, ratio: f32, out: &[SoaTransform]) -> Res {
    let r = clampr(ratio);
    for tr in 0..spec.num_tracks.div_ceil(4) * 4 {
        let got = soa_get(out, tr);
        for (c, base) in [(0usize, 0usize), (2, 7)] {
            let keys = &spec.comps[c][tr];
            let (i, t) = ref_keys(keys, &spec.timepoints, r);
            for k in 0..3 {
                let a = f16(keys[i].1[k]);
                let b = f16(keys[i + 1].1[k]);
                let want = a + (b - a) * t;
                let tol = a.abs().max(b.abs()) * 4e-6 + 1e-12;
                ensure!(
                    close(got[base + k] as f64, want, tol),
                    "track {tr} component {c}[{k}] at ratio {ratio:?}: got {:?}, keys {a} -> {b} at {t} give {want}",
                    got[base + k]
                );
            }
        }
        let keys = &spec.comps[1][tr];
        let (i, t) = ref_keys(keys, &spec.timepoints, r);
        let (a, _) = quat_decode(keys[i].1);
        let (b, _) = quat_decode(keys[i + 1].1);
        let (want, n) = nlerp(a, b, t);
        if n > 0.01 {
            let tol = 8e-6 / n;
            for k in 0..4 {
                ensure!(
                    close(got[3 + k] as f64, want[k], tol),
                    "track {tr} rotation[{k}] at ratio {ratio:?}: got {:?}, want {:?} (keys {a:?} -> {b:?} at {t})",
                    &got[3..7],
                    want
                );
            }
        }
    }
    Ok(())
}

pub fn sample_new(anim: &Animation, ctx_tracks: usize, from_anim: bool, ratio: f32, extra_out: usize) -> Result<Vec<SoaTransform>, String> {
    let mut ctx = if from_anim { SamplingContext::from_animation(anim) } else { SamplingContext::new(ctx_tracks) };
    sample_with(anim, &mut ctx, ratio, extra_out)
}

pub fn sample_with(anim: &Animation, ctx: &mut SamplingContext, ratio: f32, extra_out: usize) -> Result<Vec<SoaTransform>, String> {
    let n = anim.num_soa_tracks();
    let mut out: Vec<SoaTransform> = (0..n + extra_out).map(|k| soa_sentinel(k as u32)).collect();
    let mut job: SamplingJobRef = SamplingJob::default();
    job.set_animation(anim);
    job.set_context(ctx);
    job.set_output(&mut out);
    job.set_ratio(ratio);
    if !job.validate() {
        return Err("a sampling job with sufficient context and output does not validate".into());
    }
    job.run().map_err(|e| format!("valid sampling job failed: {e:?}"))?;
    drop(job);
    let want: Vec<SoaTransform> = (n..n + extra_out).map(|k| soa_sentinel(k as u32)).collect();
    if soa_bits(&out[n..]) != soa_bits(&want) {
        return Err("output beyond the animation's joints was modified".into());
    }
    Ok(out)
}

fn odd_ratio(s: &mut Src, tps: &[f32]) -> f32 {
    match s.draw(20) {
        0 => -s.unit(),
        1 => 1.0 + s.unit(),
        2 => *s.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, -0.0, 1e-45, f32::MAX, f32::MIN]),
        _ => anim_ratio(s, tps),
    }
}

fn c01_body(s: &mut Src, c: &mut Case, spec: &AnimSpec, samples: usize) -> Res {
    let anim = spec.build();
    c.describe(|| spec.brief());
    if spec.timepoints.len() > 255 { c.label("u16_time_index"); }
    if spec.iframes.iter().any(|n| *n > 0) { c.label("iframes"); }
    if spec.num_tracks % 4 != 0 { c.label("padded"); }
    for _ in 0..samples {
        let r = odd_ratio(s, &spec.timepoints);
        let from_anim = s.bool();
        let ctx = spec.num_tracks + if s.one_in(4) { s.below(40) } else { 0 };
        let extra = if s.one_in(3) { s.below(3) } else { 0 };
        if spec.max_keys() > 2 && r > 0.0 && r < 1.0 { c.nontrivial = true; }
        c.describe(|| format!("ratio {r:?} ctx {ctx}"));
        let out = sample_new(&anim, ctx, from_anim, r, extra)?;
        check_sample(spec, r, &out)?;
    }
    Ok(())
}

fn c01_small(s: &mut Src, c: &mut Case) -> Res {
    let spec = anim_spec(s, &SMALL);
    c01_body(s, c, &spec, 4)
}
fn c01_wide(s: &mut Src, c: &mut Case) -> Res {
    let n = match s.draw(4) { 0 => 28 + s.below(10), 1 => 60 + s.below(10), 2 => 120 + s.below(20), _ => 1 + s.below(300) };
    let ntp = 2 + s.below(30);
    let tps = timepoints(s, ntp);
    let spec = anim_spec_with(s, n, tps, true);
    c01_body(s, c, &spec, 3)
}
fn c01_manykeys(s: &mut Src, c: &mut Case) -> Res {
    let ntp = 200 + s.below(4000);
    let tps = timepoints(s, ntp);
    let n = 1 + s.below(12);
    let spec = anim_spec_with(s, n, tps, true);
    c01_body(s, c, &spec, 6)
}
fn c01_huge(s: &mut Src, c: &mut Case) -> Res {
    let spec = huge_spec(s);
    c01_body(s, c, &spec, 6)
}

/// Rebuilds per-track keys from raw animation data.
pub fn spec_from_data(d: &AnimData) -> AnimSpec {
    let padded = d.num_tracks.div_ceil(4) * 4;
    let mut comps: [Vec<KeyTrack>; 3] = Default::default();
    for (k, c) in [&d.t, &d.r, &d.s].into_iter().enumerate() {
        let mut owner = vec![0usize; c.keys.len()];
        comps[k] = vec![Vec::new(); padded];
        for i in 0..c.keys.len() {
            owner[i] = if i < padded { i } else { owner[i - c.previouses[i] as usize] };
            comps[k][owner[i]].push((c.ratios[i], c.keys[i]));
        }
    }
    AnimSpec { duration: d.duration, name: d.name.clone(), num_tracks: d.num_tracks, timepoints: d.timepoints.clone(), comps, iframes: [d.t.iframe_desc.len() / 2, d.r.iframe_desc.len() / 2, d.s.iframe_desc.len() / 2] }
}

pub struct Resources {
    pub anims: Vec<(String, Animation, AnimSpec)>,
}
pub fn resources() -> &'static Resources {
    use std::sync::OnceLock;
    static R: OnceLock<Resources> = OnceLock::new();
    R.get_or_init(|| {
        let mut v = Vec::new();
        for p in crate::archr::resource_files() {
            let b = std::fs::read(&p).unwrap();
            if let Some(d) = crate::archr::parse_animation(&b) {
                let a = Animation::from_archive(&mut Archive::from_slice(&b).unwrap()).expect("resource animation must load");
                v.push((p.display().to_string(), a, spec_from_data(&d)));
            }
        }
        Resources { anims: v }
    })
}

fn c01_resource(s: &mut Src, c: &mut Case) -> Res {
    let res = resources();
    if res.anims.is_empty() { return Ok(()); }
    let (name, anim, spec) = s.pick(&res.anims);
    let r = odd_ratio(s, &spec.timepoints);
    c.nontrivial = r > 0.0 && r < 1.0;
    let ctx = spec.num_tracks + s.below(20);
    c.describe(|| format!("{name} {} ratio {r:?}", spec.brief()));
    let from_anim = s.bool();
    let out = sample_new(anim, ctx, from_anim, r, 1)?;
    check_sample(spec, r, &out)
}

// ------------------------------------------------------------------ C02

fn rkyv_ctx(ctx: &SamplingContext) -> SamplingContext {
    use rkyv::ser::Serializer;
    use rkyv::Deserialize;
    let mut ser = rkyv::ser::serializers::AllocSerializer::<30720>::default();
    ser.serialize_value(ctx).unwrap();
    let buf = ser.into_serializer().into_inner();
    let a = unsafe { rkyv::archived_root::<SamplingContext>(&buf) };
    a.deserialize(&mut rkyv::Infallible).unwrap()
}
fn serde_ctx(ctx: &SamplingContext) -> Result<SamplingContext, String> {
    let j = serde_json::to_string(ctx).map_err(|e| format!("context does not serialise: {e}"))?;
    serde_json::from_str(&j).map_err(|e| format!("context does not deserialise: {e}"))
}

fn compare(anim: &Animation, i: usize, r: f32, out: &[SoaTransform]) -> Res {
    let fresh = sample_new(anim, anim.num_tracks(), false, r, 0)?;
    let a = soa_bits(&out[..fresh.len()]);
    let b = soa_bits(&fresh);
    if a != b {
        let j = (0..a.len()).find(|j| a[*j] != b[*j]).unwrap();
        return Err(format!("animation {i} at ratio {r:?}: joint {j} differs from a new context's sample: {:?} vs {:?}", soa_get(out, j), soa_get(&fresh, j)));
    }
    Ok(())
}

fn c02_ops(s: &mut Src, c: &mut Case, anims: &[(&Animation, &AnimSpec)], max_ops: usize) -> Res {
    crate::alloc_guard::set_fill(if s.bool() { 0xA5 } else { 0xFF });
    let need = anims.iter().map(|a| a.0.num_tracks()).max().unwrap();
    let over = if s.bool() { 0 } else { s.below(70) };
    let mut ctxs = vec![SamplingContext::new(need + over)];
    if s.bool() { ctxs.push(SamplingContext::from_animation(anims[0].0)); }
    let caps: Vec<usize> = ctxs.iter().map(|c| c.max_soa_tracks()).collect();
    let mut last: Option<(usize, f32)> = None;
    let mut samples = 0;
    let mut interesting = false;
    let n = 3 + s.len(max_ops);
    for _ in 0..n {
        let k = s.below(ctxs.len());
        let op = s.weighted(&[12, 1, 1, 1, 1, 1, 1]);
        match op {
            0 => {
                let mut i = if last.is_some() && s.draw(4) != 3 { last.unwrap().0 } else { s.below(anims.len()) };
                if anims[i].0.num_soa_tracks() > caps[k] { i = 0; }
                if anims[i].0.num_soa_tracks() > caps[k] { continue; }
                let tps = &anims[i].1.timepoints;
                let r = match (last, s.draw(6)) {
                    (Some((_, p)), 0) => (p + s.unit() * 0.05).min(1.0),
                    (Some((_, p)), 1) => (p - s.unit() * 0.05).max(0.0),
                    (Some((_, p)), 2) => p,
                    _ => anim_ratio(s, tps),
                };
                if let Some((pi, pr)) = last {
                    if pi != i { interesting = true; c.label("switch"); }
                    if pi == i && r < pr { interesting = true; c.label("backward"); }
                    if pi == i && (r - pr).abs() > 0.5 { c.label("long_jump"); }
                }
                let extra = s.below(2);
                c.describe(|| format!("sample ctx{k} anim{i} {r:?}"));
                let out = sample_with(anims[i].0, &mut ctxs[k], r, extra)?;
                compare(anims[i].0, i, r, &out)?;
                samples += 1;
                last = Some((i, r));
            }
            1 => {
                c.describe(|| format!("clear ctx{k}"));
                ctxs[k].clear();
            }
            2 => {
                c.describe(|| format!("clone ctx{k}"));
                let n = ctxs[k].clone();
                if crate::alloc_guard_same(&n, &ctxs[k]) { return Err("clone aliases the original context".into()); }
                ctxs[k] = n;
                interesting = true;
            }
            3 => {
                c.describe(|| format!("clone without id ctx{k}"));
                let n = ctxs[k].clone_without_animation_id();
                ctxs[k] = n;
            }
            4 => {
                c.describe(|| format!("rkyv ctx{k}"));
                let n = rkyv_ctx(&ctxs[k]);
                ctxs[k] = n;
                interesting = true;
                c.label("restore");
            }
            5 => {
                c.describe(|| format!("serde ctx{k}"));
                let n = serde_ctx(&ctxs[k])?;
                ctxs[k] = n;
                interesting = true;
                c.label("restore");
            }
            _ => {
                // move the context through a job and take it back
                c.describe(|| format!("move ctx{k}"));
                let ctx = std::mem::replace(&mut ctxs[k], SamplingContext::new(1));
                let mut job: SamplingJob<&Animation, Vec<SoaTransform>, SamplingContext> = SamplingJob::default();
                job.set_context(ctx);
                ctxs[k] = job.take_context().ok_or("context lost")?;
            }
        }
        ensure!(ctxs[k].max_soa_tracks() == caps[k], "context capacity changed from {} to {}", caps[k], ctxs[k].max_soa_tracks());
    }
    if samples >= 3 && interesting { c.nontrivial = true; }
    crate::alloc_guard::set_fill(0xA5);
    Ok(())
}

fn c02_history(s: &mut Src, c: &mut Case) -> Res {
    let k = 1 + s.below(3);
    let specs: Vec<AnimSpec> = (0..k).map(|_| anim_spec(s, &AnimOpts { max_tracks: 44, max_timepoints: 300, hemisphere: true })).collect();
    let anims: Vec<Animation> = specs.iter().map(|x| x.build()).collect();
    for x in &specs { c.describe(|| x.brief()); }
    let refs: Vec<(&Animation, &AnimSpec)> = anims.iter().zip(specs.iter()).collect();
    c02_ops(s, c, &refs, 24)
}
/// Monotone or ping-pong playback in small steps with occasional seeks.
fn c02_playback(s: &mut Src, c: &mut Case) -> Res {
    let ntp = 2 + s.below(80);
    let tps = timepoints(s, ntp);
    let n = if s.one_in(150) { 100 + s.below(925) } else { 1 + s.len(70) };
    let spec = anim_spec_with(s, n, tps, true);
    let anim = spec.build();
    c.describe(|| spec.brief());
    let mut ctx = SamplingContext::new(n + s.below(9));
    let mut r = s.unit();
    let mut dir = 1.0f32;
    let step = [0.003, 0.02, 0.1, 0.31][s.below(4)];
    let n = 10 + s.below(60);
    for _ in 0..n {
        match s.draw(12) {
            0 => dir = -dir,
            1 => r = anim_ratio(s, &spec.timepoints),
            _ => r += dir * step * s.unit(),
        }
        if r > 1.0 { r -= 1.0; }
        if r < 0.0 { r += 1.0; }
        let out = sample_with(&anim, &mut ctx, r, 0)?;
        compare(&anim, 0, r, &out)?;
    }
    c.describe(|| format!("{n} steps of up to {step}, ends at {r:?}"));
    c.nontrivial = true;
    Ok(())
}
fn c02_huge(s: &mut Src, c: &mut Case) -> Res {
    let spec = huge_spec(s);
    let anim = spec.build();
    c.describe(|| spec.brief());
    c02_ops(s, c, &[(&anim, &spec)], 24)
}
fn c02_resource(s: &mut Src, c: &mut Case) -> Res {
    let res = resources();
    if res.anims.is_empty() { return Ok(()); }
    let k = 1 + s.below(3);
    let refs: Vec<(&Animation, &AnimSpec)> = (0..k).map(|_| { let x = s.pick(&res.anims); (&x.1, &x.2) }).collect();
    for x in &refs { c.describe(|| x.1.brief()); }
    c02_ops(s, c, &refs, 30)
}

// ------------------------------------------------------------------ C03

fn check_half(got: f32, h: u16, what: &str) -> Res {
    let want = f16(h);
    if want.is_nan() {
        ensure!(got.is_nan(), "{what}: half {h:#06x} is NaN but decodes to {got:?}");
    } else {
        ensure!((want as f32).to_bits() == got.to_bits(), "{what}: half {h:#06x} is {want:?} but decodes to {got:?}");
    }
    Ok(())
}
fn check_f3(keys: [[u16; 3]; 4]) -> Res {
    let k: Vec<Float3Key> = keys.iter().map(|x| Float3Key::new(*x)).collect();
    let mut soa = SoaVec3::default();
    Float3Key::simd_decompress(&k[0], &k[1], &k[2], &k[3], &mut soa);
    for l in 0..4 {
        let v = k[l].decompress();
        for (c, (one, four)) in [(v.x, soa.x[l]), (v.y, soa.y[l]), (v.z, soa.z[l])].into_iter().enumerate() {
            check_half(one, keys[l][c], "single decode")?;
            check_half(four, keys[l][c], "four-wide decode")?;
        }
    }
    Ok(())
}
fn c03_half(s: &mut Src, c: &mut Case) -> Res {
    let i = s.index;
    s.draw(1);
    let h = (i & 0xffff) as u16;
    c.nontrivial = true;
    c.describe(|| format!("half {h:#06x} in every component and lane"));
    // vary neighbours deterministically so cross-lane mixing is visible
    for lane in 0..4 {
        for comp in 0..3 {
            let mut keys = [[0u16; 3]; 4];
            for (a, k) in keys.iter_mut().enumerate() {
                for (b, v) in k.iter_mut().enumerate() {
                    *v = (h ^ (0x1234u16.wrapping_mul((a * 3 + b + 1) as u16))) & 0x7fff;
                }
            }
            keys[lane][comp] = h;
            check_f3(keys)?;
        }
    }
    Ok(())
}
fn c03_half_mixed(s: &mut Src, c: &mut Case) -> Res {
    let mut keys = [[0u16; 3]; 4];
    for k in keys.iter_mut() {
        for v in k.iter_mut() {
            *v = if s.bool() { half(s) } else { s.draw(65536) as u16 };
        }
    }
    c.nontrivial = keys.iter().flatten().any(|v| *v != 0);
    c.describe(|| format!("{keys:04x?}"));
    check_f3(keys)
}

fn check_quat(keys: [[u16; 3]; 4]) -> Res {
    let k: Vec<QuaternionKey> = keys.iter().map(|x| QuaternionKey::new(*x)).collect();
    let mut soa = SoaQuat::default();
    QuaternionKey::simd_decompress(&k[0], &k[1], &k[2], &k[3], &mut soa);
    for l in 0..4 {
        let one = k[l].decompress();
        let four = [soa.x[l], soa.y[l], soa.z[l], soa.w[l]];
        let one = [one.x, one.y, one.z, one.w];
        ensure!(
            one.map(f32::to_bits) == four.map(f32::to_bits),
            "key {:04x?} lane {l}: single decode {one:?}, four-wide decode {four:?}",
            keys[l]
        );
        let (want, rest) = quat_decode(keys[l]);
        let (largest, sign, _) = quat_fields(keys[l]);
        for i in 0..4 {
            if i == largest {
                let w = one[i] as f64;
                ensure!((w * w - rest.max(0.0)).abs() <= 1e-6, "key {:04x?}: restored component {} is {w}, its square should be {rest}", keys[l], i);
                ensure!(w == 0.0 || (w < 0.0) == sign, "key {:04x?}: restored component {} = {w} has the wrong sign", keys[l], i);
            } else {
                ensure!((one[i] as f64 - want[i]).abs() <= 2e-7, "key {:04x?}: component {i} decodes to {}, encodes {}", keys[l], one[i], want[i]);
            }
        }
    }
    Ok(())
}
fn c03_quat_corner(s: &mut Src, c: &mut Case) -> Res {
    let i = s.index;
    s.draw(1);
    const V: [u32; 15] = [0, 1, 2, 7, 8, 4095, 8191, 8192, 16383, 16384, 16385, 24576, 32765, 32766, 32767];
    let mut x = i as usize;
    let mut f = || { let r = V[x % 15]; x /= 15; r };
    let v = [f(), f(), f()];
    let ls = x % 8;
    let mut keys = [[0u16; 3]; 4];
    // all four largest-component choices share one call, rotated through lanes
    for l in 0..4 {
        keys[l] = quat_pack((l + ls) % 4, (ls >> 2) & 1 == 1, v);
    }
    c.nontrivial = true;
    c.describe(|| format!("fields {v:?} sign {} rotated {}", ls >> 2, ls % 4));
    check_quat(keys)
}
fn c03_quat_random(s: &mut Src, c: &mut Case) -> Res {
    let mut keys = [[0u16; 3]; 4];
    for k in keys.iter_mut() {
        let x = s.draw(1 << 48);
        *k = [x as u16, (x >> 16) as u16, (x >> 32) as u16];
    }
    c.nontrivial = true;
    c.describe(|| format!("{keys:04x?}"));
    check_quat(keys)
}
/// Keys an encoder produces: the decoded quaternion must be the encoded one.
fn c03_quat_encoded(s: &mut Src, c: &mut Case) -> Res {
    let mut qs = [[0.0; 4]; 4];
    for q in qs.iter_mut() { *q = unit_quat(s); }
    let keys = qs.map(quat_encode);
    c.nontrivial = true;
    c.describe(|| format!("{qs:?}"));
    check_quat(keys)?;
    for l in 0..4 {
        let d = QuaternionKey::new(keys[l]).decompress();
        let d = q4(d);
        ensure!((qlen(d) - 1.0).abs() < 1e-6, "decoded quaternion {d:?} is not unit");
        for i in 0..4 {
            ensure!((d[i] - qs[l][i]).abs() < 1.5e-4, "quaternion {:?} decodes to {d:?}", qs[l]);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C21

fn permutation(s: &mut Src, n: usize) -> Vec<usize> {
    let mut p: Vec<usize> = (0..n).collect();
    for i in 0..n.saturating_sub(1) {
        let j = i + s.below(n - i);
        p.swap(i, j);
    }
    p
}

fn c21_sampling(s: &mut Src, c: &mut Case) -> Res {
    let n = if s.one_in(150) { 100 + s.below(925) } else { 2 + s.len(80) };
    let ntp = 2 + s.below(24);
    let tps = timepoints(s, ntp);
    let a = anim_spec_with(s, n, tps, true);
    // `b`: permuted tracks of `a`, with foreign tracks in front, between and behind
    let extra = s.below(6);
    let tps = a.timepoints.clone();
    let mut f = anim_spec_with(s, extra.max(1), tps, true);
    if s.draw(4) == 0 {
        c.label("any bits in the foreign keys");
        let mut r = Rng::new(s.draw(1 << 32));
        for k in f.comps.iter_mut().flatten().flatten() {
            // infinities and NaNs among them
            k.1 = std::array::from_fn(|_| if r.next() % 3 == 0 { 0x7C00 | r.next() as u16 } else { r.next() as u16 });
        }
    }
    let m = n + extra;
    let p = permutation(s, m);
    let mut b = a.clone();
    b.num_tracks = m;
    for k in 0..3 {
        b.comps[k] = (0..m).map(|i| if p[i] < n { a.comps[k][p[i]].clone() } else { f.comps[k][p[i] - n].clone() }).collect();
        let pad = match k { 0 => [0, 0, 0], 1 => quat_encode([0.0, 0.0, 0.0, 1.0]), _ => [ONE_H; 3] };
        while b.comps[k].len() % 4 != 0 {
            b.comps[k].push(vec![(0, pad), (b.timepoints.len() as u16 - 1, pad)]);
        }
        b.iframes[k] = s.below(5);
    }
    let (aa, ba) = (a.build(), b.build());
    let mut ca = SamplingContext::new(n);
    let mut cb = SamplingContext::new(m);
    c.describe(|| format!("{}; {} foreign tracks; permutation {p:?}", a.brief(), extra));
    for _ in 0..3 {
        let r = anim_ratio(s, &a.timepoints);
        let x = sample_with(&aa, &mut ca, r, 0)?;
        let y = sample_with(&ba, &mut cb, r, 0)?;
        for i in 0..m {
            if p[i] < n {
                let (u, v) = (soa_get(&x, p[i]), soa_get(&y, i));
                ensure!(bits(&u) == bits(&v), "ratio {r:?}: track {} moved to position {i} samples {v:?} instead of {u:?}", p[i]);
            }
        }
    }
    c.nontrivial = n > 4;
    Ok(())
}
