//! C14 track sampling, C15 track triggering.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::p_archive::{load_track, Flat};
use crate::p_blend::qdiff;
use crate::refm::*;
use glam::{Quat, Vec2, Vec3, Vec4};
use ozz_animation_rs::*;

// ------------------------------------------------------------------ C14

fn ratio_at(s: &mut Src, rs: &[f32]) -> f32 {
    if rs.is_empty() {
        return s.ratio();
    }
    match s.draw(12) {
        0 => 0.0,
        1 => 1.0,
        2 => -0.0,
        3 => -s.unit() * 3.0 - 1e-7,
        4 => 1.0 + s.unit() * 3.0,
        5 => *s.pick(&[f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, -1e-45, 0.99999994, 1.0000001]),
        6 | 7 => *s.pick(rs),
        8 => {
            let t = *s.pick(rs);
            if s.bool() { f32::from_bits(t.to_bits() + 1) } else if t > 0.0 { f32::from_bits(t.to_bits() - 1) } else { -1e-45 }
        }
        9 if rs.len() > 1 => {
            let i = s.below(rs.len() - 1);
            rs[i] + (rs[i + 1] - rs[i]) * s.unit()
        }
        10 => near(s, rs),
        _ => s.unit(),
    }
}

/// Where a ratio falls: one key, or between two keys.
enum At {
    Key(usize),
    Between(usize, f64),
}
fn locate(t: &TrackSpec, r: f32) -> At {
    let n = t.ratios.len();
    let r = r.clamp(0.0, 1.0);
    let mut k = 0;
    let mut any = false;
    for i in 0..n {
        if t.ratios[i] <= r {
            k = i;
            any = true;
        }
    }
    if !any || k == n - 1 || t.steps[k] || t.ratios[k] == r {
        return At::Key(k);
    }
    let (a, b) = (t.ratios[k] as f64, t.ratios[k + 1] as f64);
    At::Between(k, (r as f64 - a) / (b - a))
}

fn sample_check<V: Flat>(t: &TrackSpec, s: &mut Src, c: &mut Case) -> Res {
    let track: Track<V> = load_track(t);
    let w = t.width();
    let mut job: TrackSamplingJobRef<V> = TrackSamplingJob::default();
    job.set_track(&track);
    for _ in 0..1 + s.below(12) {
        let r = ratio_at(s, &t.ratios);
        job.set_ratio(r);
        job.run().map_err(|e| format!("valid track sampling job failed: {e:?}"))?;
        let got = job.result().flat();
        let what = |m: &str| if t.ratios.len() > 5000 {
            format!("dim {} with {} keys: sampled at {r:?} gives {:?}, {m}", t.dim, t.ratios.len(), &got[..w])
        } else { format!("dim {} ratios {:?} steps {:?} values {:?}: sampled at {r:?} gives {:?}, {m}", t.dim, t.ratios, t.steps, t.values, &got[..w]) };
        ensure!(job.ratio() == r, "run() changed the ratio {r} to {}", job.ratio());
        if t.ratios.is_empty() {
            let id = if t.dim == 5 { [0.0, 0.0, 0.0, 1.0] } else { [0.0; 4] };
            ensure!(got[..w] == id[..w], "{}", what("an empty track gives the identity"));
            continue;
        }
        match locate(t, r) {
            At::Key(k) => {
                let v = t.values[k];
                if t.dim == 5 {
                    let d = qdiff(got.map(|x| x as f64), v.map(|x| x as f64));
                    ensure!(d < 1e-6, "{}", what(&format!("want key {k}: {v:?}")));
                } else {
                    ensure!((0..w).all(|i| got[i] == v[i]), "{}", what(&format!("want key {k}: {:?}", &v[..w])));
                }
            }
            At::Between(k, a) => {
                c.nontrivial = true;
                let (v0, v1) = (t.values[k].map(|x| x as f64), t.values[k + 1].map(|x| x as f64));
                if t.dim == 5 {
                    let d = qdot(v0, v1);
                    if d < 0.0 {
                        c.label("keys in opposite hemispheres");
                    }
                    let (x, _) = nlerp(v0, if d < 0.0 { qscale(v1, -1.0) } else { v1 }, a);
                    let (y, _) = nlerp(v0, if d < 0.0 { v1 } else { qscale(v1, -1.0) }, a);
                    let g = got.map(|x| x as f64);
                    ensure!((qlen(g) - 1.0).abs() < 1e-5, "{}", what("not a unit quaternion"));
                    let e = |x: Q| (0..4).map(|i| (g[i] - x[i]).abs()).fold(0.0, f64::max);
                    // orthogonal rotations have two equally short ways
                    ensure!(e(x) < 4e-6 || (d.abs() < 1e-6 && e(y) < 4e-6), "{}", what(&format!("want {x:?}")));
                } else {
                    for i in 0..w {
                        let want = v0[i] + (v1[i] - v0[i]) * a;
                        let tol = (v0[i].abs() + v1[i].abs()) * 1e-6 + 1e-37;
                        ensure!((got[i] as f64 - want).abs() <= tol, "{}", what(&format!("want component {i} = {want}")));
                    }
                }
            }
        }
    }
    Ok(())
}

fn c14_sample(s: &mut Src, c: &mut Case) -> Res {
    let dim = 1 + s.below(5);
    let o = TrackOpts { max_keys: *s.pick(&[3, 10, 40, 600]), patched: s.draw(3) != 2, range: *s.pick(&[10.0, 1.0, 1e6, 1e-6]) };
    let t = track_spec(s, dim, &o);
    c.describe(|| format!("{t:?}"));
    if t.ratios.len() > 255 {
        c.label("more than 255 keys");
    }
    if t.ratios.first().is_some_and(|r| *r > 0.0) {
        c.label("first key after 0");
    }
    match dim {
        1 => sample_check::<f32>(&t, s, c),
        2 => sample_check::<Vec2>(&t, s, c),
        3 => sample_check::<Vec3>(&t, s, c),
        4 => sample_check::<Vec4>(&t, s, c),
        _ => sample_check::<Quat>(&t, s, c),
    }
}

/// More keys than 16 bits can count.
fn c14_huge(s: &mut Src, c: &mut Case) -> Res {
    let dim = 1 + s.below(5);
    let t = huge_track(s, dim);
    c.describe(|| format!("dim {dim} with {} keys", t.ratios.len()));
    match dim {
        1 => sample_check::<f32>(&t, s, c),
        2 => sample_check::<Vec2>(&t, s, c),
        3 => sample_check::<Vec3>(&t, s, c),
        4 => sample_check::<Vec4>(&t, s, c),
        _ => sample_check::<Quat>(&t, s, c),
    }
}

/// Components are independent, and sampling commutes with scaling by powers of two.
fn c14_relations(s: &mut Src, c: &mut Case) -> Res {
    let o = TrackOpts { max_keys: 30, patched: s.bool(), range: 10.0 };
    let t = track_spec(s, 4, &o);
    c.describe(|| format!("{t:?}"));
    c.nontrivial = t.ratios.len() > 1;
    let t4: Track<Vec4> = load_track(&t);
    let k = *s.pick(&[2.0f32, 0.5, -1.0, 8.0]);
    let mut m = t.clone();
    for v in m.values.iter_mut() {
        for x in v.iter_mut() { *x *= k; }
    }
    let tm: Track<Vec4> = load_track(&m);
    // any one component on its own
    let comp = s.below(4);
    let one = TrackSpec { dim: 1, values: t.values.iter().map(|v| [v[comp], 0.0, 0.0, 0.0]).collect(), ..t.clone() };
    let t1: Track<f32> = load_track(&one);
    for _ in 0..8 {
        let r = ratio_at(s, &t.ratios);
        fn run<V: Flat>(t: &Track<V>, r: f32) -> Result<[f32; 4], String> {
            let mut j: TrackSamplingJobRef<V> = TrackSamplingJob::default();
            j.set_track(t);
            j.set_ratio(r);
            j.run().map_err(|e| format!("{e:?}"))?;
            Ok(j.result().flat())
        }
        let (a, b, d) = (run(&t4, r)?, run(&tm, r)?, run(&t1, r)?);
        for i in 0..4 {
            let w = a[i] * k;
            ensure!((b[i] - w).abs() <= 1e-37, "values scaled by {k}: component {i} at {r} is {} instead of {w}", b[i]);
        }
        let tol = 1e-5;
        ensure!((a[comp] - d[0]).abs() <= tol, "component {comp} on its own gives {} at {r}, in the vector {}", d[0], a[comp]);
    }
    Ok(())
}

// ------------------------------------------------------------------ C15

type E = (f32, bool);

pub fn edge(e: &Edge) -> E {
    let v = serde_json::to_value(e).unwrap();
    (v["ratio"].as_f64().unwrap() as f32, v["rising"].as_bool().unwrap())
}
fn edges(track: &Track<f32>, from: f32, to: f32, thr: f32, limit: usize) -> Result<Vec<E>, String> {
    let mut j: TrackTriggeringJobRef = TrackTriggeringJob::default();
    j.set_track(track);
    j.set_from(from);
    j.set_to(to);
    j.set_threshold(thr);
    let mut it = j.run().map_err(|e| format!("valid triggering job failed: {e:?}"))?;
    let mut out = Vec::new();
    while let Some(e) = it.next() {
        out.push(edge(&e));
        ensure!(out.len() <= limit, "more than {limit} edges from {from} to {to}: {:?}...", &out[..8.min(out.len())]);
    }
    for _ in 0..3 {
        ensure!(it.next().is_none(), "an edge after the end of the iteration");
    }
    Ok(out)
}

/// The edges of one loop in time order, from the definition: a crossing inside
/// a linear span, a jump at the key that ends a step span, a jump at the seam.
fn loop_edges(t: &TrackSpec, thr: f32) -> Vec<(f64, f64, bool)> {
    let n = t.ratios.len();
    let mut out = Vec::new();
    for i in 0..n {
        let p = if i == 0 { n - 1 } else { i - 1 };
        let (a, b) = (t.values[p][0], t.values[i][0]);
        if (a > thr) == (b > thr) {
            continue;
        }
        let (at, tol) = if i == 0 {
            (0.0, 0.0)
        } else if t.steps[p] {
            (t.ratios[i] as f64, 0.0)
        } else {
            let (r0, r1) = (t.ratios[p] as f64, t.ratios[i] as f64);
            (r0 + (r1 - r0) * ((thr as f64 - a as f64) / (b as f64 - a as f64)), 4e-7 * (r1 - r0) + 1.2e-7)
        };
        out.push((at, tol, b > thr));
    }
    out
}

pub fn trig_track(s: &mut Src) -> (TrackSpec, f32) {
    let o = TrackOpts { max_keys: *s.pick(&[4, 9, 30, 300]), patched: !s.one_in(6), range: *s.pick(&[2.0, 10.0, 1e5]) };
    let mut t = track_spec(s, 1, &o);
    match s.draw(4) {
        // square waves and plateaus
        0 => for v in t.values.iter_mut() { v[0] = s.irange(0, 2) as f32; },
        1 => for i in 1..t.values.len() { if s.bool() { t.values[i] = t.values[i - 1]; } },
        _ => {}
    }
    let thr = if t.values.is_empty() { s.real(2.0) } else {
        match s.draw(4) {
            0 => s.pick(&t.values)[0],
            1 => { let (a, b) = (s.pick(&t.values)[0], s.pick(&t.values)[0]); a + (b - a) * s.unit() }
            2 => { let v = s.pick(&t.values)[0]; if v == 0.0 { 1e-45 } else { f32::from_bits(v.to_bits() + 1) } }
            _ => s.real(3.0),
        }
    };
    (t, thr)
}
fn min_gap(t: &TrackSpec) -> f32 {
    t.ratios.windows(2).map(|w| w[1] - w[0]).fold(1.0, f32::min)
}
/// Whether times around `x` resolve the keys of the track.
fn resolves(t: &TrackSpec, x: f32) -> bool {
    min_gap(t) > 8.0 * f32::EPSILON * x.abs().max(1.0)
}

/// More keys than 16 bits can count.
fn c15_huge(s: &mut Src, c: &mut Case) -> Res {
    let t = huge_track(s, 1);
    let thr = if s.bool() { s.real(1.0) } else { s.pick(&t.values)[0] };
    c.describe(|| format!("{} keys, threshold {thr:?}", t.ratios.len()));
    c15_loop_of(s, c, &t, thr)?;
    // backwards the same edges, in reverse
    let track: Track<f32> = load_track(&t);
    let n = t.ratios.len();
    let f = edges(&track, 0.0, 1.0, thr, n + 8)?;
    let mut b = edges(&track, 1.0, 0.0, thr, n + 8)?;
    b.reverse();
    ensure!(f.len() == b.len(), "{n} keys: {} edges forward, {} backward (threshold {thr})", f.len(), b.len());
    for (x, y) in f.iter().zip(&b) {
        ensure!(x.0 == y.0 && x.1 != y.1, "{n} keys: edge {x:?} forward is {y:?} backward (threshold {thr})");
    }
    Ok(())
}

fn c15_loop(s: &mut Src, c: &mut Case) -> Res {
    let (t, thr) = trig_track(s);
    c.describe(|| format!("{t:?} threshold {thr:?}"));
    c15_loop_of(s, c, &t, thr)
}
fn c15_loop_of(s: &mut Src, c: &mut Case, t: &TrackSpec, thr: f32) -> Res {
    let track: Track<f32> = load_track(t);
    let n = t.ratios.len();
    let want = loop_edges(t, thr);
    c.nontrivial = want.len() > 1;
    let got = edges(&track, 0.0, 1.0, thr, n + 8)?;
    // keys that leave out the start: the seam may count as a jump at the first key
    let first = t.ratios.first().map_or(0.0, |r| *r as f64);
    let seam = first_is_seam(t, thr);
    let show = || if n > 5000 { format!("{n} keys, {} edges, want {}, threshold {thr}", got.len(), want.len()) } else { format!("edges {got:?}, want {want:?}; ratios {:?} values {:?} steps {:?} threshold {thr}", t.ratios, t.values.iter().map(|v| v[0]).collect::<Vec<_>>(), t.steps) };
    ensure!(got.len() == want.len(), "{} edges in one loop instead of {}: {}", got.len(), want.len(), show());
    for (k, (g, w)) in got.iter().zip(&want).enumerate() {
        ensure!(g.1 == w.2, "edge {k} has the wrong direction: {}", show());
        ensure!((g.0 as f64 - w.0).abs() <= w.1 || (k == 0 && seam && g.0 as f64 == first), "edge {k} at {} instead of {}: {}", g.0, w.0, show());
        if k > 0 {
            ensure!(g.1 != got[k - 1].1, "two edges of the same direction in a row: {}", show());
            ensure!(g.0 >= got[k - 1].0 - 3e-7, "edges out of order: {}", show());
        }
    }
    // the sampled value changes sides at every edge and nowhere else
    let above = |r: f32| -> Result<bool, String> {
        let mut j: TrackSamplingJobRef<f32> = TrackSamplingJob::default();
        j.set_track(&track);
        j.set_ratio(r);
        j.run().map_err(|e| format!("{e:?}"))?;
        Ok(j.result() > thr)
    };
    if n > 0 {
        for _ in 0..6 {
            let r = ratio_at(s, &t.ratios).clamp(0.0, 1.0);
            // linear spans that only touch the threshold, or rounding: leave a margin in value
            let mut margin = 2e-6f32;
            for w in t.values.windows(2) {
                margin = margin.max((w[0][0].abs() + w[1][0].abs()) * 2e-6);
            }
            let mut j: TrackSamplingJobRef<f32> = TrackSamplingJob::default();
            j.set_track(&track);
            j.set_ratio(r);
            j.run().map_err(|e| format!("{e:?}"))?;
            if (j.result() - thr).abs() <= margin || got.iter().any(|e| (e.0 - r).abs() <= 1e-6) {
                continue;
            }
            // start of the loop: value just after the seam
            let start = t.values[0][0] > thr;
            let inner = got.iter().skip(seam as usize).filter(|e| e.0 <= r).count();
            ensure!(above(r)? == (start ^ (inner % 2 == 1)), "at {r} the track is {} the threshold, but {inner} edges lie between the start ({}) and there: {}", if above(r)? { "above" } else { "below" }, if start { "above" } else { "below" }, show());
        }
    }
    Ok(())
}
/// Whether there is an edge at the seam of the loop.
fn first_is_seam(t: &TrackSpec, thr: f32) -> bool {
    let n = t.ratios.len();
    n > 0 && (t.values[n - 1][0] > thr) != (t.values[0][0] > thr)
}

/// Whole loops by which all times of a case are shifted.
fn base(s: &mut Src) -> f32 {
    if s.one_in(5) { s.irange(-4000, 4000) as f32 } else { 0.0 }
}

/// What an interval must yield, from the edges of one loop.
fn expand(per: &[E], from: f32, to: f32) -> Vec<E> {
    let (lo, hi, back) = if from <= to { (from, to, false) } else { (to, from, true) };
    let mut out = Vec::new();
    if lo == hi {
        return out;
    }
    let mut k = lo.floor();
    while k < hi {
        for (r, up) in per {
            let at = r + k;
            // an edge that ends a loop belongs to that loop
            if at >= lo && (at < hi || hi >= k + 1.0) {
                out.push((at, *up));
            }
        }
        k += 1.0;
    }
    if back {
        out.reverse();
        for e in out.iter_mut() {
            e.1 = !e.1;
        }
    }
    out
}

fn time(s: &mut Src, t: &TrackSpec, per: &[E], span: f32, base: f32) -> f32 {
    let k = base + match s.draw(4) { 0 => 0.0, 1 => -1.0, _ => s.irange(-(span as i64), span as i64) as f32 };
    match s.draw(8) {
        0 => k,
        1 | 2 if !per.is_empty() => s.pick(per).0 + k,
        3 if !per.is_empty() => {
            let x = s.pick(per).0 + k;
            if s.bool() { x.next_up() } else { x.next_down() }
        }
        4 if !t.ratios.is_empty() => *s.pick(&t.ratios) + k,
        5 => *s.pick(&[-f32::MIN_POSITIVE, f32::MIN_POSITIVE, 0.99999994, 1.0000001, -1e-7]) + if s.bool() { base } else { k },
        _ => s.unit() + k,
    }
}

fn same(a: &[E], b: &[E]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && x.1 == y.1)
}

fn c15_interval(s: &mut Src, c: &mut Case) -> Res {
    let (t, thr) = trig_track(s);
    let track: Track<f32> = load_track(&t);
    let per = edges(&track, 0.0, 1.0, thr, t.ratios.len() + 8)?;
    let span = *s.pick(&[1.0, 3.0, 50.0]);
    let base = base(s);
    for _ in 0..4 {
        let from = time(s, &t, &per, span, base);
        let to = time(s, &t, &per, span, base);
        if !resolves(&t, from.abs().max(to.abs())) {
            c.label("keys closer than the time resolution");
            continue;
        }
        let limit = ((from - to).abs() as usize + 3) * (t.ratios.len() + 1);
        let want = expand(&per, from, to);
        c.describe(|| format!("{t:?} threshold {thr:?} from {from:?} to {to:?}"));
        c.nontrivial |= !want.is_empty();
        if from > to { c.label("backward"); }
        if (from - to).abs() > 1.0 { c.label("several loops"); }
        let got = edges(&track, from, to, thr, limit)?;
        ensure!(same(&got, &want), "from {from:?} to {to:?}: edges {got:?}, one loop has {per:?}, so want {want:?}; ratios {:?} values {:?} steps {:?} threshold {thr:?}", t.ratios, t.values.iter().map(|v| v[0]).collect::<Vec<_>>(), t.steps);
        // the way back
        let mut back = edges(&track, to, from, thr, limit)?;
        back.reverse();
        for e in back.iter_mut() { e.1 = !e.1; }
        ensure!(same(&got, &back), "from {from:?} to {to:?}: edges {got:?}, the way back reversed {back:?}; one loop has {per:?}");
    }
    Ok(())
}

fn c15_partition(s: &mut Src, c: &mut Case) -> Res {
    let (t, thr) = trig_track(s);
    let track: Track<f32> = load_track(&t);
    let per = edges(&track, 0.0, 1.0, thr, t.ratios.len() + 8)?;
    let span = *s.pick(&[1.0, 2.0, 20.0]);
    let base = base(s);
    let n = 2 + s.below(8);
    let mut cuts: Vec<f32> = (0..n).map(|_| time(s, &t, &per, span, base)).collect();
    cuts.sort_by(f32::total_cmp);
    let back = s.bool();
    if back { cuts.reverse(); }
    let (a, b) = (cuts[0], cuts[cuts.len() - 1]);
    if !resolves(&t, a.abs().max(b.abs())) { return Ok(()); }
    let limit = ((a - b).abs() as usize + 3) * (t.ratios.len() + 1);
    let whole = edges(&track, a, b, thr, limit)?;
    let mut parts = Vec::new();
    for w in cuts.windows(2) {
        parts.extend(edges(&track, w[0], w[1], thr, limit)?);
    }
    let mut whole = whole;
    if per.windows(2).any(|w| w[1].0 < w[0].0) {
        // rounding put two edges in each other's place
        c.label("edges within rounding of each other");
        let key = |a: &E, b: &E| a.0.total_cmp(&b.0).then(a.1.cmp(&b.1));
        whole.sort_by(key);
        parts.sort_by(key);
    }
    c.describe(|| format!("{t:?} threshold {thr:?} cuts {cuts:?}"));
    c.nontrivial = whole.len() > 1 && n > 2;
    ensure!(same(&whole, &parts), "cut at {cuts:?}: edges {parts:?}, at once {whole:?}; one loop has {per:?}");
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C14",
            rule: "a sampled ratio lies strictly between two keys of a linear span",
            assumptions: &["key ratios are strictly increasing within [0, 1]", "linear results within 1e-6 of the key magnitudes, key values bit-exact; quaternions interpolate along the shorter arc"],
            facets: &[
                Facet { name: "sample", run: c14_sample, quick: 15_000_000, thorough: 750_000_000 },
                Facet { name: "huge", run: c14_huge, quick: 320, thorough: 16_000 },
                Facet { name: "relations", run: c14_relations, quick: 4_500_000, thorough: 225_000_000 },
            ],
        },
        Prop {
            id: "C15",
            rule: "the loop or interval has at least one edge (loop, partition: two)",
            assumptions: &[
                "strictly increasing key ratios; where the first key comes after 0 the jump from the end to the start of the loop may be at 0 or at that key",
                "times within +-4050 loops and keys farther apart than the f32 time resolution there",
                "an edge exactly at the end of a loop belongs to that loop, one at an interval's end to the next interval",
            ],
            facets: &[
                Facet { name: "loop", run: c15_loop, quick: 2_400_000, thorough: 120_000_000 },
                Facet { name: "huge", run: c15_huge, quick: 160, thorough: 8_000 },
                Facet { name: "interval", run: c15_interval, quick: 1_600_000, thorough: 80_000_000 },
                Facet { name: "partition", run: c15_partition, quick: 1_600_000, thorough: 80_000_000 },
            ],
        },
    ]
}
