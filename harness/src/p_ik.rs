//! C11 two-bone IK, C12 aim IK.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::p_blend::qdiff;
use crate::refm::*;
use glam::{Mat4, Quat, Vec3A};
use ozz_animation_rs::*;

fn v(x: V3) -> Vec3A {
    Vec3A::new(x[0] as f32, x[1] as f32, x[2] as f32)
}
fn m32(m: &M4) -> Mat4 {
    let mut a = [[0f32; 4]; 4];
    for c in 0..4 {
        for r in 0..4 {
            a[c][r] = m[c][r] as f32;
        }
    }
    Mat4::from_cols_array_2d(&a)
}
fn col(m: &M4, c: usize) -> V3 {
    [m[c][0], m[c][1], m[c][2]]
}
fn perp(a: V3) -> V3 {
    let h = if a[0].abs() < 0.6 { [1.0, 0.0, 0.0] } else { [0.0, 1.0, 0.0] };
    norm(cross(a, h))
}
fn angle(a: V3, b: V3) -> f64 {
    len(cross(a, b)).atan2(dot(a, b))
}
/// Part of `a` orthogonal to unit `n`.
fn reject(a: V3, n: V3) -> V3 {
    sub(a, scale(n, dot(a, n)))
}
/// An invertible joint matrix: translation, rotation, moderate scale, sometimes mirrored or sheared.
fn joint_mat(s: &mut Src) -> M4 {
    let t = match s.draw(3) { 0 => [0.0; 3], _ => [s.sym(5.0) as f64, s.sym(5.0) as f64, s.sym(5.0) as f64] };
    let q = unit_quat(s);
    let sc = match s.draw(4) {
        0 | 1 => [1.0; 3],
        2 => { let k = 0.4 + s.unit() as f64 * 2.0; [k, k, k] }
        _ => [0.5 + s.unit() as f64, 0.5 + s.unit() as f64, (0.5 + s.unit() as f64) * if s.bool() { -1.0 } else { 1.0 }],
    };
    let mut m = affine(t, q, sc);
    if s.draw(6) == 5 {
        // shear
        let r = affine([0.0; 3], unit_quat(s), [1.0; 3]);
        m = mmul(m, r);
        m = mmul(m, affine([0.0; 3], [0.0, 0.0, 0.0, 1.0], [1.0, 0.7, 1.3]));
        let u = affine([0.0; 3], unit_quat(s), [1.0; 3]);
        m = mmul(m, u);
    }
    // what the job will really get
    from_mat4(&m32(&m))
}
/// Norm of the inverse's linear part (Frobenius).
fn inv_norm(m: &M4) -> f64 {
    let i = minv(*m);
    (0..3).map(|c| dot(col(&i, c), col(&i, c))).sum::<f64>().sqrt()
}
fn lin_norm(m: &M4) -> f64 {
    (0..3).map(|c| dot(col(m, c), col(m, c))).sum::<f64>().sqrt()
}
fn twist(s: &mut Src) -> f32 {
    match s.draw(4) { 0 | 1 => 0.0, 2 => s.sym(3.2), _ => s.sym(20.0) }
}
fn weight(s: &mut Src) -> f32 {
    match s.draw(6) { 0 => 0.0, 1 => -s.unit() - 0.001, 2 => 1.0, 3 => 1.0 + s.unit(), 4 => *s.pick(&[1e-30, 1e-6, 0.5, 0.999999]), _ => s.unit() }
}
/// `normalize(lerp(identity, positive_w(q), w))`
fn weighted(q: Q, w: f64) -> Q {
    let q = if q[3] < 0.0 { qscale(q, -1.0) } else { q };
    let w = w.clamp(0.0, 1.0);
    qnorm([q[0] * w, q[1] * w, q[2] * w, 1.0 + (q[3] - 1.0) * w])
}

// ------------------------------------------------------------------ C12

#[derive(Clone, Debug)]
pub struct Aim {
    joint: M4,
    target: V3,
    pub forward: V3,
    up: V3,
    pole: V3,
    offset: V3,
    twist: f32,
    pub weight: f32,
    /// no rounding in bringing the target to joint space
    exact: bool,
}
fn f32s(a: V3) -> V3 { a.map(|x| x as f32 as f64) }

pub fn aim_case(s: &mut Src) -> Aim {
    let joint = joint_mat(s);
    let forward = f32s(unit_vec(s));
    let up = f32s(match s.draw(5) {
        0 => perp(forward),
        1 => scale(unit_vec(s), 0.1 + s.unit() as f64 * 5.0),
        _ => unit_vec(s),
    });
    let offset = f32s(match s.draw(4) {
        0 | 1 => [0.0; 3],
        2 => scale(forward, s.sym(2.0) as f64),
        _ => scale(unit_vec(s), s.unit() as f64 * 3.0),
    });
    // target in joint space: anywhere, ahead, behind, or around the offset's reach
    let r = match s.draw(5) { 0 => 0.011 + s.unit() as f64 * s.unit() as f64 * 0.5, 1 => len(offset).max(0.1) * (0.5 + s.unit() as f64), _ => 0.1 + s.unit() as f64 * 10.0 };
    let dir = match s.draw(6) {
        0 => forward,
        1 => scale(forward, -1.0),
        2 => norm(add(scale(forward, -1.0), scale(perp(forward), 10f64.powi(-(1 + s.draw(7) as i32))))),
        _ => unit_vec(s),
    };
    let target = f32s(mpoint(joint, scale(dir, r)));
    let pole = f32s(scale(unit_vec(s), *s.pick(&[1.0, 0.1, 10.0])));
    let tw = twist(s);
    if s.draw(8) == 7 {
        return exact_aim(s, tw);
    }
    Aim { joint, target, forward, up, pole, offset, twist: tw, weight: 1.0, exact: false }
}
/// Small whole coordinates, so that everything degenerate is exactly degenerate: a target at the joint, a pole or
/// up vector along the target or null, opposite vectors.
fn exact_aim(s: &mut Src, twist: f32) -> Aim {
    let joint = grid_mat(s);
    let forward = axis6(s);
    let dir = grid_vec(s, 2);
    let offset = match s.draw(4) { 0 | 1 => [0.0; 3], 2 => scale(forward, s.draw(5) as f64 - 2.0), _ => grid_vec(s, 1) };
    let ts = match s.draw(4) { 0 => [0.0; 3], 1 => scale(forward, s.draw(5) as f64 - 2.0), _ => dir };
    let pick = |s: &mut Src| match s.draw(4) { 0 => scale(ts, 0.5), 1 => [0.0; 3], 2 => axis6(s), _ => grid_vec(s, 2) };
    let (up, pole) = (pick(s), pick(s));
    Aim { joint, target: mpoint(joint, ts), forward, up, pole: mvec(joint, pole), offset, twist, weight: 1.0, exact: true }
}
/// A unit axis, either way.
fn axis6(s: &mut Src) -> V3 {
    let k = s.draw(6) as usize;
    let mut a = [0.0; 3];
    a[k % 3] = if k < 3 { 1.0 } else { -1.0 };
    a
}
fn grid_vec(s: &mut Src, n: u64) -> V3 {
    [0; 3].map(|_: i32| s.draw(2 * n + 1) as f64 - n as f64)
}
/// Quarter turns, scale 1, 2 or 1/2, whole translation: inverted without rounding.
fn grid_mat(s: &mut Src) -> M4 {
    let a = axis6(s);
    let b = { let b = axis6(s); if dot(a, b) != 0.0 { [a[1], a[2], a[0]] } else { b } };
    let k = *s.pick(&[1.0, 1.0, 2.0, 0.5]);
    let t = match s.draw(2) { 0 => [0.0; 3], _ => grid_vec(s, 3) };
    let cs = [a, b, cross(a, b)];
    let mut m = affine(t, [0.0, 0.0, 0.0, 1.0], [1.0; 3]);
    for c in 0..3 { for r in 0..3 { m[c][r] = cs[c][r] * k; } }
    m
}
pub fn set_aim(j: &mut IKAimJob, a: &Aim) {
    j.set_target(v(a.target));
    j.set_forward(v(a.forward));
    j.set_offset(v(a.offset));
    j.set_up(v(a.up));
    j.set_pole_vector(v(a.pole));
    j.set_twist_angle(a.twist);
    j.set_weight(a.weight);
    j.set_joint(m32(&a.joint));
}
fn run_aim(a: &Aim) -> Result<(Q, bool), String> {
    let mut j = IKAimJob::default();
    set_aim(&mut j, a);
    j.run().map_err(|e| format!("valid aim job failed: {e:?}"))?;
    Ok((q4(j.joint_correction()), j.reached()))
}

fn c12_aim(s: &mut Src, c: &mut Case) -> Res {
    let mut a = aim_case(s);
    let d = format!("{a:?}");
    c.describe(|| d.clone());
    let inv = minv(a.joint);
    let t = mpoint(inv, a.target);
    let r = len(t);
    let l = dot(a.forward, a.offset);
    let ac2 = dot(a.offset, a.offset) - l * l;
    // rounding of the target's position in joint space
    let e = 1e-6 * (lin_norm(&a.joint) * inv_norm(&a.joint)) * (r + inv_norm(&a.joint) * (len(a.target) + len(col(&a.joint, 3))));
    let (q, reached) = run_aim(&a)?;
    ensure!((qlen(q) - 1.0).abs() < 1e-5, "correction {q:?} is not a unit quaternion");
    let gap = r * r - ac2;
    let eg = 4.0 * r * e + 4e-6 * (r * r + dot(a.offset, a.offset));
    if a.exact && r == 0.0 {
        c.label("target at the joint");
        ensure!(q == [0.0, 0.0, 0.0, 1.0], "target at the joint, but the correction is {q:?}");
        ensure!(reached == (ac2 <= 0.0), "target at the joint, offset {:?}, reached {reached}", a.offset);
        return Ok(());
    }
    if gap.abs() <= eg {
        c.label("at the limit of the reach");
        return Ok(());
    }
    ensure!(reached == (gap > 0.0), "{}reached, but the target is {} the reach (distance {r}, offset needs {})", if reached { "" } else { "not " }, if gap > 0.0 { "in" } else { "out of" }, ac2.max(0.0).sqrt());
    if !reached {
        c.label("unreachable");
        ensure!(q == [0.0, 0.0, 0.0, 1.0], "unreachable target, but the correction is {q:?}");
        return Ok(());
    }
    if r < 20.0 * e || r < 1e-2 {
        return Ok(());
    }
    c.nontrivial = true;
    let ai = gap.max(0.0).sqrt();
    let of = add(a.offset, scale(a.forward, ai - l)); // aims at the target before correction
    let tn = scale(t, 1.0 / r);
    // vectors closer to opposite than the job's cut-off are turned by half a turn
    let back = std::f64::consts::PI - angle(of, t);
    let eof = e + eg / (2.0 * ai).max(eg.sqrt()); // error of the forward point
    let ed = (e + eof) / r + 2e-6;
    let opp = if back < 3e-3 + ed { 4e-3 } else { 1e-6 / back + ed / back };
    let td = (ed * 4.0 + opp * 2.0).min(10.0);
    // line through R*offset along R*forward, against the target
    let (o, f) = (qrot(q, a.offset), qrot(q, a.forward));
    let to = sub(t, o);
    let miss = len(cross(to, f));
    let lim = r * td + (len(a.offset) + r) * (1e-5 + td);
    if td < 0.05 {
        ensure!(miss <= lim, "forward line passes the target at {miss} (tolerance {lim}, distance {r}), correction {q:?}");
        if ai - l > 0.02 * r + lim * 3.0 {
            ensure!(dot(to, f) > 0.0, "the joint points away from the target, correction {q:?}");
        }
    }
    // the up axis: in the plane of target and pole vector, turned by the twist angle
    let pole = mvec(inv, a.pole);
    let pn = len(reject(pole, tn)) / len(pole);
    let ru = qrot(q, a.up);
    let un = len(reject(ru, tn)) / len(a.up);
    if pn > 0.05 && un > 0.05 && td < 0.02 {
        c.label("up axis decided");
        let want = qrot(axis_angle(tn, a.twist as f64), reject(pole, tn));
        let got = reject(ru, tn);
        let ang = angle(want, got);
        let lim = 4e-3 + 4.0 * td / un + 4.0 * (e / r + 4e-6 * inv_norm(&a.joint) * lin_norm(&a.joint)) / pn;
        ensure!(ang <= lim, "up axis is {ang} rad off the pole plane turned by {} (tolerance {lim}), correction {q:?}", a.twist);
    }
    // weights
    let full = q;
    a.weight = weight(s);
    let (w, wr) = run_aim(&a)?;
    ensure!(wr == reached, "weight {} changes reached to {wr}", a.weight);
    ensure!((qlen(w) - 1.0).abs() < 1e-5, "weight {}: correction {w:?} is not a unit quaternion", a.weight);
    if a.weight <= 0.0 {
        c.label("zero weight");
        ensure!(qdiff(w, [0.0, 0.0, 0.0, 1.0]) < 1e-7, "weight {}: correction {w:?} is not identity", a.weight);
    } else {
        let want = weighted(full, a.weight as f64);
        if full[3].abs() > 1e-6 {
            let dd = (0..4).map(|k| (w[k] - want[k]).abs()).fold(0.0, f64::max);
            let dd = if a.weight >= 1.0 { qdiff(w, want) } else { dd };
            ensure!(dd < 1e-5, "weight {}: correction {w:?}, between identity and the full correction {full:?} lies {want:?}", a.weight);
        }
    }
    Ok(())
}

/// Turning the whole scene does not change the local correction.
fn c12_frame(s: &mut Src, c: &mut Case) -> Res {
    let mut a = aim_case(s);
    a.weight = if s.bool() { 1.0 } else { s.unit() };
    let rot = affine([s.sym(3.0) as f64, s.sym(3.0) as f64, s.sym(3.0) as f64], unit_quat(s), [1.0; 3]);
    let mut b = a.clone();
    b.joint = from_mat4(&m32(&mmul(rot, a.joint)));
    b.target = f32s(mpoint(rot, a.target));
    b.pole = f32s(mvec(rot, a.pole));
    let (q, r) = run_aim(&a)?;
    let (p, t) = run_aim(&b)?;
    let full = run_aim(&Aim { weight: 1.0, ..a.clone() })?.0;
    c.describe(|| format!("{a:?} turned by {rot:?}"));
    // only well-conditioned configurations are comparable
    let inv = minv(a.joint);
    let tt = mpoint(inv, a.target);
    let d = len(tt);
    let l = dot(a.forward, a.offset);
    let gap = d * d - (dot(a.offset, a.offset) - l * l);
    if d < 0.05 || gap.abs() < 0.05 * d * d { return Ok(()); }
    let of = add(a.offset, scale(a.forward, gap.max(0.0).sqrt() - l));
    let pole = mvec(inv, a.pole);
    if gap > 0.0 && (std::f64::consts::PI - angle(of, tt) < 0.05 || len(reject(pole, norm(tt))) < 0.1 * len(pole) || len(reject(a.up, norm(of))) < 0.1 * len(a.up)) { return Ok(()); }
    let k = lin_norm(&a.joint) * inv_norm(&a.joint);
    if k > 30.0 { return Ok(()); }
    // half turns have two equally short ways
    if full[3].abs() < 2e-2 && a.weight < 1.0 { return Ok(()); }
    c.nontrivial = gap > 0.0;
    ensure!(r == t, "reached is {r}, in the turned scene {t}");
    // the plane angle comes from its cosine
    ensure!(qdiff(q, p) < 1e-2, "correction {q:?}, in the turned scene {p:?}");
    Ok(())
}

/// Units do not matter: the same scene with all lengths, with the whole model
/// or with the pole and up vectors scaled by a power of two (which rounds
/// nothing) needs the same correction.
fn c12_units(s: &mut Src, c: &mut Case) -> Res {
    let mut a = aim_case(s);
    a.weight = if s.bool() { 1.0 } else { s.unit() };
    let (q, reached) = run_aim(&a)?;
    let full = run_aim(&Aim { weight: 1.0, ..a.clone() })?.0;
    let t = mpoint(minv(a.joint), a.target);
    let r = len(t);
    let mut b = a.clone();
    let u = units(s);
    let len_k = u.length();
    c.describe(|| format!("{a:?} in other units: {u:?}"));
    // the cut-off for vectors too short to have a direction
    if r < 4e-3 || r * len_k < 4e-3 { return Ok(()); }
    // all but undecided planes, half turns
    let tn = scale(t, 1.0 / r);
    let flat = |x: V3| len(x) > 0.0 && len(reject(x, tn)) < 1e-3 * len(x);
    if flat(mvec(minv(a.joint), a.pole)) || flat(qrot(full, a.up)) || (a.weight < 1.0 && full[3].abs() < 1e-3) { return Ok(()); }
    c.nontrivial = reached && q != [0.0, 0.0, 0.0, 1.0];
    b.joint = u.matrix(&a.joint);
    b.target = scale(a.target, u.world());
    b.offset = scale(a.offset, len_k);
    b.pole = scale(a.pole, u.pole);
    b.up = scale(a.up, u.up);
    let (p, t) = run_aim(&b)?;
    ensure!(reached == t, "reached is {reached}, in other units ({u:?}) {t}");
    ensure!(qdiff(q, p) < 1e-4, "correction {q:?}, in other units ({u:?}) {p:?}");
    Ok(())
}

/// Powers of two.
#[derive(Clone, Debug)]
struct Units {
    /// positions, but not the joints' linear parts
    scene: f64,
    /// positions and the joints' linear parts
    model: f64,
    pole: f64,
    up: f64,
}
fn units(s: &mut Src) -> Units {
    let p = |s: &mut Src, n: i64| 2f64.powi(s.irange(-n, n) as i32);
    let (a, b, c, d) = (p(s, 10), p(s, 12), p(s, 18), p(s, 18));
    match s.draw(4) {
        0 => Units { scene: a, model: 1.0, pole: 1.0, up: 1.0 },
        1 => Units { scene: 1.0, model: b, pole: 1.0, up: 1.0 },
        2 => Units { scene: 1.0, model: 1.0, pole: c, up: d },
        _ => Units { scene: a, model: b, pole: c, up: d },
    }
}
impl Units {
    /// of lengths in model space
    fn world(&self) -> f64 { self.scene * self.model }
    /// of lengths in joint space
    fn length(&self) -> f64 { self.scene }
    fn matrix(&self, m: &M4) -> M4 {
        let mut o = *m;
        for c in 0..3 { for r in 0..3 { o[c][r] *= self.model; } }
        for r in 0..3 { o[3][r] *= self.world(); }
        o
    }
}

// ------------------------------------------------------------------ C11

#[derive(Clone, Debug)]
pub struct Bone {
    start: M4,
    mid: M4,
    end: M4,
    pub axis: V3,
    target: V3,
    pole: V3,
    twist: f32,
    pub soften: f32,
    pub weight: f32,
}

pub fn bone_case(s: &mut Src) -> Bone {
    // hinge joint: both bones orthogonal to the mid axis, in mid space
    let axis = unit_vec(s);
    let u = perp(axis);
    let w = cross(axis, u);
    let rot = |l: f64, a: f64| add(scale(u, l * a.cos()), scale(w, l * a.sin()));
    let l1 = 0.2 + s.unit() as f64 * 3.0;
    let l2 = match s.draw(4) { 0 => l1, 1 => 0.2 + s.unit() as f64, _ => 0.2 + s.unit() as f64 * 3.0 };
    let a0 = s.unit() as f64 * 6.3;
    let bend = match s.draw(6) { 0 => 0.0, 1 => std::f64::consts::PI, 2 => s.sym(0.05) as f64, _ => s.sym(3.1) as f64 };
    let start_ms = rot(-l1, a0);
    let end_ms = rot(l2, a0 + bend);
    let k = match s.draw(4) { 0 => 0.5 + s.unit() as f64 * 2.0, _ => 1.0 };
    let q = unit_quat(s);
    // mid in start space: rotation, uniform scale, placed so that start is at the origin
    let lin = affine([0.0; 3], q, [k, k, k]);
    let p = scale(mvec(lin, start_ms), -1.0);
    let mut rel = lin;
    for c in 0..3 { rel[3][c] = p[c]; }
    let start = joint_mat(s);
    let mid = from_mat4(&m32(&mmul(start, rel)));
    let mut off = affine(end_ms, unit_quat(s), [1.0; 3]);
    off = mmul(mid, off);
    let end = from_mat4(&m32(&off));
    let (b1, b2) = (l1 * k, l2 * k);
    let chain = b1 + b2;
    let diff = (b1 - b2).abs();
    let d = match s.draw(8) {
        0 => chain * (1.0 + s.unit() as f64 * 3.0),
        1 => diff * s.unit() as f64,
        2 => chain * (0.98 + s.unit() as f64 * 0.04),
        3 => diff + (chain - diff) * 0.05 * s.unit() as f64,
        4 => 0.0,
        _ => diff + (chain - diff) * s.unit() as f64,
    };
    let dir = match s.draw(8) {
        0 => { let e = mpoint(rel, end_ms); if len(e) > 1e-3 { norm(e) } else { unit_vec(s) } }
        1 => { let e = mpoint(rel, end_ms); if len(e) > 1e-3 { scale(norm(e), -1.0) } else { unit_vec(s) } }
        _ => unit_vec(s),
    };
    let target = f32s(mpoint(start, scale(dir, d)));
    let pole = f32s(scale(unit_vec(s), *s.pick(&[1.0, 0.1, 10.0])));
    let tw = twist(s);
    if s.draw(8) == 7 {
        return exact_bone(s, tw);
    }
    Bone { start, mid, end, axis: f32s(axis), target, pole, twist: tw, soften: 1.0, weight: 1.0 }
}
/// As `exact_aim`: straight, folded and right-angled chains on a grid.
fn exact_bone(s: &mut Src, twist: f32) -> Bone {
    let start = grid_mat(s);
    let axis = axis6(s);
    let u = [axis[1], axis[2], axis[0]];
    let w = cross(axis, u);
    let side = |s: &mut Src| { let k = 1.0 + s.draw(2) as f64; match s.draw(4) { 0 => scale(u, k), 1 => scale(u, -k), 2 => scale(w, k), _ => scale(w, -k) } };
    let (a, b) = (side(s), side(s));
    let mut rel = grid_mat(s);
    let p = scale(mvec(rel, a), -1.0);
    for c in 0..3 { rel[3][c] = p[c]; }
    let mid = mmul(start, rel);
    let mut off = grid_mat(s);
    for c in 0..3 { off[3][c] = b[c]; }
    let end = mmul(mid, off);
    let es = mpoint(rel, b);
    let ts = match s.draw(5) { 0 => [0.0; 3], 1 => es, 2 => scale(es, -1.0), 3 => axis6(s), _ => grid_vec(s, 3) };
    let pole = match s.draw(3) { 0 => axis6(s), _ => grid_vec(s, 2) };
    Bone { start, mid, end, axis, target: mpoint(start, ts), pole: mvec(start, pole), twist, soften: 1.0, weight: 1.0 }
}
fn bone_job(b: &Bone) -> IKTwoBoneJob {
    let mut j = IKTwoBoneJob::default();
    set_bone(&mut j, b);
    j
}
pub fn set_bone(j: &mut IKTwoBoneJob, b: &Bone) {
    j.set_target(v(b.target));
    j.set_mid_axis(v(b.axis));
    j.set_pole_vector(v(b.pole));
    j.set_twist_angle(b.twist);
    j.set_soften(b.soften);
    j.set_weight(b.weight);
    j.set_start_joint(m32(&b.start));
    j.set_mid_joint(m32(&b.mid));
    j.set_end_joint(m32(&b.end));
}
fn run_bone(b: &Bone) -> Result<(Q, Q, bool), String> {
    let mut j = bone_job(b);
    j.run().map_err(|e| format!("valid two-bone job failed: {e:?}"))?;
    Ok((q4(j.start_joint_correction()), q4(j.mid_joint_correction()), j.reached()))
}

struct Geo {
    rel: M4,
    mid: V3,
    end_ms: V3,
    t: V3,
    b1: f64,
    b2: f64,
    /// rounding of positions in start space
    e: f64,
}
fn geo(b: &Bone) -> Geo {
    let inv = minv(b.start);
    let rel = mmul(inv, b.mid);
    let end = mpoint(inv, col(&b.end, 3));
    let mid = col(&rel, 3);
    let end_ms = mpoint(minv(b.mid), col(&b.end, 3));
    let t = mpoint(inv, b.target);
    let i = inv_norm(&b.start);
    let k = lin_norm(&b.start) * i + lin_norm(&b.mid) * inv_norm(&b.mid);
    let reach = len(mid) + len(end) + len(t);
    let e = 5e-7 * k * (reach + i * (len(col(&b.start, 3)) + len(col(&b.mid, 3)) + len(col(&b.end, 3)) + len(b.target)));
    Geo { b1: len(mid), b2: len(sub(end, mid)), rel, mid, end_ms, t, e }
}

/// Where the corrected end joint is, in start space, and the mid joint.
fn apply(g: &Geo, qs: Q, qm: Q) -> (V3, V3) {
    let end = add(g.mid, mvec(g.rel, qrot(qm, g.end_ms)));
    (qrot(qs, g.mid), qrot(qs, end))
}

fn check_bone(b: &Bone, c: &mut Case) -> Res {
    let g = geo(b);
    let (mut qs, qm, reached) = run_bone(b)?;
    // known finding: no plane through the target and a pole vector on the same line
    let aligned = {
        let (t, p) = (g.t, mvec(minv(b.start), b.pole));
        len(cross(t, p)) <= len(p) * g.e * 2.0 + 2e-6 * len(t) * len(p)
    };
    let nan_start = aligned && qs.iter().all(|x| x.is_nan());
    if nan_start {
        qs = [0.0, 0.0, 0.0, 1.0];
    }
    ensure!((qlen(qs) - 1.0).abs() < 1e-5, "start correction {qs:?} is not a unit quaternion");
    ensure!((qlen(qm) - 1.0).abs() < 1e-5, "mid correction {qm:?} is not a unit quaternion");
    let chain = g.b1 + g.b2;
    let diff = (g.b1 - g.b2).abs();
    let d = len(g.t);
    let soften = (b.soften as f64).clamp(0.0, 1.0);
    let da = chain * soften;
    let ds = chain - da;
    let e = g.e * 4.0 + 1e-6 * chain;
    // reached or not
    if (d - da).abs() > e * 2.0 && (d - diff).abs() > e * 2.0 {
        let want = d < da && d > diff;
        ensure!(reached == want, "{}reached: target at {d}, chain reaches {diff}..{da}", if reached { "" } else { "not " });
    }
    // distance the end joint must have
    let want = if d > da && ds > 1e-4 * chain {
        let alpha = (d - da) / ds;
        let x: f64 = 3.0 / (alpha + 3.0);
        da + ds - ds * x.powi(4)
    } else {
        d
    };
    let want = want.clamp(diff, chain);
    let (m, p) = apply(&g, qs, qm);
    let got = len(p);
    // the initial angle comes from an arc cosine: bad near straight or folded bones
    let start_end = add(g.mid, mvec(g.rel, g.end_ms));
    let cos0 = (g.b1 * g.b1 + g.b2 * g.b2 - dot(start_end, start_end)) / (2.0 * g.b1 * g.b2);
    let ec = 6e-7 * (g.b1 * g.b1 + g.b2 * g.b2 + dot(start_end, start_end)) / (g.b1 * g.b2) + 4.0 * e * (g.b1 + g.b2) / (g.b1 * g.b2);
    let sin0 = (1.0 - cos0 * cos0).max(0.0).sqrt();
    let ea0 = (ec / sin0.max(1e-9)).min((2.0 * ec).sqrt()) + 1e-6;
    let cos1 = ((g.b1 * g.b1 + g.b2 * g.b2 - want * want) / (2.0 * g.b1 * g.b2)).clamp(-1.0, 1.0);
    let sin1 = (1.0 - cos1 * cos1).max(0.0).sqrt();
    let ea1 = (ec / sin1.max(1e-9)).min((2.0 * ec).sqrt()) + 1e-6;
    let ea = 2.0 * (ea0 + ea1);
    // change of the end's distance for an angle error
    let near = want.max(1e-3 * chain);
    let elen = (g.b1 * g.b2 * (sin1 + ea) * ea / near).min(ea * g.b1.min(g.b2) * 2.0) + 4.0 * e;
    ensure!((got - want).abs() <= elen, "end joint is at distance {got} of the start joint, want {want} (tolerance {elen}; bones {} {}, target at {d}, soften {soften})", g.b1, g.b2);
    if nan_start {
        return Err("<pole-aligned-nan> the start correction is NaN when the pole vector points along the target".into());
    }
    if d < 0.02 * chain || want < 0.02 * chain || d < 20.0 * e {
        c.label("target next to the start joint");
        return Ok(());
    }
    // direction
    let tn = scale(g.t, 1.0 / d);
    let pre = add(g.mid, mvec(g.rel, qrot(qm, g.end_ms)));
    if len(pre) * d < 1e-4 { return Ok(()); }
    let back = std::f64::consts::PI - angle(pre, g.t);
    let ed = e / d + e / len(pre) + 2e-6;
    let opp = if back < 3e-3 + ed { 4e-3 } else { (1e-6 + ed) / back };
    let tol_dir = (4.0 * ed + 2.0 * opp).min(10.0);
    let off = angle(p, g.t);
    if tol_dir < 0.05 {
        ensure!(off <= tol_dir, "end joint is {off} rad off the target direction (tolerance {tol_dir})");
    }
    if reached && tol_dir < 0.05 {
        let miss = len(sub(p, g.t));
        let lim = elen + tol_dir * d;
        ensure!(miss <= lim, "target reported reached, but the end joint misses it by {miss} (tolerance {lim}): end {p:?} target {:?}", g.t);
        c.label("reached");
        c.nontrivial = true;
    }
    // pole vector and twist
    let inv = minv(b.start);
    let pole = mvec(inv, b.pole);
    let pn = len(reject(pole, tn)) / len(pole);
    let bent = reject(m, tn);
    if pn > 0.1 && len(bent) > 0.1 * g.b1 && tol_dir < 0.02 {
        c.label("bend plane decided");
        c.nontrivial = true;
        let want = qrot(axis_angle(tn, b.twist as f64), reject(pole, tn));
        let a = angle(want, bent);
        let lim = 6e-3 + 4.0 * (tol_dir + ea) * g.b1 / len(bent) + 8.0 * e / (chain * pn) + 1e-5 * lin_norm(&b.start) * inv_norm(&b.start) / pn;
        ensure!(a <= lim, "mid joint is {a} rad off the pole plane turned by {} (tolerance {lim})", b.twist);
    }
    Ok(())
}

fn c11_solve(s: &mut Src, c: &mut Case) -> Res {
    let b = bone_case(s);
    c.describe(|| format!("{b:?}"));
    check_bone(&b, c)
}
fn c11_soften(s: &mut Src, c: &mut Case) -> Res {
    let mut b = bone_case(s);
    b.soften = match s.draw(5) { 0 => s.unit(), 1 => -s.unit(), 2 => 1.0 + s.unit(), _ => 0.5 + 0.5 * s.unit() };
    // targets around the softened end
    if s.bool() {
        let g = geo(&b);
        if len(g.t) > 1e-3 {
            let k = (g.b1 + g.b2) * (0.4 + s.unit() as f64 * 1.2) / len(g.t);
            b.target = f32s(mpoint(b.start, scale(g.t, k)));
        }
    }
    c.describe(|| format!("{b:?}"));
    check_bone(&b, c)
}

/// As `c12_units`.
fn c11_units(s: &mut Src, c: &mut Case) -> Res {
    let mut a = bone_case(s);
    if s.draw(3) == 0 { a.soften = s.unit(); }
    let full = run_bone(&a)?;
    a.weight = if s.bool() { 1.0 } else { s.unit() };
    let (qs, qm, reached) = run_bone(&a)?;
    let u = units(s);
    c.describe(|| format!("{a:?} in other units: {u:?}"));
    if qs.iter().chain(&qm).any(|x| !x.is_finite()) { return Ok(()); }
    let g = geo(&a);
    let d = len(g.t);
    let chain = g.b1 + g.b2;
    let pre = len(add(g.mid, mvec(g.rel, qrot(full.1, g.end_ms))));
    // the softened target is no closer than the corrected end, unless that is as close as it gets
    let to = d.min(pre);
    let k = u.length();
    if pre * to < 2e-5 || pre * to * k * k < 2e-5 || to < 1e-3 * chain { return Ok(()); }
    let pole = mvec(minv(a.start), a.pole);
    if len(reject(pole, scale(g.t, 1.0 / d))) < 1e-3 * len(pole) { return Ok(()); }
    if a.weight < 1.0 && (full.0[3].abs() < 1e-3 || full.1[3].abs() < 1e-3) { return Ok(()); }
    c.nontrivial = true;
    let mut b = a.clone();
    b.start = u.matrix(&a.start);
    b.mid = u.matrix(&a.mid);
    b.end = u.matrix(&a.end);
    b.target = scale(a.target, u.world());
    b.pole = scale(a.pole, u.pole);
    let (ps, pm, t) = run_bone(&b)?;
    ensure!(reached == t, "reached is {reached}, in other units ({u:?}) {t}");
    ensure!(qdiff(qs, ps) < 1e-4, "start correction {qs:?}, in other units ({u:?}) {ps:?}");
    ensure!(qdiff(qm, pm) < 1e-4, "mid correction {qm:?}, in other units ({u:?}) {pm:?}");
    Ok(())
}

fn c11_weight(s: &mut Src, c: &mut Case) -> Res {
    let mut b = bone_case(s);
    if s.draw(3) == 0 { b.soften = s.unit(); }
    let (fs, fm, _) = run_bone(&b)?;
    b.weight = weight(s);
    c.describe(|| format!("{b:?}"));
    let (ws, wm, reached) = run_bone(&b)?;
    if fs.iter().chain(&fm).any(|x| !x.is_finite()) { return Ok(()); }
    c.nontrivial = b.weight > 0.0 && b.weight < 1.0;
    if b.weight < 1.0 {
        ensure!(!reached, "weight {} but the target is reported reached", b.weight);
    }
    for (full, w, what) in [(fs, ws, "start"), (fm, wm, "mid")] {
        ensure!((qlen(w) - 1.0).abs() < 1e-5, "weight {}: {what} correction {w:?} is not a unit quaternion", b.weight);
        if b.weight <= 0.0 {
            ensure!(w == [0.0, 0.0, 0.0, 1.0], "weight {}: {what} correction {w:?} is not identity", b.weight);
        } else if full[3].abs() > 1e-6 {
            let want = weighted(full, b.weight as f64);
            ensure!((0..4).all(|k| (w[k] - want[k]).abs() < 1e-5), "weight {}: {what} correction {w:?}, between identity and the full correction {full:?} lies {want:?}", b.weight);
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C11",
            rule: "target reached, or the bend plane is decided by the pole vector; weights: strictly between 0 and 1",
            assumptions: &[
                "the mid joint is a hinge: both bones are orthogonal to the (unit) mid axis, and the mid joint relates to the start joint by rotation and uniform scale",
                "chains of length 0.1 to 20, invertible start joints of moderate condition; a pole vector along the target leaves the bend plane undecided",
                "tolerances follow the conditioning of arc cosine and near-opposite directions in f32",
            ],
            facets: &[
                Facet { name: "solve", run: c11_solve, quick: 15_000_000, thorough: 750_000_000 },
                Facet { name: "soften", run: c11_soften, quick: 7_500_000, thorough: 375_000_000 },
                Facet { name: "weight", run: c11_weight, quick: 7_500_000, thorough: 375_000_000 },
                Facet { name: "units", run: c11_units, quick: 3_000_000, thorough: 150_000_000 },
            ],
        },
        Prop {
            id: "C12",
            rule: "the target is reachable and away from the joint",
            assumptions: &["unit forward axis, invertible joints of moderate condition; targets aligned with the pole vector leave the up axis undecided", "tolerances follow the conditioning of near-opposite directions in f32"],
            facets: &[
                Facet { name: "aim", run: c12_aim, quick: 12_000_000, thorough: 600_000_000 },
                Facet { name: "frame", run: c12_frame, quick: 4_000_000, thorough: 200_000_000 },
                Facet { name: "units", run: c12_units, quick: 4_000_000, thorough: 200_000_000 },
            ],
        },
    ]
}
#[allow(unused)]
fn _q(_: Quat) {}
