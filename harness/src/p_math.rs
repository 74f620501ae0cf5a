//! C20: the public math primitives against f64.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refm::*;
use glam::{Quat, Vec3, Vec3A};
use glam_ext::Transform3A;
use ozz_animation_rs::math::*;
use std::f64::consts::PI;
use std::simd::prelude::*;

const EPS: f64 = 5.960464477539063e-8; // 2^-24, one rounding

// ---------------------------------------------------------------- scalar functions

fn bits_eq(a: f32, b: f32) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

fn trig(x: f32) -> Res {
    let (s, c) = f32_sin_cos(x);
    ensure!(bits_eq(f32_sin(x), s) && bits_eq(f32_cos(x), c), "x={x:e} ({:#x}): f32_sin {:?}, f32_cos {:?}, f32_sin_cos {:?}", x.to_bits(), f32_sin(x), f32_cos(x), (s, c));
    let (ns, nc) = f32_sin_cos(-x);
    // signs of zeros and NaNs are not part of the symmetry
    let odd = ns == -s || (ns.is_nan() && s.is_nan());
    ensure!(odd && bits_eq(nc, c), "sin/cos({x:e}) = {:?} but sin/cos({:e}) = {:?}", (s, c), -x, (ns, nc));
    let a = x.abs() as f64;
    if a > 8192.0 { return Ok(()); }
    let (rs, rc) = (x as f64).sin_cos();
    ensure!(close(s as f64, rs, 2.5e-7) && close(c as f64, rc, 2.5e-7), "sin/cos({x:e}) = {:?}, exactly {:?}", (s, c), (rs, rc));
    ensure!(s.abs() <= 1.0000002 && c.abs() <= 1.0000002, "sin/cos({x:e}) = {:?} leaves [-1, 1]", (s, c));
    if a < 0.7 {
        ensure!((s as f64 - rs).abs() <= rs.abs() * 2.5e-7 + 3e-45, "sin({x:e}) = {s:e}, exactly {rs:e}: relative error too big");
    }
    if x == 0.0 {
        ensure!(s == 0.0 && c == 1.0, "sin/cos({x:?}) = {:?}", (s, c));
    }
    Ok(())
}

fn angle(s: &mut Src) -> f32 {
    let m = match s.draw(7) {
        0 => s.sym(1.0),
        1 => s.sym(10.0),
        2 => s.sym(1000.0),
        3 => s.sym(8192.0),
        // next to a multiple of pi/4
        4 => {
            let k = s.irange(-10430, 10430);
            let f = (k as f64 * PI / 4.0) as f32;
            let d = s.irange(-3, 3);
            f32::from_bits((f.to_bits() as i64 + d).max(0) as u32)
        }
        // any exponent
        _ => return s.finite(),
    };
    if m.is_finite() { m } else { 0.0 }
}
fn c20_trig(s: &mut Src, c: &mut Case) -> Res {
    let x = angle(s);
    c.nontrivial = x != 0.0 && x.abs() <= 8192.0;
    c.describe(|| format!("angle {x:e}"));
    trig(x)
}
/// 512 consecutive floats from a random (all binades alike) starting point.
fn c20_trig_runs(s: &mut Src, c: &mut Case) -> Res {
    let top = 8192f32.to_bits() as u64;
    let lo = if s.draw(2) == 0 { s.draw(top) } else { 0x3000_0000 + s.draw(top - 0x3000_0000) };
    c.nontrivial = true;
    c.describe(|| format!("angles from {:e}, 512 floats", f32::from_bits(lo as u32)));
    for b in lo..(lo + 512).min(top + 1) { trig(f32::from_bits(b as u32))?; }
    Ok(())
}

fn inverse(x: f32) -> Res {
    let (a, o) = (f32_asin(x), f32_acos(x));
    let v = (x as f64).clamp(-1.0, 1.0);
    let (ra, ro) = (v.asin(), v.acos());
    ensure!((a as f64 - ra).abs() <= 7e-7 * ra.abs() + 3e-45, "asin({x:e}) = {a:e}, exactly {ra:e}");
    ensure!(close(o as f64, ro, 7e-7), "acos({x:e}) = {o:e}, exactly {ro:e}");
    let n = f32_asin(-x);
    ensure!(n == -a, "asin({x:e}) = {a:e} but asin({:e}) = {n:e}", -x);
    if x.abs() >= 1.0 {
        let h = std::f32::consts::FRAC_PI_2;
        ensure!(a == h.copysign(x), "asin({x:e}) = {a:e}");
        ensure!(o == if x > 0.0 { 0.0 } else { std::f32::consts::PI }, "acos({x:e}) = {o:e}");
    }
    if x == 0.0 { ensure!(a == 0.0 && o == std::f32::consts::FRAC_PI_2, "asin/acos({x:?}) = {a:e}/{o:e}"); }
    Ok(())
}
fn c20_inverse(s: &mut Src, c: &mut Case) -> Res {
    let x = match s.draw(6) {
        0 => s.finite(),
        1 => { let u = 1.0f32.to_bits() - s.draw(2000) as u32; if s.bool() { -f32::from_bits(u) } else { f32::from_bits(u) } }
        2 => { let u = 0.5f32.to_bits() as i64 + s.irange(-2000, 2000); f32::from_bits(u as u32) }
        3 => s.sym(1.01),
        _ => s.sym(1.0),
    };
    c.nontrivial = x != 0.0;
    c.describe(|| format!("{x:e}"));
    inverse(x)
}
fn c20_inverse_runs(s: &mut Src, c: &mut Case) -> Res {
    let top = 1f32.to_bits() as u64 + 600;
    let lo = if s.draw(2) == 0 { s.draw(top) } else { 0x3b00_0000 + s.draw(top - 0x3b00_0000) };
    c.nontrivial = true;
    c.describe(|| format!("512 floats from {:e}", f32::from_bits(lo as u32)));
    for b in lo..(lo + 512).min(top + 1) { inverse(f32::from_bits(b as u32))?; }
    Ok(())
}

// ---------------------------------------------------------------- SoA types

fn val(s: &mut Src) -> f32 {
    match s.draw(8) {
        0 => *s.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 2.0]),
        1 => s.sym(1e-3),
        2 => s.sym(1e5),
        _ => s.sym(10.0),
    }
}
fn lanes(s: &mut Src) -> [f32; 4] { [val(s), val(s), val(s), val(s)] }
/// Any bits, for the operations that only move or flip bits.
fn raw_lanes(s: &mut Src) -> [f32; 4] {
    let mut f = || f32::from_bits(s.draw(1 << 32) as u32);
    [f(), f(), f(), f()]
}
fn sv3(s: &mut Src) -> SoaVec3 { SoaVec3::new(lanes(s), lanes(s), lanes(s)) }
fn squat(s: &mut Src) -> SoaQuat {
    let mut q = SoaQuat::IDENTITY;
    for i in 0..4 { q.set_quat(i, quat32(s)); }
    q
}
fn va(v: &SoaVec3) -> [[f32; 4]; 3] { [v.x.to_array(), v.y.to_array(), v.z.to_array()] }
fn qa(q: &SoaQuat) -> [[f32; 4]; 4] { [q.x.to_array(), q.y.to_array(), q.z.to_array(), q.w.to_array()] }
fn qlane(q: &SoaQuat, i: usize) -> Q { let a = qa(q); [a[0][i] as f64, a[1][i] as f64, a[2][i] as f64, a[3][i] as f64] }
fn same_bits(a: &[f32], b: &[f32]) -> bool { a.iter().zip(b).all(|(a, b)| a.to_bits() == b.to_bits()) }
fn flat<const N: usize>(a: &[[f32; 4]; N]) -> Vec<f32> { a.iter().flatten().copied().collect() }

fn c20_vec3(s: &mut Src, c: &mut Case) -> Res {
    let (a, b, f) = (sv3(s), sv3(s), lanes(s));
    let t = if s.bool() { [s.ratio(), s.ratio(), s.ratio(), s.ratio()] } else { f };
    c.nontrivial = a != b;
    c.describe(|| format!("a {a:?} b {b:?} f {f:?} t {t:?}"));
    let (fx, tx) = (f32x4::from_array(f), f32x4::from_array(t));
    let (xa, xb) = (va(&a), va(&b));
    let (n, p, d, m, l) = (va(&a.neg()), va(&a.add(&b)), va(&a.sub(&b)), va(&a.mul_num(fx)), va(&SoaVec3::lerp(&a, &b, tx)));
    for k in 0..3 {
        for i in 0..4 {
            let (u, v, w, z) = (xa[k][i] as f64, xb[k][i] as f64, f[i] as f64, t[i] as f64);
            let at = |op: &str, got: f32, want: f64| format!("{op}, component {k} lane {i}: {got:e}, exactly {want:e}");
            ensure!(n[k][i].to_bits() == (-xa[k][i]).to_bits(), "{}", at("neg", n[k][i], -u));
            ensure!(close(p[k][i] as f64, u + v, (u + v).abs() * 2.0 * EPS + 1e-44), "{}", at("add", p[k][i], u + v));
            ensure!(close(d[k][i] as f64, u - v, (u - v).abs() * 2.0 * EPS + 1e-44), "{}", at("sub", d[k][i], u - v));
            ensure!(close(m[k][i] as f64, u * w, (u * w).abs() * 2.0 * EPS + 1e-44), "{}", at("mul_num", m[k][i], u * w));
            let want = u + (v - u) * z;
            let tol = ((u.abs() + v.abs()) * z.abs() + u.abs()) * 6.0 * EPS + 1e-44;
            ensure!(close(l[k][i] as f64, want, tol), "{}", at("lerp", l[k][i], want));
            if z == 0.0 { ensure!(l[k][i] == xa[k][i], "lerp at 0 is not its start: {:e} {:e}", l[k][i], xa[k][i]); }
        }
    }
    // lanes and whole vectors
    let i = s.below(4);
    let g = a.vec3(i);
    ensure!(same_bits(&g.to_array(), &[xa[0][i], xa[1][i], xa[2][i]]), "vec3({i}) = {g:?} of {a:?}");
    let mut e = a;
    e.set_vec3(i, b.vec3((i + 1) % 4));
    for k in 0..4 {
        let want = if k == i { b.vec3((i + 1) % 4) } else { a.vec3(k) };
        ensure!(same_bits(&e.vec3(k).to_array(), &want.to_array()), "set_vec3({i}) leaves lane {k} at {:?}, expected {want:?}", e.vec3(k));
    }
    let sp = SoaVec3::splat_vec3(g);
    ensure!((0..4).all(|k| same_bits(&sp.vec3(k).to_array(), &g.to_array())), "splat_vec3({g:?}) = {sp:?}");
    let sp = SoaVec3::splat(f[0]);
    ensure!(flat(&va(&sp)).iter().all(|x| x.to_bits() == f[0].to_bits()), "splat({}) = {sp:?}", f[0]);
    bit_ops_v3(s)
}
fn bit_ops_v3(s: &mut Src) -> Res {
    let (x, y, z) = (raw_lanes(s), raw_lanes(s), raw_lanes(s));
    let m = [s.draw(1 << 32) as u32, s.draw(1 << 32) as u32, 0x8000_0000, 0xffff_ffff];
    let v = SoaVec3::new(x, y, z);
    let mi = i32x4::from_array(m.map(|m| m as i32));
    let (a, o, e) = (va(&v.and_num(mi)), va(&v.or_num(mi)), va(&v.xor_num(mi)));
    for (k, src) in [x, y, z].iter().enumerate() {
        for i in 0..4 {
            let b = src[i].to_bits();
            ensure!(a[k][i].to_bits() == b & m[i] && o[k][i].to_bits() == b | m[i] && e[k][i].to_bits() == b ^ m[i], "SoaVec3 bit operations of {b:#x} with {:#x}", m[i]);
        }
    }
    Ok(())
}

fn c20_quat(s: &mut Src, c: &mut Case) -> Res {
    let (a, b) = (squat(s), squat(s));
    let f = lanes(s);
    let t = [s.ratio(), s.ratio(), s.ratio(), s.ratio()];
    // not unit: any four numbers
    let mut r = SoaQuat::new(lanes(s), lanes(s), lanes(s), lanes(s));
    for i in 0..4 {
        // any length, evenly over the exponents
        if s.draw(4) == 3 { let k = 2f32.powi(s.irange(-55, 55) as i32) * (1.0 + s.unit()); r.set_quat(i, quat32(s) * k); }
    }
    let r = r;
    c.nontrivial = a != b;
    c.describe(|| format!("a {a:?} b {b:?} r {r:?} f {f:?} t {t:?}"));
    let (fx, tx) = (f32x4::from_array(f), f32x4::from_array(t));
    let (cj, ad, mu, rm, mn, nz, dt, nl, pw) = (a.conjugate(), r.add(&b), a.mul(&b), r.mul(&b), r.mul_num(fx), r.normalize(), r.dot(&b), a.nlerp(&b, tx), r.positive_w());
    for i in 0..4 {
        let (u, v, w) = (qlane(&a, i), qlane(&b, i), qlane(&r, i));
        let ctx = |op: &str, got: Q, want: Q| format!("{op}, lane {i}: {got:?}, exactly {want:?}");
        let near = |op: &str, got: Q, want: Q, tol: f64| -> Res {
            ensure!((0..4).all(|k| close(got[k], want[k], tol)), "{}", ctx(op, got, want));
            Ok(())
        };
        near("conjugate", qlane(&cj, i), qconj(u), 0.0)?;
        for k in 0..4 {
            let x = w[k] + v[k];
            ensure!(close(qlane(&ad, i)[k], x, x.abs() * 2.0 * EPS + 1e-44), "{}", ctx("add", qlane(&ad, i), qadd(w, v)));
            let x = w[k] * f[i] as f64;
            ensure!(close(qlane(&mn, i)[k], x, x.abs() * 2.0 * EPS + 1e-44), "{}", ctx("mul_num", qlane(&mn, i), qscale(w, f[i] as f64)));
        }
        near("mul", qlane(&mu, i), qmul(u, v), 12.0 * EPS)?;
        let lw = qlen(w);
        near("mul", qlane(&rm, i), qmul(w, v), 12.0 * EPS * (lw + 1e-30))?;
        if lw > 1e-17 && lw < 1e17 { near("normalize", qlane(&nz, i), qnorm(w), 12.0 * EPS)?; }
        ensure!(close(dt.to_array()[i] as f64, qdot(w, v), 8.0 * EPS * lw + 1e-44), "dot, lane {i}: {:e}, exactly {:e}", dt.to_array()[i], qdot(w, v));
        let (want, len) = nlerp(u, v, t[i] as f64);
        if len > 1e-3 { near("nlerp", qlane(&nl, i), want, 20.0 * EPS / len)?; }
        let neg = w[3] < 0.0;
        near("positive_w", qlane(&pw, i), if neg { qscale(w, -1.0) } else { w }, 0.0)?;
        ensure!(qlane(&pw, i)[3] >= 0.0, "positive_w, lane {i}: w = {}", qlane(&pw, i)[3]);
    }
    let i = s.below(4);
    let g = r.quat(i);
    ensure!((0..4).all(|k| g.to_array()[k].to_bits() == qa(&r)[k][i].to_bits()), "quat({i}) = {g:?} of {r:?}");
    let mut e = r;
    let n: Quat = b.quat((i + 1) % 4);
    e.set_quat(i, n);
    for k in 0..4 {
        let want = if k == i { n } else { r.quat(k) };
        ensure!(same_bits(&e.quat(k).to_array(), &want.to_array()), "set_quat({i}) leaves lane {k} at {:?}, expected {want:?}", e.quat(k));
    }
    let sp = SoaQuat::splat_quat(g);
    ensure!((0..4).all(|k| same_bits(&sp.quat(k).to_array(), &g.to_array())), "splat_quat({g:?}) = {sp:?}");
    let m = [s.draw(1 << 32) as u32, s.draw(1 << 32) as u32, 0x8000_0000, 0xffff_ffff];
    let mi = i32x4::from_array(m.map(|m| m as i32));
    let z = SoaQuat::new(raw_lanes(s), raw_lanes(s), raw_lanes(s), raw_lanes(s));
    let (a, o, e) = (qa(&z.and_num(mi)), qa(&z.or_num(mi)), qa(&z.xor_num(mi)));
    for k in 0..4 {
        for i in 0..4 {
            let b = qa(&z)[k][i].to_bits();
            ensure!(a[k][i].to_bits() == b & m[i] && o[k][i].to_bits() == b | m[i] && e[k][i].to_bits() == b ^ m[i], "SoaQuat bit operations of {b:#x} with {:#x}", m[i]);
        }
    }
    Ok(())
}

fn c20_affine(s: &mut Src, c: &mut Case) -> Res {
    let (t, q, k) = (sv3(s), squat(s), sv3(s));
    c.nontrivial = true;
    c.describe(|| format!("t {t:?} q {q:?} s {k:?}"));
    let m = SoaMat4::from_affine(&t, &q, &k);
    for i in 0..4 {
        let (ti, ki) = (v3(t.vec3(i)), v3(k.vec3(i)));
        let want = affine(ti, qlane(&q, i), ki);
        for col in 0..4 {
            for row in 0..4 {
                let got = m.cols[col * 4 + row].to_array()[i];
                let w = want[col][row];
                let tol = if col == 3 || row == 3 { 0.0 } else { ki[col].abs() * 16.0 * EPS + 1e-44 };
                ensure!(close(got as f64, w, tol), "from_affine, lane {i} column {col} row {row}: {got:e}, exactly {w:e}");
            }
        }
    }
    let (x, idx) = (SoaTransform::new(t, q, k), s.below(4));
    let one = x.transform(idx);
    ensure!(Vec3::from(one.translation) == t.vec3(idx) && Vec3::from(one.scale) == k.vec3(idx) && one.rotation == q.quat(idx), "transform({idx}) = {one:?} of {x:?}");
    let new = Transform3A { translation: Vec3A::from(k.vec3(idx)), rotation: q.quat((idx + 1) % 4), scale: Vec3A::from(t.vec3(idx)) };
    let mut y = x;
    y.set_transform(idx, new);
    for i in 0..4 {
        let want = if i == idx { new } else { x.transform(i) };
        ensure!(y.transform(i) == want, "set_transform({idx}) leaves lane {i} at {:?}, expected {want:?}", y.transform(i));
    }
    let sp = SoaTransform::splat_transform(new);
    ensure!((0..4).all(|i| sp.transform(i) == new), "splat_transform({new:?}) = {sp:?}");
    Ok(())
}

fn c20_constants(_: &mut Src, c: &mut Case) -> Res {
    c.nontrivial = true;
    c.describe(|| "constants".into());
    let vs = [
        (SoaVec3::ZERO, [0.0; 3]), (SoaVec3::ONE, [1.0; 3]), (SoaVec3::NEG_ONE, [-1.0; 3]),
        (SoaVec3::X, [1.0, 0.0, 0.0]), (SoaVec3::Y, [0.0, 1.0, 0.0]), (SoaVec3::Z, [0.0, 0.0, 1.0]),
        (SoaVec3::NEG_X, [-1.0, 0.0, 0.0]), (SoaVec3::NEG_Y, [0.0, -1.0, 0.0]), (SoaVec3::NEG_Z, [0.0, 0.0, -1.0]),
        (SoaVec3::MIN, [f32::MIN; 3]), (SoaVec3::MAX, [f32::MAX; 3]), (SoaVec3::INFINITY, [f32::INFINITY; 3]), (SoaVec3::NEG_INFINITY, [f32::NEG_INFINITY; 3]),
    ];
    for (v, w) in vs {
        for i in 0..4 { ensure!(v.vec3(i).to_array() == w, "a SoaVec3 constant has lane {i} = {:?}, expected {w:?}", v.vec3(i)); }
    }
    for i in 0..4 {
        ensure!(SoaVec3::NAN.vec3(i).to_array().iter().all(|x| x.is_nan()) && SoaQuat::NAN.quat(i).to_array().iter().all(|x| x.is_nan()), "NAN constants");
        ensure!(SoaQuat::ZERO.quat(i).to_array() == [0.0; 4] && SoaQuat::IDENTITY.quat(i).to_array() == [0.0, 0.0, 0.0, 1.0], "SoaQuat constants");
        ensure!(SoaTransform::IDENTITY.transform(i) == Transform3A::IDENTITY, "SoaTransform::IDENTITY");
        let z = SoaTransform::ZERO.transform(i);
        ensure!(z.translation == Vec3A::ZERO && z.scale == Vec3A::ZERO && z.rotation.to_array() == [0.0; 4], "SoaTransform::ZERO");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C20",
        rule: "an operand other than zero and inside the function's domain",
        assumptions: &["operand magnitudes up to 1e5 for the SoA arithmetic; tolerances are a few roundings of each operation"],
        facets: &[
            Facet { name: "constants", run: c20_constants, quick: 1, thorough: 1 },
            Facet { name: "trig", run: c20_trig, quick: 16_000_000, thorough: 800_000_000 },
            Facet { name: "trig_runs", run: c20_trig_runs, quick: 160_000, thorough: 8_000_000 },
            Facet { name: "inverse", run: c20_inverse, quick: 16_000_000, thorough: 800_000_000 },
            Facet { name: "inverse_runs", run: c20_inverse_runs, quick: 160_000, thorough: 8_000_000 },
            Facet { name: "vec3", run: c20_vec3, quick: 4_000_000, thorough: 200_000_000 },
            Facet { name: "quat", run: c20_quat, quick: 4_000_000, thorough: 200_000_000 },
            Facet { name: "affine", run: c20_affine, quick: 4_000_000, thorough: 200_000_000 },
        ],
    }]
}
