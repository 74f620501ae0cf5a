//! C13 skinning.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::p_params::{any, any_mat};
use crate::refm::*;
use glam::{Mat4, Vec3};
use ozz_animation_rs::*;

#[derive(Clone, Debug)]
pub struct Skin {
    pub vertices: usize,
    pub influences: usize,
    pub matrices: Vec<Mat4>,
    pub it: Option<Vec<Mat4>>,
    pub indices: Vec<u16>,
    pub weights: Option<Vec<f32>>,
    pub pos: Vec<Vec3>,
    pub nor: Option<Vec<Vec3>>,
    pub tan: Option<Vec<Vec3>>,
    /// lengths of the output buffers
    pub out: [Option<usize>; 3],
}

fn matrix(s: &mut Src) -> Mat4 {
    let x = xform(s);
    let (t, q, sc) = xf64(&x);
    let m = affine(t, q, sc);
    let mut a = [[0f32; 4]; 4];
    for c in 0..4 {
        for r in 0..4 {
            a[c][r] = m[c][r] as f32;
        }
    }
    Mat4::from_cols_array_2d(&a)
}
fn matrix_cheap(r: &mut Rng) -> Mat4 {
    let mut a = [0f32; 16];
    for v in a.iter_mut() {
        *v = (r.next() >> 40) as f32 / (1u64 << 22) as f32 - 2.0;
    }
    for k in 0..3 {
        a[4 * k + 3] = 0.0;
    }
    a[15] = 1.0;
    Mat4::from_cols_array(&a)
}
fn vecs(s: &mut Src, n: usize) -> Vec<Vec3> {
    (0..n).map(|_| vec3(s, 8.0)).collect()
}

pub fn skin_case(s: &mut Src, max_vertices: usize) -> Skin {
    let n = if s.one_in(40) { 14 + s.below(120) } else { *s.pick(&[1usize, 2, 3, 4, 5, 6, 8, 13]) };
    let max_vertices = if n > 13 { 3 } else { max_vertices };
    let v = if s.one_in(200) { 60 + s.below(1000) } else { match s.draw(6) { 0 => 0, 1 => 1, _ => s.len(max_vertices) } };
    let extra = |s: &mut Src| if s.draw(3) == 0 { 1 + s.below(4) } else { 0 };
    // palettes beyond 8-bit and 15-bit indices
    let nm = if s.one_in(3000) { *s.pick(&[32768usize, 40000, 65536]) } else if s.one_in(60) { *s.pick(&[255usize, 256, 257, 300, 1030]) } else { 1 + s.len(24) };
    let cheap = nm > 6;
    let mut rng = Rng::new(s.draw(1 << 32));
    let mats = |s: &mut Src, rng: &mut Rng| -> Vec<Mat4> { (0..nm).map(|_| if cheap { matrix_cheap(rng) } else { matrix(s) }).collect() };
    let matrices = mats(s, &mut rng);
    let it = if s.bool() {
        let mut m = mats(s, &mut rng);
        // a matrix for every index in use, sometimes more or fewer than positions have
        for _ in 0..extra(s) {
            m.push(matrix_cheap(&mut rng));
        }
        Some(m)
    } else {
        None
    };
    let ni = v * n + extra(s);
    let indices: Vec<u16> = (0..ni).map(|_| if nm > 250 && s.bool() { nm - 1 - s.below(4) } else { s.below(nm) } as u16).collect();
    let weights = if n > 1 || s.bool() {
        let nw = v * (n - 1) + extra(s);
        let mode = s.draw(4);
        Some((0..nw).map(|_| match mode { 0 => s.unit() / n as f32, 1 => *s.pick(&[0.0, 1.0, 0.5, 0.25]), 2 => s.sym(1.5), _ => s.unit() * 2.0 / n as f32 }).collect())
    } else {
        None
    };
    let pnt = s.draw(3);
    let np = v + extra(s);
    let pos = vecs(s, np);
    let other = |s: &mut Src, on: bool| if on { let k = v + extra(s); Some(vecs(s, k)) } else { None };
    let nor = other(s, pnt >= 1);
    let tan = other(s, pnt >= 2);
    // outputs without inputs are allowed and stay untouched
    let mut out = [Some(v + extra(s)), None, None];
    out[1] = if pnt >= 1 || s.draw(4) == 3 { Some(v + extra(s)) } else { None };
    out[2] = if pnt >= 2 || s.draw(4) == 3 { Some(v + extra(s)) } else { None };
    Skin { vertices: v, influences: n, matrices, it, indices, weights, pos, nor, tan, out }
}

pub const UNTOUCHED: Vec3 = Vec3::new(12345.5, -777.25, 0.0625);
pub type Outs = [Vec<Vec3>; 3];

pub fn run_skin(k: &Skin, vertices: usize) -> (Result<(), OzzError>, bool, Outs) {
    let mut o: Outs = [0, 1, 2].map(|i| vec![UNTOUCHED; k.out[i].unwrap_or(0)]);
    let [o0, o1, o2] = &mut o;
    let mut j: SkinningJobRef = SkinningJob::default();
    j.set_vertex_count(vertices);
    j.set_influences_count(k.influences);
    j.set_joint_matrices(&k.matrices);
    if let Some(m) = &k.it { j.set_joint_it_matrices(m); }
    j.set_joint_indices(&k.indices);
    if let Some(w) = &k.weights { j.set_joint_weights(w); }
    j.set_in_positions(&k.pos);
    if let Some(x) = &k.nor { j.set_in_normals(x); }
    if let Some(x) = &k.tan { j.set_in_tangents(x); }
    if k.out[0].is_some() { j.set_out_positions(o0); }
    if k.out[1].is_some() { j.set_out_normals(o1); }
    if k.out[2].is_some() { j.set_out_tangents(o2); }
    let ok = j.validate();
    let r = j.run();
    drop(j);
    (r, ok, o)
}

/// f64 weights of one vertex's influences.
fn weights_of(k: &Skin, i: usize) -> Vec<f64> {
    let n = k.influences;
    let mut w: Vec<f64> = (0..n - 1).map(|j| k.weights.as_ref().unwrap()[i * (n - 1) + j] as f64).collect();
    w.push(1.0 - w.iter().sum::<f64>());
    w
}
fn combine(k: &Skin, ms: &[Mat4], i: usize, v: V3, point: bool) -> (V3, f64) {
    let w = weights_of(k, i);
    let aw: f64 = w.iter().map(|x| x.abs()).sum::<f64>() + 1.0;
    let mut o = [0.0; 3];
    let mut mag: f64 = 0.0;
    for j in 0..k.influences {
        let m = from_mat4(&ms[k.indices[i * k.influences + j] as usize]);
        let p = if point { mpoint(m, v) } else { mvec(m, v) };
        for r in 0..3 {
            o[r] += w[j] * p[r];
            let g: f64 = (0..3).map(|c| (m[c][r] * v[c]).abs()).sum::<f64>() + if point { m[3][r].abs() } else { 0.0 };
            mag = mag.max(g);
        }
    }
    (o, mag * aw * (k.influences as f64 + 4.0) * 2e-7 + 1e-30)
}
fn bits3(v: Vec3) -> [u32; 3] { v.to_array().map(f32::to_bits) }

fn c13_reference(s: &mut Src, c: &mut Case) -> Res {
    let k = skin_case(s, 24);
    c.describe(|| format!("{} vertices, {} influences, {} matrices, it {:?}, normals {} tangents {}; {k:?}", k.vertices, k.influences, k.matrices.len(), k.it.as_ref().map(|x| x.len()), k.nor.is_some(), k.tan.is_some()));
    c.nontrivial = k.vertices > 0;
    c.label(match (k.nor.is_some(), k.tan.is_some(), k.it.is_some()) {
        (false, _, _) => "positions",
        (true, false, false) => "positions, normals",
        (true, true, false) => "positions, normals, tangents",
        (true, false, true) => "positions, normals, inverse-transpose",
        (true, true, true) => "positions, normals, tangents, inverse-transpose",
    });
    compare(&k)
}

fn compare(k: &Skin) -> Res {
    let (r, ok, o) = run_skin(k, k.vertices);
    ensure!(ok, "validate() rejects a valid job");
    ensure!(r.is_ok(), "valid job failed: {r:?}");
    let empty = Vec::new();
    let itm = k.it.as_ref().unwrap_or(&k.matrices);
    for (what, input, ms, out, point) in [
        ("position", Some(&k.pos), &k.matrices, &o[0], true),
        ("normal", k.nor.as_ref(), itm, &o[1], false),
        ("tangent", k.tan.as_ref(), itm, &o[2], false),
    ] {
        let done = if input.is_some() { k.vertices } else { 0 };
        let input = input.unwrap_or(&empty);
        for i in 0..out.len() {
            if i >= done {
                ensure!(bits3(out[i]) == bits3(UNTOUCHED), "{what} {i} of {done} vertices is written: {:?}", out[i]);
                continue;
            }
            let (want, tol) = combine(k, ms, i, v3(input[i]), point);
            let got = v3(out[i]);
            ensure!((0..3).all(|r| (got[r] - want[r]).abs() <= tol), "{what} of vertex {i} is {got:?}, want {want:?} (tolerance {tol}; {} influences, indices {:?} weights {:?})", k.influences, &k.indices[i * k.influences..(i + 1) * k.influences], weights_of(&k, i));
        }
    }
    Ok(())
}

/// More vertices, and more values per vertex, than 16 bits count.
fn c13_huge(s: &mut Src, c: &mut Case) -> Res {
    let n = 1 + s.below(6);
    let v = 65_537 + s.below(4_000);
    let nm = 2 + s.below(300);
    let mut r = Rng::new(s.draw(1 << 32));
    let matrices: Vec<Mat4> = (0..nm).map(|_| matrix_cheap(&mut r)).collect();
    let it = s.bool().then(|| (0..nm).map(|_| matrix_cheap(&mut r)).collect());
    let indices = (0..v * n).map(|_| (r.next() % nm as u64) as u16).collect();
    let weights = (n > 1).then(|| (0..v * (n - 1)).map(|_| (r.next() >> 40) as f32 / ((1u64 << 24) as f32 * n as f32)).collect());
    let mut vecs = || -> Vec<Vec3> { (0..v).map(|_| Vec3::from([0; 3].map(|_| (r.next() >> 40) as f32 / (1u64 << 22) as f32 - 2.0))).collect() };
    let pnt = s.draw(3);
    let k = Skin { vertices: v, influences: n, matrices, it, indices, weights, pos: vecs(), nor: (pnt >= 1).then(&mut vecs), tan: (pnt >= 2).then(&mut vecs), out: [Some(v), (pnt >= 1).then_some(v), (pnt >= 2).then_some(v)] };
    c.describe(|| format!("{v} vertices, {n} influences, {nm} matrices, it {}, normals {} tangents {}", k.it.is_some(), pnt >= 1, pnt >= 2));
    c.nontrivial = true;
    compare(&k)
}

/// Indices without a matrix are errors wherever they occur; unused ones are not.
fn c13_indices(s: &mut Src, c: &mut Case) -> Res {
    let mut k = skin_case(s, 12);
    let used = k.vertices * k.influences;
    let nm = k.matrices.len();
    for i in used..k.indices.len() {
        k.indices[i] = 65535;
    }
    // which matrix set is short
    let short_it = k.nor.is_some() && k.it.is_some() && s.bool();
    if short_it {
        let m = k.it.as_mut().unwrap();
        m.truncate(s.below(nm + 1));
    }
    let itn = if short_it { k.it.as_ref().unwrap().len() } else { nm };
    if used > 0 && s.bool() {
        let at = match s.draw(3) { 0 => 0, 1 => used - 1, _ => s.below(used) };
        k.indices[at] = match s.draw(3) { 0 => nm as u16, 1 => 65535, _ => (nm + s.below(1000)) as u16 };
    }
    let bad = k.indices[..used].iter().any(|i| *i as usize >= nm || *i as usize >= itn);
    c.describe(|| format!("{} vertices, {} influences, {nm} matrices, {itn} inverse-transpose, indices {:?}", k.vertices, k.influences, k.indices));
    c.nontrivial = bad;
    let (r, _, o) = run_skin(&k, k.vertices);
    if bad {
        ensure!(matches!(r, Err(OzzError::InvalidIndex)), "an index without a matrix gives {r:?} instead of InvalidIndex (indices {:?}, {nm} matrices)", k.indices);
    } else {
        ensure!(r.is_ok(), "all used indices have matrices, but run() gives {r:?} (indices {:?}, {nm} matrices, {itn} inverse-transpose)", k.indices);
    }
    for i in 0..3 {
        for (v, x) in o[i].iter().enumerate().skip(k.vertices) {
            ensure!(bits3(*x) == bits3(UNTOUCHED), "entry {v} beyond {} vertices is written", k.vertices);
        }
    }
    Ok(())
}

/// A vertex's result does not depend on the other vertices, and influences that
/// share a joint, or have zero weight, do not count.
fn c13_relations(s: &mut Src, c: &mut Case) -> Res {
    let k = skin_case(s, 10);
    if k.vertices == 0 { return Ok(()); }
    c.nontrivial = true;
    let i = s.below(k.vertices);
    let n = k.influences;
    // the other vertices, and the matrices and weights only they use, may hold anything
    let mut full = k.clone();
    if s.draw(3) == 0 {
        c.label("anything in the other vertices");
        let used = &k.indices[i * n..(i + 1) * n];
        for j in (0..k.matrices.len().min(64)).filter(|j| !used.contains(&(*j as u16))) {
            full.matrices[j] = any_mat(s);
            if let Some(m) = &mut full.it { m[j] = any_mat(s); }
        }
        for v in (0..k.vertices).filter(|v| *v != i) {
            let wild = |s: &mut Src| Vec3::new(any(s), any(s), any(s));
            full.pos[v] = wild(s);
            if let Some(x) = &mut full.nor { x[v] = wild(s); }
            if let Some(x) = &mut full.tan { x[v] = wild(s); }
            if let Some(w) = &mut full.weights { for j in 0..n - 1 { w[v * (n - 1) + j] = any(s); } }
        }
    }
    let (r, _, o) = run_skin(&full, k.vertices);
    ensure!(r.is_ok(), "valid job failed: {r:?}");
    let mut one = k.clone();
    one.vertices = 1;
    one.indices = k.indices[i * n..(i + 1) * n].to_vec();
    one.weights = k.weights.as_ref().filter(|_| n > 1).map(|w| w[i * (n - 1)..(i + 1) * (n - 1)].to_vec());
    one.pos = vec![k.pos[i]];
    one.nor = k.nor.as_ref().map(|x| vec![x[i]]);
    one.tan = k.tan.as_ref().map(|x| vec![x[i]]);
    one.out = [Some(1), k.nor.as_ref().map(|_| 1), k.tan.as_ref().map(|_| 1)];
    c.describe(|| format!("vertex {i} of {k:?}"));
    let (r, _, p) = run_skin(&one, 1);
    ensure!(r.is_ok(), "valid job failed: {r:?}");
    for w in 0..3 {
        if !p[w].is_empty() {
            ensure!(bits3(p[w][0]) == bits3(o[w][i]), "vertex {i} alone gives {:?}, among {} vertices {:?} (output {w})", p[w][0], k.vertices, o[w][i]);
        }
    }
    // one more influence of any joint with zero weight, in front (so that the last keeps the rest)
    let mut more = one.clone();
    more.influences = n + 1;
    more.indices.insert(0, s.below(k.matrices.len()) as u16);
    let mut w = more.weights.take().unwrap_or_default();
    w.insert(0, 0.0);
    more.weights = Some(w);
    let (r, _, q) = run_skin(&more, 1);
    ensure!(r.is_ok(), "valid job failed: {r:?}");
    let itm = one.it.as_ref().unwrap_or(&one.matrices);
    for w in 0..3 {
        if q[w].is_empty() { continue; }
        let (a, b) = (v3(p[w][0]), v3(q[w][0]));
        let v = [Some(&one.pos), one.nor.as_ref(), one.tan.as_ref()][w].unwrap()[0];
        let tol = combine(&one, if w == 0 { &one.matrices } else { itm }, 0, v3(v), w == 0).1 * 4.0 + combine(&more, if w == 0 { &one.matrices } else { itm }, 0, v3(v), w == 0).1;
        ensure!((0..3).all(|r| (a[r] - b[r]).abs() <= tol), "a zero-weight influence changes output {w} from {a:?} to {b:?}");
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C13",
        rule: "at least one vertex (indices: a used index has no matrix)",
        assumptions: &["affine joint matrices; results within a forward error bound of the f64 sum"],
        facets: &[
            Facet { name: "reference", run: c13_reference, quick: 8_000_000, thorough: 400_000_000 },
            Facet { name: "indices", run: c13_indices, quick: 4_000_000, thorough: 200_000_000 },
            Facet { name: "huge", run: c13_huge, quick: 64, thorough: 3_200 },
            Facet { name: "relations", run: c13_relations, quick: 4_000_000, thorough: 200_000_000 },
        ],
    }]
}
