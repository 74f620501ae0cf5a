//! C07 skeleton queries, C08 local-to-model.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::p_params::any;
use crate::refm::*;
use glam::Mat4;
use ozz_animation_rs::*;

/// Children-before... independent description of the tree.
fn is_descendant(parents: &[i16], i: usize, from: usize) -> bool {
    let mut j = i as i32;
    while j >= 0 {
        if j as usize == from {
            return true;
        }
        j = parents[j as usize] as i32;
    }
    false
}

fn joint_count(s: &mut Src) -> usize {
    match s.draw(20) {
        0 => 0,
        1 => 100 + s.below(200),
        2 => 1000 + s.below(25),
        _ => 1 + s.len(50),
    }
}

fn c07_queries(s: &mut Src, c: &mut Case) -> Res {
    let n = joint_count(s);
    let spec = skel_spec(s, n);
    let sk = skel(&spec);
    let p = &spec.parents;
    c.describe(|| format!("parents {p:?}"));
    c.nontrivial = n > 2 && p.iter().any(|x| *x >= 0);
    if p.iter().filter(|x| **x < 0).count() > 1 {
        c.label("several roots");
    }
    ensure!(sk.num_joints() == n, "num_joints() = {} of {n}", sk.num_joints());
    ensure!(sk.num_soa_joints() == n.div_ceil(4), "num_soa_joints() = {} for {n} joints", sk.num_soa_joints());
    ensure!(sk.num_aligned_joints() == n.div_ceil(4) * 4, "num_aligned_joints() = {} for {n} joints", sk.num_aligned_joints());
    ensure!(sk.joint_parents() == &p[..], "joint_parents() = {:?}", sk.joint_parents());
    ensure!(sk.joint_rest_poses().len() == n.div_ceil(4), "{} rest poses", sk.joint_rest_poses().len());
    ensure!(sk.joint_names().len() == n, "{} names for {n} joints", sk.joint_names().len());
    for i in 0..n {
        ensure!(bits(&soa_get(sk.joint_rest_poses(), i)) == bits(&spec.rest[i]), "rest pose of joint {i} differs");
        ensure!(sk.joint_parent(i) == p[i] && sk.joint_parent(i as i16) == p[i] && sk.joint_parent(i as i32) == p[i], "joint_parent({i}) = {}", sk.joint_parent(i));
        let leaf = !p.iter().any(|x| *x == i as i16);
        ensure!(sk.is_leaf(i) == leaf && sk.is_leaf(i as i16) == leaf && sk.is_leaf(i as i32) == leaf, "is_leaf({i}) is {} but {} joint has parent {i}", sk.is_leaf(i), if leaf { "no" } else { "a" });
        let nm = &spec.names[i];
        ensure!(sk.joint_by_name(nm) == Some(i as i16), "joint_by_name({nm:?}) = {:?}, want {i}", sk.joint_by_name(nm));
        ensure!(sk.name_by_joint(i as i16) == Some(nm.as_str()), "name_by_joint({i}) = {:?}, want {nm:?}", sk.name_by_joint(i as i16));
    }
    for bad in [-1i16, n as i16, n as i16 + 1, i16::MAX, i16::MIN] {
        ensure!(sk.name_by_joint(bad).is_none(), "name_by_joint({bad}) = {:?} in a skeleton of {n}", sk.name_by_joint(bad));
    }
    let mut foreign = vec![name(s, 4), "j".to_string(), "J0".to_string(), " j0".to_string(), "j0\0".to_string()];
    if n > 0 {
        let k = s.below(n);
        foreign.push(format!("{} ", spec.names[k]));
        foreign.push(spec.names[k].to_uppercase());
    }
    for f in foreign {
        let want = spec.names.iter().position(|x| *x == f).map(|i| i as i16);
        ensure!(sk.joint_by_name(&f) == want, "joint_by_name({f:?}) = {:?}, want {want:?}", sk.joint_by_name(&f));
    }
    Ok(())
}

/// Skeletons that come and go: each answers for itself, whatever was loaded,
/// asked and dropped before it and whatever lives next to it.
fn c07_reload(s: &mut Src, c: &mut Case) -> Res {
    let n = 1 + s.below(12);
    let mut pool: Vec<String> = (0..n).map(|i| format!("j{i}")).collect();
    if s.bool() {
        // the last one is in some skeletons only
        pool.push("k0".to_string());
    }
    let mut alive: Vec<(SkelSpec, Skeleton)> = Vec::new();
    let rounds = 2 + s.below(6);
    let mut asked = 0;
    for round in 0..rounds {
        let mut spec = skel_spec(s, n);
        let mut names = pool.clone();
        match s.draw(3) {
            0 => {}
            1 => names.rotate_left(s.below(pool.len())),
            _ => for i in (1..names.len()).rev() { names.swap(i, s.below(i + 1)); },
        }
        names.truncate(n);
        spec.names = names;
        while !alive.is_empty() && s.draw(4) != 3 {
            let k = s.below(alive.len());
            alive.swap_remove(k);
        }
        let sk = skel(&spec);
        alive.push((spec, sk));
        for _ in 0..s.below(7) {
            let (spec, sk) = &alive[if s.bool() { alive.len() - 1 } else { s.below(alive.len()) }];
            asked += 1;
            let j = s.below(n);
            match s.draw(6) {
                0 => {
                    ensure!(sk.name_by_joint(j as i16) == Some(spec.names[j].as_str()), "round {round}: name_by_joint({j}) = {:?}, want {:?}", sk.name_by_joint(j as i16), spec.names[j]);
                }
                1 => {
                    let leaf = !spec.parents.contains(&(j as i16));
                    ensure!(sk.is_leaf(j) == leaf && sk.joint_parent(j) == spec.parents[j], "round {round}: joint {j} is_leaf {} joint_parent {} of {:?}", sk.is_leaf(j), sk.joint_parent(j), spec.parents);
                }
                2 => {
                    let mut seen = Vec::new();
                    sk.iter_depth_first(j as i32, |j, p| seen.push((j, p)));
                    let want: Vec<(i16, i16)> = (0..n).filter(|i| is_descendant(&spec.parents, *i, j)).map(|i| (i as i16, spec.parents[i])).collect();
                    seen.sort_unstable();
                    ensure!(seen == want, "round {round}: iteration from {j} visits {seen:?}, want {want:?}");
                }
                _ => {
                    let nm = s.pick(&pool);
                    let want = spec.names.iter().position(|x| x == nm).map(|i| i as i16);
                    ensure!(sk.joint_by_name(nm) == want, "round {round}: joint_by_name({nm:?}) = {:?}, want {want:?} in {:?}", sk.joint_by_name(nm), spec.names);
                }
            }
        }
    }
    c.describe(|| format!("{rounds} skeletons of {n}, {asked} queries"));
    c.nontrivial = n > 2 && asked > 2;
    Ok(())
}

fn c07_traverse(s: &mut Src, c: &mut Case) -> Res {
    let n = joint_count(s);
    let p = parents(s, n);
    let spec = SkelSpec { names: (0..n).map(|i| format!("{i}")).collect(), rest: vec![XF_ID; n.div_ceil(4) * 4], parents: p.clone() };
    let sk = skel(&spec);
    c.describe(|| format!("parents {p:?}"));
    c.nontrivial = n > 2 && p.iter().any(|x| *x >= 0);
    let mut starts: Vec<i32> = vec![-1, -2, i32::MIN, n as i32, n as i32 + 5, i32::MAX];
    if n > 60 {
        for _ in 0..20 {
            starts.push(s.below(n) as i32);
        }
    } else {
        starts.extend(0..n as i32);
    }
    for from in starts {
        let mut seen: Vec<(i16, i16)> = Vec::new();
        let f = |j: i16, q: i16| seen.push((j, q));
        if from >= -2 && from <= 2000 && s.bool() { sk.iter_depth_first(from as i16, f) } else { sk.iter_depth_first(from, f) }
        let want: Vec<usize> = (0..n).filter(|i| from < 0 || is_descendant(&p, *i, from as usize)).collect();
        let mut got: Vec<usize> = seen.iter().map(|x| x.0 as usize).collect();
        for (k, (j, q)) in seen.iter().enumerate() {
            ensure!(*j >= 0 && (*j as usize) < n, "iteration from {from} visits joint {j} of {n}");
            ensure!(*q == p[*j as usize], "iteration from {from} reports parent {q} of joint {j}, it is {}", p[*j as usize]);
            if *q >= 0 && want.contains(&(*q as usize)) {
                ensure!(seen[..k].iter().any(|x| x.0 == *q), "iteration from {from} visits joint {j} before its parent {q}");
            }
        }
        got.sort_unstable();
        ensure!(got == want, "iteration from {from} visits {got:?} instead of {want:?}");
    }
    let mut seen: Vec<(i16, i16)> = Vec::new();
    sk.iter_depth_first_reverse(|j, q| seen.push((j, q)));
    let mut done = vec![false; n];
    for (j, q) in &seen {
        ensure!(*j >= 0 && (*j as usize) < n && !done[*j as usize], "reverse iteration visits joint {j} twice or out of range");
        ensure!(*q == p[*j as usize], "reverse iteration reports parent {q} of joint {j}");
        if *q >= 0 {
            ensure!(!done[*q as usize], "reverse iteration visits joint {q} before its child {j}");
        }
        done[*j as usize] = true;
    }
    ensure!(done.iter().all(|d| *d), "reverse iteration misses joints: {} of {n} visited", seen.len());
    Ok(())
}

// ------------------------------------------------------------------ C08

fn mat_bits(m: &Mat4) -> [u32; 16] {
    m.to_cols_array().map(f32::to_bits)
}
fn mat_mag(m: &M4) -> f64 {
    m.iter().flatten().fold(0.0, |a, x| x.abs().max(a))
}

/// parent * local, in f64, and the tolerance of computing it in f32.
fn mul_ref(parent: &M4, x: &Xf) -> (M4, M4) {
    let (t, q, sc) = xf64(x);
    let l = affine(t, q, sc);
    let want = mmul(*parent, l);
    let mut tol = [[0.0; 4]; 4];
    let ls = [sc[0].abs(), sc[1].abs(), sc[2].abs()];
    for col in 0..4 {
        for row in 0..4 {
            let mut m = 0.0;
            for k in 0..3 {
                // every element of the rotation is at most 1 with absolute rounding of a few ulps
                let lk = if col < 3 { ls[col] } else { t[k].abs() };
                m += parent[k][row].abs() * lk;
            }
            if col == 3 {
                m += parent[3][row].abs();
            }
            // the last row of an affine parent stays what it is, exactly
            let exact = row == 3 && (0..3).all(|k| parent[k][3] == 0.0);
            tol[col][row] = if exact { 0.0 } else { m * 4e-6 + 1e-30 };
        }
    }
    (want, tol)
}

fn check_joint(got: &Mat4, parent: &M4, x: &Xf, what: impl Fn() -> String) -> Res {
    let g = from_mat4(got);
    if mat_mag(parent).is_nan() || mat_mag(parent) > 1e30 {
        return Ok(()); // out of f32's comfortable range after a long chain of scales
    }
    let (w, tol) = mul_ref(parent, x);
    for c in 0..4 {
        for r in 0..4 {
            ensure!((g[c][r] - w[c][r]).abs() <= tol[c][r], "{}: element column {c} row {r} is {} instead of {} (local {x:?})", what(), g[c][r], w[c][r]);
        }
    }
    Ok(())
}

pub fn root_mat(s: &mut Src) -> Mat4 {
    let (t, q, sc) = xf64(&xform(s));
    let m = affine(t, q, sc);
    let mut a = [[0f32; 4]; 4];
    for c in 0..4 {
        for r in 0..4 {
            a[c][r] = m[c][r] as f32;
        }
    }
    Mat4::from_cols_array_2d(&a)
}

/// A root matrix: mostly a transform, now and then any matrix at all (a
/// projection, a last element that is not one).
pub fn root_any(s: &mut Src) -> Mat4 {
    let mut m = root_mat(s);
    match s.draw(12) {
        9 => m.w_axis.w = s.real(4.0),
        10 => {
            m.x_axis.w = s.real(2.0);
            m.y_axis.w = s.real(2.0);
            m.z_axis.w = s.real(2.0);
        }
        11 => {
            let v: [f32; 16] = std::array::from_fn(|_| s.real(5.0));
            m = Mat4::from_cols_array(&v);
        }
        _ => {}
    }
    m
}

/// Now and then a joint with components far from one.
fn wild(s: &mut Src, locals: &mut [Xf]) {
    if locals.is_empty() || !s.one_in(6) {
        return;
    }
    for _ in 0..1 + s.below(3) {
        let j = s.below(locals.len());
        let k = *s.pick(&[0, 1, 2, 7, 8, 9, 7, 8, 9]);
        let m = s.irange(-20, 20) as i32;
        locals[j][k] = (1.0 + s.unit()) * 2f32.powi(m) * if s.bool() { -1.0 } else { 1.0 };
    }
}

fn l2m(sk: &Skeleton, locals: &[SoaTransform], root: Option<&Mat4>, range: Option<(i32, i32, bool)>, out: &mut [Mat4]) -> Res {
    let mut job: LocalToModelJob<&Skeleton, &[SoaTransform], &mut [Mat4]> = LocalToModelJob::default();
    job.set_skeleton(sk);
    job.set_input(locals);
    if let Some(r) = root {
        job.set_root(r);
    }
    if let Some((f, t, e)) = range {
        job.set_from(f);
        job.set_to(t);
        job.set_from_excluded(e);
    }
    job.set_output(out);
    ensure!(job.validate(), "valid job not accepted");
    job.run().map_err(|e| format!("valid job failed: {e:?}"))
}

fn c08_full(s: &mut Src, c: &mut Case) -> Res {
    let n = match s.draw(16) { 0 => 100 + s.below(200), 1 => 1000 + s.below(24), _ => 1 + s.len(60) };
    let spec = skel_spec(s, n);
    let sk = skel(&spec);
    let mut locals = pose(s, n);
    if n > 40 {
        // keep long chains of scales within f32's range
        for l in locals.iter_mut() { for v in &mut l[7..10] { *v = (1.0 + v.abs() % 0.25).copysign(*v) / 1.1; } }
    }
    wild(s, &mut locals);
    let mut soa = to_soa(&locals, &XF_ID);
    for k in 0..s.below(3) { soa.push(soa_sentinel(k as u32)); }
    let root = if s.bool() { Some(root_any(s)) } else { None };
    let extra = s.below(4);
    let dirty = Mat4::from_cols_array(&[f32::NAN, 7.0, -3.0, 1e30, 5.0, 5.0, 5.0, 5.0, -1.0, 2.0, f32::INFINITY, 4.0, 0.0, 0.0, 9.0, 8.0]);
    let mut out = vec![dirty; n + extra];
    c.describe(|| format!("parents {:?} root {root:?}", spec.parents));
    c.nontrivial = n > 1 && spec.parents.iter().any(|x| *x >= 0);
    let range = match s.draw(3) {
        0 => None,
        1 => Some((-1, SKELETON_MAX_JOINTS.max(n as i32), s.bool())),
        _ => Some((*s.pick(&[-1, -2, -1000, i32::MIN]), *s.pick(&[n as i32 - 1, n as i32, n as i32 + 1, 5000, i32::MAX]), s.bool())),
    };
    l2m(&sk, &soa, root.as_ref(), range, &mut out)?;
    let id = root.as_ref().map(from_mat4).unwrap_or(ID4);
    for i in 0..n {
        let pm = if spec.parents[i] < 0 { id } else { from_mat4(&out[spec.parents[i] as usize]) };
        check_joint(&out[i], &pm, &locals[i], || format!("range {range:?}: joint {i} of {n}"))?;
    }
    for k in n..n + extra {
        ensure!(mat_bits(&out[k]) == mat_bits(&dirty), "output {k} beyond the {n} joints was written");
    }
    // the product over all ancestors, once more from scratch, for shallow trees
    let depth = |mut i: i32| { let mut d = 0; while i >= 0 { d += 1; i = spec.parents[i as usize] as i32; } d };
    for i in 0..n.min(40) {
        if depth(i as i32) <= 4 {
            let mut m = ID4;
            let mut j = i as i32;
            let mut mag = 1.0;
            while j >= 0 {
                let (t, q, sc) = xf64(&locals[j as usize]);
                let l = affine(t, q, sc);
                mag *= 4.0 * mat_mag(&l).max(1.0);
                m = mmul(l, m);
                j = spec.parents[j as usize] as i32;
            }
            m = mmul(id, m);
            mag *= 4.0 * mat_mag(&id).max(1.0);
            let g = from_mat4(&out[i]);
            for cc in 0..4 { for r in 0..4 {
                ensure!((g[cc][r] - m[cc][r]).abs() <= mag * 1e-6, "joint {i}: column {cc} row {r} is {}, product of ancestors gives {}", g[cc][r], m[cc][r]);
            } }
        }
    }
    Ok(())
}

/// Mostly a few joints, now and then hundreds or the most a skeleton may have.
fn joints(s: &mut Src, max: usize) -> usize {
    if s.one_in(80) { 60 + s.below(240) } else if s.one_in(400) { 1000 + s.below(24) } else { 1 + s.len(max) }
}
/// Keeps long chains of scales within f32's range.
fn tame(n: usize, locals: &mut [Xf]) {
    if n > 62 {
        for l in locals.iter_mut() { for v in &mut l[7..10] { *v = (1.0 + v.abs() % 0.25).copysign(*v) / 1.1; } }
    }
}

fn c08_partial(s: &mut Src, c: &mut Case) -> Res {
    let n = joints(s, 40);
    let spec = skel_spec(s, n);
    let p = spec.parents.clone();
    let sk = skel(&spec);
    let mut locals = pose(s, n);
    tame(n, &mut locals);
    wild(s, &mut locals);
    let root = if s.bool() { Some(root_any(s)) } else { None };
    let id = root.as_ref().map(from_mat4).unwrap_or(ID4);
    let mut out = vec![Mat4::IDENTITY; n + 2];
    l2m(&sk, &to_soa(&locals, &XF_ID), root.as_ref(), None, &mut out)?;
    let mut fresh = true; // out is the full update of locals
    let ops = 1 + s.below(8);
    let mut updated_some = false;
    for op in 0..ops {
        match s.draw(5) {
            0 => {
                let i = s.below(n);
                locals[i] = xform(s);
                tame(n, &mut locals[i..i + 1]);
                wild(s, &mut locals[i..i + 1]);
                fresh = false;
            }
            1 => {
                let i = s.below(n);
                out[i] = root_any(s);
                fresh = false;
            }
            2 => {
                locals = pose(s, n);
                tame(n, &mut locals);
                fresh = false;
            }
            _ => {}
        }
        let ext = [-1, -2, -7, n as i32 - 1, n as i32, n as i32 + 1, 1024, 1023, i32::MIN, i32::MAX, i32::MAX - 1];
        let from = if s.draw(4) == 3 { *s.pick(&ext) } else { s.below(n) as i32 };
        let to = match s.draw(4) {
            0 => n as i32 - 1,
            1 => *s.pick(&ext),
            _ => s.below(n) as i32,
        };
        let ex = s.bool();
        let before = out.clone();
        c.describe(|| format!("from {from} to {to} excluded {ex}"));
        l2m(&sk, &to_soa(&locals, &XF_ID), root.as_ref(), Some((from, to, ex)), &mut out)?;
        for i in 0..n + 2 {
            let upd = i < n && i as i64 <= to as i64 && (from < 0 || (is_descendant(&p, i, from as usize) && !(ex && i as i32 == from)));
            if !upd {
                ensure!(mat_bits(&out[i]) == mat_bits(&before[i]), "op {op}, from {from} to {to} excluded {ex}: joint {i} is outside the range but was rewritten");
            } else {
                updated_some = true;
                let pm = if p[i] < 0 { id } else { from_mat4(&out[p[i] as usize]) };
                check_joint(&out[i], &pm, &locals[i], || format!("op {op}, from {from} to {to} excluded {ex}: joint {i}"))?;
                if fresh {
                    ensure!(mat_bits(&out[i]) == mat_bits(&before[i]), "op {op}, from {from} to {to} excluded {ex}: nothing changed but joint {i} got other bits than the full update");
                }
            }
        }
        if s.draw(4) == 0 {
            // full refresh
            l2m(&sk, &to_soa(&locals, &XF_ID), root.as_ref(), None, &mut out)?;
            fresh = true;
        }
    }
    c.describe(|| format!("parents {p:?} root {}", root.is_some()));
    c.nontrivial = n > 2 && updated_some;
    Ok(())
}

/// A partial update after changing one joint equals a full update, bit for bit.
fn c08_incremental(s: &mut Src, c: &mut Case) -> Res {
    let n = 1 + joints(s, 60);
    let spec = skel_spec(s, n);
    let sk = skel(&spec);
    let mut locals = pose(s, n);
    wild(s, &mut locals);
    let root = if s.bool() { Some(root_any(s)) } else { None };
    let mut out = vec![Mat4::IDENTITY; n];
    l2m(&sk, &to_soa(&locals, &XF_ID), root.as_ref(), None, &mut out)?;
    let j = s.below(n);
    locals[j] = xform(s);
    wild(s, &mut locals[j..j + 1]);
    // another joint below the changed one may change too
    let k = s.below(n);
    if is_descendant(&spec.parents, k, j) {
        locals[k] = xform(s);
    }
    let soa = to_soa(&locals, &XF_ID);
    c.describe(|| format!("parents {:?}, joint {j} changed", spec.parents));
    c.nontrivial = (0..n).filter(|i| is_descendant(&spec.parents, *i, j)).count() > 1;
    let mut full = vec![Mat4::ZERO; n];
    l2m(&sk, &soa, root.as_ref(), None, &mut full)?;
    // one partial update, or joint by joint, or two abutting ranges
    match s.draw(3) {
        0 => l2m(&sk, &soa, root.as_ref(), Some((j as i32, 5000, false)), &mut out)?,
        1 => {
            l2m(&sk, &soa, root.as_ref(), Some((j as i32, j as i32, false)), &mut out)?;
            l2m(&sk, &soa, root.as_ref(), Some((j as i32, n as i32, true)), &mut out)?;
        }
        _ => {
            for i in 0..n {
                if is_descendant(&spec.parents, i, j) {
                    l2m(&sk, &soa, root.as_ref(), Some((i as i32, i as i32, false)), &mut out)?;
                }
            }
        }
    }
    for i in 0..n {
        ensure!(mat_bits(&out[i]) == mat_bits(&full[i]), "joint {i} after a partial update from {j} is {:?}, a full update gives {:?}", out[i], full[i]);
    }
    Ok(())
}

/// Only a joint's own ancestors matter to it: whatever the others hold - NaN,
/// infinities, anything - its matrix keeps its bits.
fn c08_unrelated(s: &mut Src, c: &mut Case) -> Res {
    let n = 1 + joints(s, 60);
    let spec = skel_spec(s, n);
    let sk = skel(&spec);
    let mut locals = pose(s, n);
    wild(s, &mut locals);
    let root = if s.bool() { Some(root_any(s)) } else { None };
    let mut out = vec![Mat4::IDENTITY; n];
    l2m(&sk, &to_soa(&locals, &XF_ID), root.as_ref(), None, &mut out)?;
    // keep some joints and all they descend from, change everything else
    let mut keep = vec![false; n];
    for _ in 0..1 + s.below(3) {
        let mut j = s.below(n) as i32;
        while j >= 0 {
            keep[j as usize] = true;
            j = spec.parents[j as usize] as i32;
        }
    }
    let mut other = locals.clone();
    let part = s.bool();
    for (j, x) in other.iter_mut().enumerate() {
        if keep[j] { continue; }
        for v in x.iter_mut() { if !part || s.bool() { *v = any(s); } }
    }
    c.describe(|| format!("parents {:?} root {root:?}; kept {keep:?}", spec.parents));
    c.nontrivial = keep.iter().any(|k| !k);
    let dirty = Mat4::from_cols_array(&[f32::NAN; 16]);
    let mut again = vec![dirty; n];
    l2m(&sk, &to_soa(&other, &[f32::NAN; 10]), root.as_ref(), None, &mut again)?;
    for i in 0..n {
        if keep[i] {
            ensure!(mat_bits(&out[i]) == mat_bits(&again[i]), "joint {i} becomes {:?} instead of {:?} when joints it does not descend from change to {:?}", again[i], out[i], other);
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C07",
            rule: "at least three joints, at least one of them with a parent",
            assumptions: &["joints are stored in depth-first order and joint names are unique, as the offline tools guarantee"],
            facets: &[
                Facet { name: "queries", run: c07_queries, quick: 240_000, thorough: 12_000_000 },
                Facet { name: "reload", run: c07_reload, quick: 120_000, thorough: 6_000_000 },
                Facet { name: "traversal", run: c07_traverse, quick: 240_000, thorough: 12_000_000 },
            ],
        },
        Prop {
            id: "C08",
            rule: "at least two joints with a parent-child pair; partial updates: at least one joint rewritten; incremental: the changed joint has descendants",
            assumptions: &["rotations are unit quaternions (to f32 rounding)", "joints are stored in depth-first order"],
            facets: &[
                Facet { name: "full", run: c08_full, quick: 600_000, thorough: 30_000_000 },
                Facet { name: "partial", run: c08_partial, quick: 800_000, thorough: 40_000_000 },
                Facet { name: "unrelated", run: c08_unrelated, quick: 400_000, thorough: 20_000_000 },
                Facet { name: "incremental", run: c08_incremental, quick: 400_000, thorough: 20_000_000 },
            ],
        },
    ]
}
