//! Independent reference mathematics in f64.

pub type V3 = [f64; 3];
pub type Q = [f64; 4]; // x y z w
pub type M4 = [[f64; 4]; 4]; // columns

/// IEEE binary16 value.
pub fn f16(h: u16) -> f64 {
    let s = if h & 0x8000 != 0 { -1.0 } else { 1.0 };
    let e = ((h >> 10) & 31) as i32;
    let m = (h & 1023) as f64;
    match e {
        0 => s * m * 2f64.powi(-24),
        31 => {
            if m == 0.0 {
                s * f64::INFINITY
            } else {
                f64::NAN
            }
        }
        _ => s * (1.0 + m / 1024.0) * 2f64.powi(e - 15),
    }
}

/// Packed quaternion key: fields (largest, sign, three 15-bit values).
pub fn quat_fields(k: [u16; 3]) -> (usize, bool, [u32; 3]) {
    let all: u64 = k[0] as u64 | (k[1] as u64) << 16 | (k[2] as u64) << 32;
    (
        (all & 3) as usize,
        (all >> 2) & 1 == 1,
        [((all >> 3) & 0x7fff) as u32, ((all >> 18) & 0x7fff) as u32, ((all >> 33) & 0x7fff) as u32],
    )
}
pub fn quat_pack(largest: usize, sign: bool, v: [u32; 3]) -> [u16; 3] {
    let all: u64 = largest as u64 | (sign as u64) << 2 | (v[0] as u64) << 3 | (v[1] as u64) << 18 | (v[2] as u64) << 33;
    [all as u16, (all >> 16) as u16, (all >> 32) as u16]
}
/// (quaternion, 1 - sum of squares of the three stored components)
pub fn quat_decode(k: [u16; 3]) -> (Q, f64) {
    let (l, sign, v) = quat_fields(k);
    let mut q = [0.0; 4];
    let mut j = 0;
    let mut dot = 0.0;
    for i in 0..4 {
        if i == l {
            continue;
        }
        let c = v[j] as f64 * (2f64.sqrt() / 32767.0) - 2f64.sqrt() / 2.0;
        q[i] = c;
        dot += c * c;
        j += 1;
    }
    let w = (1.0 - dot).max(0.0).sqrt();
    q[l] = if sign { -w } else { w };
    (q, 1.0 - dot)
}
pub fn quat_encode(q: Q) -> [u16; 3] {
    let mut l = 0;
    for i in 1..4 {
        if q[i].abs() > q[l].abs() {
            l = i;
        }
    }
    let mut v = [0u32; 3];
    let mut j = 0;
    for i in 0..4 {
        if i == l {
            continue;
        }
        let s = (q[i] + 2f64.sqrt() / 2.0) / (2f64.sqrt() / 32767.0) + 0.5;
        v[j] = s.floor().clamp(0.0, 32767.0) as u32;
        j += 1;
    }
    quat_pack(l, q[l] < 0.0, v)
}

pub fn lerp3(a: V3, b: V3, t: f64) -> V3 {
    [a[0] + (b[0] - a[0]) * t, a[1] + (b[1] - a[1]) * t, a[2] + (b[2] - a[2]) * t]
}
pub fn qdot(a: Q, b: Q) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
}
pub fn qlen(a: Q) -> f64 {
    qdot(a, a).sqrt()
}
pub fn qscale(a: Q, s: f64) -> Q {
    [a[0] * s, a[1] * s, a[2] * s, a[3] * s]
}
pub fn qadd(a: Q, b: Q) -> Q {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]]
}
pub fn qnorm(a: Q) -> Q {
    let l = qlen(a);
    qscale(a, 1.0 / l)
}
pub fn qconj(a: Q) -> Q {
    [-a[0], -a[1], -a[2], a[3]]
}
pub fn qmul(a: Q, b: Q) -> Q {
    [
        a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1],
        a[3] * b[1] + a[1] * b[3] + a[2] * b[0] - a[0] * b[2],
        a[3] * b[2] + a[2] * b[3] + a[0] * b[1] - a[1] * b[0],
        a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2],
    ]
}
pub fn nlerp(a: Q, b: Q, t: f64) -> (Q, f64) {
    let l = qadd(qscale(a, 1.0 - t), qscale(b, t));
    let n = qlen(l);
    (qscale(l, 1.0 / n), n)
}
pub fn dot(a: V3, b: V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: V3, b: V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn len(a: V3) -> f64 {
    dot(a, a).sqrt()
}
pub fn add(a: V3, b: V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: V3, b: V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn scale(a: V3, s: f64) -> V3 {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn norm(a: V3) -> V3 {
    scale(a, 1.0 / len(a))
}
pub fn qrot(q: Q, v: V3) -> V3 {
    let u = [q[0], q[1], q[2]];
    let uv = cross(u, v);
    let uuv = cross(u, uv);
    let n2 = qdot(q, q);
    add(v, scale(add(scale(uv, q[3]), uuv), 2.0 / n2))
}
pub fn axis_angle(axis: V3, a: f64) -> Q {
    let (s, c) = (a / 2.0).sin_cos();
    [axis[0] * s, axis[1] * s, axis[2] * s, c]
}

pub const ID4: M4 = [[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0]];

/// translation * rotation * scale
pub fn affine(t: V3, q: Q, s: V3) -> M4 {
    let [x, y, z, w] = q;
    let r = [
        [1.0 - 2.0 * (y * y + z * z), 2.0 * (x * y + z * w), 2.0 * (x * z - y * w)],
        [2.0 * (x * y - z * w), 1.0 - 2.0 * (x * x + z * z), 2.0 * (y * z + x * w)],
        [2.0 * (x * z + y * w), 2.0 * (y * z - x * w), 1.0 - 2.0 * (x * x + y * y)],
    ];
    let mut m = ID4;
    for c in 0..3 {
        for i in 0..3 {
            m[c][i] = r[c][i] * s[c];
        }
        m[3][c] = t[c];
    }
    m
}
pub fn mmul(a: M4, b: M4) -> M4 {
    let mut m = [[0.0; 4]; 4];
    for c in 0..4 {
        for r in 0..4 {
            m[c][r] = (0..4).map(|k| a[k][r] * b[c][k]).sum();
        }
    }
    m
}
pub fn mpoint(m: M4, v: V3) -> V3 {
    let mut o = [0.0; 3];
    for r in 0..3 {
        o[r] = m[0][r] * v[0] + m[1][r] * v[1] + m[2][r] * v[2] + m[3][r];
    }
    o
}
pub fn mvec(m: M4, v: V3) -> V3 {
    let mut o = [0.0; 3];
    for r in 0..3 {
        o[r] = m[0][r] * v[0] + m[1][r] * v[1] + m[2][r] * v[2];
    }
    o
}
/// Inverse of an affine matrix (last row 0 0 0 1).
pub fn minv(m: M4) -> M4 {
    let a = [m[0][0], m[0][1], m[0][2]];
    let b = [m[1][0], m[1][1], m[1][2]];
    let c = [m[2][0], m[2][1], m[2][2]];
    let det = dot(a, cross(b, c));
    let r0 = scale(cross(b, c), 1.0 / det);
    let r1 = scale(cross(c, a), 1.0 / det);
    let r2 = scale(cross(a, b), 1.0 / det);
    let t = [m[3][0], m[3][1], m[3][2]];
    let mut o = ID4;
    for k in 0..3 {
        o[k][0] = r0[k];
        o[k][1] = r1[k];
        o[k][2] = r2[k];
    }
    o[3] = [-dot(r0, t), -dot(r1, t), -dot(r2, t), 1.0];
    o
}
pub fn from_mat4(m: &glam::Mat4) -> M4 {
    let a = m.to_cols_array_2d();
    let mut o = ID4;
    for c in 0..4 {
        for r in 0..4 {
            o[c][r] = a[c][r] as f64;
        }
    }
    o
}
pub fn v3(v: glam::Vec3) -> V3 {
    [v.x as f64, v.y as f64, v.z as f64]
}
pub fn v3a(v: glam::Vec3A) -> V3 {
    [v.x as f64, v.y as f64, v.z as f64]
}
pub fn q4(v: glam::Quat) -> Q {
    [v.x as f64, v.y as f64, v.z as f64, v.w as f64]
}
/// |a - b| within tol, treating equal infinities and NaNs as equal.
pub fn close(a: f64, b: f64, tol: f64) -> bool {
    (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= tol
}
