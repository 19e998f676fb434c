//! Reference model: plain f64 linear algebra, row vectors.
use crate::*;

pub fn d4(x: F4) -> D4 {
    [x[0] as f64, x[1] as f64, x[2] as f64, x[3] as f64]
}
pub fn d3(x: [f32; 3]) -> D3 {
    [x[0] as f64, x[1] as f64, x[2] as f64]
}
pub fn dm(m: &M4) -> DM {
    let mut r = [[0.0; 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            r[i][j] = m[i][j] as f64;
        }
    }
    r
}
pub fn fm(m: &DM) -> M4 {
    let mut r = [[0.0; 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            r[i][j] = m[i][j] as f32;
        }
    }
    r
}
pub const ID: DM = [[1., 0., 0., 0.], [0., 1., 0., 0.], [0., 0., 1., 0.], [0., 0., 0., 1.]];
pub fn mmul(a: &DM, b: &DM) -> DM {
    let mut r = [[0.0; 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            r[i][j] = (0..4).map(|k| a[i][k] * b[k][j]).sum();
        }
    }
    r
}
pub fn mt(a: &DM) -> DM {
    let mut r = [[0.0; 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            r[i][j] = a[j][i];
        }
    }
    r
}
pub fn vm(v: D4, m: &DM) -> D4 {
    let mut r = [0.0; 4];
    for j in 0..4 {
        r[j] = (0..4).map(|k| v[k] * m[k][j]).sum();
    }
    r
}
fn minor(m: &DM, r: usize, c: usize) -> f64 {
    let rs: Vec<usize> = (0..4).filter(|i| *i != r).collect();
    let cs: Vec<usize> = (0..4).filter(|i| *i != c).collect();
    let g = |i: usize, j: usize| m[rs[i]][cs[j]];
    g(0, 0) * (g(1, 1) * g(2, 2) - g(1, 2) * g(2, 1)) - g(0, 1) * (g(1, 0) * g(2, 2) - g(1, 2) * g(2, 0))
        + g(0, 2) * (g(1, 0) * g(2, 1) - g(1, 1) * g(2, 0))
}
pub fn det(m: &DM) -> f64 {
    (0..4).map(|j| (if j % 2 == 0 { 1.0 } else { -1.0 }) * m[0][j] * minor(m, 0, j)).sum()
}
pub fn inv(m: &DM) -> Option<DM> {
    let d = det(m);
    if d == 0.0 {
        return None;
    }
    let mut r = [[0.0; 4]; 4];
    for i in 0..4 {
        for j in 0..4 {
            let s = if (i + j) % 2 == 0 { 1.0 } else { -1.0 };
            r[j][i] = s * minor(m, i, j) / d;
        }
    }
    Some(r)
}
pub fn maxabs(m: &DM) -> f64 {
    m.iter().flatten().fold(0.0, |a, b| a.max(b.abs()))
}

pub fn dot3(a: D3, b: D3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross3(a: D3, b: D3) -> D3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn add3(a: D3, b: D3) -> D3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub3(a: D3, b: D3) -> D3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn mul3(a: D3, s: f64) -> D3 {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn len3(a: D3) -> f64 {
    dot3(a, a).sqrt()
}
pub fn norm3(a: D3) -> D3 {
    mul3(a, 1.0 / len3(a))
}

/// Hamilton product a*b of (x,y,z,w) quaternions.
pub fn qham(a: D4, b: D4) -> D4 {
    [
        a[3] * b[0] + a[0] * b[3] + a[1] * b[2] - a[2] * b[1],
        a[3] * b[1] - a[0] * b[2] + a[1] * b[3] + a[2] * b[0],
        a[3] * b[2] + a[0] * b[1] - a[1] * b[0] + a[2] * b[3],
        a[3] * b[3] - a[0] * b[0] - a[1] * b[1] - a[2] * b[2],
    ]
}
pub fn qconj(a: D4) -> D4 {
    [-a[0], -a[1], -a[2], a[3]]
}
pub fn qdot(a: D4, b: D4) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
}
pub fn qnorm(a: D4) -> D4 {
    let l = qdot(a, a).sqrt();
    [a[0] / l, a[1] / l, a[2] / l, a[3] / l]
}
/// Rotate v by unit quaternion q: q v q*.
pub fn qrot(q: D4, v: D3) -> D3 {
    let r = qham(qham(q, [v[0], v[1], v[2], 0.0]), qconj(q));
    [r[0], r[1], r[2]]
}
/// Row-vector rotation matrix of a unit quaternion.
pub fn qmat(q: D4) -> DM {
    let mut m = ID;
    for i in 0..3 {
        let mut e = [0.0; 3];
        e[i] = 1.0;
        let r = qrot(q, e);
        for j in 0..3 {
            m[i][j] = r[j];
        }
    }
    m
}
pub fn qaxis(axis: D3, ang: f64) -> D4 {
    let n = norm3(axis);
    let (s, c) = (ang * 0.5).sin_cos();
    [n[0] * s, n[1] * s, n[2] * s, c]
}
pub fn trans(t: D3) -> DM {
    let mut m = ID;
    m[3][0] = t[0];
    m[3][1] = t[1];
    m[3][2] = t[2];
    m
}
pub fn scal(s: D3) -> DM {
    let mut m = ID;
    for i in 0..3 {
        m[i][i] = s[i];
    }
    m
}
pub fn chain(ms: &[DM]) -> DM {
    ms.iter().fold(ID, |a, b| mmul(&a, b))
}
