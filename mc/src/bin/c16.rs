//! C16: matrix, quaternion, axis-angle and Euler forms describe the same rotation.
use mc::dom::*;
use mc::refm::*;
use mc::*;
use std::f64::consts::PI;

fn unitq(al: &[f32]) -> Vec<F4> {
    let mut v: Vec<F4> = vec4s(al).into_iter().filter(|q| q.iter().any(|x| *x != 0.0)).map(|q| qnorm(d4(q)).map(|x| x as f32)).collect();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    v
}
fn hm(m: &M4) -> u64 {
    m.iter().flatten().fold(0u64, |a, b| (a ^ b.to_bits() as u64).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23))
}
fn qd(g: F4, w: D4) -> f64 {
    (0..4).map(|i| (g[i] as f64 - w[i]).abs()).fold(0.0, |a, b| if b.is_nan() { f64::INFINITY } else { a.max(b) })
}
/// distance up to the sign of the quaternion (both describe the same rotation)
fn qd2(g: F4, w: D4) -> f64 {
    qd(g, w).min(qd(g, w.map(|x| -x)))
}
fn md(g: &M4, w: &DM) -> f64 {
    let mut e = 0.0f64;
    for i in 0..4 {
        for j in 0..4 {
            let d = (g[i][j] as f64 - w[i][j]).abs();
            e = if d.is_nan() { f64::INFINITY } else { e.max(d) };
        }
    }
    e
}

fn main() {
    Ctx::main("C16", |c| {
        let th = c.thorough();
        let meas = std::env::var("MC_MEASURE").is_ok();
        let mut worst: std::collections::BTreeMap<&str, f64> = Default::default();
        let mut up = |k: &'static str, e: f64| {
            let x = worst.entry(k).or_insert(0.0);
            *x = x.max(e);
        };
        let na = if th { 360 } else { 32 };
        let mut angs: Vec<f32> = (-na..=na).map(|i| (i as f64 * PI * 2.0 / na as f64) as f32).collect();
        angs.extend([0.1, -0.1, 1.0e-3, 3.1, 10.0, -9.0, -8.0e-3, -5.0e-4, 6.0e-5, 3.1406, -3.1425, 1.5702, 6.2829, -1.0e-6]);
        let mut axes = vec3s(if th { &[-2.0f32, -1.0, -0.25, 0.0, 0.5, 1.0, 3.0] } else { &[-2.0f32, -0.25, 0.0, 1.0, 3.0] });
        axes.retain(|v| v.iter().any(|x| *x != 0.0));
        // every octave of angle, from zero and from each quarter turn; every octave of each axis component
        let mut angl = octaves(-26, 2);
        for q in -4..=4 {
            for e in octaves(-20, -4) {
                angl.push((q as f64 * PI / 2.0 + e as f64) as f32);
            }
        }
        let base_axes = axes.len();
        axes.extend([[0.6, -0.48, 0.64], [-0.0003, 1.0, 0.002], [0.9, 0.02, -0.0007]]);
        let few_axes: Vec<usize> = [0, base_axes / 3, base_axes / 2, base_axes - 1].iter().cloned().chain(base_axes..axes.len()).collect();
        axes.extend(star(&[[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, 1.0], [0.7, -2.0, 1.1]], &octaves(-24, 24)));
        c.sweep("axis and angle", |sw| {
            for (i, v) in axes.iter().enumerate() {
                let sub = [0.3f32, -2.9, 1.0e-3, 5.5];
                let angs: Vec<f32> = if i < base_axes { angs.clone() } else { sub.to_vec() };
                let angs: Vec<f32> = if few_axes.contains(&i) { angs.iter().chain(&angl).cloned().collect() } else { angs };
                let n = norm3(d3(*v));
                let nf = [n[0] as f32, n[1] as f32, n[2] as f32];
                let j = [0.0f32, 100.0, -3.0][i % 3];
                for &a in &angs {
                    let w = qaxis(n, a as f64);
                    sw.state();
                    let g = XMQuaternionRotationAxis(v3w(*v, j), a);
                    up("axis", qd(fb(g), w));
                    sw.tv(qd(fb(g), w) <= 2.0e-6, g, || (format!("XMQuaternionRotationAxis {:?} {:?}", v, a), format!("{:?}", w)));
                    let g = XMQuaternionRotationNormal(v3w(nf, j), a);
                    sw.tv(qd(fb(g), w) <= 2.0e-6, g, || (format!("XMQuaternionRotationNormal {:?} {:?}", nf, a), format!("{:?}", w)));
                    // quaternion route and matrix route agree with each other
                    let m1 = mb(XMMatrixRotationQuaternion(g));
                    let m2 = mb(XMMatrixRotationAxis(v3w(*v, j), a));
                    up("axis->matrix", md(&m1, &dm(&m2)));
                    sw.t(md(&m1, &dm(&m2)) <= 4.0e-6, hm(&m1), || (format!("axis {:?} angle {:?}", v, a), sm(&m1), format!("XMMatrixRotationAxis {}", sm(&m2))));
                }
            }
        });
        let mut eul: Vec<f32> = vec![0.0, 0.3, -0.7, 1.5707964, -1.5707964, 3.1415927, 2.2, -3.0, 7.0e-3, -5.0e-4, 4.0e-5, 1.5698];
        if th {
            eul.extend([0.05, -0.05, 1.0, -2.0, 4.0, -5.0, 6.2831855, 0.78539819]);
        }
        c.sweep("roll pitch yaw", |sw| {
            let mut es = vec3s(&eul);
            es.extend(star(&[[0.0, 0.0, 0.0], [0.3, -0.7, 2.2], [1.5, -3.0, 0.01], [1.5707964, 0.2, -1.0]], &angl));
            for e in octaves(-26, 1) {
                es.extend([[e, e, e], [e, -e, 0.5 * e], [0.0, e, e], [e, 0.0, e], [e, e, 0.0]]);
            }
            for (i, v) in es.iter().enumerate() {
                let (p, y, r) = (qaxis([1.0, 0.0, 0.0], v[0] as f64), qaxis([0.0, 1.0, 0.0], v[1] as f64), qaxis([0.0, 0.0, 1.0], v[2] as f64));
                // roll first, then pitch, then yaw
                let w = qham(y, qham(p, r));
                sw.state();
                let g = XMQuaternionRotationRollPitchYaw(v[0], v[1], v[2]);
                up("rpy", qd2(fb(g), w));
                sw.tv(qd2(fb(g), w) <= 2.0e-6, g, || (format!("XMQuaternionRotationRollPitchYaw {:?}", v), format!("+-{:?}", w)));
                let g = XMQuaternionRotationRollPitchYawFromVector(v3w(*v, [0.0, 100.0, -3.0][i % 3]));
                sw.tv(qd2(fb(g), w) <= 2.0e-6, g, || (format!("XMQuaternionRotationRollPitchYawFromVector {:?}", v), format!("+-{:?}", w)));
                let m1 = mb(XMMatrixRotationQuaternion(g));
                let m2 = mb(XMMatrixRotationRollPitchYaw(v[0], v[1], v[2]));
                sw.t(md(&m1, &dm(&m2)) <= 4.0e-6, hm(&m1), || (format!("rpy {:?}", v), sm(&m1), format!("XMMatrixRotationRollPitchYaw {}", sm(&m2))));
            }
        });
        // unit quaternions: lattice (all sign patterns, all dominance orders, ties), near-axis ones, the octahedral group
        let mut qs = unitq(if th { &[-3.0f32, -2.0, -1.0, 0.0, 0.5, 1.0, 2.0] } else { &[-2.0f32, -1.0, 0.0, 0.5, 1.0] });
        for e in [1.0e-6f64, 1.0e-4, 1.0e-2, 0.1, 1.5707963, 3.13, 3.1415926] {
            for ax in [[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 2.0, -3.0]] {
                qs.push(qaxis(ax, e).map(|x| x as f32));
            }
        }
        // every octave away from the special rotations, one component at a time
        let mut oq: Vec<F4> = vec![];
        for b in [[0.0, 0.0, 0.0, 1.0], [0.0, 0.0, 0.0, -1.0], [1.0, 0.0, 0.0, 0.0], [0.0, -1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.5, 0.5, 0.5, 0.5], [-0.5, 0.5, 0.5, -0.5], [0.6, 0.8, 0.0, 0.0], [0.6, 0.0, -0.48, 0.64]] {
            for i in 0..4 {
                for e in octaves(-26, -1) {
                    let mut q: D4 = b;
                    q[i] += e as f64;
                    oq.push(qnorm(q).map(|x| x as f32));
                }
            }
        }
        c.sweep("matrix <-> quaternion", |sw| {
            for (i, q) in qs.iter().chain(&oq).enumerate() {
                let w = qmat(d4(*q));
                sw.state();
                let m = XMMatrixRotationQuaternion(vf(*q));
                up("qmat", md(&mb(m), &w));
                sw.t(md(&mb(m), &w) <= 1.0e-6, hm(&mb(m)), || (format!("XMMatrixRotationQuaternion {}", sf(*q)), sm(&mb(m)), format!("{:?}", w)));
                let g = XMQuaternionRotationMatrix(m);
                up("mat->q", qd2(fb(g), d4(*q)));
                sw.tv(qd2(fb(g), d4(*q)) <= 3.0e-6, g, || (format!("XMQuaternionRotationMatrix of the matrix of {}", sf(*q)), format!("+-{}", sf(*q))));
                // the same from the reference matrix, with a translation that must not matter
                let mut f = fm(&w);
                f[3] = [[0.0, 0.0, 0.0, 1.0], [5.0, -7.0, 100.0, 1.0]][i % 2];
                let g = XMQuaternionRotationMatrix(mf(f));
                sw.tv(qd2(fb(g), d4(*q)) <= 3.0e-6, g, || (format!("XMQuaternionRotationMatrix {}", sm(&f)), format!("+-{}", sf(*q))));
                let back = mb(XMMatrixRotationQuaternion(g));
                sw.t(md(&back, &w) <= 4.0e-6, hm(&back), || (format!("matrix -> quaternion -> matrix, {}", sm(&f)), sm(&back), format!("{:?}", w)));
            }
        });
        c.sweep("rotate and inverse rotate", |sw| {
            let vs = vec3s(&[-2.0f32, 0.0, 1.0, 5.0]);
            for (i, q) in qs.iter().enumerate() {
                let m = XMMatrixRotationQuaternion(vf(*q));
                for (k, v) in vs.iter().enumerate() {
                    // powers of two scale the answer exactly
                    let s = [1.0f32, 1.0, 0.0001220703125, 4096.0, 3.814697265625e-6][(2 * i + k) % 5];
                    let v = &v.map(|x| x * s);
                    let sd = s as f64;
                    let x = v3w(*v, [0.0, 100.0, f32::NAN, f32::INFINITY][(i + k) % 4]);
                    let w = qrot(d4(*q), d3(*v));
                    let wi = qrot(qconj(d4(*q)), d3(*v));
                    sw.state();
                    let g = XMVector3Rotate(x, vf(*q));
                    let e = |g: XMVECTOR, w: D3| (0..3).map(|l| (fb(g)[l] as f64 - w[l]).abs() / sd).fold(0.0f64, |a, b| if b.is_nan() { f64::INFINITY } else { a.max(b) });
                    up("rotate", e(g, w));
                    sw.tv(e(g, w) <= 8.0e-6, g, || (format!("XMVector3Rotate {:?} by {}", v, sf(*q)), format!("{:?}", w)));
                    let g2 = XMVector3InverseRotate(x, vf(*q));
                    sw.tv(e(g2, wi) <= 8.0e-6, g2, || (format!("XMVector3InverseRotate {:?} by {}", v, sf(*q)), format!("{:?}", wi)));
                    let g3 = XMVector3TransformNormal(x, m);
                    sw.tv(e(g3, w) <= 8.0e-6, g3, || (format!("XMVector3TransformNormal {:?} by the matrix of {}", v, sf(*q)), format!("{:?}", w)));
                    let g4 = XMVector3InverseRotate(g, vf(*q));
                    sw.tv(e(g4, d3(*v)) <= 1.6e-5, g4, || (format!("rotate then inverse rotate {:?} by {}", v, sf(*q)), format!("{:?}", v)));
                }
            }
        });
        c.sweep("rotate by octaves", |sw| {
            let vs = star(&[[0.0f32, 0.0, 0.0], [1.0, -2.0, 0.75]], &octaves(-30, 30));
            let one = [[1.0f32, -2.0, 0.75], [0.0, 3.0, 0.0]];
            let mut chk = |q: F4, v: [f32; 3]| {
                let x = v3w(v, 7.0);
                let sd = v.iter().fold(0.0f64, |a, b| a.max(b.abs() as f64));
                let (w, wi) = (qrot(d4(q), d3(v)), qrot(qconj(d4(q)), d3(v)));
                sw.state();
                let e = |g: XMVECTOR, w: D3| (0..3).map(|l| (fb(g)[l] as f64 - w[l]).abs() / sd).fold(0.0f64, |a, b| if b.is_nan() { f64::INFINITY } else { a.max(b) });
                let g = XMVector3Rotate(x, vf(q));
                sw.tv(e(g, w) <= 2.0e-6, g, || (format!("XMVector3Rotate {:?} by {}", v, sf(q)), format!("{:?}", w)));
                let g = XMVector3InverseRotate(x, vf(q));
                sw.tv(e(g, wi) <= 2.0e-6, g, || (format!("XMVector3InverseRotate {:?} by {}", v, sf(q)), format!("{:?}", wi)));
            };
            for q in qs.iter().step_by(if th { 7 } else { 29 }) {
                for v in &vs {
                    chk(*q, *v);
                }
            }
            for q in &oq {
                for v in one {
                    chk(*q, v);
                }
            }
        });
        c.sweep("XMQuaternionToAxisAngle", |sw| {
            // half angles closing in on 0, pi/2 and pi around a few axes, besides the rotation set
            let mut near = vec![];
            for base in [0.0, PI / 2.0, PI] {
                for k in 0..if th { 40 } else { 20 } {
                    for sg in [-1.0, 1.0] {
                        let h: f64 = base + sg * 2f64.powf(-0.5 * k as f64);
                        for a in [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, -1.0], [0.6, -0.8, 0.0], [2.0 / 3.0, 2.0 / 3.0, 1.0 / 3.0]] {
                            near.push([(a[0] * h.sin()) as f32, (a[1] * h.sin()) as f32, (a[2] * h.sin()) as f32, h.cos() as f32]);
                        }
                    }
                }
            }
            for q in qs.iter().chain(near.iter()).chain(oq.iter()) {
                let vl = len3([q[0] as f64, q[1] as f64, q[2] as f64]);
                if vl < 1.0e-3 {
                    continue; // no axis
                }
                let (mut ax, mut an) = (vf([9.0; 4]), 9.0f32);
                sw.state();
                XMQuaternionToAxisAngle(&mut ax, &mut an, vf(*q));
                let a = fb(ax);
                let s = (a[0] as f64 * q[0] as f64 + a[1] as f64 * q[1] as f64 + a[2] as f64 * q[2] as f64) / (vl * len3([a[0] as f64, a[1] as f64, a[2] as f64]));
                let want = 2.0 * vl.atan2(q[3] as f64);
                let tol = 4.0e-6 / vl.max(1.0e-3);
                let ok = (s - 1.0).abs() < 1.0e-5 && (an as f64 - want).abs() <= tol;
                sw.tv(ok, ax, || (format!("{} angle {}", sf(*q), an), format!("axis along the vector part, angle {}", want)));
                let back = XMQuaternionRotationAxis(ax, an);
                up("axisangle back", qd2(fb(back), d4(*q)) * vl);
                sw.tv(qd2(fb(back), d4(*q)) <= tol, back, || (format!("axis-angle and back, {}", sf(*q)), format!("+-{}", sf(*q))));
            }
        });
        // every sequence of generator rotations: quaternion, matrix and vector routes stay together
        let gens: Vec<([f64; 3], f64)> = vec![
            ([1.0, 0.0, 0.0], PI / 2.0), ([0.0, 1.0, 0.0], PI / 2.0), ([0.0, 0.0, 1.0], PI / 2.0), ([1.0, 0.0, 0.0], -PI / 2.0), ([0.0, 0.0, 1.0], PI),
            ([1.0, 1.0, 1.0], 2.0 * PI / 3.0), ([1.0, -2.0, 0.5], 0.7),
        ];
        let depth = if th { 7 } else { 5 };
        let mut nseq = 0u64;
        c.sweep("machine: composition of rotations", |sw| {
            let rg: Vec<(XMVECTOR, XMMATRIX, D4)> = gens
                .iter()
                .map(|(a, t)| {
                    let af = vf([a[0] as f32, a[1] as f32, a[2] as f32, 0.0]);
                    (XMQuaternionRotationAxis(af, *t as f32), XMMatrixRotationAxis(af, *t as f32), qaxis(*a, *t as f32 as f64))
                })
                .collect();
            struct S {
                q: XMVECTOR,
                m: XMMATRIX,
                v: XMVECTOR,
                w: D4,
                d: usize,
                hist: u64,
            }
            let v0 = [1.0f32, 2.0, 3.0, 0.0];
            let mut stack = vec![S { q: XMQuaternionIdentity(), m: XMMatrixIdentity(), v: vf(v0), w: [0.0, 0.0, 0.0, 1.0], d: 0, hist: 1 }];
            while let Some(s) = stack.pop() {
                sw.state();
                let t = 2.0e-6 * (1.0 + s.d as f64);
                let wm = qmat(s.w);
                let wv = qrot(s.w, [1.0, 2.0, 3.0]);
                let (qf, mm) = (fb(s.q), mb(s.m));
                let mq = mb(XMMatrixRotationQuaternion(s.q));
                let qm = fb(XMQuaternionRotationMatrix(s.m));
                let rv = fb(XMVector3Rotate(vf(v0), s.q));
                let ev = |g: F4| (0..3).map(|l| (g[l] as f64 - wv[l]).abs()).fold(0.0f64, |a, b| if b.is_nan() { f64::INFINITY } else { a.max(b) });
                let ok = qd(qf, s.w) <= t && md(&mm, &wm) <= t && md(&mq, &wm) <= 2.0 * t && qd2(qm, s.w) <= 2.0 * t && ev(rv) <= 8.0 * t && ev(fb(s.v)) <= 8.0 * t;
                sw.t(ok, hm(&mm), || (format!("generator sequence (base 7, 1-prefixed) {}", s.hist), format!("q {} m {} v {} m->q {}", sf(qf), sm(&mm), sf(fb(s.v)), sf(qm)), format!("q {:?}", s.w)));
                if s.d == depth {
                    continue;
                }
                for (k, (gq, gm, gw)) in rg.iter().enumerate() {
                    nseq += 1;
                    stack.push(S {
                        q: XMQuaternionMultiply(s.q, *gq),
                        m: XMMatrixMultiply(s.m, gm),
                        v: if (s.d + k) % 2 == 0 { XMVector3Rotate(s.v, *gq) } else { XMVector3TransformNormal(s.v, *gm) },
                        w: qham(*gw, s.w),
                        d: s.d + 1,
                        hist: s.hist * 7 + k as u64,
                    });
                }
            }
        });
        c.seqs += nseq;
        if meas {
            println!("MEASURE {:?}", worst);
        }
    });
}
