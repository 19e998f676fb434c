//! C11: reflect, refract, angles, lines, component split, Fresnel.
use mc::dom::*;
use mc::refm::*;
use mc::*;

type V2 = fn(XMVECTOR, XMVECTOR) -> XMVECTOR;
const JUNK: [[f32; 2]; 3] = [[100.0, -77.0], [f32::NAN, f32::INFINITY], [f32::NEG_INFINITY, 3.0e38]];
fn pad(v: F4, d: usize, j: usize) -> F4 {
    let mut r = v;
    for k in d..4 {
        r[k] = JUNK[j % 3][(k - d + j) % 2];
    }
    r
}
fn vecs(d: usize, a: &[f32]) -> Vec<F4> {
    let mut r = vec![];
    match d {
        2 => for &x in a { for &y in a { r.push([x, y, 0.0, 0.0]) } },
        3 => all3(a, |v| r.push([v[0], v[1], v[2], 0.0])),
        _ => all4(a, |v| r.push(v)),
    }
    r
}
fn dotd(a: F4, b: F4, d: usize) -> f64 {
    (0..d).map(|i| a[i] as f64 * b[i] as f64).sum()
}
fn unit(v: F4, d: usize) -> F4 {
    let l = dotd(v, v, d).sqrt();
    v.map(|x| (x as f64 / l) as f32)
}

fn main() {
    Ctx::main("C11", |c| {
        let th = c.thorough();
        let m = std::env::var("MC_MEASURE").is_ok();
        for (d, n, f) in [(2usize, "XMVector2Reflect", XMVector2Reflect as V2), (3, "XMVector3Reflect", XMVector3Reflect), (4, "XMVector4Reflect", XMVector4Reflect)] {
            c.sweep(n, |sw| {
                let vs = vecs(d, if d == 4 && !th { &[-3.0, 0.0, 1.0, 2.5] } else { &[-3.0, -1.0, 0.0, 1.0, 2.5] });
                for (ia, &a) in vs.iter().enumerate() {
                    for (ib, &b) in vs.iter().enumerate() {
                        let sc = 2f32.powi([0, 12, -12, -30][(ia + 2 * ib) % 4]);
                        let (a, b) = (pad(a.map(|x| x * sc), d, ia), pad(b, d, ia + ib));
                        let s = 2.0 * dotd(a, b, d);
                        sw.state();
                        let g = f(vf(a), vf(b));
                        let gf = fb(g);
                        sw.tv((0..d).all(|i| gf[i] as f64 == a[i] as f64 - s * b[i] as f64), g, || (format!("{} {}", sf(a), sf(b)), format!("I - 2({})N", s / 2.0)));
                    }
                }
            });
        }
        for d in 2..=4usize {
            for vform in [false, true] {
                c.sweep(&format!("XMVector{}Refract{}", d, if vform { "V" } else { "" }), |sw| {
                    let mut us: Vec<F4> = vecs(d, if d == 4 && !th { &[-1.0, 0.0, 2.0] } else { &[-2.0, -1.0, 0.0, 1.0, 3.0] });
                    us.retain(|v| dotd(*v, *v, d) > 0.0);
                    let mut us: Vec<F4> = us.iter().map(|v| unit(*v, d)).collect();
                    us.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    us.dedup();
                    let idx = [0.25f32, 0.5, 0.75, 1.0, 1.25, 1.5, 2.0, 3.0, 1.001, 0.999, 1.02, 0.01];
                    for (ia, &a) in us.iter().enumerate() {
                        for (ib, &b) in us.iter().enumerate() {
                            for (k, &n) in idx.iter().enumerate() {
                                let (a, b) = (pad(a, d, ia), pad(b, d, ia + ib));
                                // the vector form takes one index per lane (2D: judged lane by lane)
                                let ns = if !vform { [n; 4] } else if d == 2 { [n, idx[(k + 3) % 12], 5.0, 0.1] } else { [n, n * 0.875, n * 0.75, n * 0.9] };
                                let id = dotd(a, b, d);
                                let r = ns.map(|n| 1.0 - n as f64 * n as f64 * (1.0 - id * id));
                                if (0..4).any(|i| r[i].abs() < 1.0e-4) {
                                    continue;
                                }
                                let tir = (0..4).all(|i| r[i] < 0.0);
                                if d > 2 && !tir && (0..4).any(|i| r[i] < 0.0) {
                                    continue; // mixed total reflection in one vector is not defined
                                }
                                sw.state();
                                let g = match (d, vform) {
                                    (2, false) => XMVector2Refract(vf(a), vf(b), n),
                                    (3, false) => XMVector3Refract(vf(a), vf(b), n),
                                    (4, false) => XMVector4Refract(vf(a), vf(b), n),
                                    (2, true) => XMVector2RefractV(vf(a), vf(b), vf(ns)),
                                    (3, true) => XMVector3RefractV(vf(a), vf(b), vf(ns)),
                                    _ => XMVector4RefractV(vf(a), vf(b), vf(ns)),
                                };
                                let gf = fb(g);
                                let w = |i: usize| if r[i] < 0.0 { 0.0 } else { ns[i] as f64 * a[i] as f64 - b[i] as f64 * (ns[i] as f64 * id + r[i].sqrt()) };
                                let ok = (0..d).all(|i| if r[i] < 0.0 { gf[i] == 0.0 } else { (gf[i] as f64 - w(i)).abs() <= 1.0e-6 * (1.0 + ns[i] as f64) * (1.0 + 1.0 / r[i].sqrt()) });
                                sw.tv(ok, g, || (format!("I={} N={} n={:?}", sf(a), sf(b), ns), format!("{:?}", (0..d).map(w).collect::<Vec<_>>())));
                            }
                        }
                    }
                });
            }
        }
        // angles
        let angs: Vec<(usize, &str, V2, bool, bool)> = vec![
            (2, "XMVector2AngleBetweenNormals", XMVector2AngleBetweenNormals, true, false),
            (3, "XMVector3AngleBetweenNormals", XMVector3AngleBetweenNormals, true, false),
            (4, "XMVector4AngleBetweenNormals", XMVector4AngleBetweenNormals, true, false),
            (2, "XMVector2AngleBetweenNormalsEst", XMVector2AngleBetweenNormalsEst, true, true),
            (3, "XMVector3AngleBetweenNormalsEst", XMVector3AngleBetweenNormalsEst, true, true),
            (4, "XMVector4AngleBetweenNormalsEst", XMVector4AngleBetweenNormalsEst, true, true),
            (2, "XMVector2AngleBetweenVectors", XMVector2AngleBetweenVectors, false, false),
            (3, "XMVector3AngleBetweenVectors", XMVector3AngleBetweenVectors, false, false),
            (4, "XMVector4AngleBetweenVectors", XMVector4AngleBetweenVectors, false, false),
        ];
        for (d, n, f, norm, est) in angs {
            c.sweep(n, |sw| {
                let al: &[f32] = match d {
                    2 => &[-7.0, -3.0, -1.0, -0.01, 0.0, 0.01, 1.0, 2.5, 100.0],
                    3 => &[-3.0, -1.0, -0.01, 0.0, 1.0, 2.5],
                    _ => &[-3.0, 0.0, 0.01, 1.0],
                };
                let mut vs = vecs(d, al);
                vs.retain(|v| dotd(*v, *v, d) > 0.0);
                let mut worst = 0.0f64;
                // pairs a small angle apart, at several lengths
                let mut pairs: Vec<(usize, usize, F4, F4)> = vec![];
                for (ia, &a) in vs.iter().enumerate() {
                    for (ib, &b) in vs.iter().enumerate() {
                        pairs.push((ia, ib, a, b));
                    }
                    for (k, dl) in vecs(d, &[-1.0, 0.0, 0.6]).iter().enumerate() {
                        let l = [1.0f32, 0.03, 20.0][k % 3] / dotd(a, a, d).sqrt() as f32;
                        for e in [0.02f32, 4.0e-3] {
                            let x = a.map(|x| x * l);
                            let y = [0, 1, 2, 3].map(|i| x[i] + dl[i] * e * [1.0f32, 0.03, 20.0][k % 3]);
                            pairs.push((0, k, x, y));
                            pairs.push((0, k, x, y.map(|v| -v)));
                        }
                    }
                }
                for (ia, ib, a, b) in pairs {
                    {
                        let (a, b) = if norm { (unit(a, d), unit(b, d)) } else { (a.map(|x| x * 2f32.powi([0, 15, -15][ia % 3])), b) };
                        let (a, b) = (pad(a, d, ia), pad(b, d, ia + ib));
                        let cs = dotd(a, b, d) / (dotd(a, a, d) * dotd(b, b, d)).sqrt();
                        let w = cs.clamp(-1.0, 1.0).acos();
                        sw.state();
                        let g = f(vf(a), vf(b));
                        let gf = fb(g);
                        let ok = gf.iter().all(|x| {
                            let x = *x as f64;
                            let e = (x - w).abs();
                            if est && w.sin() > 0.05 {
                                worst = worst.max(e);
                            }
                            let te = if est { 1.2e-4 } else { 3.0e-6 };
                            // acos amplifies the rounding of the cosine near its ends
                            x >= 0.0 && x <= std::f64::consts::PI + te && (e <= te || (x.cos() - w.cos()).abs() <= 8.0e-7)
                        });
                        sw.tv(ok, g, || (format!("{} {}", sf(a), sf(b)), format!("{:?} in every lane", w)));
                    }
                }
                if m {
                    println!("MEASURE {} {:e}", n, worst);
                }
            });
        }
        for d in [2usize, 3] {
            c.sweep(&format!("XMVector{}LinePointDistance", d), |sw| {
                let vs = vecs(d, if d == 2 { &[-3.0, -1.0, 0.0, 1.0, 2.5, 7.0] } else if th { &[-3.0, -1.0, 0.0, 2.5] } else { &[-3.0, 0.0, 2.5] });
                for (ia, &p) in vs.iter().enumerate() {
                    for (ib, &q) in vs.iter().enumerate() {
                        if ia == ib {
                            continue;
                        }
                        for (ie, &e) in vs.iter().enumerate() {
                          // whole scene scaled, and the line given by two points close together
                          for (sc, sh) in [(1.0f32, 1.0f32), (1.0, 0.015625), (1.0, 0.0009765625), (0.0009765625, 1.0), (1024.0, 0.125), (9.5367431640625e-7, 1.0), (1048576.0, 1.0)] {
                            let q = [0, 1, 2, 3].map(|i| p[i] + (q[i] - p[i]) * sh);
                            let (p, q, e) = (p.map(|x| x * sc), q.map(|x| x * sc), e.map(|x| x * sc));
                            let (p, q, e) = (pad(p, d, ie), pad(q, d, ie + 1), pad(e, d, ia + ib));
                            let s = |a: F4, b: F4| [a[0] as f64 - b[0] as f64, a[1] as f64 - b[1] as f64, if d == 3 { a[2] as f64 - b[2] as f64 } else { 0.0 }];
                            let l = s(q, p);
                            let w = len3(cross3(l, s(e, p))) / len3(l);
                            sw.state();
                            let g = if d == 2 { XMVector2LinePointDistance(vf(p), vf(q), vf(e)) } else { XMVector3LinePointDistance(vf(p), vf(q), vf(e)) };
                            let ok = fb(g).iter().all(|x| (*x as f64 - w).abs() <= 2.0e-6 * len3(s(e, p)));
                            sw.tv(ok, g, || (format!("line {} {} point {}", sf(p), sf(q), sf(e)), format!("{:?} in every lane", w)));
                          }
                        }
                    }
                }
            });
        }
        c.sweep("XMVector2IntersectLine", |sw| {
            let vs = vecs(2, if th { &[-3.0, -1.0, 0.0, 0.5, 1.0, 2.0] } else { &[-2.0, 0.0, 0.5, 1.0, 3.0] });
            for (ia, &a) in vs.iter().enumerate() {
                for (ib, &b) in vs.iter().enumerate() {
                    for (ie, &e) in vs.iter().enumerate() {
                        for (ih, &h) in vs.iter().enumerate() {
                            if ia == ib || ie == ih {
                                continue;
                            }
                            // exact power-of-two scales: the cross product spans the range from just above the epsilon upwards
                            for sc in [1.0f32, 1.0 / 64.0, 1.0 / 512.0, 1024.0] {
                                let m2 = |x: F4| [x[0] * sc, x[1] * sc, 0.0, 0.0];
                                let (a, b, e, h) = (m2(a), m2(b), m2(e), m2(h));
                                let (pa, pb, pe, ph) = (pad(a, 2, ia), pad(b, 2, ib), pad(e, 2, ia + ie), pad(h, 2, ih));
                                let s = |x: F4, y: F4| [x[0] as f64 - y[0] as f64, x[1] as f64 - y[1] as f64];
                                let x2 = |u: [f64; 2], v: [f64; 2]| u[0] * v[1] - u[1] * v[0];
                                let (v1, v2, v3) = (s(b, a), s(h, e), s(a, e));
                                let (c1, c2) = (x2(v1, v2), x2(v2, v3));
                                if (c1 != 0.0 && c1.abs() < 1.5e-7) || (c1 == 0.0 && c2 != 0.0 && c2.abs() < 1.5e-7) {
                                    continue; // at the documented epsilon
                                }
                                sw.state();
                                let g = XMVector2IntersectLine(vf(pa), vf(pb), vf(pe), vf(ph));
                                let gf = fb(g);
                                let t = c2 / c1;
                                let w = [a[0] as f64 + t * v1[0], a[1] as f64 + t * v1[1]];
                                let ok = if c1 == 0.0 {
                                    if c2 == 0.0 { gf[0] == f32::INFINITY && gf[1] == f32::INFINITY } else { gf[0].is_nan() && gf[1].is_nan() }
                                } else {
                                    close_n(&gf[..2], &w, 2.0e-6, 2.0e-6 * sc as f64)
                                };
                                sw.tv(ok, g, || (format!("{} {} x {} {}", sf(pa), sf(pb), sf(pe), sf(ph)), if c1 == 0.0 { if c2 == 0.0 { "inf (coincident)".into() } else { "NaN (parallel)".into() } } else { format!("{:?}", w) }));
                            }
                        }
                    }
                }
            }
        });
        // Coincident and parallel lines on coordinates that are not exactly representable: coincident up to rounding
        // (cross products below the documented epsilon) is still coincident.
        c.sweep("XMVector2IntersectLine rounded", |sw| {
            let dirs: &[[f64; 2]] = &[[0.1, 0.3], [0.7, -0.2], [-0.6, 0.9], [1.0 / 3.0, 1.0 / 7.0], [0.3, 0.0], [0.0, -0.7]];
            let ts: &[f64] = &[-1.3, -0.4, 0.0, 0.1, 0.7, 1.9];
            let offs: &[f64] = &[0.0, 1.0e-8, -3.0e-8, 1.0e-6, 1.0e-3, -0.4];
            let c0 = [0.2f64, -0.1];
            for d in dirs {
                let nrm = [-d[1], d[0]];
                for (i, &t0) in ts.iter().enumerate() {
                    for &t1 in ts {
                        for &t2 in ts {
                            for &t3 in ts {
                                for &o in offs {
                                    if t0 == t1 || t2 == t3 {
                                        continue;
                                    }
                                    let p = |t: f64, o: f64| [(c0[0] + t * d[0] + o * nrm[0]) as f32, (c0[1] + t * d[1] + o * nrm[1]) as f32, 0.0, 0.0];
                                    let (a, b, e, h) = (p(t0, 0.0), p(t1, 0.0), p(t2, o), p(t3, o));
                                    let s = |x: F4, y: F4| [x[0] as f64 - y[0] as f64, x[1] as f64 - y[1] as f64];
                                    let x2 = |u: [f64; 2], v: [f64; 2]| u[0] * v[1] - u[1] * v[0];
                                    let (v1, v2, v3) = (s(b, a), s(h, e), s(a, e));
                                    let (c1, c2) = (x2(v1, v2).abs(), x2(v2, v3).abs());
                                    // rounding of the two products inside a cross product
                                    let r = 1.0e-7 * ((v1[0] * v2[1]).abs() + (v1[1] * v2[0]).abs() + (v2[0] * v3[1]).abs() + (v2[1] * v3[0]).abs());
                                    let eps = 1.1920929e-7;
                                    if c1 + r > eps {
                                        continue;
                                    }
                                    let want = if c2 + r <= eps { 1 } else if c2 > eps + r { 2 } else { continue };
                                    sw.state();
                                    let g = XMVector2IntersectLine(vf(pad(a, 2, i)), vf(pad(b, 2, i + 1)), vf(pad(e, 2, i + 1)), vf(pad(h, 2, i)));
                                    let gf = fb(g);
                                    let ok = if want == 1 { gf[0] == f32::INFINITY && gf[1] == f32::INFINITY } else { gf[0].is_nan() && gf[1].is_nan() };
                                    sw.tv(ok, g, || (format!("{} {} x {} {}", sf(a), sf(b), sf(e), sf(h)), if want == 1 { "inf (coincident)".into() } else { "NaN (parallel)".into() }));
                                }
                            }
                        }
                    }
                }
            }
        });
        c.sweep("XMVector3ComponentsFromNormal", |sw| {
            let vs = vecs(3, &[-3.0, -1.0, 0.0, 1.0, 2.5]);
            for (ia, &a) in vs.iter().enumerate() {
                for (ib, &b) in vs.iter().enumerate() {
                    let sc = 2f32.powi([0, 14, -14, -40][(ia + 2 * ib) % 4]);
                    let (a, b) = (pad(a.map(|x| x * sc), 3, ia), pad(b, 3, ia + ib));
                    let s = dotd(a, b, 3);
                    let (mut p, mut q) = (vf([9.0; 4]), vf([9.0; 4]));
                    sw.state();
                    XMVector3ComponentsFromNormal(&mut p, &mut q, vf(a), vf(b));
                    let (pf, qf) = (fb(p), fb(q));
                    let ok = (0..3).all(|i| pf[i] as f64 == s * b[i] as f64 && qf[i] as f64 == a[i] as f64 - s * b[i] as f64);
                    sw.tv(ok, p, || (format!("V={} N={} perp={}", sf(a), sf(b), sf(qf)), format!("({})N and the rest", s)));
                }
            }
        });
        // every octave of every component, one at a time
        for d in 2..=4usize {
            c.sweep(&format!("by octaves {}D", d), |sw| {
                let ba: [F4; 3] = [[1.5, -0.25, 2.0, -3.0], [0.0, 1.0, 0.0, 0.0], [-0.6, 0.0, 0.8, 0.5]];
                let bn: [F4; 3] = [[0.6, -0.8, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [1.0, 2.0, -0.5, 4.0]];
                let l = octaves(-30, 30);
                let mut ps: Vec<(F4, F4)> = vec![];
                for v in star(&ba, &l) { for n in bn { ps.push((v, n)); } }
                for n in star(&bn, &octaves(-16, 16)) { for v in ba { ps.push((v, n)); } }
                for (k, (a, b)) in ps.iter().enumerate() {
                    let (a, b) = (pad(*a, d, k), pad(*b, d, k + 1));
                    let dt = dotd(a, b, d);
                    let mg: f64 = (0..d).map(|i| (a[i] as f64 * b[i] as f64).abs()).sum();
                    sw.state();
                    let g = match d { 2 => XMVector2Reflect(vf(a), vf(b)), 3 => XMVector3Reflect(vf(a), vf(b)), _ => XMVector4Reflect(vf(a), vf(b)) };
                    let tol = |i: usize| 1.0e-6 * (a[i].abs() as f64 + 2.0 * mg * b[i].abs() as f64) + 1.0e-37;
                    let ok = (0..d).all(|i| (fb(g)[i] as f64 - (a[i] as f64 - 2.0 * dt * b[i] as f64)).abs() <= tol(i));
                    sw.tv(ok, g, || (format!("reflect {} {}", sf(a), sf(b)), format!("I - 2({})N", dt)));
                    if d == 3 {
                        let (mut p, mut q) = (vf([9.0; 4]), vf([9.0; 4]));
                        XMVector3ComponentsFromNormal(&mut p, &mut q, vf(a), vf(b));
                        let (pf, qf) = (fb(p), fb(q));
                        let ok = (0..3).all(|i| (pf[i] as f64 - dt * b[i] as f64).abs() <= tol(i) && (qf[i] as f64 - (a[i] as f64 - dt * b[i] as f64)).abs() <= tol(i));
                        sw.tv(ok, p, || (format!("V={} N={} perp={}", sf(a), sf(b), sf(qf)), format!("({})N and the rest", dt)));
                    }
                    // angle between vectors at every scale
                    let (la, lb) = (dotd(a, a, d), dotd(b, b, d));
                    if la > 1.0e-20 && lb > 0.0 && la < 1e30 {
                        let cs = dt / (la * lb).sqrt();
                        let w = cs.clamp(-1.0, 1.0).acos();
                        let g = match d { 2 => XMVector2AngleBetweenVectors(vf(a), vf(b)), 3 => XMVector3AngleBetweenVectors(vf(a), vf(b)), _ => XMVector4AngleBetweenVectors(vf(a), vf(b)) };
                        let ok = fb(g).iter().all(|x| (*x as f64 - w).abs() <= 3.0e-6 || ((*x as f64).cos() - w.cos()).abs() <= 8.0e-7);
                        sw.tv(ok, g, || (format!("angle {} {}", sf(a), sf(b)), format!("{:?}", w)));
                        let (ua, ub_) = (unit(a, d), unit(b, d));
                        for est in [false, true] {
                            let g = match (d, est) {
                                (2, false) => XMVector2AngleBetweenNormals(vf(ua), vf(ub_)), (3, false) => XMVector3AngleBetweenNormals(vf(ua), vf(ub_)), (_, false) => XMVector4AngleBetweenNormals(vf(ua), vf(ub_)),
                                (2, _) => XMVector2AngleBetweenNormalsEst(vf(ua), vf(ub_)), (3, _) => XMVector3AngleBetweenNormalsEst(vf(ua), vf(ub_)), _ => XMVector4AngleBetweenNormalsEst(vf(ua), vf(ub_)),
                            };
                            let te = if est { 1.2e-4 } else { 3.0e-6 };
                            let ok = fb(g).iter().all(|x| (*x as f64 - w).abs() <= te || ((*x as f64).cos() - w.cos()).abs() <= 8.0e-7);
                            sw.tv(ok, g, || (format!("angle of normals {} {} est {}", sf(ua), sf(ub_), est), format!("{:?}", w)));
                        }
                    }
                    // distance from a line: base point + direction b, point base + a, at offsets comparable with neither
                    if d < 4 && lb > 0.0 {
                        let p0 = pad([0.0; 4], d, k);
                        let e3 = |v: F4| [v[0] as f64, v[1] as f64, if d == 3 { v[2] as f64 } else { 0.0 }];
                        let w = len3(cross3(e3(b), e3(a))) / len3(e3(b));
                        let g = if d == 2 { XMVector2LinePointDistance(vf(p0), vf(b), vf(a)) } else { XMVector3LinePointDistance(vf(p0), vf(b), vf(a)) };
                        let ok = fb(g).iter().all(|x| (*x as f64 - w).abs() <= 2.0e-6 * len3(e3(a)));
                        sw.tv(ok, g, || (format!("line {} {} point {}", sf(p0), sf(b), sf(a)), format!("{:?} in every lane", w)));
                    }
                }
                // refraction: every octave of the index, and incidence closing in on both axes
                for k in -24..=0 {
                    for mnt in [1.0f64, 1.4] {
                        let e = (mnt * 2f64.powi(k)).min(1.0);
                        for (cs, sn) in [(e, (1.0 - e * e).sqrt()), ((1.0 - e * e).sqrt(), e)] {
                            for sg in [1.0, -1.0] {
                                let n = unit([0.6, -0.8, if d > 2 { 0.5 } else { 0.0 }, if d > 3 { -0.25 } else { 0.0 }], d);
                                let t = unit([0.8, 0.6, 0.0, 0.0], d);
                                let t = { let q = dotd(t, n, d); unit([0, 1, 2, 3].map(|i| (t[i] as f64 - q * n[i] as f64) as f32), d) };
                                let i_ = unit([0, 1, 2, 3].map(|j| (sg * cs * n[j] as f64 + sn * t[j] as f64) as f32), d);
                                let (a, b) = (pad(i_, d, 0), pad(n, d, 1));
                                for ix in octaves(-20, 12).iter().filter(|x| **x > 0.0) {
                                    let id = dotd(a, b, d);
                                    let x = *ix as f64;
                                    let r = 1.0 - x * x * (1.0 - id * id);
                                    if r.abs() < 1.0e-4 + 4.0e-7 * x * x {
                                        continue;
                                    }
                                    for vform in [false, true] {
                                        sw.state();
                                        let g = match (d, vform) {
                                            (2, false) => XMVector2Refract(vf(a), vf(b), *ix),
                                            (3, false) => XMVector3Refract(vf(a), vf(b), *ix),
                                            (4, false) => XMVector4Refract(vf(a), vf(b), *ix),
                                            (2, true) => XMVector2RefractV(vf(a), vf(b), vf([*ix; 4])),
                                            (3, true) => XMVector3RefractV(vf(a), vf(b), vf([*ix; 4])),
                                            _ => XMVector4RefractV(vf(a), vf(b), vf([*ix; 4])),
                                        };
                                        let w = |i: usize| if r < 0.0 { 0.0 } else { x * a[i] as f64 - b[i] as f64 * (x * id + r.sqrt()) };
                                        let tol = 1.0e-6 * (1.0 + x) * (1.0 + (1.0 + x) / r.abs().sqrt());
                                        let ok = (0..d).all(|i| if r < 0.0 { fb(g)[i] == 0.0 } else { (fb(g)[i] as f64 - w(i)).abs() <= tol });
                                        sw.tv(ok, g, || (format!("I={} N={} n={:?} vector form {}", sf(a), sf(b), ix, vform), format!("{:?}", (0..d).map(w).collect::<Vec<_>>())));
                                    }
                                }
                            }
                        }
                    }
                }
            });
        }
        c.sweep("XMVector2IntersectLine octaves", |sw| {
            let bs: [F4; 3] = [[0.0, 0.0, 1.0, 0.5], [-2.0, 1.0, 3.0, -1.0], [100.0, 50.0, 101.0, 52.0]];
            for l1 in star(&bs, &octaves(-24, 20)) {
                for l2 in bs.iter().chain(&[[5.0, -3.0, 0.0, 0.01]]) {
                    for (p, q) in [(l1, *l2), (*l2, l1)] {
                        let f = |a: f32, b: f32, j: usize| pad([a, b, 0.0, 0.0], 2, j);
                        let (v1, v2, v3) = (
                            [p[2] as f64 - p[0] as f64, p[3] as f64 - p[1] as f64], [q[2] as f64 - q[0] as f64, q[3] as f64 - q[1] as f64],
                            [p[0] as f64 - q[0] as f64, p[1] as f64 - q[1] as f64],
                        );
                        let x2 = |u: [f64; 2], v: [f64; 2]| u[0] * v[1] - u[1] * v[0];
                        let m2 = |u: [f64; 2], v: [f64; 2]| (u[0] * v[1]).abs() + (u[1] * v[0]).abs();
                        let (c1, c2) = (x2(v1, v2), x2(v2, v3));
                        let len = |u: [f64; 2]| u[0].hypot(u[1]);
                        // rounding of the differences and of the products
                        let e1 = 3.0e-7 * (m2(v1, v2));
                        if c1.abs() < 1.0e-6 + 4.0 * e1 {
                            continue;
                        }
                        let t = c2 / c1;
                        let w = [p[0] as f64 + t * v1[0], p[1] as f64 + t * v1[1]];
                        let dt = 6.0e-7 * (m2(v2, v3) / c1.abs() + t.abs() * m2(v1, v2) / c1.abs());
                        let tol = dt * len(v1) + 1.0e-6 * (p[0].hypot(p[1]) as f64 + t.abs() * len(v1));
                        sw.state();
                        let g = XMVector2IntersectLine(vf(f(p[0], p[1], 0)), vf(f(p[2], p[3], 1)), vf(f(q[0], q[1], 2)), vf(f(q[2], q[3], 0)));
                        let ok = (0..2).all(|i| (fb(g)[i] as f64 - w[i]).abs() <= tol);
                        sw.tv(ok, g, || (format!("{:?} x {:?}", p, q), format!("{:?} within {:e}", w, tol)));
                    }
                }
            }
        });
        c.sweep("XMFresnelTerm octaves", |sw| {
            let mut cs: Vec<f32> = vec![];
            for k in 1..=24 {
                for m in [1.0f32, 1.3, 1.7] {
                    cs.extend([m * 2f32.powi(-k), 1.0 - m * 2f32.powi(-k)]);
                }
            }
            let mut ns: Vec<f32> = octaves(-12, 12).into_iter().filter(|x| *x > 0.0).collect();
            for k in 1..=12 {
                ns.extend([1.0 + 2f32.powi(-k), 1.0 - 2f32.powi(-k)]);
            }
            for (i, &co) in cs.iter().enumerate() {
                for &n0 in &ns {
                    let mut a = [0.5f32; 4];
                    let mut b = [1.5f32; 4];
                    a[i % 4] = co;
                    b[i % 4] = n0;
                    let (c, n) = (co as f64, n0 as f64);
                    let g2 = c * c + n * n - 1.0;
                    sw.state();
                    let g = XMFresnelTerm(vf(a), vf(b));
                    let got = fb(g)[i % 4] as f64;
                    let q = g2.abs().sqrt();
                    let w = (0.5 * ((q - c) / (q + c)).powi(2) * (((c * (q + c) - 1.0) / (c * (q - c) + 1.0)).powi(2) + 1.0)).clamp(0.0, 1.0);
                    // near the critical angle the root amplifies rounding: only required to stay in [0,1]
                    let ok = (0.0..=1.0).contains(&got) && (g2.abs() < 1.0e-2 || (got - w).abs() <= 6.0e-6);
                    sw.tv(ok, g, || (format!("cos={} n={}", co, n0), format!("{}", w)));
                }
            }
        });
        c.sweep("XMFresnelTerm", |sw| {
            let cs: Vec<f32> = (1..=if th { 400 } else { 100 }).map(|k| k as f32 / if th { 400.0 } else { 100.0 }).collect();
            let ns: Vec<f32> = vec![0.1, 0.25, 0.5, 0.75, 0.9, 1.05, 1.1, 1.333, 1.5, 2.0, 2.417, 3.0, 10.0, 100.0, 1.005, 0.995, 1.02, 0.98, 1.0005];
            let (nc, nn) = (cs.len(), ns.len());
            let mut worst = (0.0f64, 0.0, 0.0);
            for i in 0..nc {
                for j in 0..nn {
                    let a = [cs[i], cs[(i + 31) % nc], cs[(i + 57) % nc], cs[(i + 83) % nc]];
                    // different indices per lane, and the same one in every lane
                  for b in [[ns[j], ns[(j + 3) % nn], ns[(j + 6) % nn], ns[(j + 9) % nn]], [ns[j]; 4]] {
                    sw.state();
                    let g = XMFresnelTerm(vf(a), vf(b));
                    let gf = fb(g);
                    let mut ok = true;
                    let mut w4 = [0.0; 4];
                    for l in 0..4 {
                        let (c, n) = (a[l] as f64, b[l] as f64);
                        let g2 = c * c + n * n - 1.0;
                        ok &= gf[l] >= 0.0 && gf[l] <= 1.0;
                        if g2.abs() < 1.0e-2 {
                            continue; // at the critical angle the root amplifies rounding: only required to stay in [0,1]
                        }
                        let q = g2.abs().sqrt();
                        let w = (0.5 * ((q - c) / (q + c)).powi(2) * (((c * (q + c) - 1.0) / (c * (q - c) + 1.0)).powi(2) + 1.0)).clamp(0.0, 1.0);
                        w4[l] = w;
                        let e = (gf[l] as f64 - w).abs();
                        if e > worst.0 {
                            worst = (e, c, n);
                        }
                        ok &= e <= 4.0e-6;
                    }
                    sw.tv(ok, g, || (format!("cos={} n={}", sf(a), sf(b)), format!("{:?}", w4)));
                  }
                }
            }
            if m {
                println!("MEASURE fresnel {:?}", worst);
            }
        });
    });
}
