//! C10: dot, cross, length, normalisation in 2, 3 and 4 dimensions.
use mc::dom::*;
use mc::refm::*;
use mc::*;

type V1 = fn(XMVECTOR) -> XMVECTOR;
type V2 = fn(XMVECTOR, XMVECTOR) -> XMVECTOR;

/// contents of the lanes beyond the dimension: they must never matter
const JUNK: [[f32; 2]; 3] = [[100.0, -77.0], [f32::NAN, f32::INFINITY], [f32::NEG_INFINITY, 3.0e38]];

fn pad(v: F4, d: usize, j: usize) -> F4 {
    let mut r = v;
    for k in d..4 {
        r[k] = JUNK[j][(k - d + j) % 2];
    }
    r
}
fn vecs(d: usize, a: &[f32]) -> Vec<F4> {
    let mut r = vec![];
    match d {
        2 => for &x in a { for &y in a { r.push([x, y, 0.0, 0.0]) } },
        3 => all3(a, |v| r.push([v[0], v[1], v[2], 0.0])),
        _ => all4(a, |v| r.push(v)),
    }
    r
}
fn dotd(a: F4, b: F4, d: usize) -> f64 {
    (0..d).map(|i| a[i] as f64 * b[i] as f64).sum()
}
fn splat_ok(g: XMVECTOR, w: f64, rel: f64) -> bool {
    fb(g).iter().all(|x| close(*x, w, rel, 0.0))
}

/// pairs (a, a + delta) with an exactly representable small delta
fn nearby(vs: &[F4], ds: &[F4]) -> Vec<(F4, F4)> {
    let mut r = vec![];
    for a in vs {
        for d in ds {
            for e in [1.0f32 / 16.0, 1.0 / 256.0, 1.0 / 4096.0] {
                r.push((*a, [0, 1, 2, 3].map(|i| a[i] + d[i] * e)));
            }
        }
    }
    r
}

fn main() {
    Ctx::main("C10", |c| {
        let th = c.thorough();
        let alpha: &[f32] = if th { &[-3.0, -2.0, -1.0, 0.0, 1.0, 2.5, 4.0] } else { &[-3.0, -1.0, 0.0, 1.0, 2.5] };
        let dots: [(usize, &str, V2); 3] = [(2, "XMVector2Dot", XMVector2Dot), (3, "XMVector3Dot", XMVector3Dot), (4, "XMVector4Dot", XMVector4Dot)];
        for (d, n, f) in dots {
            c.sweep(n, |sw| {
                let vs = vecs(d, alpha);
                let sc: &[i32] = &[0, 40, -50];
                for (ia, &a) in vs.iter().enumerate() {
                    for (ib, &b) in vs.iter().enumerate() {
                        for (ik, &k) in sc.iter().enumerate() {
                            if d == 4 && !th && ik != (ia + ib) % 3 {
                                continue;
                            }
                            let s = 2f32.powi(k);
                            let a = pad(a.map(|x| x * s), d, (ia + ib) % 3);
                            let b = pad(b, d, ib % 3);
                            sw.state();
                            let g = f(vf(a), vf(b));
                            sw.tv(splat_ok(g, dotd(a, b, d), 0.0), g, || (format!("{} {}", sf(a), sf(b)), format!("{:?}", dotd(a, b, d))));
                        }
                    }
                }
            });
        }
        c.sweep("XMVector2Cross", |sw| {
            let vs = vecs(2, &[-7.0, -3.0, -1.0, 0.0, 1.0, 2.5, 4.0, 64.0]);
            // all pairs, and pairs that differ by little
            let near = nearby(&vs, &vecs(2, &[-1.0, 0.0, 1.0, 2.0]));
            for (a, b) in vs.iter().flat_map(|a| vs.iter().map(move |b| (*a, *b))).chain(near) {
                {
                    for j in 0..3 {
                        let s = 2f32.powi([0, 40, -40][j]);
                        let (a, b) = (pad(a.map(|x| x * s), 2, j), pad(b, 2, (j + 1) % 3));
                        let w = a[0] as f64 * b[1] as f64 - a[1] as f64 * b[0] as f64;
                        sw.state();
                        let g = XMVector2Cross(vf(a), vf(b));
                        sw.tv(splat_ok(g, w, 0.0), g, || (format!("{} {}", sf(a), sf(b)), format!("{}", w)));
                    }
                }
            }
        });
        c.sweep("XMVector3Cross", |sw| {
            let vs = vecs(3, &[-3.0, -1.0, 0.0, 1.0, 2.5, 4.0]);
            let near: Vec<(usize, F4, F4)> = nearby(&vs, &vecs(3, &[-1.0, 0.0, 2.0])).into_iter().map(|(a, b)| (0, a, b)).collect();
            for (ib, (ia, a, b)) in vs.iter().enumerate().flat_map(|(ia, a)| vs.iter().map(move |b| (ia, *a, *b))).chain(near).enumerate() {
                {
                    let s = 2f32.powi([0, 40, -40][ia % 3]);
                    let (a, b) = (pad(a.map(|x| x * s), 3, (ia + ib) % 3), pad(b, 3, ib % 3));
                    let w = cross3([a[0] as f64, a[1] as f64, a[2] as f64], [b[0] as f64, b[1] as f64, b[2] as f64]);
                    sw.state();
                    let g = XMVector3Cross(vf(a), vf(b));
                    let gf = fb(g);
                    sw.tv((0..3).all(|i| gf[i] as f64 == w[i]) && gf[3] == 0.0, g, || (format!("{} {}", sf(a), sf(b)), format!("{:?} w=0", w)));
                }
            }
        });
        c.sweep("XMVector4Cross", |sw| {
            let vs = vecs(4, if th { &[-1.0, 0.0, 1.0, 2.0] } else { &[-1.0, 0.0, 2.0] });
            let extra = [[3.0f32, -5.0, 7.0, 11.0], [1.0, 2.0, -3.0, 4.0], [-2.0, 9.0, 6.0, 5.0]];
            let mut chk = |a: F4, b: F4, e: F4| {
                // generalised cross product = cofactors of the first row of det(*, V1, V2, V3)
                let m = |i: usize| {
                    let cs: Vec<usize> = (0..4).filter(|k| *k != i).collect();
                    let g = |r: F4, k: usize| r[cs[k]] as f64;
                    let d = g(a, 0) * (g(b, 1) * g(e, 2) - g(b, 2) * g(e, 1)) - g(a, 1) * (g(b, 0) * g(e, 2) - g(b, 2) * g(e, 0)) + g(a, 2) * (g(b, 0) * g(e, 1) - g(b, 1) * g(e, 0));
                    if i % 2 == 0 { d } else { -d }
                };
                let w = [m(0), m(1), m(2), m(3)];
                sw.state();
                let g = XMVector4Cross(vf(a), vf(b), vf(e));
                let gf = fb(g);
                sw.tv((0..4).all(|i| gf[i] as f64 == w[i]), g, || (format!("{} {} {}", sf(a), sf(b), sf(e)), format!("{:?}", w)));
            };
            for (k, (a, b)) in nearby(&vs, &vecs(4, &[-1.0, 0.0, 1.0])).into_iter().enumerate() {
                let e = extra[k % 3];
                chk(a, b, e);
                chk(a, e, b);
                chk(e, a, b);
            }
            for (ia, &a) in vs.iter().enumerate() {
                let s = 2f32.powi([0, 24, -24, -60][ia % 4]);
                let a = a.map(|x| x * s);
                for &b in &vs {
                    for &e in &vs {
                        chk(a, b, e);
                    }
                    for e in extra {
                        chk(a, b, e);
                        chk(a, e, b);
                        chk(e, a, b);
                    }
                }
            }
        });

        // lengths: direction lattice x power-of-two scale over the whole exponent range where squares are normal
        let dirs: Vec<Vec<F4>> = (2..=4)
            .map(|d| {
                let a: &[f32] = match d {
                    2 => &[-5.0, -4.0, -3.0, -1.0, -0.1, 0.0, 0.1, 1.0, 3.0, 4.0, 12.0, 100.0],
                    3 => &[-4.0, -3.0, -0.3, 0.0, 1.0, 3.0, 4.0, 12.0],
                    _ => &[-4.0, -0.3, 0.0, 1.0, 3.0, 12.0],
                };
                let mut r = vecs(d, a);
                // components of very different size
                r.extend(vecs(d, &[-1.0e-7, 0.0, 1.0, 60.0]).into_iter().filter(|v| v.iter().any(|x| x.abs() >= 1.0)));
                // a little shorter or longer than unit length
                let u: Vec<F4> = vecs(d, &[-3.0, 0.0, 1.0, 4.0]);
                for v in u {
                    let l = dotd(v, v, d).sqrt();
                    if l > 0.0 {
                        for k in [4i32, 7, 9, 11, 13, 16, 20] {
                            for s in [1.0, -1.0] {
                                r.push(v.map(|x| (x as f64 / l * (1.0 + s * 2f64.powi(-k))) as f32));
                            }
                        }
                    }
                }
                r
            })
            .collect();
        let ks: Vec<i32> = (-55..=55).collect();
        struct L {
            d: usize,
            sq: V1,
            rl: V1,
            rle: V1,
            l: V1,
            le: V1,
            n: V1,
            ne: V1,
        }
        let ls = [
            L { d: 2, sq: XMVector2LengthSq, rl: XMVector2ReciprocalLength, rle: XMVector2ReciprocalLengthEst, l: XMVector2Length, le: XMVector2LengthEst, n: XMVector2Normalize, ne: XMVector2NormalizeEst },
            L { d: 3, sq: XMVector3LengthSq, rl: XMVector3ReciprocalLength, rle: XMVector3ReciprocalLengthEst, l: XMVector3Length, le: XMVector3LengthEst, n: XMVector3Normalize, ne: XMVector3NormalizeEst },
            L { d: 4, sq: XMVector4LengthSq, rl: XMVector4ReciprocalLength, rle: XMVector4ReciprocalLengthEst, l: XMVector4Length, le: XMVector4LengthEst, n: XMVector4Normalize, ne: XMVector4NormalizeEst },
        ];
        for l in &ls {
            let d = l.d;
            let dv = &dirs[d - 2];
            let all = |f: &mut dyn FnMut(F4)| {
                for (i, v) in dv.iter().enumerate() {
                    for &k in &ks {
                        for j in 0..if th || k % 5 == 0 { 3 } else { 1 } {
                            let s = 2f32.powi(k);
                            f(pad(v.map(|x| x * s), d, (i + j) % 3));
                        }
                    }
                }
            };
            let scal: Vec<(&str, V1, Box<dyn Fn(f64) -> f64>, f64, bool)> = vec![
                ("LengthSq", l.sq, Box::new(|q| q), 3.0e-7, true),
                ("Length", l.l, Box::new(|q: f64| q.sqrt()), 3.0e-7, true),
                ("LengthEst", l.le, Box::new(|q: f64| q.sqrt()), 4.0e-4, false),
                ("ReciprocalLength", l.rl, Box::new(|q: f64| 1.0 / q.sqrt()), 5.0e-7, true),
                ("ReciprocalLengthEst", l.rle, Box::new(|q: f64| 1.0 / q.sqrt()), 4.0e-4, false),
            ];
            for (n, f, m, rel, zero) in scal {
                c.sweep(&format!("XMVector{}{}", d, n), |sw| {
                    all(&mut |v| {
                        let w = m(dotd(v, v, d));
                        if !zero && (w == 0.0 || w.is_infinite()) {
                            return;
                        }
                        sw.state();
                        let g = f(vf(v));
                        sw.tv(splat_ok(g, w, rel), g, || (sf(v), format!("{:?} in every lane", w)));
                    });
                });
            }
            for (n, f, rel) in [("Normalize", l.n, 5.0e-7), ("NormalizeEst", l.ne, 4.0e-4)] {
                c.sweep(&format!("XMVector{}{}", d, n), |sw| {
                    all(&mut |v| {
                        let q = dotd(v, v, d).sqrt();
                        if q == 0.0 && n == "NormalizeEst" {
                            return;
                        }
                        sw.state();
                        let g = f(vf(v));
                        let gf = fb(g);
                        let w = |i: usize| if q == 0.0 { 0.0 } else { v[i] as f64 / q };
                        sw.tv((0..d).all(|i| close(gf[i], w(i), rel, 0.0)), g, || (sf(v), format!("{:?}", (0..d).map(w).collect::<Vec<_>>())));
                    });
                });
            }
        }
        // every octave of every component, one at a time
        for l in &ls {
            let d = l.d;
            c.sweep(&format!("by octaves {}D", d), |sw| {
                let ba: [F4; 4] = [[1.5, -0.25, 2.0, -3.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 0.0, 0.0], [-0.6, 0.03, 0.8, 0.5]];
                let st = star(&ba, &octaves(-56, 56));
                for (k, v) in st.iter().enumerate() {
                    let v = pad(*v, d, k % 3);
                    let q = dotd(v, v, d);
                    sw.state();
                    let g = (l.sq)(vf(v));
                    sw.tv(splat_ok(g, q, 4.0e-7), g, || (format!("LengthSq {}", sf(v)), format!("{:?}", q)));
                    let g = (l.l)(vf(v));
                    sw.tv(splat_ok(g, q.sqrt(), 4.0e-7), g, || (format!("Length {}", sf(v)), format!("{:?}", q.sqrt())));
                    if q > 0.0 {
                        let g = (l.le)(vf(v));
                        sw.tv(splat_ok(g, q.sqrt(), 4.0e-4), g, || (format!("LengthEst {}", sf(v)), format!("{:?}", q.sqrt())));
                        let r = 1.0 / q.sqrt();
                        let g = (l.rl)(vf(v));
                        sw.tv(splat_ok(g, r, 6.0e-7), g, || (format!("ReciprocalLength {}", sf(v)), format!("{:?}", r)));
                        let g = (l.rle)(vf(v));
                        sw.tv(splat_ok(g, r, 4.0e-4), g, || (format!("ReciprocalLengthEst {}", sf(v)), format!("{:?}", r)));
                        let g = (l.n)(vf(v));
                        sw.tv((0..d).all(|i| close(fb(g)[i], v[i] as f64 * r, 6.0e-7, 1e-37)), g, || (format!("Normalize {}", sf(v)), format!("1/length {:?}", r)));
                        let g = (l.ne)(vf(v));
                        sw.tv((0..d).all(|i| close(fb(g)[i], v[i] as f64 * r, 4.0e-4, 1e-37)), g, || (format!("NormalizeEst {}", sf(v)), format!("1/length {:?}", r)));
                        for (fl, fh) in [(0.5, 2.0), (2.0, 4.0), (0.25, 0.5), (0.0, 0.75), (1.25, 1.0e6), (1.0e-6, 0.9), (0.9, 1.1)] {
                            let (lo, hi) = ((q.sqrt() * fl) as f32, (q.sqrt() * fh) as f32);
                            if fl > 0.0 && lo < 1e-30 || hi < 1e-30 || !hi.is_finite() {
                                continue;
                            }
                            let v = pad(v, d, 0);
                            let t = q.sqrt().max(lo as f64).min(hi as f64);
                            for vform in [false, true] {
                                let g = match (d, vform) {
                                    (2, false) => XMVector2ClampLength(vf(v), lo, hi),
                                    (3, false) => XMVector3ClampLength(vf(v), lo, hi),
                                    (4, false) => XMVector4ClampLength(vf(v), lo, hi),
                                    (2, true) => XMVector2ClampLengthV(vf(v), vf([lo; 4]), vf([hi; 4])),
                                    (3, true) => XMVector3ClampLengthV(vf(v), vf([lo; 4]), vf([hi; 4])),
                                    _ => XMVector4ClampLengthV(vf(v), vf([lo; 4]), vf([hi; 4])),
                                };
                                sw.tv((0..d).all(|i| close(fb(g)[i], v[i] as f64 * t * r, 1.0e-6, 1e-37)), g, || (format!("ClampLength {} [{},{}] vector form {}", sf(v), lo, hi, vform), format!("length {} clamped to {}", q.sqrt(), t)));
                            }
                        }
                    }
                    let g = match d { 2 => XMVector2Orthogonal(vf(v)), 3 => XMVector3Orthogonal(vf(v)), _ => XMVector4Orthogonal(vf(v)) };
                    let (gl, x) = (dotd(fb(g), fb(g), d).sqrt(), dotd(fb(g), v, d));
                    sw.tv(x.abs() <= 1.0e-6 * gl * q.sqrt() && (q == 0.0 || gl > 0.0), g, || (format!("Orthogonal {}", sf(v)), "perpendicular, non-zero".into()));
                    for b in ba {
                        let b = pad(b, d, (k + 1) % 3);
                        for (x, y) in [(v, b), (b, v)] {
                            let mg: f64 = (0..d).map(|i| (x[i] as f64 * y[i] as f64).abs()).sum();
                            let w = dotd(x, y, d);
                            sw.state();
                            let g = match d { 2 => XMVector2Dot(vf(x), vf(y)), 3 => XMVector3Dot(vf(x), vf(y)), _ => XMVector4Dot(vf(x), vf(y)) };
                            sw.tv(fb(g).iter().all(|z| (*z as f64 - w).abs() <= 4.0e-7 * mg), g, || (format!("Dot {} {}", sf(x), sf(y)), format!("{}", w)));
                            if d == 2 {
                                let (s, t) = (x[0] as f64 * y[1] as f64, x[1] as f64 * y[0] as f64);
                                let g = XMVector2Cross(vf(x), vf(y));
                                sw.tv(fb(g).iter().all(|z| (*z as f64 - (s - t)).abs() <= 4.0e-7 * (s.abs() + t.abs())), g, || (format!("Cross {} {}", sf(x), sf(y)), format!("{}", s - t)));
                            }
                            if d == 3 {
                                let g = XMVector3Cross(vf(x), vf(y));
                                let ok = (0..3).all(|i| {
                                    let (j, k) = ((i + 1) % 3, (i + 2) % 3);
                                    let (s, t) = (x[j] as f64 * y[k] as f64, x[k] as f64 * y[j] as f64);
                                    (fb(g)[i] as f64 - (s - t)).abs() <= 4.0e-7 * (s.abs() + t.abs())
                                });
                                sw.tv(ok && fb(g)[3] == 0.0, g, || (format!("Cross {} {}", sf(x), sf(y)), "cross product".into()));
                            }
                            if d == 4 {
                                let e = [0.5f32, -2.0, 1.25, 3.0];
                                for (p, q, r) in [(x, y, e), (x, e, y), (e, x, y)] {
                                    let g = XMVector4Cross(vf(p), vf(q), vf(r));
                                    let ok = (0..4).all(|i| {
                                        let cs: Vec<usize> = (0..4).filter(|k| *k != i).collect();
                                        let h = |r: F4, k: usize| r[cs[k]] as f64;
                                        let ts = [h(p, 0) * h(q, 1) * h(r, 2), -h(p, 0) * h(q, 2) * h(r, 1), -h(p, 1) * h(q, 0) * h(r, 2), h(p, 1) * h(q, 2) * h(r, 0), h(p, 2) * h(q, 0) * h(r, 1), -h(p, 2) * h(q, 1) * h(r, 0)];
                                        let w: f64 = ts.iter().sum::<f64>() * if i % 2 == 0 { 1.0 } else { -1.0 };
                                        (fb(g)[i] as f64 - w).abs() <= 6.0e-7 * ts.iter().map(|t| t.abs()).sum::<f64>()
                                    });
                                    sw.tv(ok, g, || (format!("Cross {} {} {}", sf(p), sf(q), sf(r)), "generalised cross product".into()));
                                }
                            }
                        }
                    }
                }
            });
        }
        // length clamping
        let lim: &[f32] = &[0.0, 1.0e-30, 3.0e-24, 1.0e-16, 0.5, 1.0, 2.0, 4.5, 5.0, 10.0, 1000.0, 3.0e16, 2.0e19, 1.0e30, f32::MAX, f32::INFINITY];
        for d in 2..=4usize {
            for vform in [false, true] {
                c.sweep(&format!("XMVector{}ClampLength{}", d, if vform { "V" } else { "" }), |sw| {
                    for (i, &v0) in dirs[d - 2].iter().enumerate() {
                        for k in [0i32, -12, 10, 54, -54] {
                            let v = pad(v0.map(|x| x * 2f32.powi(k)), d, if vform { 0 } else { i % 3 });
                            let q = dotd(v, v, d).sqrt();
                            let mut near = lim.to_vec();
                            for e in [0.0f64, 0.004, -0.004, 0.0003, -0.0003, 0.00003, -0.00003] {
                                let x = (q * (1.0 + e)) as f32;
                                if x.is_finite() && x >= 1.0e-30 {
                                    near.push(x);
                                }
                            }
                            for &lo in &near {
                                for &hi in &near {
                                    if lo > hi || lo.is_infinite() {
                                        continue;
                                    }
                                    sw.state();
                                    let g = match (d, vform) {
                                        (2, false) => XMVector2ClampLength(vf(v), lo, hi),
                                        (3, false) => XMVector3ClampLength(vf(v), lo, hi),
                                        (4, false) => XMVector4ClampLength(vf(v), lo, hi),
                                        (2, true) => XMVector2ClampLengthV(vf(v), vf([lo; 4]), vf([hi; 4])),
                                        (3, true) => XMVector3ClampLengthV(vf(v), vf([lo; 4]), vf([hi; 4])),
                                        _ => XMVector4ClampLengthV(vf(v), vf([lo; 4]), vf([hi; 4])),
                                    };
                                    let gf = fb(g);
                                    let t = q.max(lo as f64).min(hi as f64);
                                    let inside = q > lo as f64 * 1.00001 && q < hi as f64 * 0.99999;
                                    let ok = (0..d).all(|i| {
                                        if inside {
                                            gf[i] == v[i] // returned untouched
                                        } else if q == 0.0 {
                                            gf[i] == 0.0
                                        } else {
                                            close(gf[i], v[i] as f64 * t / q, 8.0e-7, 0.0)
                                        }
                                    });
                                    sw.tv(ok, g, || (format!("{} [{},{}]", sf(v), lo, hi), format!("length {} clamped to {}", q, t)));
                                }
                            }
                        }
                    }
                });
            }
        }
        for (d, n, f) in [(2usize, "XMVector2Orthogonal", XMVector2Orthogonal as V1), (3, "XMVector3Orthogonal", XMVector3Orthogonal), (4, "XMVector4Orthogonal", XMVector4Orthogonal)] {
            c.sweep(n, |sw| {
                for (i, &v) in vecs(d, &[-5.0, -2.0, -1.0, 0.0, -0.0, 0.25, 1.0, 3.0]).iter().enumerate() {
                  for k in [0i32, -20, -60, 20, 60] {
                    let v = pad(v.map(|x| x * 2f32.powi(k)), d, i % 3);
                    sw.state();
                    let g = f(vf(v));
                    let gf = fb(g);
                    let zero = (0..d).all(|i| v[i] == 0.0);
                    let ok = dotd(gf, v, d) == 0.0 && (zero == (0..d).all(|i| gf[i] == 0.0)) && match d {
                        2 => gf[0] == -v[1] && gf[1] == v[0],
                        _ => true,
                    };
                    sw.tv(ok, g, || (sf(v), "perpendicular, non-zero".into()));
                  }
                }
            });
        }
    });
}
