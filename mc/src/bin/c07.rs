//! C07: lane arithmetic, operators, interpolation.
use mc::dom::*;
use mc::*;

type V1 = fn(XMVECTOR) -> XMVECTOR;
type V2 = fn(XMVECTOR, XMVECTOR) -> XMVECTOR;
type V3 = fn(XMVECTOR, XMVECTOR, XMVECTOR) -> XMVECTOR;

fn sh(a: F4, b: F4) -> String {
    format!("a={} b={}", sf(a), sf(b))
}
fn veq(g: F4, w: F4) -> bool {
    (0..4).all(|i| num_eq(g[i], w[i]))
}
fn zip(a: F4, b: F4, m: fn(f32, f32) -> f32) -> F4 {
    [m(a[0], b[0]), m(a[1], b[1]), m(a[2], b[2]), m(a[3], b[3])]
}

fn main() {
    Ctx::main("C07", |c| {
        let th = c.thorough();
        let mut vals = specials_nan();
        vals.extend([0.1f32, -0.1, 3.1415927, 1.0e-38, 7.0, 1.0e38, 123456.79, -0.33333334]);
        let bins: Vec<(&str, V2, fn(f32, f32) -> f32)> = vec![
            ("XMVectorAdd", XMVectorAdd, |a, b| a + b),
            ("XMVectorSubtract", XMVectorSubtract, |a, b| a - b),
            ("XMVectorMultiply", XMVectorMultiply, |a, b| a * b),
            ("XMVectorDivide", XMVectorDivide, |a, b| a / b),
            ("XMVector + XMVector", |a, b| (XMVector(a) + XMVector(b)).0, |a, b| a + b),
            ("XMVector - XMVector", |a, b| (XMVector(a) - XMVector(b)).0, |a, b| a - b),
            ("XMVector * XMVector", |a, b| (XMVector(a) * XMVector(b)).0, |a, b| a * b),
            ("XMVector / XMVector", |a, b| (XMVector(a) / XMVector(b)).0, |a, b| a / b),
            ("XMVector += XMVector", |a, b| { let mut x = XMVector(a); x += XMVector(b); x.0 }, |a, b| a + b),
            ("XMVector -= XMVector", |a, b| { let mut x = XMVector(a); x -= XMVector(b); x.0 }, |a, b| a - b),
            ("XMVector *= XMVector", |a, b| { let mut x = XMVector(a); x *= XMVector(b); x.0 }, |a, b| a * b),
            ("XMVector /= XMVector", |a, b| { let mut x = XMVector(a); x /= XMVector(b); x.0 }, |a, b| a / b),
        ];
        for (n, f, m) in bins {
            c.sweep(n, |sw| {
                let mut chk = |sw: &mut Sweep, a: F4, b: F4| {
                    sw.state();
                    let g = f(vf(a), vf(b));
                    let w = zip(a, b, m);
                    sw.tv(veq(fb(g), w), g, || (sh(a, b), sf(w)));
                };
                binary(&vals, |a, b| chk(sw, a, b));
                binary_packed(&vals, |a, b| chk(sw, a, b));
                // exponent x exponent grid
                let e: Vec<f32> = grid_vec(1, 254, if th { 2 } else { 1 }).into_iter().step_by(if th { 3 } else { 11 }).collect();
                binary_packed(&e, |a, b| chk(sw, a, b));
                // every octave against every octave, and against its neighbourhood
                let o: Vec<f32> = octaves(-125, 125).into_iter().step_by(if th { 1 } else { 3 }).collect();
                binary_packed(&o, |a, b| chk(sw, a, b));
                for x in octaves(-120, 120) {
                    for r in [1.0f32, -1.0, 0.99999994, -1.0000001, 1.001, -0.999, 2.0, -0.5, 3.0] {
                        let b = x * r;
                        chk(sw, [x, 1.0, b, -3.0], [b, x, x, b]);
                    }
                }
            });
        }
        let scs: Vec<(&str, fn(XMVECTOR, f32) -> XMVECTOR, fn(f32, f32) -> f32)> = vec![
            ("XMVectorScale", |v, s| XMVectorScale(v, s), |a, b| a * b),
            ("f32 * XMVector", |v, s| (s * XMVector(v)).0, |a, b| a * b),
            ("XMVector * f32", |v, s| (XMVector(v) * s).0, |a, b| a * b),
            ("XMVector *= f32", |v, s| { let mut x = XMVector(v); x *= s; x.0 }, |a, b| a * b),
        ];
        for (n, f, m) in scs {
            c.sweep(n, |sw| {
                let mut chk = |a: F4, s: f32| {
                    sw.state();
                    let g = f(vf(a), s);
                    let w = zip(a, [s; 4], m);
                    sw.tv(veq(fb(g), w), g, || (format!("{} s={:?}", sf(a), s), sf(w)));
                };
                for &s in &vals {
                    unary(&vals, |a| chk(a, s));
                }
                for s in octaves(-125, 125) {
                    for a in [[1.5f32, -3.0, 0.1, 1.0e5], [s, -s, 1.0 / s, 0.0]] {
                        chk(a, s);
                    }
                }
                for v in star(&[[1.5f32, -3.0, 0.1, 1.0e5]], &octaves(-125, 125)) {
                    for s in [1.0f32, -1.0, 0.3, 1.0009766, -7.0e4, 2.0e-6] {
                        chk(v, s);
                    }
                }
            });
        }
        // Division by a scalar may be done as a division or as a multiplication by the reciprocal.
        let dvs: Vec<(&str, fn(XMVECTOR, f32) -> XMVECTOR)> =
            vec![("XMVector / f32", |v, s| (XMVector(v) / s).0), ("XMVector /= f32", |v, s| { let mut x = XMVector(v); x /= s; x.0 })];
        for (n, f) in dvs {
            c.sweep(n, |sw| {
                let mut v: Vec<f32> = vec![0.0, 1.0, -1.0, 2.0, 0.5, -3.0, 10.0, 0.1, 1.0e10, -1.0e-10, 7.0, 1.0e20];
                v.extend(octaves(-50, 50));
                for &s in &v {
                    unary(&v, |a| {
                        sw.state();
                        let g = f(vf(a), s);
                        let ok = (0..4).all(|i| {
                            let w = a[i] as f64 / s as f64;
                            if s == 0.0 && a[i] == 0.0 { fb(g)[i].is_nan() } else { close(fb(g)[i], w, 2.5e-7, 0.0) }
                        });
                        sw.tv(ok, g, || (format!("{} s={:?}", sf(a), s), "a/s".into()));
                    });
                }
            });
        }
        let tern: Vec<(&str, V3, fn(f32, f32, f32) -> (f32, f32))> = vec![
            ("XMVectorMultiplyAdd", XMVectorMultiplyAdd, |a, b, c| (a * b + c, a.mul_add(b, c))),
            ("XMVectorNegativeMultiplySubtract", XMVectorNegativeMultiplySubtract, |a, b, c| (c - a * b, (-a).mul_add(b, c))),
        ];
        let small: Vec<f32> = vec![0.0, -0.0, 1.0, -1.0, 0.1, -3.0, 1.0000001, 16777215.0, 1.0e-20, 1.0e20, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 1.0e-45, 0.33333334, 4097.0];
        for (n, f, m) in tern {
            c.sweep(n, |sw| {
                let mut trip: Vec<[f32; 3]> = vec3s(&small);
                trip.extend(star(&[[1.5f32, -0.75, 2.0], [1.0, 1.0, 0.0], [-3.0, 0.1, 7.0]], &octaves(-120, 120)));
                // the product against an addend of every relative size, and every cancellation
                for x in octaves(-60, 60).into_iter().step_by(3) {
                    for k in -26..=26 {
                        for s in [1.0f32, -1.0] {
                            trip.push([x, 1.25, s * x * 2f32.powi(k)]);
                            trip.push([1.25, x, s * x * 1.25 * (1.0 + 2f32.powi(-k.abs()))]);
                        }
                    }
                }
                for [x, y, z] in trip {
                    {
                        {
                            for l in 0..4 {
                                let mut a = [2.0f32, 3.0, 5.0, 7.0];
                                let mut b = [11.0f32, 13.0, 17.0, 19.0];
                                let mut d = [-23.0f32, 29.0, -31.0, 37.0];
                                a[l] = x;
                                b[l] = y;
                                d[l] = z;
                                sw.state();
                                let g = f(vf(a), vf(b), vf(d));
                                let gf = fb(g);
                                let ok = (0..4).all(|i| {
                                    let (p, q) = m(a[i], b[i], d[i]);
                                    num_eq(gf[i], p) || num_eq(gf[i], q)
                                });
                                sw.tv(ok, g, || (format!("{} c={}", sh(a, b), sf(d)), "fused or unfused".into()));
                            }
                        }
                    }
                }
            });
        }
        c.sweep("XMVectorSum", |sw| {
            let v: Vec<f32> = vec![0.0, 1.0, -2.0, 3.0, 16.0, -100.0, 4096.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN];
            all4(&v, |a| {
                sw.state();
                let g = XMVectorSum(vf(a));
                let w = a[0] + a[1] + a[2] + a[3];
                sw.tv(veq(fb(g), [w; 4]), g, || (sf(a), format!("{:?}", w)));
            });
            for a in star(&[[1.5f32, -0.75, 2.0, 5.0], [0.0; 4], [1.0, 1.0, 1.0, 1.0]], &octaves(-120, 120)) {
                sw.state();
                let g = XMVectorSum(vf(a));
                let w: f64 = a.iter().map(|x| *x as f64).sum();
                let m: f64 = a.iter().map(|x| x.abs() as f64).sum();
                sw.tv(fb(g).iter().all(|x| (*x as f64 - w).abs() <= 3.0e-7 * m), g, || (sf(a), format!("{:?}", w)));
            }
        });
        // unary: (name, fn, f64 reference, relative tolerance, domain test)
        type U = (&'static str, V1, fn(f64) -> f64, f64, fn(f32) -> bool);
        let un: Vec<U> = vec![
            ("XMVectorReciprocal", XMVectorReciprocal, |x| 1.0 / x, 1.3e-7, |x| x == 0.0 || x.is_infinite() || (x.abs() > 1e-37 && x.abs() < 1e37)),
            ("XMVectorReciprocalEst", XMVectorReciprocalEst, |x| 1.0 / x, 4.0e-4, |x| x == 0.0 || x.is_infinite() || (x.abs() > 1e-37 && x.abs() < 1e37)),
            ("XMVectorSqrt", XMVectorSqrt, |x| x.sqrt(), 1.3e-7, |_| true),
            ("XMVectorSqrtEst", XMVectorSqrtEst, |x| x.sqrt(), 8.0e-4, |x| x == 0.0 || x.is_infinite() || x.abs() > 1e-37),
            ("XMVectorReciprocalSqrt", XMVectorReciprocalSqrt, |x| 1.0 / x.sqrt(), 2.5e-7, |_| true),
            ("XMVectorReciprocalSqrtEst", XMVectorReciprocalSqrtEst, |x| 1.0 / x.sqrt(), 4.0e-4, |x| x == 0.0 || x.is_infinite() || x.abs() > 1e-37),
        ];
        for (n, f, m, tol, dom) in un {
            c.sweep(n, |sw| {
                let mut chk = |sw: &mut Sweep, a: F4| {
                    sw.state();
                    let g = f(vf(a));
                    let gf = fb(g);
                    let ok = (0..4).all(|i| a[i].is_nan() && gf[i].is_nan() || !a[i].is_nan() && (!dom(a[i]) || close(gf[i], m(a[i] as f64), tol, 1.5e-45)));
                    sw.tv(ok, g, || (sf(a), format!("{:?}", a.map(|x| m(x as f64)))));
                };
                let v = specials_nan();
                for &x in &v {
                    for &y in &v {
                        for l in 0..4 {
                            let mut a = [y; 4];
                            a[l] = x;
                            chk(sw, a);
                        }
                    }
                }
                grid(0, 255, if th { 14 } else { 8 }, |x| chk(sw, [x, x * 1.25, -x, f32::from_bits(x.to_bits() ^ 3)]));
            });
        }
        // ---- interpolation: integer control points and dyadic weights, so every order of evaluation is exact
        let pts: Vec<F4> = {
            let mut v = vec![];
            for i in 0..4 {
                for &x in &[1.0f32, -3.0, 64.0] {
                    let mut p = [0.0; 4];
                    p[i] = x;
                    v.push(p);
                }
            }
            v.extend([[0.0; 4], [1.0, 2.0, 3.0, 4.0], [-5.0, 7.0, -11.0, 13.0], [17.0, -19.0, 23.0, 29.0], [-64.0, 32.0, 16.0, -8.0]]);
            v
        };
        let ts: Vec<f32> = vec![0.0, 0.125, 0.25, 0.5, 0.75, 1.0, -0.5, 1.5, 2.0, -1.0];
        let tvs: Vec<F4> = {
            let mut v: Vec<F4> = ts.iter().map(|t| [*t; 4]).collect();
            for i in 0..ts.len() {
                let n = ts.len();
                v.push([ts[i], ts[(i + 1) % n], ts[(i + 3) % n], ts[(i + 6) % n]]);
                v.push([ts[(i + 4) % n], ts[(i + 7) % n], ts[i], ts[(i + 2) % n]]);
            }
            v
        };
        let exact = |g: F4, w: [f64; 4]| (0..4).all(|i| g[i] as f64 == w[i]);
        let map4 = |f: &dyn Fn(usize) -> f64| [f(0), f(1), f(2), f(3)];
        c.sweep("XMVectorLerp", |sw| {
            for a in &pts {
                for b in &pts {
                    for &t in &ts {
                        sw.state();
                        let g = XMVectorLerp(vf(*a), vf(*b), t);
                        let w = map4(&|i| a[i] as f64 + t as f64 * (b[i] as f64 - a[i] as f64));
                        sw.tv(exact(fb(g), w), g, || (format!("{} t={}", sh(*a, *b), t), format!("{:?}", w)));
                    }
                    for t in &tvs {
                        sw.state();
                        let g = XMVectorLerpV(vf(*a), vf(*b), vf(*t));
                        let w = map4(&|i| a[i] as f64 + t[i] as f64 * (b[i] as f64 - a[i] as f64));
                        sw.tv(exact(fb(g), w), g, || (format!("V {} t={:?}", sh(*a, *b), t), format!("{:?}", w)));
                    }
                }
            }
        });
        // four-point forms: every quadruple over a basis of control points
        let basis: Vec<F4> = vec![[0.0; 4], [1.0, 2.0, 3.0, 4.0], [-5.0, 7.0, -11.0, 13.0], [17.0, -19.0, 23.0, 29.0], [-64.0, 32.0, 16.0, -8.0], [0.0, 0.0, 1.0, 0.0]];
        let quads: Vec<[F4; 4]> = vec4s(&basis);
        let herm = |t: f64| [2.0 * t * t * t - 3.0 * t * t + 1.0, t * t * t - 2.0 * t * t + t, -2.0 * t * t * t + 3.0 * t * t, t * t * t - t * t];
        let cat = |t: f64| [0.5 * (-t * t * t + 2.0 * t * t - t), 0.5 * (3.0 * t * t * t - 5.0 * t * t + 2.0), 0.5 * (-3.0 * t * t * t + 4.0 * t * t + t), 0.5 * (t * t * t - t * t)];
        let sq = |q: &[F4; 4]| format!("{:?}", q);
        c.sweep("XMVectorHermite", |sw| {
            for q in &quads {
                let v = q.map(vf);
                for &t in &ts {
                    sw.state();
                    let g = XMVectorHermite(v[0], v[1], v[2], v[3], t);
                    let h = herm(t as f64);
                    let w = map4(&|i| (0..4).map(|k| h[k] * q[k][i] as f64).sum());
                    sw.tv(exact(fb(g), w), g, || (format!("{} t={}", sq(q), t), format!("{:?}", w)));
                }
                // T.x weighs Position0, T.y Tangent0, T.z Position1, T.w Tangent1
                for t in &tvs {
                    sw.state();
                    let g = XMVectorHermiteV(v[0], v[1], v[2], v[3], vf(*t));
                    let w = map4(&|i| (0..4).map(|k| herm(t[k] as f64)[k] * q[k][i] as f64).sum());
                    sw.tv(exact(fb(g), w), g, || (format!("V {} t={:?}", sq(q), t), format!("{:?}", w)));
                }
            }
        });
        c.sweep("XMVectorCatmullRom", |sw| {
            for q in &quads {
                let v = q.map(vf);
                for &t in &ts {
                    sw.state();
                    let g = XMVectorCatmullRom(v[0], v[1], v[2], v[3], t);
                    let h = cat(t as f64);
                    let w = map4(&|i| (0..4).map(|k| h[k] * q[k][i] as f64).sum());
                    sw.tv(exact(fb(g), w), g, || (format!("{} t={}", sq(q), t), format!("{:?}", w)));
                }
                for t in &tvs {
                    sw.state();
                    let g = XMVectorCatmullRomV(v[0], v[1], v[2], v[3], vf(*t));
                    let w = map4(&|i| (0..4).map(|k| cat(t[i] as f64)[k] * q[k][i] as f64).sum());
                    sw.tv(exact(fb(g), w), g, || (format!("V {} t={:?}", sq(q), t), format!("{:?}", w)));
                }
            }
        });
        c.sweep("XMVectorBaryCentric", |sw| {
            for a in &basis {
                for b in &basis {
                    for d in &basis {
                        for &f in &ts {
                            for &g0 in &ts {
                                sw.state();
                                let g = XMVectorBaryCentric(vf(*a), vf(*b), vf(*d), f, g0);
                                let w = map4(&|i| a[i] as f64 + f as f64 * (b[i] - a[i]) as f64 + g0 as f64 * (d[i] - a[i]) as f64);
                                sw.tv(exact(fb(g), w), g, || (format!("{} c={:?} f={} g={}", sh(*a, *b), d, f, g0), format!("{:?}", w)));
                            }
                        }
                        for f in &tvs {
                            for g0 in tvs.iter().step_by(3) {
                                sw.state();
                                let g = XMVectorBaryCentricV(vf(*a), vf(*b), vf(*d), vf(*f), vf(*g0));
                                let w = map4(&|i| a[i] as f64 + f[i] as f64 * (b[i] - a[i]) as f64 + g0[i] as f64 * (d[i] - a[i]) as f64);
                                sw.tv(exact(fb(g), w), g, || (format!("V {} c={:?} f={:?} g={:?}", sh(*a, *b), d, f, g0), format!("{:?}", w)));
                            }
                        }
                    }
                }
            }
        });
        // weights close to 0, 1 and 1/2, and far outside [0, 1]
        c.sweep("interpolation with small and large weights", |sw| {
            let mut ws: Vec<f32> = vec![10.0, -7.0, 100.0, -64.0, 1000.0, 0.3, 0.7];
            for k in 2..=24i32 {
                let e = 2f32.powi(-k);
                ws.extend([2f32.powi(k / 2), -2f32.powi(k / 2), 1.5 * e, -1.3 * e]);
                ws.extend([e, -e, 1.0 - e, 1.0 + e, 0.5 + e, 0.5 - e]);
            }
            let habs = |t: f64| { let t = t.abs(); [2.0 * t * t * t + 3.0 * t * t + 1.0, t * t * t + 2.0 * t * t + t, 2.0 * t * t * t + 3.0 * t * t, t * t * t + t * t] };
            let cabs = |t: f64| { let t = t.abs(); [0.5 * (t * t * t + 2.0 * t * t + t), 0.5 * (3.0 * t * t * t + 5.0 * t * t + 2.0), 0.5 * (3.0 * t * t * t + 4.0 * t * t + t), 0.5 * (t * t * t + t * t)] };
            let n = ws.len();
            for (qi, q) in quads.iter().enumerate() {
                let v = q.map(vf);
                for (ti, &t) in ws.iter().enumerate() {
                    let td = t as f64;
                    let f = ws[(ti * 7 + qi) % n];
                    let fd = f as f64;
                    let tv = [t, ws[(ti + 5) % n], ws[(ti + 11) % n], ws[(ti + 23) % n]];
                    sw.state();
                    let mut chk = |name: &str, g: XMVECTOR, w: [f64; 4], m: [f64; 4]| {
                        let gf = fb(g);
                        sw.tv((0..4).all(|i| (gf[i] as f64 - w[i]).abs() <= 8.0e-7 * m[i]), g, || (format!("{} {} t={:?} f={}", name, sq(q), tv, f), format!("{:?}", w)));
                    };
                    let p = |k: usize, i: usize| q[k][i] as f64;
                    let ap = |k: usize, i: usize| p(k, i).abs();
                    chk("Lerp", XMVectorLerp(v[0], v[1], t), map4(&|i| p(0, i) + td * (p(1, i) - p(0, i))), map4(&|i| ap(0, i) + td.abs() * (ap(0, i) + ap(1, i))));
                    chk("LerpV", XMVectorLerpV(v[0], v[1], vf(tv)), map4(&|i| p(0, i) + tv[i] as f64 * (p(1, i) - p(0, i))), map4(&|i| ap(0, i) + tv[i].abs() as f64 * (ap(0, i) + ap(1, i))));
                    chk("Hermite", XMVectorHermite(v[0], v[1], v[2], v[3], t), map4(&|i| (0..4).map(|k| herm(td)[k] * p(k, i)).sum()), map4(&|i| (0..4).map(|k| habs(td)[k] * ap(k, i)).sum()));
                    chk("HermiteV", XMVectorHermiteV(v[0], v[1], v[2], v[3], vf(tv)), map4(&|i| (0..4).map(|k| herm(tv[k] as f64)[k] * p(k, i)).sum()), map4(&|i| (0..4).map(|k| habs(tv[k] as f64)[k] * ap(k, i)).sum()));
                    chk("CatmullRom", XMVectorCatmullRom(v[0], v[1], v[2], v[3], t), map4(&|i| (0..4).map(|k| cat(td)[k] * p(k, i)).sum()), map4(&|i| (0..4).map(|k| cabs(td)[k] * ap(k, i)).sum()));
                    chk("CatmullRomV", XMVectorCatmullRomV(v[0], v[1], v[2], v[3], vf(tv)), map4(&|i| (0..4).map(|k| cat(tv[i] as f64)[k] * p(k, i)).sum()), map4(&|i| (0..4).map(|k| cabs(tv[i] as f64)[k] * ap(k, i)).sum()));
                    let fv = [f; 4];
                    let b = |x: f64, y: f64, i: usize| p(0, i) + x * (p(1, i) - p(0, i)) + y * (p(2, i) - p(0, i));
                    let ba = |x: f64, y: f64, i: usize| ap(0, i) + x.abs() * (ap(1, i) + ap(0, i)) + y.abs() * (ap(2, i) + ap(0, i));
                    chk("BaryCentric", XMVectorBaryCentric(v[0], v[1], v[2], t, f), map4(&|i| b(td, fd, i)), map4(&|i| ba(td, fd, i)));
                    chk("BaryCentricV", XMVectorBaryCentricV(v[0], v[1], v[2], vf(tv), vf(fv)), map4(&|i| b(tv[i] as f64, fd, i)), map4(&|i| ba(tv[i] as f64, fd, i)));
                }
            }
        });
        // The interpolation formulas are homogeneous: scaling the points by 2^k scales the result.
        c.sweep("interpolation exponent range", |sw| {
            for k in -100..=100i32 {
                let s = (2f64).powi(k) as f32;
                for q in quads.iter().step_by(37) {
                    let v = q.map(|p| vf(p.map(|x| x * s)));
                    let u = q.map(vf);
                    for &t in &ts {
                        sw.state();
                        let pairs = [
                            (XMVectorLerp(v[0], v[1], t), XMVectorLerp(u[0], u[1], t)),
                            (XMVectorHermite(v[0], v[1], v[2], v[3], t), XMVectorHermite(u[0], u[1], u[2], u[3], t)),
                            (XMVectorCatmullRom(v[0], v[1], v[2], v[3], t), XMVectorCatmullRom(u[0], u[1], u[2], u[3], t)),
                            (XMVectorBaryCentric(v[0], v[1], v[2], t, 0.25), XMVectorBaryCentric(u[0], u[1], u[2], t, 0.25)),
                            (XMVectorLerpV(v[0], v[1], vf(tvs[12])), XMVectorLerpV(u[0], u[1], vf(tvs[12]))),
                            (XMVectorHermiteV(v[0], v[1], v[2], v[3], vf([t; 4])), XMVectorHermiteV(u[0], u[1], u[2], u[3], vf([t; 4]))),
                            (XMVectorCatmullRomV(v[0], v[1], v[2], v[3], vf([t; 4])), XMVectorCatmullRomV(u[0], u[1], u[2], u[3], vf([t; 4]))),
                            (XMVectorBaryCentricV(v[0], v[1], v[2], vf([t; 4]), vf(tvs[14])), XMVectorBaryCentricV(u[0], u[1], u[2], vf([t; 4]), vf(tvs[14]))),
                        ];
                        for (p, (a, b)) in pairs.iter().enumerate() {
                            let w = fb(*b).map(|x| x * s);
                            sw.tv(fb(*a) == w, *a, || (format!("fn {} {} t={} 2^{}", p, sq(q), t, k), sf(w)));
                        }
                    }
                }
            }
        });
    });
}
