//! C08: transcendental functions against f64 references.
//!
//! Tolerance of a result for argument x with reference f: abs + rel*|f| + back*|x|*|f'(x)|
//! (the last term is the effect of an argument perturbed by a relative `back`, i.e. of single-precision range reduction).
use mc::dom::*;
use mc::*;

type V1 = fn(XMVECTOR) -> XMVECTOR;

#[derive(Clone, Copy)]
struct Tol {
    abs: f64,
    rel: f64,
    back: f64,
}
fn t(abs: f64, rel: f64, back: f64) -> Tol {
    Tol { abs, rel, back }
}
struct Spec {
    name: &'static str,
    f: V1,
    m: fn(f64) -> f64,
    d: fn(f64) -> f64,
    tol: Tol,
    /// tolerance for negative arguments where it differs
    neg: Option<Tol>,
    dom: fn(f32) -> bool,
}
fn splat(f: fn(f32) -> f32, v: XMVECTOR) -> XMVECTOR {
    let a = fb(v);
    vf([f(a[0]), f(a[1]), f(a[2]), f(a[3])])
}
const SIN: usize = 0;
fn sc(est: bool, which: usize, v: XMVECTOR) -> XMVECTOR {
    let mut s = vf([9.0; 4]);
    let mut c = vf([9.0; 4]);
    if est { XMVectorSinCosEst(&mut s, &mut c, v) } else { XMVectorSinCos(&mut s, &mut c, v) }
    if which == SIN { s } else { c }
}
fn ssc(est: bool, which: usize, x: f32) -> f32 {
    let (mut s, mut c) = (9.0f32, 9.0f32);
    if est { XMScalarSinCosEst(&mut s, &mut c, x) } else { XMScalarSinCos(&mut s, &mut c, x) }
    if which == SIN { s } else { c }
}
fn tol_of(s: &Spec, x: f64) -> f64 {
    let w = (s.m)(x);
    let tol = if x < 0.0 { s.neg.unwrap_or(s.tol) } else { s.tol };
    let b = if tol.back == 0.0 { 0.0 } else { tol.back * x.abs() * (s.d)(x).abs() };
    tol.abs + tol.rel * w.abs() + b
}

fn main() {
    Ctx::main("C08", |c| {
        let th = c.thorough();
        let measure = std::env::var("MC_MEASURE").is_ok();
        let ang: fn(f32) -> bool = |x| x.abs() <= 131072.0;
        // an argument a rounding error beyond +-1 gives the value at the domain end (the fallback's vector forms call libm: NaN)
        let fallback = c.config == "scalar";
        let unit: fn(f32) -> bool = |x| x.abs() <= 1.0 + 8.0 * f32::EPSILON;
        let nocos: fn(f64) -> f64 = |_| 1.0;
        let full = t(3.0e-7, 0.0, 1.8e-7);
        let est_s = t(6.0e-6, 0.0, 1.8e-7);
        let est_c = t(2.4e-5, 0.0, 1.8e-7);
        let specs: Vec<Spec> = vec![
            Spec { name: "XMVectorSin", f: XMVectorSin, m: f64::sin, d: nocos, tol: full, neg: None, dom: ang },
            Spec { name: "XMVectorCos", f: XMVectorCos, m: f64::cos, d: nocos, tol: full, neg: None, dom: ang },
            Spec { name: "XMVectorSinCos.sin", f: |v| sc(false, 0, v), m: f64::sin, d: nocos, tol: full, neg: None, dom: ang },
            Spec { name: "XMVectorSinCos.cos", f: |v| sc(false, 1, v), m: f64::cos, d: nocos, tol: full, neg: None, dom: ang },
            Spec { name: "XMVectorSinEst", f: XMVectorSinEst, m: f64::sin, d: nocos, tol: est_s, neg: None, dom: ang },
            Spec { name: "XMVectorCosEst", f: XMVectorCosEst, m: f64::cos, d: nocos, tol: est_c, neg: None, dom: ang },
            Spec { name: "XMVectorSinCosEst.sin", f: |v| sc(true, 0, v), m: f64::sin, d: nocos, tol: est_s, neg: None, dom: ang },
            Spec { name: "XMVectorSinCosEst.cos", f: |v| sc(true, 1, v), m: f64::cos, d: nocos, tol: est_c, neg: None, dom: ang },
            Spec { name: "XMScalarSin", f: |v| splat(XMScalarSin, v), m: f64::sin, d: nocos, tol: full, neg: None, dom: ang },
            Spec { name: "XMScalarCos", f: |v| splat(XMScalarCos, v), m: f64::cos, d: nocos, tol: full, neg: None, dom: ang },
            Spec { name: "XMScalarSinCos.sin", f: |v| splat(|x| ssc(false, 0, x), v), m: f64::sin, d: nocos, tol: full, neg: None, dom: ang },
            Spec { name: "XMScalarSinCos.cos", f: |v| splat(|x| ssc(false, 1, x), v), m: f64::cos, d: nocos, tol: full, neg: None, dom: ang },
            Spec { name: "XMScalarSinEst", f: |v| splat(XMScalarSinEst, v), m: f64::sin, d: nocos, tol: est_s, neg: None, dom: ang },
            Spec { name: "XMScalarCosEst", f: |v| splat(XMScalarCosEst, v), m: f64::cos, d: nocos, tol: est_c, neg: None, dom: ang },
            Spec { name: "XMScalarSinCosEst.sin", f: |v| splat(|x| ssc(true, 0, x), v), m: f64::sin, d: nocos, tol: est_s, neg: None, dom: ang },
            Spec { name: "XMScalarSinCosEst.cos", f: |v| splat(|x| ssc(true, 1, x), v), m: f64::cos, d: nocos, tol: est_c, neg: None, dom: ang },
            Spec { name: "XMVectorTan", f: XMVectorTan, m: f64::tan, d: |x| 1.0 + x.tan() * x.tan(), tol: t(1.0e-7, 1.0e-6, 1.8e-7), neg: None, dom: |x| x.abs() <= 8192.0 && (x as f64).cos().abs() > 4.0e-7 * (x.abs() as f64 + 1.0) },
            Spec { name: "XMVectorTanEst", f: XMVectorTanEst, m: f64::tan, d: |x| 1.0 + x.tan() * x.tan(), tol: t(1.0e-5, 7.5e-3, 1.8e-7), neg: None, dom: |x| x.abs() <= 8192.0 && (x as f64).cos().abs() > 1.0e-3 + 4.0e-7 * x.abs() as f64 },
            Spec { name: "XMVectorASin", f: XMVectorASin, m: |x| x.clamp(-1.0, 1.0).asin(), d: nocos, tol: t(5.5e-7, 0.0, 0.0), neg: None, dom: unit },
            Spec { name: "XMVectorACos", f: XMVectorACos, m: |x| x.clamp(-1.0, 1.0).acos(), d: nocos, tol: t(5.5e-7, 0.0, 0.0), neg: None, dom: unit },
            Spec { name: "XMVectorASinEst", f: XMVectorASinEst, m: |x| x.clamp(-1.0, 1.0).asin(), d: nocos, tol: t(1.0e-4, 0.0, 0.0), neg: None, dom: unit },
            Spec { name: "XMVectorACosEst", f: XMVectorACosEst, m: |x| x.clamp(-1.0, 1.0).acos(), d: nocos, tol: t(1.0e-4, 0.0, 0.0), neg: None, dom: unit },
            Spec { name: "XMScalarASin", f: |v| splat(XMScalarASin, v), m: |x| x.clamp(-1.0, 1.0).asin(), d: nocos, tol: t(5.5e-7, 0.0, 0.0), neg: None, dom: unit },
            Spec { name: "XMScalarACos", f: |v| splat(XMScalarACos, v), m: |x| x.clamp(-1.0, 1.0).acos(), d: nocos, tol: t(5.5e-7, 0.0, 0.0), neg: None, dom: unit },
            Spec { name: "XMScalarASinEst", f: |v| splat(XMScalarASinEst, v), m: |x| x.clamp(-1.0, 1.0).asin(), d: nocos, tol: t(1.0e-4, 0.0, 0.0), neg: None, dom: unit },
            Spec { name: "XMScalarACosEst", f: |v| splat(XMScalarACosEst, v), m: |x| x.clamp(-1.0, 1.0).acos(), d: nocos, tol: t(1.0e-4, 0.0, 0.0), neg: None, dom: unit },
            Spec { name: "XMVectorATan", f: XMVectorATan, m: f64::atan, d: nocos, tol: t(4.0e-7, 0.0, 0.0), neg: None, dom: |_| true },
            Spec { name: "XMVectorATanEst", f: XMVectorATanEst, m: f64::atan, d: nocos, tol: t(3.0e-5, 0.0, 0.0), neg: None, dom: |_| true },
            Spec { name: "XMVectorExp2", f: XMVectorExp2, m: f64::exp2, d: |x| x.exp2(), tol: t(3.0e-45, 6.0e-7, 0.0), neg: Some(t(3.0e-45, 1.3e-5, 0.0)), dom: |x| x.is_infinite() || x < 127.999 || x >= 128.0 },
            Spec { name: "XMVectorExp", f: XMVectorExp, m: f64::exp2, d: |x| x.exp2(), tol: t(3.0e-45, 6.0e-7, 0.0), neg: Some(t(3.0e-45, 1.3e-5, 0.0)), dom: |x| x.is_infinite() || x < 127.999 || x >= 128.0 },
            Spec { name: "XMVectorSinH", f: XMVectorSinH, m: f64::sinh, d: f64::cosh, tol: t(7.0e-6, 1.0e-6, 2.0e-7), neg: None, dom: |x| x.abs() <= 89.4 || x.abs() >= 90.0 },
            Spec { name: "XMVectorCosH", f: XMVectorCosH, m: f64::cosh, d: f64::sinh, tol: t(7.0e-6, 1.0e-6, 2.0e-7), neg: None, dom: |x| x.abs() <= 89.4 || x.abs() >= 90.0 },
            Spec { name: "XMVectorTanH", f: XMVectorTanH, m: f64::tanh, d: |_| 0.0, tol: t(5.0e-7, 0.0, 0.0), neg: Some(t(6.0e-6, 0.0, 0.0)), dom: |_| true },
        ];
        // Argument list: class boundaries, structured grid over all exponents, dense lattice over [-4pi, 4pi], neighbourhoods of
        // all multiples of pi/4 up to 64, of the exponential limits and of the domain ends.
        let mut vals = specials();
        grid(1, 254, 2, |x| vals.push(x));
        grid(107, 144, if th { 16 } else { 10 }, |x| vals.push(x));
        let p4 = std::f64::consts::FRAC_PI_4;
        for k in -512..=512i32 {
            vals.extend(around(&[(k as f64 * p4) as f32], if k.abs() <= 64 { 4 } else { 1 }));
        }
        let n = if th { 1 << 20 } else { 1 << 15 };
        for k in -n..=n {
            vals.push((k as f64 / n as f64 * 16.0 * p4) as f32);
            vals.push((k as f64 / n as f64) as f32);
            vals.push((k as f64 / n as f64 * 150.0) as f32);
        }
        vals.extend(around(&[1.0, -1.0, 0.5, -0.5, 128.0, 127.0, -126.0, -125.0, -127.0, -149.0, -150.0, -151.0, 88.0, -88.0, 88.73, -88.73, 89.2, -89.2, 90.0, -90.0, 100.0, -100.0, 0.000244140625, -0.000244140625], 8));
        for k in -152..=128 {
            vals.extend(around(&[k as f32, k as f32 + 0.5], 2));
        }
        for s in &specs {
            let mut worst = (0.0f64, 0.0f32);
            c.sweep(s.name, |sw| {
                let v: Vec<f32> = vals.iter().cloned().filter(|x| (s.dom)(*x)).collect();
                let n = v.len();
                let chk = |sw: &mut Sweep, a: F4, worst: &mut (f64, f32)| {
                    sw.state();
                    let g = (s.f)(vf(a));
                    let gf = fb(g);
                    let mut ok = true;
                    for i in 0..4 {
                        if a[i].is_nan() {
                            ok &= gf[i].is_nan();
                            continue;
                        }
                        if !(s.dom)(a[i]) || (fallback && a[i].abs() > 1.0 && gf[i].is_nan() && (s.name.starts_with("XMVectorASin") || s.name.starts_with("XMVectorACos"))) {
                            continue;
                        }
                        let mut w = (s.m)(a[i] as f64);
                        if w.abs() > f32::MAX as f64 {
                            w = w.signum() * f64::INFINITY;
                        }
                        let tol = tol_of(s, a[i] as f64);
                        ok &= if w.is_infinite() { gf[i] as f64 == w } else { (gf[i] as f64 - w).abs() <= tol };
                        if measure && !w.is_infinite() {
                            let r = (gf[i] as f64 - w).abs() / tol;
                            if !(r <= worst.0) {
                                *worst = (r, a[i]);
                            }
                        }
                    }
                    sw.tv(ok, g, || (sf(a), format!("{:?} tol {:?}", a.map(|x| (s.m)(x as f64)), a.map(|x| tol_of(s, x as f64)))));
                };
                let off = [0usize, n / 4 + 1, n / 2 + 1, 3 * n / 4 + 1];
                for i in 0..n {
                    chk(sw, [v[i], v[(i + off[1]) % n], v[(i + off[2]) % n], v[(i + off[3]) % n]], &mut worst);
                }
                // lanes that hold an out-of-domain value must not disturb the others
                for i in (0..n).step_by(97) {
                    for bad in [f32::INFINITY, f32::NEG_INFINITY, 3.0e38, -3.0e38, 1.5, -2.0] {
                        for l in 0..4 {
                            let mut a = [v[i], v[(i + off[1]) % n], v[(i + off[2]) % n], v[(i + off[3]) % n]];
                            a[l] = bad;
                            chk(sw, a, &mut worst);
                        }
                    }
                }
            });
            if measure {
                println!("MEASURE {} ratio {:.3} at {:?}", s.name, worst.0, worst.1);
            }
        }
        // odd/even symmetry of zero: sin, tan, asin, atan map +-0 to +-0 in value
        c.sweep("zero and one", |sw| {
            let one = vf([0.0, -0.0, 0.0, -0.0]);
            for (n, g, w) in [
                ("sin", XMVectorSin(one), 0.0f32), ("tan", XMVectorTan(one), 0.0), ("tanEst", XMVectorTanEst(one), 0.0),
                ("exp2", XMVectorExp2(one), 1.0), ("cos", XMVectorCos(one), 1.0), ("atan", XMVectorATan(one), 0.0), ("sinEst", XMVectorSinEst(one), 0.0),
            ] {
                sw.state();
                sw.tv((0..4).all(|i| (fb(g)[i] - w).abs() <= 2.0e-7), g, || (n.into(), format!("{:?}", w)));
            }
        });
        c.sweep("XMVectorExp2 NaN", |sw| {
            for x in nans() {
                for l in 0..4 {
                    sw.state();
                    let mut a = [1.0f32, 2.0, -3.0, 200.0];
                    a[l] = x;
                    let g = fb(XMVectorExp2(vf(a)));
                    let w = [2.0f32, 4.0, 0.125, f32::INFINITY];
                    let ok = (0..4).all(|i| if i == l { g[i].is_nan() } else { close(g[i], w[i] as f64, 1e-6, 0.0) });
                    sw.t(ok, h4(ubits(g)), || (sf(a), sf(g), "NaN only in the NaN lane".into()));
                }
            }
        });
        // ---- two-argument arctangent
        type V2 = fn(XMVECTOR, XMVECTOR) -> XMVECTOR;
        for (n, f, est) in [("XMVectorATan2", XMVectorATan2 as V2, false), ("XMVectorATan2Est", XMVectorATan2Est, true)] {
            let mut worst = (0.0f64, 0.0f32, 0.0f32);
            c.sweep(n, |sw| {
                let mut mags: Vec<f32> = vec![];
                for e in -40..=40i32 {
                    for m in if e % 4 == 0 { vec![1.0f32, 1.2345, 1.75] } else { vec![1.375] } {
                        mags.push(m * (2f32).powi(e));
                    }
                }
                for k in 0..=24 {
                    mags.push((k as f32 * 0.13).max(0.001));
                }
                mags.extend([0.99999994, 1.0000001, 3.0]);
                let mut v: Vec<f32> = vec![];
                for m in &mags {
                    v.push(*m);
                    v.push(-*m);
                }
                v.extend([0.0, -0.0, f32::INFINITY, f32::NEG_INFINITY]);
                let tol = if est { 4.0e-4 } else { 7.0e-7 };
                for &y in &v {
                    for &x in &v {
                        for l in 0..4 {
                            let mut a = [1.0f32, -2.0, 0.0, 5.0];
                            let mut b = [3.0f32, -1.0, -4.0, 0.0];
                            a[l] = y;
                            b[l] = x;
                            sw.state();
                            let g = f(vf(a), vf(b));
                            let gf = fb(g);
                            let mut ok = true;
                            for i in 0..4 {
                                let w = (a[i] as f64).atan2(b[i] as f64);
                                let e = (gf[i] as f64 - w).abs();
                                ok &= e <= tol;
                                // the sign of a zero result follows Y
                                if w == 0.0 && (a[i] == 0.0) {
                                    ok &= gf[i] == 0.0 && gf[i].is_sign_negative() == a[i].is_sign_negative();
                                }
                                if measure && !(e / tol <= worst.0) {
                                    worst = (e / tol, a[i], b[i]);
                                }
                            }
                            sw.tv(ok, g, || (format!("y={} x={}", sf(a), sf(b)), format!("{:?}", (0..4).map(|i| (a[i] as f64).atan2(b[i] as f64)).collect::<Vec<_>>())));
                        }
                    }
                }
            });
            if measure {
                println!("MEASURE {} ratio {:.3} at {:?} {:?}", n, worst.0, worst.1, worst.2);
            }
        }
        c.sweep("XMVectorPow", |sw| {
            let b: Vec<f32> = vec![
                0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 0.5, -0.5, 10.0, 3.0, -3.0, 1.1, 0.9, 100.0, 1.0e10, 1.0e-10, 7.5, f32::INFINITY, f32::NEG_INFINITY, 1.0e38, 1.0e-38, 1.0000001, 0.99999994,
            ];
            let e: Vec<f32> = vec![0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 3.0, -3.0, 0.5, -0.5, 0.33333334, 10.0, -10.0, 1.5, -2.5, 64.0, -64.0, 127.0, 128.0, -126.0, 1.0e10, f32::INFINITY, f32::NEG_INFINITY, 16777216.0, 16777217.0, 5.0];
            let mut xy: Vec<(f32, f32)> = b.iter().flat_map(|x| e.iter().map(move |y| (*x, *y))).collect();
            // every octave of the base, from zero and from one, against every octave of the exponent
            let mut xb: Vec<f32> = octaves(-125, 125);
            for k in 1..=23 {
                xb.extend([1.0 + 2f32.powi(-k), 1.0 - 2f32.powi(-k)]);
            }
            let mut ye = octaves(-24, 7);
            for k in 1..=20 {
                ye.extend([1.0 + 2f32.powi(-k), 1.0 - 2f32.powi(-k), 2.0 - 2f32.powi(-k), -1.0 - 2f32.powi(-k)]);
            }
            ye.extend((-12..=12).map(|k| k as f32));
            for x in &xb {
                for y in &ye {
                    xy.push((*x, *y));
                }
            }
            for (k, &(x, y)) in xy.iter().enumerate() {
                {
                    for l in if k < 1000 { 0..4 } else { k % 4..k % 4 + 1 } {
                        let mut p = [2.0f32, 3.0, 4.0, 5.0];
                        let mut q = [3.0f32, 2.0, 0.5, -1.0];
                        p[l] = x;
                        q[l] = y;
                        sw.state();
                        let g = XMVectorPow(vf(p), vf(q));
                        let gf = fb(g);
                        let ok = (0..4).all(|i| {
                            let w = (p[i] as f64).powf(q[i] as f64);
                            if w.is_nan() {
                                gf[i].is_nan()
                            } else if w.abs() > 3.4028234e38 {
                                gf[i].is_infinite() && gf[i].is_sign_negative() == w.is_sign_negative() || w.abs() < 3.4029e38 
                            } else {
                                close(gf[i], w, 1.0e-6, 3.0e-45)
                            }
                        });
                        sw.tv(ok, g, || (format!("{} ^ {}", sf(p), sf(q)), format!("{:?}", (p[l] as f64).powf(q[l] as f64))));
                    }
                }
            }
        });
        // the combined form is the pair of single forms
        c.sweep("combined equals single", |sw| {
            for k in -20000..=20000i32 {
                let x = k as f32 * 0.00123;
                let a = [x, -x, x + 1.0, x * 3.0];
                sw.state();
                let (s, co) = (fb(sc(false, 0, vf(a))), fb(sc(false, 1, vf(a))));
                let (s1, c1) = (fb(XMVectorSin(vf(a))), fb(XMVectorCos(vf(a))));
                let (se, ce) = (fb(sc(true, 0, vf(a))), fb(sc(true, 1, vf(a))));
                let (se1, ce1) = (fb(XMVectorSinEst(vf(a))), fb(XMVectorCosEst(vf(a))));
                let d = |p: F4, q: F4| (0..4).map(|i| (p[i] - q[i]).abs()).fold(0.0f32, f32::max);
                let ok = d(s, s1) < 1e-6 && d(co, c1) < 1e-6 && d(se, se1) < 1.5e-5 && d(ce, ce1) < 6e-5;
                sw.t(ok, h4(ubits(s)), || (sf(a), format!("{:?} {:?} {:?} {:?}", s, co, se, ce), format!("{:?} {:?} {:?} {:?}", s1, c1, se1, ce1)));
            }
        });
    });
}
