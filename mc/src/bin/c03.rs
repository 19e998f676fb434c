//! C03: comparisons and classifications.
use mc::dom::*;
use mc::*;

type Mask2 = fn(XMVECTOR, XMVECTOR) -> XMVECTOR;
type MaskR = fn(&mut u32, XMVECTOR, XMVECTOR) -> XMVECTOR;
type Bool2 = fn(XMVECTOR, XMVECTOR) -> bool;
type Rec2 = fn(XMVECTOR, XMVECTOR) -> u32;
type Pred = fn(u32, u32) -> bool;

fn f(x: u32) -> f32 {
    f32::from_bits(x)
}
fn p_eq(a: u32, b: u32) -> bool { f(a) == f(b) }
fn p_ne(a: u32, b: u32) -> bool { !(f(a) == f(b)) }
fn p_gt(a: u32, b: u32) -> bool { f(a) > f(b) }
fn p_ge(a: u32, b: u32) -> bool { f(a) >= f(b) }
fn p_lt(a: u32, b: u32) -> bool { f(a) < f(b) }
fn p_le(a: u32, b: u32) -> bool { f(a) <= f(b) }
fn p_ieq(a: u32, b: u32) -> bool { a == b }
fn p_ine(a: u32, b: u32) -> bool { a != b }
fn p_inb(a: u32, b: u32) -> bool { f(a) <= f(b) && f(a) >= -f(b) }

/// Per-lane outcome classes: each is an (a, b) pair of bit patterns.
fn classes(int: bool) -> Vec<(u32, u32)> {
    let n = 0x7fc00000u32;
    if int {
        vec![(0, 0), (0, 0x80000000), (1, 2), (0xffffffff, 0xffffffff), (n, n), (0x7fffffff, 0xffffffff), (0x12345678, 0x12345679), (0x3f800000, 0xbf800000)]
    } else {
        let g = |x: f32| x.to_bits();
        vec![
            (g(0.0), g(-0.0)), (g(1.0), g(2.0)), (g(2.0), g(1.0)), (g(-2.0), g(1.0)), (n, g(1.0)), (g(1.0), n), (n, n),
            (g(f32::INFINITY), g(f32::INFINITY)), (g(f32::NEG_INFINITY), g(f32::INFINITY)), (g(1.0), g(1.0)), (g(-1.0), g(-2.0)),
        ]
    }
}
/// All lane-class combinations, plus every special pair in each lane over three backgrounds.
fn pairs(int: bool, mut k: impl FnMut(U4, U4)) {
    let c = classes(int);
    all4(&c, |q| k([q[0].0, q[1].0, q[2].0, q[3].0], [q[0].1, q[1].1, q[2].1, q[3].1]));
    let v: Vec<u32> = if int { patterns() } else { specials_nan().iter().map(|x| x.to_bits()).collect() };
    for &a in &v {
        for &b in &v {
            for l in 0..4 {
                for bg in 0..3 {
                    let (x0, y0) = [(0x3f800000, 0x3f800000), (0x40000000, 0x3f800000), (0x3f800000, 0x40000000)][bg];
                    let mut x = [x0; 4];
                    let mut y = [y0; 4];
                    x[l] = a;
                    y[l] = b;
                    k(x, y);
                }
            }
        }
    }
    // every octave against its neighbours, its negation, its double and zero (integers: every single bit flipped)
    let mut near = |a: u32, b: u32| {
        for l in 0..4 {
            for bg in 0..3 {
                let (x0, y0) = [(0x3f800000, 0x3f800000), (0x40000000, 0x3f800000), (0x3f800000, 0x40000000)][bg];
                let mut x = [x0; 4];
                let mut y = [y0; 4];
                x[l] = a;
                y[l] = b;
                k(x, y);
            }
        }
    };
    if int {
        for &a in &v {
            for bit in 0..32 {
                near(a, a ^ (1 << bit));
            }
            near(a, a.wrapping_add(1));
            near(a, a.wrapping_neg());
        }
    } else {
        for e in 0..255u32 {
            for m in [0u32, 0x180000, 0x555555, 0x7fffff] {
                for s in [0u32, 0x80000000] {
                    let a = s | (e << 23) | m;
                    let d = (f(a) * 2.0).to_bits();
                    for b in [a, a + 1, if a & 0x7fffffff == 0 { a } else { a - 1 }, a ^ 0x80000000, 0, d, d ^ 0x80000000] {
                        near(a, b);
                    }
                }
            }
        }
    }
}
fn mask(a: U4, b: U4, p: Pred) -> U4 {
    let mut w = [0; 4];
    for i in 0..4 {
        w[i] = if p(a[i], b[i]) { !0 } else { 0 };
    }
    w
}
fn sh(a: U4, b: U4) -> String {
    format!("a={} b={}", sv(a), sv(b))
}
fn hb(x: u32) -> u64 {
    (x as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15)
}
fn rec_ok(cr: u32, n: usize, cnt: usize) -> bool {
    XMComparisonAllTrue(cr) == (cnt == n)
        && XMComparisonAnyTrue(cr) == (cnt > 0)
        && XMComparisonAllFalse(cr) == (cnt == 0)
        && XMComparisonAnyFalse(cr) == (cnt < n)
        && XMComparisonMixed(cr) == (cnt > 0 && cnt < n)
}

fn main() {
    Ctx::main("C03", |c| {
        // ---- per-lane masks
        let ms: Vec<(&str, Mask2, Pred, bool)> = vec![
            ("XMVectorEqual", XMVectorEqual, p_eq, false),
            ("XMVectorEqualInt", XMVectorEqualInt, p_ieq, true),
            ("XMVectorNotEqual", XMVectorNotEqual, p_ne, false),
            ("XMVectorNotEqualInt", XMVectorNotEqualInt, p_ine, true),
            ("XMVectorGreater", XMVectorGreater, p_gt, false),
            ("XMVectorGreaterOrEqual", XMVectorGreaterOrEqual, p_ge, false),
            ("XMVectorLess", XMVectorLess, p_lt, false),
            ("XMVectorLessOrEqual", XMVectorLessOrEqual, p_le, false),
            ("XMVectorInBounds", XMVectorInBounds, p_inb, false),
        ];
        for (n, fun, p, int) in ms {
            c.sweep(n, |sw| {
                pairs(int, |a, b| {
                    sw.state();
                    let g = fun(vu(a), vu(b));
                    let w = mask(a, b, p);
                    sw.tv(ub(g) == w, g, || (sh(a, b), sv(w)));
                })
            });
        }
        let mr: Vec<(&str, MaskR, Pred, bool)> = vec![
            ("XMVectorEqualR", XMVectorEqualR, p_eq, false),
            ("XMVectorEqualIntR", XMVectorEqualIntR, p_ieq, true),
            ("XMVectorGreaterR", XMVectorGreaterR, p_gt, false),
            ("XMVectorGreaterOrEqualR", XMVectorGreaterOrEqualR, p_ge, false),
        ];
        for (n, fun, p, int) in mr {
            c.sweep(n, |sw| {
                pairs(int, |a, b| {
                    for init in [0u32, !0] {
                        sw.state();
                        let mut cr = init;
                        let g = fun(&mut cr, vu(a), vu(b));
                        let w = mask(a, b, p);
                        let cnt = w.iter().filter(|x| **x != 0).count();
                        let ok = ub(g) == w && rec_ok(cr, 4, cnt);
                        sw.t(ok, h4(ub(g)) ^ hb(cr), || (sh(a, b), format!("{} CR={:x}", sv(ub(g)), cr), format!("{} {} true lanes of 4", sv(w), cnt)));
                    }
                })
            });
        }
        c.sweep("XMVectorInBoundsR", |sw| {
            pairs(false, |a, b| {
                for init in [0u32, !0] {
                    sw.state();
                    let mut cr = init;
                    let g = XMVectorInBoundsR(&mut cr, vu(a), vu(b));
                    let w = mask(a, b, p_inb);
                    let all = w.iter().all(|x| *x != 0);
                    let ok = ub(g) == w && XMComparisonAllInBounds(cr) == all && XMComparisonAnyOutOfBounds(cr) == !all;
                    sw.t(ok, h4(ub(g)) ^ hb(cr), || (sh(a, b), format!("{} CR={:x}", sv(ub(g)), cr), format!("{} all in bounds={}", sv(w), all)));
                }
            })
        });
        for (n, fun, inf) in [("XMVectorIsNaN", XMVectorIsNaN as fn(XMVECTOR) -> XMVECTOR, false), ("XMVectorIsInfinite", XMVectorIsInfinite, true)] {
            c.sweep(n, |sw| {
                let mut chk = |sw: &mut Sweep, a: U4| {
                    sw.state();
                    let g = fun(vu(a));
                    let w = mask(a, a, if inf { |x, _| f(x).is_infinite() } else { |x, _| f(x).is_nan() });
                    sw.tv(ub(g) == w, g, || (sv(a), sv(w)));
                };
                let v: Vec<u32> = specials_nan().iter().map(|x| x.to_bits()).collect();
                let n = v.len();
                for i in 0..n {
                    for j in 0..n {
                        for l in 0..4 {
                            let mut a = [v[j]; 4];
                            a[l] = v[i];
                            chk(sw, a);
                        }
                    }
                }
                if sw.tier == Tier::Thorough {
                    every_f32(1, |a| chk(sw, a));
                } else {
                    grid(0, 255, 6, |x| chk(sw, [x.to_bits(), x.to_bits() ^ 0x80000000, x.to_bits() ^ 1, x.to_bits() ^ 0x400000]));
                }
            });
        }
        // ---- near-equal
        let near_lane = |a: u32, b: u32, e: u32| (f(a) - f(b)).abs() <= f(e);
        let nearcls: Vec<(u32, u32, u32)> = {
            let g = |x: f32| x.to_bits();
            let n = 0x7fc00000u32;
            vec![
                (g(1.0), g(1.5), g(0.5)), (g(1.5), g(1.0), g(0.5)), (g(1.0), g(1.5), g(0.25)), (g(1.5), g(1.0), g(0.25)), (n, g(1.0), g(1.0)), (g(1.0), n, g(f32::INFINITY)),
                (g(1.0), g(1.0), n), (g(f32::INFINITY), g(f32::INFINITY), g(1.0)), (g(-3.0), g(-3.0), g(0.0)), (g(1.0), g(1.0), g(-1.0)),
            ]
        };
        let nears = |k: &mut dyn FnMut(U4, U4, U4)| {
            all4(&nearcls, |q| k([q[0].0, q[1].0, q[2].0, q[3].0], [q[0].1, q[1].1, q[2].1, q[3].1], [q[0].2, q[1].2, q[2].2, q[3].2]));
            let v: Vec<u32> = [0.0f32, -0.0, 1.0, -1.0, 1.0000001, 0.5, f32::MAX, -f32::MAX, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MIN_POSITIVE, 1.0e-45, 16777216.0, 16777218.0, 2.0].iter().map(|x| x.to_bits()).collect();
            for &a in &v {
                for &b in &v {
                    for &e in &v {
                        for l in 0..4 {
                            for bg in 0..2u32 {
                                let mut x = [0x3f800000; 4];
                                let mut y = [0x40000000; 4];
                                let mut z = [[0x3f800000, 0x3f000000][bg as usize]; 4];
                                x[l] = a;
                                y[l] = b;
                                z[l] = e;
                                k(x, y, z);
                            }
                        }
                    }
                }
            }
            // every octave of the tolerance against every octave of the values around it
            for ee in (1..254u32).step_by(1) {
                for em in [0u32, 0x300000] {
                    let e = f(ee << 23 | em);
                    for q in [0i32, 1, 4, 10, 22, -8] {
                        let a = e * 2f32.powi(q);
                        if !(a.is_finite() && a != 0.0) {
                            continue;
                        }
                        for s in [1.0f32, -1.0] {
                            for t in [0.0f32, 0.5, 1.0, -1.0, 1.25, -1.25, 2.0, -0.75, -2.0] {
                                let (x0, y0) = (s * a, s * a + t * e);
                                for l in 0..4 {
                                    let mut x = [0x3f800000; 4];
                                    let mut y = [0x40000000; 4];
                                    let mut z = [0x3f800000; 4];
                                    x[l] = x0.to_bits();
                                    y[l] = y0.to_bits();
                                    z[l] = e.to_bits();
                                    k(x, y, z);
                                }
                            }
                        }
                    }
                }
            }
        };
        c.sweep("XMVectorNearEqual", |sw| {
            nears(&mut |a, b, e| {
                sw.state();
                let g = XMVectorNearEqual(vu(a), vu(b), vu(e));
                let mut w = [0; 4];
                for i in 0..4 {
                    w[i] = if near_lane(a[i], b[i], e[i]) { !0 } else { 0 };
                }
                sw.tv(ub(g) == w, g, || (format!("{} e={}", sh(a, b), sv(e)), sv(w)));
            })
        });
        for (n, fun, d) in [
            ("XMVector2NearEqual", XMVector2NearEqual as fn(XMVECTOR, XMVECTOR, XMVECTOR) -> bool, 2usize),
            ("XMVector3NearEqual", XMVector3NearEqual, 3),
            ("XMVector4NearEqual", XMVector4NearEqual, 4),
        ] {
            c.sweep(n, |sw| {
                nears(&mut |a, b, e| {
                    sw.state();
                    let g = fun(vu(a), vu(b), vu(e));
                    let w = (0..d).all(|i| near_lane(a[i], b[i], e[i]));
                    sw.t(g == w, hb(g as u32), || (format!("{} e={}", sh(a, b), sv(e)), g.to_string(), w.to_string()));
                })
            });
        }
        c.sweep("XMScalarNearEqual", |sw| {
            let v = specials_nan();
            let e = [0.0f32, 1.0, 0.5, 1.0e-45, f32::INFINITY, f32::NAN, -1.0, f32::MAX, 1.1920929e-7];
            for &a in &v {
                for &b in &v {
                    for &x in &e {
                        sw.state();
                        let g = XMScalarNearEqual(a, b, x);
                        let w = (a - b).abs() <= x;
                        sw.t(g == w, hb(g as u32), || (format!("{:?} {:?} {:?}", a, b, x), g.to_string(), w.to_string()));
                    }
                }
            }
            nears(&mut |p, q, r| {
                for i in 0..4 {
                    sw.state();
                    let (a, b, x) = (f(p[i]), f(q[i]), f(r[i]));
                    let g = XMScalarNearEqual(a, b, x);
                    let w = (a - b).abs() <= x;
                    sw.t(g == w, hb(g as u32), || (format!("{:?} {:?} {:?}", a, b, x), g.to_string(), w.to_string()));
                }
            });
        });
        // ---- vector predicates: (name, fn, lane predicate, dimension, any?, integer?)
        let bs: Vec<(&str, Bool2, Pred, usize, bool, bool)> = vec![
            ("XMVector2Equal", XMVector2Equal, p_eq, 2, false, false),
            ("XMVector2EqualInt", XMVector2EqualInt, p_ieq, 2, false, true),
            ("XMVector2NotEqual", XMVector2NotEqual, p_ne, 2, true, false),
            ("XMVector2NotEqualInt", XMVector2NotEqualInt, p_ine, 2, true, true),
            ("XMVector2Greater", XMVector2Greater, p_gt, 2, false, false),
            ("XMVector2GreaterOrEqual", XMVector2GreaterOrEqual, p_ge, 2, false, false),
            ("XMVector2Less", XMVector2Less, p_lt, 2, false, false),
            ("XMVector2LessOrEqual", XMVector2LessOrEqual, p_le, 2, false, false),
            ("XMVector2InBounds", XMVector2InBounds, p_inb, 2, false, false),
            ("XMVector3Equal", XMVector3Equal, p_eq, 3, false, false),
            ("XMVector3EqualInt", XMVector3EqualInt, p_ieq, 3, false, true),
            ("XMVector3NotEqual", XMVector3NotEqual, p_ne, 3, true, false),
            ("XMVector3NotEqualInt", XMVector3NotEqualInt, p_ine, 3, true, true),
            ("XMVector3Greater", XMVector3Greater, p_gt, 3, false, false),
            ("XMVector3GreaterOrEqual", XMVector3GreaterOrEqual, p_ge, 3, false, false),
            ("XMVector3Less", XMVector3Less, p_lt, 3, false, false),
            ("XMVector3LessOrEqual", XMVector3LessOrEqual, p_le, 3, false, false),
            ("XMVector3InBounds", XMVector3InBounds, p_inb, 3, false, false),
            ("XMVector4Equal", XMVector4Equal, p_eq, 4, false, false),
            ("XMVector4EqualInt", XMVector4EqualInt, p_ieq, 4, false, true),
            ("XMVector4NotEqual", XMVector4NotEqual, p_ne, 4, true, false),
            ("XMVector4NotEqualInt", XMVector4NotEqualInt, p_ine, 4, true, true),
            ("XMVector4Greater", XMVector4Greater, p_gt, 4, false, false),
            ("XMVector4GreaterOrEqual", XMVector4GreaterOrEqual, p_ge, 4, false, false),
            ("XMVector4Less", XMVector4Less, p_lt, 4, false, false),
            ("XMVector4LessOrEqual", XMVector4LessOrEqual, p_le, 4, false, false),
            ("XMVector4InBounds", XMVector4InBounds, p_inb, 4, false, false),
            ("XMQuaternionEqual", XMQuaternionEqual, p_eq, 4, false, false),
            ("XMQuaternionNotEqual", XMQuaternionNotEqual, p_ne, 4, true, false),
            ("XMPlaneEqual", XMPlaneEqual, p_eq, 4, false, false),
            ("XMPlaneNotEqual", XMPlaneNotEqual, p_ne, 4, true, false),
            ("XMVector ==", |a, b| XMVector(a) == XMVector(b), p_eq, 4, false, false),
            ("XMVector !=", |a, b| XMVector(a) != XMVector(b), p_ne, 4, true, false),
        ];
        for (n, fun, p, d, any, int) in bs {
            c.sweep(n, |sw| {
                pairs(int, |a, b| {
                    sw.state();
                    let g = fun(vu(a), vu(b));
                    let w = if any { (0..d).any(|i| p(a[i], b[i])) } else { (0..d).all(|i| p(a[i], b[i])) };
                    sw.t(g == w, hb(g as u32), || (sh(a, b), g.to_string(), w.to_string()));
                })
            });
        }
        let rs: Vec<(&str, Rec2, Pred, usize, bool)> = vec![
            ("XMVector2EqualR", XMVector2EqualR, p_eq, 2, false),
            ("XMVector2EqualIntR", XMVector2EqualIntR, p_ieq, 2, true),
            ("XMVector2GreaterR", XMVector2GreaterR, p_gt, 2, false),
            ("XMVector2GreaterOrEqualR", XMVector2GreaterOrEqualR, p_ge, 2, false),
            ("XMVector3EqualR", XMVector3EqualR, p_eq, 3, false),
            ("XMVector3EqualIntR", XMVector3EqualIntR, p_ieq, 3, true),
            ("XMVector3GreaterR", XMVector3GreaterR, p_gt, 3, false),
            ("XMVector3GreaterOrEqualR", XMVector3GreaterOrEqualR, p_ge, 3, false),
            ("XMVector4EqualR", XMVector4EqualR, p_eq, 4, false),
            ("XMVector4EqualIntR", XMVector4EqualIntR, p_ieq, 4, true),
            ("XMVector4GreaterR", XMVector4GreaterR, p_gt, 4, false),
            ("XMVector4GreaterOrEqualR", XMVector4GreaterOrEqualR, p_ge, 4, false),
        ];
        for (n, fun, p, d, int) in rs {
            c.sweep(n, |sw| {
                pairs(int, |a, b| {
                    sw.state();
                    let g = fun(vu(a), vu(b));
                    let cnt = (0..d).filter(|i| p(a[*i], b[*i])).count();
                    sw.t(rec_ok(g, d, cnt), hb(g), || (sh(a, b), format!("CR={:x}", g), format!("{} true lanes of {}", cnt, d)));
                })
            });
        }
        type B1 = fn(XMVECTOR) -> bool;
        let us: Vec<(&str, B1, usize, bool)> = vec![
            ("XMVector2IsNaN", XMVector2IsNaN, 2, false),
            ("XMVector3IsNaN", XMVector3IsNaN, 3, false),
            ("XMVector4IsNaN", XMVector4IsNaN, 4, false),
            ("XMQuaternionIsNaN", XMQuaternionIsNaN, 4, false),
            ("XMPlaneIsNaN", XMPlaneIsNaN, 4, false),
            ("XMVector2IsInfinite", XMVector2IsInfinite, 2, true),
            ("XMVector3IsInfinite", XMVector3IsInfinite, 3, true),
            ("XMVector4IsInfinite", XMVector4IsInfinite, 4, true),
            ("XMQuaternionIsInfinite", XMQuaternionIsInfinite, 4, true),
            ("XMPlaneIsInfinite", XMPlaneIsInfinite, 4, true),
        ];
        let cls: Vec<u32> = vec![0, 0x3f800000, 0x7f7fffff, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0xffffffff];
        for (n, fun, d, inf) in us {
            c.sweep(n, |sw| {
                let mut chk = |sw: &mut Sweep, a: U4| {
                    sw.state();
                    let g = fun(vu(a));
                    let w = (0..d).any(|i| if inf { f(a[i]).is_infinite() } else { f(a[i]).is_nan() });
                    sw.t(g == w, hb(g as u32), || (sv(a), g.to_string(), w.to_string()));
                };
                all4(&cls, |a| chk(sw, a));
                grid(0, 255, 4, |x| {
                    for l in 0..4 {
                        let mut a = [0x3f800000; 4];
                        a[l] = x.to_bits();
                        chk(sw, a);
                    }
                });
            });
        }
        let idv: Vec<f32> = vec![0.0, -0.0, 1.0, -1.0, 0.99999994, 1.0000001, 1.0e-45, -1.0e-20, f32::NAN, f32::INFINITY];
        c.sweep("XMQuaternionIsIdentity", |sw| {
            all4(&idv, |a| {
                sw.state();
                let g = XMQuaternionIsIdentity(vf(a));
                let w = a == [0.0, 0.0, 0.0, 1.0];
                sw.t(g == w, hb(g as u32), || (sf(a), g.to_string(), w.to_string()));
            })
        });
        // Near-equality of planes compares the normalised equations.
        c.sweep("XMPlaneNearEqual", |sw| {
            let ps: Vec<F4> = vec![
                [1., 0., 0., 0.], [2., 0., 0., 0.], [-1., 0., 0., 0.], [0., 1., 0., 3.], [0., 4., 0., 12.], [0., 4., 0., 11.], [0., 0., -2., 6.], [0., 0., -1., 3.], [3., 4., 0., 10.],
                [6., 8., 0., 20.], [3., 4., 0., 10.5], [2., 2., 1., 9.], [4., 4., 2., 18.], [4., 4., 2., 19.],
            ];
            let es: Vec<F4> = vec![[0.01; 4], [0.3; 4], [3.0; 4], [3.0, 3.0, 3.0, 0.01], [0.01, 3.0, 3.0, 3.0], [3.0, 0.01, 3.0, 3.0], [3.0, 3.0, 0.01, 3.0]];
            let nrm = |p: F4| {
                let l = (p[0] as f64 * p[0] as f64 + p[1] as f64 * p[1] as f64 + p[2] as f64 * p[2] as f64).sqrt();
                [p[0] as f64 / l, p[1] as f64 / l, p[2] as f64 / l, p[3] as f64 / l]
            };
            let mut chk = |sw: &mut Sweep, a: F4, b: F4, e: F4, slack: f64| {
                let (x, y) = (nrm(a), nrm(b));
                let d: Vec<f64> = (0..4).map(|i| (x[i] - y[i]).abs() - e[i] as f64).collect();
                if d.iter().enumerate().any(|(i, v)| !(v.abs() >= slack * (1.0f64).max(x[i].abs()))) {
                    return;
                }
                sw.state();
                let g = XMPlaneNearEqual(vf(a), vf(b), vf(e));
                let w = d.iter().all(|v| *v < 0.0);
                sw.t(g == w, hb(g as u32), || (format!("{:?} {:?} eps {:?}", a, b, e), g.to_string(), w.to_string()));
            };
            for a in &ps {
                for b in &ps {
                    for e in &es {
                        chk(sw, *a, *b, *e, 1e-3);
                    }
                }
            }
            // the equations at every scale, differing by every octave of every tolerance, in every component
            for a in &ps {
                for k in -20..=20 {
                    let s = 2f32.powi(k);
                    for ek in -18..=2 {
                        for r in [0.5f32, -0.5, 1.5, -1.5] {
                            for i in 0..4 {
                                let e = 2f32.powi(ek);
                                let l = ((a[0] * a[0] + a[1] * a[1] + a[2] * a[2]) as f64).sqrt() as f32;
                                let mut b = *a;
                                b[i] += r * e * l;
                                let p = |v: F4, s: f32| [v[0] * s, v[1] * s, v[2] * s, v[3] * s];
                                let mut ev = [4.0f32; 4];
                                ev[i] = e;
                                chk(sw, p(*a, s), b, ev, 2e-6);
                                chk(sw, p(*a, s), p(b, 1.5), ev, 2e-6);
                                chk(sw, b, p(*a, s), [e; 4], 2e-6);
                            }
                        }
                    }
                }
            }
        });
        // ---- matrices: every cell position
        let idm: M4 = [[1., 0., 0., 0.], [0., 1., 0., 0.], [0., 0., 1., 0.], [0., 0., 0., 1.]];
        type BM = fn(XMMATRIX) -> bool;
        for (n, fun, kind) in [("XMMatrixIsNaN", XMMatrixIsNaN as BM, 0), ("XMMatrixIsInfinite", XMMatrixIsInfinite, 1), ("XMMatrixIsIdentity", XMMatrixIsIdentity, 2)] {
            c.sweep(n, |sw| {
                let v = specials_nan();
                let mut chk = |sw: &mut Sweep, m: M4| {
                    sw.state();
                    let g = fun(mf(m));
                    let w = match kind {
                        0 => m.iter().flatten().any(|x| x.is_nan()),
                        1 => m.iter().flatten().any(|x| x.is_infinite()),
                        _ => m == idm,
                    };
                    sw.t(g == w, hb(g as u32), || (sm(&m), g.to_string(), w.to_string()));
                };
                for base in [idm, [[0.0; 4]; 4], [[f32::MAX; 4]; 4]] {
                    for p in 0..16 {
                        for &x in &v {
                            let mut m = base;
                            m[p / 4][p % 4] = x;
                            chk(sw, m);
                            for q in 0..16 {
                                for &y in &[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 1.0, -0.0] {
                                    let mut k = m;
                                    k[q / 4][q % 4] = y;
                                    chk(sw, k);
                                }
                            }
                        }
                    }
                }
                chk(sw, idm);
            });
        }
        c.sweep("XMMatrix ==", |sw| {
            let v = specials_nan();
            for base in [idm, [[2.5; 4]; 4]] {
                for p in 0..16 {
                    for &x in &v {
                        for &y in &v {
                            sw.state();
                            let (mut m, mut k) = (base, base);
                            m[p / 4][p % 4] = x;
                            k[p / 4][p % 4] = y;
                            let g = XMMatrix(mf(m)) == XMMatrix(mf(k));
                            let w = x == y;
                            sw.t(g == w && (XMMatrix(mf(m)) != XMMatrix(mf(k))) == !w, hb(g as u32), || (format!("{} == {}", sm(&m), sm(&k)), g.to_string(), w.to_string()));
                        }
                    }
                }
            }
        });
        c.sweep("XMComparison helpers", |sw| {
            for lo in 0..65536u32 {
                for hi in [0u32, 0xffff0000, 0x12340000] {
                    sw.state();
                    let cr = lo | hi;
                    let (t, fl) = (cr & 0x80 != 0, cr & 0x20 != 0);
                    let g = [
                        XMComparisonAllTrue(cr), XMComparisonAnyTrue(cr), XMComparisonAllFalse(cr), XMComparisonAnyFalse(cr), XMComparisonMixed(cr),
                        XMComparisonAllInBounds(cr), XMComparisonAnyOutOfBounds(cr),
                    ];
                    let w = [t, !fl, fl, !t, cr & 0xf0 == 0, fl, !fl];
                    sw.t(g == w, hb(g.iter().fold(0, |a, b| a * 2 + *b as u32)), || (format!("CR={:x}", cr), format!("{:?}", g), format!("{:?}", w)));
                }
            }
        });
    });
}
