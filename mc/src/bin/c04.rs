//! C04: bitwise logic, min/max, clamp, saturate, abs, negate.
use mc::dom::*;
use mc::*;

type V2 = fn(XMVECTOR, XMVECTOR) -> XMVECTOR;
type V1 = fn(XMVECTOR) -> XMVECTOR;

fn sh(a: U4, b: U4) -> String {
    format!("a={} b={}", sv(a), sv(b))
}
/// Integer pairs: every bit of every lane in both polarities against every bit, and all patterns in all lanes.
fn int_pairs(thorough: bool, mut k: impl FnMut(U4, U4)) {
    let p = patterns();
    for &a in &p {
        for &b in &p {
            for l in 0..4 {
                let mut x = TAGS[0];
                let mut y = TAGS[1];
                x[l] = a;
                y[l] = b;
                k(x, y);
                let mut x = [!0, 0, !0, 0];
                let mut y = [0, !0, !0, 0];
                x[l] = a;
                y[l] = b;
                k(x, y);
            }
        }
    }
    for i in 0..128u32 {
        for j in 0..128u32 {
            let mut x = [0u32; 4];
            let mut y = [0u32; 4];
            x[(i / 32) as usize] = 1 << (i % 32);
            y[(j / 32) as usize] = 1 << (j % 32);
            let inv = |v: U4| [!v[0], !v[1], !v[2], !v[3]];
            k(x, y);
            k(inv(x), y);
            k(x, inv(y));
            k(inv(x), inv(y));
        }
    }
    let s = if thorough { &p[..12] } else { &p[..6] };
    let v = vec4s(s);
    let small = vec4s(&[0u32, 0xffffffff, 0x80000001, 0x55555555]);
    for a in &v {
        for b in &small {
            k(*a, *b);
        }
    }
}

fn main() {
    Ctx::main("C04", |c| {
        let th = c.thorough();
        let ints: Vec<(&str, V2, fn(u32, u32) -> u32)> = vec![
            ("XMVectorAndInt", XMVectorAndInt, |a, b| a & b),
            ("XMVectorAndCInt", XMVectorAndCInt, |a, b| a & !b),
            ("XMVectorOrInt", XMVectorOrInt, |a, b| a | b),
            ("XMVectorNorInt", XMVectorNorInt, |a, b| !(a | b)),
            ("XMVectorXorInt", XMVectorXorInt, |a, b| a ^ b),
        ];
        for (n, f, m) in ints {
            c.sweep(n, |sw| {
                int_pairs(th, |a, b| {
                    sw.state();
                    let g = f(vu(a), vu(b));
                    let w = [m(a[0], b[0]), m(a[1], b[1]), m(a[2], b[2]), m(a[3], b[3])];
                    sw.tv(ub(g) == w, g, || (sh(a, b), sv(w)));
                })
            });
        }
        // Float pairs. Lanes that hold a NaN are constrained only to return one of the operands.
        let vals = {
            let mut v = specials_nan();
            v.extend(around(&[1.0, -1.0, 0.0], 2));
            v
        };
        for (n, f, max) in [("XMVectorMin", XMVectorMin as V2, false), ("XMVectorMax", XMVectorMax, true)] {
            c.sweep(n, |sw| {
                let mut chk = |sw: &mut Sweep, a: F4, b: F4| {
                    sw.state();
                    let g = fb(f(vf(a), vf(b)));
                    let mut ok = true;
                    for i in 0..4 {
                        ok &= if a[i].is_nan() || b[i].is_nan() {
                            num_eq(g[i], a[i]) || num_eq(g[i], b[i])
                        } else {
                            g[i] == if max { if a[i] > b[i] { a[i] } else { b[i] } } else { if a[i] < b[i] { a[i] } else { b[i] } }
                        };
                    }
                    sw.t(ok, h4(ubits(g)), || (format!("a={} b={}", sf(a), sf(b)), sf(g), if max { "lane maximum" } else { "lane minimum" }.into()));
                };
                binary(&vals, |a, b| chk(sw, a, b));
                binary_packed(&vals, |a, b| chk(sw, a, b));
                let small = vec4s(&[0.0f32, 1.0, -1.0, f32::INFINITY, 2.5]);
                for a in &small {
                    for b in &small {
                        chk(sw, *a, *b);
                    }
                }
            });
        }
        c.sweep("XMVectorClamp", |sw| {
            let vs: Vec<f32> = specials().into_iter().filter(|x| !x.is_nan()).collect();
            let bs: Vec<f32> = vec![f32::NEG_INFINITY, -f32::MAX, -2.5, -1.0, -1.0e-45, 0.0, 1.0e-45, 0.5, 1.0, 8388609.0, f32::MAX, f32::INFINITY];
            let n = bs.len();
            for i in 0..n {
                for j in i..n {
                    for &x in &vs {
                        for l in 0..4 {
                            // The other lanes carry different bounds, so that a lane mix-up shows.
                            let mut v = [3.0f32, -7.0, 0.5, 11.0];
                            let mut lo = [-1.0f32, -5.0, 0.75, 9.0];
                            let mut hi = [2.0f32, -4.0, 0.875, 10.0];
                            v[l] = x;
                            lo[l] = bs[i];
                            hi[l] = bs[j];
                            sw.state();
                            let g = XMVectorClamp(vf(v), vf(lo), vf(hi));
                            let mut w = [0.0f32; 4];
                            for k in 0..4 {
                                w[k] = if v[k] < lo[k] { lo[k] } else if v[k] > hi[k] { hi[k] } else { v[k] };
                            }
                            sw.tv(fb(g) == w, g, || (format!("v={:?} lo={:?} hi={:?}", v, lo, hi), sf(w)));
                        }
                    }
                }
            }
            // every octave of value and bounds, close together and far apart
            for x in octaves(-125, 125) {
                for r in [[0.5f32, 2.0], [0.99999994, 1.0000001], [2.0, 4.0], [0.25, 0.5], [1.0, 1.0], [1.0000001, 1.5], [0.5, 0.99999994], [-1.0, 1.5], [-2.0, -1.0], [0.0, 0.5], [0.0, 8.0]] {
                    let (p, q) = (x * r[0], x * r[1]);
                    let (l0, h0) = (p.min(q), p.max(q));
                    for l in 0..4 {
                        let mut v = [3.0f32, -7.0, 0.5, 11.0];
                        let mut lo = [-1.0f32, -5.0, 0.75, 9.0];
                        let mut hi = [2.0f32, -4.0, 0.875, 10.0];
                        v[l] = x;
                        lo[l] = l0;
                        hi[l] = h0;
                        sw.state();
                        let g = XMVectorClamp(vf(v), vf(lo), vf(hi));
                        let mut w = [0.0f32; 4];
                        for k in 0..4 {
                            w[k] = if v[k] < lo[k] { lo[k] } else if v[k] > hi[k] { hi[k] } else { v[k] };
                        }
                        sw.tv(fb(g) == w, g, || (format!("v={:?} lo={:?} hi={:?}", v, lo, hi), sf(w)));
                    }
                }
            }
        });
        let un: Vec<(&str, V1, fn(f32) -> f32, bool)> = vec![
            ("XMVectorSaturate", XMVectorSaturate, |x| if x < 0.0 { 0.0 } else if x > 1.0 { 1.0 } else { x }, false),
            ("XMVectorAbs", XMVectorAbs, |x| x.abs(), true),
            ("XMVectorNegate", XMVectorNegate, |x| -x, true),
            ("-XMVector", |v| (-XMVector(v)).0, |x| -x, true),
        ];
        for (n, f, m, nan) in un {
            c.sweep(n, |sw| {
                let mut chk = |sw: &mut Sweep, a: U4| {
                    sw.state();
                    let g = f(vu(a));
                    let gf = fb(g);
                    let mut ok = true;
                    for i in 0..4 {
                        let x = f32::from_bits(a[i]);
                        ok &= if x.is_nan() { !nan || gf[i].is_nan() } else { gf[i] == m(x) };
                    }
                    sw.tv(ok, g, || (sv(a), "lane value".into()));
                };
                let v = specials_nan();
                for &x in &v {
                    for &y in &v {
                        for l in 0..4 {
                            let mut a = [y.to_bits(); 4];
                            a[l] = x.to_bits();
                            chk(sw, a);
                        }
                    }
                }
                if th {
                    for r in 0..4 {
                        every_f32(r, |a| chk(sw, a));
                    }
                } else {
                    grid(0, 255, 8, |x| chk(sw, [x.to_bits(), x.to_bits() ^ 0x80000000, x.to_bits().rotate_left(7), x.to_bits() ^ 0x00800000]));
                }
            });
        }
        c.sweep("XMMin XMMax", |sw| {
            let v = specials();
            for &a in &v {
                for &b in &v {
                    sw.state();
                    let g = (XMMin(a, b), XMMax(a, b));
                    let w = (if a < b { a } else { b }, if a > b { a } else { b });
                    sw.t(g == w, h4(ubits([g.0, g.1, a, b])), || (format!("{:?} {:?}", a, b), format!("{:?}", g), format!("{:?}", w)));
                    let (ia, ib) = (a.to_bits() as i32, b.to_bits() as i32);
                    let g = (XMMin(ia, ib), XMMax(ia, ib));
                    let w = (ia.min(ib), ia.max(ib));
                    sw.t(g == w, h4([g.0 as u32, g.1 as u32, 0, 0]), || (format!("{} {}", ia, ib), format!("{:?}", g), format!("{:?}", w)));
                }
            }
        });
    });
}
