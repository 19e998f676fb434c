//! C06: number format conversions.
use mc::dom::*;
use mc::*;

fn half_value(h: u16) -> f64 {
    let s = if h & 0x8000 != 0 { -1.0 } else { 1.0 };
    let e = ((h >> 10) & 31) as i32;
    let m = (h & 0x3ff) as f64;
    s * match e {
        31 => if m == 0.0 { f64::INFINITY } else { f64::NAN },
        0 => m * (2f64).powi(-24),
        _ => (1024.0 + m) * (2f64).powi(e - 25),
    }
}
/// Round-to-nearest-even by magnitude search in exact arithmetic.
fn to_half(x: f32) -> u16 {
    let s = if x.is_sign_negative() { 0x8000 } else { 0 };
    let a = (x as f64).abs();
    if a >= 65520.0 {
        return s | 0x7c00;
    }
    // the encodings 0..=0x7c00 are ordered by value
    let (mut lo, mut hi) = (0u16, 0x7c00u16);
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        if half_value(mid) <= a { lo = mid } else { hi = mid }
    }
    let hv = if hi == 0x7c00 { 65536.0 } else { half_value(hi) };
    let (dl, dh) = (a - half_value(lo), hv - a);
    s | if dl < dh { lo } else if dh < dl { hi } else if lo & 1 == 0 { lo } else { hi }
}
/// Same, bit-level, used for the full 2^32 sweep (validated against the search version on every quick state).
fn to_half_fast(x: f32) -> u16 {
    let b = x.to_bits();
    let s = ((b >> 16) & 0x8000) as u16;
    let a = b & 0x7fffffff;
    if a >= 0x477ff000 {
        return s | 0x7c00;
    }
    if a < 0x33000000 {
        return s;
    }
    let e = (a >> 23) as i32;
    let m = ((a & 0x7fffff) | 0x800000) as u64;
    let (q, base) = if e >= 113 { (13, ((e - 113) as u64) << 10) } else { (13 + (113 - e), 0) };
    let mut r = m >> q;
    let rem = m & ((1u64 << q) - 1);
    let half = 1u64 << (q - 1);
    if rem > half || (rem == half && r & 1 == 1) {
        r += 1;
    }
    s | (if e >= 113 { base + r } else { r }) as u16
}
fn hb(x: u32) -> u64 {
    (x as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15)
}
fn ulp(x: f64) -> f64 {
    let y = (x.abs() as f32).to_bits();
    (f32::from_bits(y + 1) as f64) - (f32::from_bits(y) as f64)
}
fn ints() -> Vec<u32> {
    let mut v = vec![];
    for b in 0..32 {
        for d in [-2i64, -1, 0, 1, 2] {
            v.push(((1i64 << b) + d) as u32);
            v.push((-(1i64 << b) + d) as u32);
        }
        // values around a rounding boundary of the 24-bit significand
        if b >= 24 {
            for k in [1u64, 3, 5, 0x7fffff] {
                let base = (1u64 << b) + (k << (b - 23));
                let half = 1u64 << (b - 24);
                for x in [base + half - 1, base + half, base + half + 1, base - half, base - half - 1, base - half + 1] {
                    v.push(x as u32);
                    v.push((x as u32).wrapping_neg());
                }
            }
        }
    }
    v.extend(patterns());
    v.sort();
    v.dedup();
    v
}
fn lanes(v: &[u32], mut k: impl FnMut(U4)) {
    let n = v.len();
    for i in 0..n {
        k([v[i], v[(i + 7) % n], v[(i + 31) % n], v[(i + 101) % n]]);
        k([v[(i + 13) % n], v[i], v[(i + 5) % n], v[(i + 57) % n]]);
        k([v[(i + 3) % n], v[(i + 17) % n], v[i], v[(i + 77) % n]]);
        k([v[(i + 9) % n], v[(i + 19) % n], v[(i + 41) % n], v[i]]);
    }
}

fn main() {
    Ctx::main("C06", |c| {
        let th = c.thorough();
        c.sweep("XMConvertHalfToFloat", |sw| {
            for h in 0..=65535u16 {
                sw.state();
                let g = XMConvertHalfToFloat(h);
                let w = half_value(h);
                let ok = if w.is_nan() { g.is_nan() } else { g as f64 == w && g.is_sign_negative() == w.is_sign_negative() };
                sw.t(ok, hb(g.to_bits()), || (format!("{:04x}", h), format!("{:?}", g), format!("{:?}", w)));
            }
        });
        c.sweep("XMConvertFloatToHalf", |sw| {
            let mut chk = |sw: &mut Sweep, x: f32, slow: bool| {
                sw.state();
                let g = XMConvertFloatToHalf(x);
                if x.is_nan() {
                    sw.t((g & 0x7c00) == 0x7c00 && (g & 0x3ff) != 0, hb(g as u32), || (format!("{:08x}", x.to_bits()), format!("{:04x}", g), "NaN".into()));
                    return;
                }
                let w = to_half_fast(x);
                if slow && w != to_half(x) {
                    sw.fail((format!("{:?}", x), format!("model {:04x}", w), format!("model {:04x}", to_half(x))));
                }
                sw.t(g == w, hb(g as u32), || (format!("{:?} {:08x}", x, x.to_bits()), format!("{:04x}", g), format!("{:04x}", w)));
            };
            if th {
                for b in 0..=u32::MAX {
                    chk(sw, f32::from_bits(b), false);
                }
            }
            // every half value, every midpoint between consecutive halves, +-2 ulps, both signs
            for h in 0..0x7c00u16 {
                let a = half_value(h) as f32;
                let b = if h == 0x7bff { 65536.0 } else { half_value(h + 1) as f32 };
                let mid = (a + b) * 0.5;
                for t in [a, mid] {
                    for d in -2i64..=2 {
                        let bits = t.to_bits() as i64 + d;
                        if bits >= 0 {
                            let x = f32::from_bits(bits as u32);
                            chk(sw, x, true);
                            chk(sw, -x, true);
                        }
                    }
                }
            }
            grid(0, 255, 8, |x| chk(sw, x, true));
        });
        c.sweep("half round trip", |sw| {
            for h in 0..=65535u16 {
                if half_value(h).is_nan() {
                    continue;
                }
                sw.state();
                let g = XMConvertFloatToHalf(XMConvertHalfToFloat(h));
                sw.t(g == h, hb(g as u32), || (format!("{:04x}", h), format!("{:04x}", g), format!("{:04x}", h)));
            }
        });
        let iv = ints();
        for (n, f, signed) in [("XMConvertVectorIntToFloat", XMConvertVectorIntToFloat as fn(XMVECTOR, u32) -> XMVECTOR, true), ("XMConvertVectorUIntToFloat", XMConvertVectorUIntToFloat, false)] {
            c.sweep(n, |sw| {
                let chk = |sw: &mut Sweep, a: U4, e: u32| {
                    sw.state();
                    let g = f(vu(a), e);
                    let gf = fb(g);
                    let sc = (2f64).powi(-(e as i32));
                    let ok = (0..4).all(|i| {
                        if signed {
                            gf[i] == ((a[i] as i32) as f32) * sc as f32
                        } else {
                            let w = a[i] as f64 * sc;
                            (gf[i] as f64 - w).abs() <= ulp(w)
                        }
                    });
                    sw.tv(ok, g, || (format!("{} / 2^{}", sv(a), e), format!("{:?}", a.map(|x| if signed { x as i32 as f64 * sc } else { x as f64 * sc }))));
                };
                for e in 0..32 {
                    lanes(&iv, |a| chk(sw, a, e));
                }
                if th {
                    for e in [0, 7, 31] {
                        every_f32(1, |a| chk(sw, a, e));
                    }
                }
            });
        }
        let mut fv: Vec<u32> = specials().iter().map(|x| x.to_bits()).collect();
        let near: Vec<f32> = vec![
            1.0, 2.0, 3.0, 127.0, 128.0, 255.0, 256.0, 32767.0, 32768.0, 65535.0, 65536.0, 16777215.0, 16777216.0, 1073741824.0, 2147483648.0, 4294967296.0, 8589934592.0, 0.5, 0.25, 4.6566129e-10, 2.3283064e-10,
        ];
        for x in around(&near, 2) {
            fv.push(x.to_bits());
            fv.push((-x).to_bits());
        }
        for (n, f, signed) in [("XMConvertVectorFloatToInt", XMConvertVectorFloatToInt as fn(XMVECTOR, u32) -> XMVECTOR, true), ("XMConvertVectorFloatToUInt", XMConvertVectorFloatToUInt, false)] {
            c.sweep(n, |sw| {
                let conv = |b: u32, e: u32| -> u32 {
                    let v = f32::from_bits(b) as f64 * (2f64).powi(e as i32);
                    let t = v.trunc();
                    if signed { t.max(-2147483648.0).min(2147483647.0) as i32 as u32 } else { t.max(0.0).min(4294967295.0) as u32 }
                };
                let chk = |sw: &mut Sweep, a: U4, e: u32| {
                    sw.state();
                    let g = f(vu(a), e);
                    let gu = ub(g);
                    // NaN lanes have no documented value
                    let ok = (0..4).all(|i| f32::from_bits(a[i]).is_nan() || gu[i] == conv(a[i], e));
                    sw.tv(ok, g, || (format!("{} * 2^{}", sv(a), e), sv(a.map(|x| conv(x, e)))));
                };
                for e in 0..32 {
                    lanes(&fv, |a| chk(sw, a, e));
                }
                for e in [0, 1, 8, 16, 31] {
                    grid(90, 160, 8, |x| chk(sw, [x.to_bits(), x.to_bits() ^ 0x80000000, x.to_bits() ^ 1, x.to_bits() ^ 0x100], e));
                }
                if th {
                    for e in [0, 7, 31] {
                        every_f32(1, |a| chk(sw, a, e));
                    }
                }
            });
        }
        // Multi-step: int -> float -> int is the identity wherever the float is exact.
        let mut seqs = 0;
        c.sweep("int float round trip", |sw| {
            for e in 0..32u32 {
                for &x in &iv {
                    let s = x as i32;
                    if s.unsigned_abs().leading_zeros() + s.trailing_zeros() >= 8 || s == 0 {
                        sw.state();
                        seqs += 1;
                        let g = ub(XMConvertVectorFloatToInt(XMConvertVectorIntToFloat(vu([x, !x, 5, x]), e), e));
                        sw.t(g[0] == x && g[3] == x && g[2] == 5, hb(g[0]), || (format!("{} exp {}", s, e), sv(g), format!("{:x}", x)));
                    }
                    if x.leading_zeros() + x.trailing_zeros() >= 8 || x == 0 {
                        sw.state();
                        seqs += 1;
                        let g = ub(XMConvertVectorFloatToUInt(XMConvertVectorUIntToFloat(vu([5, x, x, !x]), e), e));
                        sw.t(g[1] == x && g[2] == x && g[0] == 5, hb(g[1]), || (format!("{} exp {}", x, e), sv(g), format!("{:x}", x)));
                    }
                }
            }
        });
        c.seqs += seqs;
        c.sweep("XMVectorSplatConstant", |sw| {
            for i in -16..=15i32 {
                for e in 0..32u32 {
                    sw.state();
                    let g = XMVectorSplatConstant(i, e);
                    let w = (i as f64 * (2f64).powi(-(e as i32))) as f32;
                    sw.tv(fb(g) == [w; 4], g, || (format!("{} / 2^{}", i, e), format!("{:?}", w)));
                }
                sw.state();
                let g = XMVectorSplatConstantInt(i);
                sw.tv(ub(g) == [i as u32; 4], g, || (format!("int {}", i), format!("{:x}", i)));
            }
        });
        c.sweep("XMVectorSetBinaryConstant", |sw| {
            for k in 0..16u32 {
                for hi in [0u32, 2, 0xfffffffe, 0x80000000] {
                    sw.state();
                    let b = [k & 1, (k >> 1) & 1, (k >> 2) & 1, k >> 3];
                    let g = XMVectorSetBinaryConstant(b[0] | hi, b[1] | hi, b[2] | hi, b[3] | hi);
                    let w = b.map(|x| x as f32);
                    sw.tv(fb(g) == w, g, || (format!("{:?}|{:x}", b, hi), sf(w)));
                }
            }
        });
        c.sweep("XMConvertToRadians XMConvertToDegrees", |sw| {
            let pi = std::f64::consts::PI;
            let mut chk = |sw: &mut Sweep, x: f32| {
                sw.state();
                let (r, d) = (XMConvertToRadians(x), XMConvertToDegrees(x));
                let (wr, wd) = (x as f64 * pi / 180.0, x as f64 * 180.0 / pi);
                let okr = close(r, wr, 1e-6, 1e-44);
                let okd = if wd.abs() > 3.4e38 { true } else { close(d, wd, 1e-6, 1e-44) };
                sw.t(okr && okd, hb(r.to_bits()), || (format!("{:?}", x), format!("{:?} {:?}", r, d), format!("{:?} {:?}", wr, wd)));
            };
            grid(1, 253, 5, |x| chk(sw, x));
            for i in -720..=720 {
                chk(sw, i as f32);
            }
        });
    });
}
