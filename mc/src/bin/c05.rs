//! C05: rounding functions.
use mc::dom::*;
use mc::*;

type V1 = fn(XMVECTOR) -> XMVECTOR;

fn trunc(x: f32) -> f32 {
    // exact integer model: clear the fraction bits
    let b = x.to_bits();
    let e = ((b >> 23) & 255) as i32 - 127;
    if e >= 23 {
        return x;
    }
    if e < 0 {
        return 0.0;
    }
    f32::from_bits(b & !((1u32 << (23 - e)) - 1))
}
fn floor(x: f32) -> f32 {
    let t = trunc(x);
    if t > x { t - 1.0 } else { t }
}
fn ceil(x: f32) -> f32 {
    let t = trunc(x);
    if t < x { t + 1.0 } else { t }
}
fn round(x: f32) -> f32 {
    let f = floor(x) as f64;
    let d = x as f64 - f;
    if x.is_infinite() || d == 0.0 {
        return x;
    }
    (if d < 0.5 {
        f
    } else if d > 0.5 {
        f + 1.0
    } else if f.rem_euclid(2.0) == 0.0 {
        f
    } else {
        f + 1.0
    }) as f32
}

fn main() {
    Ctx::main("C05", |c| {
        let th = c.thorough();
        let fs: Vec<(&str, V1, fn(f32) -> f32)> =
            vec![("XMVectorRound", XMVectorRound, round), ("XMVectorTruncate", XMVectorTruncate, trunc), ("XMVectorFloor", XMVectorFloor, floor), ("XMVectorCeiling", XMVectorCeiling, ceil)];
        for (n, f, m) in fs {
            c.sweep(n, |sw| {
                #[inline(always)]
                fn lane(g: f32, x: f32, m: fn(f32) -> f32) -> bool {
                    if x.is_nan() { g.is_nan() } else { g == m(x) }
                }
                let chk = |sw: &mut Sweep, a: U4| {
                    sw.state();
                    let g = f(vu(a));
                    let gf = fb(g);
                    let ok = (0..4).all(|i| lane(gf[i], f32::from_bits(a[i]), m));
                    sw.tv(ok, g, || (sv(a), sf([m(f32::from_bits(a[0])), m(f32::from_bits(a[1])), m(f32::from_bits(a[2])), m(f32::from_bits(a[3]))])));
                };
                // every special value next to every other, in every lane
                let v = specials_nan();
                for &x in &v {
                    for &y in &v {
                        for l in 0..4 {
                            let mut a = [y.to_bits(); 4];
                            a[l] = x.to_bits();
                            chk(sw, a);
                        }
                    }
                }
                // every half-integer and integer neighbourhood up to 2^11, and around every power of two
                for k in -4096i32..=4096 {
                    let t = (k as f32 * 0.5).to_bits();
                    chk(sw, [t, t.wrapping_add(1), t.wrapping_sub(1), (k as f32 * 0.5 + 0.25).to_bits()]);
                    chk(sw, [t.wrapping_sub(1), t, (k as f32 * 0.5 + 0.25).to_bits(), t.wrapping_add(1)]);
                }
                if th {
                    for r in 0..4 {
                        every_f32(r, |a| chk(sw, a));
                    }
                } else {
                    grid(0, 255, 6, |x| chk(sw, [x.to_bits(), x.to_bits() ^ 0x80000000, x.to_bits() ^ 1, x.to_bits() ^ 0x00400000]));
                    grid(122, 152, 12, |x| chk(sw, [x.to_bits() ^ 0x80000000, x.to_bits() ^ 1, x.to_bits() ^ 0x00000fff, x.to_bits()]));
                }
            });
        }
    });
}
