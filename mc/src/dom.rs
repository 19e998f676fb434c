//! Finite operand domains ("alphabets").
use crate::*;

/// Special floats: every class boundary the code could treat specially.
pub fn specials() -> Vec<f32> {
    let mut v: Vec<f32> = vec![];
    let pos = [
        0.0f32, f32::from_bits(1), f32::from_bits(0x007fffff), f32::MIN_POSITIVE, 1.0e-20, 1.1920929e-7, 0.25, 0.49999997, 0.5, 0.50000006,
        0.99999994, 1.0, 1.0000001, 1.5, 2.0, 2.5, 3.0, 4194303.5, 8388607.5, 8388608.0, 8388609.0, 16777216.0, 2147483520.0, 2147483648.0,
        4294967040.0, 4294967296.0, 1.0e20, f32::MAX, f32::INFINITY,
    ];
    for p in pos {
        v.push(p);
        v.push(-p);
    }
    v
}
pub fn nans() -> Vec<f32> {
    [0x7fc00000u32, 0xffc00000, 0x7f800001, 0xff800001, 0x7fffffff, 0xffffffff, 0x7fc12345].iter().map(|b| f32::from_bits(*b)).collect()
}
pub fn specials_nan() -> Vec<f32> {
    let mut v = specials();
    v.extend(nans());
    v
}
/// 32-bit patterns for data movement and integer logic.
pub fn patterns() -> Vec<u32> {
    vec![
        0, 1, 0x80000000, 0xffffffff, 0x7fffffff, 0x80000001, 0x3f800000, 0xbf800000, 0x7f800000, 0xff800000, 0x7fc00000, 0x7f800001, 0xffc00001,
        0x00000002, 0x0000ffff, 0xffff0000, 0x55555555, 0xaaaaaaaa, 0x12345678, 0x00800000, 0x007fffff, 0xff7fffff, 4, 8, 0x10, 0x100,
    ]
}
/// Four distinct tags per operand, so that a misrouted lane is always visible.
pub const TAGS: [[u32; 4]; 5] = [
    [0x11111111, 0x22222222, 0x33333333, 0x44444444],
    [0x55555551, 0x66666662, 0x77777773, 0x88888884],
    [0x7f800001, 0xff812345, 0x00000001, 0x80000000],
    [0x3f800000, 0xc0000000, 0x7fc00abc, 0xffffffff],
    [0x9999aaaa, 0xbbbbcccc, 0xddddeeee, 0xfeedbeef],
];

/// Operands that compare numerically equal (or never equal) although their bits differ, and uniform ones.
pub const ALIKE: [[u32; 4]; 7] = [
    [0; 4],
    [0x80000000; 4],
    [0, 0x80000000, 0, 0x80000000],
    [0x80000000, 0, 0, 0x80000000],
    [0x7fc00001, 0x7fc00002, 0x7fc00003, 0x7fc00004],
    [0x3f800000; 4],
    [0x3f800000, 0x3f800000, 0x80000000, 0x3f800000],
];
/// Operand pairs for two-source routing: distinct tags, then every ordered pair of the alike ones.
pub fn tag_pairs() -> Vec<([u32; 4], [u32; 4])> {
    let mut v = vec![(TAGS[0], TAGS[1]), (TAGS[2], TAGS[3]), (TAGS[3], TAGS[4])];
    for a in ALIKE {
        for b in ALIKE {
            if a != b {
                v.push((a, b));
            }
        }
    }
    v
}

/// All vectors over an alphabet (k^4).
pub fn all4<T: Copy>(a: &[T], mut f: impl FnMut([T; 4])) {
    for &x in a {
        for &y in a {
            for &z in a {
                for &w in a {
                    f([x, y, z, w]);
                }
            }
        }
    }
}
pub fn all3<T: Copy>(a: &[T], mut f: impl FnMut([T; 3])) {
    for &x in a {
        for &y in a {
            for &z in a {
                f([x, y, z]);
            }
        }
    }
}
pub fn vec4s<T: Copy>(a: &[T]) -> Vec<[T; 4]> {
    let mut v = vec![];
    all4(a, |x| v.push(x));
    v
}
pub fn vec3s<T: Copy>(a: &[T]) -> Vec<[T; 3]> {
    let mut v = vec![];
    all3(a, |x| v.push(x));
    v
}

/// Backgrounds for the lanes that are not being probed.
pub const BG: [F4; 3] = [[1.0, -2.0, 3.5, -0.25], [-8.0, 0.5, -1.0, 7.0], [f32::INFINITY, f32::NAN, -0.0, 1.0e30]];

/// Unary domain: every value of `vals` visits every lane, neighbours differ.
pub fn unary(vals: &[f32], mut f: impl FnMut(F4)) {
    let n = vals.len();
    for i in 0..n {
        f([vals[i], vals[(i + 1) % n], vals[(i + n / 3 + 1) % n], vals[(i + n / 2 + 1) % n]]);
    }
}
/// Binary domain: every pair in every lane with several backgrounds.
pub fn binary(vals: &[f32], mut f: impl FnMut(F4, F4)) {
    for &a in vals {
        for &b in vals {
            for p in 0..4 {
                for k in 0..2 {
                    let mut x = BG[k];
                    let mut y = BG[(k + 1) % 2];
                    x[p] = a;
                    y[p] = b;
                    f(x, y);
                }
            }
        }
    }
}
/// The same with all lanes probed at once (pair index shifted per lane).
pub fn binary_packed(vals: &[f32], mut f: impl FnMut(F4, F4)) {
    let n = vals.len();
    for i in 0..n {
        for j in 0..n {
            f(
                [vals[i], vals[(i + 1) % n], vals[(i + 2) % n], vals[(i + 3) % n]],
                [vals[j], vals[(j + 5) % n], vals[(j + 3) % n], vals[(j + 11) % n]],
            );
        }
    }
}

/// Structured float grid: all signs x exponents [e0,e1] x mantissas built from the top `hi` bits
/// crossed with a few low-bit patterns.
pub fn grid(e0: u32, e1: u32, hi: u32, mut f: impl FnMut(f32)) {
    let lows: &[u32] = &[0, 1, 2, 0xffff_ffff, 0xffff_fffe, 0x5555_5555];
    let lowmask = (1u32 << (23 - hi)) - 1;
    for s in 0..2u32 {
        for e in e0..=e1 {
            for h in 0..(1u32 << hi) {
                let mut seen = [u32::MAX; 6];
                for (k, l) in lows.iter().enumerate() {
                    let m = (h << (23 - hi)) | (l & lowmask);
                    if seen[..k].contains(&m) {
                        continue;
                    }
                    seen[k] = m;
                    f(f32::from_bits((s << 31) | (e << 23) | m));
                }
            }
        }
    }
}
pub fn grid_vec(e0: u32, e1: u32, hi: u32) -> Vec<f32> {
    let mut v = vec![];
    grid(e0, e1, hi, |x| v.push(x));
    v
}
/// Values around each threshold: +-n ulps.
pub fn around(ts: &[f32], n: i32) -> Vec<f32> {
    let mut v = vec![];
    for t in ts {
        let b = t.to_bits() as i64;
        for d in -(n as i64)..=(n as i64) {
            let x = b + d;
            if x >= 0 && x <= u32::MAX as i64 {
                v.push(f32::from_bits(x as u32));
            }
        }
    }
    v
}

/// Visits every f32 bit pattern, 4 per call; `rot` lets each value visit a different lane.
pub fn every_f32(rot: usize, mut f: impl FnMut(U4)) {
    let mut base: u64 = 0;
    while base < (1u64 << 32) {
        let b = base as u32;
        let s = [b, b + 1, b + 2, b + 3];
        f([s[rot & 3], s[(rot + 1) & 3], s[(rot + 2) & 3], s[(rot + 3) & 3]]);
        base += 4;
    }
}

/// Every octave from 2^lo to 2^hi, two mantissas each, both signs: no magnitude window is skipped.
pub fn octaves(lo: i32, hi: i32) -> Vec<f32> {
    let mut r = vec![];
    for k in lo..=hi {
        for m in [1.1875f64, 1.625] {
            let x = (m * 2f64.powi(k)) as f32;
            r.extend([x, -x]);
        }
    }
    r
}

/// Every base tuple with one component at a time replaced by every ladder value.
pub fn star<const N: usize>(bases: &[[f32; N]], ladder: &[f32]) -> Vec<[f32; N]> {
    let mut r = vec![];
    for b in bases {
        for i in 0..N {
            for &x in ladder {
                let mut v = *b;
                v[i] = x;
                r.push(v);
            }
        }
    }
    r
}
