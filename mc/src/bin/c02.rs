//! C02: vectors, matrices and memory behave as independent 32-bit cells.
use mc::dom::*;
use mc::*;
use std::collections::{HashSet, VecDeque};

fn fbits(u: u32) -> f32 {
    f32::from_bits(u)
}

/// 256-byte arena with guard bytes; hands out a &T / &mut T at a byte offset.
#[repr(C, align(64))]
struct Arena([u8; 256]);
impl Arena {
    fn new() -> Arena {
        let mut a = Arena([0; 256]);
        for i in 0..256 {
            a.0[i] = (i as u8).wrapping_mul(37) ^ 0xA5;
        }
        a
    }
    fn put(&mut self, off: usize, cells: &[u32]) {
        for (i, c) in cells.iter().enumerate() {
            self.0[off + 4 * i..off + 4 * i + 4].copy_from_slice(&c.to_le_bytes());
        }
    }
    fn get(&self, off: usize, n: usize) -> Vec<u32> {
        (0..n).map(|i| u32::from_le_bytes([self.0[off + 4 * i], self.0[off + 4 * i + 1], self.0[off + 4 * i + 2], self.0[off + 4 * i + 3]])).collect()
    }
    fn r<T>(&self, off: usize) -> &T {
        unsafe { &*(self.0.as_ptr().add(off) as *const T) }
    }
    fn m<T>(&mut self, off: usize) -> &mut T {
        unsafe { &mut *(self.0.as_mut_ptr().add(off) as *mut T) }
    }
    /// bytes outside [off, off+len) unchanged?
    fn guards_ok(&self, off: usize, len: usize) -> bool {
        let r = Arena::new();
        (0..256).all(|i| (i >= off && i < off + len) || self.0[i] == r.0[i])
    }
}

fn cellsets(n: usize) -> Vec<Vec<u32>> {
    let p = patterns();
    let mut v: Vec<Vec<u32>> = vec![];
    v.push((0..n).map(|i| 0x11110000 + i as u32 * 0x01010101).collect());
    v.push((0..n).map(|i| 0x80000000 + i as u32).collect());
    v.push((0..n).map(|i| (1.5 + i as f32).to_bits()).collect());
    v.push(vec![0xffffffff; n]);
    v.push(vec![0; n]);
    // uniform contents, and uniform but for one cell: shortcuts on equal rows or elements
    for q in &p {
        v.push(vec![*q; n]);
    }
    for q in [0u32, 0x3f800000] {
        for c in 0..n {
            let mut x = vec![q; n];
            x[c] = if q == 0 { 0x80000000 } else { 0x3f800001 };
            v.push(x);
        }
    }
    for c in 0..n {
        for q in &p {
            let mut x: Vec<u32> = (0..n).map(|i| (2.0 + i as f32).to_bits()).collect();
            x[c] = *q;
            v.push(x);
        }
    }
    v
}
/// value equality for the forms that go through arithmetic
fn val_eq(a: u32, b: u32) -> bool {
    a == b || num_eq(fbits(a), fbits(b))
}

macro_rules! load_v {
    ($c:expr, $name:expr, $T:ty, $n:expr, $align:expr, $f:expr) => {
        $c.sweep($name, |sw| {
            for cells in cellsets($n) {
                for off in (64..80).step_by($align) {
                    let mut a = Arena::new();
                    a.put(off, &cells);
                    sw.state();
                    let g = $f(a.r::<$T>(off));
                    let mut w = [0u32; 4];
                    w[..$n].copy_from_slice(&cells);
                    sw.tv(ub(g) == w, g, || (format!("cells={:08x?} off={}", cells, off), sv(w)));
                }
            }
        });
    };
}
macro_rules! store_v {
    ($c:expr, $name:expr, $T:ty, $n:expr, $align:expr, $len:expr, $f:expr) => {
        $c.sweep($name, |sw| {
            for cells in cellsets(4) {
                for off in (64..80).step_by($align) {
                    let mut a = Arena::new();
                    sw.state();
                    $f(a.m::<$T>(off), vu([cells[0], cells[1], cells[2], cells[3]]));
                    let g = a.get(off, $n);
                    let ok = g[..] == cells[..$n] && a.guards_ok(off, $len);
                    sw.t(ok, h4([g[0], g[$n - 1], 0, 0]), || {
                        (format!("v={:08x?} off={}", cells, off), format!("{:08x?} guards_ok={}", g, a.guards_ok(off, $len)), format!("{:08x?}", &cells[..$n]))
                    });
                }
            }
        });
    };
}
type MM = [[u32; 4]; 4];
fn mbits(m: XMMATRIX) -> MM {
    unsafe { std::mem::transmute(mb(m)) }
}
fn mbuild(m: MM) -> XMMATRIX {
    mf(unsafe { std::mem::transmute(m) })
}
macro_rules! load_m {
    ($c:expr, $name:expr, $T:ty, $n:expr, $align:expr, $exact:expr, $f:expr, $w:expr) => {
        $c.sweep($name, |sw| {
            for cells in cellsets($n) {
                for off in (64..80).step_by($align) {
                    let mut a = Arena::new();
                    a.put(off, &cells);
                    sw.state();
                    let g = mbits($f(a.r::<$T>(off)));
                    let w: MM = $w(&cells);
                    let ok = (0..4).all(|i| (0..4).all(|j| if $exact { g[i][j] == w[i][j] } else { val_eq(g[i][j], w[i][j]) }));
                    sw.t(ok, h4(g[1]) ^ h4(g[3]), || (format!("cells={:08x?} off={}", cells, off), format!("{:08x?}", g), format!("{:08x?}", w)));
                }
            }
        });
    };
}
macro_rules! store_m {
    ($c:expr, $name:expr, $T:ty, $n:expr, $align:expr, $f:expr, $w:expr) => {
        $c.sweep($name, |sw| {
            for cells in cellsets(16) {
                for off in (64..80).step_by($align) {
                    let mut a = Arena::new();
                    let mut m: MM = [[0; 4]; 4];
                    for i in 0..16 {
                        m[i / 4][i % 4] = cells[i];
                    }
                    sw.state();
                    $f(a.m::<$T>(off), mbuild(m));
                    let g = a.get(off, $n);
                    let w: Vec<u32> = $w(&m);
                    let ok = g == w && a.guards_ok(off, 4 * $n);
                    sw.t(ok, h4([g[0], g[1], g[5], g[$n - 1]]), || {
                        (format!("m={:08x?} off={}", m, off), format!("{:08x?} guards_ok={}", g, a.guards_ok(off, 4 * $n)), format!("{:08x?}", w))
                    });
                }
            }
        });
    };
}

const ONE: u32 = 0x3f800000;

fn main() {
    Ctx::main("C02", |c| {
        // ---- constructors and constants
        c.sweep("constants", |sw| {
            let t: Vec<(&str, XMVECTOR, u32)> = vec![
                ("Zero", XMVectorZero(), 0),
                ("TrueInt", XMVectorTrueInt(), 0xffffffff),
                ("FalseInt", XMVectorFalseInt(), 0),
                ("SplatOne", XMVectorSplatOne(), ONE),
                ("SplatInfinity", XMVectorSplatInfinity(), 0x7f800000),
                ("SplatQNaN", XMVectorSplatQNaN(), 0x7fc00000),
                ("SplatEpsilon", XMVectorSplatEpsilon(), 0x34000000),
                ("SplatSignMask", XMVectorSplatSignMask(), 0x80000000),
            ];
            for (n, g, w) in t {
                sw.state();
                sw.tv(ub(g) == [w; 4], g, || (n.to_string(), sv([w; 4])));
            }
            let k: Vec<(&str, f32, f64)> = vec![
                ("XM_PI", XM_PI, std::f64::consts::PI),
                ("XM_2PI", XM_2PI, std::f64::consts::TAU),
                ("XM_1DIVPI", XM_1DIVPI, 1.0 / std::f64::consts::PI),
                ("XM_1DIV2PI", XM_1DIV2PI, 0.5 / std::f64::consts::PI),
                ("XM_PIDIV2", XM_PIDIV2, std::f64::consts::FRAC_PI_2),
                ("XM_PIDIV4", XM_PIDIV4, std::f64::consts::FRAC_PI_4),
            ];
            for (n, g, w) in k {
                sw.state();
                sw.t(g == w as f32, (g.to_bits() as u64).wrapping_mul(0x9E3779B97F4A7C15), || (n.into(), format!("{:?}", g), format!("{:?}", w as f32)));
            }
            let m = mbits(XMMatrixIdentity());
            sw.state();
            sw.t(m == [[ONE, 0, 0, 0], [0, ONE, 0, 0], [0, 0, ONE, 0], [0, 0, 0, ONE]], 1, || ("XMMatrixIdentity".into(), format!("{:x?}", m), "identity".into()));
            let q = ub(XMQuaternionIdentity());
            sw.t(q == [0, 0, 0, ONE], 2, || ("XMQuaternionIdentity".into(), sv(q), "0 0 0 1".into()));
            for (g, w) in [
                (XM_SELECT_0, 0), (XM_SELECT_1, u32::MAX), (XM_PERMUTE_0X, 0), (XM_PERMUTE_0Y, 1), (XM_PERMUTE_0Z, 2), (XM_PERMUTE_0W, 3),
                (XM_PERMUTE_1X, 4), (XM_PERMUTE_1Y, 5), (XM_PERMUTE_1Z, 6), (XM_PERMUTE_1W, 7), (XM_SWIZZLE_X, 0), (XM_SWIZZLE_Y, 1), (XM_SWIZZLE_Z, 2),
                (XM_SWIZZLE_W, 3), (XM_CRMASK_CR6, 0xf0), (XM_CRMASK_CR6TRUE, 0x80), (XM_CRMASK_CR6FALSE, 0x20), (XM_CRMASK_CR6BOUNDS, 0x20),
            ] {
                sw.state();
                sw.t(g == w, (g as u64).wrapping_mul(0x9E3779B97F4A7C15), || ("constant".into(), format!("{:x}", g), format!("{:x}", w)));
            }
        });
        c.sweep("XMVectorSet/SetInt/Replicate", |sw| {
            for x in cellsets(4) {
                let x = [x[0], x[1], x[2], x[3]];
                sw.state();
                let g = XMVectorSet(fbits(x[0]), fbits(x[1]), fbits(x[2]), fbits(x[3]));
                sw.tv(ub(g) == x, g, || ("Set".into(), sv(x)));
                let g = XMVectorSetInt(x[0], x[1], x[2], x[3]);
                sw.tv(ub(g) == x, g, || ("SetInt".into(), sv(x)));
                let g = XMVector::set(fbits(x[0]), fbits(x[1]), fbits(x[2]), fbits(x[3])).0;
                sw.tv(ub(g) == x, g, || ("XMVector::set".into(), sv(x)));
                let g = XMVector::from(&[fbits(x[0]), fbits(x[1]), fbits(x[2]), fbits(x[3])]).0;
                sw.tv(ub(g) == x, g, || ("XMVector::from".into(), sv(x)));
                for l in 0..4 {
                    let g = XMVectorReplicate(fbits(x[l]));
                    sw.tv(ub(g) == [x[l]; 4], g, || ("Replicate".into(), sv([x[l]; 4])));
                    let g = XMVectorReplicatePtr(&fbits(x[l]));
                    sw.tv(ub(g) == [x[l]; 4], g, || ("ReplicatePtr".into(), sv([x[l]; 4])));
                    let g = XMVectorReplicateInt(x[l]);
                    sw.tv(ub(g) == [x[l]; 4], g, || ("ReplicateInt".into(), sv([x[l]; 4])));
                }
                unsafe {
                    let g = *XMVECTORU32 { u: x };
                    sw.tv(ub(g) == x, g, || ("XMVECTORU32".into(), sv(x)));
                    let g = *XMVECTORI32 { i: [x[0] as i32, x[1] as i32, x[2] as i32, x[3] as i32] };
                    sw.tv(ub(g) == x, g, || ("XMVECTORI32".into(), sv(x)));
                    let g = *XMVECTORF32 { f: [fbits(x[0]), fbits(x[1]), fbits(x[2]), fbits(x[3])] };
                    sw.tv(ub(g) == x, g, || ("XMVECTORF32".into(), sv(x)));
                    let g = *XMVECTORU8 { u: std::mem::transmute(x) };
                    sw.tv(ub(g) == x, g, || ("XMVECTORU8".into(), sv(x)));
                }
            }
        });
        // ---- gets
        c.sweep("gets", |sw| {
            for x in cellsets(4) {
                let x = [x[0], x[1], x[2], x[3]];
                let v = vu(x);
                sw.state();
                let mut p = [0f32; 6];
                let z = 1234.5f32;
                p = [z; 6];
                XMVectorGetXPtr(&mut p[1], v);
                XMVectorGetYPtr(&mut p[2], v);
                XMVectorGetZPtr(&mut p[3], v);
                XMVectorGetWPtr(&mut p[4], v);
                let pb = [p[1].to_bits(), p[2].to_bits(), p[3].to_bits(), p[4].to_bits()];
                sw.t(pb == x && p[0] == z && p[5] == z, h4(pb), || (format!("GetPtr {}", sv(x)), sv(pb), sv(x)));
                let forms: [(&str, U4); 4] = [
                    ("Get", ubits([XMVectorGetX(v), XMVectorGetY(v), XMVectorGetZ(v), XMVectorGetW(v)])),
                    ("GetInt", [XMVectorGetIntX(v), XMVectorGetIntY(v), XMVectorGetIntZ(v), XMVectorGetIntW(v)]),
                    ("GetByIndex", ubits([XMVectorGetByIndex(v, 0), XMVectorGetByIndex(v, 1), XMVectorGetByIndex(v, 2), XMVectorGetByIndex(v, 3)])),
                    ("GetIntByIndex", [XMVectorGetIntByIndex(v, 0), XMVectorGetIntByIndex(v, 1), XMVectorGetIntByIndex(v, 2), XMVectorGetIntByIndex(v, 3)]),
                ];
                for (n, g) in forms {
                    sw.t(g == x, h4(g), || (format!("{} {}", n, sv(x)), sv(g), sv(x)));
                }
            }
        });
        // ---- register machine: every state x every set operation x every value (complete graph)
        let mut seqs = 0u64;
        c.sweep("register machine (BFS)", |sw| {
            let vals: Vec<u32> = if sw.tier == Tier::Thorough { vec![0, 0x7f800001, 0x80000000, ONE, 0xffffffff] } else { vec![0, 0x7f800001, 0x80000000, ONE] };
            let mut seen: HashSet<U4> = HashSet::new();
            let mut q = VecDeque::new();
            seen.insert([0; 4]);
            q.push_back([0u32; 4]);
            while let Some(st) = q.pop_front() {
                sw.state();
                for &x in &vals {
                    for l in 0..4 {
                        let v = vu(st);
                        let f = fbits(x);
                        let gs: [(&str, XMVECTOR); 4] = [
                            ("Set", match l { 0 => XMVectorSetX(v, f), 1 => XMVectorSetY(v, f), 2 => XMVectorSetZ(v, f), _ => XMVectorSetW(v, f) }),
                            ("SetInt", match l { 0 => XMVectorSetIntX(v, x), 1 => XMVectorSetIntY(v, x), 2 => XMVectorSetIntZ(v, x), _ => XMVectorSetIntW(v, x) }),
                            ("SetByIndex", XMVectorSetByIndex(v, f, l)),
                            ("SetIntByIndex", XMVectorSetIntByIndex(v, x, l)),
                        ];
                        let mut w = st;
                        w[l] = x;
                        for (n, g) in gs {
                            seqs += 1;
                            sw.tv(ub(g) == w, g, || (format!("{} lane {} := {:08x} on {}", n, l, x, sv(st)), sv(w)));
                        }
                        if seen.insert(w) {
                            q.push_back(w);
                        }
                    }
                }
            }
        });
        // ---- loads and stores of vectors
        load_v!(c, "XMLoadInt2", [u32; 2], 2, 4, |p: &[u32; 2]| XMLoadInt2(p));
        load_v!(c, "XMLoadInt3", [u32; 3], 3, 4, |p: &[u32; 3]| XMLoadInt3(p));
        load_v!(c, "XMLoadInt4", [u32; 4], 4, 4, |p: &[u32; 4]| XMLoadInt4(p));
        load_v!(c, "XMLoadFloat2", XMFLOAT2, 2, 4, |p: &XMFLOAT2| XMLoadFloat2(p));
        load_v!(c, "XMLoadFloat3", XMFLOAT3, 3, 4, |p: &XMFLOAT3| XMLoadFloat3(p));
        load_v!(c, "XMLoadFloat4", XMFLOAT4, 4, 4, |p: &XMFLOAT4| XMLoadFloat4(p));
        load_v!(c, "XMLoadFloat3A", Align16<XMFLOAT3>, 3, 16, |p: &Align16<XMFLOAT3>| XMLoadFloat3A(p));
        load_v!(c, "XMLoadFloat4A", Align16<XMFLOAT4>, 4, 16, |p: &Align16<XMFLOAT4>| XMLoadFloat4A(p));
        store_v!(c, "XMStoreFloat", f32, 1, 4, 4, |p: &mut f32, v| XMStoreFloat(p, v));
        store_v!(c, "XMStoreInt2", [u32; 2], 2, 4, 8, |p: &mut [u32; 2], v| XMStoreInt2(p, v));
        store_v!(c, "XMStoreInt3", [u32; 3], 3, 4, 12, |p: &mut [u32; 3], v| XMStoreInt3(p, v));
        store_v!(c, "XMStoreInt4", [u32; 4], 4, 4, 16, |p: &mut [u32; 4], v| XMStoreInt4(p, v));
        store_v!(c, "XMStoreFloat2", XMFLOAT2, 2, 4, 8, |p: &mut XMFLOAT2, v| XMStoreFloat2(p, v));
        store_v!(c, "XMStoreFloat3", XMFLOAT3, 3, 4, 12, |p: &mut XMFLOAT3, v| XMStoreFloat3(p, v));
        store_v!(c, "XMStoreFloat4", XMFLOAT4, 4, 4, 16, |p: &mut XMFLOAT4, v| XMStoreFloat4(p, v));
        store_v!(c, "XMStoreFloat3A", Align16<XMFLOAT3>, 3, 16, 16, |p: &mut Align16<XMFLOAT3>, v| XMStoreFloat3A(p, v));
        store_v!(c, "XMStoreFloat4A", Align16<XMFLOAT4>, 4, 16, 16, |p: &mut Align16<XMFLOAT4>, v| XMStoreFloat4A(p, v));
        // ---- matrices
        load_m!(c, "XMLoadFloat3x3", XMFLOAT3X3, 9, 4, false, |p: &XMFLOAT3X3| XMLoadFloat3x3(p), |x: &Vec<u32>| [
            [x[0], x[1], x[2], 0], [x[3], x[4], x[5], 0], [x[6], x[7], x[8], 0], [0, 0, 0, ONE]]);
        load_m!(c, "XMLoadFloat4x3", XMFLOAT4X3, 12, 4, true, |p: &XMFLOAT4X3| XMLoadFloat4x3(p), |x: &Vec<u32>| [
            [x[0], x[1], x[2], 0], [x[3], x[4], x[5], 0], [x[6], x[7], x[8], 0], [x[9], x[10], x[11], ONE]]);
        load_m!(c, "XMLoadFloat3x4", XMFLOAT3X4, 12, 4, true, |p: &XMFLOAT3X4| XMLoadFloat3x4(p), |x: &Vec<u32>| [
            [x[0], x[4], x[8], 0], [x[1], x[5], x[9], 0], [x[2], x[6], x[10], 0], [x[3], x[7], x[11], ONE]]);
        load_m!(c, "XMLoadFloat4x4", XMFLOAT4X4, 16, 4, true, |p: &XMFLOAT4X4| XMLoadFloat4x4(p), |x: &Vec<u32>| [
            [x[0], x[1], x[2], x[3]], [x[4], x[5], x[6], x[7]], [x[8], x[9], x[10], x[11]], [x[12], x[13], x[14], x[15]]]);
        load_m!(c, "XMLoadFloat4x4A", Align16<XMFLOAT4X4>, 16, 16, true, |p: &Align16<XMFLOAT4X4>| XMLoadFloat4x4A(p), |x: &Vec<u32>| [
            [x[0], x[1], x[2], x[3]], [x[4], x[5], x[6], x[7]], [x[8], x[9], x[10], x[11]], [x[12], x[13], x[14], x[15]]]);
        store_m!(c, "XMStoreFloat3x3", XMFLOAT3X3, 9, 4, |p: &mut XMFLOAT3X3, m| XMStoreFloat3x3(p, m), |m: &MM| (0..9).map(|i| m[i / 3][i % 3]).collect());
        store_m!(c, "XMStoreFloat4x3", XMFLOAT4X3, 12, 4, |p: &mut XMFLOAT4X3, m| XMStoreFloat4x3(p, m), |m: &MM| (0..12).map(|i| m[i / 3][i % 3]).collect());
        store_m!(c, "XMStoreFloat3x4", XMFLOAT3X4, 12, 4, |p: &mut XMFLOAT3X4, m| XMStoreFloat3x4(p, m), |m: &MM| (0..12).map(|i| m[i % 4][i / 4]).collect());
        store_m!(c, "XMStoreFloat4x4", XMFLOAT4X4, 16, 4, |p: &mut XMFLOAT4X4, m| XMStoreFloat4x4(p, m), |m: &MM| (0..16).map(|i| m[i / 4][i % 4]).collect());
        store_m!(c, "XMStoreFloat4x4A", Align16<XMFLOAT4X4>, 16, 16, |p: &mut Align16<XMFLOAT4X4>, m| XMStoreFloat4x4A(p, m), |m: &MM| (0..16).map(|i| m[i / 4][i % 4]).collect());
        c.sweep("XMMatrixSet and conversions", |sw| {
            for x in cellsets(16) {
                let f: Vec<f32> = x.iter().map(|b| fbits(*b)).collect();
                let mut w: MM = [[0; 4]; 4];
                let mut fm: M4 = [[0.0; 4]; 4];
                let mut fl = [0f32; 16];
                for i in 0..16 {
                    w[i / 4][i % 4] = x[i];
                    fm[i / 4][i % 4] = f[i];
                    fl[i] = f[i];
                }
                sw.state();
                let g1 = XMMatrixSet(f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8], f[9], f[10], f[11], f[12], f[13], f[14], f[15]);
                let g2 = XMMatrix::set(f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7], f[8], f[9], f[10], f[11], f[12], f[13], f[14], f[15]).0;
                let g3 = XMMatrix::from(&fl).0;
                let g4 = XMMatrix::from(&fm).0;
                for (n, g) in [("XMMatrixSet", g1), ("XMMatrix::set", g2), ("From<[f32;16]>", g3), ("From<[[f32;4];4]>", g4)] {
                    let g = mbits(g);
                    sw.t(g == w, h4(g[0]), || (format!("{} {:08x?}", n, x), format!("{:08x?}", g), format!("{:08x?}", w)));
                }
                let o1: [f32; 16] = XMMatrix(mbuild(w)).into();
                let o2: [[f32; 4]; 4] = XMMatrix(mbuild(w)).into();
                let ok = (0..16).all(|i| o1[i].to_bits() == x[i] && o2[i / 4][i % 4].to_bits() == x[i]);
                sw.t(ok, h4([x[0], x[5], x[10], x[15]]), || (format!("Into {:08x?}", x), format!("{:?} {:?}", o1, o2), "same cells".into()));
            }
        });
        c.sweep("structure conversions", |sw| {
            macro_rules! st {
                ($T:ty, $e:ty, $n:expr, $mk:expr) => {{
                    for x in cellsets($n) {
                        let mut arr: [$e; $n] = [Default::default(); $n];
                        for i in 0..$n {
                            arr[i] = $mk(x[i]);
                        }
                        let bits = |p: &[$e; $n]| -> Vec<u32> { p.iter().map(|q| unsafe { std::mem::transmute_copy::<$e, u32>(q) }).collect() };
                        sw.state();
                        let s: $T = <$T>::from(arr);
                        let raw: [u32; $n] = unsafe { std::mem::transmute(s) };
                        let r: [$e; $n] = s.into();
                        let sr: &$T = (&arr).into();
                        let rr: &[$e; $n] = sr.into();
                        let ar: &[$e; $n] = s.as_ref();
                        let mut s2 = <$T>::default();
                        let z: [u32; $n] = unsafe { std::mem::transmute(s2) };
                        {
                            let am: &mut [$e; $n] = s2.as_mut();
                            *am = arr;
                        }
                        let r2: [$e; $n] = s2.into();
                        let ok = raw[..] == x[..] && bits(&r) == x && bits(rr) == x && bits(ar) == x && bits(&r2) == x && z == [0u32; $n];
                        sw.t(ok, h4([raw[0], raw[$n - 1], raw[1], 0]), || (format!("{} {:08x?}", stringify!($T), x), format!("{:08x?} {:08x?}", raw, bits(&r)), format!("{:08x?}", x)));
                    }
                }};
            }
            st!(XMINT2, i32, 2, |b: u32| b as i32);
            st!(XMINT3, i32, 3, |b: u32| b as i32);
            st!(XMINT4, i32, 4, |b: u32| b as i32);
            st!(XMUINT2, u32, 2, |b: u32| b);
            st!(XMUINT3, u32, 3, |b: u32| b);
            st!(XMUINT4, u32, 4, |b: u32| b);
            st!(XMFLOAT2, f32, 2, fbits);
            st!(XMFLOAT3, f32, 3, fbits);
            st!(XMFLOAT4, f32, 4, fbits);
            st!(XMFLOAT3X3, f32, 9, fbits);
            st!(XMFLOAT4X3, f32, 12, fbits);
            st!(XMFLOAT3X4, f32, 12, fbits);
            st!(XMFLOAT4X4, f32, 16, fbits);
            macro_rules! named {
                ($T:ident, $mk:expr, $($f:ident $i:expr),*) => {{
                    for x in cellsets(4) {
                        sw.state();
                        let s = $T::set($($mk(x[$i])),*);
                        let ok = true $(&& unsafe { std::mem::transmute_copy::<_, u32>(&s.$f) } == x[$i])*;
                        sw.t(ok, h4([x[0], x[1], x[2], x[3]]), || (format!("{}::set {:08x?}", stringify!($T), x), format!("{:?}", s), "fields in order".into()));
                        let al = Align16::from(s);
                        let ok = std::mem::align_of_val(&al) == 16 && true $(&& unsafe { std::mem::transmute_copy::<_, u32>(&al.$f) } == x[$i])*;
                        sw.t(ok, 7, || ("Align16".into(), format!("{:?}", al), "fields in order".into()));
                    }
                }};
            }
            named!(XMINT2, |b: u32| b as i32, x 0, y 1);
            named!(XMINT3, |b: u32| b as i32, x 0, y 1, z 2);
            named!(XMINT4, |b: u32| b as i32, x 0, y 1, z 2, w 3);
            named!(XMUINT2, |b: u32| b, x 0, y 1);
            named!(XMUINT3, |b: u32| b, x 0, y 1, z 2);
            named!(XMUINT4, |b: u32| b, x 0, y 1, z 2, w 3);
            named!(XMFLOAT2, fbits, x 0, y 1);
            named!(XMFLOAT3, fbits, x 0, y 1, z 2);
            named!(XMFLOAT4, fbits, x 0, y 1, z 2, w 3);
            macro_rules! nested {
                ($T:ty, $r:expr, $k:expr) => {{
                    for x in cellsets($r * $k) {
                        let mut a = [[0f32; $k]; $r];
                        for i in 0..$r * $k {
                            a[i / $k][i % $k] = fbits(x[i]);
                        }
                        sw.state();
                        let s: $T = a.into();
                        let b: [[f32; $k]; $r] = s.into();
                        let cc: &[[f32; $k]; $r] = s.as_ref();
                        let ok = (0..$r * $k).all(|i| s.m[i / $k][i % $k].to_bits() == x[i] && b[i / $k][i % $k].to_bits() == x[i] && cc[i / $k][i % $k].to_bits() == x[i]);
                        sw.t(ok, h4([x[0], x[1], x[2], x[3]]), || (format!("{} nested {:08x?}", stringify!($T), x), format!("{:?}", s), "same cells".into()));
                    }
                }};
            }
            nested!(XMFLOAT3X3, 3, 3);
            nested!(XMFLOAT4X3, 4, 3);
            nested!(XMFLOAT3X4, 3, 4);
            nested!(XMFLOAT4X4, 4, 4);
        });
        // ---- machine with a register and memory: complete reachable graph
        c.sweep("load/store machine (BFS)", |sw| {
            type St = (U4, U4);
            let vals = [0x7f800001u32, 0x80000002];
            let mut seen: HashSet<St> = HashSet::new();
            let mut q = VecDeque::new();
            let s0 = ([0u32; 4], [vals[0], vals[1], vals[0], vals[1]]);
            seen.insert(s0);
            q.push_back(s0);
            while let Some((r, m)) = q.pop_front() {
                sw.state();
                let mut step = |sw: &mut Sweep, n: &str, g: XMVECTOR, gm: U4, w: U4, wm: U4| {
                    seqs += 1;
                    sw.t(ub(g) == w && gm == wm, h4(ub(g)), || (format!("{} reg={} mem={}", n, sv(r), sv(m)), format!("{} {}", sv(ub(g)), sv(gm)), format!("{} {}", sv(w), sv(wm))));
                    if seen.insert((w, wm)) {
                        q.push_back((w, wm));
                    }
                };
                let v = vu(r);
                let mem = XMFLOAT4 { x: fbits(m[0]), y: fbits(m[1]), z: fbits(m[2]), w: fbits(m[3]) };
                step(sw, "load4", XMLoadFloat4(&mem), m, m, m);
                step(sw, "load3", XMLoadFloat3(unsafe { &*(&mem as *const _ as *const XMFLOAT3) }), m, [m[0], m[1], m[2], 0], m);
                step(sw, "load2@1", XMLoadFloat2(unsafe { &*(&mem.y as *const f32 as *const XMFLOAT2) }), m, [m[1], m[2], 0, 0], m);
                let mm = |k: usize| -> U4 {
                    let mut x = A16x([0; 4]);
                    x.0 = m;
                    let p = x.0.as_mut_ptr();
                    unsafe {
                        match k {
                            0 => XMStoreFloat4(&mut *(p as *mut XMFLOAT4), v),
                            1 => XMStoreFloat3(&mut *(p.add(1) as *mut XMFLOAT3), v),
                            2 => XMStoreFloat2(&mut *(p.add(1) as *mut XMFLOAT2), v),
                            3 => XMStoreFloat(&mut *(p.add(2) as *mut f32), v),
                            _ => XMStoreInt3(&mut *(p as *mut [u32; 3]), v),
                        }
                    }
                    x.0
                };
                step(sw, "store4", v, mm(0), r, r);
                step(sw, "store3@1", v, mm(1), r, [m[0], r[0], r[1], r[2]]);
                step(sw, "store2@1", v, mm(2), r, [m[0], r[0], r[1], m[3]]);
                step(sw, "store1@2", v, mm(3), r, [m[0], m[1], r[0], m[3]]);
                step(sw, "storeint3", v, mm(4), r, [r[0], r[1], r[2], m[3]]);
                for l in 0..4 {
                    let mut w = r;
                    w[l] = vals[l & 1];
                    step(sw, "setbyindex", XMVectorSetByIndex(v, fbits(vals[l & 1]), l), m, w, m);
                }
                let g = XMVectorGetByIndex(v, 3);
                step(sw, "rep", XMVectorReplicate(g), m, [r[3]; 4], m);
            }
        });
        c.seqs += seqs;
        // Diagnostic output names the components in order; only the numbers are judged, not the punctuation.
        c.sweep("Debug output", |sw| {
            let nums = |t: String| -> Vec<f32> { t.replace("__vector4", "").split(|ch: char| !(ch.is_alphanumeric() || "+-.".contains(ch))).filter_map(|x| x.parse::<f32>().ok()).collect() };
            let vals = [0.5f32, -2.25, 1.0e-20, -3.0e30, 7.0, 0.0, f32::INFINITY, 1.0e-42];
            for k in 0..64usize {
                let v: Vec<f32> = (0..16).map(|i| vals[(k + i * (1 + k % 7) + i / 4) % 8]).collect();
                let row = |i: usize| XMVectorSet(v[4 * i], v[4 * i + 1], v[4 * i + 2], v[4 * i + 3]);
                let m = XMMATRIX { r: [row(0), row(1), row(2), row(3)] };
                sw.state();
                for (n, t, w) in [("vector", format!("{:?}", XMVector(row(0))), &v[..4]), ("matrix", format!("{:?}", XMMatrix(m)), &v[..]), ("matrix storage", format!("{:?}", m), &v[..])] {
                    let g = nums(t.clone());
                    sw.t(&g[..] == w, k as u64, || (format!("{} {:?}", n, w), t.clone(), format!("{:?}", w)));
                }
            }
        });
    });
}
#[repr(C, align(16))]
struct A16x(U4);
