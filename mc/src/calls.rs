// Generated by tools/gen_calls.py; do not edit.
//! Every public function behind one uniform signature: operand words in, result words out.
use mc::*;

/// What an operand means (decides which values it may take).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[allow(non_camel_case_types)]
pub enum K {
    /// vectors: arbitrary, points in general position, raw bits, unit quaternion, unit 2/3/4-vector, unit plane, angles, weights, positive, [-1,1]
    V, G, U, Q, N2, N3, N4, P, A, T, TR, VPOS, VUNIT, VRI, VLMIN, VLMAX,
    /// matrices: general invertible, projection
    M, MP,
    /// scalars
    F, W, ANG, FT, FUNIT, POS, NEG, NEAR, FAR, FOV, LMIN, LMAX, RI, Z0, ONE, H,
    I2, I4, I8, EXP,
    /// volumes
    S, B, O, R,
    PTS,
}
impl K {
    pub fn words(self) -> usize {
        match self {
            K::M | K::MP => 16,
            K::S => 4,
            K::B => 6,
            K::O => 10,
            K::R => 13,
            K::PTS => 15,
            K::V | K::G | K::U | K::Q | K::N2 | K::N3 | K::N4 | K::P | K::A | K::T | K::TR | K::VPOS | K::VUNIT | K::VRI | K::VLMIN | K::VLMAX => 4,
            _ => 1,
        }
    }
    /// the words are floats whose contents are unconstrained by any documented precondition
    pub fn free(self) -> bool {
        !matches!(self, K::I2 | K::I4 | K::I8 | K::EXP)
    }
}

/// Result collector: words and whether each is a float (compared numerically) or raw bits.
#[derive(Default)]
pub struct Out {
    pub w: Vec<u32>,
    pub float: Vec<bool>,
    pub corrupt: bool,
}
impl Out {
    pub fn clear(&mut self) {
        self.w.clear();
        self.float.clear();
        self.corrupt = false;
    }
    pub fn u(&mut self, x: u32) {
        self.w.push(x);
        self.float.push(false);
    }
    pub fn f(&mut self, x: f32) {
        self.w.push(x.to_bits());
        self.float.push(true);
    }
    pub fn v(&mut self, x: XMVECTOR) {
        for t in ub(x) {
            self.w.push(t);
            self.float.push(true);
        }
    }
    pub fn m(&mut self, x: XMMATRIX) {
        for r in mb(x) {
            for t in r {
                self.f(t);
            }
        }
    }
}

const CANARY: u64 = 0xC0DEC0DE_A5A55A5A;
/// An out-parameter between two guard zones.
#[repr(C, align(16))]
pub struct Guard<T> {
    a: [u64; 8],
    pub v: T,
    b: [u64; 8],
}
impl<T> Guard<T> {
    #[inline(always)]
    pub fn new(v: T) -> Self {
        Guard { a: [CANARY; 8], v, b: [CANARY; 8] }
    }
    #[inline(never)]
    pub fn check(&self, o: &mut Out) {
        for i in 0..8 {
            unsafe {
                if std::ptr::read_volatile(&self.a[i]) != CANARY || std::ptr::read_volatile(&self.b[i]) != CANARY {
                    o.corrupt = true;
                }
            }
        }
    }
}

fn g_f(a: &[u32], i: usize) -> f32 {
    f32::from_bits(a[i])
}
fn g_v(a: &[u32], i: usize) -> XMVECTOR {
    vu([a[i], a[i + 1], a[i + 2], a[i + 3]])
}
fn g_3(a: &[u32], i: usize) -> XMFLOAT3 {
    f3([g_f(a, i), g_f(a, i + 1), g_f(a, i + 2)])
}
fn g_4(a: &[u32], i: usize) -> XMFLOAT4 {
    XMFLOAT4 { x: g_f(a, i), y: g_f(a, i + 1), z: g_f(a, i + 2), w: g_f(a, i + 3) }
}
fn g_m(a: &[u32], i: usize) -> XMMATRIX {
    let mut m = [[0f32; 4]; 4];
    for r in 0..4 {
        for c in 0..4 {
            m[r][c] = g_f(a, i + 4 * r + c);
        }
    }
    mf(m)
}
fn g_S(a: &[u32], i: usize) -> BoundingSphere {
    BoundingSphere { Center: g_3(a, i), Radius: g_f(a, i + 3) }
}
fn g_B(a: &[u32], i: usize) -> BoundingBox {
    BoundingBox { Center: g_3(a, i), Extents: g_3(a, i + 3) }
}
fn g_O(a: &[u32], i: usize) -> BoundingOrientedBox {
    BoundingOrientedBox { Center: g_3(a, i), Extents: g_3(a, i + 3), Orientation: g_4(a, i + 6) }
}
fn g_R(a: &[u32], i: usize) -> BoundingFrustum {
    BoundingFrustum {
        Origin: g_3(a, i), Orientation: g_4(a, i + 3), RightSlope: g_f(a, i + 7), LeftSlope: g_f(a, i + 8), TopSlope: g_f(a, i + 9),
        BottomSlope: g_f(a, i + 10), Near: g_f(a, i + 11), Far: g_f(a, i + 12),
    }
}
fn g_pts(a: &[u32], i: usize) -> [XMFLOAT3; 5] {
    [g_3(a, i), g_3(a, i + 3), g_3(a, i + 6), g_3(a, i + 9), g_3(a, i + 12)]
}
fn gar_S() -> BoundingSphere {
    g_S(&[0; 4], 0)
}
fn gar_B() -> BoundingBox {
    g_B(&[0; 6], 0)
}
fn gar_O() -> BoundingOrientedBox {
    g_O(&[0; 10], 0)
}
fn gar_R() -> BoundingFrustum {
    g_R(&[0; 13], 0)
}
fn p_3(o: &mut Out, x: &XMFLOAT3) {
    for t in [x.x, x.y, x.z] {
        o.f(t);
    }
}
fn p_4(o: &mut Out, x: &XMFLOAT4) {
    for t in [x.x, x.y, x.z, x.w] {
        o.f(t);
    }
}
fn p_S(o: &mut Out, x: &BoundingSphere) {
    p_3(o, &x.Center);
    o.f(x.Radius);
}
fn p_B(o: &mut Out, x: &BoundingBox) {
    p_3(o, &x.Center);
    p_3(o, &x.Extents);
}
fn p_O(o: &mut Out, x: &BoundingOrientedBox) {
    p_3(o, &x.Center);
    p_3(o, &x.Extents);
    p_4(o, &x.Orientation);
}
fn p_R(o: &mut Out, x: &BoundingFrustum) {
    p_3(o, &x.Origin);
    p_4(o, &x.Orientation);
    for t in [x.RightSlope, x.LeftSlope, x.TopSlope, x.BottomSlope, x.Near, x.Far] {
        o.f(t);
    }
}

pub struct Entry {
    pub name: &'static str,
    /// results are bit patterns (data movement, masks), not numbers
    pub bits: bool,
    pub args: &'static [K],
    pub call: fn(&[u32], &mut Out),
}

pub fn all() -> Vec<Entry> {
    let mut list: Vec<Entry> = vec![];
    let mut e = |name: &'static str, bits: bool, args: &'static [K], call: fn(&[u32], &mut Out)| list.push(Entry { name, bits, args, call });
    e("XMVectorZero", true, &[], |a, o| {  let r = XMVectorZero(); o.v(r);  });
    e("XMVectorSet", true, &[K::W, K::W, K::W, K::W], |a, o| {  let r = XMVectorSet(g_f(a, 0), g_f(a, 1), g_f(a, 2), g_f(a, 3)); o.v(r);  });
    e("XMVectorSetInt", true, &[K::W, K::W, K::W, K::W], |a, o| {  let r = XMVectorSetInt(a[0] as u32, a[1] as u32, a[2] as u32, a[3] as u32); o.v(r);  });
    e("XMVectorReplicate", true, &[K::W], |a, o| {  let r = XMVectorReplicate(g_f(a, 0)); o.v(r);  });
    e("XMVectorReplicatePtr", true, &[K::W], |a, o| {  let r = XMVectorReplicatePtr(&g_f(a, 0)); o.v(r);  });
    e("XMVectorReplicateInt", true, &[K::W], |a, o| {  let r = XMVectorReplicateInt(a[0] as u32); o.v(r);  });
    e("XMVectorTrueInt", true, &[], |a, o| {  let r = XMVectorTrueInt(); o.v(r);  });
    e("XMVectorFalseInt", true, &[], |a, o| {  let r = XMVectorFalseInt(); o.v(r);  });
    e("XMVectorSplatX", true, &[K::U], |a, o| {  let r = XMVectorSplatX(g_v(a, 0)); o.v(r);  });
    e("XMVectorSplatY", true, &[K::U], |a, o| {  let r = XMVectorSplatY(g_v(a, 0)); o.v(r);  });
    e("XMVectorSplatZ", true, &[K::U], |a, o| {  let r = XMVectorSplatZ(g_v(a, 0)); o.v(r);  });
    e("XMVectorSplatW", true, &[K::U], |a, o| {  let r = XMVectorSplatW(g_v(a, 0)); o.v(r);  });
    e("XMVectorSplatOne", true, &[], |a, o| {  let r = XMVectorSplatOne(); o.v(r);  });
    e("XMVectorSplatInfinity", true, &[], |a, o| {  let r = XMVectorSplatInfinity(); o.v(r);  });
    e("XMVectorSplatQNaN", true, &[], |a, o| {  let r = XMVectorSplatQNaN(); o.v(r);  });
    e("XMVectorSplatEpsilon", true, &[], |a, o| {  let r = XMVectorSplatEpsilon(); o.v(r);  });
    e("XMVectorSplatSignMask", true, &[], |a, o| {  let r = XMVectorSplatSignMask(); o.v(r);  });
    e("XMVectorGetByIndex", true, &[K::U, K::I4], |a, o| {  let r = XMVectorGetByIndex(g_v(a, 0), a[4] as usize); o.f(r);  });
    e("XMVectorGetX", true, &[K::U], |a, o| {  let r = XMVectorGetX(g_v(a, 0)); o.f(r);  });
    e("XMVectorGetY", true, &[K::U], |a, o| {  let r = XMVectorGetY(g_v(a, 0)); o.f(r);  });
    e("XMVectorGetZ", true, &[K::U], |a, o| {  let r = XMVectorGetZ(g_v(a, 0)); o.f(r);  });
    e("XMVectorGetW", true, &[K::U], |a, o| {  let r = XMVectorGetW(g_v(a, 0)); o.f(r);  });
    e("XMVectorGetXPtr", true, &[K::U], |a, o| { let mut x0 = Guard::new(0f32); XMVectorGetXPtr(&mut x0.v, g_v(a, 0)); x0.check(o); o.f(x0.v); });
    e("XMVectorGetYPtr", true, &[K::U], |a, o| { let mut x0 = Guard::new(0f32); XMVectorGetYPtr(&mut x0.v, g_v(a, 0)); x0.check(o); o.f(x0.v); });
    e("XMVectorGetZPtr", true, &[K::U], |a, o| { let mut x0 = Guard::new(0f32); XMVectorGetZPtr(&mut x0.v, g_v(a, 0)); x0.check(o); o.f(x0.v); });
    e("XMVectorGetWPtr", true, &[K::U], |a, o| { let mut x0 = Guard::new(0f32); XMVectorGetWPtr(&mut x0.v, g_v(a, 0)); x0.check(o); o.f(x0.v); });
    e("XMVectorGetIntByIndex", true, &[K::U, K::I4], |a, o| {  let r = XMVectorGetIntByIndex(g_v(a, 0), a[4] as usize); o.u(r);  });
    e("XMVectorGetIntX", true, &[K::U], |a, o| {  let r = XMVectorGetIntX(g_v(a, 0)); o.u(r);  });
    e("XMVectorGetIntY", true, &[K::U], |a, o| {  let r = XMVectorGetIntY(g_v(a, 0)); o.u(r);  });
    e("XMVectorGetIntZ", true, &[K::U], |a, o| {  let r = XMVectorGetIntZ(g_v(a, 0)); o.u(r);  });
    e("XMVectorGetIntW", true, &[K::U], |a, o| {  let r = XMVectorGetIntW(g_v(a, 0)); o.u(r);  });
    e("XMVectorSetByIndex", true, &[K::U, K::W, K::I4], |a, o| {  let r = XMVectorSetByIndex(g_v(a, 0), g_f(a, 4), a[5] as usize); o.v(r);  });
    e("XMVectorSetX", true, &[K::U, K::W], |a, o| {  let r = XMVectorSetX(g_v(a, 0), g_f(a, 4)); o.v(r);  });
    e("XMVectorSetY", true, &[K::U, K::W], |a, o| {  let r = XMVectorSetY(g_v(a, 0), g_f(a, 4)); o.v(r);  });
    e("XMVectorSetZ", true, &[K::U, K::W], |a, o| {  let r = XMVectorSetZ(g_v(a, 0), g_f(a, 4)); o.v(r);  });
    e("XMVectorSetW", true, &[K::U, K::W], |a, o| {  let r = XMVectorSetW(g_v(a, 0), g_f(a, 4)); o.v(r);  });
    e("XMVectorSetIntByIndex", true, &[K::U, K::W, K::I4], |a, o| {  let r = XMVectorSetIntByIndex(g_v(a, 0), a[4] as u32, a[5] as usize); o.v(r);  });
    e("XMVectorSetIntX", true, &[K::U, K::W], |a, o| {  let r = XMVectorSetIntX(g_v(a, 0), a[4] as u32); o.v(r);  });
    e("XMVectorSetIntY", true, &[K::U, K::W], |a, o| {  let r = XMVectorSetIntY(g_v(a, 0), a[4] as u32); o.v(r);  });
    e("XMVectorSetIntZ", true, &[K::U, K::W], |a, o| {  let r = XMVectorSetIntZ(g_v(a, 0), a[4] as u32); o.v(r);  });
    e("XMVectorSetIntW", true, &[K::U, K::W], |a, o| {  let r = XMVectorSetIntW(g_v(a, 0), a[4] as u32); o.v(r);  });
    e("XMVectorSwizzle", true, &[K::U, K::I4, K::I4, K::I4, K::I4], |a, o| {  let r = XMVectorSwizzle(g_v(a, 0), a[4] as u32, a[5] as u32, a[6] as u32, a[7] as u32); o.v(r);  });
    e("XMVectorPermute", true, &[K::U, K::U, K::I8, K::I8, K::I8, K::I8], |a, o| {  let r = XMVectorPermute(g_v(a, 0), g_v(a, 4), a[8] as u32, a[9] as u32, a[10] as u32, a[11] as u32); o.v(r);  });
    e("XMVectorSelectControl", true, &[K::I2, K::I2, K::I2, K::I2], |a, o| {  let r = XMVectorSelectControl(a[0] as u32, a[1] as u32, a[2] as u32, a[3] as u32); o.v(r);  });
    e("XMVectorSelect", true, &[K::U, K::U, K::U], |a, o| {  let r = XMVectorSelect(g_v(a, 0), g_v(a, 4), g_v(a, 8)); o.v(r);  });
    e("XMVectorMergeXY", true, &[K::U, K::U], |a, o| {  let r = XMVectorMergeXY(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorMergeZW", true, &[K::U, K::U], |a, o| {  let r = XMVectorMergeZW(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorShiftLeft", true, &[K::U, K::U, K::I4], |a, o| {  let r = XMVectorShiftLeft(g_v(a, 0), g_v(a, 4), a[8] as u32); o.v(r);  });
    e("XMVectorRotateLeft", true, &[K::U, K::I4], |a, o| {  let r = XMVectorRotateLeft(g_v(a, 0), a[4] as u32); o.v(r);  });
    e("XMVectorRotateRight", true, &[K::U, K::I4], |a, o| {  let r = XMVectorRotateRight(g_v(a, 0), a[4] as u32); o.v(r);  });
    e("XMVectorInsert", true, &[K::U, K::U, K::I4, K::I2, K::I2, K::I2, K::I2], |a, o| {  let r = XMVectorInsert(g_v(a, 0), g_v(a, 4), a[8] as u32, a[9] as u32, a[10] as u32, a[11] as u32, a[12] as u32); o.v(r);  });
    e("XMVectorEqual", true, &[K::V, K::V], |a, o| {  let r = XMVectorEqual(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorEqualR", true, &[K::V, K::V], |a, o| { let mut x0 = Guard::new(0u32); let r = XMVectorEqualR(&mut x0.v, g_v(a, 0), g_v(a, 4)); o.v(r); x0.check(o); o.u(x0.v); });
    e("XMVectorEqualInt", true, &[K::U, K::U], |a, o| {  let r = XMVectorEqualInt(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorEqualIntR", true, &[K::U, K::U], |a, o| { let mut x0 = Guard::new(0u32); let r = XMVectorEqualIntR(&mut x0.v, g_v(a, 0), g_v(a, 4)); o.v(r); x0.check(o); o.u(x0.v); });
    e("XMVectorNearEqual", true, &[K::V, K::V, K::VPOS], |a, o| {  let r = XMVectorNearEqual(g_v(a, 0), g_v(a, 4), g_v(a, 8)); o.v(r);  });
    e("XMVectorNotEqual", true, &[K::V, K::V], |a, o| {  let r = XMVectorNotEqual(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorNotEqualInt", true, &[K::U, K::U], |a, o| {  let r = XMVectorNotEqualInt(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorGreater", true, &[K::V, K::V], |a, o| {  let r = XMVectorGreater(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorGreaterR", true, &[K::V, K::V], |a, o| { let mut x0 = Guard::new(0u32); let r = XMVectorGreaterR(&mut x0.v, g_v(a, 0), g_v(a, 4)); o.v(r); x0.check(o); o.u(x0.v); });
    e("XMVectorGreaterOrEqual", true, &[K::V, K::V], |a, o| {  let r = XMVectorGreaterOrEqual(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorGreaterOrEqualR", true, &[K::V, K::V], |a, o| { let mut x0 = Guard::new(0u32); let r = XMVectorGreaterOrEqualR(&mut x0.v, g_v(a, 0), g_v(a, 4)); o.v(r); x0.check(o); o.u(x0.v); });
    e("XMVectorLess", true, &[K::V, K::V], |a, o| {  let r = XMVectorLess(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorLessOrEqual", true, &[K::V, K::V], |a, o| {  let r = XMVectorLessOrEqual(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorInBounds", true, &[K::V, K::VPOS], |a, o| {  let r = XMVectorInBounds(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorInBoundsR", true, &[K::V, K::VPOS], |a, o| { let mut x0 = Guard::new(0u32); let r = XMVectorInBoundsR(&mut x0.v, g_v(a, 0), g_v(a, 4)); o.v(r); x0.check(o); o.u(x0.v); });
    e("XMVectorIsNaN", true, &[K::V], |a, o| {  let r = XMVectorIsNaN(g_v(a, 0)); o.v(r);  });
    e("XMVectorIsInfinite", true, &[K::V], |a, o| {  let r = XMVectorIsInfinite(g_v(a, 0)); o.v(r);  });
    e("XMVectorMin", false, &[K::V, K::V], |a, o| {  let r = XMVectorMin(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorMax", false, &[K::V, K::V], |a, o| {  let r = XMVectorMax(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorRound", false, &[K::V], |a, o| {  let r = XMVectorRound(g_v(a, 0)); o.v(r);  });
    e("XMVectorTruncate", false, &[K::V], |a, o| {  let r = XMVectorTruncate(g_v(a, 0)); o.v(r);  });
    e("XMVectorFloor", false, &[K::V], |a, o| {  let r = XMVectorFloor(g_v(a, 0)); o.v(r);  });
    e("XMVectorCeiling", false, &[K::V], |a, o| {  let r = XMVectorCeiling(g_v(a, 0)); o.v(r);  });
    e("XMVectorClamp", false, &[K::V, K::V, K::V], |a, o| {  let r = XMVectorClamp(g_v(a, 0), g_v(a, 4), g_v(a, 8)); o.v(r);  });
    e("XMVectorSaturate", false, &[K::V], |a, o| {  let r = XMVectorSaturate(g_v(a, 0)); o.v(r);  });
    e("XMVectorAndInt", true, &[K::U, K::U], |a, o| {  let r = XMVectorAndInt(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorAndCInt", true, &[K::U, K::U], |a, o| {  let r = XMVectorAndCInt(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorOrInt", true, &[K::U, K::U], |a, o| {  let r = XMVectorOrInt(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorNorInt", true, &[K::U, K::U], |a, o| {  let r = XMVectorNorInt(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorXorInt", true, &[K::U, K::U], |a, o| {  let r = XMVectorXorInt(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorNegate", false, &[K::V], |a, o| {  let r = XMVectorNegate(g_v(a, 0)); o.v(r);  });
    e("XMVectorAdd", false, &[K::V, K::V], |a, o| {  let r = XMVectorAdd(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorSum", false, &[K::V], |a, o| {  let r = XMVectorSum(g_v(a, 0)); o.v(r);  });
    e("XMVectorAddAngles", false, &[K::A, K::A], |a, o| {  let r = XMVectorAddAngles(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorSubtract", false, &[K::V, K::V], |a, o| {  let r = XMVectorSubtract(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorSubtractAngles", false, &[K::A, K::A], |a, o| {  let r = XMVectorSubtractAngles(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorMultiply", false, &[K::V, K::V], |a, o| {  let r = XMVectorMultiply(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorMultiplyAdd", false, &[K::V, K::V, K::V], |a, o| {  let r = XMVectorMultiplyAdd(g_v(a, 0), g_v(a, 4), g_v(a, 8)); o.v(r);  });
    e("XMVectorDivide", false, &[K::V, K::V], |a, o| {  let r = XMVectorDivide(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorNegativeMultiplySubtract", false, &[K::V, K::V, K::V], |a, o| {  let r = XMVectorNegativeMultiplySubtract(g_v(a, 0), g_v(a, 4), g_v(a, 8)); o.v(r);  });
    e("XMVectorScale", false, &[K::V, K::F], |a, o| {  let r = XMVectorScale(g_v(a, 0), g_f(a, 4)); o.v(r);  });
    e("XMVectorReciprocalEst", false, &[K::V], |a, o| {  let r = XMVectorReciprocalEst(g_v(a, 0)); o.v(r);  });
    e("XMVectorReciprocal", false, &[K::V], |a, o| {  let r = XMVectorReciprocal(g_v(a, 0)); o.v(r);  });
    e("XMVectorSqrtEst", false, &[K::V], |a, o| {  let r = XMVectorSqrtEst(g_v(a, 0)); o.v(r);  });
    e("XMVectorSqrt", false, &[K::V], |a, o| {  let r = XMVectorSqrt(g_v(a, 0)); o.v(r);  });
    e("XMVectorReciprocalSqrtEst", false, &[K::V], |a, o| {  let r = XMVectorReciprocalSqrtEst(g_v(a, 0)); o.v(r);  });
    e("XMVectorReciprocalSqrt", false, &[K::V], |a, o| {  let r = XMVectorReciprocalSqrt(g_v(a, 0)); o.v(r);  });
    e("XMVectorExp2", false, &[K::V], |a, o| {  let r = XMVectorExp2(g_v(a, 0)); o.v(r);  });
    e("XMVectorExp", false, &[K::V], |a, o| {  let r = XMVectorExp(g_v(a, 0)); o.v(r);  });
    e("XMVectorPow", false, &[K::V, K::V], |a, o| {  let r = XMVectorPow(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorAbs", false, &[K::V], |a, o| {  let r = XMVectorAbs(g_v(a, 0)); o.v(r);  });
    e("XMVectorMod", false, &[K::V, K::V], |a, o| {  let r = XMVectorMod(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorModAngles", false, &[K::A], |a, o| {  let r = XMVectorModAngles(g_v(a, 0)); o.v(r);  });
    e("XMVectorSin", false, &[K::A], |a, o| {  let r = XMVectorSin(g_v(a, 0)); o.v(r);  });
    e("XMVectorCos", false, &[K::A], |a, o| {  let r = XMVectorCos(g_v(a, 0)); o.v(r);  });
    e("XMVectorSinCos", false, &[K::A], |a, o| { let mut x0 = Guard::new(vu([0; 4])); let mut x1 = Guard::new(vu([0; 4])); XMVectorSinCos(&mut x0.v, &mut x1.v, g_v(a, 0)); x0.check(o); { let t = x0.v; o.v(t); } x1.check(o); { let t = x1.v; o.v(t); } });
    e("XMVectorTan", false, &[K::A], |a, o| {  let r = XMVectorTan(g_v(a, 0)); o.v(r);  });
    e("XMVectorSinH", false, &[K::V], |a, o| {  let r = XMVectorSinH(g_v(a, 0)); o.v(r);  });
    e("XMVectorCosH", false, &[K::V], |a, o| {  let r = XMVectorCosH(g_v(a, 0)); o.v(r);  });
    e("XMVectorTanH", false, &[K::V], |a, o| {  let r = XMVectorTanH(g_v(a, 0)); o.v(r);  });
    e("XMVectorASin", false, &[K::VUNIT], |a, o| {  let r = XMVectorASin(g_v(a, 0)); o.v(r);  });
    e("XMVectorACos", false, &[K::VUNIT], |a, o| {  let r = XMVectorACos(g_v(a, 0)); o.v(r);  });
    e("XMVectorATan", false, &[K::V], |a, o| {  let r = XMVectorATan(g_v(a, 0)); o.v(r);  });
    e("XMVectorATan2", false, &[K::V, K::V], |a, o| {  let r = XMVectorATan2(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorSinEst", false, &[K::A], |a, o| {  let r = XMVectorSinEst(g_v(a, 0)); o.v(r);  });
    e("XMVectorCosEst", false, &[K::A], |a, o| {  let r = XMVectorCosEst(g_v(a, 0)); o.v(r);  });
    e("XMVectorSinCosEst", false, &[K::A], |a, o| { let mut x0 = Guard::new(vu([0; 4])); let mut x1 = Guard::new(vu([0; 4])); XMVectorSinCosEst(&mut x0.v, &mut x1.v, g_v(a, 0)); x0.check(o); { let t = x0.v; o.v(t); } x1.check(o); { let t = x1.v; o.v(t); } });
    e("XMVectorTanEst", false, &[K::A], |a, o| {  let r = XMVectorTanEst(g_v(a, 0)); o.v(r);  });
    e("XMVectorASinEst", false, &[K::VUNIT], |a, o| {  let r = XMVectorASinEst(g_v(a, 0)); o.v(r);  });
    e("XMVectorACosEst", false, &[K::VUNIT], |a, o| {  let r = XMVectorACosEst(g_v(a, 0)); o.v(r);  });
    e("XMVectorATanEst", false, &[K::V], |a, o| {  let r = XMVectorATanEst(g_v(a, 0)); o.v(r);  });
    e("XMVectorATan2Est", false, &[K::V, K::V], |a, o| {  let r = XMVectorATan2Est(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVectorLerp", false, &[K::V, K::V, K::FT], |a, o| {  let r = XMVectorLerp(g_v(a, 0), g_v(a, 4), g_f(a, 8)); o.v(r);  });
    e("XMVectorLerpV", false, &[K::V, K::V, K::T], |a, o| {  let r = XMVectorLerpV(g_v(a, 0), g_v(a, 4), g_v(a, 8)); o.v(r);  });
    e("XMVectorHermite", false, &[K::V, K::V, K::V, K::V, K::FT], |a, o| {  let r = XMVectorHermite(g_v(a, 0), g_v(a, 4), g_v(a, 8), g_v(a, 12), g_f(a, 16)); o.v(r);  });
    e("XMVectorHermiteV", false, &[K::V, K::V, K::V, K::V, K::T], |a, o| {  let r = XMVectorHermiteV(g_v(a, 0), g_v(a, 4), g_v(a, 8), g_v(a, 12), g_v(a, 16)); o.v(r);  });
    e("XMVectorCatmullRom", false, &[K::V, K::V, K::V, K::V, K::FT], |a, o| {  let r = XMVectorCatmullRom(g_v(a, 0), g_v(a, 4), g_v(a, 8), g_v(a, 12), g_f(a, 16)); o.v(r);  });
    e("XMVectorCatmullRomV", false, &[K::V, K::V, K::V, K::V, K::T], |a, o| {  let r = XMVectorCatmullRomV(g_v(a, 0), g_v(a, 4), g_v(a, 8), g_v(a, 12), g_v(a, 16)); o.v(r);  });
    e("XMVectorBaryCentric", false, &[K::V, K::V, K::V, K::FT, K::FT], |a, o| {  let r = XMVectorBaryCentric(g_v(a, 0), g_v(a, 4), g_v(a, 8), g_f(a, 12), g_f(a, 13)); o.v(r);  });
    e("XMVectorBaryCentricV", false, &[K::V, K::V, K::V, K::T, K::T], |a, o| {  let r = XMVectorBaryCentricV(g_v(a, 0), g_v(a, 4), g_v(a, 8), g_v(a, 12), g_v(a, 16)); o.v(r);  });
    e("XMVector2Equal", true, &[K::V, K::V], |a, o| {  let r = XMVector2Equal(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMVector2EqualR", true, &[K::V, K::V], |a, o| {  let r = XMVector2EqualR(g_v(a, 0), g_v(a, 4)); o.u(r);  });
    e("XMVector2EqualInt", true, &[K::U, K::U], |a, o| {  let r = XMVector2EqualInt(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMVector2EqualIntR", true, &[K::U, K::U], |a, o| {  let r = XMVector2EqualIntR(g_v(a, 0), g_v(a, 4)); o.u(r);  });
    e("XMVector2NearEqual", true, &[K::V, K::V, K::VPOS], |a, o| {  let r = XMVector2NearEqual(g_v(a, 0), g_v(a, 4), g_v(a, 8)); o.u(r as u32);  });
    e("XMVector2NotEqual", true, &[K::V, K::V], |a, o| {  let r = XMVector2NotEqual(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMVector2NotEqualInt", true, &[K::U, K::U], |a, o| {  let r = XMVector2NotEqualInt(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMVector2Greater", true, &[K::V, K::V], |a, o| {  let r = XMVector2Greater(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMVector2GreaterR", true, &[K::V, K::V], |a, o| {  let r = XMVector2GreaterR(g_v(a, 0), g_v(a, 4)); o.u(r);  });
    e("XMVector2GreaterOrEqual", true, &[K::V, K::V], |a, o| {  let r = XMVector2GreaterOrEqual(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMVector2GreaterOrEqualR", true, &[K::V, K::V], |a, o| {  let r = XMVector2GreaterOrEqualR(g_v(a, 0), g_v(a, 4)); o.u(r);  });
    e("XMVector2Less", true, &[K::V, K::V], |a, o| {  let r = XMVector2Less(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMVector2LessOrEqual", true, &[K::V, K::V], |a, o| {  let r = XMVector2LessOrEqual(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMVector2InBounds", true, &[K::V, K::VPOS], |a, o| {  let r = XMVector2InBounds(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMVector2IsNaN", true, &[K::V], |a, o| {  let r = XMVector2IsNaN(g_v(a, 0)); o.u(r as u32);  });
    e("XMVector2IsInfinite", true, &[K::V], |a, o| {  let r = XMVector2IsInfinite(g_v(a, 0)); o.u(r as u32);  });
    e("XMVector2Dot", false, &[K::V, K::V], |a, o| {  let r = XMVector2Dot(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVector2Cross", false, &[K::V, K::V], |a, o| {  let r = XMVector2Cross(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVector2LengthSq", false, &[K::V], |a, o| {  let r = XMVector2LengthSq(g_v(a, 0)); o.v(r);  });
    e("XMVector2ReciprocalLengthEst", false, &[K::V], |a, o| {  let r = XMVector2ReciprocalLengthEst(g_v(a, 0)); o.v(r);  });
    e("XMVector2ReciprocalLength", false, &[K::V], |a, o| {  let r = XMVector2ReciprocalLength(g_v(a, 0)); o.v(r);  });
    e("XMVector2LengthEst", false, &[K::V], |a, o| {  let r = XMVector2LengthEst(g_v(a, 0)); o.v(r);  });
    e("XMVector2Length", false, &[K::V], |a, o| {  let r = XMVector2Length(g_v(a, 0)); o.v(r);  });
    e("XMVector2NormalizeEst", false, &[K::V], |a, o| {  let r = XMVector2NormalizeEst(g_v(a, 0)); o.v(r);  });
    e("XMVector2Normalize", false, &[K::V], |a, o| {  let r = XMVector2Normalize(g_v(a, 0)); o.v(r);  });
    e("XMVector2ClampLength", false, &[K::V, K::LMIN, K::LMAX], |a, o| {  let r = XMVector2ClampLength(g_v(a, 0), g_f(a, 4), g_f(a, 5)); o.v(r);  });
    e("XMVector2ClampLengthV", false, &[K::V, K::VLMIN, K::VLMAX], |a, o| {  let r = XMVector2ClampLengthV(g_v(a, 0), g_v(a, 4), g_v(a, 8)); o.v(r);  });
    e("XMVector2Reflect", false, &[K::N2, K::N2], |a, o| {  let r = XMVector2Reflect(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVector2Refract", false, &[K::N2, K::N2, K::RI], |a, o| {  let r = XMVector2Refract(g_v(a, 0), g_v(a, 4), g_f(a, 8)); o.v(r);  });
    e("XMVector2RefractV", false, &[K::N2, K::N2, K::VRI], |a, o| {  let r = XMVector2RefractV(g_v(a, 0), g_v(a, 4), g_v(a, 8)); o.v(r);  });
    e("XMVector2Orthogonal", false, &[K::V], |a, o| {  let r = XMVector2Orthogonal(g_v(a, 0)); o.v(r);  });
    e("XMVector2AngleBetweenNormalsEst", false, &[K::N2, K::N2], |a, o| {  let r = XMVector2AngleBetweenNormalsEst(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVector2AngleBetweenNormals", false, &[K::N2, K::N2], |a, o| {  let r = XMVector2AngleBetweenNormals(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVector2AngleBetweenVectors", false, &[K::V, K::V], |a, o| {  let r = XMVector2AngleBetweenVectors(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVector2LinePointDistance", false, &[K::G, K::G, K::G], |a, o| {  let r = XMVector2LinePointDistance(g_v(a, 0), g_v(a, 4), g_v(a, 8)); o.v(r);  });
    e("XMVector2IntersectLine", false, &[K::G, K::G, K::G, K::G], |a, o| {  let r = XMVector2IntersectLine(g_v(a, 0), g_v(a, 4), g_v(a, 8), g_v(a, 12)); o.v(r);  });
    e("XMVector2Transform", false, &[K::V, K::M], |a, o| {  let r = XMVector2Transform(g_v(a, 0), g_m(a, 4)); o.v(r);  });
    e("XMVector2TransformCoord", false, &[K::V, K::M], |a, o| {  let r = XMVector2TransformCoord(g_v(a, 0), g_m(a, 4)); o.v(r);  });
    e("XMVector2TransformNormal", false, &[K::V, K::M], |a, o| {  let r = XMVector2TransformNormal(g_v(a, 0), g_m(a, 4)); o.v(r);  });
    e("XMVector3Equal", true, &[K::V, K::V], |a, o| {  let r = XMVector3Equal(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMVector3EqualR", true, &[K::V, K::V], |a, o| {  let r = XMVector3EqualR(g_v(a, 0), g_v(a, 4)); o.u(r);  });
    e("XMVector3EqualInt", true, &[K::U, K::U], |a, o| {  let r = XMVector3EqualInt(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMVector3EqualIntR", true, &[K::U, K::U], |a, o| {  let r = XMVector3EqualIntR(g_v(a, 0), g_v(a, 4)); o.u(r);  });
    e("XMVector3NearEqual", true, &[K::V, K::V, K::VPOS], |a, o| {  let r = XMVector3NearEqual(g_v(a, 0), g_v(a, 4), g_v(a, 8)); o.u(r as u32);  });
    e("XMVector3NotEqual", true, &[K::V, K::V], |a, o| {  let r = XMVector3NotEqual(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMVector3NotEqualInt", true, &[K::U, K::U], |a, o| {  let r = XMVector3NotEqualInt(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMVector3Greater", true, &[K::V, K::V], |a, o| {  let r = XMVector3Greater(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMVector3GreaterR", true, &[K::V, K::V], |a, o| {  let r = XMVector3GreaterR(g_v(a, 0), g_v(a, 4)); o.u(r);  });
    e("XMVector3GreaterOrEqual", true, &[K::V, K::V], |a, o| {  let r = XMVector3GreaterOrEqual(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMVector3GreaterOrEqualR", true, &[K::V, K::V], |a, o| {  let r = XMVector3GreaterOrEqualR(g_v(a, 0), g_v(a, 4)); o.u(r);  });
    e("XMVector3Less", true, &[K::V, K::V], |a, o| {  let r = XMVector3Less(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMVector3LessOrEqual", true, &[K::V, K::V], |a, o| {  let r = XMVector3LessOrEqual(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMVector3InBounds", true, &[K::V, K::VPOS], |a, o| {  let r = XMVector3InBounds(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMVector3IsNaN", true, &[K::V], |a, o| {  let r = XMVector3IsNaN(g_v(a, 0)); o.u(r as u32);  });
    e("XMVector3IsInfinite", true, &[K::V], |a, o| {  let r = XMVector3IsInfinite(g_v(a, 0)); o.u(r as u32);  });
    e("XMVector3Dot", false, &[K::V, K::V], |a, o| {  let r = XMVector3Dot(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVector3Cross", false, &[K::V, K::V], |a, o| {  let r = XMVector3Cross(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVector3LengthSq", false, &[K::V], |a, o| {  let r = XMVector3LengthSq(g_v(a, 0)); o.v(r);  });
    e("XMVector3ReciprocalLengthEst", false, &[K::V], |a, o| {  let r = XMVector3ReciprocalLengthEst(g_v(a, 0)); o.v(r);  });
    e("XMVector3ReciprocalLength", false, &[K::V], |a, o| {  let r = XMVector3ReciprocalLength(g_v(a, 0)); o.v(r);  });
    e("XMVector3LengthEst", false, &[K::V], |a, o| {  let r = XMVector3LengthEst(g_v(a, 0)); o.v(r);  });
    e("XMVector3Length", false, &[K::V], |a, o| {  let r = XMVector3Length(g_v(a, 0)); o.v(r);  });
    e("XMVector3NormalizeEst", false, &[K::V], |a, o| {  let r = XMVector3NormalizeEst(g_v(a, 0)); o.v(r);  });
    e("XMVector3Normalize", false, &[K::V], |a, o| {  let r = XMVector3Normalize(g_v(a, 0)); o.v(r);  });
    e("XMVector3ClampLength", false, &[K::V, K::LMIN, K::LMAX], |a, o| {  let r = XMVector3ClampLength(g_v(a, 0), g_f(a, 4), g_f(a, 5)); o.v(r);  });
    e("XMVector3ClampLengthV", false, &[K::V, K::VLMIN, K::VLMAX], |a, o| {  let r = XMVector3ClampLengthV(g_v(a, 0), g_v(a, 4), g_v(a, 8)); o.v(r);  });
    e("XMVector3Reflect", false, &[K::N3, K::N3], |a, o| {  let r = XMVector3Reflect(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVector3Refract", false, &[K::N3, K::N3, K::RI], |a, o| {  let r = XMVector3Refract(g_v(a, 0), g_v(a, 4), g_f(a, 8)); o.v(r);  });
    e("XMVector3RefractV", false, &[K::N3, K::N3, K::VRI], |a, o| {  let r = XMVector3RefractV(g_v(a, 0), g_v(a, 4), g_v(a, 8)); o.v(r);  });
    e("XMVector3Orthogonal", false, &[K::V], |a, o| {  let r = XMVector3Orthogonal(g_v(a, 0)); o.v(r);  });
    e("XMVector3AngleBetweenNormalsEst", false, &[K::N3, K::N3], |a, o| {  let r = XMVector3AngleBetweenNormalsEst(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVector3AngleBetweenNormals", false, &[K::N3, K::N3], |a, o| {  let r = XMVector3AngleBetweenNormals(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVector3AngleBetweenVectors", false, &[K::V, K::V], |a, o| {  let r = XMVector3AngleBetweenVectors(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVector3LinePointDistance", false, &[K::G, K::G, K::G], |a, o| {  let r = XMVector3LinePointDistance(g_v(a, 0), g_v(a, 4), g_v(a, 8)); o.v(r);  });
    e("XMVector3ComponentsFromNormal", false, &[K::V, K::N3], |a, o| { let mut x0 = Guard::new(vu([0; 4])); let mut x1 = Guard::new(vu([0; 4])); XMVector3ComponentsFromNormal(&mut x0.v, &mut x1.v, g_v(a, 0), g_v(a, 4)); x0.check(o); { let t = x0.v; o.v(t); } x1.check(o); { let t = x1.v; o.v(t); } });
    e("XMVector3Rotate", false, &[K::V, K::Q], |a, o| {  let r = XMVector3Rotate(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVector3InverseRotate", false, &[K::V, K::Q], |a, o| {  let r = XMVector3InverseRotate(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVector3Transform", false, &[K::V, K::M], |a, o| {  let r = XMVector3Transform(g_v(a, 0), g_m(a, 4)); o.v(r);  });
    e("XMVector3TransformCoord", false, &[K::V, K::M], |a, o| {  let r = XMVector3TransformCoord(g_v(a, 0), g_m(a, 4)); o.v(r);  });
    e("XMVector3TransformNormal", false, &[K::V, K::M], |a, o| {  let r = XMVector3TransformNormal(g_v(a, 0), g_m(a, 4)); o.v(r);  });
    e("XMVector3Project", false, &[K::V, K::F, K::F, K::POS, K::POS, K::Z0, K::ONE, K::MP, K::M, K::M], |a, o| {  let r = XMVector3Project(g_v(a, 0), g_f(a, 4), g_f(a, 5), g_f(a, 6), g_f(a, 7), g_f(a, 8), g_f(a, 9), g_m(a, 10), &g_m(a, 26), &g_m(a, 42)); o.v(r);  });
    e("XMVector3Unproject", false, &[K::V, K::F, K::F, K::POS, K::POS, K::Z0, K::ONE, K::MP, K::M, K::M], |a, o| {  let r = XMVector3Unproject(g_v(a, 0), g_f(a, 4), g_f(a, 5), g_f(a, 6), g_f(a, 7), g_f(a, 8), g_f(a, 9), g_m(a, 10), &g_m(a, 26), &g_m(a, 42)); o.v(r);  });
    e("XMVector4Equal", true, &[K::V, K::V], |a, o| {  let r = XMVector4Equal(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMVector4EqualR", true, &[K::V, K::V], |a, o| {  let r = XMVector4EqualR(g_v(a, 0), g_v(a, 4)); o.u(r);  });
    e("XMVector4EqualInt", true, &[K::U, K::U], |a, o| {  let r = XMVector4EqualInt(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMVector4EqualIntR", true, &[K::U, K::U], |a, o| {  let r = XMVector4EqualIntR(g_v(a, 0), g_v(a, 4)); o.u(r);  });
    e("XMVector4NearEqual", true, &[K::V, K::V, K::VPOS], |a, o| {  let r = XMVector4NearEqual(g_v(a, 0), g_v(a, 4), g_v(a, 8)); o.u(r as u32);  });
    e("XMVector4NotEqual", true, &[K::V, K::V], |a, o| {  let r = XMVector4NotEqual(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMVector4NotEqualInt", true, &[K::U, K::U], |a, o| {  let r = XMVector4NotEqualInt(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMVector4Greater", true, &[K::V, K::V], |a, o| {  let r = XMVector4Greater(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMVector4GreaterR", true, &[K::V, K::V], |a, o| {  let r = XMVector4GreaterR(g_v(a, 0), g_v(a, 4)); o.u(r);  });
    e("XMVector4GreaterOrEqual", true, &[K::V, K::V], |a, o| {  let r = XMVector4GreaterOrEqual(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMVector4GreaterOrEqualR", true, &[K::V, K::V], |a, o| {  let r = XMVector4GreaterOrEqualR(g_v(a, 0), g_v(a, 4)); o.u(r);  });
    e("XMVector4Less", true, &[K::V, K::V], |a, o| {  let r = XMVector4Less(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMVector4LessOrEqual", true, &[K::V, K::V], |a, o| {  let r = XMVector4LessOrEqual(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMVector4InBounds", true, &[K::V, K::VPOS], |a, o| {  let r = XMVector4InBounds(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMVector4IsNaN", true, &[K::V], |a, o| {  let r = XMVector4IsNaN(g_v(a, 0)); o.u(r as u32);  });
    e("XMVector4IsInfinite", true, &[K::V], |a, o| {  let r = XMVector4IsInfinite(g_v(a, 0)); o.u(r as u32);  });
    e("XMVector4Dot", false, &[K::V, K::V], |a, o| {  let r = XMVector4Dot(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVector4Cross", false, &[K::G, K::G, K::G], |a, o| {  let r = XMVector4Cross(g_v(a, 0), g_v(a, 4), g_v(a, 8)); o.v(r);  });
    e("XMVector4LengthSq", false, &[K::V], |a, o| {  let r = XMVector4LengthSq(g_v(a, 0)); o.v(r);  });
    e("XMVector4ReciprocalLengthEst", false, &[K::V], |a, o| {  let r = XMVector4ReciprocalLengthEst(g_v(a, 0)); o.v(r);  });
    e("XMVector4ReciprocalLength", false, &[K::V], |a, o| {  let r = XMVector4ReciprocalLength(g_v(a, 0)); o.v(r);  });
    e("XMVector4LengthEst", false, &[K::V], |a, o| {  let r = XMVector4LengthEst(g_v(a, 0)); o.v(r);  });
    e("XMVector4Length", false, &[K::V], |a, o| {  let r = XMVector4Length(g_v(a, 0)); o.v(r);  });
    e("XMVector4NormalizeEst", false, &[K::V], |a, o| {  let r = XMVector4NormalizeEst(g_v(a, 0)); o.v(r);  });
    e("XMVector4Normalize", false, &[K::V], |a, o| {  let r = XMVector4Normalize(g_v(a, 0)); o.v(r);  });
    e("XMVector4ClampLength", false, &[K::V, K::LMIN, K::LMAX], |a, o| {  let r = XMVector4ClampLength(g_v(a, 0), g_f(a, 4), g_f(a, 5)); o.v(r);  });
    e("XMVector4ClampLengthV", false, &[K::V, K::VLMIN, K::VLMAX], |a, o| {  let r = XMVector4ClampLengthV(g_v(a, 0), g_v(a, 4), g_v(a, 8)); o.v(r);  });
    e("XMVector4Reflect", false, &[K::N4, K::N4], |a, o| {  let r = XMVector4Reflect(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVector4Refract", false, &[K::N4, K::N4, K::RI], |a, o| {  let r = XMVector4Refract(g_v(a, 0), g_v(a, 4), g_f(a, 8)); o.v(r);  });
    e("XMVector4RefractV", false, &[K::N4, K::N4, K::VRI], |a, o| {  let r = XMVector4RefractV(g_v(a, 0), g_v(a, 4), g_v(a, 8)); o.v(r);  });
    e("XMVector4Orthogonal", false, &[K::V], |a, o| {  let r = XMVector4Orthogonal(g_v(a, 0)); o.v(r);  });
    e("XMVector4AngleBetweenNormalsEst", false, &[K::N4, K::N4], |a, o| {  let r = XMVector4AngleBetweenNormalsEst(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVector4AngleBetweenNormals", false, &[K::N4, K::N4], |a, o| {  let r = XMVector4AngleBetweenNormals(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVector4AngleBetweenVectors", false, &[K::V, K::V], |a, o| {  let r = XMVector4AngleBetweenVectors(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMVector4Transform", false, &[K::V, K::M], |a, o| {  let r = XMVector4Transform(g_v(a, 0), g_m(a, 4)); o.v(r);  });
    e("XMQuaternionEqual", false, &[K::Q, K::Q], |a, o| {  let r = XMQuaternionEqual(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMQuaternionNotEqual", false, &[K::Q, K::Q], |a, o| {  let r = XMQuaternionNotEqual(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMQuaternionIsNaN", false, &[K::Q], |a, o| {  let r = XMQuaternionIsNaN(g_v(a, 0)); o.u(r as u32);  });
    e("XMQuaternionIsInfinite", false, &[K::Q], |a, o| {  let r = XMQuaternionIsInfinite(g_v(a, 0)); o.u(r as u32);  });
    e("XMQuaternionIsIdentity", false, &[K::Q], |a, o| {  let r = XMQuaternionIsIdentity(g_v(a, 0)); o.u(r as u32);  });
    e("XMQuaternionDot", false, &[K::Q, K::Q], |a, o| {  let r = XMQuaternionDot(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMQuaternionMultiply", false, &[K::Q, K::Q], |a, o| {  let r = XMQuaternionMultiply(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMQuaternionLengthSq", false, &[K::Q], |a, o| {  let r = XMQuaternionLengthSq(g_v(a, 0)); o.v(r);  });
    e("XMQuaternionReciprocalLength", false, &[K::Q], |a, o| {  let r = XMQuaternionReciprocalLength(g_v(a, 0)); o.v(r);  });
    e("XMQuaternionLength", false, &[K::Q], |a, o| {  let r = XMQuaternionLength(g_v(a, 0)); o.v(r);  });
    e("XMQuaternionNormalizeEst", false, &[K::Q], |a, o| {  let r = XMQuaternionNormalizeEst(g_v(a, 0)); o.v(r);  });
    e("XMQuaternionNormalize", false, &[K::Q], |a, o| {  let r = XMQuaternionNormalize(g_v(a, 0)); o.v(r);  });
    e("XMQuaternionConjugate", false, &[K::Q], |a, o| {  let r = XMQuaternionConjugate(g_v(a, 0)); o.v(r);  });
    e("XMQuaternionInverse", false, &[K::Q], |a, o| {  let r = XMQuaternionInverse(g_v(a, 0)); o.v(r);  });
    e("XMQuaternionLn", false, &[K::Q], |a, o| {  let r = XMQuaternionLn(g_v(a, 0)); o.v(r);  });
    e("XMQuaternionExp", false, &[K::Q], |a, o| {  let r = XMQuaternionExp(g_v(a, 0)); o.v(r);  });
    e("XMQuaternionSlerp", false, &[K::Q, K::Q, K::FT], |a, o| {  let r = XMQuaternionSlerp(g_v(a, 0), g_v(a, 4), g_f(a, 8)); o.v(r);  });
    e("XMQuaternionSlerpV", false, &[K::Q, K::Q, K::TR], |a, o| {  let r = XMQuaternionSlerpV(g_v(a, 0), g_v(a, 4), g_v(a, 8)); o.v(r);  });
    e("XMQuaternionSquad", false, &[K::Q, K::Q, K::Q, K::Q, K::FT], |a, o| {  let r = XMQuaternionSquad(g_v(a, 0), g_v(a, 4), g_v(a, 8), g_v(a, 12), g_f(a, 16)); o.v(r);  });
    e("XMQuaternionSquadV", false, &[K::Q, K::Q, K::Q, K::Q, K::TR], |a, o| {  let r = XMQuaternionSquadV(g_v(a, 0), g_v(a, 4), g_v(a, 8), g_v(a, 12), g_v(a, 16)); o.v(r);  });
    e("XMQuaternionSquadSetup", false, &[K::Q, K::Q, K::Q, K::Q], |a, o| { let mut x0 = Guard::new(vu([0; 4])); let mut x1 = Guard::new(vu([0; 4])); let mut x2 = Guard::new(vu([0; 4])); XMQuaternionSquadSetup(&mut x0.v, &mut x1.v, &mut x2.v, g_v(a, 0), g_v(a, 4), g_v(a, 8), g_v(a, 12)); x0.check(o); { let t = x0.v; o.v(t); } x1.check(o); { let t = x1.v; o.v(t); } x2.check(o); { let t = x2.v; o.v(t); } });
    e("XMQuaternionBaryCentric", false, &[K::Q, K::Q, K::Q, K::FT, K::FT], |a, o| {  let r = XMQuaternionBaryCentric(g_v(a, 0), g_v(a, 4), g_v(a, 8), g_f(a, 12), g_f(a, 13)); o.v(r);  });
    e("XMQuaternionBaryCentricV", false, &[K::Q, K::Q, K::Q, K::TR, K::TR], |a, o| {  let r = XMQuaternionBaryCentricV(g_v(a, 0), g_v(a, 4), g_v(a, 8), g_v(a, 12), g_v(a, 16)); o.v(r);  });
    e("XMQuaternionIdentity", false, &[], |a, o| {  let r = XMQuaternionIdentity(); o.v(r);  });
    e("XMQuaternionRotationRollPitchYaw", false, &[K::ANG, K::ANG, K::ANG], |a, o| {  let r = XMQuaternionRotationRollPitchYaw(g_f(a, 0), g_f(a, 1), g_f(a, 2)); o.v(r);  });
    e("XMQuaternionRotationRollPitchYawFromVector", false, &[K::A], |a, o| {  let r = XMQuaternionRotationRollPitchYawFromVector(g_v(a, 0)); o.v(r);  });
    e("XMQuaternionRotationNormal", false, &[K::N3, K::ANG], |a, o| {  let r = XMQuaternionRotationNormal(g_v(a, 0), g_f(a, 4)); o.v(r);  });
    e("XMQuaternionRotationAxis", false, &[K::N3, K::ANG], |a, o| {  let r = XMQuaternionRotationAxis(g_v(a, 0), g_f(a, 4)); o.v(r);  });
    e("XMQuaternionRotationMatrix", false, &[K::M], |a, o| {  let r = XMQuaternionRotationMatrix(g_m(a, 0)); o.v(r);  });
    e("XMQuaternionToAxisAngle", false, &[K::Q], |a, o| { let mut x0 = Guard::new(vu([0; 4])); let mut x1 = Guard::new(0f32); XMQuaternionToAxisAngle(&mut x0.v, &mut x1.v, g_v(a, 0)); x0.check(o); { let t = x0.v; o.v(t); } x1.check(o); o.f(x1.v); });
    e("XMPlaneEqual", false, &[K::P, K::P], |a, o| {  let r = XMPlaneEqual(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMPlaneNearEqual", false, &[K::P, K::P, K::VPOS], |a, o| {  let r = XMPlaneNearEqual(g_v(a, 0), g_v(a, 4), g_v(a, 8)); o.u(r as u32);  });
    e("XMPlaneNotEqual", false, &[K::P, K::P], |a, o| {  let r = XMPlaneNotEqual(g_v(a, 0), g_v(a, 4)); o.u(r as u32);  });
    e("XMPlaneIsNaN", false, &[K::P], |a, o| {  let r = XMPlaneIsNaN(g_v(a, 0)); o.u(r as u32);  });
    e("XMPlaneIsInfinite", false, &[K::P], |a, o| {  let r = XMPlaneIsInfinite(g_v(a, 0)); o.u(r as u32);  });
    e("XMPlaneDot", false, &[K::P, K::V], |a, o| {  let r = XMPlaneDot(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMPlaneDotCoord", false, &[K::P, K::V], |a, o| {  let r = XMPlaneDotCoord(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMPlaneDotNormal", false, &[K::P, K::V], |a, o| {  let r = XMPlaneDotNormal(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMPlaneNormalizeEst", false, &[K::P], |a, o| {  let r = XMPlaneNormalizeEst(g_v(a, 0)); o.v(r);  });
    e("XMPlaneNormalize", false, &[K::P], |a, o| {  let r = XMPlaneNormalize(g_v(a, 0)); o.v(r);  });
    e("XMPlaneIntersectLine", false, &[K::P, K::G, K::G], |a, o| {  let r = XMPlaneIntersectLine(g_v(a, 0), g_v(a, 4), g_v(a, 8)); o.v(r);  });
    e("XMPlaneIntersectPlane", false, &[K::P, K::P], |a, o| { let mut x0 = Guard::new(vu([0; 4])); let mut x1 = Guard::new(vu([0; 4])); XMPlaneIntersectPlane(&mut x0.v, &mut x1.v, g_v(a, 0), g_v(a, 4)); x0.check(o); { let t = x0.v; o.v(t); } x1.check(o); { let t = x1.v; o.v(t); } });
    e("XMPlaneTransform", false, &[K::P, K::M], |a, o| {  let r = XMPlaneTransform(g_v(a, 0), g_m(a, 4)); o.v(r);  });
    e("XMPlaneFromPointNormal", false, &[K::G, K::N3], |a, o| {  let r = XMPlaneFromPointNormal(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMPlaneFromPoints", false, &[K::G, K::G, K::G], |a, o| {  let r = XMPlaneFromPoints(g_v(a, 0), g_v(a, 4), g_v(a, 8)); o.v(r);  });
    e("XMFresnelTerm", false, &[K::VUNIT, K::VRI], |a, o| {  let r = XMFresnelTerm(g_v(a, 0), g_v(a, 4)); o.v(r);  });
    e("XMScalarNearEqual", false, &[K::F, K::F, K::F], |a, o| {  let r = XMScalarNearEqual(g_f(a, 0), g_f(a, 1), g_f(a, 2)); o.u(r as u32);  });
    e("XMScalarModAngle", false, &[K::ANG], |a, o| {  let r = XMScalarModAngle(g_f(a, 0)); o.f(r);  });
    e("XMScalarSin", false, &[K::ANG], |a, o| {  let r = XMScalarSin(g_f(a, 0)); o.f(r);  });
    e("XMScalarSinEst", false, &[K::ANG], |a, o| {  let r = XMScalarSinEst(g_f(a, 0)); o.f(r);  });
    e("XMScalarCos", false, &[K::ANG], |a, o| {  let r = XMScalarCos(g_f(a, 0)); o.f(r);  });
    e("XMScalarCosEst", false, &[K::ANG], |a, o| {  let r = XMScalarCosEst(g_f(a, 0)); o.f(r);  });
    e("XMScalarSinCos", false, &[K::ANG], |a, o| { let mut x0 = Guard::new(0f32); let mut x1 = Guard::new(0f32); XMScalarSinCos(&mut x0.v, &mut x1.v, g_f(a, 0)); x0.check(o); o.f(x0.v); x1.check(o); o.f(x1.v); });
    e("XMScalarSinCosEst", false, &[K::ANG], |a, o| { let mut x0 = Guard::new(0f32); let mut x1 = Guard::new(0f32); XMScalarSinCosEst(&mut x0.v, &mut x1.v, g_f(a, 0)); x0.check(o); o.f(x0.v); x1.check(o); o.f(x1.v); });
    e("XMScalarASin", false, &[K::FUNIT], |a, o| {  let r = XMScalarASin(g_f(a, 0)); o.f(r);  });
    e("XMScalarASinEst", false, &[K::FUNIT], |a, o| {  let r = XMScalarASinEst(g_f(a, 0)); o.f(r);  });
    e("XMScalarACos", false, &[K::FUNIT], |a, o| {  let r = XMScalarACos(g_f(a, 0)); o.f(r);  });
    e("XMScalarACosEst", false, &[K::FUNIT], |a, o| {  let r = XMScalarACosEst(g_f(a, 0)); o.f(r);  });
    e("XMMatrixIsNaN", false, &[K::M], |a, o| {  let r = XMMatrixIsNaN(g_m(a, 0)); o.u(r as u32);  });
    e("XMMatrixIsInfinite", false, &[K::M], |a, o| {  let r = XMMatrixIsInfinite(g_m(a, 0)); o.u(r as u32);  });
    e("XMMatrixIsIdentity", false, &[K::M], |a, o| {  let r = XMMatrixIsIdentity(g_m(a, 0)); o.u(r as u32);  });
    e("XMMatrixMultiply", false, &[K::M, K::M], |a, o| {  let r = XMMatrixMultiply(g_m(a, 0), &g_m(a, 16)); o.m(r);  });
    e("XMMatrixMultiplyTranspose", false, &[K::M, K::M], |a, o| {  let r = XMMatrixMultiplyTranspose(g_m(a, 0), &g_m(a, 16)); o.m(r);  });
    e("XMMatrixTranspose", false, &[K::M], |a, o| {  let r = XMMatrixTranspose(g_m(a, 0)); o.m(r);  });
    e("XMMatrixInverse", false, &[K::M], |a, o| { let mut x0 = Guard::new(vu([0; 4])); let r = XMMatrixInverse(Some(&mut x0.v), g_m(a, 0)); o.m(r); x0.check(o); { let t = x0.v; o.v(t); } });
    e("XMMatrixVectorTensorProduct", false, &[K::V, K::V], |a, o| {  let r = XMMatrixVectorTensorProduct(g_v(a, 0), g_v(a, 4)); o.m(r);  });
    e("XMMatrixDeterminant", false, &[K::M], |a, o| {  let r = XMMatrixDeterminant(g_m(a, 0)); o.v(r);  });
    e("XMMatrixDecompose", false, &[K::M], |a, o| { let mut x0 = Guard::new(vu([0; 4])); let mut x1 = Guard::new(vu([0; 4])); let mut x2 = Guard::new(vu([0; 4])); let r = XMMatrixDecompose(&mut x0.v, &mut x1.v, &mut x2.v, g_m(a, 0)); o.u(r as u32); x0.check(o); { let t = x0.v; o.v(t); } x1.check(o); { let t = x1.v; o.v(t); } x2.check(o); { let t = x2.v; o.v(t); } });
    e("XMMatrixIdentity", false, &[], |a, o| {  let r = XMMatrixIdentity(); o.m(r);  });
    e("XMMatrixSet", false, &[K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W], |a, o| {  let r = XMMatrixSet(g_f(a, 0), g_f(a, 1), g_f(a, 2), g_f(a, 3), g_f(a, 4), g_f(a, 5), g_f(a, 6), g_f(a, 7), g_f(a, 8), g_f(a, 9), g_f(a, 10), g_f(a, 11), g_f(a, 12), g_f(a, 13), g_f(a, 14), g_f(a, 15)); o.m(r);  });
    e("XMMatrixTranslation", false, &[K::F, K::F, K::F], |a, o| {  let r = XMMatrixTranslation(g_f(a, 0), g_f(a, 1), g_f(a, 2)); o.m(r);  });
    e("XMMatrixTranslationFromVector", false, &[K::V], |a, o| {  let r = XMMatrixTranslationFromVector(g_v(a, 0)); o.m(r);  });
    e("XMMatrixScaling", false, &[K::F, K::F, K::F], |a, o| {  let r = XMMatrixScaling(g_f(a, 0), g_f(a, 1), g_f(a, 2)); o.m(r);  });
    e("XMMatrixScalingFromVector", false, &[K::VPOS], |a, o| {  let r = XMMatrixScalingFromVector(g_v(a, 0)); o.m(r);  });
    e("XMMatrixRotationX", false, &[K::ANG], |a, o| {  let r = XMMatrixRotationX(g_f(a, 0)); o.m(r);  });
    e("XMMatrixRotationY", false, &[K::ANG], |a, o| {  let r = XMMatrixRotationY(g_f(a, 0)); o.m(r);  });
    e("XMMatrixRotationZ", false, &[K::ANG], |a, o| {  let r = XMMatrixRotationZ(g_f(a, 0)); o.m(r);  });
    e("XMMatrixRotationRollPitchYaw", false, &[K::ANG, K::ANG, K::ANG], |a, o| {  let r = XMMatrixRotationRollPitchYaw(g_f(a, 0), g_f(a, 1), g_f(a, 2)); o.m(r);  });
    e("XMMatrixRotationRollPitchYawFromVector", false, &[K::A], |a, o| {  let r = XMMatrixRotationRollPitchYawFromVector(g_v(a, 0)); o.m(r);  });
    e("XMMatrixRotationNormal", false, &[K::N3, K::ANG], |a, o| {  let r = XMMatrixRotationNormal(g_v(a, 0), g_f(a, 4)); o.m(r);  });
    e("XMMatrixRotationAxis", false, &[K::N3, K::ANG], |a, o| {  let r = XMMatrixRotationAxis(g_v(a, 0), g_f(a, 4)); o.m(r);  });
    e("XMMatrixRotationQuaternion", false, &[K::Q], |a, o| {  let r = XMMatrixRotationQuaternion(g_v(a, 0)); o.m(r);  });
    e("XMMatrixTransformation2D", false, &[K::V, K::ANG, K::VPOS, K::V, K::ANG, K::V], |a, o| {  let r = XMMatrixTransformation2D(g_v(a, 0), g_f(a, 4), g_v(a, 5), g_v(a, 9), g_f(a, 13), g_v(a, 14)); o.m(r);  });
    e("XMMatrixTransformation", false, &[K::V, K::Q, K::VPOS, K::V, K::Q, K::V], |a, o| {  let r = XMMatrixTransformation(g_v(a, 0), g_v(a, 4), g_v(a, 8), g_v(a, 12), g_v(a, 16), g_v(a, 20)); o.m(r);  });
    e("XMMatrixAffineTransformation2D", false, &[K::VPOS, K::V, K::ANG, K::V], |a, o| {  let r = XMMatrixAffineTransformation2D(g_v(a, 0), g_v(a, 4), g_f(a, 8), g_v(a, 9)); o.m(r);  });
    e("XMMatrixAffineTransformation", false, &[K::VPOS, K::V, K::Q, K::V], |a, o| {  let r = XMMatrixAffineTransformation(g_v(a, 0), g_v(a, 4), g_v(a, 8), g_v(a, 12)); o.m(r);  });
    e("XMMatrixReflect", false, &[K::P], |a, o| {  let r = XMMatrixReflect(g_v(a, 0)); o.m(r);  });
    e("XMMatrixShadow", false, &[K::P, K::V], |a, o| {  let r = XMMatrixShadow(g_v(a, 0), g_v(a, 4)); o.m(r);  });
    e("XMMatrixLookAtLH", false, &[K::G, K::G, K::G], |a, o| {  let r = XMMatrixLookAtLH(g_v(a, 0), g_v(a, 4), g_v(a, 8)); o.m(r);  });
    e("XMMatrixLookAtRH", false, &[K::G, K::G, K::G], |a, o| {  let r = XMMatrixLookAtRH(g_v(a, 0), g_v(a, 4), g_v(a, 8)); o.m(r);  });
    e("XMMatrixLookToLH", false, &[K::G, K::G, K::G], |a, o| {  let r = XMMatrixLookToLH(g_v(a, 0), g_v(a, 4), g_v(a, 8)); o.m(r);  });
    e("XMMatrixLookToRH", false, &[K::G, K::G, K::G], |a, o| {  let r = XMMatrixLookToRH(g_v(a, 0), g_v(a, 4), g_v(a, 8)); o.m(r);  });
    e("XMMatrixPerspectiveLH", false, &[K::POS, K::POS, K::NEAR, K::FAR], |a, o| {  let r = XMMatrixPerspectiveLH(g_f(a, 0), g_f(a, 1), g_f(a, 2), g_f(a, 3)); o.m(r);  });
    e("XMMatrixPerspectiveRH", false, &[K::POS, K::POS, K::NEAR, K::FAR], |a, o| {  let r = XMMatrixPerspectiveRH(g_f(a, 0), g_f(a, 1), g_f(a, 2), g_f(a, 3)); o.m(r);  });
    e("XMMatrixPerspectiveFovLH", false, &[K::FOV, K::POS, K::NEAR, K::FAR], |a, o| {  let r = XMMatrixPerspectiveFovLH(g_f(a, 0), g_f(a, 1), g_f(a, 2), g_f(a, 3)); o.m(r);  });
    e("XMMatrixPerspectiveFovRH", false, &[K::FOV, K::POS, K::NEAR, K::FAR], |a, o| {  let r = XMMatrixPerspectiveFovRH(g_f(a, 0), g_f(a, 1), g_f(a, 2), g_f(a, 3)); o.m(r);  });
    e("XMMatrixPerspectiveOffCenterLH", false, &[K::NEG, K::POS, K::NEG, K::POS, K::NEAR, K::FAR], |a, o| {  let r = XMMatrixPerspectiveOffCenterLH(g_f(a, 0), g_f(a, 1), g_f(a, 2), g_f(a, 3), g_f(a, 4), g_f(a, 5)); o.m(r);  });
    e("XMMatrixPerspectiveOffCenterRH", false, &[K::NEG, K::POS, K::NEG, K::POS, K::NEAR, K::FAR], |a, o| {  let r = XMMatrixPerspectiveOffCenterRH(g_f(a, 0), g_f(a, 1), g_f(a, 2), g_f(a, 3), g_f(a, 4), g_f(a, 5)); o.m(r);  });
    e("XMMatrixOrthographicLH", false, &[K::POS, K::POS, K::NEAR, K::FAR], |a, o| {  let r = XMMatrixOrthographicLH(g_f(a, 0), g_f(a, 1), g_f(a, 2), g_f(a, 3)); o.m(r);  });
    e("XMMatrixOrthographicRH", false, &[K::POS, K::POS, K::NEAR, K::FAR], |a, o| {  let r = XMMatrixOrthographicRH(g_f(a, 0), g_f(a, 1), g_f(a, 2), g_f(a, 3)); o.m(r);  });
    e("XMConvertVectorIntToFloat", false, &[K::V, K::EXP], |a, o| {  let r = XMConvertVectorIntToFloat(g_v(a, 0), a[4] as u32); o.v(r);  });
    e("XMConvertVectorFloatToInt", true, &[K::U, K::EXP], |a, o| {  let r = XMConvertVectorFloatToInt(g_v(a, 0), a[4] as u32); o.v(r);  });
    e("XMConvertVectorUIntToFloat", false, &[K::V, K::EXP], |a, o| {  let r = XMConvertVectorUIntToFloat(g_v(a, 0), a[4] as u32); o.v(r);  });
    e("XMConvertVectorFloatToUInt", true, &[K::U, K::EXP], |a, o| {  let r = XMConvertVectorFloatToUInt(g_v(a, 0), a[4] as u32); o.v(r);  });
    e("XMLoadInt2", true, &[K::W, K::W], |a, o| {  let r = XMLoadInt2(&[a[0], a[1]]); o.v(r);  });
    e("XMLoadFloat2", true, &[K::W, K::W], |a, o| {  let r = XMLoadFloat2(&unsafe { std::mem::transmute::<[u32; 2], XMFLOAT2>([a[0], a[1]]) }); o.v(r);  });
    e("XMLoadInt3", true, &[K::W, K::W, K::W], |a, o| {  let r = XMLoadInt3(&[a[0], a[1], a[2]]); o.v(r);  });
    e("XMLoadFloat3", true, &[K::W, K::W, K::W], |a, o| {  let r = XMLoadFloat3(&unsafe { std::mem::transmute::<[u32; 3], XMFLOAT3>([a[0], a[1], a[2]]) }); o.v(r);  });
    e("XMLoadFloat3A", true, &[K::W, K::W, K::W], |a, o| {  let r = XMLoadFloat3A(&Align16(unsafe { std::mem::transmute::<[u32; 3], XMFLOAT3>([a[0], a[1], a[2]]) })); o.v(r);  });
    e("XMLoadInt4", true, &[K::W, K::W, K::W, K::W], |a, o| {  let r = XMLoadInt4(&[a[0], a[1], a[2], a[3]]); o.v(r);  });
    e("XMLoadFloat4", true, &[K::W, K::W, K::W, K::W], |a, o| {  let r = XMLoadFloat4(&unsafe { std::mem::transmute::<[u32; 4], XMFLOAT4>([a[0], a[1], a[2], a[3]]) }); o.v(r);  });
    e("XMLoadFloat4A", true, &[K::W, K::W, K::W, K::W], |a, o| {  let r = XMLoadFloat4A(&Align16(unsafe { std::mem::transmute::<[u32; 4], XMFLOAT4>([a[0], a[1], a[2], a[3]]) })); o.v(r);  });
    e("XMLoadFloat3x3", true, &[K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W], |a, o| {  let r = XMLoadFloat3x3(&unsafe { std::mem::transmute::<[u32; 9], XMFLOAT3X3>([a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8]]) }); o.m(r);  });
    e("XMLoadFloat4x3", true, &[K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W], |a, o| {  let r = XMLoadFloat4x3(&unsafe { std::mem::transmute::<[u32; 12], XMFLOAT4X3>([a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]]) }); o.m(r);  });
    e("XMLoadFloat3x4", true, &[K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W], |a, o| {  let r = XMLoadFloat3x4(&unsafe { std::mem::transmute::<[u32; 12], XMFLOAT3X4>([a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11]]) }); o.m(r);  });
    e("XMLoadFloat4x4", true, &[K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W], |a, o| {  let r = XMLoadFloat4x4(&unsafe { std::mem::transmute::<[u32; 16], XMFLOAT4X4>([a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]]) }); o.m(r);  });
    e("XMLoadFloat4x4A", true, &[K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W, K::W], |a, o| {  let r = XMLoadFloat4x4A(&Align16(unsafe { std::mem::transmute::<[u32; 16], XMFLOAT4X4>([a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15]]) })); o.m(r);  });
    e("XMStoreFloat", true, &[K::U], |a, o| { let mut x0 = Guard::new(0f32); XMStoreFloat(&mut x0.v, g_v(a, 0)); x0.check(o); o.f(x0.v); });
    e("XMStoreInt2", true, &[K::U], |a, o| { let mut x0 = Guard::new([0u32; 2]); XMStoreInt2(&mut x0.v, g_v(a, 0)); x0.check(o); for k in 0..2 { let t = x0.v[k]; o.u(t); } });
    e("XMStoreFloat2", true, &[K::U], |a, o| { let mut x0 = Guard::new(unsafe { std::mem::transmute::<[u32; 2], XMFLOAT2>([0u32; 2]) }); XMStoreFloat2(&mut x0.v, g_v(a, 0)); x0.check(o); { let w: [u32; 2] = unsafe { std::mem::transmute_copy::<XMFLOAT2, [u32; 2]>(&x0.v) }; for t in w { o.u(t); } } });
    e("XMStoreInt3", true, &[K::U], |a, o| { let mut x0 = Guard::new([0u32; 3]); XMStoreInt3(&mut x0.v, g_v(a, 0)); x0.check(o); for k in 0..3 { let t = x0.v[k]; o.u(t); } });
    e("XMStoreFloat3", true, &[K::U], |a, o| { let mut x0 = Guard::new(unsafe { std::mem::transmute::<[u32; 3], XMFLOAT3>([0u32; 3]) }); XMStoreFloat3(&mut x0.v, g_v(a, 0)); x0.check(o); { let w: [u32; 3] = unsafe { std::mem::transmute_copy::<XMFLOAT3, [u32; 3]>(&x0.v) }; for t in w { o.u(t); } } });
    e("XMStoreFloat3A", true, &[K::U], |a, o| { let mut x0 = Guard::new(Align16(unsafe { std::mem::transmute::<[u32; 3], XMFLOAT3>([0u32; 3]) })); XMStoreFloat3A(&mut x0.v, g_v(a, 0)); x0.check(o); { let w: [u32; 3] = unsafe { std::mem::transmute_copy::<XMFLOAT3, [u32; 3]>(&x0.v.0) }; for t in w { o.u(t); } } });
    e("XMStoreInt4", true, &[K::U], |a, o| { let mut x0 = Guard::new([0u32; 4]); XMStoreInt4(&mut x0.v, g_v(a, 0)); x0.check(o); for k in 0..4 { let t = x0.v[k]; o.u(t); } });
    e("XMStoreFloat4", true, &[K::U], |a, o| { let mut x0 = Guard::new(unsafe { std::mem::transmute::<[u32; 4], XMFLOAT4>([0u32; 4]) }); XMStoreFloat4(&mut x0.v, g_v(a, 0)); x0.check(o); { let w: [u32; 4] = unsafe { std::mem::transmute_copy::<XMFLOAT4, [u32; 4]>(&x0.v) }; for t in w { o.u(t); } } });
    e("XMStoreFloat4A", true, &[K::U], |a, o| { let mut x0 = Guard::new(Align16(unsafe { std::mem::transmute::<[u32; 4], XMFLOAT4>([0u32; 4]) })); XMStoreFloat4A(&mut x0.v, g_v(a, 0)); x0.check(o); { let w: [u32; 4] = unsafe { std::mem::transmute_copy::<XMFLOAT4, [u32; 4]>(&x0.v.0) }; for t in w { o.u(t); } } });
    e("XMStoreFloat3x3", true, &[K::M], |a, o| { let mut x0 = Guard::new(unsafe { std::mem::transmute::<[u32; 9], XMFLOAT3X3>([0u32; 9]) }); XMStoreFloat3x3(&mut x0.v, g_m(a, 0)); x0.check(o); { let w: [u32; 9] = unsafe { std::mem::transmute_copy::<XMFLOAT3X3, [u32; 9]>(&x0.v) }; for t in w { o.u(t); } } });
    e("XMStoreFloat4x3", true, &[K::M], |a, o| { let mut x0 = Guard::new(unsafe { std::mem::transmute::<[u32; 12], XMFLOAT4X3>([0u32; 12]) }); XMStoreFloat4x3(&mut x0.v, g_m(a, 0)); x0.check(o); { let w: [u32; 12] = unsafe { std::mem::transmute_copy::<XMFLOAT4X3, [u32; 12]>(&x0.v) }; for t in w { o.u(t); } } });
    e("XMStoreFloat3x4", true, &[K::M], |a, o| { let mut x0 = Guard::new(unsafe { std::mem::transmute::<[u32; 12], XMFLOAT3X4>([0u32; 12]) }); XMStoreFloat3x4(&mut x0.v, g_m(a, 0)); x0.check(o); { let w: [u32; 12] = unsafe { std::mem::transmute_copy::<XMFLOAT3X4, [u32; 12]>(&x0.v) }; for t in w { o.u(t); } } });
    e("XMStoreFloat4x4", true, &[K::M], |a, o| { let mut x0 = Guard::new(unsafe { std::mem::transmute::<[u32; 16], XMFLOAT4X4>([0u32; 16]) }); XMStoreFloat4x4(&mut x0.v, g_m(a, 0)); x0.check(o); { let w: [u32; 16] = unsafe { std::mem::transmute_copy::<XMFLOAT4X4, [u32; 16]>(&x0.v) }; for t in w { o.u(t); } } });
    e("XMStoreFloat4x4A", true, &[K::M], |a, o| { let mut x0 = Guard::new(Align16(unsafe { std::mem::transmute::<[u32; 16], XMFLOAT4X4>([0u32; 16]) })); XMStoreFloat4x4A(&mut x0.v, g_m(a, 0)); x0.check(o); { let w: [u32; 16] = unsafe { std::mem::transmute_copy::<XMFLOAT4X4, [u32; 16]>(&x0.v.0) }; for t in w { o.u(t); } } });
    e("XMConvertHalfToFloat", false, &[K::H], |a, o| {  let r = XMConvertHalfToFloat(a[0] as u16); o.f(r);  });
    e("XMConvertFloatToHalf", false, &[K::W], |a, o| {  let r = XMConvertFloatToHalf(g_f(a, 0)); o.u(r as u32);  });
    e("BoundingSphere::TransformMatrix", false, &[K::S, K::M], |a, o| { let me = g_S(a, 0); let mut x0 = Guard::new(gar_S()); me.TransformMatrix(&mut x0.v, g_m(a, 4)); x0.check(o); p_S(o, &x0.v); });
    e("BoundingSphere::TransformDecomposed", false, &[K::S, K::POS, K::Q, K::G], |a, o| { let me = g_S(a, 0); let mut x0 = Guard::new(gar_S()); me.TransformDecomposed(&mut x0.v, g_f(a, 4), g_v(a, 5), g_v(a, 9)); x0.check(o); p_S(o, &x0.v); });
    e("BoundingSphere::ContainsPoint", false, &[K::S, K::G], |a, o| { let me = g_S(a, 0); let r = me.ContainsPoint(g_v(a, 4)); o.u(r as u32);  });
    e("BoundingSphere::ContainsTriangle", false, &[K::S, K::G, K::G, K::G], |a, o| { let me = g_S(a, 0); let r = me.ContainsTriangle(g_v(a, 4), g_v(a, 8), g_v(a, 12)); o.u(r as u32);  });
    e("BoundingSphere::ContainsSphere", false, &[K::S, K::S], |a, o| { let me = g_S(a, 0); let r = me.ContainsSphere(&g_S(a, 4)); o.u(r as u32);  });
    e("BoundingSphere::ContainsBox", false, &[K::S, K::B], |a, o| { let me = g_S(a, 0); let r = me.ContainsBox(&g_B(a, 4)); o.u(r as u32);  });
    e("BoundingSphere::ContainsOrientedBox", false, &[K::S, K::O], |a, o| { let me = g_S(a, 0); let r = me.ContainsOrientedBox(&g_O(a, 4)); o.u(r as u32);  });
    e("BoundingSphere::ContainsFrustum", false, &[K::S, K::R], |a, o| { let me = g_S(a, 0); let r = me.ContainsFrustum(&g_R(a, 4)); o.u(r as u32);  });
    e("BoundingSphere::IntersectsSphere", false, &[K::S, K::S], |a, o| { let me = g_S(a, 0); let r = me.IntersectsSphere(&g_S(a, 4)); o.u(r as u32);  });
    e("BoundingSphere::IntersectsBox", false, &[K::S, K::B], |a, o| { let me = g_S(a, 0); let r = me.IntersectsBox(&g_B(a, 4)); o.u(r as u32);  });
    e("BoundingSphere::IntersectsOrientedBox", false, &[K::S, K::O], |a, o| { let me = g_S(a, 0); let r = me.IntersectsOrientedBox(&g_O(a, 4)); o.u(r as u32);  });
    e("BoundingSphere::IntersectsFrustum", false, &[K::S, K::R], |a, o| { let me = g_S(a, 0); let r = me.IntersectsFrustum(&g_R(a, 4)); o.u(r as u32);  });
    e("BoundingSphere::IntersectsTriangle", false, &[K::S, K::G, K::G, K::G], |a, o| { let me = g_S(a, 0); let r = me.IntersectsTriangle(g_v(a, 4), g_v(a, 8), g_v(a, 12)); o.u(r as u32);  });
    e("BoundingSphere::IntersectsPlane", false, &[K::S, K::P], |a, o| { let me = g_S(a, 0); let r = me.IntersectsPlane(g_v(a, 4)); o.u(r as u32);  });
    e("BoundingSphere::IntersectsRay", false, &[K::S, K::G, K::N3], |a, o| { let me = g_S(a, 0); let mut x2 = Guard::new(0f32); let r = me.IntersectsRay(g_v(a, 4), g_v(a, 8), &mut x2.v); o.u(r as u32); x2.check(o); o.f(x2.v); });
    e("BoundingSphere::ContainedBy", false, &[K::S, K::P, K::P, K::P, K::P, K::P, K::P], |a, o| { let me = g_S(a, 0); let r = me.ContainedBy(g_v(a, 4), g_v(a, 8), g_v(a, 12), g_v(a, 16), g_v(a, 20), g_v(a, 24)); o.u(r as u32);  });
    e("BoundingSphere::CreateMerged", false, &[K::S, K::S], |a, o| { let mut x0 = Guard::new(gar_S()); BoundingSphere::CreateMerged(&mut x0.v, &g_S(a, 0), &g_S(a, 4)); x0.check(o); p_S(o, &x0.v); });
    e("BoundingSphere::CreateFromBoundingBox", false, &[K::B], |a, o| { let mut x0 = Guard::new(gar_S()); BoundingSphere::CreateFromBoundingBox(&mut x0.v, &g_B(a, 0)); x0.check(o); p_S(o, &x0.v); });
    e("BoundingSphere::CreateFromBoundingOrientedBox", false, &[K::O], |a, o| { let mut x0 = Guard::new(gar_S()); BoundingSphere::CreateFromBoundingOrientedBox(&mut x0.v, &g_O(a, 0)); x0.check(o); p_S(o, &x0.v); });
    e("BoundingSphere::CreateFromPoints", false, &[K::PTS], |a, o| { let mut x0 = Guard::new(gar_S()); let pts = g_pts(a, 0); BoundingSphere::CreateFromPoints(&mut x0.v, pts.iter()); x0.check(o); p_S(o, &x0.v); });
    e("BoundingSphere::CreateFromFrustum", false, &[K::R], |a, o| { let mut x0 = Guard::new(gar_S()); BoundingSphere::CreateFromFrustum(&mut x0.v, &g_R(a, 0)); x0.check(o); p_S(o, &x0.v); });
    e("BoundingBox::GetCorners", false, &[K::B], |a, o| { let me = g_B(a, 0); let mut x0 = Guard::new([f3([0.0; 3]); 8]); me.GetCorners(&mut x0.v); x0.check(o); for k in 0..8 { let t = x0.v[k]; o.f(t.x); o.f(t.y); o.f(t.z); } });
    e("BoundingBox::TransformMatrix", false, &[K::B, K::M], |a, o| { let me = g_B(a, 0); let mut x0 = Guard::new(gar_B()); me.TransformMatrix(&mut x0.v, g_m(a, 6)); x0.check(o); p_B(o, &x0.v); });
    e("BoundingBox::TransformDecomposed", false, &[K::B, K::POS, K::Q, K::G], |a, o| { let me = g_B(a, 0); let mut x0 = Guard::new(gar_B()); me.TransformDecomposed(&mut x0.v, g_f(a, 6), g_v(a, 7), g_v(a, 11)); x0.check(o); p_B(o, &x0.v); });
    e("BoundingBox::ContainsPoint", false, &[K::B, K::G], |a, o| { let me = g_B(a, 0); let r = me.ContainsPoint(g_v(a, 6)); o.u(r as u32);  });
    e("BoundingBox::ContainsTriangle", false, &[K::B, K::G, K::G, K::G], |a, o| { let me = g_B(a, 0); let r = me.ContainsTriangle(g_v(a, 6), g_v(a, 10), g_v(a, 14)); o.u(r as u32);  });
    e("BoundingBox::ContainsSphere", false, &[K::B, K::S], |a, o| { let me = g_B(a, 0); let r = me.ContainsSphere(&g_S(a, 6)); o.u(r as u32);  });
    e("BoundingBox::ContainsBox", false, &[K::B, K::B], |a, o| { let me = g_B(a, 0); let r = me.ContainsBox(&g_B(a, 6)); o.u(r as u32);  });
    e("BoundingBox::ContainsOrientedBox", false, &[K::B, K::O], |a, o| { let me = g_B(a, 0); let r = me.ContainsOrientedBox(&g_O(a, 6)); o.u(r as u32);  });
    e("BoundingBox::ContainsFrustum", false, &[K::B, K::R], |a, o| { let me = g_B(a, 0); let r = me.ContainsFrustum(&g_R(a, 6)); o.u(r as u32);  });
    e("BoundingBox::IntersectsSphere", false, &[K::B, K::S], |a, o| { let me = g_B(a, 0); let r = me.IntersectsSphere(&g_S(a, 6)); o.u(r as u32);  });
    e("BoundingBox::IntersectsBox", false, &[K::B, K::B], |a, o| { let me = g_B(a, 0); let r = me.IntersectsBox(&g_B(a, 6)); o.u(r as u32);  });
    e("BoundingBox::IntersectsOrientedBox", false, &[K::B, K::O], |a, o| { let me = g_B(a, 0); let r = me.IntersectsOrientedBox(&g_O(a, 6)); o.u(r as u32);  });
    e("BoundingBox::IntersectsFrustum", false, &[K::B, K::R], |a, o| { let me = g_B(a, 0); let r = me.IntersectsFrustum(&g_R(a, 6)); o.u(r as u32);  });
    e("BoundingBox::IntersectsTriangle", false, &[K::B, K::G, K::G, K::G], |a, o| { let me = g_B(a, 0); let r = me.IntersectsTriangle(g_v(a, 6), g_v(a, 10), g_v(a, 14)); o.u(r as u32);  });
    e("BoundingBox::IntersectsPlane", false, &[K::B, K::P], |a, o| { let me = g_B(a, 0); let r = me.IntersectsPlane(g_v(a, 6)); o.u(r as u32);  });
    e("BoundingBox::IntersectsRay", false, &[K::B, K::G, K::N3], |a, o| { let me = g_B(a, 0); let mut x2 = Guard::new(0f32); let r = me.IntersectsRay(g_v(a, 6), g_v(a, 10), &mut x2.v); o.u(r as u32); x2.check(o); o.f(x2.v); });
    e("BoundingBox::ContainedBy", false, &[K::B, K::P, K::P, K::P, K::P, K::P, K::P], |a, o| { let me = g_B(a, 0); let r = me.ContainedBy(g_v(a, 6), g_v(a, 10), g_v(a, 14), g_v(a, 18), g_v(a, 22), g_v(a, 26)); o.u(r as u32);  });
    e("BoundingBox::CreateMerged", false, &[K::B, K::B], |a, o| { let mut x0 = Guard::new(gar_B()); BoundingBox::CreateMerged(&mut x0.v, &g_B(a, 0), &g_B(a, 6)); x0.check(o); p_B(o, &x0.v); });
    e("BoundingBox::CreateFromSphere", false, &[K::S], |a, o| { let mut x0 = Guard::new(gar_B()); BoundingBox::CreateFromSphere(&mut x0.v, &g_S(a, 0)); x0.check(o); p_B(o, &x0.v); });
    e("BoundingBox::CreateFromPoints", false, &[K::PTS], |a, o| { let mut x0 = Guard::new(gar_B()); let pts = g_pts(a, 0); BoundingBox::CreateFromPoints(&mut x0.v, pts.iter()); x0.check(o); p_B(o, &x0.v); });
    e("BoundingOrientedBox::TransformMatrix", false, &[K::O, K::M], |a, o| { let me = g_O(a, 0); let mut x0 = Guard::new(gar_O()); me.TransformMatrix(&mut x0.v, g_m(a, 10)); x0.check(o); p_O(o, &x0.v); });
    e("BoundingOrientedBox::TransformDecomposed", false, &[K::O, K::POS, K::Q, K::G], |a, o| { let me = g_O(a, 0); let mut x0 = Guard::new(gar_O()); me.TransformDecomposed(&mut x0.v, g_f(a, 10), g_v(a, 11), g_v(a, 15)); x0.check(o); p_O(o, &x0.v); });
    e("BoundingOrientedBox::ContainsPoint", false, &[K::O, K::G], |a, o| { let me = g_O(a, 0); let r = me.ContainsPoint(g_v(a, 10)); o.u(r as u32);  });
    e("BoundingOrientedBox::ContainsTriangle", false, &[K::O, K::G, K::G, K::G], |a, o| { let me = g_O(a, 0); let r = me.ContainsTriangle(g_v(a, 10), g_v(a, 14), g_v(a, 18)); o.u(r as u32);  });
    e("BoundingOrientedBox::ContainsSphere", false, &[K::O, K::S], |a, o| { let me = g_O(a, 0); let r = me.ContainsSphere(&g_S(a, 10)); o.u(r as u32);  });
    e("BoundingOrientedBox::ContainsBox", false, &[K::O, K::B], |a, o| { let me = g_O(a, 0); let r = me.ContainsBox(&g_B(a, 10)); o.u(r as u32);  });
    e("BoundingOrientedBox::ContainsOrientedBox", false, &[K::O, K::O], |a, o| { let me = g_O(a, 0); let r = me.ContainsOrientedBox(&g_O(a, 10)); o.u(r as u32);  });
    e("BoundingOrientedBox::ContainsFrustum", false, &[K::O, K::R], |a, o| { let me = g_O(a, 0); let r = me.ContainsFrustum(&g_R(a, 10)); o.u(r as u32);  });
    e("BoundingOrientedBox::IntersectsSphere", false, &[K::O, K::S], |a, o| { let me = g_O(a, 0); let r = me.IntersectsSphere(&g_S(a, 10)); o.u(r as u32);  });
    e("BoundingOrientedBox::IntersectsBox", false, &[K::O, K::B], |a, o| { let me = g_O(a, 0); let r = me.IntersectsBox(&g_B(a, 10)); o.u(r as u32);  });
    e("BoundingOrientedBox::IntersectsOrientedBox", false, &[K::O, K::O], |a, o| { let me = g_O(a, 0); let r = me.IntersectsOrientedBox(&g_O(a, 10)); o.u(r as u32);  });
    e("BoundingOrientedBox::IntersectsFrustum", false, &[K::O, K::R], |a, o| { let me = g_O(a, 0); let r = me.IntersectsFrustum(&g_R(a, 10)); o.u(r as u32);  });
    e("BoundingOrientedBox::IntersectsTriangle", false, &[K::O, K::G, K::G, K::G], |a, o| { let me = g_O(a, 0); let r = me.IntersectsTriangle(g_v(a, 10), g_v(a, 14), g_v(a, 18)); o.u(r as u32);  });
    e("BoundingOrientedBox::IntersectsPlane", false, &[K::O, K::P], |a, o| { let me = g_O(a, 0); let r = me.IntersectsPlane(g_v(a, 10)); o.u(r as u32);  });
    e("BoundingOrientedBox::IntersectsRay", false, &[K::O, K::G, K::N3], |a, o| { let me = g_O(a, 0); let mut x2 = Guard::new(0f32); let r = me.IntersectsRay(g_v(a, 10), g_v(a, 14), &mut x2.v); o.u(r as u32); x2.check(o); o.f(x2.v); });
    e("BoundingOrientedBox::ContainedBy", false, &[K::O, K::P, K::P, K::P, K::P, K::P, K::P], |a, o| { let me = g_O(a, 0); let r = me.ContainedBy(g_v(a, 10), g_v(a, 14), g_v(a, 18), g_v(a, 22), g_v(a, 26), g_v(a, 30)); o.u(r as u32);  });
    e("BoundingOrientedBox::CreateFromBoundingBox", false, &[K::B], |a, o| { let mut x0 = Guard::new(gar_O()); BoundingOrientedBox::CreateFromBoundingBox(&mut x0.v, &g_B(a, 0)); x0.check(o); p_O(o, &x0.v); });
    e("BoundingOrientedBox::CreateFromPoints", false, &[K::PTS], |a, o| { let mut x0 = Guard::new(gar_O()); let pts = g_pts(a, 0); BoundingOrientedBox::CreateFromPoints(&mut x0.v, pts.iter()); x0.check(o); p_O(o, &x0.v); });
    e("BoundingOrientedBox::GetCorners", false, &[K::O], |a, o| { let me = g_O(a, 0); let mut x0 = Guard::new([f3([0.0; 3]); 8]); me.GetCorners(&mut x0.v); x0.check(o); for k in 0..8 { let t = x0.v[k]; o.f(t.x); o.f(t.y); o.f(t.z); } });
    e("BoundingFrustum::TransformMatrix", false, &[K::R, K::M], |a, o| { let me = g_R(a, 0); let mut x0 = Guard::new(gar_R()); me.TransformMatrix(&mut x0.v, g_m(a, 13)); x0.check(o); p_R(o, &x0.v); });
    e("BoundingFrustum::TransformDecomposed", false, &[K::R, K::POS, K::Q, K::G], |a, o| { let me = g_R(a, 0); let mut x0 = Guard::new(gar_R()); me.TransformDecomposed(&mut x0.v, g_f(a, 13), g_v(a, 14), g_v(a, 18)); x0.check(o); p_R(o, &x0.v); });
    e("BoundingFrustum::ContainsPoint", false, &[K::R, K::G], |a, o| { let me = g_R(a, 0); let r = me.ContainsPoint(g_v(a, 13)); o.u(r as u32);  });
    e("BoundingFrustum::ContainsTriangle", false, &[K::R, K::G, K::G, K::G], |a, o| { let me = g_R(a, 0); let r = me.ContainsTriangle(g_v(a, 13), g_v(a, 17), g_v(a, 21)); o.u(r as u32);  });
    e("BoundingFrustum::ContainsSphere", false, &[K::R, K::S], |a, o| { let me = g_R(a, 0); let r = me.ContainsSphere(&g_S(a, 13)); o.u(r as u32);  });
    e("BoundingFrustum::ContainsBox", false, &[K::R, K::B], |a, o| { let me = g_R(a, 0); let r = me.ContainsBox(&g_B(a, 13)); o.u(r as u32);  });
    e("BoundingFrustum::ContainsOrientedBox", false, &[K::R, K::O], |a, o| { let me = g_R(a, 0); let r = me.ContainsOrientedBox(&g_O(a, 13)); o.u(r as u32);  });
    e("BoundingFrustum::ContainsFrustum", false, &[K::R, K::R], |a, o| { let me = g_R(a, 0); let r = me.ContainsFrustum(&g_R(a, 13)); o.u(r as u32);  });
    e("BoundingFrustum::IntersectsSphere", false, &[K::R, K::S], |a, o| { let me = g_R(a, 0); let r = me.IntersectsSphere(&g_S(a, 13)); o.u(r as u32);  });
    e("BoundingFrustum::IntersectsBox", false, &[K::R, K::B], |a, o| { let me = g_R(a, 0); let r = me.IntersectsBox(&g_B(a, 13)); o.u(r as u32);  });
    e("BoundingFrustum::IntersectsOrientedBox", false, &[K::R, K::O], |a, o| { let me = g_R(a, 0); let r = me.IntersectsOrientedBox(&g_O(a, 13)); o.u(r as u32);  });
    e("BoundingFrustum::IntersectsFrustum", false, &[K::R, K::R], |a, o| { let me = g_R(a, 0); let r = me.IntersectsFrustum(&g_R(a, 13)); o.u(r as u32);  });
    e("BoundingFrustum::IntersectsTriangle", false, &[K::R, K::G, K::G, K::G], |a, o| { let me = g_R(a, 0); let r = me.IntersectsTriangle(g_v(a, 13), g_v(a, 17), g_v(a, 21)); o.u(r as u32);  });
    e("BoundingFrustum::IntersectsPlane", false, &[K::R, K::P], |a, o| { let me = g_R(a, 0); let r = me.IntersectsPlane(g_v(a, 13)); o.u(r as u32);  });
    e("BoundingFrustum::IntersectsRay", false, &[K::R, K::G, K::N3], |a, o| { let me = g_R(a, 0); let mut x2 = Guard::new(0f32); let r = me.IntersectsRay(g_v(a, 13), g_v(a, 17), &mut x2.v); o.u(r as u32); x2.check(o); o.f(x2.v); });
    e("BoundingFrustum::ContainedBy", false, &[K::R, K::P, K::P, K::P, K::P, K::P, K::P], |a, o| { let me = g_R(a, 0); let r = me.ContainedBy(g_v(a, 13), g_v(a, 17), g_v(a, 21), g_v(a, 25), g_v(a, 29), g_v(a, 33)); o.u(r as u32);  });
    e("BoundingFrustum::CreateFromMatrix", false, &[K::MP, K::I2], |a, o| { let mut x0 = Guard::new(gar_R()); BoundingFrustum::CreateFromMatrix(&mut x0.v, g_m(a, 0), a[16] != 0); x0.check(o); p_R(o, &x0.v); });
    e("BoundingFrustum::GetPlanes", false, &[K::R], |a, o| { let me = g_R(a, 0); let mut x0 = Guard::new(vu([0; 4])); let mut x1 = Guard::new(vu([0; 4])); let mut x2 = Guard::new(vu([0; 4])); let mut x3 = Guard::new(vu([0; 4])); let mut x4 = Guard::new(vu([0; 4])); let mut x5 = Guard::new(vu([0; 4])); me.GetPlanes(Some(&mut x0.v), Some(&mut x1.v), Some(&mut x2.v), Some(&mut x3.v), Some(&mut x4.v), Some(&mut x5.v)); x0.check(o); { let t = x0.v; o.v(t); } x1.check(o); { let t = x1.v; o.v(t); } x2.check(o); { let t = x2.v; o.v(t); } x3.check(o); { let t = x3.v; o.v(t); } x4.check(o); { let t = x4.v; o.v(t); } x5.check(o); { let t = x5.v; o.v(t); } });
    e("BoundingFrustum::GetCorners", false, &[K::R], |a, o| { let me = g_R(a, 0); let mut x0 = Guard::new([f3([0.0; 3]); 8]); me.GetCorners(&mut x0.v); x0.check(o); for k in 0..8 { let t = x0.v[k]; o.f(t.x); o.f(t.y); o.f(t.z); } });
    e("triangle_tests::IntersectsRay", false, &[K::G, K::N3, K::G, K::G, K::G], |a, o| { let mut x5 = Guard::new(0f32); let r = triangle_tests::IntersectsRay(g_v(a, 0), g_v(a, 4), g_v(a, 8), g_v(a, 12), g_v(a, 16), &mut x5.v); o.u(r as u32); x5.check(o); o.f(x5.v); });
    e("triangle_tests::IntersectsTriangle", false, &[K::G, K::G, K::G, K::G, K::G, K::G], |a, o| {  let r = triangle_tests::IntersectsTriangle(g_v(a, 0), g_v(a, 4), g_v(a, 8), g_v(a, 12), g_v(a, 16), g_v(a, 20)); o.u(r as u32);  });
    e("triangle_tests::IntersectsPlane", false, &[K::G, K::G, K::G, K::P], |a, o| {  let r = triangle_tests::IntersectsPlane(g_v(a, 0), g_v(a, 4), g_v(a, 8), g_v(a, 12)); o.u(r as u32);  });
    e("triangle_tests::ContainedBy", false, &[K::G, K::G, K::G, K::P, K::P, K::P, K::P, K::P, K::P], |a, o| {  let r = triangle_tests::ContainedBy(g_v(a, 0), g_v(a, 4), g_v(a, 8), g_v(a, 12), g_v(a, 16), g_v(a, 20), &g_v(a, 24), &g_v(a, 28), &g_v(a, 32)); o.u(r as u32);  });
    // operators of the XMVector / XMMatrix wrappers
    e("XMVector + XMVector", false, &[K::V, K::V], |a, o| o.v((XMVector(g_v(a, 0)) + XMVector(g_v(a, 4))).0));
    e("XMVector - XMVector", false, &[K::V, K::V], |a, o| o.v((XMVector(g_v(a, 0)) - XMVector(g_v(a, 4))).0));
    e("XMVector * XMVector", false, &[K::V, K::V], |a, o| o.v((XMVector(g_v(a, 0)) * XMVector(g_v(a, 4))).0));
    e("XMVector / XMVector", false, &[K::V, K::V], |a, o| o.v((XMVector(g_v(a, 0)) / XMVector(g_v(a, 4))).0));
    e("XMVector += XMVector", false, &[K::V, K::V], |a, o| { let mut x = XMVector(g_v(a, 0)); x += XMVector(g_v(a, 4)); o.v(x.0) });
    e("XMVector -= XMVector", false, &[K::V, K::V], |a, o| { let mut x = XMVector(g_v(a, 0)); x -= XMVector(g_v(a, 4)); o.v(x.0) });
    e("XMVector *= XMVector", false, &[K::V, K::V], |a, o| { let mut x = XMVector(g_v(a, 0)); x *= XMVector(g_v(a, 4)); o.v(x.0) });
    e("XMVector /= XMVector", false, &[K::V, K::V], |a, o| { let mut x = XMVector(g_v(a, 0)); x /= XMVector(g_v(a, 4)); o.v(x.0) });
    e("f32 * XMVector", false, &[K::F, K::V], |a, o| o.v((g_f(a, 0) * XMVector(g_v(a, 1))).0));
    e("XMVector * f32", false, &[K::F, K::V], |a, o| o.v((XMVector(g_v(a, 1)) * g_f(a, 0)).0));
    e("XMVector *= f32", false, &[K::F, K::V], |a, o| { let mut x = XMVector(g_v(a, 1)); x *= g_f(a, 0); o.v(x.0) });
    e("XMVector / f32", false, &[K::F, K::V], |a, o| o.v((XMVector(g_v(a, 1)) / g_f(a, 0)).0));
    e("XMVector /= f32", false, &[K::F, K::V], |a, o| { let mut x = XMVector(g_v(a, 1)); x /= g_f(a, 0); o.v(x.0) });
    e("-XMVector", false, &[K::V], |a, o| o.v((-XMVector(g_v(a, 0))).0));
    e("XMVector == XMVector", false, &[K::V, K::V], |a, o| o.u((XMVector(g_v(a, 0)) == XMVector(g_v(a, 4))) as u32));
    e("XMVector Debug", false, &[K::V], |a, o| for b in format!("{:?}", XMVector(g_v(a, 0))).bytes() { o.u(b as u32) });
    e("XMVector::set", false, &[K::U], |a, o| o.v(XMVector::set(g_f(a, 0), g_f(a, 1), g_f(a, 2), g_f(a, 3)).0));
    e("XMMatrix + XMMatrix", false, &[K::M, K::M], |a, o| o.m((XMMatrix(g_m(a, 0)) + XMMatrix(g_m(a, 16))).0));
    e("XMMatrix - XMMatrix", false, &[K::M, K::M], |a, o| o.m((XMMatrix(g_m(a, 0)) - XMMatrix(g_m(a, 16))).0));
    e("XMMatrix * XMMatrix", false, &[K::M, K::M], |a, o| o.m((XMMatrix(g_m(a, 0)) * XMMatrix(g_m(a, 16))).0));
    e("XMMatrix += XMMatrix", false, &[K::M, K::M], |a, o| { let mut x = XMMatrix(g_m(a, 0)); x += XMMatrix(g_m(a, 16)); o.m(x.0) });
    e("XMMatrix -= XMMatrix", false, &[K::M, K::M], |a, o| { let mut x = XMMatrix(g_m(a, 0)); x -= XMMatrix(g_m(a, 16)); o.m(x.0) });
    e("XMMatrix *= XMMatrix", false, &[K::M, K::M], |a, o| { let mut x = XMMatrix(g_m(a, 0)); x *= XMMatrix(g_m(a, 16)); o.m(x.0) });
    e("f32 * XMMatrix", false, &[K::F, K::M], |a, o| o.m((g_f(a, 0) * XMMatrix(g_m(a, 1))).0));
    e("XMMatrix * f32", false, &[K::F, K::M], |a, o| o.m((XMMatrix(g_m(a, 1)) * g_f(a, 0)).0));
    e("XMMatrix *= f32", false, &[K::F, K::M], |a, o| { let mut x = XMMatrix(g_m(a, 1)); x *= g_f(a, 0); o.m(x.0) });
    e("XMMatrix / f32", false, &[K::F, K::M], |a, o| o.m((XMMatrix(g_m(a, 1)) / g_f(a, 0)).0));
    e("XMMatrix /= f32", false, &[K::F, K::M], |a, o| { let mut x = XMMatrix(g_m(a, 1)); x /= g_f(a, 0); o.m(x.0) });
    e("-XMMatrix", false, &[K::M], |a, o| o.m((-XMMatrix(g_m(a, 0))).0));
    e("XMMatrix == XMMatrix", false, &[K::M, K::M], |a, o| o.u((XMMatrix(g_m(a, 0)) == XMMatrix(g_m(a, 16))) as u32));
    e("XMMatrix Debug", false, &[K::M], |a, o| for b in format!("{:?}", XMMatrix(g_m(a, 0))).bytes() { o.u(b as u32) });
    list
}

fn b(v: &[f32]) -> Vec<u32> {
    v.iter().map(|x| x.to_bits()).collect()
}
fn bs(v: &[&[f32]]) -> Vec<Vec<u32>> {
    v.iter().map(|x| b(x)).collect()
}
fn nrm(v: &[f64], extra: &[f32]) -> Vec<u32> {
    let n = v.iter().map(|x| x * x).sum::<f64>().sqrt();
    let mut r: Vec<f32> = v.iter().map(|x| (x / n) as f32).collect();
    r.extend_from_slice(extra);
    b(&r)
}
fn mrows(m: &DM) -> Vec<u32> {
    m.iter().flatten().map(|x| (*x as f32).to_bits()).collect()
}

/// Ordinary values for an operand of this kind, in general position (no accidental ties or tangencies).
pub fn menu(k: K) -> Vec<Vec<u32>> {
    use refm::*;
    match k {
        K::V => {
            let mut r = vec![];
            let cols: [&[f32]; 4] = [&[0.37, -1.21, 5.75], &[-0.83, 2.63], &[1.47, -3.91], &[0.59, -2.27]];
            for x in cols[0] { for y in cols[1] { for z in cols[2] { for w in cols[3] { r.push(b(&[*x, *y, *z, *w])); } } } }
            r.extend(bs(&[&[0.0; 4], &[1.0, 0.0, 0.0, 0.0], &[0.0, 2.0, 0.0, -1.0], &[1.0, 1.0, 1.0, 1.0], &[40.5, -17.25, 0.0625, 3.0], &[-6.5, 6.5, 2.5, -2.5], &[0.01, 0.02, -0.03, 0.04]]));
            r
        }
        K::G => (0..14).map(|i| {
            // scrambled coordinates: no coincidences, no four coplanar points
            let w = |k: u64| { let mut z = (i as u64 * 4 + k + 1).wrapping_mul(0x9E3779B97F4A7C15); z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z ^= z >> 27; ((z >> 40) as f64 / 16777216.0 * 7.0 - 3.5) as f32 };
            b(&[w(0), w(1), w(2), w(3)])
        }).collect(),
        K::U => {
            let mut r = vec![];
            for (i, x) in dom::TAGS.iter().enumerate() { r.push(x.to_vec()); r.push(x.iter().rev().map(|t| t ^ i as u32).collect()); }
            for p in dom::patterns() { r.push(vec![p, !p, p.rotate_left(7), p.wrapping_mul(3)]); }
            r.extend(bs(&[&[1.0, 1.0, 1.0, 1.0], &[1.5, -2.5, 0.0, -0.0]]));
            r.extend([vec![0, 0, 0, 0], vec![u32::MAX; 4], vec![u32::MAX, 0, u32::MAX, 0], vec![0, 0, u32::MAX, u32::MAX]]);
            r
        }
        K::Q => {
            let mut r = vec![b(&[0.0, 0.0, 0.0, 1.0])];
            for x in [-0.7, 0.13, 0.9] { for y in [-0.31, 0.55] { for z in [-0.9, 0.27] { for w in [-0.45, 0.21, 1.3] { r.push(nrm(&[x, y, z, w], &[])); } } } }
            r
        }
        K::N2 => (0..19).map(|i| { let t = 0.17 + 0.33 * i as f64; nrm(&[t.cos(), t.sin()], &[0.3, -0.7]) }).collect(),
        K::N3 => {
            let mut r = vec![];
            for x in [-0.7, 0.13, 0.9] { for y in [-0.31, 0.55, 1.7] { for z in [-0.9, 0.27] { r.push(nrm(&[x, y, z], &[0.4])); } } }
            r
        }
        K::N4 => {
            let mut r = vec![];
            for x in [-0.7, 0.13, 0.9] { for y in [-0.31, 0.55] { for z in [-0.9, 0.27] { for w in [-0.41, 0.63] { r.push(nrm(&[x, y, z, w], &[])); } } } }
            r
        }
        K::P => {
            let mut r = vec![];
            for x in [-0.7, 0.13, 0.9] { for y in [-0.31, 0.55] { for z in [-0.9, 0.27] { for d in [-2.3f32, 0.17, 1.9] { r.push(nrm(&[x, y, z], &[d])); } } } }
            r
        }
        K::A => {
            let mut r = vec![];
            for x in [-6.1f32, -3.3, -1.2, 0.21, 0.9, 2.2, 4.4, 9.7] { for y in [-2.9f32, 0.3, 3.6] { r.push(b(&[x, y, x - y, 0.5 * (x + y)])); } }
            r
        }
        K::T => bs(&[&[0.25, 0.5, 0.75, 0.9], &[0.0; 4], &[1.0; 4], &[-0.3, 1.3, 0.1, 0.6], &[0.31; 4]]),
        K::TR => bs(&[&[0.25; 4], &[0.0; 4], &[1.0; 4], &[0.6; 4], &[0.31; 4]]),
        K::VPOS => bs(&[&[0.5, 1.5, 2.5, 0.7], &[3.3, 0.9, 1.1, 6.1], &[1.0; 4], &[0.05, 0.01, 2.0, 9.0], &[8.0, 8.0, 8.0, 8.0]]),
        K::VUNIT => {
            let mut r = vec![];
            for x in [-0.97f32, -0.6, -0.31, 0.02, 0.44, 0.71, 0.99] { for y in [-0.83f32, 0.17, 0.52] { r.push(b(&[x, y, -x, 0.5 * (x + y)])); } }
            r
        }
        K::VRI => bs(&[&[0.65; 4], &[0.9; 4], &[1.33; 4], &[1.7; 4], &[0.5, 0.8, 0.6, 0.7], &[0.9, 0.4, 0.8, 0.3], &[0.3, 0.95, 0.5, 0.9]]),
        K::VLMIN => bs(&[&[0.5; 4], &[1.1; 4], &[0.05; 4]]),
        K::VLMAX => bs(&[&[1.3; 4], &[4.7; 4], &[90.0; 4]]),
        K::M => {
            let mut r = vec![];
            for (i, s) in [[1.0, 1.0, 1.0], [2.0, 0.5, 1.5], [0.3, 3.0, 1.0]].iter().enumerate() {
                for (j, q) in [[0.0, 0.0, 0.0, 1.0], [0.3, -0.5, 0.7, 0.2], [-0.6, 0.1, 0.2, 0.75], [0.9, 0.3, -0.1, -0.3]].iter().enumerate() {
                    let t = [[0.0, 0.0, 0.0], [3.1, -1.7, 0.6], [-20.3, 4.9, 7.7]][(i + j) % 3];
                    r.push(mrows(&chain(&[scal(*s), qmat(qnorm(*q)), trans(t)])));
                }
            }
            r.push(mrows(&[[1.3, 0.2, -0.7, 0.4], [0.1, -2.2, 0.9, 0.3], [0.6, 0.8, 1.9, -0.5], [-0.9, 0.35, 0.15, 2.6]]));
            r.push(mrows(&[[0.2, 1.1, 0.3, 0.0], [1.4, -0.2, 0.6, 0.0], [0.5, 0.7, -1.3, 0.0], [2.0, 3.0, -4.0, 1.0]]));
            r
        }
        K::MP => vec![
            mrows(&[[1.2, 0.0, 0.0, 0.0], [0.0, 1.7, 0.0, 0.0], [0.0, 0.0, 1.01, 1.0], [0.0, 0.0, -0.505, 0.0]]),
            mrows(&[[0.8, 0.0, 0.0, 0.0], [0.0, 1.1, 0.0, 0.0], [0.2, -0.3, -1.25, -1.0], [0.0, 0.0, -1.25, 0.0]]),
        ],
        K::F => bs(&[&[0.37], &[-1.21], &[5.75], &[2.0], &[-0.03], &[1.0]]),
        K::W => dom::patterns().iter().map(|x| vec![*x]).collect(),
        K::ANG => bs(&[&[0.0], &[0.21], &[0.9], &[2.2], &[-1.3], &[-2.8], &[4.4], &[-7.7]]),
        K::FT => bs(&[&[0.0], &[0.25], &[0.61], &[1.0], &[1.4], &[-0.2]]),
        K::FUNIT => (0..40).map(|i| b(&[-0.98 + 0.05 * i as f32])).collect(),
        K::POS => bs(&[&[0.7], &[1.9], &[3.2], &[640.0]]),
        K::NEG => bs(&[&[-0.6], &[-1.7], &[-3.1]]),
        K::NEAR => bs(&[&[0.5], &[1.3]]),
        K::FAR => bs(&[&[5.1], &[90.0], &[1000.0]]),
        K::FOV => bs(&[&[0.4], &[0.9], &[1.8]]),
        K::LMIN => bs(&[&[0.5], &[1.1], &[0.05]]),
        K::LMAX => bs(&[&[1.3], &[4.7], &[90.0]]),
        K::RI => bs(&[&[0.65], &[0.9], &[1.33], &[1.7]]),
        K::Z0 => bs(&[&[0.0], &[0.1]]),
        K::ONE => bs(&[&[1.0], &[0.9]]),
        K::H => (0..=u16::MAX as u32).step_by(53).map(|x| vec![x]).collect(),
        K::I2 => (0..2).map(|x| vec![x]).collect(),
        K::I4 => (0..4).map(|x| vec![x]).collect(),
        K::I8 => (0..8).map(|x| vec![x]).collect(),
        K::EXP => [0, 1, 7, 16, 31].iter().map(|x| vec![*x]).collect(),
        K::S => bs(&[&[0.0, 0.0, 0.0, 1.0], &[0.83, -0.41, 0.27, 0.77], &[-1.9, 0.3, 2.1, 1.3], &[4.2, 3.1, -2.7, 0.6], &[0.1, 0.2, 0.3, 6.3]]),
        K::B => bs(&[&[0.0, 0.0, 0.0, 1.0, 2.0, 0.5], &[0.83, -0.41, 0.27, 0.77, 0.31, 1.13], &[-1.9, 0.3, 2.1, 1.3, 0.7, 0.9], &[4.2, 3.1, -2.7, 0.6, 0.5, 0.4], &[0.1, 0.2, 0.3, 6.3, 5.9, 7.1]]),
        K::O => {
            let mut r = vec![];
            for (i, e) in menu(K::B).into_iter().enumerate() { for j in [1, 9, 20] { let mut e = e.clone(); let qm = menu(K::Q); e.extend(&qm[(i * 5 + j) % qm.len()]); r.push(e); } }
            r
        }
        K::R => {
            let mut r = vec![];
            let qm = menu(K::Q);
            for (i, o) in [[0.13f32, 0.21, -0.17], [1.7, -0.9, 0.4], [-3.1, 2.2, 1.6]].iter().enumerate() {
                for (j, s) in [[1.03f32, -0.97, 0.53, -0.49, 0.9, 3.1], [0.77, -0.23, 0.41, -1.07, 0.5, 2.3], [1.51, 0.27, 0.56, 0.12, 1.1, 2.2]].iter().enumerate() {
                    let mut e = b(o);
                    e.extend(&qm[(1 + 4 * i + 7 * j) % qm.len()]);
                    e.extend(b(s));
                    r.push(e);
                }
            }
            r
        }
        K::PTS => {
            let mut r = vec![];
            let v = menu(K::V);
            for i in 0..12 { let mut e = vec![]; for j in 0..5 { e.extend(&v[(i * 7 + j * 5) % v.len()][..3]); } r.push(e); }
            r
        }
    }
}
