//! Every public function behind one uniform signature: operand words in, result words out.
use mc::*;

/// What an operand means (decides which values it may take).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[allow(non_camel_case_types)]
pub enum K {
    /// vectors: arbitrary, points in general position, raw bits, unit quaternion, unit 2/3/4-vector, unit plane, angles, weights, positive, [-1,1]
    V, G, U, Q, N2, N3, N4, P, A, T, TR, VPOS, VUNIT, VRI, VLMIN, VLMAX,
    /// matrices: general invertible, projection
    M, MP,
    /// scalars
    F, W, ANG, FT, FUNIT, POS, NEG, NEAR, FAR, FOV, LMIN, LMAX, RI, Z0, ONE, H,
    I2, I4, I8, EXP,
    /// volumes
    S, B, O, R,
    PTS,
}
impl K {
    pub fn words(self) -> usize {
        match self {
            K::M | K::MP => 16,
            K::S => 4,
            K::B => 6,
            K::O => 10,
            K::R => 13,
            K::PTS => 15,
            K::V | K::G | K::U | K::Q | K::N2 | K::N3 | K::N4 | K::P | K::A | K::T | K::TR | K::VPOS | K::VUNIT | K::VRI | K::VLMIN | K::VLMAX => 4,
            _ => 1,
        }
    }
    /// the words are floats whose contents are unconstrained by any documented precondition
    pub fn free(self) -> bool {
        !matches!(self, K::I2 | K::I4 | K::I8 | K::EXP)
    }
}

/// Result collector: words and whether each is a float (compared numerically) or raw bits.
#[derive(Default)]
pub struct Out {
    pub w: Vec<u32>,
    pub float: Vec<bool>,
    pub corrupt: bool,
}
impl Out {
    pub fn clear(&mut self) {
        self.w.clear();
        self.float.clear();
        self.corrupt = false;
    }
    pub fn u(&mut self, x: u32) {
        self.w.push(x);
        self.float.push(false);
    }
    pub fn f(&mut self, x: f32) {
        self.w.push(x.to_bits());
        self.float.push(true);
    }
    pub fn v(&mut self, x: XMVECTOR) {
        for t in ub(x) {
            self.w.push(t);
            self.float.push(true);
        }
    }
    pub fn m(&mut self, x: XMMATRIX) {
        for r in mb(x) {
            for t in r {
                self.f(t);
            }
        }
    }
}

const CANARY: u64 = 0xC0DEC0DE_A5A55A5A;
/// An out-parameter between two guard zones.
#[repr(C, align(16))]
pub struct Guard<T> {
    a: [u64; 8],
    pub v: T,
    b: [u64; 8],
}
impl<T> Guard<T> {
    #[inline(always)]
    pub fn new(v: T) -> Self {
        Guard { a: [CANARY; 8], v, b: [CANARY; 8] }
    }
    #[inline(never)]
    pub fn check(&self, o: &mut Out) {
        for i in 0..8 {
            unsafe {
                if std::ptr::read_volatile(&self.a[i]) != CANARY || std::ptr::read_volatile(&self.b[i]) != CANARY {
                    o.corrupt = true;
                }
            }
        }
    }
}

fn g_f(a: &[u32], i: usize) -> f32 {
    f32::from_bits(a[i])
}
fn g_v(a: &[u32], i: usize) -> XMVECTOR {
    vu([a[i], a[i + 1], a[i + 2], a[i + 3]])
}
fn g_3(a: &[u32], i: usize) -> XMFLOAT3 {
    f3([g_f(a, i), g_f(a, i + 1), g_f(a, i + 2)])
}
fn g_4(a: &[u32], i: usize) -> XMFLOAT4 {
    XMFLOAT4 { x: g_f(a, i), y: g_f(a, i + 1), z: g_f(a, i + 2), w: g_f(a, i + 3) }
}
fn g_m(a: &[u32], i: usize) -> XMMATRIX {
    let mut m = [[0f32; 4]; 4];
    for r in 0..4 {
        for c in 0..4 {
            m[r][c] = g_f(a, i + 4 * r + c);
        }
    }
    mf(m)
}
fn g_S(a: &[u32], i: usize) -> BoundingSphere {
    BoundingSphere { Center: g_3(a, i), Radius: g_f(a, i + 3) }
}
fn g_B(a: &[u32], i: usize) -> BoundingBox {
    BoundingBox { Center: g_3(a, i), Extents: g_3(a, i + 3) }
}
fn g_O(a: &[u32], i: usize) -> BoundingOrientedBox {
    BoundingOrientedBox { Center: g_3(a, i), Extents: g_3(a, i + 3), Orientation: g_4(a, i + 6) }
}
fn g_R(a: &[u32], i: usize) -> BoundingFrustum {
    BoundingFrustum {
        Origin: g_3(a, i), Orientation: g_4(a, i + 3), RightSlope: g_f(a, i + 7), LeftSlope: g_f(a, i + 8), TopSlope: g_f(a, i + 9),
        BottomSlope: g_f(a, i + 10), Near: g_f(a, i + 11), Far: g_f(a, i + 12),
    }
}
fn g_pts(a: &[u32], i: usize) -> [XMFLOAT3; 5] {
    [g_3(a, i), g_3(a, i + 3), g_3(a, i + 6), g_3(a, i + 9), g_3(a, i + 12)]
}
fn gar_S() -> BoundingSphere {
    g_S(&[0; 4], 0)
}
fn gar_B() -> BoundingBox {
    g_B(&[0; 6], 0)
}
fn gar_O() -> BoundingOrientedBox {
    g_O(&[0; 10], 0)
}
fn gar_R() -> BoundingFrustum {
    g_R(&[0; 13], 0)
}
fn p_3(o: &mut Out, x: &XMFLOAT3) {
    for t in [x.x, x.y, x.z] {
        o.f(t);
    }
}
fn p_4(o: &mut Out, x: &XMFLOAT4) {
    for t in [x.x, x.y, x.z, x.w] {
        o.f(t);
    }
}
fn p_S(o: &mut Out, x: &BoundingSphere) {
    p_3(o, &x.Center);
    o.f(x.Radius);
}
fn p_B(o: &mut Out, x: &BoundingBox) {
    p_3(o, &x.Center);
    p_3(o, &x.Extents);
}
fn p_O(o: &mut Out, x: &BoundingOrientedBox) {
    p_3(o, &x.Center);
    p_3(o, &x.Extents);
    p_4(o, &x.Orientation);
}
fn p_R(o: &mut Out, x: &BoundingFrustum) {
    p_3(o, &x.Origin);
    p_4(o, &x.Orientation);
    for t in [x.RightSlope, x.LeftSlope, x.TopSlope, x.BottomSlope, x.Near, x.Far] {
        o.f(t);
    }
}

pub struct Entry {
    pub name: &'static str,
    /// results are bit patterns (data movement, masks), not numbers
    pub bits: bool,
    pub args: &'static [K],
    pub call: fn(&[u32], &mut Out),
}

pub fn all() -> Vec<Entry> {
    let mut list: Vec<Entry> = vec![];
    let mut e = |name: &'static str, bits: bool, args: &'static [K], call: fn(&[u32], &mut Out)| list.push(Entry { name, bits, args, call });
/*ENTRIES*/
    // operators of the XMVector / XMMatrix wrappers
    e("XMVector + XMVector", false, &[K::V, K::V], |a, o| o.v((XMVector(g_v(a, 0)) + XMVector(g_v(a, 4))).0));
    e("XMVector - XMVector", false, &[K::V, K::V], |a, o| o.v((XMVector(g_v(a, 0)) - XMVector(g_v(a, 4))).0));
    e("XMVector * XMVector", false, &[K::V, K::V], |a, o| o.v((XMVector(g_v(a, 0)) * XMVector(g_v(a, 4))).0));
    e("XMVector / XMVector", false, &[K::V, K::V], |a, o| o.v((XMVector(g_v(a, 0)) / XMVector(g_v(a, 4))).0));
    e("XMVector += XMVector", false, &[K::V, K::V], |a, o| { let mut x = XMVector(g_v(a, 0)); x += XMVector(g_v(a, 4)); o.v(x.0) });
    e("XMVector -= XMVector", false, &[K::V, K::V], |a, o| { let mut x = XMVector(g_v(a, 0)); x -= XMVector(g_v(a, 4)); o.v(x.0) });
    e("XMVector *= XMVector", false, &[K::V, K::V], |a, o| { let mut x = XMVector(g_v(a, 0)); x *= XMVector(g_v(a, 4)); o.v(x.0) });
    e("XMVector /= XMVector", false, &[K::V, K::V], |a, o| { let mut x = XMVector(g_v(a, 0)); x /= XMVector(g_v(a, 4)); o.v(x.0) });
    e("f32 * XMVector", false, &[K::F, K::V], |a, o| o.v((g_f(a, 0) * XMVector(g_v(a, 1))).0));
    e("XMVector * f32", false, &[K::F, K::V], |a, o| o.v((XMVector(g_v(a, 1)) * g_f(a, 0)).0));
    e("XMVector *= f32", false, &[K::F, K::V], |a, o| { let mut x = XMVector(g_v(a, 1)); x *= g_f(a, 0); o.v(x.0) });
    e("XMVector / f32", false, &[K::F, K::V], |a, o| o.v((XMVector(g_v(a, 1)) / g_f(a, 0)).0));
    e("XMVector /= f32", false, &[K::F, K::V], |a, o| { let mut x = XMVector(g_v(a, 1)); x /= g_f(a, 0); o.v(x.0) });
    e("-XMVector", false, &[K::V], |a, o| o.v((-XMVector(g_v(a, 0))).0));
    e("XMVector == XMVector", false, &[K::V, K::V], |a, o| o.u((XMVector(g_v(a, 0)) == XMVector(g_v(a, 4))) as u32));
    e("XMVector Debug", false, &[K::V], |a, o| for b in format!("{:?}", XMVector(g_v(a, 0))).bytes() { o.u(b as u32) });
    e("XMVector::set", false, &[K::U], |a, o| o.v(XMVector::set(g_f(a, 0), g_f(a, 1), g_f(a, 2), g_f(a, 3)).0));
    e("XMMatrix + XMMatrix", false, &[K::M, K::M], |a, o| o.m((XMMatrix(g_m(a, 0)) + XMMatrix(g_m(a, 16))).0));
    e("XMMatrix - XMMatrix", false, &[K::M, K::M], |a, o| o.m((XMMatrix(g_m(a, 0)) - XMMatrix(g_m(a, 16))).0));
    e("XMMatrix * XMMatrix", false, &[K::M, K::M], |a, o| o.m((XMMatrix(g_m(a, 0)) * XMMatrix(g_m(a, 16))).0));
    e("XMMatrix += XMMatrix", false, &[K::M, K::M], |a, o| { let mut x = XMMatrix(g_m(a, 0)); x += XMMatrix(g_m(a, 16)); o.m(x.0) });
    e("XMMatrix -= XMMatrix", false, &[K::M, K::M], |a, o| { let mut x = XMMatrix(g_m(a, 0)); x -= XMMatrix(g_m(a, 16)); o.m(x.0) });
    e("XMMatrix *= XMMatrix", false, &[K::M, K::M], |a, o| { let mut x = XMMatrix(g_m(a, 0)); x *= XMMatrix(g_m(a, 16)); o.m(x.0) });
    e("f32 * XMMatrix", false, &[K::F, K::M], |a, o| o.m((g_f(a, 0) * XMMatrix(g_m(a, 1))).0));
    e("XMMatrix * f32", false, &[K::F, K::M], |a, o| o.m((XMMatrix(g_m(a, 1)) * g_f(a, 0)).0));
    e("XMMatrix *= f32", false, &[K::F, K::M], |a, o| { let mut x = XMMatrix(g_m(a, 1)); x *= g_f(a, 0); o.m(x.0) });
    e("XMMatrix / f32", false, &[K::F, K::M], |a, o| o.m((XMMatrix(g_m(a, 1)) / g_f(a, 0)).0));
    e("XMMatrix /= f32", false, &[K::F, K::M], |a, o| { let mut x = XMMatrix(g_m(a, 1)); x /= g_f(a, 0); o.m(x.0) });
    e("-XMMatrix", false, &[K::M], |a, o| o.m((-XMMatrix(g_m(a, 0))).0));
    e("XMMatrix == XMMatrix", false, &[K::M, K::M], |a, o| o.u((XMMatrix(g_m(a, 0)) == XMMatrix(g_m(a, 16))) as u32));
    e("XMMatrix Debug", false, &[K::M], |a, o| for b in format!("{:?}", XMMatrix(g_m(a, 0))).bytes() { o.u(b as u32) });
    list
}

fn b(v: &[f32]) -> Vec<u32> {
    v.iter().map(|x| x.to_bits()).collect()
}
fn bs(v: &[&[f32]]) -> Vec<Vec<u32>> {
    v.iter().map(|x| b(x)).collect()
}
fn nrm(v: &[f64], extra: &[f32]) -> Vec<u32> {
    let n = v.iter().map(|x| x * x).sum::<f64>().sqrt();
    let mut r: Vec<f32> = v.iter().map(|x| (x / n) as f32).collect();
    r.extend_from_slice(extra);
    b(&r)
}
fn mrows(m: &DM) -> Vec<u32> {
    m.iter().flatten().map(|x| (*x as f32).to_bits()).collect()
}

/// Ordinary values for an operand of this kind, in general position (no accidental ties or tangencies).
pub fn menu(k: K) -> Vec<Vec<u32>> {
    use refm::*;
    match k {
        K::V => {
            let mut r = vec![];
            let cols: [&[f32]; 4] = [&[0.37, -1.21, 5.75], &[-0.83, 2.63], &[1.47, -3.91], &[0.59, -2.27]];
            for x in cols[0] { for y in cols[1] { for z in cols[2] { for w in cols[3] { r.push(b(&[*x, *y, *z, *w])); } } } }
            r.extend(bs(&[&[0.0; 4], &[1.0, 0.0, 0.0, 0.0], &[0.0, 2.0, 0.0, -1.0], &[1.0, 1.0, 1.0, 1.0], &[40.5, -17.25, 0.0625, 3.0], &[-6.5, 6.5, 2.5, -2.5], &[0.01, 0.02, -0.03, 0.04]]));
            r
        }
        K::G => (0..14).map(|i| {
            // scrambled coordinates: no coincidences, no four coplanar points
            let w = |k: u64| { let mut z = (i as u64 * 4 + k + 1).wrapping_mul(0x9E3779B97F4A7C15); z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z ^= z >> 27; ((z >> 40) as f64 / 16777216.0 * 7.0 - 3.5) as f32 };
            b(&[w(0), w(1), w(2), w(3)])
        }).collect(),
        K::U => {
            let mut r = vec![];
            for (i, x) in dom::TAGS.iter().enumerate() { r.push(x.to_vec()); r.push(x.iter().rev().map(|t| t ^ i as u32).collect()); }
            for p in dom::patterns() { r.push(vec![p, !p, p.rotate_left(7), p.wrapping_mul(3)]); }
            r.extend(bs(&[&[1.0, 1.0, 1.0, 1.0], &[1.5, -2.5, 0.0, -0.0]]));
            r.extend([vec![0, 0, 0, 0], vec![u32::MAX; 4], vec![u32::MAX, 0, u32::MAX, 0], vec![0, 0, u32::MAX, u32::MAX]]);
            r
        }
        K::Q => {
            let mut r = vec![b(&[0.0, 0.0, 0.0, 1.0])];
            for x in [-0.7, 0.13, 0.9] { for y in [-0.31, 0.55] { for z in [-0.9, 0.27] { for w in [-0.45, 0.21, 1.3] { r.push(nrm(&[x, y, z, w], &[])); } } } }
            r
        }
        K::N2 => (0..19).map(|i| { let t = 0.17 + 0.33 * i as f64; nrm(&[t.cos(), t.sin()], &[0.3, -0.7]) }).collect(),
        K::N3 => {
            let mut r = vec![];
            for x in [-0.7, 0.13, 0.9] { for y in [-0.31, 0.55, 1.7] { for z in [-0.9, 0.27] { r.push(nrm(&[x, y, z], &[0.4])); } } }
            r
        }
        K::N4 => {
            let mut r = vec![];
            for x in [-0.7, 0.13, 0.9] { for y in [-0.31, 0.55] { for z in [-0.9, 0.27] { for w in [-0.41, 0.63] { r.push(nrm(&[x, y, z, w], &[])); } } } }
            r
        }
        K::P => {
            let mut r = vec![];
            for x in [-0.7, 0.13, 0.9] { for y in [-0.31, 0.55] { for z in [-0.9, 0.27] { for d in [-2.3f32, 0.17, 1.9] { r.push(nrm(&[x, y, z], &[d])); } } } }
            r
        }
        K::A => {
            let mut r = vec![];
            for x in [-6.1f32, -3.3, -1.2, 0.21, 0.9, 2.2, 4.4, 9.7] { for y in [-2.9f32, 0.3, 3.6] { r.push(b(&[x, y, x - y, 0.5 * (x + y)])); } }
            r
        }
        K::T => bs(&[&[0.25, 0.5, 0.75, 0.9], &[0.0; 4], &[1.0; 4], &[-0.3, 1.3, 0.1, 0.6], &[0.31; 4]]),
        K::TR => bs(&[&[0.25; 4], &[0.0; 4], &[1.0; 4], &[0.6; 4], &[0.31; 4]]),
        K::VPOS => bs(&[&[0.5, 1.5, 2.5, 0.7], &[3.3, 0.9, 1.1, 6.1], &[1.0; 4], &[0.05, 0.01, 2.0, 9.0], &[8.0, 8.0, 8.0, 8.0]]),
        K::VUNIT => {
            let mut r = vec![];
            for x in [-0.97f32, -0.6, -0.31, 0.02, 0.44, 0.71, 0.99] { for y in [-0.83f32, 0.17, 0.52] { r.push(b(&[x, y, -x, 0.5 * (x + y)])); } }
            r
        }
        K::VRI => bs(&[&[0.65; 4], &[0.9; 4], &[1.33; 4], &[1.7; 4]]),
        K::VLMIN => bs(&[&[0.5; 4], &[1.1; 4], &[0.05; 4]]),
        K::VLMAX => bs(&[&[1.3; 4], &[4.7; 4], &[90.0; 4]]),
        K::M => {
            let mut r = vec![];
            for (i, s) in [[1.0, 1.0, 1.0], [2.0, 0.5, 1.5], [0.3, 3.0, 1.0]].iter().enumerate() {
                for (j, q) in [[0.0, 0.0, 0.0, 1.0], [0.3, -0.5, 0.7, 0.2], [-0.6, 0.1, 0.2, 0.75], [0.9, 0.3, -0.1, -0.3]].iter().enumerate() {
                    let t = [[0.0, 0.0, 0.0], [3.1, -1.7, 0.6], [-20.3, 4.9, 7.7]][(i + j) % 3];
                    r.push(mrows(&chain(&[scal(*s), qmat(qnorm(*q)), trans(t)])));
                }
            }
            r.push(mrows(&[[1.3, 0.2, -0.7, 0.4], [0.1, -2.2, 0.9, 0.3], [0.6, 0.8, 1.9, -0.5], [-0.9, 0.35, 0.15, 2.6]]));
            r.push(mrows(&[[0.2, 1.1, 0.3, 0.0], [1.4, -0.2, 0.6, 0.0], [0.5, 0.7, -1.3, 0.0], [2.0, 3.0, -4.0, 1.0]]));
            r
        }
        K::MP => vec![
            mrows(&[[1.2, 0.0, 0.0, 0.0], [0.0, 1.7, 0.0, 0.0], [0.0, 0.0, 1.01, 1.0], [0.0, 0.0, -0.505, 0.0]]),
            mrows(&[[0.8, 0.0, 0.0, 0.0], [0.0, 1.1, 0.0, 0.0], [0.2, -0.3, -1.25, -1.0], [0.0, 0.0, -1.25, 0.0]]),
        ],
        K::F => bs(&[&[0.37], &[-1.21], &[5.75], &[2.0], &[-0.03], &[1.0]]),
        K::W => dom::patterns().iter().map(|x| vec![*x]).collect(),
        K::ANG => bs(&[&[0.0], &[0.21], &[0.9], &[2.2], &[-1.3], &[-2.8], &[4.4], &[-7.7]]),
        K::FT => bs(&[&[0.0], &[0.25], &[0.61], &[1.0], &[1.4], &[-0.2]]),
        K::FUNIT => (0..40).map(|i| b(&[-0.98 + 0.05 * i as f32])).collect(),
        K::POS => bs(&[&[0.7], &[1.9], &[3.2], &[640.0]]),
        K::NEG => bs(&[&[-0.6], &[-1.7], &[-3.1]]),
        K::NEAR => bs(&[&[0.5], &[1.3]]),
        K::FAR => bs(&[&[5.1], &[90.0], &[1000.0]]),
        K::FOV => bs(&[&[0.4], &[0.9], &[1.8]]),
        K::LMIN => bs(&[&[0.5], &[1.1], &[0.05]]),
        K::LMAX => bs(&[&[1.3], &[4.7], &[90.0]]),
        K::RI => bs(&[&[0.65], &[0.9], &[1.33], &[1.7]]),
        K::Z0 => bs(&[&[0.0], &[0.1]]),
        K::ONE => bs(&[&[1.0], &[0.9]]),
        K::H => (0..=u16::MAX as u32).step_by(53).map(|x| vec![x]).collect(),
        K::I2 => (0..2).map(|x| vec![x]).collect(),
        K::I4 => (0..4).map(|x| vec![x]).collect(),
        K::I8 => (0..8).map(|x| vec![x]).collect(),
        K::EXP => [0, 1, 7, 16, 31].iter().map(|x| vec![*x]).collect(),
        K::S => bs(&[&[0.0, 0.0, 0.0, 1.0], &[0.83, -0.41, 0.27, 0.77], &[-1.9, 0.3, 2.1, 1.3], &[4.2, 3.1, -2.7, 0.6], &[0.1, 0.2, 0.3, 6.3]]),
        K::B => bs(&[&[0.0, 0.0, 0.0, 1.0, 2.0, 0.5], &[0.83, -0.41, 0.27, 0.77, 0.31, 1.13], &[-1.9, 0.3, 2.1, 1.3, 0.7, 0.9], &[4.2, 3.1, -2.7, 0.6, 0.5, 0.4], &[0.1, 0.2, 0.3, 6.3, 5.9, 7.1]]),
        K::O => {
            let mut r = vec![];
            for (i, e) in menu(K::B).into_iter().enumerate() { for j in [1, 9, 20] { let mut e = e.clone(); let qm = menu(K::Q); e.extend(&qm[(i * 5 + j) % qm.len()]); r.push(e); } }
            r
        }
        K::R => {
            let mut r = vec![];
            let qm = menu(K::Q);
            for (i, o) in [[0.13f32, 0.21, -0.17], [1.7, -0.9, 0.4], [-3.1, 2.2, 1.6]].iter().enumerate() {
                for (j, s) in [[1.03f32, -0.97, 0.53, -0.49, 0.9, 3.1], [0.77, -0.23, 0.41, -1.07, 0.5, 2.3], [1.51, 0.27, 0.56, 0.12, 1.1, 2.2]].iter().enumerate() {
                    let mut e = b(o);
                    e.extend(&qm[(1 + 4 * i + 7 * j) % qm.len()]);
                    e.extend(b(s));
                    r.push(e);
                }
            }
            r
        }
        K::PTS => {
            let mut r = vec![];
            let v = menu(K::V);
            for i in 0..12 { let mut e = vec![]; for j in 0..5 { e.extend(&v[(i * 7 + j * 5) % v.len()][..3]); } r.push(e); }
            r
        }
    }
}
