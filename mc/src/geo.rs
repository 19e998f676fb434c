//! Independent f64 solid geometry: convex polytopes as vertex/face/edge lists, spheres, separating axes,
//! point distances. Shares nothing with the library; the library's objects are built from the same f32 parameters.
use crate::refm::*;
use crate::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Shape {
    Sphere { c: [f32; 3], r: f32 },
    Box { c: [f32; 3], e: [f32; 3] },
    OBox { c: [f32; 3], e: [f32; 3], q: F4 },
    /// s = right, left, top, bottom slopes
    Frustum { o: [f32; 3], q: F4, s: [f32; 4], n: f32, f: f32 },
    Tri([[f32; 3]; 3]),
}
use Shape::*;

pub fn kind(s: &Shape) -> &'static str {
    match s {
        Sphere { .. } => "sphere",
        Box { .. } => "box",
        OBox { .. } => "obox",
        Frustum { .. } => "frustum",
        Tri(_) => "triangle",
    }
}

/// unit quaternion in f32
pub fn uq(axis: [f64; 3], ang: f64) -> F4 {
    qaxis(axis, ang).map(|x| x as f32)
}
pub fn rd3(a: D3) -> [f32; 3] {
    [a[0] as f32, a[1] as f32, a[2] as f32]
}

pub fn moved(s: &Shape, t: D3) -> Shape {
    let m = |c: [f32; 3]| rd3(add3(d3(c), t));
    match *s {
        Sphere { c, r } => Sphere { c: m(c), r },
        Box { c, e } => Box { c: m(c), e },
        OBox { c, e, q } => OBox { c: m(c), e, q },
        Frustum { o, q, s, n, f } => Frustum { o: m(o), q, s, n, f },
        Tri(v) => Tri([m(v[0]), m(v[1]), m(v[2])]),
    }
}

/// The whole shape multiplied by k (exact for powers of two).
pub fn scaled(s: &Shape, k: f32) -> Shape {
    let m = |v: [f32; 3]| v.map(|x| x * k);
    match *s {
        Sphere { c, r } => Sphere { c: m(c), r: r * k },
        Box { c, e } => Box { c: m(c), e: m(e) },
        OBox { c, e, q } => OBox { c: m(c), e: m(e), q },
        Frustum { o, q, s, n, f } => Frustum { o: m(o), q, s, n: n * k, f: f * k },
        Tri(v) => Tri([m(v[0]), m(v[1]), m(v[2])]),
    }
}
/// Scene scales: every pair is examined at one of them (powers of two, so the geometry is the same bit for bit).
pub const SCALES: [f32; 7] = [1.0, 0.0078125, 128.0, 0.25, 4096.0, 1.0 / 16384.0, 131072.0];

#[derive(Clone, Debug)]
pub struct Poly {
    pub v: Vec<D3>,
    /// outward unit face normals (for a triangle: +n, -n and the three in-plane edge normals)
    pub faces: Vec<D3>,
    pub edges: Vec<D3>,
    /// boundary triangulation
    pub tris: Vec<[usize; 3]>,
    pub flat: bool,
}

fn hexa(v: Vec<D3>, faces: Vec<D3>, edges: Vec<D3>) -> Poly {
    // vertex index bits: x=1, y=2, z=4
    let quads = [[0, 2, 6, 4], [1, 5, 7, 3], [0, 4, 5, 1], [2, 3, 7, 6], [0, 1, 3, 2], [4, 6, 7, 5]];
    let mut tris = vec![];
    for q in quads {
        tris.push([q[0], q[1], q[2]]);
        tris.push([q[0], q[2], q[3]]);
    }
    Poly { v, faces, edges, tris, flat: false }
}

pub fn poly(s: &Shape) -> Poly {
    match *s {
        Sphere { .. } => panic!("not a polytope"),
        Box { c, e } => poly(&OBox { c, e, q: [0.0, 0.0, 0.0, 1.0] }),
        OBox { c, e, q } => {
            let q = qnorm(d4(q));
            let ax: Vec<D3> = (0..3).map(|i| { let mut a = [0.0; 3]; a[i] = 1.0; qrot(q, a) }).collect();
            let mut v = vec![];
            for k in 0..8usize {
                let mut p = d3(c);
                for i in 0..3 {
                    let sg = if k >> i & 1 == 1 { 1.0 } else { -1.0 };
                    p = add3(p, mul3(ax[i], sg * e[i] as f64));
                }
                v.push(p);
            }
            let mut f = vec![];
            for i in 0..3 {
                f.push(mul3(ax[i], -1.0));
                f.push(ax[i]);
            }
            hexa(v, f, ax)
        }
        Frustum { o, q, s, n, f } => {
            let q = qnorm(d4(q));
            let sl: Vec<f64> = s.iter().map(|x| *x as f64).collect();
            let mut v = vec![];
            for k in 0..8usize {
                let z = if k & 4 == 4 { f as f64 } else { n as f64 };
                let x = z * if k & 1 == 1 { sl[0] } else { sl[1] };
                let y = z * if k & 2 == 2 { sl[2] } else { sl[3] };
                v.push(add3(d3(o), qrot(q, [x, y, z])));
            }
            let loc: [D3; 6] = [
                [0.0, 0.0, -1.0], [0.0, 0.0, 1.0],
                [1.0, 0.0, -sl[0]], [-1.0, 0.0, sl[1]],
                [0.0, 1.0, -sl[2]], [0.0, -1.0, sl[3]],
            ];
            let faces = loc.iter().map(|l| qrot(q, norm3(*l))).collect();
            let el: [D3; 6] = [
                [1.0, 0.0, 0.0], [0.0, 1.0, 0.0],
                [sl[0], sl[2], 1.0], [sl[0], sl[3], 1.0], [sl[1], sl[2], 1.0], [sl[1], sl[3], 1.0],
            ];
            let edges = el.iter().map(|l| qrot(q, norm3(*l))).collect();
            hexa(v, faces, edges)
        }
        Tri(t) => {
            let v: Vec<D3> = t.iter().map(|p| d3(*p)).collect();
            let n = norm3(cross3(sub3(v[1], v[0]), sub3(v[2], v[0])));
            let edges: Vec<D3> = vec![norm3(sub3(v[1], v[0])), norm3(sub3(v[2], v[1])), norm3(sub3(v[0], v[2]))];
            let mut faces = vec![n, mul3(n, -1.0)];
            for e in &edges {
                faces.push(cross3(*e, n));
            }
            Poly { v, faces, edges, tris: vec![[0, 1, 2]], flat: true }
        }
    }
}

pub fn ext(p: &Poly, n: D3) -> (f64, f64) {
    let mut lo = f64::INFINITY;
    let mut hi = f64::NEG_INFINITY;
    for v in &p.v {
        let d = dot3(*v, n);
        lo = lo.min(d);
        hi = hi.max(d);
    }
    (lo, hi)
}
/// centre of the supporting feature in direction n
pub fn support(p: &Poly, n: D3) -> D3 {
    let (_, hi) = ext(p, n);
    let mut c = [0.0; 3];
    let mut k = 0.0;
    for v in &p.v {
        if dot3(*v, n) > hi - 1.0e-6 {
            c = add3(c, *v);
            k += 1.0;
        }
    }
    mul3(c, 1.0 / k)
}
pub fn gap(a: &Poly, b: &Poly, n: D3) -> f64 {
    let (al, ah) = ext(a, n);
    let (bl, bh) = ext(b, n);
    (bl - ah).max(al - bh)
}
/// All separating-axis candidates of a pair.
pub fn axes(a: &Poly, b: &Poly) -> Vec<D3> {
    let mut r = vec![];
    let add = |x: D3, r: &mut Vec<D3>| {
        if len3(x) > 1.0e-6 {
            let x = norm3(x);
            if !r.iter().any(|y: &D3| dot3(*y, x).abs() > 1.0 - 1.0e-12) {
                r.push(x);
            }
        }
    };
    for f in a.faces.iter().chain(&b.faces) {
        add(*f, &mut r);
    }
    for x in &a.edges {
        for y in &b.edges {
            add(cross3(*x, *y), &mut r);
        }
    }
    r
}
/// > 0: disjoint by at least this much; < 0: overlapping on every axis by at least this much.
pub fn sat(a: &Poly, b: &Poly, ax: &[D3]) -> f64 {
    ax.iter().map(|n| gap(a, b, *n)).fold(f64::NEG_INFINITY, f64::max)
}
/// Both flat and in one plane: the common normal separates nothing and is left out.
pub fn sat_coplanar(a: &Poly, b: &Poly, ax: &[D3]) -> f64 {
    if a.flat && b.flat {
        let n = a.faces[0];
        let (lo, hi) = ext(b, n);
        let (al, _) = ext(a, n);
        if (lo - al).abs() < 1.0e-9 && (hi - al).abs() < 1.0e-9 {
            return ax.iter().filter(|x| dot3(**x, n).abs() < 1.0 - 1.0e-9).map(|x| gap(a, b, *x)).fold(f64::NEG_INFINITY, f64::max);
        }
    }
    sat(a, b, ax)
}

pub fn seg_closest(a: D3, b: D3, p: D3) -> D3 {
    let d = sub3(b, a);
    let l = dot3(d, d);
    if l == 0.0 {
        return a;
    }
    let t = (dot3(sub3(p, a), d) / l).clamp(0.0, 1.0);
    add3(a, mul3(d, t))
}
pub fn tri_dist(a: D3, b: D3, c: D3, p: D3) -> f64 {
    let n = cross3(sub3(b, a), sub3(c, a));
    let mut best = [(a, b), (b, c), (c, a)].iter().map(|(x, y)| len3(sub3(p, seg_closest(*x, *y, p)))).fold(f64::INFINITY, f64::min);
    if len3(n) > 1.0e-12 {
        let n = norm3(n);
        let h = dot3(sub3(p, a), n);
        let q = sub3(p, mul3(n, h));
        let inside = [(a, b), (b, c), (c, a)].iter().all(|(x, y)| dot3(cross3(sub3(*y, *x), sub3(q, *x)), n) >= 0.0);
        if inside {
            best = best.min(h.abs());
        }
    }
    best
}
/// max over faces of the signed distance to the face plane (negative inside)
pub fn face_dist(p: &Poly, x: D3) -> f64 {
    p.faces.iter().map(|n| dot3(x, *n) - ext(p, *n).1).fold(f64::NEG_INFINITY, f64::max)
}
/// signed distance: true Euclidean distance outside, minus the depth inside
pub fn point_dist(p: &Poly, x: D3) -> f64 {
    if !p.flat {
        let d = face_dist(p, x);
        if d <= 0.0 {
            return d;
        }
    }
    p.tris.iter().map(|t| tri_dist(p.v[t[0]], p.v[t[1]], p.v[t[2]], x)).fold(f64::INFINITY, f64::min)
}

/// > 0 disjoint, < 0 overlapping; magnitude = how clear that is.
pub fn isect_margin(a: &Shape, b: &Shape) -> f64 {
    match (a, b) {
        (Sphere { c, r }, Sphere { c: c2, r: r2 }) => len3(sub3(d3(*c), d3(*c2))) - *r as f64 - *r2 as f64,
        (Sphere { c, r }, p) | (p, Sphere { c, r }) => point_dist(&poly(p), d3(*c)) - *r as f64,
        _ => {
            let (p, q) = (poly(a), poly(b));
            let ax = axes(&p, &q);
            sat_coplanar(&p, &q, &ax)
        }
    }
}
/// A shape with its polytope, so that a pair's axes and vertices are computed once.
pub struct Pre {
    pub s: Shape,
    pub p: Option<Poly>,
}
pub fn pre(s: Shape) -> Pre {
    let p = if let Sphere { .. } = s { None } else { Some(poly(&s)) };
    Pre { s, p }
}
/// isect_margin with the pair's axes (which translations and scalings leave alone) supplied.
pub fn isect_margin_with(a: &Pre, b: &Pre, ax: &[D3]) -> f64 {
    match (&a.p, &b.p) {
        (Some(p), Some(q)) => sat_coplanar(p, q, ax),
        (Some(p), None) | (None, Some(p)) => {
            if let (Sphere { c, r }, _) | (_, Sphere { c, r }) = (&a.s, &b.s) {
                point_dist(p, d3(*c)) - *r as f64
            } else {
                unreachable!()
            }
        }
        _ => isect_margin(&a.s, &b.s),
    }
}
pub fn contain_margin_with(a: &Pre, b: &Pre) -> f64 {
    match (&a.p, &b.p) {
        (Some(p), Some(q)) => q.v.iter().map(|v| face_dist(p, *v)).fold(f64::NEG_INFINITY, f64::max),
        (Some(p), None) => if let Sphere { c, r } = b.s { face_dist(p, d3(c)) + r as f64 } else { unreachable!() },
        _ => contain_margin(&a.s, &b.s),
    }
}
/// max over the faces of `a` of min over b of the signed distance: > 0 iff b lies beyond one face plane of a.
pub fn plane_margin_with(a: &Pre, b: &Pre) -> f64 {
    let p = a.p.as_ref().unwrap();
    p.faces.iter().map(|n| {
        let off = ext(p, *n).1;
        match (&b.s, &b.p) {
            (Sphere { c, r }, _) => dot3(*n, d3(*c)) - *r as f64 - off,
            (_, Some(q)) => ext(q, *n).0 - off,
            _ => unreachable!(),
        }
    }).fold(f64::NEG_INFINITY, f64::max)
}
pub fn pair_axes(a: &Pre, b: &Pre) -> Vec<D3> {
    match (&a.p, &b.p) {
        (Some(p), Some(q)) => axes(p, q),
        _ => vec![],
    }
}
/// max over b of the signed distance to a: <= 0 iff b lies in a.
pub fn contain_margin(a: &Shape, b: &Shape) -> f64 {
    match (a, b) {
        (Sphere { c, r }, Sphere { c: c2, r: r2 }) => len3(sub3(d3(*c), d3(*c2))) + *r2 as f64 - *r as f64,
        (Sphere { c, r }, p) => poly(p).v.iter().map(|v| len3(sub3(*v, d3(*c)))).fold(0.0, f64::max) - *r as f64,
        (p, Sphere { c, r }) => face_dist(&poly(p), d3(*c)) + *r as f64,
        _ => {
            let p = poly(a);
            poly(b).v.iter().map(|v| face_dist(&p, *v)).fold(f64::NEG_INFINITY, f64::max)
        }
    }
}
// --- the library's objects ---
pub fn f4(x: F4) -> XMFLOAT4 {
    XMFLOAT4 { x: x[0], y: x[1], z: x[2], w: x[3] }
}
pub fn lsphere(c: [f32; 3], r: f32) -> BoundingSphere {
    BoundingSphere { Center: f3(c), Radius: r }
}
pub fn lbox(c: [f32; 3], e: [f32; 3]) -> BoundingBox {
    BoundingBox { Center: f3(c), Extents: f3(e) }
}
pub fn lobox(c: [f32; 3], e: [f32; 3], q: F4) -> BoundingOrientedBox {
    BoundingOrientedBox { Center: f3(c), Extents: f3(e), Orientation: f4(q) }
}
pub fn lfrustum(o: [f32; 3], q: F4, s: [f32; 4], n: f32, f: f32) -> BoundingFrustum {
    BoundingFrustum { Origin: f3(o), Orientation: f4(q), RightSlope: s[0], LeftSlope: s[1], TopSlope: s[2], BottomSlope: s[3], Near: n, Far: f }
}
pub enum Lib {
    S(BoundingSphere),
    B(BoundingBox),
    O(BoundingOrientedBox),
    F(BoundingFrustum),
    T(XMVECTOR, XMVECTOR, XMVECTOR),
}
pub fn lib(s: &Shape) -> Lib {
    // the unused lane of a corner carries junk
    match *s {
        Sphere { c, r } => Lib::S(lsphere(c, r)),
        Box { c, e } => Lib::B(lbox(c, e)),
        OBox { c, e, q } => Lib::O(lobox(c, e, q)),
        Frustum { o, q, s, n, f } => Lib::F(lfrustum(o, q, s, n, f)),
        Tri(v) => Lib::T(v3w(v[0], 1.0), v3w(v[1], f32::NAN), v3w(v[2], 2.5)),
    }
}
macro_rules! disp {
    ($a:expr, $b:expr, $s:ident, $bx:ident, $o:ident, $f:ident, $t:ident) => {
        match ($a, $b) {
            (Lib::S(x), Lib::S(y)) => Some(x.$s(y)),
            (Lib::S(x), Lib::B(y)) => Some(x.$bx(y)),
            (Lib::S(x), Lib::O(y)) => Some(x.$o(y)),
            (Lib::S(x), Lib::F(y)) => Some(x.$f(y)),
            (Lib::S(x), Lib::T(a, b, c)) => Some(x.$t(*a, *b, *c)),
            (Lib::B(x), Lib::S(y)) => Some(x.$s(y)),
            (Lib::B(x), Lib::B(y)) => Some(x.$bx(y)),
            (Lib::B(x), Lib::O(y)) => Some(x.$o(y)),
            (Lib::B(x), Lib::F(y)) => Some(x.$f(y)),
            (Lib::B(x), Lib::T(a, b, c)) => Some(x.$t(*a, *b, *c)),
            (Lib::O(x), Lib::S(y)) => Some(x.$s(y)),
            (Lib::O(x), Lib::B(y)) => Some(x.$bx(y)),
            (Lib::O(x), Lib::O(y)) => Some(x.$o(y)),
            (Lib::O(x), Lib::F(y)) => Some(x.$f(y)),
            (Lib::O(x), Lib::T(a, b, c)) => Some(x.$t(*a, *b, *c)),
            (Lib::F(x), Lib::S(y)) => Some(x.$s(y)),
            (Lib::F(x), Lib::B(y)) => Some(x.$bx(y)),
            (Lib::F(x), Lib::O(y)) => Some(x.$o(y)),
            (Lib::F(x), Lib::F(y)) => Some(x.$f(y)),
            (Lib::F(x), Lib::T(a, b, c)) => Some(x.$t(*a, *b, *c)),
            (Lib::T(..), _) => None,
        }
    };
}
pub fn lib_intersects(a: &Lib, b: &Lib) -> Option<bool> {
    if let (Lib::T(a0, a1, a2), Lib::T(b0, b1, b2)) = (a, b) {
        return Some(triangle_tests::IntersectsTriangle(*a0, *a1, *a2, *b0, *b1, *b2));
    }
    disp!(a, b, IntersectsSphere, IntersectsBox, IntersectsOrientedBox, IntersectsFrustum, IntersectsTriangle)
}
pub fn lib_contains(a: &Lib, b: &Lib) -> Option<ContainmentType> {
    disp!(a, b, ContainsSphere, ContainsBox, ContainsOrientedBox, ContainsFrustum, ContainsTriangle)
}

// --- shape menus ---
pub fn orients(th: bool) -> Vec<F4> {
    let pi = std::f64::consts::PI;
    let mut r = vec![
        [0.0, 0.0, 0.0, 1.0],
        uq([0.0, 0.0, 1.0], pi / 4.0),
        uq([1.0, 0.0, 0.0], pi / 2.0),
        uq([1.0, 1.0, 1.0], 1.0),
        uq([-1.0, 2.0, 0.5], 2.5),
    ];
    if th {
        r.extend([uq([0.0, 1.0, 0.0], pi), uq([1.0, 0.0, 0.0], pi / 4.0), uq([0.0, 1.0, 0.0], -pi / 3.0), uq([1.0, -1.0, 0.0], 0.7), uq([3.0, 1.0, -2.0], -1.9), uq([0.2, -0.1, 1.0], 0.1)]);
    }
    r
}
/// Orientations a small step away from the identity (both quaternion signs) and from a quarter turn.
pub fn near_orients() -> Vec<F4> {
    let pi = std::f64::consts::PI;
    let n = |q: F4| [-q[0], -q[1], -q[2], -q[3]];
    vec![uq([0.3, -0.2, 1.0], 0.15), n(uq([1.0, 1.0, -0.5], 0.017)), uq([0.1, 1.0, 0.05], pi / 2.0 + 0.02), uq([-0.4, 0.3, 0.8], 0.012)]
}
pub fn spheres() -> Vec<Shape> {
    [1.0f32, 0.25, 3.0, 0.0].iter().map(|r| Sphere { c: [0.0; 3], r: *r }).collect()
}
pub fn boxes() -> Vec<Shape> {
    [[1.0f32, 1.0, 1.0], [0.5, 2.0, 1.0], [3.0, 0.25, 1.5], [1.0, 0.0, 2.0], [0.0, 0.0, 0.0]].iter().map(|e| Box { c: [0.0; 3], e: *e }).collect()
}
pub fn oboxes(th: bool) -> Vec<Shape> {
    let mut r = vec![];
    for q in orients(th) {
        for e in [[1.0f32, 2.0, 0.5], [3.0, 0.25, 1.5]] {
            r.push(OBox { c: [0.0; 3], e, q });
        }
    }
    for q in near_orients() {
        r.push(OBox { c: [0.0; 3], e: [3.0, 0.25, 1.5], q });
    }
    r
}
pub fn frustums(th: bool) -> Vec<Shape> {
    let mut r = vec![];
    for q in orients(th) {
        for (s, n, f) in [([1.0f32, -1.0, 0.5, -0.5], 1.0f32, 3.0f32), ([0.75, -0.25, 0.4, -1.0], 0.5, 2.0), ([1.5, 0.25, 0.5, 0.1], 1.0, 2.0)] {
            r.push(Frustum { o: [0.0; 3], q, s, n, f });
        }
    }
    for q in near_orients() {
        r.push(Frustum { o: [0.0; 3], q, s: [0.75, -0.25, 0.4, -1.0], n: 0.5, f: 2.0 });
    }
    r
}
/// Slender shapes, so that a tilt of a fraction of a degree moves the ends visibly. (Not for the shape/shape
/// tests: the cross product of two nearly parallel edges loses the clearance to rounding.)
pub fn slender_oboxes() -> Vec<Shape> {
    vec![
        OBox { c: [0.0; 3], e: [0.5, 40.0, 0.3], q: uq([1.0, -0.4, 0.7], 0.0024) },
        OBox { c: [0.0; 3], e: [40.0, 0.5, 1.0], q: uq([0.0, 1.0, 1.0], std::f64::consts::PI - 0.0006) },
        OBox { c: [0.0; 3], e: [0.5, 1.0, 40.0], q: uq([0.3, 1.0, 0.1], 0.0003) },
    ]
}
pub fn slender_frustums() -> Vec<Shape> {
    vec![
        Frustum { o: [0.0; 3], q: uq([1.0, 0.3, -0.4], 0.0024), s: [0.02, -0.03, 0.01, -0.02], n: 1.0, f: 60.0 },
        Frustum { o: [0.0; 3], q: uq([0.2, 1.0, 0.4], 0.0005), s: [0.02, -0.02, 0.01, -0.01], n: 1.0, f: 60.0 },
    ]
}
pub fn slender_tris() -> Vec<Shape> {
    vec![Tri([[-40.0, 0.02, 0.01], [40.0, 0.0, 0.05], [0.0, 0.5, 0.03]]), Tri([[0.01, -0.3, -30.0], [-0.02, 0.4, -29.0], [0.03, 0.0, 40.0]])]
}
pub fn tris(th: bool) -> Vec<Shape> {
    let mut r = vec![
        Tri([[0.0, 0.0, 0.0], [2.0, 0.0, 0.0], [0.0, 1.0, 0.0]]),
        Tri([[-1.0, 0.5, 0.0], [1.0, 0.0, 1.0], [0.0, -2.0, 0.5]]),
        Tri([[3.0, 1.0, -2.0], [-3.0, 2.0, 1.0], [0.5, -4.0, 3.0]]),
        Tri([[0.0, 0.0, -1.0], [0.0, 0.5, 1.0], [0.0, -1.0, 1.0]]),
    ];
    // mirror images: an edge/edge contact is extreme on one side only, so every axis needs both signs
    for k in 1..8 {
        let g = |v: [f32; 3]| [if k & 1 != 0 { -v[0] } else { v[0] }, if k & 2 != 0 { -v[1] } else { v[1] }, if k & 4 != 0 { -v[2] } else { v[2] }];
        r.push(Tri([[-1.0, 0.5, 0.0], [1.0, 0.0, 1.0], [0.0, -2.0, 0.5]].map(g)));
        r.push(Tri([[3.0, 1.0, -2.0], [-3.0, 2.0, 1.0], [0.5, -4.0, 3.0]].map(g)));
    }
    if th {
        r.extend([
            Tri([[0.0, 0.0, 0.0], [0.0, 0.0, 0.5], [0.25, 0.0, 0.0]]),
            Tri([[10.0, 0.0, -7.0], [-9.0, 0.5, 6.0], [0.0, 8.0, 0.0]]),
            Tri([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]),
            Tri([[-2.0, 0.1, 0.0], [2.0, 0.0, 0.1], [0.0, 0.1, 0.2]]),
        ]);
    }
    r
}
pub fn lattice(al: &[f64]) -> Vec<D3> {
    let mut r = vec![];
    for x in al {
        for y in al {
            for z in al {
                r.push([*x, *y, *z]);
            }
        }
    }
    r
}
/// Translations of `b` that bring the pair to each of its separating axes' contact, at each signed clearance,
/// plus a coarse lattice.
pub fn placements(a: &Shape, b: &Shape, clear: &[f64], lat: &[D3]) -> Vec<D3> {
    let mut r: Vec<D3> = lat.to_vec();
    match (a, b) {
        (Sphere { c, r: ra }, Sphere { c: c2, r: rb }) => {
            for d in lattice(&[-1.0, 0.0, 0.6]) {
                if len3(d) > 0.0 {
                    for k in clear {
                        // outer contact, inner contact
                        r.push(add3(sub3(d3(*c), d3(*c2)), mul3(norm3(d), *ra as f64 + *rb as f64 + k)));
                        r.push(add3(sub3(d3(*c), d3(*c2)), mul3(norm3(d), *ra as f64 - *rb as f64 + k)));
                    }
                }
            }
        }
        (Sphere { .. }, p) => {
            // move the polytope, not the sphere
            for t in placements(p, a, clear, &[]) {
                r.push(mul3(t, -1.0));
            }
        }
        (p, Sphere { c, r: rb }) => {
            let pp = poly(p);
            let mid = mul3(pp.v.iter().fold([0.0; 3], |x, y| add3(x, *y)), 1.0 / pp.v.len() as f64);
            // features: vertices, edge midpoints (all vertex pairs), faces and off-centre points of each
            let mut feats: Vec<D3> = pp.v.clone();
            for i in 0..pp.v.len() {
                for j in 0..i {
                    feats.push(mul3(add3(pp.v[i], pp.v[j]), 0.5));
                    feats.push(add3(mul3(pp.v[i], 0.9), mul3(pp.v[j], 0.1)));
                }
            }
            for n in &pp.faces {
                feats.push(support(&pp, *n));
            }
            let mut dirs: Vec<D3> = pp.faces.clone();
            for i in 0..pp.faces.len() {
                for j in 0..i {
                    let s = add3(pp.faces[i], pp.faces[j]);
                    if len3(s) > 0.1 {
                        dirs.push(norm3(s));
                    }
                }
            }
            for ft in feats {
                let mut ds = dirs.clone();
                if len3(sub3(ft, mid)) > 1.0e-6 {
                    ds.push(norm3(sub3(ft, mid)));
                }
                for d in ds {
                    for k in clear {
                        r.push(sub3(add3(ft, mul3(d, *rb as f64 + k)), d3(*c)));
                        r.push(sub3(add3(ft, mul3(d, -(*rb as f64) + k)), d3(*c)));
                    }
                }
            }
        }
        _ => {
            let (p, q) = (poly(a), poly(b));
            for n in axes(&p, &q) {
                for sg in [1.0, -1.0] {
                    let n = mul3(n, sg);
                    let base = sub3(support(&p, n), support(&q, mul3(n, -1.0)));
                    for k in clear {
                        r.push(add3(base, mul3(n, *k)));
                    }
                }
            }
            // inner contacts: b's extreme just inside / outside each face of a
            for n in &p.faces {
                let mp = mul3(p.v.iter().fold([0.0; 3], |x, y| add3(x, *y)), 1.0 / p.v.len() as f64);
                let sp = mul3(add3(mul3(support(&p, *n), 0.9), mul3(mp, 0.1)), 1.0);
                let h = ext(&p, *n).1 - dot3(sp, *n);
                let base = sub3(add3(sp, mul3(*n, h)), support(&q, *n));
                for k in clear {
                    r.push(add3(base, mul3(*n, *k)));
                }
            }
        }
    }
    r
}
