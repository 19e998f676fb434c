//! C19: intersection tests between volumes and triangles.
use mc::geo::*;
use mc::refm::*;
use mc::*;
use std::cell::RefCell;
use std::collections::BTreeMap;

/// Two triangles, one of which has an edge in the plane of the other up to rounding: the edge/edge volumes that decide
/// the answer then vanish (exactly representable cases of this kind have their own sweep).
fn near_coplanar(a: &Pre, b: &Pre, k: f64) -> bool {
    if let (Shape::Tri(_), Shape::Tri(_)) = (a.s, b.s) {
        let (p, q) = (a.p.as_ref().unwrap(), b.p.as_ref().unwrap());
        let off = |x: &Poly, y: &Poly| {
            let n = x.faces[0];
            y.v.iter().filter(|v| (dot3(**v, n) - dot3(x.v[0], n)).abs() < 1.0e-3 * k).count() >= 2
        };
        return off(p, q) || off(q, p);
    }
    false
}
/// Centre and extreme points of a shape.
fn hull(s: &Shape) -> (D3, Vec<D3>) {
    match s {
        Shape::Sphere { c, r } => {
            let (c, r) = (d3(*c), *r as f64);
            (c, vec![add3(c, [r, 0.0, 0.0]), add3(c, [0.0, -r, 0.0]), add3(c, [0.0, 0.0, r]), add3(c, mul3(norm3([-1.0, 1.0, -1.0]), r))])
        }
        s => {
            let p = poly(s);
            (mul3(p.v.iter().fold([0.0; 3], |x, y| add3(x, *y)), 1.0 / p.v.len() as f64), p.v.clone())
        }
    }
}
fn itris(n: i32) -> Vec<[[f32; 3]; 3]> {
    let mut pts = vec![];
    for x in 0..n {
        for y in 0..n {
            for z in 0..n {
                pts.push([x as f32, y as f32, z as f32]);
            }
        }
    }
    let mut r = vec![];
    for a in &pts {
        for b in &pts {
            for c in &pts {
                if len3(cross3(sub3(d3(*b), d3(*a)), sub3(d3(*c), d3(*a)))) > 0.0 {
                    r.push([*a, *b, *c]);
                }
            }
        }
    }
    r
}

fn main() {
    Ctx::main("C19", |c| {
        let th = c.thorough();
        // tilted just enough for the clearance (the library widens its edge/edge tests by 1e-6 of the size)
        let tilted = Shape::OBox { c: [0.0; 3], e: [3.0, 0.25, 1.5], q: uq([-0.4, 0.3, 0.8], 0.005) };
        let groups: Vec<(&str, Vec<Shape>)> = vec![("sphere", spheres()), ("box", boxes()), ("obox", [oboxes(th), vec![tilted]].concat()), ("frustum", frustums(th)), ("triangle", tris(th))];
        let clear: &[f64] = if th { &[-0.3, -0.05, -0.01, -0.003, 0.003, 0.01, 0.05, 0.3] } else { &[-0.3, -0.003, 0.003, 0.05] };
        let lat = lattice(if th { &[-3.0, -1.2, -0.3, 0.0, 0.9, 2.1, 4.0] } else { &[-2.1, -0.3, 0.0, 0.9] });
        let base: &[D3] = &[[0.0, 0.0, 0.0], [5.0, -3.0, 2.0]];
        for (i, (na, sa)) in groups.iter().enumerate() {
            for (nb, sb) in groups.iter().skip(i) {
                c.sweep(&format!("{} / {}", na, nb), |sw| {
                    let cnt: RefCell<BTreeMap<bool, u64>> = Default::default();
                    for (ia, a1) in sa.iter().enumerate() {
                        for (ib, b1) in sb.iter().enumerate() {
                            // equal sizes; then one much smaller, touching and lying inside the other
                            for (iz, z) in [(1.0f32, 1.0f32), (0.15, 1.0), (1.0, 0.15)].iter().enumerate() {
                                if iz > 0 && !th && (ia + ib + iz) % 2 == 0 {
                                    continue;
                                }
                                let (a0, b0) = (scaled(a1, z.0), scaled(b1, z.1));
                                let off = base[(ia + ib) % base.len()];
                                let k = SCALES[(ia + 2 * ib) % SCALES.len()];
                                let a = pre(scaled(&moved(&a0, off), k));
                                let la = lib(&a.s);
                                let ax = pair_axes(&a, &pre(b0));
                                let mut ps = if iz == 0 { placements(&a0, &b0, clear, &lat) } else { placements(&a0, &b0, &clear[..if th { clear.len() } else { 0 }], &[]) };
                                let (ma, va) = hull(&a0);
                                let (mb, vb) = hull(&b0);
                                for f in [0.0, 0.5, 0.95] {
                                    ps.extend(va.iter().map(|v| sub3(add3(ma, mul3(sub3(*v, ma), f)), mb)));
                                    ps.extend(vb.iter().map(|v| sub3(ma, add3(mb, mul3(sub3(*v, mb), f)))));
                                }
                                for t in ps {
                                    let b = pre(scaled(&moved(&b0, add3(t, off)), k));
                                    let m = isect_margin_with(&a, &b, &ax) / k as f64;
                                    if m.abs() < 1.0e-3 || near_coplanar(&a, &b, k as f64) {
                                        continue;
                                    }
                                    let want = m < 0.0;
                                    *cnt.borrow_mut().entry(want).or_default() += 1;
                                    sw.state();
                                    let lb = lib(&b.s);
                                    at(|| format!("{:?} {:?}", a.s, b.s));
                                    for (x, y, o) in [(&la, &lb, "A.Intersects(B)"), (&lb, &la, "B.Intersects(A)")] {
                                        if let Some(g) = lib_intersects(x, y) {
                                            sw.t(g == want, (g as u64) << 52, || (format!("{} A={:?} B={:?} margin={:.4}", o, a.s, b.s, m * k as f64), format!("{}", g), format!("{}", want)));
                                        }
                                    }
                                }
                            }
                        }
                    }
                    if std::env::var("MC_MEASURE").is_ok() {
                        eprintln!("{} {} {:?} fails {}", na, nb, cnt.borrow(), sw.st.fails);
                    }
                });
            }
        }
        // Every ordered triangle of an integer lattice against a menu of triangles: all vertex orders, all sign patterns
        // (including vertices and edges lying in the other's plane) and exactly co-planar pairs.
        c.sweep("triangle / triangle lattice", |sw| {
            let menu: Vec<[[f32; 3]; 3]> = vec![
                [[0.5, 0.5, -1.0], [0.75, 0.5, 3.0], [0.5, 2.5, 0.75]],
                [[0.0, 0.0, 1.0], [2.0, 0.0, 1.0], [0.0, 2.0, 1.0]],
                [[1.0, -1.0, 0.0], [1.0, 0.5, 2.0], [1.0, 3.0, 1.0]],
                [[-1.0, 0.5, 0.5], [3.0, 0.75, 0.5], [0.0, 0.5, 2.0]],
                [[2.0, 2.0, 2.0], [-1.0, 1.0, 0.0], [0.0, -1.0, 1.0]],
                [[0.25, 0.25, 0.0], [1.25, 0.5, 0.0], [0.5, 1.5, 0.0]],
                [[3.0, 0.0, 0.0], [0.0, 3.0, 0.0], [0.0, 0.0, 3.0]],
                [[0.5, 0.25, 2.25], [1.75, 1.0, 0.25], [0.25, 2.5, 0.25]],
            ];
            let lat = itris(if th { 4 } else { 3 });
            for a in &menu {
                let sa = Shape::Tri(*a);
                let (pa, la) = (poly(&sa), lib(&sa));
                for b in &lat {
                    let sb = Shape::Tri(*b);
                    let pb = poly(&sb);
                    let ax = axes(&pa, &pb);
                    let m = sat_coplanar(&pa, &pb, &ax);
                    if m.abs() < 1.0e-6 {
                        continue;
                    }
                    let want = m < 0.0;
                    sw.state();
                    let lb = lib(&sb);
                    at(|| format!("{:?} {:?}", a, b));
                    for (x, y, o) in [(&la, &lb, "Intersects(A, B)"), (&lb, &la, "Intersects(B, A)")] {
                        let g = lib_intersects(x, y).unwrap();
                        sw.t(g == want, (g as u64) << 52, || (format!("{} A={:?} B={:?} margin={:.4}", o, a, b, m), format!("{}", g), format!("{}", want)));
                    }
                }
            }
        });
        // Volumes are closed sets: exactly touching ones intersect. Small integers, so that the contact is exact.
        c.sweep("exact contact", |sw| {
            let bx = |c: [i32; 3], e: [i32; 3]| Shape::Box { c: c.map(|x| x as f32), e: e.map(|x| x as f32) };
            let ob = |c: [i32; 3], e: [i32; 3]| Shape::OBox { c: c.map(|x| x as f32), e: e.map(|x| x as f32), q: [0.0, 0.0, 0.0, 1.0] };
            let sp = |c: [i32; 3], r: i32| Shape::Sphere { c: c.map(|x| x as f32), r: r as f32 };
            // unordered contacts: (difference of centres, distance)
            let quads: Vec<([i32; 3], i32)> = vec![([3, 0, 0], 3), ([0, 3, 4], 5), ([4, 3, 0], 5), ([1, 2, 2], 3), ([2, 3, 6], 7), ([6, 2, 3], 7), ([0, 0, 7], 7)];
            let mut signs = vec![];
            for k in 0..8 {
                signs.push([1 - 2 * (k & 1), 1 - (k & 2), 1 - 2 * (k >> 2)]);
            }
            let mul = |a: [i32; 3], b: [i32; 3]| [a[0] * b[0], a[1] * b[1], a[2] * b[2]];
            let add = |a: [i32; 3], b: [i32; 3]| [a[0] + b[0], a[1] + b[1], a[2] + b[2]];
            let mut cases: Vec<(Shape, Shape)> = vec![];
            for o in [[0, 0, 0], [5, -3, 2]] {
                for g in &signs {
                    for (d, r) in &quads {
                        for r1 in 1..*r {
                            cases.push((sp(o, r1), sp(add(o, mul(*d, *g)), r - r1)));
                        }
                        // the sphere touches the feature of a box beyond which it lies; axes without displacement: anywhere in the slab
                        for e in [[2, 1, 3], [1, 4, 2]] {
                            for inner in [0, 1] {
                                let mut c = [0; 3];
                                for i in 0..3 {
                                    c[i] = o[i] + g[i] * if d[i] != 0 { e[i] + d[i] } else { inner };
                                }
                                cases.push((bx(o, e), sp(c, *r)));
                                cases.push((ob(o, e), sp(c, *r)));
                            }
                        }
                    }
                    let (e, f) = ([2, 1, 3], [1, 4, 2]);
                    for m in 1..8 {
                        // touch in the axes of m, overlap in the others
                        for inner in [0, 1, 2] {
                            let mut c = [0; 3];
                            for i in 0..3 {
                                c[i] = o[i] + g[i] * if m >> i & 1 != 0 { e[i] + f[i] } else { inner };
                            }
                            for (x, y) in [(bx(o, e), bx(c, f)), (bx(o, e), ob(c, f)), (ob(o, e), ob(c, f))] {
                                cases.push((x, y));
                            }
                        }
                    }
                }
            }
            // a frustum touched through its near and far planes
            for o in [[0, 0, 0], [5, -3, 2]] {
                let id = [0.0f32, 0.0, 0.0, 1.0];
                let fl = |v: [i32; 3]| v.map(|x| x as f32);
                let a = Shape::Frustum { o: fl(o), q: id, s: [2.0, -2.0, 2.0, -2.0], n: 5.0, f: 15.0 };
                for g in [1, -1] {
                    // the contact plane and the side away from the frustum
                    let z = if g > 0 { 15 } else { 5 };
                    for x in [-2, 0, 1] {
                        for y in [-1, 0, 2] {
                            let at = |d: i32| add(o, [x, y, z + g * d]);
                            for e in [[1, 2, 3], [2, 1, 1]] {
                                cases.push((a, bx(at(e[2]), e)));
                                cases.push((a, ob(at(e[2]), e)));
                                cases.push((a, sp(at(e[2]), e[2])));
                            }
                            cases.push((a, Shape::Tri([fl(at(0)), fl(add(at(2), [3, 1, 0])), fl(add(at(3), [-1, 2, 0]))])));
                            cases.push((a, Shape::Tri([fl(add(at(0), [1, 0, 0])), fl(at(0)), fl(add(at(3), [-1, 2, 0]))])));
                            cases.push((a, Shape::Tri([fl(add(at(0), [1, 0, 0])), fl(at(0)), fl(add(at(0), [-1, 2, 0]))])));
                            // a triangle in the end plane that sticks out of the face, both windings
                            let wide = [fl(add(at(0), [100, 3, 0])), fl(add(at(0), [-100, 0, 0])), fl(add(at(0), [0, 90, 0]))];
                            cases.push((a, Shape::Tri(wide)));
                            cases.push((a, Shape::Tri([wide[0], wide[2], wide[1]])));
                            // near plane on far plane and far plane on near plane
                            let h = Shape::Frustum { o: fl(add(o, [x, y, if g > 0 { 14 } else { 1 }])), q: id, s: [0.5, -0.5, 0.25, -0.5], n: 1.0, f: 4.0 };
                            cases.push((a, h));
                        }
                    }
                }
            }
            // a frustum's near edges and corners touched by a sphere
            for o in [[0, 0, 0], [5, -3, 2]] {
                let f = Shape::Frustum { o: o.map(|x| x as f32), q: [0.0, 0.0, 0.0, 1.0], s: [2.0, -2.0, 2.0, -2.0], n: 4.0, f: 16.0 };
                for g in [1, -1] {
                    cases.push((f, sp(add(o, [g * (8 + 5), 0, 4 - 12]), 13)));
                    cases.push((f, sp(add(o, [0, g * (8 + 5), 4 - 12]), 13)));
                    for h in [1, -1] {
                        cases.push((f, sp(add(o, [g * (8 + 4), h * (8 + 5), 4 - 20]), 21)));
                        cases.push((f, sp(add(o, [g * (8 + 5), h * (8 + 4), 4 - 20]), 21)));
                    }
                }
            }
            // spheres touching a triangle in its interior, along an edge, at a vertex
            for o in [[0, 0, 0], [5, -3, 2]] {
                for ax in 0..3 {
                    let at = |u: i32, v: i32, w: i32| {
                        let mut p = o;
                        p[ax] += u;
                        p[(ax + 1) % 3] += v;
                        p[(ax + 2) % 3] += w;
                        p
                    };
                    let fl = |v: [i32; 3]| v.map(|x| x as f32);
                    let (a, b, c) = (fl(at(0, 0, 0)), fl(at(8, 0, 0)), fl(at(0, 8, 0)));
                    for t in [[a, b, c], [b, c, a], [c, a, b], [a, c, b], [c, b, a], [b, a, c]] {
                        for g in [1, -1] {
                            cases.push((sp(at(2, 3, 5 * g), 5), Shape::Tri(t)));
                            cases.push((sp(at(4, -3, 4 * g), 5), Shape::Tri(t)));
                            cases.push((sp(at(4, -7, 0), 7), Shape::Tri(t)));
                            cases.push((sp(at(-4, 4, 3 * g), 5), Shape::Tri(t)));
                            cases.push((sp(at(-2, -3, 6 * g), 7), Shape::Tri(t)));
                            cases.push((sp(at(8 + 2, -1, 2 * g), 3), Shape::Tri(t)));
                            cases.push((sp(at(-1, 8 + 2, 2 * g), 3), Shape::Tri(t)));
                            cases.push((sp(at(-2, 8 + 3, 6 * g), 7), Shape::Tri(t)));
                        }
                    }
                }
            }
            for (a, b) in &cases {
                let (la, lb) = (lib(a), lib(b));
                sw.state();
                at(|| format!("{:?} {:?}", a, b));
                for (x, y, o) in [(&la, &lb, "A.Intersects(B)"), (&lb, &la, "B.Intersects(A)")] {
                    if let Some(g) = lib_intersects(x, y) {
                        sw.t(g, (g as u64) << 52, || (format!("{} A={:?} B={:?} (touching)", o, a, b), format!("{}", g), "true".into()));
                    }
                }
            }
            // integer triangles against integer boxes: every answer is exact, contacts included
            let lat = itris(if th { 4 } else { 3 });
            for b in [bx([-1, -1, -1], [1, 1, 1]), bx([3, 1, 1], [1, 2, 1]), bx([1, 4, 2], [3, 2, 1]), bx([1, 1, -2], [1, 1, 2])] {
                let pb = poly(&b);
                let lb = lib(&b);
                for t in &lat {
                    let sa = Shape::Tri(*t);
                    let pa = poly(&sa);
                    let ax = axes(&pa, &pb);
                    let m = sat(&pa, &pb, &ax);
                    let want = m < 1.0e-9;
                    sw.state();
                    at(|| format!("{:?} {:?}", b, t));
                    if let Some(g) = lib_intersects(&lb, &lib(&sa)) {
                        sw.t(g == want, (g as u64) << 52, || (format!("A={:?} B={:?} margin={:.4}", b, t, m), format!("{}", g), format!("{}", want)));
                    }
                }
            }
        });
    });
}
