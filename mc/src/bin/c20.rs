//! C20: containment classification.
use mc::geo::*;
use mc::refm::*;
use mc::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use ContainmentType::*;

/// None: too close to call.
fn want(a: &Pre, b: &Pre, ax: &[D3], eps: f64) -> Option<ContainmentType> {
    let c = contain_margin_with(a, b);
    if c.abs() < eps {
        return None;
    }
    if c < 0.0 {
        return Some(CONTAINS);
    }
    // A frustum classifies by its six planes (conservative), every other volume exactly.
    let d = if let Shape::Frustum { .. } = a.s { plane_margin_with(a, b) } else { isect_margin_with(a, b, ax) };
    if d.abs() < eps {
        return None;
    }
    Some(if d > 0.0 { DISJOINT } else { INTERSECTS })
}
/// Triangles: eleven edge/plane corner cases are decided by projections; nothing is excluded for them.
fn point_of(s: &Shape) -> Vec<D3> {
    match s {
        Shape::Sphere { c, r } => lattice(&[-1.0, -0.5, 0.0, 0.7, 1.3]).iter().map(|d| add3(d3(*c), mul3(*d, *r as f64))).collect(),
        _ => {
            let p = poly(s);
            let mid = mul3(p.v.iter().fold([0.0; 3], |x, y| add3(x, *y)), 1.0 / p.v.len() as f64);
            let mut r = vec![];
            let mut feats = p.v.clone();
            for i in 0..p.v.len() {
                for j in 0..i {
                    feats.push(mul3(add3(p.v[i], p.v[j]), 0.5));
                }
            }
            for n in &p.faces {
                feats.push(support(&p, *n));
            }
            for f in feats {
                for k in [0.0, 0.5, 0.97, 1.03, 2.0, -1.5] {
                    r.push(add3(mid, mul3(sub3(f, mid), k)));
                }
                for n in &p.faces {
                    for k in [-0.05, -0.002, 0.002, 0.05, 0.5] {
                        r.push(add3(f, mul3(*n, k)));
                    }
                }
            }
            r
        }
    }
}

fn main() {
    Ctx::main("C20", |c| {
        let th = c.thorough();
        let meas = std::env::var("MC_MEASURE").is_ok();
        let groups: Vec<(&str, Vec<Shape>)> = vec![("sphere", spheres()), ("box", boxes()), ("obox", oboxes(th)), ("frustum", frustums(th)), ("triangle", tris(th))];
        let clear: &[f64] = if th { &[-0.3, -0.05, -0.003, 0.003, 0.05, 0.3] } else { &[-0.3, -0.003, 0.003, 0.05] };
        let lat = lattice(if th { &[-3.0, -1.2, -0.3, 0.0, 0.9, 2.1, 4.0] } else { &[-2.1, -0.3, 0.0, 0.9] });
        let base: &[D3] = &[[0.0, 0.0, 0.0], [5.0, -3.0, 2.0]];
        let sizes: &[f32] = if th { &[0.1, 0.4, 1.0, 3.0] } else { &[0.15, 1.0, 2.5] };
        // Closed sets, on inputs whose arithmetic is exact in f32: the boundary belongs to the volume, a shape
        // that reaches the boundary from inside is contained, one that touches from outside intersects.
        c.sweep("exact contact", |sw| {
            let fl = |v: [i32; 3]| v.map(|x| x as f32);
            let id = [0.0f32, 0.0, 0.0, 1.0];
            let quads: Vec<([i32; 3], i32)> = vec![([3, 0, 0], 3), ([0, 3, 4], 5), ([4, 3, 0], 5), ([1, 2, 2], 3), ([2, 3, 6], 7), ([6, 2, 3], 7), ([0, 0, 7], 7), ([4, 4, 7], 9)];
            let add = |a: [i32; 3], b: [i32; 3]| [a[0] + b[0], a[1] + b[1], a[2] + b[2]];
            let mul = |a: [i32; 3], b: [i32; 3]| [a[0] * b[0], a[1] * b[1], a[2] * b[2]];
            let mut cases: Vec<(Shape, Shape, ContainmentType)> = vec![];
            let mut pts: Vec<(Shape, [i32; 3], ContainmentType)> = vec![];
            for o in [[0, 0, 0], [5, -3, 2]] {
                for k in 0..8i32 {
                    let g = [1 - 2 * (k & 1), 1 - (k & 2), 1 - 2 * (k >> 2)];
                    for (d, r) in &quads {
                        let sp = |c: [i32; 3], r: i32| Shape::Sphere { c: fl(c), r: r as f32 };
                        let at = add(o, mul(*d, g));
                        let big = sp(o, *r);
                        pts.push((big, at, CONTAINS));
                        pts.push((big, add(at, mul(g, [1, 0, 0])), if d[0] >= 0 { DISJOINT } else { CONTAINS }));
                        // a triangle with one vertex on the sphere, the others inside
                        let v = [fl(at), fl(o), fl(add(o, [if d[0] == 0 { 1 } else { 0 }, 1, 0]))];
                        for i in 0..3 {
                            cases.push((big, Shape::Tri([v[i], v[(i + 1) % 3], v[(i + 2) % 3]]), CONTAINS));
                        }
                        // a frustum with its far corners on the sphere
                        if d.iter().all(|x| *x > 0) && g == [1, 1, 1] {
                            let z = d[2] as f32;
                            let (sx, sy) = (d[0] as f32 / z, d[1] as f32 / z);
                            if sx * z == d[0] as f32 && sy * z == d[1] as f32 {
                                cases.push((big, Shape::Frustum { o: fl(o), q: id, s: [sx, -sx, sy, -sy], n: 0.5 * z, f: z }, CONTAINS));
                            }
                        }
                        // a box one corner of which lies on the sphere
                        if d.iter().all(|x| *x > 0) {
                            let e = *d;
                            cases.push((big, Shape::Box { c: fl(o), e: fl(e) }, CONTAINS));
                            cases.push((big, Shape::OBox { c: fl(o), e: fl(e), q: id }, CONTAINS));
                            let m = add(o, mul(g, add(e, [-1, -1, -1])));
                            cases.push((big, Shape::Box { c: fl(m), e: [1.0; 3] }, CONTAINS));
                            cases.push((big, Shape::OBox { c: fl(m), e: [1.0; 3], q: id }, CONTAINS));
                            let m = add(o, mul(g, add(e, [1, 1, 1])));
                            cases.push((big, Shape::Box { c: fl(m), e: [1.0; 3] }, INTERSECTS));
                            cases.push((big, Shape::OBox { c: fl(m), e: [1.0; 3], q: id }, INTERSECTS));
                        }
                        // spheres: internally and externally tangent
                        for f in 1..4 {
                            cases.push((sp(o, r + f), sp(at, f), CONTAINS));
                            cases.push((sp(o, r - 1), sp(at, 1), INTERSECTS));
                        }
                        cases.push((big, big, CONTAINS));
                    }
                    let e = [4, 3, 5];
                    for kind in 0..3 {
                        // the frustum is used through its near and far planes only
                        let a = match kind {
                            0 => Shape::Box { c: fl(o), e: fl(e) },
                            1 => Shape::OBox { c: fl(o), e: fl(e), q: id },
                            _ => Shape::Frustum { o: fl(add(o, [0, 0, -20])), q: id, s: [2.0, -2.0, 2.0, -2.0], n: 15.0, f: 25.0 },
                        };
                        for m in 1..8i32 {
                            if kind == 2 && m != 4 {
                                continue;
                            }
                            for inner in [0, 1] {
                                let pos = |d: i32| {
                                    let mut c = [0; 3];
                                    for i in 0..3 {
                                        c[i] = o[i] + g[i] * if m >> i & 1 != 0 { e[i] + d } else { inner };
                                    }
                                    c
                                };
                                pts.push((a, pos(0), CONTAINS));
                                pts.push((a, pos(1), DISJOINT));
                                for (d, w) in [(-1, if kind == 2 { INTERSECTS } else { CONTAINS }), (1, INTERSECTS)] {
                                    let f = [1.0f32; 3];
                                    if d < 0 || m.count_ones() == 1 {
                                        cases.push((a, Shape::Sphere { c: fl(pos(d)), r: 1.0 }, w));
                                    }
                                    cases.push((a, Shape::Box { c: fl(pos(d)), e: f }, w));
                                    cases.push((a, Shape::OBox { c: fl(pos(d)), e: f, q: id }, w));
                                    let v = [fl(pos(0)), fl(pos(d)), fl(add(pos(d), mul(g, if m & 1 == 0 { [d, 0, 0] } else { [0, 0, d] })))];
                                    for i in 0..3 {
                                        cases.push((a, Shape::Tri([v[i], v[(i + 1) % 3], v[(i + 2) % 3]]), w));
                                    }
                                    // 0.75 wide at most, 2 deep: contact through near and far planes only
                                    if d < 0 || m == 4 {
                                        cases.push((a, Shape::Frustum { o: fl(add(pos(d), [0, 0, -2])), q: id, s: [0.25, -0.25, 0.25, -0.25], n: 1.0, f: 3.0 }, w));
                                    }
                                }
                            }
                        }
                        if kind < 2 {
                            cases.push((a, Shape::Box { c: fl(o), e: fl(e) }, CONTAINS));
                            cases.push((a, Shape::OBox { c: fl(o), e: fl(e), q: id }, CONTAINS));
                            cases.push((a, Shape::Sphere { c: fl(o), r: 3.0 }, CONTAINS));
                        }
                    }
                }
            }
            for (a, x, w) in &pts {
                let v = v3w(fl(*x), 1.0);
                sw.state();
                at(|| format!("{:?} {:?}", a, x));
                let g = match lib(a) {
                    Lib::S(s) => s.ContainsPoint(v),
                    Lib::B(s) => s.ContainsPoint(v),
                    Lib::O(s) => s.ContainsPoint(v),
                    Lib::F(s) => s.ContainsPoint(v),
                    _ => unreachable!(),
                };
                sw.t(g == *w, (g as u64) << 52, || (format!("{:?} point {:?}", a, x), format!("{:?}", g), format!("{:?}", w)));
            }
            for (a, b, w) in &cases {
                sw.state();
                at(|| format!("{:?} {:?}", a, b));
                let g = lib_contains(&lib(a), &lib(b)).unwrap();
                sw.t(g == *w, (g as u64) << 52, || (format!("A={:?} B={:?} (in contact)", a, b), format!("{:?}", g), format!("{:?}", w)));
            }
        });
        for (na, sa) in groups.iter().take(4) {
            c.sweep(&format!("{} contains point", na), |sw| {
                let mut cnt: BTreeMap<String, u64> = Default::default();
                for a0 in sa {
                    for (k, p) in point_of(a0).into_iter().chain(lat.iter().copied()).enumerate() {
                        for (io, off) in base.iter().enumerate() {
                            let sc = SCALES[(k + 2 * io) % SCALES.len()];
                            let a = scaled(&moved(a0, *off), sc);
                            let x = rd3(add3(p, *off)).map(|e| e * sc);
                            let m = match a {
                                Shape::Sphere { c, r } => len3(sub3(d3(x), d3(c))) - r as f64,
                                _ => face_dist(&poly(&a), d3(x)),
                            };
                            if m.abs() < 1.0e-4 * sc as f64 {
                                continue;
                            }
                            let w = if m < 0.0 { CONTAINS } else { DISJOINT };
                            sw.state();
                            let v = v3w(x, [1.0f32, 0.0, -7.0, 1.0e9, f32::NAN][k % 5]);
                            at(|| format!("{:?} {:?}", a, x));
                            let g = match lib(&a) {
                                Lib::S(s) => s.ContainsPoint(v),
                                Lib::B(s) => s.ContainsPoint(v),
                                Lib::O(s) => s.ContainsPoint(v),
                                Lib::F(s) => s.ContainsPoint(v),
                                _ => unreachable!(),
                            };
                            if meas {
                                *cnt.entry(format!("{:?}", w)).or_default() += 1;
                            }
                            sw.t(g == w, (g as u64) << 52, || (format!("{:?} point {:?} w={:?} margin={:.5}", a, x, fb(v)[3], m), format!("{:?}", g), format!("{:?}", w)));
                        }
                    }
                }
                if meas {
                    eprintln!("{} point {:?} fails {}", na, cnt, sw.st.fails);
                }
            });
            for (nb, sb) in &groups {
                c.sweep(&format!("{} contains {}", na, nb), |sw| {
                    let cnt: RefCell<BTreeMap<String, u64>> = Default::default();
                    for (ia, a0) in sa.iter().enumerate() {
                        for (ib, b1) in sb.iter().enumerate() {
                            for &k in sizes {
                                let b0 = scaled(b1, k);
                                let off = base[(ia + ib) % base.len()];
                                let sc = SCALES[(ia + 2 * ib) % SCALES.len()];
                                let a = pre(scaled(&moved(a0, off), sc));
                                let la = lib(&a.s);
                                let ax = pair_axes(&a, &pre(b0));
                                let mut ps = placements(a0, &b0, clear, &lat);
                                if *nb == "sphere" && !th && *na != "sphere" {
                                    ps = ps.into_iter().enumerate().filter(|(i, _)| i % 3 == 0).map(|x| x.1).collect();
                                }
                                // concentric
                                let pm = |s: &Shape| match s {
                                    Shape::Sphere { c, .. } => d3(*c),
                                    s => { let p = poly(s); mul3(p.v.iter().fold([0.0; 3], |x, y| add3(x, *y)), 1.0 / p.v.len() as f64) }
                                };
                                ps.push(sub3(pm(a0), pm(&b0)));
                                for t in ps {
                                    let b = pre(scaled(&moved(&b0, add3(t, off)), sc));
                                    let w = match want(&a, &b, &ax, 1.0e-3 * sc as f64) {
                                        Some(w) => w,
                                        None => continue,
                                    };
                                    sw.state();
                                    let lb = lib(&b.s);
                                    at(|| format!("{:?} {:?}", a.s, b.s));
                                    let g = lib_contains(&la, &lb).unwrap();
                                    if meas {
                                        *cnt.borrow_mut().entry(format!("{:?}", w)).or_default() += 1;
                                    }
                                    sw.t(g == w, (g as u64) << 52, || (format!("A={:?} B={:?} contain-margin={:.4} disjoint-margin={:.4}", a.s, b.s, contain_margin(&a.s, &b.s), isect_margin(&a.s, &b.s)), format!("{:?}", g), format!("{:?}", w)));
                                    // never contradicts the matching intersection test
                                    if let Some(i) = lib_intersects(&la, &lb) {
                                        let ok = if *na == "frustum" { (g != DISJOINT || !i) && (g != CONTAINS || i) } else { (g == DISJOINT) == !i };
                                        sw.t(ok, i as u64, || (format!("A={:?} B={:?}", a.s, b.s), format!("Contains {:?} but Intersects {}", g, i), "consistent answers".into()));
                                    }
                                }
                            }
                        }
                    }
                    if meas {
                        eprintln!("{} {} {:?} fails {}", na, nb, cnt.borrow(), sw.st.fails);
                    }
                });
            }
        }
    });
}
