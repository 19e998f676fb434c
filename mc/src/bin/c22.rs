//! C22: plane side classification and six-plane containment.
use mc::dom::*;
use mc::geo::*;
use mc::refm::*;
use mc::*;
use ContainmentType::*;
use PlaneIntersectionType::*;

fn range(s: &Shape, n: D3) -> (f64, f64) {
    match s {
        Shape::Sphere { c, r } => {
            let d = dot3(n, d3(*c));
            (d - *r as f64, d + *r as f64)
        }
        s => ext(&poly(s), n),
    }
}
fn side(s: &Shape, p: XMVECTOR) -> PlaneIntersectionType {
    match lib(s) {
        Lib::S(x) => x.IntersectsPlane(p),
        Lib::B(x) => x.IntersectsPlane(p),
        Lib::O(x) => x.IntersectsPlane(p),
        Lib::F(x) => x.IntersectsPlane(p),
        Lib::T(a, b, c) => triangle_tests::IntersectsPlane(a, b, c, p),
    }
}
fn within(s: &Shape, p: &[XMVECTOR; 6]) -> ContainmentType {
    match lib(s) {
        Lib::S(x) => x.ContainedBy(p[0], p[1], p[2], p[3], p[4], p[5]),
        Lib::B(x) => x.ContainedBy(p[0], p[1], p[2], p[3], p[4], p[5]),
        Lib::O(x) => x.ContainedBy(p[0], p[1], p[2], p[3], p[4], p[5]),
        Lib::F(x) => x.ContainedBy(p[0], p[1], p[2], p[3], p[4], p[5]),
        Lib::T(a, b, c) => triangle_tests::ContainedBy(a, b, c, p[0], p[1], p[2], &p[3], &p[4], &p[5]),
    }
}

/// six planes with the shape deep inside all of them
fn far6(s: &Shape, u: f64) -> [XMVECTOR; 6] {
    [0, 1, 2, 3, 4, 5].map(|j: usize| {
        let mut m = [0.0f32; 3];
        m[j / 2] = if j % 2 == 0 { 1.0 } else { -1.0 };
        let (lo, hi) = range(s, d3(m));
        v3w(m, -(hi + 10.0 * (hi - lo + hi.abs() + u)) as f32)
    })
}

fn main() {
    Ctx::main("C22", |c| {
        let th = c.thorough();
        let groups: Vec<(&str, Vec<Shape>)> = vec![("sphere", spheres()), ("box", boxes()), ("obox", [oboxes(true), slender_oboxes()].concat()), ("frustum", [frustums(true), slender_frustums()].concat()), ("triangle", [tris(true), slender_tris()].concat())];
        let da: &[f32] = if th { &[-1.0, -0.6, -0.2, 0.0, 0.1, 0.5, 1.0] } else { &[-1.0, -0.5, 0.0, 0.2, 1.0] };
        let normals: Vec<[f32; 3]> = vec3s(da).into_iter().filter(|v| v.iter().any(|x| *x != 0.0)).map(|v| rd3(norm3(d3(v)))).collect();
        let base: &[D3] = &[[0.0, 0.0, 0.0], [5.0, -3.0, 2.0], [-1.5, 0.25, 4.0]];
        // Planes through the extreme point of a shape: exact in f32, and contact is not separation.
        c.sweep("exact contact", |sw| {
            let q = [0.0f32, 0.0, 0.0, 1.0];
            let mut all: Vec<Shape> = vec![];
            for c in [[0.0f32, 0.0, 0.0], [3.0, -2.0, 5.0], [-7.0, 1.0, -1.0]] {
                for e in [[1.0f32, 2.0, 3.0], [4.0, 0.5, 1.0]] {
                    all.push(Shape::Box { c, e });
                    all.push(Shape::OBox { c, e, q });
                    all.push(Shape::Tri([[c[0] + e[0], c[1], c[2] - e[1]], [c[0], c[1] + e[2], c[2]], [c[0] - 1.0, c[1] - e[1], c[2] + e[0]]]));
                    all.push(Shape::Frustum { o: c, q, s: [1.0, -0.5, 0.25, -0.25], n: e[1], f: e[1] + 4.0 });
                }
                for r in [1.0f32, 2.5] {
                    all.push(Shape::Sphere { c, r });
                }
            }
            for s in &all {
                for k in 0..6 {
                    let mut n = [0.0f32; 3];
                    n[k / 2] = if k % 2 == 0 { 1.0 } else { -1.0 };
                    let (lo, hi) = range(s, d3(n));
                    for (off, w, inside) in [(lo, INTERSECTING, INTERSECTS), (hi, INTERSECTING, INTERSECTS), (lo - 0.25, FRONT, DISJOINT), (hi + 0.25, BACK, CONTAINS)] {
                        let p = v3w(n, -off as f32);
                        sw.state();
                        at(|| format!("{:?} {:?} {}", s, n, off));
                        let g = side(s, p);
                        sw.t(g == w, (g as u64) << 52, || (format!("{:?} plane {:?} {}", s, n, -off), format!("{:?}", g), format!("{:?}", w)));
                        for slot in 0..6 {
                            // the other five planes far outside the shape
                            let mut pl = [0, 1, 2, 3, 4, 5].map(|j: usize| {
                                let mut m = [0.0f32; 3];
                                m[j / 2] = if j % 2 == 0 { 1.0 } else { -1.0 };
                                v3w(m, -100.0)
                            });
                            pl[slot] = p;
                            let g = within(s, &pl);
                            sw.t(g == inside, (g as u64) << 52, || (format!("{:?} plane {:?} {} in slot {} of six", s, n, -off, slot), format!("{:?}", g), format!("{:?}", inside)));
                        }
                    }
                }
            }
        });
        for (name, shapes) in &groups {
            c.sweep(&format!("{} / plane", name), |sw| {
                let mut slot = 0usize;
                for (k, s0) in shapes.iter().enumerate() {
                    let sc = SCALES[k % SCALES.len()];
                    let s = scaled(&moved(s0, base[k % 3]), sc);
                    let u = sc as f64;
                    // the shape's own face normals, where the extremes are attained by whole faces, too
                    let mut ns = normals.clone();
                    if let Shape::Sphere { .. } = s {
                    } else {
                        ns.extend(poly(&s).faces.iter().map(|f| rd3(*f)));
                    }
                    for nf in &ns {
                        let n = d3(*nf);
                        let (lo, hi) = range(&s, n);
                        for at_ in [lo - 3.0 * u, lo - 0.01 * u, lo - 0.002 * u, lo + 0.002 * u, lo + 0.01 * u, 0.9 * lo + 0.1 * hi, 0.3 * lo + 0.7 * hi, 0.5 * (lo + hi), hi - 0.01 * u, hi - 0.002 * u, hi + 0.002 * u, hi + 0.01 * u, hi + 30.0 * u] {
                            let d = (-at_) as f32;
                            let off = -(d as f64);
                            if (lo - off).abs() < 1.0e-3 * u || (hi - off).abs() < 1.0e-3 * u {
                                continue;
                            }
                            let w = if lo > off { FRONT } else if hi < off { BACK } else { INTERSECTING };
                            sw.state();
                            at(|| format!("{:?} {:?} {}", s, nf, d));
                            let g = side(&s, v3w(*nf, d));
                            sw.t(g == w, (g as u64) << 52, || (format!("{:?} plane {:?} {}", s, nf, d), format!("{:?}", g), format!("{:?}", w)));
                            // the same plane as one of six, the others far outside
                            if (off - hi).abs() < 0.005 * u || (off - lo).abs() < 0.005 * u {
                                slot = (slot + 1) % 6;
                                let mut pl = far6(&s, u);
                                pl[slot] = v3w(*nf, d);
                                let w = if lo > off { DISJOINT } else if hi < off { CONTAINS } else { INTERSECTS };
                                let g = within(&s, &pl);
                                sw.t(g == w, (g as u64) << 52, || (format!("{:?} plane {:?} {} in slot {} of six", s, nf, d, slot), format!("{:?}", g), format!("{:?}", w)));
                            }
                        }
                    }
                }
            });
            c.sweep(&format!("{} / six planes", name), |sw| {
                // three sets of six normals; every slot independently inside / cutting / outside: 3^6 cases each
                let sets: [[D3; 6]; 3] = [
                    [[0.0, 0.0, -1.0], [0.0, 0.0, 1.0], [1.0, 0.0, -0.5], [-1.0, 0.0, -0.4], [0.0, 1.0, -0.3], [0.0, -1.0, -0.6]],
                    [[1.0, 2.0, -3.0], [-1.0, 0.4, 0.1], [0.3, -1.0, 1.0], [0.2, 0.5, 1.0], [-1.0, -1.0, -1.0], [1.0, 0.0, 0.0]],
                    // pairs of nearly opposite and nearly equal normals
                    [[1.0, 0.0, 0.01], [-1.0, 0.012, 0.0], [0.0, 1.0, 0.0], [0.012, 1.0, 0.005], [0.0, 0.01, -1.0], [0.013, 0.0, -1.0]],
                ];
                for (k, s0) in shapes.iter().enumerate() {
                    let sc = SCALES[k % SCALES.len()];
                    let s = scaled(&moved(s0, base[k % 3]), sc);
                    let u = sc as f64;
                    for (si, set) in sets.iter().enumerate() {
                        let mut pl: Vec<[XMVECTOR; 3]> = vec![];
                        let mut txt: Vec<[F4; 3]> = vec![];
                        for n in set {
                            let nf = rd3(norm3(*n));
                            let (lo, hi) = range(&s, d3(nf));
                            // inside: everything on the negative side
                            let d = [-(hi + (0.02 + (si % 2) as f64) * u), -(0.5 * (lo + hi)), -(lo - (0.02 + (si % 2) as f64) * u)].map(|x| x as f32);
                            if hi - lo < 0.01 * u {
                                // seen edge-on: a cutting plane would only graze it
                                let x = [-(hi + 0.02 * u) as f32, -(hi + 0.02 * u) as f32, -(lo - 0.02 * u) as f32];
                                pl.push(x.map(|e| v3w(nf, e)));
                                txt.push(x.map(|e| [nf[0], nf[1], nf[2], e]));
                                continue;
                            }
                            pl.push(d.map(|e| v3w(nf, e)));
                            txt.push(d.map(|e| [nf[0], nf[1], nf[2], e]));
                        }
                        for code in 0..729usize {
                            let mut x = code;
                            let mut st = [0usize; 6];
                            for e in st.iter_mut() {
                                *e = x % 3;
                                x /= 3;
                            }
                            let p: [XMVECTOR; 6] = [pl[0][st[0]], pl[1][st[1]], pl[2][st[2]], pl[3][st[3]], pl[4][st[4]], pl[5][st[5]]];
                            let mut w = CONTAINS;
                            for i in 0..6 {
                                let q = txt[i][st[i]];
                                let (lo, hi) = range(&s, [q[0] as f64, q[1] as f64, q[2] as f64]);
                                if lo + q[3] as f64 > 0.0 {
                                    w = DISJOINT;
                                    break;
                                }
                                if hi + q[3] as f64 > 0.0 {
                                    w = INTERSECTS;
                                }
                            }
                            sw.state();
                            at(|| format!("{:?} {:?} {}", s, st, si));
                            let g = within(&s, &p);
                            sw.t(g == w, (g as u64) << 52, || {
                                (format!("{:?} planes {:?}", s, (0..6).map(|i| txt[i][st[i]]).collect::<Vec<_>>()), format!("{:?}", g), format!("{:?}", w))
                            });
                        }
                    }
                }
            });
        }
    });
}
