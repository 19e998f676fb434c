//! C21: ray tests.
#![allow(non_snake_case)]
use mc::dom::*;
use mc::geo::*;
use mc::refm::*;
use mc::*;
use std::collections::BTreeMap;

/// The parameter interval of the line o + t d inside the polytope grown by g on every face.
fn clip(p: &Poly, o: D3, d: D3, g: f64) -> Option<(f64, f64)> {
    let (mut lo, mut hi) = (f64::NEG_INFINITY, f64::INFINITY);
    for n in &p.faces {
        let h = ext(p, *n).1 + g - dot3(o, *n);
        let v = dot3(d, *n);
        if v.abs() < 1.0e-7 {
            if h < 0.0 {
                return None;
            }
        } else if v > 0.0 {
            hi = hi.min(h / v);
        } else {
            lo = lo.max(h / v);
        }
    }
    if lo <= hi { Some((lo, hi)) } else { None }
}
fn sph(c: D3, r: f64, o: D3, d: D3) -> Option<(f64, f64)> {
    if r < 0.0 {
        return None;
    }
    let l = sub3(c, o);
    let s = dot3(l, d);
    let m2 = dot3(l, l) - s * s;
    if m2 > r * r {
        return None;
    }
    let q = (r * r - m2).sqrt();
    Some((s - q, s + q))
}
fn interval(s: &Shape, o: D3, d: D3, g: f64) -> Option<(f64, f64)> {
    match s {
        Shape::Sphere { c, r } => sph(d3(*c), *r as f64 + g, o, d),
        s => clip(&poly(s), o, d, g),
    }
}
enum W {
    Skip,
    Miss,
    /// entry, exit, tolerance
    Hit(f64, f64, f64),
}
/// sc: the scale of the scene, which the clearances follow
fn want(s: &Shape, o: D3, d: D3, sc: f64) -> W {
    let G: f64 = 2.0e-3 * sc;
    if let Shape::Tri(v) = s {
        let p = poly(s);
        let n = p.faces[0];
        let den = dot3(d, n);
        let h = dot3(sub3(d3(v[0]), o), n);
        if den.abs() < 1.0e-9 {
            // parallel: a miss when clearly off the plane, too close to call within it
            return if den == 0.0 && h.abs() > G { W::Miss } else { W::Skip };
        }
        if den.abs() < 1.0e-3 {
            return W::Skip;
        }
        let G = G * (0.02 / den.abs()).max(1.0);
        let t = h / den;
        let x = add3(o, mul3(d, t));
        let m = p.faces[2..].iter().map(|e| dot3(x, *e) - ext(&p, *e).1).fold(f64::NEG_INFINITY, f64::max);
        if m > G || t < -G {
            return W::Miss;
        }
        if m < -G && t > G {
            return W::Hit(t, t, 1.0e-5 * (sc + t) / den.abs());
        }
        return W::Skip;
    }
    let (a, b, c) = (interval(s, o, d, -G), interval(s, o, d, 0.0), interval(s, o, d, G));
    match (a, b, c) {
        (_, _, None) => W::Miss,
        (_, _, Some((_, hi))) if hi < 0.0 => W::Miss,
        (Some((la, ha)), Some((lo, hi)), Some((lc, hc))) if ha > 0.0 && la.min(lo).abs() > 0.0 => {
            // starting within G of the surface is too close to call
            if (la > 0.0) != (lc > 0.0) {
                return W::Skip;
            }
            W::Hit(lo, hi, 1.0e-4 * (sc + lo.abs().max(hi.abs())) + 0.1 * ((la - lc).abs() + (ha - hc).abs()))
        }
        _ => W::Skip,
    }
}
fn cast(s: &Shape, o: XMVECTOR, d: XMVECTOR, dist: &mut f32) -> bool {
    match lib(s) {
        Lib::S(x) => x.IntersectsRay(o, d, dist),
        Lib::B(x) => x.IntersectsRay(o, d, dist),
        Lib::O(x) => x.IntersectsRay(o, d, dist),
        Lib::F(x) => x.IntersectsRay(o, d, dist),
        Lib::T(a, b, c) => triangle_tests::IntersectsRay(o, d, a, b, c, dist),
    }
}

fn main() {
    Ctx::main("C21", |c| {
        let th = c.thorough();
        let meas = std::env::var("MC_MEASURE").is_ok();
        let groups: Vec<(&str, Vec<Shape>)> = vec![("sphere", spheres()), ("box", boxes()), ("obox", [oboxes(th), slender_oboxes()].concat()), ("frustum", [frustums(th), slender_frustums()].concat()), ("triangle", [tris(th), slender_tris()].concat())];
        let da: &[f32] = if th { &[-1.0, -0.5, -0.1, 0.0, 0.25, 0.6, 1.0] } else { &[-1.0, -0.5, 0.0, 0.25, 1.0] };
        let mut dirs: Vec<[f32; 3]> = vec3s(da).into_iter().filter(|v| v.iter().any(|x| *x != 0.0)).map(|v| rd3(norm3(d3(v)))).collect();
        dirs.sort_by(|a, b| a.partial_cmp(b).unwrap());
        dirs.dedup_by(|a, b| (0..3).all(|i| (a[i] - b[i]).abs() < 1.0e-6));
        let org = lattice(if th { &[-4.0, -2.3, -0.9, 0.0, 0.2, 1.1, 3.7] } else { &[-2.3, 0.0, 0.2, 1.1, 3.7] });
        let base: &[D3] = &[[0.0, 0.0, 0.0], [5.0, -3.0, 2.0]];
        // axis-parallel directions tilted by very little
        let mut tilted: Vec<D3> = vec![];
        for i in 0..3 {
            for sg in [1.0, -1.0] {
                for u in [0.0, 1.0e-3, -1.0e-5, 1.0e-8] {
                    for v in [0.0, -1.0e-3, 1.0e-5] {
                        let mut d = [0.0; 3];
                        d[i] = sg;
                        d[(i + 1) % 3] = u;
                        d[(i + 2) % 3] = v;
                        tilted.push(norm3(d));
                    }
                }
            }
        }
        let junk = [0.0f32, 1.0, -5.0, 1.0e6];
        // Axis-parallel rays against integer shapes: every quantity is exact, rays along faces and edges and
        // origins on the surface included.
        c.sweep("exact contact", |sw| {
            let id = [0.0f32, 0.0, 0.0, 1.0];
            let put = |sw: &mut Sweep, s: Shape, o: [i32; 3], d: [i32; 3], w: Option<f32>| {
                let mut dist = -77.0f32;
                sw.state();
                at(|| format!("{:?} {:?} {:?}", s, o, d));
                let g = cast(&s, v3w(o.map(|x| x as f32), 1.0), v3w(d.map(|x| x as f32), 0.0), &mut dist);
                let ok = match w {
                    None => !g && dist == 0.0,
                    Some(x) => g && dist == x,
                };
                sw.t(ok, (g as u64) << 52 | dist.to_bits() as u64, || (format!("{:?} origin {:?} direction {:?}", s, o, d), format!("{} {:?}", g, dist), format!("{:?}", w)));
            };
            for c in [[0, 0, 0], [5, -3, 2]] {
                let f = c.map(|x: i32| x as f32);
                for i in 0..3 {
                    for sg in [1, -1] {
                        let (j, k) = ((i + 1) % 3, (i + 2) % 3);
                        let mut d = [0; 3];
                        d[i] = sg;
                        let org = |a: i32, b: i32, t: i32| {
                            let mut o = c;
                            o[i] -= sg * t;
                            o[j] += a;
                            o[k] += b;
                            o
                        };
                        for e in [[2, 1, 3], [4, 2, 1], [0, 2, 3], [2, 0, 1], [1, 3, 0]] {
                            let ef = e.map(|x: i32| x as f32);
                            for a in -e[j] - 1..=e[j] + 1 {
                                for b in -e[k] - 1..=e[k] + 1 {
                                    let inside = a.abs() <= e[j] && b.abs() <= e[k];
                                    for t in [e[i] + 5, e[i] + 1, e[i], 0, -e[i], -e[i] - 1, -e[i] - 5] {
                                        let w = if inside && t >= -e[i] { Some((t - e[i]) as f32) } else { None };
                                        put(sw, Shape::Box { c: f, e: ef }, org(a, b, t), d, w);
                                        put(sw, Shape::OBox { c: f, e: ef, q: id }, org(a, b, t), d, w);
                                    }
                                }
                            }
                        }
                        // spheres: chords of whole length, tangents
                        for (r, a, b, h) in [(5, 3, 0, 4), (5, 0, -4, 3), (5, 5, 0, 0), (3, 2, -2, 1), (3, 1, 2, 2), (7, -3, 6, 2), (3, 0, -3, 0), (9, 4, -4, 7), (5, 4, 4, -1), (3, 3, 1, -1)] {
                            let s = Shape::Sphere { c: f, r: r as f32 };
                            for t in [h + 10, h + 1, h, 1, 0, -1, -h, -h - 1, -h - 10] {
                                // origins inside or on the surface report the exit
                                let out = a * a + b * b + t * t > r * r;
                                let w = if h < 0 || t < -h || (out && t < 0) { None } else if out { Some((t - h) as f32) } else { Some((t + h) as f32) };
                                put(sw, s, org(a, b, t), d, w);
                            }
                        }
                        // a frustum, its origin at c: through near and far planes, and within them
                        let s = Shape::Frustum { o: f, q: id, s: [1.0, -1.0, 1.0, -1.0], n: 2.0, f: 6.0 };
                        for a in -3..=3 {
                            for b in -7..=7 {
                                if i == 2 {
                                    for z in [-3, 2, 6, 9] {
                                        let mut o = [c[0] + a, c[1], c[2] + z];
                                        o[1] += b.clamp(-1, 1);
                                        // clear of the slanted sides: every ray along z that enters through the near plane
                                        if a.abs() < 2 {
                                            let w = if sg > 0 { [Some(5.0), Some(0.0), Some(0.0), None] } else { [None, Some(0.0), Some(0.0), Some(3.0)] };
                                            put(sw, s, o, d, w[[-3, 2, 6, 9].iter().position(|x| *x == z).unwrap()]);
                                        }
                                    }
                                } else {
                                    // in the plane at depth z the sides are at +-z
                                    for z in [1, 2, 6, 7] {
                                        let mut o = c;
                                        o[i] -= sg * 10;
                                        o[1 - i] += a;
                                        o[2] += z;
                                        let mut dist = -77.0f32;
                                        if a.abs() == z || b != 0 {
                                            continue;
                                        }
                                        let hit = (z == 2 || z == 6) && a.abs() < z;
                                        sw.state();
                                        at(|| format!("{:?} {:?} {:?}", s, o, d));
                                        let g = cast(&s, v3w(o.map(|x| x as f32), 1.0), v3w(d.map(|x| x as f32), 0.0), &mut dist);
                                        let want = if hit { (10 - z) as f32 } else { 0.0 };
                                        sw.t(g == hit && (dist - want).abs() < 1.0e-4, (g as u64) << 52, || (format!("{:?} origin {:?} direction {:?}", s, o, d), format!("{} {:?}", g, dist), format!("{} {}", hit, want)));
                                    }
                                }
                            }
                        }
                        // a triangle across the ray; interior, edges and vertices
                        for n in [3, 4] {
                            let mut v = [[0f32; 3]; 3];
                            for (x, y) in v.iter_mut().zip([org(0, 0, 0), org(n, 0, 0), org(0, n, 0)]) {
                                *x = y.map(|q| q as f32);
                            }
                            for rot in 0..6 {
                                let mut u = [v[rot % 3], v[(rot + 1) % 3], v[(rot + 2) % 3]];
                                if rot >= 3 {
                                    u.swap(1, 2);
                                }
                                for a in -1..=n + 1 {
                                    for b in -1..=n + 1 {
                                        for t in [7, 1, 0, -1, -7] {
                                            let w = if a >= 0 && b >= 0 && a + b <= n && t >= 0 { Some(t as f32) } else { None };
                                            put(sw, Shape::Tri(u), org(a, b, t), d, w);
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        });
        for (name, shapes) in &groups {
            c.sweep(&format!("ray / {}", name), |sw| {
                let mut cnt: BTreeMap<&str, u64> = Default::default();
                let mut one = |sw: &mut Sweep, s: &Shape, of: [f32; 3], df: [f32; 3], k: usize, far: f64| {
                    let sc = SCALES[(k / 64) % SCALES.len()];
                    let (s, of) = (&scaled(s, sc), of.map(|x| x * sc));
                    let (o, d) = (d3(of), d3(df));
                    // rounding grows with the distance the ray has to cover
                    let w = want(s, o, norm3(d), sc as f64 + 5.0e-4 * far * sc as f64);
                    if let W::Skip = w {
                        return;
                    }
                    sw.state();
                    let mut dist = -77.0f32;
                    at(|| format!("{:?} {:?} {:?}", s, of, df));
                    let g = cast(s, v3w(of, junk[k % 4]), v3w(df, junk[(k / 4) % 4]), &mut dist);
                    let dd = dist as f64;
                    let (ok, txt) = match w {
                        W::Miss => (!g && dist == 0.0, "miss, distance 0".to_string()),
                        W::Hit(lo, hi, tol) => {
                            let okd = if lo > 0.0 {
                                (dd - lo).abs() <= tol
                            } else {
                                // origin inside the solid
                                match s {
                                    Shape::Sphere { .. } => (dd - hi).abs() <= tol,
                                    Shape::Frustum { .. } => dist == 0.0,
                                    _ => (dd - lo).abs() <= tol,
                                }
                            };
                            (g && okd, format!("hit, enters at {} leaves at {} tolerance {}", lo, hi, tol))
                        }
                        W::Skip => unreachable!(),
                    };
                    *cnt.entry(match w { W::Miss => "miss", W::Hit(lo, ..) if lo > 0.0 => "hit", _ => "inside" }).or_default() += 1;
                    sw.t(ok, (g as u64) << 52 | (dist.to_bits() as u64).wrapping_mul(0x9E3779B97F4A7C15), || (format!("{:?} origin {:?} direction {:?}", s, of, df), format!("{} {:?}", g, dist), txt.clone()));
                };
                let mut k = 0usize;
                for s0 in shapes {
                    for off in base {
                        let s = moved(s0, *off);
                        for o in &org {
                            let of = rd3(add3(*o, *off));
                            for d in &dirs {
                                k += 1;
                                one(sw, &s, of, *d, k, 0.0);
                            }
                        }
                        // along the shape's own edges and face normals, and tilted slightly off its axes
                        let mut own: Vec<[f32; 3]> = vec![];
                        match s {
                            Shape::Sphere { .. } => {}
                            Shape::Box { .. } => own.extend(tilted.iter().map(|d| rd3(*d))),
                            Shape::OBox { q, .. } | Shape::Frustum { q, .. } => own.extend(tilted.iter().step_by(if th { 1 } else { 3 }).map(|d| rd3(qrot(qnorm(d4(q)), *d)))),
                            Shape::Tri(_) => {}
                        }
                        if let Shape::Sphere { .. } = s {
                        } else {
                            let p = poly(&s);
                            for e in p.edges.iter().chain(&p.faces) {
                                own.push(rd3(*e));
                                own.push(rd3(mul3(*e, -1.0)));
                                own.push(rd3(norm3(add3(*e, [3.0e-3, -2.0e-3, 1.0e-3]))));
                            }
                        }
                        for o in &org {
                            let of = rd3(add3(*o, *off));
                            for d in &own {
                                k += 1;
                                one(sw, &s, of, *d, k, 0.0);
                            }
                        }
                        // origins just inside and just outside every face, in every direction
                        let skin: Vec<D3> = match s {
                            Shape::Sphere { c, r } => tilted.iter().step_by(6).flat_map(|d| [0.99, 1.01].map(|q| add3(d3(c), mul3(*d, r as f64 * q)))).collect(),
                            _ => {
                                let p = poly(&s);
                                p.faces.iter().flat_map(|n| [-0.01, 0.01].map(|q| add3(support(&p, *n), mul3(*n, q)))).collect()
                            }
                        };
                        for o in &skin {
                            for d in dirs.iter().chain(&own) {
                                k += 1;
                                one(sw, &s, rd3(*o), *d, k, 0.0);
                            }
                        }
                        // aimed rays: at points just inside and just outside every edge and vertex, from each lattice origin
                        let targets: Vec<D3> = match s {
                            Shape::Sphere { c, r } => lattice(&[-0.98, 0.0, 0.55, 1.02]).iter().map(|v| add3(d3(c), mul3(*v, r as f64))).collect(),
                            _ => {
                                let p = poly(&s);
                                let mid = mul3(p.v.iter().fold([0.0; 3], |x, y| add3(x, *y)), 1.0 / p.v.len() as f64);
                                let mut t = vec![mid];
                                for i in 0..p.v.len() {
                                    for j in 0..=i {
                                        let e = mul3(add3(p.v[i], p.v[j]), 0.5);
                                        for q in [0.95, 1.05] {
                                            t.push(add3(mid, mul3(sub3(e, mid), q)));
                                        }
                                    }
                                }
                                t
                            }
                        };
                        // rays from far away that graze the shape's edges and faces at a tiny angle
                        if let Shape::Sphere { .. } = s {
                        } else {
                            let p = poly(&s);
                            let tilt = [0.0, 5.0e-5, -2.0e-5, 3.0e-4];
                            for (i, e) in p.edges.iter().enumerate() {
                                let a = norm3(if e[0].abs() < 0.7 { cross3(*e, [1.0, 0.0, 0.0]) } else { cross3(*e, [0.0, 1.0, 0.0]) });
                                let b = cross3(*e, a);
                                for u in tilt {
                                    for v in tilt {
                                        let df = rd3(norm3(add3(*e, add3(mul3(a, u), mul3(b, v)))));
                                        for (j, t) in targets.iter().enumerate() {
                                            for l in [150.0, 3000.0, -3000.0, 3.0e4] {
                                                k += 1;
                                                if !th && (i + j) % 2 != 0 && l != 3.0e4 {
                                                    continue;
                                                }
                                                one(sw, &s, rd3(sub3(*t, mul3(d3(df), l))), df, k, l.abs());
                                            }
                                        }
                                    }
                                }
                            }
                        }
                        for (i, o) in org.iter().enumerate() {
                            let of = rd3(add3(*o, *off));
                            for (j, t) in targets.iter().enumerate() {
                                let d = sub3(*t, d3(of));
                                if (i + j) % 3 != 0 && !th || len3(d) < 1.0e-3 {
                                    continue;
                                }
                                k += 1;
                                one(sw, &s, of, rd3(norm3(d)), k, 0.0);
                                // and directly away from it
                                if j % 4 == 0 {
                                    one(sw, &s, of, rd3(norm3(mul3(d, -1.0))), k, 0.0);
                                }
                            }
                        }
                    }
                }
                if meas {
                    eprintln!("{} {:?} fails {}", name, cnt, sw.st.fails);
                }
            });
        }
    });
}
