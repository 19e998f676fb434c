//! C18: plane construction, evaluation, intersection and transform.
use mc::dom::*;
use mc::refm::*;
use mc::*;

fn worst3(g: F4, w: D3) -> f64 {
    (0..3).map(|i| (g[i] as f64 - w[i]).abs()).fold(0.0, |a, b| if b.is_nan() { f64::INFINITY } else { a.max(b) })
}

fn main() {
    Ctx::main("C18", |c| {
        let th = c.thorough();
        let al: &[f32] = if th { &[-3.0, -1.0, -0.5, 0.0, 0.25, 1.0, 2.0, 5.0] } else { &[-3.0, -0.5, 0.0, 1.0, 2.0] };
        let lat3 = vec3s(al);
        let lat4 = vec4s(al);
        let nz: Vec<[f32; 3]> = lat3.iter().copied().filter(|v| v.iter().any(|x| *x != 0.0)).collect();
        let junk = [0.0f32, 3.0, -1.0e30, f32::NAN, f32::INFINITY];
        let scales: Vec<f32> = if th { vec![1.0, 2.0f32.powi(20), 2.0f32.powi(-20)] } else { vec![1.0, 2.0f32.powi(-9), 2.0f32.powi(-26)] };
        c.sweep("dots", |sw| {
            for (i, p) in lat4.iter().enumerate() {
                for (k, v) in lat3.iter().enumerate() {
                    for &s in &scales {
                        let pp = p.map(|x| x * s);
                        let j = junk[(i + k) % 5];
                        let pv = vf(pp);
                        sw.state();
                        let want = dot3(d3([pp[0], pp[1], pp[2]]), d3(*v)) as f32;
                        let g = XMPlaneDotNormal(vf([pp[0], pp[1], pp[2], junk[(i + 2 * k) % 5]]), v3w(*v, j));
                        sw.tv(fb(g).iter().all(|x| *x == want), g, || (format!("XMPlaneDotNormal {:?} {:?} w={}", pp, v, j), format!("{:?}", want)));
                        let want = (dot3(d3([pp[0], pp[1], pp[2]]), d3(*v)) + pp[3] as f64) as f32;
                        let g = XMPlaneDotCoord(pv, v3w(*v, j));
                        sw.tv(fb(g).iter().all(|x| *x == want), g, || (format!("XMPlaneDotCoord {:?} {:?} w={}", pp, v, j), format!("{:?}", want)));
                        let w4 = [1.0f32, 0.9921875, 1.0009765625, -1.00390625, 0.0078125, -3.0, 0.5, 2.0, 0.0009765625, 0.0][(k + i) % 10];
                        let want = (dot3(d3([pp[0], pp[1], pp[2]]), d3(*v)) + pp[3] as f64 * w4 as f64) as f32;
                        let g = XMPlaneDot(pv, v3w(*v, w4));
                        sw.tv(fb(g).iter().all(|x| *x == want), g, || (format!("XMPlaneDot {:?} {:?} w={}", pp, v, w4), format!("{:?}", want)));
                    }
                }
            }
        });
        c.sweep("normalize", |sw| {
            let sc: &[i32] = &[0, 1, 5, -7, 13, -14, 30, -30, 50, -50];
            for p in &lat4 {
                if p[0] == 0.0 && p[1] == 0.0 && p[2] == 0.0 {
                    continue;
                }
                for &e in sc {
                    let pp = p.map(|x| x * 2.0f32.powi(e));
                    let pd = d4(pp);
                    let l = len3([pd[0], pd[1], pd[2]]);
                    let want = pd.map(|x| x / l);
                    sw.state();
                    let g = XMPlaneNormalize(vf(pp));
                    sw.tv(close_n(&fb(g), &want, 4.0e-7, 0.0), g, || (format!("XMPlaneNormalize {:?}", pp), format!("{:?}", want)));
                    let g = XMPlaneNormalizeEst(vf(pp));
                    sw.tv(close_n(&fb(g), &want, 5.0e-4, 0.0), g, || (format!("XMPlaneNormalizeEst {:?}", pp), format!("{:?}", want)));
                }
            }
        });
        c.sweep("normalize nearly unit", |sw| {
            for n in &nz {
                let l = len3(d3(*n));
                for k in [4i32, 6, 8, 10, 12, 15, 19] {
                    for s in [1.0, -1.0] {
                        for w in [0.0f32, 3.0, -250.0, 0.001] {
                            let u = (1.0 + s * 2f64.powi(-k)) / l;
                            let p = [(n[0] as f64 * u) as f32, (n[1] as f64 * u) as f32, (n[2] as f64 * u) as f32, w];
                            let m = len3(d3([p[0], p[1], p[2]]));
                            let want = d4(p).map(|x| x / m);
                            sw.state();
                            let g = XMPlaneNormalize(vf(p));
                            sw.tv(close_n(&fb(g), &want, 4.0e-7, 0.0), g, || (format!("XMPlaneNormalize {:?}", p), format!("{:?}", want)));
                            let g = XMPlaneNormalizeEst(vf(p));
                            sw.tv(close_n(&fb(g), &want, 5.0e-4, 0.0), g, || (format!("XMPlaneNormalizeEst {:?}", p), format!("{:?}", want)));
                        }
                    }
                }
            }
        });
        c.sweep("from point and normal", |sw| {
            for (i, p) in lat3.iter().enumerate() {
                for (k, n) in lat3.iter().enumerate() {
                    let sc = 2f32.powi([0, -11, 13, -40][(i + 2 * k) % 4]);
                    let (p, n) = (&p.map(|x| x * sc), &n.map(|x| x * [1.0f32, 0.0009765625, 64.0][k % 3]));
                    sw.state();
                    let g = XMPlaneFromPointNormal(v3w(*p, junk[(i + k) % 5]), v3w(*n, junk[(i + 2 * k) % 5]));
                    let d = -dot3(d3(*p), d3(*n));
                    let ok = (0..3).all(|j| fb(g)[j] == n[j]) && fb(g)[3] == d as f32;
                    sw.tv(ok, g, || (format!("XMPlaneFromPointNormal point {:?} normal {:?}", p, n), format!("{:?} {}", n, d)));
                }
            }
        });
        let al2: &[f32] = if th { &[-2.0, -0.5, 0.0, 1.0, 3.0] } else { &[-2.0, 0.0, 1.0] };
        let pts = vec3s(al2);
        c.sweep("from three points", |sw| {
            for (i, a) in pts.iter().enumerate() {
                for b in &pts {
                    for (k, d) in pts.iter().enumerate() {
                      for (sc, of) in [(1.0f32, 0.0f32), (0.0078125, 0.0), (512.0, 0.0), (1.0, 20.0)] {
                        let (a, b, d) = (&a.map(|x| x * sc + of), &b.map(|x| x * sc + of), &d.map(|x| x * sc + of));
                        let (ad, bd, cd) = (d3(*a), d3(*b), d3(*d));
                        let n = cross3(sub3(ad, bd), sub3(ad, cd));
                        if len3(n) == 0.0 {
                            continue;
                        }
                        let n = norm3(n);
                        let w = [n[0], n[1], n[2], -dot3(n, ad)];
                        sw.state();
                        let g = XMPlaneFromPoints(v3w(*a, junk[(i + k) % 4]), v3w(*b, junk[i % 4]), v3w(*d, junk[k % 4]));
                        let tw = 3.0e-6 * (1.0 + len3(ad));
                        let ok = (0..3).all(|j| (fb(g)[j] as f64 - w[j]).abs() <= 3.0e-6) && (fb(g)[3] as f64 - w[3]).abs() <= tw;
                        sw.tv(ok, g, || (format!("XMPlaneFromPoints {:?} {:?} {:?}", a, b, d), format!("{:?}", w)));
                      }
                    }
                }
            }
        });
        let planes: Vec<F4> = {
            let mut r = vec![];
            for n in vec3s(&[-1.0f32, 0.0, 2.0]) {
                if n.iter().all(|x| *x == 0.0) {
                    continue;
                }
                for &d in &[-3.0f32, 0.0, 0.5, 2.0] {
                    r.push([n[0], n[1], n[2], d]);
                    let l = len3(d3(n)) as f32;
                    r.push([n[0] / l, n[1] / l, n[2] / l, d]);
                }
            }
            r
        };
        c.sweep("line intersection", |sw| {
            for (pi, p) in planes.iter().enumerate() {
                let pd = d4(*p);
                let n = [pd[0], pd[1], pd[2]];
                for a in &pts {
                    for (k, b) in pts.iter().enumerate() {
                        // exact power-of-two scales of the whole scene: the denominator spans the range above the epsilon
                        for sc in [1.0f32, 1.0 / 4096.0, 1.0 / 65536.0, 4096.0] {
                            let (a, b) = (a.map(|x| x * sc), b.map(|x| x * sc));
                            let (ad, bd) = (d3(a), d3(b));
                            let pl = [p[0], p[1], p[2], p[3] * sc];
                            let den = dot3(n, ad) - dot3(n, bd);
                            let j = junk[(pi + k) % 5];
                            let rel = den.abs() / sc as f64;
                            if rel < 1.0e-8 {
                                // integer planes: exactly parallel, also in single precision
                                if p.iter().all(|x| x.fract() == 0.0 || *x == 0.5) {
                                    sw.state();
                                    let g = XMPlaneIntersectLine(vf(pl), v3w(a, j), v3w(b, junk[k % 5]));
                                    sw.tv(fb(g).iter().take(3).all(|x| x.is_nan()), g, || (format!("parallel XMPlaneIntersectLine {:?} {:?} {:?}", pl, a, b), "NaN".into()));
                                }
                                continue;
                            }
                            if den.abs() < 2.0e-7 {
                                continue; // at the documented epsilon
                            }
                            sw.state();
                            let g = XMPlaneIntersectLine(vf(pl), v3w(a, j), v3w(b, junk[k % 5]));
                            let t = (dot3(n, ad) + pl[3] as f64) / den;
                            let w = add3(ad, mul3(sub3(bd, ad), t));
                            let tol = 4.0e-6 * (sc as f64 + len3(w)) * (1.0 + 1.0 / rel);
                            sw.tv(worst3(fb(g), w) <= tol, g, || (format!("XMPlaneIntersectLine {:?} {:?} {:?}", pl, a, b), format!("{:?}", w)));
                        }
                    }
                }
            }
        });
        c.sweep("parallel up to rounding", |sw| {
            // direction perpendicular to a rounded unit normal: parallel within the documented epsilon, never a huge point
            let n_ang = if th { 64 } else { 24 };
            for plane in 0..3usize {
                for k in 0..n_ang {
                    let a = k as f64 * std::f64::consts::TAU / n_ang as f64 + 0.05;
                    let (s, co) = a.sin_cos();
                    let put = |u: f64, v: f64, w: f64| {
                        let mut r = [0.0f32; 3];
                        r[plane] = u as f32;
                        r[(plane + 1) % 3] = v as f32;
                        r[(plane + 2) % 3] = w as f32;
                        r
                    };
                    let n = put(co, s, 0.0);
                    for base in [[0.0f64, 0.0, 0.0], [0.05, -0.02, 0.01], [-0.03, 0.04, 0.1]] {
                        for t in [-0.1f64, 0.03, 0.125] {
                            for w in [0.0f64, 0.07] {
                                for off in [0.0f32, 0.75, -2.0] {
                                    let p1 = put(base[0], base[1], base[2]);
                                    let p2 = put(base[0] - s * t, base[1] + co * t, base[2] + w);
                                    let (nd, ad, bd) = (d3(n), d3(p1), d3(p2));
                                    let den = dot3(nd, ad) - dot3(nd, bd);
                                    let mag: f64 = (0..3).map(|i| (nd[i] * ad[i]).abs() + (nd[i] * bd[i]).abs()).sum();
                                    if den.abs() + 4.0 * mag * 2.0f64.powi(-24) > 1.1e-7 {
                                        continue;
                                    }
                                    sw.state();
                                    let g = XMPlaneIntersectLine(v3w(n, off), v3w(p1, 1.0), v3w(p2, 1.0));
                                    sw.tv(fb(g).iter().take(3).all(|x| x.is_nan()), g, || (format!("parallel XMPlaneIntersectLine {:?} {} {:?} {:?}", n, off, p1, p2), "NaN".into()));
                                }
                            }
                        }
                    }
                    // two planes a tiny angle apart: parallel when sin^2 is below the epsilon, a proper line above it
                    for (dl, par) in [(0.0f64, true), (3.0e-6, true), (1.0e-4, true), (2.5e-4, true), (1.5e-3, false), (0.01, false), (0.1, false)] {
                        for (d1, d2) in [(0.0f32, 0.0f32), (0.5, 0.5), (1.0, -2.0)] {
                            for sg in [1.0f64, -1.0] {
                                let n2 = put(sg * (co * dl.cos() - s * dl.sin()), sg * (s * dl.cos() + co * dl.sin()), 0.0);
                                sw.state();
                                let (mut l1, mut l2) = (vf([9.0; 4]), vf([9.0; 4]));
                                let (p, q) = (v3w(n, d1), v3w(n2, d2));
                                XMPlaneIntersectPlane(&mut l1, &mut l2, p, q);
                                let (g1, g2) = (fb(l1), fb(l2));
                                if par {
                                    let ok = (0..3).all(|i| g1[i].is_nan() && g2[i].is_nan());
                                    sw.tv(ok, l1, || (format!("nearly parallel XMPlaneIntersectPlane {:?} {} {:?} {}", n, d1, n2, d2), "NaN in both points".into()));
                                } else {
                                    let on = |g: F4, m: [f32; 3], d: f32| (dot3(d3(m), d3([g[0], g[1], g[2]])) + d as f64).abs() <= 1.0e-6 * (1.0 + len3(d3([g[0], g[1], g[2]]))) / dl;
                                    let ok = on(g1, n, d1) && on(g1, n2, d2) && on(g2, n, d1) && on(g2, n2, d2);
                                    sw.tv(ok, l1, || (format!("nearly parallel XMPlaneIntersectPlane {:?} {} {:?} {} -> second {:?}", n, d1, n2, d2, g2), "a line in both planes".into()));
                                }
                            }
                        }
                    }
                }
            }
        });
        c.sweep("plane intersection", |sw| {
            for p in &planes {
                for q in &planes {
                    let (pd, qd) = (d4(*p), d4(*q));
                    let (n, m) = ([pd[0], pd[1], pd[2]], [qd[0], qd[1], qd[2]]);
                    let cr = cross3(m, n);
                    let l2 = dot3(cr, cr);
                    let (mut l1, mut l2v) = (vf([9.0; 4]), vf([9.0; 4]));
                    sw.state();
                    XMPlaneIntersectPlane(&mut l1, &mut l2v, vf(*p), vf(*q));
                    let (g1, g2) = (fb(l1), fb(l2v));
                    if l2 < 1.0e-9 {
                        let ok = (0..3).all(|i| g1[i].is_nan() && g2[i].is_nan());
                        sw.tv(ok, l1, || (format!("parallel XMPlaneIntersectPlane {:?} {:?}", p, q), "NaN in both points".into()));
                        continue;
                    }
                    // both points on both planes, and the line runs along n2 x n1
                    let on = |g: F4, k: D4| {
                        let x = [g[0] as f64, g[1] as f64, g[2] as f64];
                        (dot3([k[0], k[1], k[2]], x) + k[3]).abs() <= 4.0e-5 * (1.0 + len3(x)) * (1.0 + 1.0 / l2)
                    };
                    let dir = [g2[0] as f64 - g1[0] as f64, g2[1] as f64 - g1[1] as f64, g2[2] as f64 - g1[2] as f64];
                    let dirok = len3(sub3(dir, cr)) <= 1.0e-4 * (1.0 + len3(cr));
                    let ok = on(g1, pd) && on(g1, qd) && on(g2, pd) && on(g2, qd) && dirok;
                    sw.tv(ok, l1, || (format!("XMPlaneIntersectPlane {:?} {:?} -> second {:?}", p, q, g2), format!("a line in both planes along {:?}", cr)));
                }
            }
        });
        // every octave of every component, one at a time
        c.sweep("by octaves", |sw| {
            let bp: [F4; 4] = [[1.0, -2.0, 0.5, 3.0], [0.0, 0.0, 1.0, -0.25], [0.6, 0.64, -0.48, 0.0], [-0.8, 0.0, 0.6, 100.0]];
            let bv: [F4; 3] = [[1.5, 0.25, -2.0, 1.0], [-7.0, 3.0, 0.125, -0.5], [0.01, 0.02, -0.04, 2.0]];
            let ps = star(&bp, &octaves(-30, 30));
            let vs = star(&bv, &octaves(-30, 30));
            let mag = |p: F4, v: F4| (0..4).map(|i| (p[i] as f64 * v[i] as f64).abs()).sum::<f64>();
            let mut chk = |p: F4, v: F4| {
                let (pd, v3) = (d4(p), d3([v[0], v[1], v[2]]));
                let n = [pd[0], pd[1], pd[2]];
                for (k, w4) in [0.0, 1.0, v[3] as f64].iter().enumerate() {
                    let w = dot3(n, v3) + pd[3] * w4;
                    sw.state();
                    let g = match k { 0 => XMPlaneDotNormal(vf(p), vf(v)), 1 => XMPlaneDotCoord(vf(p), vf(v)), _ => XMPlaneDot(vf(p), vf(v)) };
                    let tol = 5.0e-7 * mag(p, [v[0], v[1], v[2], *w4 as f32]) + 1.0e-37;
                    sw.tv(fb(g).iter().all(|x| (*x as f64 - w).abs() <= tol), g, || (format!("plane dot kind {} {:?} {:?}", k, p, v), format!("{}", w)));
                }
                let w = -dot3(n, v3);
                sw.state();
                let g = XMPlaneFromPointNormal(vf(v), vf(p));
                let tol = 5.0e-7 * mag(p, [v[0], v[1], v[2], 0.0]) + 1.0e-37;
                sw.tv((0..3).all(|i| fb(g)[i] == p[i]) && (fb(g)[3] as f64 - w).abs() <= tol, g, || (format!("XMPlaneFromPointNormal {:?} {:?}", v, p), format!("{}", w)));
                let l = len3(n);
                let want = pd.map(|x| x / l);
                sw.state();
                let g = XMPlaneNormalize(vf(p));
                sw.tv(close_n(&fb(g), &want, 6.0e-7, 1.0e-37), g, || (format!("XMPlaneNormalize {:?}", p), format!("{:?}", want)));
                let g = XMPlaneNormalizeEst(vf(p));
                sw.tv(close_n(&fb(g), &want, 5.0e-4, 1.0e-37), g, || (format!("XMPlaneNormalizeEst {:?}", p), format!("{:?}", want)));
                for m in [[[1.0f32, 2.0, -3.0, 4.0], [0.0, 1.0, 5.0, -1.0], [2.0, 0.0, 1.0, 7.0], [-4.0, 3.0, 0.0, 1.0]], [[v[0], 0.0, 0.25, 0.0], [0.0, v[1], 0.0, 1.0], [0.5, 0.0, v[2], 0.0], [0.0, -1.0, 0.0, v[3]]]] {
                    let w = vm(pd, &dm(&m));
                    sw.state();
                    let g = XMPlaneTransform(vf(p), mf(m));
                    let ok = (0..4).all(|j| {
                        let t: f64 = (0..4).map(|i| (pd[i] * m[i][j] as f64).abs()).sum();
                        (fb(g)[j] as f64 - w[j]).abs() <= 5.0e-7 * t + 1.0e-37
                    });
                    sw.tv(ok, g, || (format!("XMPlaneTransform {:?} {}", p, sm(&m)), format!("{:?}", w)));
                }
                for b in bv {
                    let (ad, bd) = (v3, d3([b[0], b[1], b[2]]));
                    let den = dot3(n, ad) - dot3(n, bd);
                    let mg: f64 = (0..3).map(|i| (n[i] * ad[i]).abs() + (n[i] * bd[i]).abs()).sum();
                    if den.abs() < 2.0e-7 + 1.0e-6 * mg || v[..3] == b[..3] {
                        continue;
                    }
                    let t = (dot3(n, ad) + pd[3]) / den;
                    let w = add3(ad, mul3(sub3(bd, ad), t));
                    let run = len3(sub3(bd, ad));
                    let tol = 2.0e-6 * (len3(ad) + run * t.abs() * (1.0 + mg / den.abs()) + run * (mg + pd[3].abs()) / den.abs());
                    if !(tol < 1e30) {
                        continue;
                    }
                    sw.state();
                    let g = XMPlaneIntersectLine(vf(p), vf(v), vf(b));
                    sw.tv(worst3(fb(g), w) <= tol, g, || (format!("XMPlaneIntersectLine {:?} {:?} {:?}", p, v, b), format!("{:?} within {:e}", w, tol)));
                    // three points: the two and a third, well apart
                    let cd = [bd[1] + 1.0, -bd[2], bd[0] - 2.0];
                    let (e1, e2) = (sub3(ad, bd), sub3(ad, cd));
                    let cr = cross3(e1, e2);
                    let sn = len3(cr) / (len3(e1) * len3(e2));
                    if sn > 0.05 {
                        let cf = [cd[0] as f32, cd[1] as f32, cd[2] as f32, 5.0];
                        let u = norm3(cr);
                        let far = len3(ad).max(len3(bd)).max(len3(cd));
                        let te = 1.0e-6 / sn * (1.0 + far / len3(e1).min(len3(e2)));
                        sw.state();
                        let g = XMPlaneFromPoints(vf(v), vf(b), vf(cf));
                        let w = [u[0], u[1], u[2], -dot3(u, ad)];
                        let ok = te > 0.01 || (0..3).all(|i| (fb(g)[i] as f64 - w[i]).abs() <= te) && (fb(g)[3] as f64 - w[3]).abs() <= te * far;
                        sw.tv(ok, g, || (format!("XMPlaneFromPoints {:?} {:?} {:?}", v, b, cf), format!("{:?} within {:e}", w, te)));
                    }
                }
            };
            for p in &ps {
                for v in bv {
                    chk(*p, v);
                }
            }
            for v in &vs {
                for p in bp {
                    chk(p, *v);
                }
            }
            for p in &ps {
                for q in bp {
                    for (p, q) in [(*p, q), (q, *p)] {
                        let (pd, qd) = (d4(p), d4(q));
                        let (n, m) = ([pd[0], pd[1], pd[2]], [qd[0], qd[1], qd[2]]);
                        let cr = cross3(m, n);
                        let l = len3(cr);
                        if l * l < 2.0e-7 || l < 1.0e-3 * len3(n) * len3(m) {
                            continue; // at the documented epsilon
                        }
                        let (mut l1, mut l2) = (vf([9.0; 4]), vf([9.0; 4]));
                        sw.state();
                        XMPlaneIntersectPlane(&mut l1, &mut l2, vf(p), vf(q));
                        let (g1, g2) = (fb(l1), fb(l2));
                        let cond = len3(n) * len3(m) / l;
                        let tp = 4.0e-6 * (len3(m) * pd[3].abs() + len3(n) * qd[3].abs()) / l * cond;
                        let on = |g: F4, k: D4, add: f64| {
                            let x = [g[0] as f64, g[1] as f64, g[2] as f64];
                            (dot3([k[0], k[1], k[2]], x) + k[3]).abs() <= len3([k[0], k[1], k[2]]) * (tp + add) + 1.0e-6 * k[3].abs()
                        };
                        let dir = [g2[0] as f64 - g1[0] as f64, g2[1] as f64 - g1[1] as f64, g2[2] as f64 - g1[2] as f64];
                        let x1 = len3([g1[0] as f64, g1[1] as f64, g1[2] as f64]);
                        let ta = 2.0e-6 * (len3(n) * len3(m) + x1);
                        let ok = on(g1, pd, 0.0) && on(g1, qd, 0.0) && on(g2, pd, ta) && on(g2, qd, ta) && len3(sub3(dir, cr)) <= ta;
                        sw.tv(ok, l1, || (format!("XMPlaneIntersectPlane {:?} {:?} -> second {:?}", p, q, g2), format!("a line in both planes along {:?}", cr)));
                    }
                }
            }
        });
        c.sweep("transform", |sw| {
            // integer matrices: exact product
            let mut ms: Vec<M4> = vec![];
            for r in 0..4 {
                for k in 0..4 {
                    for v in [-2.0f32, 0.5, 3.0] {
                        let mut m = [[1.0f32, 2.0, -3.0, 4.0], [0.0, 1.0, 5.0, -1.0], [2.0, 0.0, 1.0, 7.0], [-4.0, 3.0, 0.0, 1.0]];
                        m[r][k] = v;
                        ms.push(m);
                        let mut m = fm(&ID);
                        m[r][k] = v;
                        ms.push(m);
                    }
                }
            }
            for m in &ms {
                for (ip, p) in lat4.iter().enumerate() {
                    let e = 2f32.powi(-11);
                    let p = &match ip % 3 { 0 => *p, 1 => [p[0], p[1], p[2], p[3] * e], _ => [p[0] * e, p[1] * e, p[2] * e, p[3] * e] };
                    sw.state();
                    let w = vm(d4(*p), &dm(m));
                    let g = XMPlaneTransform(vf(*p), mf(*m));
                    sw.tv((0..4).all(|i| fb(g)[i] as f64 == w[i]), g, || (format!("XMPlaneTransform {:?} {}", p, sm(m)), format!("{:?}", w)));
                }
            }
            // inverse transpose keeps points attached
            for q in vec4s(&[-1.0f32, 0.0, 0.5]) {
                if q.iter().all(|x| *x == 0.0) {
                    continue;
                }
                for s in [[1.0, 1.0, 1.0], [2.0, -0.5, 3.0]] {
                    let m = chain(&[scal(s), qmat(qnorm(d4(q))), trans([1.0, -2.0, 3.0])]);
                    let mfx = mf(fm(&m));
                    let it = XMMatrixTranspose(XMMatrixInverse(None, mfx));
                    for n in &nz {
                        let pt = [n[2], n[0] + 1.0, -n[1]];
                        let pl = XMPlaneFromPointNormal(v3w(pt, 1.0), v3w(*n, 0.0));
                        sw.state();
                        let g = XMPlaneTransform(pl, it);
                        let x = XMVector3Transform(v3w(pt, 1.0), mfx);
                        let r = dot3(d3([fb(g)[0], fb(g)[1], fb(g)[2]]), d3([fb(x)[0], fb(x)[1], fb(x)[2]])) + fb(g)[3] as f64;
                        let l = len3(d3([fb(g)[0], fb(g)[1], fb(g)[2]])) * (1.0 + len3(d3([fb(x)[0], fb(x)[1], fb(x)[2]])));
                        sw.tv(r.abs() <= 1.0e-5 * l, g, || (format!("plane normal {:?} point {:?} transform {:?}", n, pt, m), format!("transformed point {} on the plane (off by {})", sv(ub(x)), r)));
                    }
                }
            }
        });
    });
}
