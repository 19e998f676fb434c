//! C24: corner lists, frustum planes, frusta from projection matrices, transformed volumes.
use mc::dom::*;
use mc::geo::*;
use mc::refm::*;
use mc::*;

const BOX_ORDER: [[f64; 3]; 8] = [
    [-1.0, -1.0, 1.0], [1.0, -1.0, 1.0], [1.0, 1.0, 1.0], [-1.0, 1.0, 1.0],
    [-1.0, -1.0, -1.0], [1.0, -1.0, -1.0], [1.0, 1.0, -1.0], [-1.0, 1.0, -1.0],
];

/// the eight corners in the documented order
fn corners(s: &Shape) -> Vec<D3> {
    match *s {
        Shape::Box { c, e } => corners(&Shape::OBox { c, e, q: [0.0, 0.0, 0.0, 1.0] }),
        Shape::OBox { c, e, q } => BOX_ORDER.iter().map(|o| add3(d3(c), qrot(qnorm(d4(q)), [o[0] * e[0] as f64, o[1] * e[1] as f64, o[2] * e[2] as f64]))).collect(),
        Shape::Frustum { o, q, s, n, f } => {
            let (r, l, t, b) = (s[0] as f64, s[1] as f64, s[2] as f64, s[3] as f64);
            let mut v = vec![];
            for z in [n as f64, f as f64] {
                for (x, y) in [(l, t), (r, t), (r, b), (l, b)] {
                    v.push(add3(d3(o), qrot(qnorm(d4(q)), [x * z, y * z, z])));
                }
            }
            v
        }
        _ => unreachable!(),
    }
}
fn a4(x: &XMFLOAT4) -> F4 {
    [x.x, x.y, x.z, x.w]
}
fn back_o(b: &BoundingOrientedBox) -> Shape {
    Shape::OBox { c: a3(&b.Center), e: a3(&b.Extents), q: a4(&b.Orientation) }
}
fn back_f(b: &BoundingFrustum) -> Shape {
    Shape::Frustum { o: a3(&b.Origin), q: a4(&b.Orientation), s: [b.RightSlope, b.LeftSlope, b.TopSlope, b.BottomSlope], n: b.Near, f: b.Far }
}
fn garbage3() -> XMFLOAT3 {
    f3([f32::NAN; 3])
}
fn maxdist(a: &[D3], b: &[D3]) -> f64 {
    a.iter().zip(b).map(|(x, y)| { let d = len3(sub3(*x, *y)); if d.is_nan() { f64::INFINITY } else { d } }).fold(0.0, f64::max)
}
fn size(v: &[D3]) -> f64 {
    v.iter().map(|p| len3(*p)).fold(0.0, f64::max)
}
fn unit(q: F4) -> bool {
    let n = qdot(d4(q), d4(q));
    (n - 1.0).abs() < 1.0e-5
}
fn hd(v: &[D3]) -> u64 {
    v.iter().flatten().fold(0u64, |h, x| (h ^ (*x as f32).to_bits() as u64).wrapping_mul(0x9E3779B97F4A7C15))
}

fn main() {
    Ctx::main("C24", |c| {
        let th = c.thorough();
        let tol = 4.0e-6;
        let qs: Vec<F4> = {
            let mut v = vec![];
            let al: &[f64] = if th { &[-1.0, -0.4, 0.0, 0.3, 1.0] } else { &[-1.0, 0.0, 0.3, 1.0] };
            for x in al { for y in al { for z in al { for w in al {
                if *x == 0.0 && *y == 0.0 && *z == 0.0 && *w == 0.0 { continue; }
                let n = (x * x + y * y + z * z + w * w).sqrt();
                v.push([(x / n) as f32, (y / n) as f32, (z / n) as f32, (w / n) as f32]);
            } } } }
            v
        };
        let few: Vec<F4> = orients(true).into_iter().chain(near_orients()).collect();
        let cs: Vec<[f32; 3]> = vec![[0.0; 3], [1.0, -2.0, 3.0], [-40.0, 5.0, 0.25], [1000.0, 0.0, -1000.0]];
        let es: Vec<[f32; 3]> = vec3s(if th { &[0.0, 0.125, 1.0, 2.5, 300.0] } else { &[0.0, 0.125, 1.0, 30.0] });
        let slopes: Vec<[f32; 4]> = vec![[1.0, -1.0, 0.5, -0.5], [0.75, -0.25, 0.4, -1.0], [1.5, 0.25, 0.5, 0.1], [-0.2, -0.9, 2.0, -3.0], [0.01, -0.02, 0.03, -0.04], [2.0, -1.0, 0.3, 0.0]];
        let nf: Vec<(f32, f32)> = vec![(1.0, 3.0), (0.5, 2.0), (0.0, 1.0), (0.1, 1000.0), (-3.0, -1.0)];
        let mut fr = vec![];
        for (k, s) in slopes.iter().enumerate() {
            for (j, (n, f)) in nf.iter().enumerate() {
                for (i, q) in if th { qs.clone() } else { few.clone() }.iter().enumerate() {
                    let mut s = *s;
                    if *n < 0.0 {
                        s.swap(0, 1);
                        s.swap(2, 3);
                    }
                    fr.push(Shape::Frustum { o: cs[(i + j + k) % 4], q: *q, s, n: *n, f: *f });
                }
            }
        }

        // every octave of each slope and depth, one at a time
        {
            let q = uq([1.0, -0.5, 0.25], 0.9);
            for x in octaves(-18, 8) {
                let a = x.abs();
                let mut put = |s: [f32; 4], n: f32, f: f32| if s[0] > s[1] && s[2] > s[3] && n < f { fr.push(Shape::Frustum { o: [1.0, -2.0, 3.0], q, s, n, f }) };
                for i in 0..4 {
                    let mut s = [0.75f32, -0.25, 0.4, -1.0];
                    s[i] = x;
                    put(s, 1.0, 3.0);
                }
                put([a, -a, 0.4, -1.0], 1.0, 3.0);
                put([0.75, -0.25, a, -a * 0.5], 1.0, 3.0);
                put([0.75, -0.25, 0.4, -1.0], a, 3.0);
                put([0.75, -0.25, 0.4, -1.0], 1.0, a);
                put([0.75, -0.25, 0.4, -1.0], a, 2.0 * a);
                put([0.75, -0.25, 0.4, -1.0], 1.0, 1.0 + a);
            }
        }
        let bb0 = [1.0f32, 2.0, 0.5];
        let mut cs2 = cs.clone();
        cs2.extend(star(&[[1.0f32, -2.0, 3.0]], &octaves(-20, 18)));
        let mut es2 = es.clone();
        es2.extend(star(&[[1.0f32, 2.0, 0.5]], &octaves(-20, 18)).into_iter().filter(|e| e.iter().all(|x| *x > 0.0)));
        c.sweep("BoundingBox::GetCorners", |sw| {
            for cc in &cs2 { for e in &es2 {
                sw.state();
                let mut o = [garbage3(); 8];
                lbox(*cc, *e).GetCorners(&mut o);
                let w = corners(&Shape::Box { c: *cc, e: *e });
                let g: Vec<D3> = o.iter().map(|x| d3(a3(x))).collect();
                let d = maxdist(&g, &w);
                sw.t(d <= tol * size(&w), hd(&g), || (format!("c {:?} e {:?}", cc, e), format!("{:?}", g), format!("{:?}", w)));
            } }
        });
        c.sweep("BoundingOrientedBox::GetCorners", |sw| {
            for (cc, e) in cs2.iter().map(|c| (c, &bb0)).chain(es2.iter().map(|e| (&cs[1], e))) { for q in &few {
                sw.state();
                let mut o = [garbage3(); 8];
                lobox(*cc, *e, *q).GetCorners(&mut o);
                let w = corners(&Shape::OBox { c: *cc, e: *e, q: *q });
                let g: Vec<D3> = o.iter().map(|x| d3(a3(x))).collect();
                let d = maxdist(&g, &w);
                sw.t(d <= tol * size(&w), hd(&g), || (format!("c {:?} e {:?} q {:?}", cc, e, q), format!("{:?} off {}", g, d), format!("{:?}", w)));
            } }
            for cc in &cs { for e in &es { for q in &qs {
                sw.state();
                let mut o = [garbage3(); 8];
                lobox(*cc, *e, *q).GetCorners(&mut o);
                let w = corners(&Shape::OBox { c: *cc, e: *e, q: *q });
                let g: Vec<D3> = o.iter().map(|x| d3(a3(x))).collect();
                let d = maxdist(&g, &w);
                sw.t(d <= tol * (size(&w) + 0.1), hd(&g), || (format!("c {:?} e {:?} q {:?}", cc, e, q), format!("{:?} off {}", g, d), format!("{:?}", w)));
            } } }
        });
        c.sweep("BoundingFrustum::GetCorners", |sw| {
            for s in &fr {
                sw.state();
                let mut o = [garbage3(); 8];
                if let Lib::F(f) = lib(s) { f.GetCorners(&mut o); }
                let w = corners(s);
                let g: Vec<D3> = o.iter().map(|x| d3(a3(x))).collect();
                let d = maxdist(&g, &w);
                sw.t(d <= tol * size(&w), hd(&g), || (format!("{:?}", s), format!("{:?} off {}", g, d), format!("{:?}", w)));
            }
        });
        // Every subset of the six optional outputs.
        c.sweep("BoundingFrustum::GetPlanes", |sw| {
            for s in &fr {
                let f = match lib(s) { Lib::F(f) => f, _ => unreachable!() };
                let w = corners(s);
                let sz = size(&w);
                // corner sets lying on each plane: near, far, right, left, top, bottom
                let on: [[usize; 4]; 6] = [[0, 1, 2, 3], [4, 5, 6, 7], [1, 2, 5, 6], [0, 3, 4, 7], [0, 1, 4, 5], [2, 3, 6, 7]];
                let mut all: [U4; 6] = [[0; 4]; 6];
                for mask in (0..64u32).rev() {
                    sw.state();
                    let mut p = [vu([0xABCD1234; 4]); 6];
                    {
                        let (a, r) = p.split_at_mut(1);
                        let (b, r) = r.split_at_mut(1);
                        let (cc, r) = r.split_at_mut(1);
                        let (d, r) = r.split_at_mut(1);
                        let (e, g) = r.split_at_mut(1);
                        let o = |k: u32, x| if mask >> k & 1 == 1 { Some(x) } else { None };
                        f.GetPlanes(o(0, &mut a[0]), o(1, &mut b[0]), o(2, &mut cc[0]), o(3, &mut d[0]), o(4, &mut e[0]), o(5, &mut g[0]));
                    }
                    if mask == 63 {
                        for k in 0..6 {
                            all[k] = ub(p[k]);
                        }
                        for k in 0..6 {
                            let pl = d4(fb(p[k]));
                            let n = [pl[0], pl[1], pl[2]];
                            let mut ok = (len3(n) - 1.0).abs() < 1.0e-5;
                            for (i, x) in w.iter().enumerate() {
                                let d = dot3(n, *x) + pl[3];
                                // the near plane at distance 0 contains all near corners, which coincide with the apex
                                ok &= if on[k].contains(&i) { d.abs() <= tol * (sz + 1.0) } else { d <= tol * (sz + 1.0) };
                            }
                            // not degenerate: some corner is strictly inside
                            ok &= w.iter().any(|x| dot3(n, *x) + pl[3] < -1.0e-6);
                            sw.t(ok, h4(all[k]), || (format!("{:?} plane {}", s, k), sv(all[k]), "the outward unit plane through its four corners".into()));
                        }
                    } else {
                        let ok = (0..6).all(|k| if mask >> k & 1 == 1 { ub(p[k]) == all[k] } else { ub(p[k]) == [0xABCD1234; 4] });
                        sw.t(ok, mask as u64, || (format!("{:?} outputs requested {:06b}", s, mask), format!("{:?}", p.map(|x| sv(ub(x)))), format!("{:?}", all.map(sv))));
                    }
                }
            }
        });
        for rh in [false, true] {
            c.sweep(if rh { "BoundingFrustum::CreateFromMatrix right-handed" } else { "BoundingFrustum::CreateFromMatrix left-handed" }, |sw| {
                let fov: &[f64] = if th { &[0.1, 0.3, 0.7, 1.0, 1.5, 2.0, 2.7] } else { &[0.2, 0.7, 1.5, 2.5] };
                let asp: &[f64] = if th { &[0.3, 0.5, 1.0, 1.333, 1.777, 3.0] } else { &[0.5, 1.0, 1.777] };
                let zs: &[(f64, f64)] = &[(0.1, 100.0), (1.0, 3.0), (0.5, 1000.0), (10.0, 11.0)];
                let off: &[(f64, f64)] = &[(0.0, 0.0), (0.5, -0.25), (-1.5, 0.75), (0.004, -0.0025)];
                let mut lst: Vec<(f64, f64, f64, f64, f64, f64, f64)> = vec![];
                for fv in fov { for a in asp { for (n, f) in zs { for (ox, oy) in off { for flip in [1.0, -1.0] {
                    lst.push((*fv, *a, *n, *f, *ox, *oy, flip));
                } } } } }
                // every octave of each parameter
                for x in octaves(-10, 10) {
                    let y = x.abs() as f64;
                    lst.push((0.9, y, 0.5, 20.0, 0.1, -0.2, 1.0));
                    for r in [1.125, 2.0, 60.0] { lst.push((0.9, 1.3, y, y * r, 0.1, -0.2, 1.0)); }
                    lst.push((0.9, 1.3, 0.5, 20.0, x as f64, -0.2, 1.0));
                    lst.push((0.9, 1.3, 0.5, 20.0, 0.1, x as f64, 1.0));
                    lst.push((0.9, 1.3, 0.5, 20.0, 0.1 * x as f64, 0.3 * x as f64, -1.0));
                    if y < 3.0 { lst.push((y, 1.3, 0.5, 20.0, 0.1, -0.2, 1.0)); lst.push((std::f64::consts::PI - y.min(3.0), 1.3, 0.5, 20.0, 0.1, -0.2, 1.0)); }
                }
                for (fv, a, n, f, ox, oy, flip) in &lst {
                    // clip x = (x * sx) / |z| - ox ; standard D3D depth 0..1
                    // a reversed depth range would swap Near and Far; not part of the documented contract
                    sw.state();
                    let sy = flip / (fv / 2.0).tan();
                    let sx = 1.0 / (fv / 2.0).tan() / a;
                    let zz = f / (f - n);
                    let m: DM = if rh {
                        [[sx, 0.0, 0.0, 0.0], [0.0, sy, 0.0, 0.0], [*ox, *oy, -zz, -1.0], [0.0, 0.0, -zz * n, 0.0]]
                    } else {
                        [[sx, 0.0, 0.0, 0.0], [0.0, sy, 0.0, 0.0], [-*ox, -*oy, zz, 1.0], [0.0, 0.0, -zz * n, 0.0]]
                    };
                    let mf32 = fm(&m);
                    let im = match inv(&dm(&mf32)) { Some(x) => x, None => continue };
                    let mut o = BoundingFrustum { Origin: garbage3(), Orientation: f4([f32::NAN; 4]), RightSlope: f32::NAN, LeftSlope: f32::NAN, TopSlope: f32::NAN, BottomSlope: f32::NAN, Near: f32::NAN, Far: f32::NAN };
                    BoundingFrustum::CreateFromMatrix(&mut o, mf(mf32), rh);
                    let g = corners(&back_f(&o));
                    // unprojected clip corners, in corner order; right-handed spaces list the farther depth first
                    let mut w = vec![];
                    for z in if rh { [1.0, 0.0] } else { [0.0, 1.0] } {
                        for (x, y) in [(-1.0, 1.0), (1.0, 1.0), (1.0, -1.0), (-1.0, -1.0)] {
                            let p = vm([x, y, z, 1.0], &im);
                            w.push([p[0] / p[3], p[1] / p[3], p[2] / p[3]]);
                        }
                    }
                    // far depth is ill-conditioned by f/n
                    let amp = f / n;
                    let near_ok = |i: usize| { let far_i = if rh { i < 4 } else { i >= 4 }; let k = if far_i { amp } else { 1.0 };
                        len3(sub3(g[i], w[i])) <= 3.0e-6 * k.max(4.0) * len3(w[i]) };
                    let ok = (0..8).all(near_ok) && a3(&o.Origin) == [0.0; 3] && a4(&o.Orientation) == [0.0, 0.0, 0.0, 1.0] && o.Near < o.Far;
                    sw.t(ok, hd(&g), || (format!("fov {} aspect {} near {} far {} off {} {} flip {}", fv, a, n, f, ox, oy, flip), format!("{:?}", o), format!("{:?}", w)));
                }
            });
        }

        // Transforms. Scale-rotate-translate matrices and decomposed forms.
        let ts: Vec<[f32; 3]> = vec![[0.0; 3], [3.0, -1.0, 0.5], [-100.0, 20.0, 7.0], [1.0e-3, -4.0e-4, 8.0e-3]];
        let uscale: &[f32] = &[1.0, 0.25, 3.0, 1.0e-3, 1.0e3, 1.004, 0.9995];
        let nscale: Vec<[f32; 3]> = vec![[1.0, 1.0, 1.0], [2.0, 1.0, 0.5], [0.25, 3.0, 1.0], [1.0, 2.0, 5.0], [5.0, 0.5, 0.5], [1.0e-3, 1.0, 100.0], [1.004, 1.0, 0.997], [0.9998, 1.0003, 0.9995]];
        let rots: Vec<F4> = if th { qs.clone() } else { qs.iter().step_by(3).cloned().chain(few.iter().cloned()).collect() };
        let rots: Vec<F4> = rots.into_iter().chain([uq([1.0, -0.5, 0.25], 6.0e-3), uq([0.2, -1.0, 0.6], -7.0e-4)]).collect();
        let srt = |s: [f32; 3], q: F4, t: [f32; 3]| -> M4 { fm(&chain(&[scal(d3(s)), qmat(qnorm(d4(q))), trans(d3(t))])) };
        let app = |p: D3, m: &DM| -> D3 { let r = vm([p[0], p[1], p[2], 1.0], m); [r[0], r[1], r[2]] };

        c.sweep("BoundingSphere::TransformMatrix", |sw| {
            for cc in &cs { for r in [0.0f32, 0.5, 2.0, 70.0] { for s in &nscale { for q in &rots { for t in &ts {
                sw.state();
                let m = srt(*s, *q, *t);
                let mut o = BoundingSphere { Center: garbage3(), Radius: f32::NAN };
                lsphere(*cc, r).TransformMatrix(&mut o, mf(m));
                let w = app(d3(*cc), &dm(&m));
                let wr = r as f64 * s[0].max(s[1]).max(s[2]) as f64;
                let ok = len3(sub3(d3(a3(&o.Center)), w)) <= tol * (len3(w) + len3(d3(*t)) + 5.0 * len3(d3(*cc))) && close(o.Radius, wr, tol, 0.0);
                sw.t(ok, o.Radius.to_bits() as u64, || (format!("c {:?} r {} scale {:?} q {:?} t {:?}", cc, r, s, q, t), format!("{:?}", o), format!("{:?} {}", w, wr)));
            } } } } }
        });
        c.sweep("BoundingSphere::TransformDecomposed", |sw| {
            for cc in &cs { for r in [0.0f32, 0.5, 2.0, 70.0] { for s in uscale { for q in &rots { for t in &ts {
                sw.state();
                let m = srt([*s; 3], *q, *t);
                let mut o = BoundingSphere { Center: garbage3(), Radius: f32::NAN };
                lsphere(*cc, r).TransformDecomposed(&mut o, *s, vf(*q), v3w(*t, 7.0));
                let w = app(d3(*cc), &dm(&m));
                let wr = r as f64 * *s as f64;
                let ok = len3(sub3(d3(a3(&o.Center)), w)) <= tol * (len3(w) + len3(d3(*t)) + 5.0 * len3(d3(*cc))) && close(o.Radius, wr, tol, 0.0);
                sw.t(ok, o.Radius.to_bits() as u64, || (format!("c {:?} r {} scale {:?} q {:?} t {:?}", cc, r, s, q, t), format!("{:?}", o), format!("{:?} {}", w, wr)));
            } } } } }
        });
        let aabb = |v: &[D3]| -> (D3, D3) {
            let mut lo = [f64::INFINITY; 3];
            let mut hi = [f64::NEG_INFINITY; 3];
            for p in v { for i in 0..3 { lo[i] = lo[i].min(p[i]); hi[i] = hi[i].max(p[i]); } }
            (lo, hi)
        };
        let bb: Vec<[f32; 3]> = vec![[1.0, 2.0, 0.5], [3.0, 0.25, 1.5], [0.0, 1.0, 2.0], [20.0, 10.0, 30.0]];
        let box_ok = |o: &BoundingBox, w: &[D3]| -> bool {
            let (lo, hi) = aabb(w);
            let sz = size(w) + 1.0e-3;
            (0..3).all(|i| {
                let cc = a3(&o.Center)[i] as f64;
                let e = a3(&o.Extents)[i] as f64;
                (cc - e - lo[i]).abs() <= tol * sz && (cc + e - hi[i]).abs() <= tol * sz
            })
        };
        c.sweep("BoundingBox::TransformMatrix", |sw| {
            // any affine matrix: scale-rotate-translate, plus rotate-then-scale, mirrored and sheared ones
            for cc in &cs { for e in &bb { for s in nscale.iter().chain([[-1.0f32, 1.0, 2.0]].iter()) { for q in &rots { for (k, t) in ts.iter().enumerate() {
                sw.state();
                let m = match k {
                    0 => srt(*s, *q, *t),
                    1 => fm(&chain(&[qmat(qnorm(d4(*q))), scal(d3(*s)), trans(d3(*t))])),
                    _ => fm(&chain(&[qmat(qnorm(d4(*q))), [[1.0, 0.5, 0.0, 0.0], [0.0, 1.0, -0.75, 0.0], [0.25, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0]], trans(d3(*t))])),
                };
                let mut o = BoundingBox { Center: garbage3(), Extents: garbage3() };
                lbox(*cc, *e).TransformMatrix(&mut o, mf(m));
                let w: Vec<D3> = corners(&Shape::Box { c: *cc, e: *e }).iter().map(|p| app(*p, &dm(&m))).collect();
                let ok = box_ok(&o, &w) || { let mut w2 = w.clone(); w2.push(mul3(d3(*cc), 5.0)); size(&w2) > 2.0 * size(&w) && (0..3).all(|i| { let (lo, hi) = aabb(&w); let t2 = tol * (size(&w2) + 1.0); let c0 = a3(&o.Center)[i] as f64; let e0 = a3(&o.Extents)[i] as f64; (c0 - e0 - lo[i]).abs() <= t2 && (c0 + e0 - hi[i]).abs() <= t2 }) };
                sw.t(ok, a3(&o.Extents)[0].to_bits() as u64, || (format!("c {:?} e {:?} m {:?}", cc, e, m), format!("{:?}", o), format!("{:?}", aabb(&w))));
            } } } } }
        });
        c.sweep("BoundingBox::TransformDecomposed", |sw| {
            for cc in &cs { for e in &bb { for s in uscale { for q in &rots { for t in &ts {
                sw.state();
                let m = dm(&srt([*s; 3], *q, *t));
                let mut o = BoundingBox { Center: garbage3(), Extents: garbage3() };
                lbox(*cc, *e).TransformDecomposed(&mut o, *s, vf(*q), v3w(*t, 7.0));
                let w: Vec<D3> = corners(&Shape::Box { c: *cc, e: *e }).iter().map(|p| app(*p, &m)).collect();
                let ok = box_ok(&o, &w);
                sw.t(ok, a3(&o.Extents)[0].to_bits() as u64, || (format!("c {:?} e {:?} s {} q {:?} t {:?}", cc, e, s, q, t), format!("{:?}", o), format!("{:?}", aabb(&w))));
            } } } } }
        });
        let far_tol = |w: &[D3], cc: [f32; 3], t: [f32; 3]| tol * (size(w) + 3.0 * len3(d3(cc)) + len3(d3(t)) + 1.0e-6);
        c.sweep("BoundingOrientedBox::TransformMatrix", |sw| {
            for (i, cc) in cs.iter().enumerate() { for e in &bb { for (j, q0) in few.iter().enumerate() { for q in &rots { for (k, t) in ts.iter().enumerate() {
                // uniform scales keep any box a box; a box without rotation of its own stays one under any axis scale
                let s = if j == 0 { nscale[(i + k) % nscale.len()] } else { [uscale[(i + 2 * j + k) % uscale.len()]; 3] };
                sw.state();
                let m = srt(s, *q, *t);
                let mut o = BoundingOrientedBox { Center: garbage3(), Extents: garbage3(), Orientation: f4([f32::NAN; 4]) };
                lobox(*cc, *e, *q0).TransformMatrix(&mut o, mf(m));
                let w: Vec<D3> = corners(&Shape::OBox { c: *cc, e: *e, q: *q0 }).iter().map(|p| app(*p, &dm(&m))).collect();
                let g = corners(&back_o(&o));
                let ok = unit(a4(&o.Orientation)) && maxdist(&g, &w) <= far_tol(&w, *cc, *t);
                sw.t(ok, hd(&g), || (format!("c {:?} e {:?} q0 {:?} s {:?} q {:?} t {:?}", cc, e, q0, s, q, t), format!("{:?} off {}", o, maxdist(&g, &w)), format!("{:?}", w)));
            } } } } }
        });
        c.sweep("BoundingOrientedBox::TransformDecomposed", |sw| {
            for (i, cc) in cs.iter().enumerate() { for e in &bb { for (j, q0) in few.iter().enumerate() { for q in &rots { for (k, t) in ts.iter().enumerate() {
                let s = uscale[(i + 2 * j + k) % uscale.len()];
                sw.state();
                let m = srt([s; 3], *q, *t);
                let mut o = BoundingOrientedBox { Center: garbage3(), Extents: garbage3(), Orientation: f4([f32::NAN; 4]) };
                lobox(*cc, *e, *q0).TransformDecomposed(&mut o, s, vf(*q), v3w(*t, 7.0));
                let w: Vec<D3> = corners(&Shape::OBox { c: *cc, e: *e, q: *q0 }).iter().map(|p| app(*p, &dm(&m))).collect();
                let g = corners(&back_o(&o));
                let ok = unit(a4(&o.Orientation)) && maxdist(&g, &w) <= far_tol(&w, *cc, *t);
                sw.t(ok, hd(&g), || (format!("c {:?} e {:?} q0 {:?} s {:?} q {:?} t {:?}", cc, e, q0, s, q, t), format!("{:?} off {}", o, maxdist(&g, &w)), format!("{:?}", w)));
            } } } } }
        });
        let fr2: Vec<Shape> = { let st = if th { 37 } else { 5 }; fr.iter().step_by(st).cloned().collect() };
        // a frustum cannot follow a non-uniform scale: it keeps its slopes and grows by the largest factor, like the sphere
        c.sweep("BoundingFrustum::TransformMatrix non-uniform", |sw| {
            for (i, s0) in fr2.iter().enumerate().step_by(3) { for q in &rots { for (k, s) in nscale.iter().enumerate() {
                let t = ts[(i + k) % ts.len()];
                sw.state();
                let m = srt(*s, *q, t);
                let mut o = BoundingFrustum { Origin: garbage3(), Orientation: f4([f32::NAN; 4]), RightSlope: f32::NAN, LeftSlope: f32::NAN, TopSlope: f32::NAN, BottomSlope: f32::NAN, Near: f32::NAN, Far: f32::NAN };
                let f = match lib(s0) { Lib::F(f) => f, _ => unreachable!() };
                f.TransformMatrix(&mut o, mf(m));
                let cc = if let Shape::Frustum { o, .. } = s0 { *o } else { [0.0; 3] };
                let big = s[0].max(s[1]).max(s[2]) as f64;
                let at0 = app(d3(cc), &dm(&m));
                let w: Vec<D3> = corners(s0).iter().map(|p| add3(at0, mul3(qrot(qnorm(d4(*q)), sub3(*p, d3(cc))), big))).collect();
                let g = corners(&back_f(&o));
                let ok = unit(a4(&o.Orientation)) && maxdist(&g, &w) <= far_tol(&w, mul3(d3(cc), big).map(|x| x as f32), t);
                sw.t(ok, hd(&g), || (format!("{:?} s {:?} q {:?} t {:?}", s0, s, q, t), format!("{:?} off {}", o, maxdist(&g, &w)), format!("{:?}", w)));
            } } }
        });
        // every octave of the scale, of each translation and centre component, of each size, and every octave of rotation
        c.sweep("transforms by octaves", |sw| {
            let pos = |lo: i32, hi: i32| -> Vec<f32> { octaves(lo, hi).into_iter().filter(|x| *x > 0.0).collect() };
            struct T { cc: [f32; 3], e: [f32; 3], q0: F4, s: f32, q: F4, t: [f32; 3] }
            let qa = uq([1.0, -0.5, 0.25], 0.9);
            let qb = uq([0.3, 1.0, -0.7], 2.4);
            let mut ts: Vec<T> = vec![];
            let id = [0.0, 0.0, 0.0, 1.0];
            for (q0, q) in [(qb, qa), (id, qa), (qa, id), (id, id)] {
                for s in pos(-16, 16) { for t in [[3.0, -1.0, 0.5], [0.0; 3]] { ts.push(T { cc: [1.0, -2.0, 3.0], e: [1.0, 2.0, 0.5], q0, s, q, t }); } }
                for k in 1..=20 { for sg in [1.0f32, -1.0] { ts.push(T { cc: [1.0, -2.0, 3.0], e: [1.0, 2.0, 0.5], q0, s: 1.0 + sg * 2f32.powi(-k), q, t: [3.0, -1.0, 0.5] }); } }
                for t in star(&[[0.0f32; 3], [3.0, -1.0, 0.5]], &octaves(-20, 16)) { for s in [1.0f32, 0.75] { ts.push(T { cc: [1.0, -2.0, 3.0], e: [1.0, 2.0, 0.5], q0, s, q, t }); } }
                for cc in star(&[[0.0f32; 3], [1.0, -2.0, 3.0]], &octaves(-20, 16)) { for s in [1.0f32, 1.5] { ts.push(T { cc, e: [1.0, 2.0, 0.5], q0, s, q, t: [3.0, -1.0, 0.5] }); } }
                for e in star(&[[1.0f32, 2.0, 0.5], [0.01, 0.01, 0.01]], &pos(-16, 14)) { for s in [1.0f32, 0.5] { ts.push(T { cc: [1.0, -2.0, 3.0], e, q0, s, q, t: [0.25, 0.0, -4.0] }); } }
            }
            for a in octaves(-22, 0) {
                for ax in [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, -2.0, 0.5]] {
                    for base in [0.0f64, std::f64::consts::PI] {
                        let r = uq(ax, base + a as f64);
                        ts.push(T { cc: [1.0, -2.0, 3.0], e: [1.0, 2.0, 0.5], q0: qb, s: 1.0, q: r, t: [0.0; 3] });
                        ts.push(T { cc: [1.0, -2.0, 3.0], e: [1.0, 2.0, 0.5], q0: r, s: 1.0, q: qa, t: [0.0; 3] });
                        ts.push(T { cc: [1.0, -2.0, 3.0], e: [1.0, 2.0, 0.5], q0: r, s: 2.0, q: id, t: [1.0, 0.0, 0.0] });
                    }
                }
            }
            for x in &ts {
                let m = srt([x.s; 3], x.q, x.t);
                let md = dm(&m);
                let sd = x.s as f64;
                let lim = |w: &[D3]| tol * (size(w) + 3.0 * sd * len3(d3(x.cc)) + len3(d3(x.t)));
                let show = || format!("c {:?} e {:?} q0 {:?} s {} q {:?} t {:?}", x.cc, x.e, x.q0, x.s, x.q, x.t);
                for dec in [false, true] {
                    let (qv, tv) = (vf(x.q), v3w(x.t, 7.0));
                    // sphere
                    sw.state();
                    let mut o = BoundingSphere { Center: garbage3(), Radius: f32::NAN };
                    let sp = lsphere(x.cc, x.e[0]);
                    if dec { sp.TransformDecomposed(&mut o, x.s, qv, tv) } else { sp.TransformMatrix(&mut o, mf(m)) }
                    let w = app(d3(x.cc), &md);
                    let ok = len3(sub3(d3(a3(&o.Center)), w)) <= lim(&[w]) && close(o.Radius, x.e[0] as f64 * sd, tol, 0.0);
                    sw.t(ok, o.Radius.to_bits() as u64, || (format!("sphere dec {} {}", dec, show()), format!("{:?}", o), format!("{:?}", w)));
                    // box
                    let mut o = BoundingBox { Center: garbage3(), Extents: garbage3() };
                    let b = lbox(x.cc, x.e);
                    if dec { b.TransformDecomposed(&mut o, x.s, qv, tv) } else { b.TransformMatrix(&mut o, mf(m)) }
                    let w: Vec<D3> = corners(&Shape::Box { c: x.cc, e: x.e }).iter().map(|p| app(*p, &md)).collect();
                    let (lo, hi) = aabb(&w);
                    let ok = (0..3).all(|i| {
                        let (c0, e0) = (a3(&o.Center)[i] as f64, a3(&o.Extents)[i] as f64);
                        (c0 - e0 - lo[i]).abs() <= lim(&w) && (c0 + e0 - hi[i]).abs() <= lim(&w)
                    });
                    sw.t(ok, a3(&o.Extents)[0].to_bits() as u64, || (format!("box dec {} {}", dec, show()), format!("{:?}", o), format!("{:?}", (lo, hi))));
                    // oriented box
                    let mut o = BoundingOrientedBox { Center: garbage3(), Extents: garbage3(), Orientation: f4([f32::NAN; 4]) };
                    let b = lobox(x.cc, x.e, x.q0);
                    if dec { b.TransformDecomposed(&mut o, x.s, qv, tv) } else { b.TransformMatrix(&mut o, mf(m)) }
                    let w: Vec<D3> = corners(&Shape::OBox { c: x.cc, e: x.e, q: x.q0 }).iter().map(|p| app(*p, &md)).collect();
                    let g = corners(&back_o(&o));
                    let ext = (0..3).all(|i| close(a3(&o.Extents)[i], x.e[i] as f64 * sd, tol, 0.0));
                    let ok = ext && unit(a4(&o.Orientation)) && maxdist(&g, &w) <= lim(&w);
                    sw.t(ok, hd(&g), || (format!("oriented box dec {} {}", dec, show()), format!("{:?} off {}", o, maxdist(&g, &w)), format!("{:?}", w)));
                    // frustum with these sizes as slopes and depths
                    let s0 = Shape::Frustum { o: x.cc, q: x.q0, s: [x.e[0], -x.e[0] * 0.5, x.e[1], -0.25], n: x.e[2], f: x.e[2] * 3.0 };
                    let f = match lib(&s0) { Lib::F(f) => f, _ => unreachable!() };
                    let mut o = BoundingFrustum { Origin: garbage3(), Orientation: f4([f32::NAN; 4]), RightSlope: f32::NAN, LeftSlope: f32::NAN, TopSlope: f32::NAN, BottomSlope: f32::NAN, Near: f32::NAN, Far: f32::NAN };
                    if dec { f.TransformDecomposed(&mut o, x.s, qv, tv) } else { f.TransformMatrix(&mut o, mf(m)) }
                    let w: Vec<D3> = corners(&s0).iter().map(|p| app(*p, &md)).collect();
                    let g = corners(&back_f(&o));
                    let fld = [(o.RightSlope, x.e[0] as f64), (o.LeftSlope, -0.5 * x.e[0] as f64), (o.TopSlope, x.e[1] as f64), (o.BottomSlope, -0.25), (o.Near, x.e[2] as f64 * sd), (o.Far, (x.e[2] * 3.0) as f64 * sd)].iter().all(|(g, w)| close(*g, *w, tol, 0.0));
                    let ok = fld && unit(a4(&o.Orientation)) && maxdist(&g, &w) <= lim(&w);
                    sw.t(ok, hd(&g), || (format!("frustum dec {} {}", dec, show()), format!("{:?} off {}", o, maxdist(&g, &w)), format!("{:?}", w)));
                }
            }
        });
        for dec in [false, true] {
            c.sweep(if dec { "BoundingFrustum::TransformDecomposed" } else { "BoundingFrustum::TransformMatrix" }, |sw| {
                for (i, s0) in fr2.iter().enumerate() { for q in &rots { for (k, t) in ts.iter().enumerate() { 
                    let s = uscale[(i + k) % uscale.len()];
                    sw.state();
                    let m = srt([s; 3], *q, *t);
                    let mut o = BoundingFrustum { Origin: garbage3(), Orientation: f4([f32::NAN; 4]), RightSlope: f32::NAN, LeftSlope: f32::NAN, TopSlope: f32::NAN, BottomSlope: f32::NAN, Near: f32::NAN, Far: f32::NAN };
                    let f = match lib(s0) { Lib::F(f) => f, _ => unreachable!() };
                    if dec { f.TransformDecomposed(&mut o, s, vf(*q), v3w(*t, 7.0)); } else { f.TransformMatrix(&mut o, mf(m)); }
                    let w: Vec<D3> = corners(s0).iter().map(|p| app(*p, &dm(&m))).collect();
                    let g = corners(&back_f(&o));
                    let cc = if let Shape::Frustum { o, .. } = s0 { *o } else { [0.0; 3] };
                    let ok = unit(a4(&o.Orientation)) && maxdist(&g, &w) <= far_tol(&w, cc, *t);
                    sw.t(ok, hd(&g), || (format!("{:?} s {:?} q {:?} t {:?}", s0, s, q, t), format!("{:?} off {}", o, maxdist(&g, &w)), format!("{:?}", w)));
                } } }
            });
        }
    });
}
