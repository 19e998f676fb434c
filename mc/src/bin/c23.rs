//! C23: constructed and merged bounding volumes.
use mc::dom::*;
use mc::geo::*;
use mc::refm::*;
use mc::*;

fn seqs(n: usize, len: usize, f: &mut dyn FnMut(&[usize])) {
    let mut ix = vec![0usize; len];
    loop {
        f(&ix);
        let mut i = 0;
        loop {
            if i == len {
                return;
            }
            ix[i] += 1;
            if ix[i] < n {
                break;
            }
            ix[i] = 0;
            i += 1;
        }
    }
}
fn h3(a: &XMFLOAT3, b: f32) -> u64 {
    h4([a.x.to_bits(), a.y.to_bits(), a.z.to_bits(), b.to_bits()])
}
fn dv(a: &XMFLOAT3) -> D3 {
    [a.x as f64, a.y as f64, a.z as f64]
}

/// The minimal sphere of points whose one farthest pair spans it and is extremal, alone, along some axis.
fn diametral(pts: &[D3]) -> Option<(D3, f64)> {
    let mut u: Vec<D3> = vec![];
    for p in pts {
        if !u.contains(p) {
            u.push(*p);
        }
    }
    let mut ds: Vec<(f64, usize, usize)> = vec![];
    for i in 0..u.len() {
        for j in 0..i {
            ds.push((len3(sub3(u[i], u[j])), i, j));
        }
    }
    ds.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
    let (d, i, j) = *ds.first()?;
    let gap = 1.0e-3 * d;
    if ds.len() > 1 && ds[1].0 > d - gap {
        return None;
    }
    let c = mul3(add3(u[i], u[j]), 0.5);
    let rest = || (0..u.len()).filter(|k| *k != i && *k != j);
    if rest().any(|k| len3(sub3(u[k], c)) > 0.5 * d - gap) {
        return None;
    }
    let alone = (0..3).any(|a| {
        let (lo, hi) = (u[i][a].min(u[j][a]), u[i][a].max(u[j][a]));
        hi - lo > gap && rest().all(|k| u[k][a] > lo + gap && u[k][a] < hi - gap)
    });
    if alone { Some((c, 0.5 * d)) } else { None }
}

fn main() {
    Ctx::main("C23", |c| {
        let th = c.thorough();
        let meas = std::env::var("MC_MEASURE").is_ok();
        let lat = vec3s(&[-1.0f32, 0.0, 2.0]);
        let gen: Vec<[f32; 3]> = vec![
            [0.0, 0.0, 0.0], [1.0, 0.0, 0.0], [0.0, 3.0, 0.0], [0.0, 0.0, -2.0], [1.5, -2.25, 0.5], [-4.0, 1.0, 1.0],
            [100.0, 50.0, -25.0], [-0.125, 0.25, 7.0], [2.0, 2.0, 2.0], [-3.0, -3.0, 5.0], [0.0, 1.0, 1.0], [8.0, -1.0, 0.0625],
        ];
        let far: Vec<[f32; 3]> = gen.iter().map(|p| [p[0] + 500.0, p[1] - 300.0, p[2] + 40.0]).collect();
        let mut plans: Vec<(Vec<[f32; 3]>, usize)> = vec![(lat.clone(), 1), (lat.clone(), 2), (lat.clone(), 3), (gen.clone(), 4), (far.clone(), 3), (gen[..8].to_vec(), 5)];
        if th {
            plans.extend([(lat.clone(), 4), (gen.clone(), 5), (far.clone(), 4), (gen[4..12].to_vec(), 6)]);
        }
        // sub-unit and very large coordinates
        for k in [1.0f32 / 4096.0, 16384.0] {
            plans.push((gen.iter().map(|p| p.map(|x| x * k)).collect(), if th { 4 } else { 3 }));
        }
        c.sweep("BoundingBox::CreateFromPoints", |sw| {
            for (pts, len) in &plans {
                seqs(pts.len(), *len, &mut |ix| {
                    let p: Vec<XMFLOAT3> = ix.iter().map(|i| f3(pts[*i])).collect();
                    sw.state();
                    let mut b = lbox([9.0; 3], [9.0; 3]);
                    BoundingBox::CreateFromPoints(&mut b, p.iter());
                    let mut lo = [f64::INFINITY; 3];
                    let mut hi = [f64::NEG_INFINITY; 3];
                    for i in ix {
                        for k in 0..3 {
                            lo[k] = lo[k].min(pts[*i][k] as f64);
                            hi[k] = hi[k].max(pts[*i][k] as f64);
                        }
                    }
                    let (ce, ex) = (dv(&b.Center), dv(&b.Extents));
                    let ok = (0..3).all(|k| ce[k] == (lo[k] + hi[k]) * 0.5 && ex[k] == (hi[k] - lo[k]) * 0.5);
                    sw.t(ok, h3(&b.Extents, b.Center.x), || (format!("{:?}", p), format!("{:?}", b), format!("{:?}..{:?}", lo, hi)));
                });
            }
        });
        let mut worst = (0.0f64, 0.0f64, 0.0f64, 0.0f64);
        c.sweep("BoundingSphere::CreateFromPoints", |sw| {
            for (pts, len) in &plans {
                seqs(pts.len(), *len, &mut |ix| {
                    let p: Vec<XMFLOAT3> = ix.iter().map(|i| f3(pts[*i])).collect();
                    sw.state();
                    let mut b = lsphere([9.0; 3], 9.0);
                    BoundingSphere::CreateFromPoints(&mut b, p.iter());
                    let ce = dv(&b.Center);
                    let mut diam = 0.0f64;
                    let mut far = 0.0f64;
                    let mut mag = 1.0e-30f64;
                    for i in ix {
                        let x = d3(pts[*i]);
                        mag = mag.max(len3(x));
                        far = far.max(len3(sub3(x, ce)));
                        for j in ix {
                            diam = diam.max(len3(sub3(x, d3(pts[*j]))));
                        }
                    }
                    let r = b.Radius as f64;
                    let tol = 2.0e-6 * mag;
                    worst.0 = worst.0.max((far - r) / mag);
                    if diam > 0.0 {
                        worst.1 = worst.1.max(r / diam);
                    }
                    // encloses every point; the radius is at most the diameter: the centre stays in the convex hull, a step is (r + distance) / 2
                    let ok = r >= 0.0 && ce.iter().all(|x| x.is_finite()) && far <= r + tol && r <= diam + tol;
                    // two distinct points (or repetitions of them) have one optimal sphere
                    let mut dp: Vec<[f32; 3]> = ix.iter().map(|i| pts[*i]).collect();
                    dp.sort_by(|a, b| a.partial_cmp(b).unwrap());
                    dp.dedup();
                    let ok = ok && (dp.len() > 2 || (r - 0.5 * diam).abs() <= tol);
                    let opt = diametral(&ix.iter().map(|i| d3(pts[*i])).collect::<Vec<_>>());
                    let ok = ok && opt.map_or(true, |(c, d)| (r - d).abs() <= tol && len3(sub3(ce, c)) <= tol);
                    sw.t(ok, h3(&b.Center, b.Radius), || (format!("{:?}", p), format!("{:?} farthest {} ", b, far), format!("a sphere around all points, radius <= {}", diam)));
                });
            }
        });
        c.sweep("BoundingOrientedBox::CreateFromPoints", |sw| {
            for (pts, len) in &plans {
                seqs(pts.len(), *len, &mut |ix| {
                    let p: Vec<XMFLOAT3> = ix.iter().map(|i| f3(pts[*i])).collect();
                    sw.state();
                    at(|| format!("{:?}", p));
                    let mut b = lobox([9.0; 3], [9.0; 3], [0.0; 4]);
                    BoundingOrientedBox::CreateFromPoints(&mut b, p.iter());
                    let q: D4 = [b.Orientation.x as f64, b.Orientation.y as f64, b.Orientation.z as f64, b.Orientation.w as f64];
                    let unit = (qdot(q, q) - 1.0).abs() < 2.0e-6;
                    let (ce, ex) = (dv(&b.Center), dv(&b.Extents));
                    let mut mag = 1.0e-30f64;
                    let mut lo = [f64::INFINITY; 3];
                    let mut hi = [f64::NEG_INFINITY; 3];
                    let qi = qconj(qnorm(q));
                    for i in ix {
                        let x = d3(pts[*i]);
                        mag = mag.max(len3(x));
                        let l = qrot(qi, sub3(x, ce));
                        for k in 0..3 {
                            lo[k] = lo[k].min(l[k]);
                            hi[k] = hi[k].max(l[k]);
                        }
                    }
                    // encloses every point and touches one on each of its six sides
                    let mut e = 0.0f64;
                    for k in 0..3 {
                        e = e.max((hi[k] - ex[k]).abs()).max((lo[k] + ex[k]).abs());
                        if !(hi[k] - ex[k]).is_finite() || ex[k] < 0.0 {
                            e = f64::INFINITY;
                        }
                    }
                    worst.2 = worst.2.max(e / mag);
                    sw.t(unit && e <= 5.0e-6 * mag, h3(&b.Extents, b.Orientation.x), || (format!("{:?}", p), format!("{:?} off by {}", b, e), "a unit-oriented box that encloses the points and touches them on every side".into()));
                });
            }
        });
        // One point sticks out of a cloud in some direction, at every position of lists of every length.
        c.sweep("outlier at every position", |sw| {
            let cloud = |i: usize| [((i * 7) % 5) as f32 * 0.25 - 0.5, ((i * 3) % 4) as f32 * 0.25 - 0.375, ((i * 5) % 7) as f32 * 0.125 - 0.375];
            for n in 1..=(if th { 24usize } else { 12 }) {
                for pos in 0..n {
                    for d in vec3s(&[-4.0f32, 0.0, 3.0]) {
                        for (base, k) in [([0.0f32; 3], 1.0f32), ([20.0, -40.0, 10.0], 1.0), ([1.0, 2.0, -0.5], 1.0 / 16384.0), ([-1.0, 0.5, 2.0], 16384.0)] {
                            let raw: Vec<[f32; 3]> = (0..n).map(|i| { let x = if i == pos { d } else { cloud(i) }; [(x[0] + base[0]) * k, (x[1] + base[1]) * k, (x[2] + base[2]) * k] }).collect();
                            let p: Vec<XMFLOAT3> = raw.iter().map(|x| f3(*x)).collect();
                            sw.state();
                            at(|| format!("{:?}", raw));
                            let mut b = lbox([9.0; 3], [9.0; 3]);
                            BoundingBox::CreateFromPoints(&mut b, p.iter());
                            let mut s = lsphere([9.0; 3], 9.0);
                            BoundingSphere::CreateFromPoints(&mut s, p.iter());
                            let mut o = lobox([9.0; 3], [9.0; 3], [0.0; 4]);
                            BoundingOrientedBox::CreateFromPoints(&mut o, p.iter());
                            let q: D4 = [o.Orientation.x as f64, o.Orientation.y as f64, o.Orientation.z as f64, o.Orientation.w as f64];
                            let (mut diam, mut out) = (0.0f64, 0.0f64);
                            let (mut lo, mut hi) = ([f64::INFINITY; 3], [f64::NEG_INFINITY; 3]);
                            let mut mag = k as f64;
                            for x in &raw {
                                let x = d3(*x);
                                mag = mag.max(len3(x));
                                for y in &raw { diam = diam.max(len3(sub3(x, d3(*y)))); }
                                out = out.max(len3(sub3(x, dv(&s.Center))) - s.Radius as f64);
                                let l = qrot(qconj(qnorm(q)), sub3(x, dv(&o.Center)));
                                for k in 0..3 {
                                    out = out.max(l[k].abs() - dv(&o.Extents)[k]);
                                    lo[k] = lo[k].min(x[k]);
                                    hi[k] = hi[k].max(x[k]);
                                }
                            }
                            let tol = 5.0e-6 * mag;
                            let okb = (0..3).all(|k| (dv(&b.Center)[k] - (lo[k] + hi[k]) * 0.5).abs() <= tol && (dv(&b.Extents)[k] - (hi[k] - lo[k]) * 0.5).abs() <= tol);
                            let opt = diametral(&raw.iter().map(|x| d3(*x)).collect::<Vec<_>>());
                            let okb = okb && opt.map_or(true, |(c, d)| (s.Radius as f64 - d).abs() <= tol && len3(sub3(dv(&s.Center), c)) <= tol);
                            let ok = okb && out <= tol && (qdot(q, q) - 1.0).abs() < 2.0e-6 && s.Radius as f64 <= diam + tol && len3(dv(&o.Extents)) <= 1.001 * diam + tol;
                            sw.t(ok, h3(&o.Extents, s.Radius), || (format!("outlier {} of {} points {:?}", pos, n, raw), format!("{:?} {:?} {:?} leaves out {}", b, s, o, out), "volumes that enclose the points".into()));
                        }
                    }
                }
            }
        });
        // The corners of a box with three clearly different extents determine its axes: the oriented box is that box.
        // (Rotations about a coordinate axis are left out: there the eigenvector formula may fall back to the coordinate axes.)
        c.sweep("oriented box from its own corners", |sw| {
            let pi = std::f64::consts::PI;
            let mut qs = vec![[0.0f32, 0.0, 0.0, 1.0]];
            for ax in [[1.0, 1.0, 1.0], [-1.0, 2.0, 0.5], [3.0, 1.0, -2.0], [0.2, -0.5, 1.0], [1.0, -0.3, 0.4]] {
                for an in [0.5, 1.0, pi / 2.0, 2.5, -1.2] {
                    qs.push(uq(ax, an));
                }
            }
            for q in qs {
                for e in [[1.0f32, 2.0, 4.0], [5.0, 0.5, 2.0], [0.25, 1.0, 0.5], [3.0, 8.0, 1.0], [1.0, 0.0, 3.0]] {
                    for (ic, cc) in [[0.0f32; 3], [3.0, -5.0, 0.5], [-20.0, 2.0, 7.0]].iter().enumerate() {
                        for k in [1.0f32, 1.0 / 16384.0, 1.0 / 64.0, 64.0, 16384.0] {
                            let sh = scaled(&Shape::OBox { c: *cc, e, q }, k);
                            let v = poly(&sh).v;
                            let p: Vec<XMFLOAT3> = (0..8).map(|i| f3(rd3(v[(i * [1, 3, 5][ic]) % 8]))).collect();
                            sw.state();
                            let mut o = lobox([9.0; 3], [9.0; 3], [0.0; 4]);
                            BoundingOrientedBox::CreateFromPoints(&mut o, p.iter());
                            let mut g = dv(&o.Extents);
                            let mut w = d3(e.map(|x| x * k));
                            g.sort_by(|a, b| a.partial_cmp(b).unwrap());
                            w.sort_by(|a, b| a.partial_cmp(b).unwrap());
                            let off = (0..3).map(|i| (g[i] - w[i]).abs()).fold(0.0, f64::max) / w[2];
                            worst.3 = worst.3.max(off);
                            let ok = off < 0.002 && len3(sub3(dv(&o.Center), d3(cc.map(|x| x * k)))) < 0.002 * w[2];
                            sw.t(ok, h3(&o.Extents, o.Center.x), || (format!("corners of {:?}", sh), format!("{:?} off {}", o, off), "the same box up to the order of its axes".into()));
                        }
                    }
                }
            }
        });
        if meas {
            eprintln!("{:?}", worst);
        }
        // Merge histories: every sequence of merges of a menu, from each start, to a depth.
        let depth = if th { 5 } else { 4 };
        let mut nseq = 0;
        let bm: Vec<([f32; 3], [f32; 3])> = vec![
            ([0.0, 0.0, 0.0], [1.0, 1.0, 1.0]), ([2.0, 0.0, 0.0], [0.5, 0.25, 3.0]), ([-4.0, 1.0, 2.0], [0.0, 0.0, 0.0]), ([0.0, 0.0, 0.25], [8.0, 0.5, 0.5]),
            ([1.0, -6.0, 0.0], [0.125, 2.0, 1.0]), ([0.0, 3.0, -9.0], [1.0, 0.5, 2.0]), ([0.0, 0.0, 0.0], [16.0, 16.0, 16.0]),
        ];
        let bm0 = bm;
        for k in [1.0f32, 1.0 / 1048576.0, 1048576.0] {
        let bm: Vec<([f32; 3], [f32; 3])> = bm0.iter().map(|(c, e)| (c.map(|x| x * k), e.map(|x| x * k))).collect();
        c.sweep("BoundingBox merge histories", |sw| {
            seqs(bm.len(), if k == 1.0 { depth } else { 3 }, &mut |ix| {
                nseq += 1;
                let mut b = lbox(bm[ix[0]].0, bm[ix[0]].1);
                let mut lo = [f64::INFINITY; 3];
                let mut hi = [f64::NEG_INFINITY; 3];
                for (s, i) in ix.iter().enumerate() {
                    for k in 0..3 {
                        lo[k] = lo[k].min(bm[*i].0[k] as f64 - bm[*i].1[k] as f64);
                        hi[k] = hi[k].max(bm[*i].0[k] as f64 + bm[*i].1[k] as f64);
                    }
                    if s > 0 {
                        let o = lbox(bm[*i].0, bm[*i].1);
                        let a = b;
                        sw.state();
                        // both argument orders
                        if s % 2 == 0 { BoundingBox::CreateMerged(&mut b, &a, &o) } else { BoundingBox::CreateMerged(&mut b, &o, &a) }
                        let (ce, ex) = (dv(&b.Center), dv(&b.Extents));
                        let ok = (0..3).all(|k| ce[k] == (lo[k] + hi[k]) * 0.5 && ex[k] == (hi[k] - lo[k]) * 0.5);
                        sw.t(ok, h3(&b.Extents, b.Center.x), || (format!("merges {:?} step {}", ix, s), format!("{:?}", b), format!("{:?}..{:?}", lo, hi)));
                        if !ok {
                            return;
                        }
                    }
                }
            });
        });
        }
        let sm: Vec<([f32; 3], f32)> = vec![([0.0; 3], 1.0), ([0.5, 0.0, 0.0], 0.25), ([3.0, 0.0, 0.0], 1.0), ([0.0, -2.0, 1.0], 0.0), ([1.0, 1.0, 1.0], 20.0), ([0.0, 0.0, 1.5], 1.0), ([-30.0, 5.0, 2.0], 4.0), ([0.0; 3], 2.0)];
        let sm0 = sm;
        for k in [1.0f32, 1.0 / 16384.0, 16384.0] {
        let sm: Vec<([f32; 3], f32)> = sm0.iter().map(|(c, r)| (c.map(|x| x * k), r * k)).collect();
        c.sweep("BoundingSphere merge histories", |sw| {
            seqs(sm.len(), if k == 1.0 { depth } else { 3 }, &mut |ix| {
                nseq += 1;
                let mut b = lsphere(sm[ix[0]].0, sm[ix[0]].1);
                for s in 1..ix.len() {
                    let o = lsphere(sm[ix[s]].0, sm[ix[s]].1);
                    let a = b;
                    sw.state();
                    if s % 2 == 0 { BoundingSphere::CreateMerged(&mut b, &a, &o) } else { BoundingSphere::CreateMerged(&mut b, &o, &a) }
                    // minimal sphere around two spheres
                    let (ca, ra, co, ro) = (dv(&a.Center), a.Radius as f64, dv(&o.Center), o.Radius as f64);
                    let d = len3(sub3(co, ca));
                    let (wc, wr) = if ra >= d + ro { (ca, ra) } else if ro >= d + ra { (co, ro) } else {
                        let r = (d + ra + ro) * 0.5;
                        (add3(ca, mul3(sub3(co, ca), (r - ra) / d)), r)
                    };
                    let tol = 2.0e-6 * (len3(ca) + len3(co) + wr);
                    let ok = len3(sub3(dv(&b.Center), wc)) <= tol && (b.Radius as f64 - wr).abs() <= tol;
                    sw.t(ok, h3(&b.Center, b.Radius), || (format!("{:?} + {:?} (history {:?} step {})", a, o, ix, s), format!("{:?}", b), format!("{:?} {}", wc, wr)));
                    // everything merged so far stays inside
                    for i in &ix[..=s] {
                        let m = len3(sub3(d3(sm[*i].0), dv(&b.Center))) + sm[*i].1 as f64 - b.Radius as f64;
                        sw.t(m <= 4.0 * tol, 0, || (format!("history {:?} step {}", ix, s), format!("{:?} leaves out {:?} by {}", b, sm[*i], m), "enclosed".into()));
                    }
                }
            });
        });
        }
        c.seqs += nseq;
        // every octave of every coordinate of one point, of merged centres, sizes, and of converted volumes
        c.sweep("by octaves", |sw| {
            let base: Vec<[f32; 3]> = vec![[0.5, -1.0, 2.0], [1.5, 0.25, -0.75], [-2.0, 3.0, 0.125], [0.0, 0.0, 1.0], [-0.5, -0.25, -1.5]];
            let lad = octaves(-20, 14);
            for n in 1..=base.len() {
                for pos in 0..n {
                    for x3 in star(&[base[pos]], &lad) {
                        let mut raw = base[..n].to_vec();
                        raw[pos] = x3;
                        let p: Vec<XMFLOAT3> = raw.iter().map(|x| f3(*x)).collect();
                        sw.state();
                        at(|| format!("{:?}", raw));
                        let mut b = lbox([9.0; 3], [9.0; 3]);
                        BoundingBox::CreateFromPoints(&mut b, p.iter());
                        let mut s = lsphere([9.0; 3], 9.0);
                        BoundingSphere::CreateFromPoints(&mut s, p.iter());
                        let mut o = lobox([9.0; 3], [9.0; 3], [0.0; 4]);
                        BoundingOrientedBox::CreateFromPoints(&mut o, p.iter());
                        let q: D4 = [o.Orientation.x as f64, o.Orientation.y as f64, o.Orientation.z as f64, o.Orientation.w as f64];
                        let (mut diam, mut out, mut mag) = (0.0f64, 0.0f64, 0.0f64);
                        let (mut lo, mut hi) = ([f64::INFINITY; 3], [f64::NEG_INFINITY; 3]);
                        for x in &raw {
                            let x = d3(*x);
                            mag = mag.max(len3(x));
                            for y in &raw { diam = diam.max(len3(sub3(x, d3(*y)))); }
                            out = out.max(len3(sub3(x, dv(&s.Center))) - s.Radius as f64);
                            let l = qrot(qconj(qnorm(q)), sub3(x, dv(&o.Center)));
                            for k in 0..3 {
                                out = out.max(l[k].abs() - dv(&o.Extents)[k]);
                                lo[k] = lo[k].min(x[k]);
                                hi[k] = hi[k].max(x[k]);
                            }
                        }
                        let tol = 5.0e-6 * mag;
                        let okb = (0..3).all(|k| {
                            let t = 2.0e-7 * lo[k].abs().max(hi[k].abs());
                            (dv(&b.Center)[k] - (lo[k] + hi[k]) * 0.5).abs() <= t && (dv(&b.Extents)[k] - (hi[k] - lo[k]) * 0.5).abs() <= t
                        });
                        let opt = diametral(&raw.iter().map(|x| d3(*x)).collect::<Vec<_>>());
                        let oks = opt.map_or(true, |(c, d)| (s.Radius as f64 - d).abs() <= tol && len3(sub3(dv(&s.Center), c)) <= tol) && s.Radius as f64 <= diam + tol;
                        let ok = okb && oks && out <= tol && (qdot(q, q) - 1.0).abs() < 2.0e-6 && len3(dv(&o.Extents)) <= 1.001 * diam + tol;
                        sw.t(ok, h3(&o.Extents, s.Radius), || (format!("{:?}", raw), format!("{:?} {:?} {:?} leaves out {}", b, s, o, out), "volumes that enclose the points".into()));
                    }
                }
            }
            // spheres: the second centre and both radii
            for v in star(&[[1.0f32, 0.5, -2.0, 1.0, 1.5], [0.1, 0.0, 0.0, 3.0, 2.5], [0.0, 0.0, 0.0, 1.0, 1.0], [0.0, 4.0, 0.0, 2.0, 1.0]], &octaves(-20, 16)) {
                if v[3] < 0.0 || v[4] < 0.0 {
                    continue;
                }
                for at0 in [[0.0f32; 3], [0.25, -0.5, 1.0]] {
                    let (a, o) = (lsphere(at0, v[3]), lsphere([at0[0] + v[0], at0[1] + v[1], at0[2] + v[2]], v[4]));
                    for (a, o) in [(a, o), (o, a)] {
                        let mut b = lsphere([9.0; 3], 9.0);
                        sw.state();
                        BoundingSphere::CreateMerged(&mut b, &a, &o);
                        let (ca, ra, co, ro) = (dv(&a.Center), a.Radius as f64, dv(&o.Center), o.Radius as f64);
                        let d = len3(sub3(co, ca));
                        let (wc, wr) = if ra >= d + ro { (ca, ra) } else if ro >= d + ra { (co, ro) } else {
                            let r = (d + ra + ro) * 0.5;
                            (add3(ca, mul3(sub3(co, ca), (r - ra) / d)), r)
                        };
                        let tol = 2.0e-6 * (len3(ca) + len3(co) + wr);
                        let ok = len3(sub3(dv(&b.Center), wc)) <= tol && (b.Radius as f64 - wr).abs() <= tol;
                        sw.t(ok, h3(&b.Center, b.Radius), || (format!("{:?} + {:?}", a, o), format!("{:?}", b), format!("{:?} {}", wc, wr)));
                    }
                }
            }
            // boxes: every centre and extent component
            for v in star(&[[1.0f32, 0.5, -2.0, 1.0, 1.5, 0.25], [0.0, 0.0, 0.0, 1.0, 1.0, 1.0], [0.01, 0.02, -0.03, 2.0, 0.5, 0.75]], &octaves(-20, 16)) {
                if v[3..].iter().any(|x| *x < 0.0) {
                    continue;
                }
                let (c1, e1) = ([v[0], v[1], v[2]], [v[3], v[4], v[5]]);
                for (c2, e2) in [([0.0f32; 3], [1.0f32; 3]), ([-0.5, 2.0, 0.25], [0.125, 3.0, 0.5])] {
                    for sw2 in [false, true] {
                        let (x, y) = (lbox(c1, e1), lbox(c2, e2));
                        let mut b = lbox([9.0; 3], [9.0; 3]);
                        sw.state();
                        if sw2 { BoundingBox::CreateMerged(&mut b, &y, &x) } else { BoundingBox::CreateMerged(&mut b, &x, &y) }
                        let ok = (0..3).all(|k| {
                            let lo = (c1[k] as f64 - e1[k] as f64).min(c2[k] as f64 - e2[k] as f64);
                            let hi = (c1[k] as f64 + e1[k] as f64).max(c2[k] as f64 + e2[k] as f64);
                            let t = 3.0e-7 * (c1[k].abs() + e1[k] + c2[k].abs() + e2[k]) as f64;
                            (dv(&b.Center)[k] - (lo + hi) * 0.5).abs() <= t && (dv(&b.Extents)[k] - (hi - lo) * 0.5).abs() <= t
                        });
                        sw.t(ok, h3(&b.Extents, b.Center.x), || (format!("{:?} + {:?}", x, y), format!("{:?}", b), "the union box".into()));
                    }
                }
                // conversions of the same box
                let wr = len3(d3(e1));
                let b = lbox(c1, e1);
                let mut s = lsphere([9.0; 3], 9.0);
                BoundingSphere::CreateFromBoundingBox(&mut s, &b);
                sw.t(a3(&s.Center) == c1 && (s.Radius as f64 - wr).abs() <= 1.0e-6 * wr, h3(&s.Center, s.Radius), || (format!("sphere from {:?}", b), format!("{:?}", s), format!("radius {}", wr)));
                let mut o = lobox([9.0; 3], [9.0; 3], [0.0; 4]);
                BoundingOrientedBox::CreateFromBoundingBox(&mut o, &b);
                let ok = a3(&o.Center) == c1 && a3(&o.Extents) == e1 && [o.Orientation.x, o.Orientation.y, o.Orientation.z, o.Orientation.w] == [0.0, 0.0, 0.0, 1.0];
                sw.t(ok, h3(&o.Extents, o.Orientation.w), || (format!("obox from {:?}", b), format!("{:?}", o), "the same box, unrotated".into()));
                let ob = lobox(c1, e1, uq([1.0, -0.5, 0.25], 0.9));
                let mut s = lsphere([9.0; 3], 9.0);
                BoundingSphere::CreateFromBoundingOrientedBox(&mut s, &ob);
                sw.t(a3(&s.Center) == c1 && (s.Radius as f64 - wr).abs() <= 1.0e-6 * wr, h3(&s.Center, s.Radius), || (format!("sphere from {:?}", ob), format!("{:?}", s), format!("radius {}", wr)));
                let mut x = lbox([9.0; 3], [9.0; 3]);
                BoundingBox::CreateFromSphere(&mut x, &lsphere(c1, e1[0]));
                let (xc, xe) = (a3(&x.Center), a3(&x.Extents));
                let ok = (0..3).all(|k| {
                    let tol = 2.0e-7 * (c1[k].abs() as f64 + e1[0] as f64);
                    (xc[k] as f64 - c1[k] as f64).abs() <= tol && (xe[k] as f64 - e1[0] as f64).abs() <= tol
                });
                sw.t(ok, h3(&x.Center, x.Extents.x), || (format!("box from sphere {:?} {}", c1, e1[0]), format!("{:?}", x), "tight box".into()));
                // a frustum with these numbers as origin, slopes and depth
                let fs = Shape::Frustum { o: c1, q: uq([1.0, -0.5, 0.25], 0.9), s: [e1[0], -0.5, e1[1], -0.25 * e1[1]], n: e1[2], f: 3.0 * e1[2] };
                let pl = poly(&fs);
                if let Lib::F(lf) = lib(&fs) {
                    let mut s = lsphere([9.0; 3], 9.0);
                    sw.state();
                    BoundingSphere::CreateFromFrustum(&mut s, &lf);
                    let far = pl.v.iter().map(|v| len3(sub3(*v, dv(&s.Center)))).fold(0.0, f64::max);
                    let mut diam = 0.0f64;
                    for a in &pl.v { for b in &pl.v { diam = diam.max(len3(sub3(*a, *b))); } }
                    let tol = 5.0e-6 * (diam + len3(d3(c1)));
                    let r = s.Radius as f64;
                    sw.t(far <= r + tol && r <= diam + tol, h3(&s.Center, s.Radius), || (format!("sphere from {:?}", fs), format!("{:?} farthest corner {}", s, far), "encloses the corners".into()));
                }
            }
        });
        // mixed pipelines: volume -> volume conversions of every menu shape at several places
        c.sweep("conversions", |sw| {
            let at3: Vec<[f32; 3]> = vec![[0.0, 0.0, 0.0], [3.0, -5.0, 0.5], [-100.0, 20.0, 7.0]];
            let ext: Vec<[f32; 3]> = vec3s(&[0.0f32, 0.5, 1.0, 3.0]);
            for p in &at3 {
                for e in &ext {
                    let b = lbox(*p, *e);
                    let wr = len3(d3(*e));
                    sw.state();
                    let mut s = lsphere([9.0; 3], 9.0);
                    BoundingSphere::CreateFromBoundingBox(&mut s, &b);
                    let ok = a3(&s.Center) == *p && (s.Radius as f64 - wr).abs() <= 2.0e-6 * wr;
                    sw.t(ok, h3(&s.Center, s.Radius), || (format!("sphere from {:?}", b), format!("{:?}", s), format!("radius {}", wr)));
                    let mut o = lobox([9.0; 3], [9.0; 3], [0.0; 4]);
                    BoundingOrientedBox::CreateFromBoundingBox(&mut o, &b);
                    let ok = a3(&o.Center) == *p && a3(&o.Extents) == *e && [o.Orientation.x, o.Orientation.y, o.Orientation.z, o.Orientation.w] == [0.0, 0.0, 0.0, 1.0];
                    sw.t(ok, h3(&o.Extents, o.Orientation.w), || (format!("obox from {:?}", b), format!("{:?}", o), "the same box, unrotated".into()));
                    for q in orients(th) {
                        let ob = lobox(*p, *e, q);
                        let mut s = lsphere([9.0; 3], 9.0);
                        BoundingSphere::CreateFromBoundingOrientedBox(&mut s, &ob);
                        let ok = a3(&s.Center) == *p && (s.Radius as f64 - wr).abs() <= 2.0e-6 * wr;
                        sw.t(ok, h3(&s.Center, s.Radius), || (format!("sphere from {:?}", ob), format!("{:?}", s), format!("radius {}", wr)));
                    }
                }
                for r in [0.0f32, 0.25, 1.0, 64.0] {
                    let mut b = lbox([9.0; 3], [9.0; 3]);
                    sw.state();
                    BoundingBox::CreateFromSphere(&mut b, &lsphere(*p, r));
                    let ok = a3(&b.Center) == *p && a3(&b.Extents) == [r; 3];
                    sw.t(ok, h3(&b.Center, b.Extents.x), || (format!("box from sphere {:?} {}", p, r), format!("{:?}", b), "tight box".into()));
                }
                for f0 in frustums(true) {
                    let f = moved(&f0, d3(*p));
                    let pl = poly(&f);
                    if let Lib::F(lf) = lib(&f) {
                        let mut s = lsphere([9.0; 3], 9.0);
                        sw.state();
                        BoundingSphere::CreateFromFrustum(&mut s, &lf);
                        let far = pl.v.iter().map(|v| len3(sub3(*v, dv(&s.Center)))).fold(0.0, f64::max);
                        let mut diam = 0.0f64;
                        for a in &pl.v {
                            for b in &pl.v {
                                diam = diam.max(len3(sub3(*a, *b)));
                            }
                        }
                        let tol = 2.0e-5 * (1.0 + len3(d3(*p)));
                        let r = s.Radius as f64;
                        sw.t(far <= r + tol && r <= diam, h3(&s.Center, s.Radius), || (format!("sphere from {:?}", f), format!("{:?} farthest corner {}", s, far), "encloses the corners".into()));
                    }
                }
            }
        });
    });
}
