//! C13: matrix algebra.
use mc::dom::*;
use mc::refm::*;
use mc::*;
use std::collections::{HashMap, VecDeque};

fn mats() -> Vec<M4> {
    let mut r = vec![];
    for i in 0..16 {
        let mut m = [[0.0f32; 4]; 4];
        m[i / 4][i % 4] = 3.0;
        r.push(m);
        for j in 0..i {
            let mut n = m;
            n[j / 4][j % 4] = -5.0;
            r.push(n);
        }
    }
    let p = [2.0f32, -3.0, 5.0, 7.0, -11.0, 13.0, 17.0, -19.0, 23.0, 29.0, 31.0, -37.0, 41.0, 43.0, -47.0, 53.0];
    for k in 0..16 {
        let mut m = [[0.0f32; 4]; 4];
        for i in 0..16 {
            m[i / 4][i % 4] = p[(i + k) % 16];
        }
        r.push(m);
    }
    r.push(fm(&ID));
    r
}
fn key(m: &M4) -> [u32; 16] {
    let mut k = [0; 16];
    for i in 0..16 {
        k[i] = (m[i / 4][i % 4] + 0.0).to_bits();
    }
    k
}
fn hm(m: &M4) -> u64 {
    key(m).iter().fold(0u64, |a, b| (a ^ *b as u64).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23))
}
fn same(a: &M4, w: &DM) -> bool {
    (0..4).all(|i| (0..4).all(|j| num_eq(a[i][j], w[i][j] as f32)))
}
fn scale(m: &M4, s: f32) -> M4 {
    m.map(|r| r.map(|x| x * s))
}

fn main() {
    Ctx::main("C13", |c| {
        let th = c.thorough();
        let ms = mats();
        for (n, tr) in [("XMMatrixMultiply", false), ("XMMatrixMultiplyTranspose", true)] {
            c.sweep(n, |sw| {
                for (i, a) in ms.iter().enumerate() {
                    for (j, b) in ms.iter().enumerate() {
                        let s = 2f32.powi([0, 60, -60, 20][(i + j) % 4]);
                        let a = scale(a, s);
                        let p = mmul(&dm(&a), &dm(b));
                        let w = if tr { mt(&p) } else { p };
                        sw.state();
                        let g = mb(if tr { XMMatrixMultiplyTranspose(mf(a), &mf(*b)) } else { XMMatrixMultiply(mf(a), &mf(*b)) });
                        sw.t(eq_m(&g, &w), hm(&g), || (format!("{} * {}", sm(&a), sm(b)), sm(&g), format!("{:?}", w)));
                    }
                }
                // factors a small step away from the identity and from zero
                for cell in 0..16 {
                    for k in [3i32, 7, 10, 14, 20] {
                        for b in ms[136..].iter().chain(&[fm(&qmat(qaxis([1.0, 2.0, -1.0], 0.7)))]) {
                            for base in [ID, [[0.0; 4]; 4], scal([-1.0, 1.0, 1.0])] {
                                let mut e = fm(&base);
                                e[cell / 4][cell % 4] += 2f32.powi(-k);
                                for side in 0..2 {
                                    let (x, y) = if side == 0 { (e, *b) } else { (*b, e) };
                                    let p = mmul(&dm(&x), &dm(&y));
                                    let w = if tr { mt(&p) } else { p };
                                    sw.state();
                                    let g = mb(if tr { XMMatrixMultiplyTranspose(mf(x), &mf(y)) } else { XMMatrixMultiply(mf(x), &mf(y)) });
                                    let ok = (0..4).all(|i| (0..4).all(|j| (g[i][j] as f64 - w[i][j]).abs() <= 3.0e-7 * 60.0));
                                    sw.t(ok, hm(&g), || (format!("{} * {}", sm(&x), sm(&y)), sm(&g), format!("{:?}", w)));
                                }
                            }
                        }
                    }
                }
                // every octave of every cell
                for cell in 0..16 {
                    for x in octaves(-40, 40) {
                        for (k, base) in [ID, [[0.0; 4]; 4], qmat(qaxis([1.0, 2.0, -1.0], 0.7)), dm(&ms[140])].iter().enumerate() {
                            let mut e = fm(base);
                            e[cell / 4][cell % 4] = x;
                            let b = [ms[137], fm(&qmat(qaxis([0.5, -1.0, 1.0], 1.9)))][k % 2];
                            for side in 0..3 {
                                let (u, v) = match side { 0 => (e, b), 1 => (b, e), _ => (e, e) };
                                let (ud, vd) = (dm(&u), dm(&v));
                                let p = mmul(&ud, &vd);
                                sw.state();
                                let g = mb(if tr { XMMatrixMultiplyTranspose(mf(u), &mf(v)) } else { XMMatrixMultiply(mf(u), &mf(v)) });
                                let ok = (0..4).all(|i| (0..4).all(|j| {
                                    let m: f64 = (0..4).map(|l| (ud[i][l] * vd[l][j]).abs()).sum();
                                    let r = if tr { g[j][i] } else { g[i][j] };
                                    (r as f64 - p[i][j]).abs() <= 4.0e-7 * m
                                }));
                                sw.t(ok, hm(&g), || (format!("{} * {}", sm(&u), sm(&v)), sm(&g), format!("{:?}", p)));
                            }
                        }
                    }
                }
                // a NaN, infinity or huge value in one cell stays in its row / column
                for x in [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 3.0e38] {
                    for cell in 0..16 {
                        for side in 0..2 {
                            for k in 0..4 {
                                let (mut a, mut b) = (ms[136 + k], ms[140 + k]);
                                if side == 0 { a[cell / 4][cell % 4] = x } else { b[cell / 4][cell % 4] = x }
                                let p = mmul(&dm(&a), &dm(&b));
                                let w = if tr { mt(&p) } else { p };
                                sw.state();
                                let g = mb(if tr { XMMatrixMultiplyTranspose(mf(a), &mf(b)) } else { XMMatrixMultiply(mf(a), &mf(b)) });
                                sw.t(same(&g, &w), hm(&g), || (format!("{} * {}", sm(&a), sm(&b)), sm(&g), format!("{:?}", w)));
                            }
                        }
                    }
                }
            });
        }
        c.sweep("XMMatrixTranspose", |sw| {
            // bit patterns, every cell distinct, every rotation of the tags
            for k in 0..16u32 {
                for base in [0x11000000u32, 0x7f800001, 0xff800010, 0x80000000, 1] {
                    let mut m = [[0u32; 4]; 4];
                    for i in 0..16u32 {
                        m[i as usize / 4][i as usize % 4] = base.wrapping_add((i + k) % 16 * 0x111);
                    }
                    let x: M4 = m.map(|r| r.map(f32::from_bits));
                    sw.state();
                    let g = mb(XMMatrixTranspose(mf(x)));
                    let ok = (0..4).all(|i| (0..4).all(|j| g[i][j].to_bits() == m[j][i]));
                    sw.t(ok, hm(&g), || (format!("{:x?}", m), format!("{:x?}", g.map(|r| r.map(|x| x.to_bits()))), "transpose".into()));
                }
            }
        });
        c.sweep("XMMatrixIdentity", |sw| {
            sw.state();
            let g = mb(XMMatrixIdentity());
            sw.t(eq_m(&g, &ID), hm(&g), || ("".into(), sm(&g), "identity".into()));
            // one-cell perturbations are not the identity
            for cell in 0..16 {
                for d in [1.0f32, -1.0, 1.0e-6, f32::NAN, f32::INFINITY, f32::from_bits(1), 2.0] {
                    let mut m = fm(&ID);
                    m[cell / 4][cell % 4] += d;
                    let want = eq_m(&m, &ID);
                    sw.state();
                    let g = XMMatrixIsIdentity(mf(m));
                    sw.t(g == want, g as u64, || (sm(&m), format!("{}", g), format!("{}", want)));
                }
                let mut m = fm(&ID);
                if m[cell / 4][cell % 4] == 0.0 {
                    m[cell / 4][cell % 4] = -0.0;
                    sw.state();
                    let g = XMMatrixIsIdentity(mf(m));
                    sw.t(g, g as u64, || (sm(&m), format!("{}", g), "true".into()));
                }
            }
        });
        c.sweep("XMMatrixVectorTensorProduct", |sw| {
            let vs = vec4s(&[-3.0f32, 0.0, 1.0, 2.5]);
            let mut pairs: Vec<(F4, F4)> = vs.iter().flat_map(|a| vs.iter().map(move |b| (*a, *b))).collect();
            // nearly equal and nearly opposite factors, tiny factors
            for (k, a) in vs.iter().enumerate() {
                for d in vec4s(&[-1.0, 0.0, 1.0]) {
                    let e = [1.0f32 / 64.0, 1.0 / 2048.0][k % 2];
                    let b = [0, 1, 2, 3].map(|i| a[i] + d[i] * e);
                    pairs.extend([(*a, b), (b, a.map(|x| -x)), (d.map(|x| x * e), *a), (*a, d.map(|x| x * e))]);
                }
            }
            // every octave (exact: short significands)
            for v in star(&[[1.5f32, -0.25, 2.0, -3.0], [0.0, 1.0, 0.0, 0.5]], &octaves(-60, 60)) {
                for u in [[0.5f32, -2.0, 0.0, 3.0], [1.0, 1.0, 1.0, 1.0], v] {
                    pairs.extend([(v, u), (u, v)]);
                }
            }
            for (a, b) in &pairs {
                {
                    let mut w = [[0.0; 4]; 4];
                    for i in 0..4 {
                        for j in 0..4 {
                            w[i][j] = a[i] as f64 * b[j] as f64;
                        }
                    }
                    sw.state();
                    let g = mb(XMMatrixVectorTensorProduct(vf(*a), vf(*b)));
                    sw.t(eq_m(&g, &w), hm(&g), || (format!("{} {}", sf(*a), sf(*b)), sm(&g), format!("{:?}", w)));
                }
            }
        });
        c.sweep("XMMatrix operators", |sw| {
            let some: Vec<M4> = ms.iter().step_by(if th { 1 } else { 5 }).cloned().chain(ms[136..].iter().cloned()).collect();
            let el = |a: &M4, b: &M4, f: &dyn Fn(f64, f64) -> f64| {
                let mut w = [[0.0; 4]; 4];
                for i in 0..4 {
                    for j in 0..4 {
                        w[i][j] = f(a[i][j] as f64, b[i][j] as f64);
                    }
                }
                w
            };
            for a in &some {
                for b in &some {
                    let (x, y) = (XMMatrix(mf(*a)), XMMatrix(mf(*b)));
                    let mut aa = x;
                    aa += y;
                    let mut sa = x;
                    sa -= y;
                    let mut ma = x;
                    ma *= y;
                    let p = mmul(&dm(a), &dm(b));
                    let rs: [(&str, XMMatrix, DM); 6] = [
                        ("+", x + y, el(a, b, &|p, q| p + q)), ("+=", aa, el(a, b, &|p, q| p + q)), ("-", x - y, el(a, b, &|p, q| p - q)),
                        ("-=", sa, el(a, b, &|p, q| p - q)), ("*", x * y, p), ("*=", ma, p),
                    ];
                    sw.state();
                    for (n, g, w) in rs {
                        let g = mb(g.0);
                        sw.t(eq_m(&g, &w), hm(&g), || (format!("{} {} {}", sm(a), n, sm(b)), sm(&g), format!("{:?}", w)));
                    }
                    let e = x == y;
                    sw.t(e == (a == b), e as u64, || (format!("{} == {}", sm(a), sm(b)), format!("{}", e), format!("{}", a == b)));
                }
                for s in [0.0f32, 1.0, -2.0, 0.5, 3.0, 1024.0, -0.75, 7.0] {
                    let x = XMMatrix(mf(*a));
                    let mut ms_ = x;
                    ms_ *= s;
                    let mut ds = x;
                    ds /= s;
                    let sd = s as f64;
                    let rs: [(&str, XMMatrix, DM); 6] = [
                        ("M*s", x * s, el(a, a, &|p, _| p * sd)), ("s*M", s * x, el(a, a, &|p, _| p * sd)), ("M*=s", ms_, el(a, a, &|p, _| p * sd)),
                        ("M/s", x / s, el(a, a, &|p, _| p / sd)), ("M/=s", ds, el(a, a, &|p, _| p / sd)), ("-M", -x, el(a, a, &|p, _| -p)),
                    ];
                    sw.state();
                    for (n, g, w) in rs {
                        let g = mb(g.0);
                        sw.t((0..4).all(|i| close_n(&g[i], &w[i], 1.3e-7, 0.0)), hm(&g), || (format!("{} {} s={}", sm(a), n, s), sm(&g), format!("{:?}", w)));
                    }
                }
            }
            // inequality in one cell is an inequality; NaN is never equal
            for a in &ms[136..] {
                for cell in 0..16 {
                    for d in [0.5f32, f32::NAN] {
                        let mut b = *a;
                        b[cell / 4][cell % 4] += d;
                        sw.state();
                        let e = XMMatrix(mf(*a)) == XMMatrix(mf(b));
                        sw.t(!e, e as u64, || (format!("{} == {}", sm(a), sm(&b)), format!("{}", e), "false".into()));
                    }
                }
            }
        });
        // determinant / inverse of every 0-1 matrix
        c.sweep("all 0-1 matrices", |sw| {
            for bits in 0..65536u32 {
                let mut m = [[0.0f32; 4]; 4];
                for i in 0..16 {
                    m[i / 4][i % 4] = ((bits >> i) & 1) as f32;
                }
                check_inv(sw, &m, 0.0);
            }
        });
        if th {
            c.sweep("all -1,0,1 matrices", |sw| {
                for code in 0..43046721u32 {
                    let mut m = [[0.0f32; 4]; 4];
                    let mut k = code;
                    for i in 0..16 {
                        m[i / 4][i % 4] = (k % 3) as f32 - 1.0;
                        k /= 3;
                    }
                    check_inv(sw, &m, 0.0);
                }
            });
        }
        // powers of two on a (permuted) diagonal: exact over a wide range of magnitudes
        c.sweep("signed permutation x powers of two", |sw| {
            let mut perms = vec![];
            for a in 0..4usize {
                for b in 0..4usize {
                    for d in 0..4usize {
                        for e in 0..4usize {
                            let p = [a, b, d, e];
                            if (0..4).all(|i| p.contains(&i)) {
                                perms.push(p);
                            }
                        }
                    }
                }
            }
            for p in perms {
                all4(&[1.0f32, -0.5, 16384.0, 0.0009765625, -4.0], |s| {
                    let mut m = [[0.0f32; 4]; 4];
                    for i in 0..4 {
                        m[i][p[i]] = s[i];
                    }
                    check_inv(sw, &m, 0.0);
                });
            }
        });
        c.sweep("dense and scaled matrices", |sw| {
            for m in &ms {
                for (i, k) in [0i32, 8, -8, 12, -12].iter().enumerate() {
                    let mut a = scale(m, 2f32.powi(*k));
                    // make it diagonally dominant in some instances
                    if i % 2 == 0 {
                        for d in 0..4 {
                            a[d][d] += 2f32.powi(*k) * 40.0;
                        }
                    }
                    check_inv(sw, &a, 8.0e-7);
                }
            }
            // a small step away from the identity, a mirror, a rotation, a translation and a perspective, in several units
            let rot = qmat(qaxis([1.0, 2.0, -1.0], 0.7));
            let per = [[1.5, 0.0, 0.0, 0.0], [0.0, 2.0, 0.0, 0.0], [0.0, 0.0, 20.0 / 19.0, 1.0], [0.0, 0.0, -20.0 / 19.0, 0.0]];
            for b in [ID, scal([-1.0, 1.0, 1.0]), scal([2.0, 0.5, 4.0]), rot, chain(&[rot, trans([1.0, -3.0, 0.5])]), per] {
                for cell in 0..16 {
                    for k in 1..=23i32 {
                        for s in [1.0f32, -1.0] {
                            let mut m = fm(&b);
                            m[cell / 4][cell % 4] += s * 2f32.powi(-k);
                            check_inv(sw, &m, 8.0e-7);
                        }
                    }
                }
                for k in -28..=28i32 {
                    check_inv(sw, &scale(&fm(&b), 2f32.powi(k)), 8.0e-7);
                }
            }
            // badly scaled affine matrices, as used for world transforms
            for sx in [0.01f64, 1.0, 100.0] {
                for sz in [0.01f64, 1.0, 100.0] {
                    for ang in [0.0, 0.3, 1.2, 3.0] {
                        for t in [0.0, 5.0, -1000.0] {
                            let m = chain(&[scal([sx, 1.0, sz]), qmat(qaxis([1.0, -2.0, 0.5], ang)), trans([t, -2.0 * t, 1.0])]);
                            check_inv(sw, &fm(&m), 1.0e-6);
                        }
                    }
                }
            }
        });
        // explicit-state search over products of elementary matrices
        let mut gens: Vec<DM> = vec![];
        for i in 0..4 {
            for j in 0..4 {
                if i != j {
                    for s in [1.0, -1.0] {
                        let mut m = ID;
                        m[i][j] = s;
                        gens.push(m);
                    }
                    if i < j {
                        let mut m = ID;
                        m.swap(i, j);
                        gens.push(m);
                    }
                }
            }
            let mut m = ID;
            m[i][i] = -1.0;
            gens.push(m);
        }
        let depth = if th { 4 } else { 3 };
        let mut nseq = 0u64;
        c.sweep("machine: products of elementary matrices", |sw| {
            // real state: product accumulated by XMMatrixMultiply; inverse accumulated by premultiplying inverses
            let mut seen: HashMap<[u32; 16], ()> = HashMap::new();
            let mut q: VecDeque<(M4, M4, f64, usize)> = VecDeque::new();
            seen.insert(key(&fm(&ID)), ());
            q.push_back((fm(&ID), fm(&ID), 1.0, 0));
            let ginv: Vec<DM> = gens.iter().map(|g| inv(g).unwrap()).collect();
            while let Some((m, mi, d, lv)) = q.pop_front() {
                sw.state();
                // invariants of the state
                let g = mb(XMMatrixMultiply(mf(m), &mf(mi)));
                sw.t(eq_m(&g, &ID), hm(&m), || (format!("M={} Minv={}", sm(&m), sm(&mi)), sm(&g), "M*Minv = I".into()));
                let det_ = fb(XMMatrixDeterminant(mf(m)));
                sw.t(det_.iter().all(|x| *x as f64 == d), hm(&m), || (sm(&m), format!("{:?}", det_), format!("det = product of generator determinants = {}", d)));
                let mut dv = vf([9.0; 4]);
                let iv = mb(XMMatrixInverse(Some(&mut dv), mf(m)));
                sw.t(eq_m(&iv, &dm(&mi)) && fb(dv).iter().all(|x| *x as f64 == d), hm(&iv), || (sm(&m), format!("{} det {:?}", sm(&iv), fb(dv)), format!("{} det {}", sm(&mi), d)));
                if lv == depth {
                    continue;
                }
                for (k, ge) in gens.iter().enumerate() {
                    nseq += 1;
                    let n = mb(XMMatrixMultiply(mf(m), &mf(fm(ge))));
                    let w = mmul(&dm(&m), ge);
                    sw.t(eq_m(&n, &w), hm(&n), || (format!("{} * generator {}", sm(&m), k), sm(&n), format!("{:?}", w)));
                    let ni = mb(XMMatrixMultiply(mf(fm(&ginv[k])), &mf(mi)));
                    let key_ = key(&n);
                    if eq_m(&n, &w) && seen.insert(key_, ()).is_none() {
                        q.push_back((n, ni, d * det(ge), lv + 1));
                    }
                }
            }
        });
        c.seqs += nseq;
    });
}

/// determinant in every lane, inverse within conditioning-scaled rounding, with and without the out-parameter
fn check_inv(sw: &mut Sweep, m: &M4, rel: f64) {
    let md = dm(m);
    let d = det(&md);
    sw.state();
    let gd = fb(XMMatrixDeterminant(mf(*m)));
    let mut dv = vf([9.0; 4]);
    let gi = mb(XMMatrixInverse(Some(&mut dv), mf(*m)));
    let gn = mb(XMMatrixInverse(None, mf(*m)));
    let dv = fb(dv);
    let mag: f64 = md.iter().map(|r| r.iter().fold(0.0f64, |a, x| a + x.abs())).product::<f64>();
    let okd = |x: &f32| if rel == 0.0 { *x as f64 == d } else { (*x as f64 - d).abs() <= rel * mag };
    sw.t(gd.iter().all(okd), hm(m), || (sm(m), format!("XMMatrixDeterminant {:?}", gd), format!("{} in every lane", d)));
    sw.t(dv.iter().all(okd), hm(m), || (sm(m), format!("XMMatrixInverse determinant {:?}", dv), format!("{} in every lane", d)));
    let same = (0..4).all(|i| (0..4).all(|j| gi[i][j].to_bits() == gn[i][j].to_bits() || gi[i][j].is_nan() && gn[i][j].is_nan()));
    sw.t(same, hm(&gn), || (sm(m), format!("with determinant {} without {}", sm(&gi), sm(&gn)), "the same inverse".into()));
    if d.abs() <= 1.0e-6 * mag && (rel > 0.0 || d == 0.0) {
        return;
    }
    let iv = inv(&md).unwrap();
    // per-cell tolerance: cofactor magnitude over determinant, times the conditioning of the determinant
    let cond = if rel == 0.0 { 1.0 } else { (mag / d.abs()).min(1.0e5) };
    let tol = if rel == 0.0 { 3.0e-7 } else { rel };
    let scale = maxabs(&iv);
    let ok = (0..4).all(|i| (0..4).all(|j| if rel == 0.0 { close(gi[i][j], iv[i][j], tol, 0.0) } else { (gi[i][j] as f64 - iv[i][j]).abs() <= tol * cond * scale }));
    sw.t(ok, hm(&gi), || (sm(m), format!("inverse {}", sm(&gi)), format!("{:?}", iv)));
}
