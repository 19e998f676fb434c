//! C15: quaternion algebra and interpolation.
use mc::dom::*;
use mc::refm::*;
use mc::*;

fn unitq(al: &[f32]) -> Vec<F4> {
    let mut v: Vec<F4> = vec4s(al).into_iter().filter(|q| q.iter().any(|x| *x != 0.0)).map(|q| qnorm(d4(q)).map(|x| x as f32)).collect();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    v
}
fn slerp(a: D4, b: D4, t: f64, neg: bool) -> D4 {
    let mut d = qdot(a, b);
    let mut b = b;
    if neg {
        b = b.map(|x| -x);
        d = -d;
    }
    let (a_, b_) = (a, b);
    let s = (0..4).map(|i| (a_[i] - b_[i]).powi(2)).sum::<f64>().sqrt();
    let om = if d > 0.9 { 2.0 * (s * 0.5).min(1.0).asin() } else { d.clamp(-1.0, 1.0).acos() };
    let (k0, k1) = if om.sin().abs() < 1.0e-9 { (1.0 - t, t) } else { (((1.0 - t) * om).sin() / om.sin(), (t * om).sin() / om.sin()) };
    [0, 1, 2, 3].map(|i| k0 * a[i] + k1 * b[i])
}
/// all admissible results: the shortest arc; either one when the arc is exactly half a turn
fn slerps(a: D4, b: D4, t: f64) -> Vec<D4> {
    let d = qdot(a, b);
    let mut r = vec![];
    if d > -2.0e-6 {
        r.push(slerp(a, b, t, false));
    }
    if d < 2.0e-6 {
        r.push(slerp(a, b, t, true));
    }
    r
}
fn dist(g: F4, w: D4) -> f64 {
    (0..4).map(|i| (g[i] as f64 - w[i]).abs()).fold(0.0, |a, b| if b.is_nan() { f64::INFINITY } else { a.max(b) })
}
fn lnq(q: D4) -> D4 {
    let v = len3([q[0], q[1], q[2]]);
    let th = v.atan2(q[3]);
    let k = if v < 1.0e-12 { 1.0 } else { th / v };
    [q[0] * k, q[1] * k, q[2] * k, 0.0]
}
fn expq(q: D4) -> D4 {
    let th = len3([q[0], q[1], q[2]]);
    let k = if th < 1.0e-12 { 1.0 } else { th.sin() / th };
    [q[0] * k, q[1] * k, q[2] * k, th.cos()]
}
/// library order: rotation a followed by rotation b
fn xmul(a: D4, b: D4) -> D4 {
    qham(b, a)
}

fn main() {
    Ctx::main("C15", |c| {
        let th = c.thorough();
        let meas = std::env::var("MC_MEASURE").is_ok();
        let small = vec4s(if th { &[-3.0f32, -1.0, 0.0, 1.0, 2.0, 5.0] } else { &[-3.0f32, -1.0, 0.0, 2.0] });
        c.sweep("XMQuaternionMultiply", |sw| {
            for a in &small {
                for b in &small {
                    let w = xmul(d4(*a), d4(*b));
                    sw.state();
                    let g = XMQuaternionMultiply(vf(*a), vf(*b));
                    sw.tv((0..4).all(|i| fb(g)[i] as f64 == w[i]), g, || (format!("{} {}", sf(*a), sf(*b)), format!("{:?}", w)));
                }
            }
        });
        // a factor close to +-identity, to zero, to the other factor or to its conjugate
        c.sweep("XMQuaternionMultiply near special", |sw| {
            for a in &small {
                for (k, d) in vec4s(&[-1.0f32, 0.0, 1.0]).iter().enumerate() {
                    for e in [1.0f32 / 64.0, 1.0 / 1024.0, 1.0 / 16384.0] {
                        let n = |x: F4| [0, 1, 2, 3].map(|i| x[i] + d[i] * e);
                        let b = match k % 5 { 0 => n([0.0, 0.0, 0.0, 1.0]), 1 => n([0.0, 0.0, 0.0, -1.0]), 2 => n([0.0; 4]), 3 => n(*a), _ => n([-a[0], -a[1], -a[2], a[3]]) };
                        for (x, y) in [(a, &b), (&b, a)] {
                            let w = xmul(d4(*x), d4(*y));
                            sw.state();
                            let g = XMQuaternionMultiply(vf(*x), vf(*y));
                            sw.tv((0..4).all(|i| (fb(g)[i] as f64 - w[i]).abs() <= 4.0e-6), g, || (format!("{} {}", sf(*x), sf(*y)), format!("{:?}", w)));
                        }
                    }
                }
            }
        });
        c.sweep("XMQuaternionDot", |sw| {
            for a in &small {
                for b in &small {
                    let w = qdot(d4(*a), d4(*b));
                    sw.state();
                    let g = XMQuaternionDot(vf(*a), vf(*b));
                    sw.tv((0..4).all(|i| fb(g)[i] as f64 == w), g, || (format!("{} {}", sf(*a), sf(*b)), format!("{:?}", w)));
                }
            }
        });
        c.sweep("unary", |sw| {
            sw.state();
            let id = fb(XMQuaternionIdentity());
            sw.tv(id == [0.0, 0.0, 0.0, 1.0], XMQuaternionIdentity(), || ("identity".into(), "0 0 0 1".into()));
            for q0 in &small {
                for k in [0i32, 20, -9, 35, -10] {
                    let q = q0.map(|x| x * 2f32.powi(k));
                    let d = d4(q);
                    let l2 = qdot(d, d);
                    sw.state();
                    let cj = XMQuaternionConjugate(vf(q));
                    sw.tv((0..4).all(|i| fb(cj)[i] as f64 == qconj(d)[i]), cj, || (sf(q), "conjugate".into()));
                    let g = XMQuaternionLengthSq(vf(q));
                    sw.tv(fb(g).iter().all(|x| *x as f64 == l2), g, || (sf(q), format!("lengthsq {}", l2)));
                    let g = XMQuaternionLength(vf(q));
                    sw.tv(fb(g).iter().all(|x| close(*x, l2.sqrt(), 3.0e-7, 0.0)), g, || (sf(q), format!("length {}", l2.sqrt())));
                    if l2 == 0.0 {
                        let g = XMQuaternionInverse(vf(q));
                        sw.tv(fb(g) == [0.0; 4], g, || (sf(q), "inverse of zero is zero".into()));
                        let g = XMQuaternionNormalize(vf(q));
                        sw.tv(fb(g) == [0.0; 4], g, || (sf(q), "normalised zero is zero".into()));
                        continue;
                    }
                    let g = XMQuaternionReciprocalLength(vf(q));
                    sw.tv(fb(g).iter().all(|x| close(*x, 1.0 / l2.sqrt(), 5.0e-7, 0.0)), g, || (sf(q), format!("1/length {}", 1.0 / l2.sqrt())));
                    let n = qnorm(d);
                    let g = XMQuaternionNormalize(vf(q));
                    sw.tv(close_n(&fb(g), &n, 5.0e-7, 0.0), g, || (sf(q), format!("normalised {:?}", n)));
                    let g = XMQuaternionNormalizeEst(vf(q));
                    sw.tv(close_n(&fb(g), &n, 4.0e-4, 0.0), g, || (sf(q), format!("normalised (est) {:?}", n)));
                    if l2 > 1.5e-7 {
                        let w = qconj(d).map(|x| x / l2);
                        let g = XMQuaternionInverse(vf(q));
                        sw.tv(close_n(&fb(g), &w, 3.0e-7, 0.0), g, || (sf(q), format!("inverse {:?}", w)));
                    }
                }
            }
        });
        // every octave of every component, one at a time and all together
        let bases: [F4; 4] = [[1.0, -0.5, 2.0, 0.75], [0.0, 0.0, 0.0, 1.0], [0.0; 4], [-0.3, 0.4, 0.1, -0.85]];
        let mut oct = star(&bases, &octaves(-30, 30));
        for k in -40..=40 {
            for d in vec4s(&[-1.3f32, 0.0, 0.8]) {
                oct.push(d.map(|x| x * 2f32.powi(k)));
            }
        }
        c.sweep("by octaves", |sw| {
            for q in &oct {
                let d = d4(*q);
                for r in [[1.0f32, -0.5, 2.0, 0.75], [-0.3, 0.4, 0.1, -0.85], [0.001, 0.0, -0.0005, 1.0], *q] {
                    for (x, y) in [(*q, r), (r, *q)] {
                        let (dx, dy) = (d4(x), d4(y));
                        let w = xmul(dx, dy);
                        let tol = {
                            let m = |v: D4| v.iter().fold(0.0f64, |a, b| a.max(b.abs()));
                            m(dx) * m(dy) * 1.0e-6 + 1e-37
                        };
                        sw.state();
                        let g = XMQuaternionMultiply(vf(x), vf(y));
                        sw.tv((0..4).all(|i| (fb(g)[i] as f64 - w[i]).abs() <= tol), g, || (format!("{} {}", sf(x), sf(y)), format!("{:?}", w)));
                        let w = qdot(dx, dy);
                        let g = XMQuaternionDot(vf(x), vf(y));
                        sw.tv(fb(g).iter().all(|v| (*v as f64 - w).abs() <= tol), g, || (format!("dot {} {}", sf(x), sf(y)), format!("{:?}", w)));
                    }
                }
                let l2 = qdot(d, d);
                sw.state();
                let cj = XMQuaternionConjugate(vf(*q));
                sw.tv((0..4).all(|i| fb(cj)[i] as f64 == qconj(d)[i]), cj, || (sf(*q), "conjugate".into()));
                let g = XMQuaternionLengthSq(vf(*q));
                sw.tv(fb(g).iter().all(|x| close(*x, l2, 5.0e-7, 0.0)), g, || (sf(*q), format!("lengthsq {}", l2)));
                let g = XMQuaternionLength(vf(*q));
                sw.tv(fb(g).iter().all(|x| close(*x, l2.sqrt(), 4.0e-7, 0.0)), g, || (sf(*q), format!("length {}", l2.sqrt())));
                if l2 == 0.0 {
                    continue;
                }
                let g = XMQuaternionReciprocalLength(vf(*q));
                sw.tv(fb(g).iter().all(|x| close(*x, 1.0 / l2.sqrt(), 6.0e-7, 0.0)), g, || (sf(*q), format!("1/length {}", 1.0 / l2.sqrt())));
                let n = qnorm(d);
                let g = XMQuaternionNormalize(vf(*q));
                sw.tv(close_n(&fb(g), &n, 6.0e-7, 0.0), g, || (sf(*q), format!("normalised {:?}", n)));
                let g = XMQuaternionNormalizeEst(vf(*q));
                sw.tv(close_n(&fb(g), &n, 4.0e-4, 0.0), g, || (sf(*q), format!("normalised (est) {:?}", n)));
                if l2 > 1.5e-7 {
                    let w = qconj(d).map(|x| x / l2);
                    let g = XMQuaternionInverse(vf(*q));
                    sw.tv(close_n(&fb(g), &w, 5.0e-7, 0.0), g, || (sf(*q), format!("inverse {:?}", w)));
                }
            }
        });
        // a little shorter or longer than unit length
        c.sweep("nearly unit", |sw| {
            for q in &small {
                let l = qdot(d4(*q), d4(*q)).sqrt();
                if l == 0.0 {
                    continue;
                }
                for k in [4i32, 6, 8, 10, 12, 15, 19] {
                    for s in [1.0, -1.0] {
                        let q = q.map(|x| (x as f64 / l * (1.0 + s * 2f64.powi(-k))) as f32);
                        let d = d4(q);
                        let l2 = qdot(d, d);
                        sw.state();
                        let g = XMQuaternionNormalize(vf(q));
                        sw.tv(close_n(&fb(g), &d.map(|x| x / l2.sqrt()), 5.0e-7, 0.0), g, || (sf(q), "normalised".into()));
                        let g = XMQuaternionInverse(vf(q));
                        sw.tv(close_n(&fb(g), &qconj(d).map(|x| x / l2), 4.0e-7, 0.0), g, || (sf(q), "inverse".into()));
                        let g = XMQuaternionLength(vf(q));
                        sw.tv(fb(g).iter().all(|x| close(*x, l2.sqrt(), 3.0e-7, 0.0)), g, || (sf(q), "length".into()));
                        let g = XMQuaternionReciprocalLength(vf(q));
                        sw.tv(fb(g).iter().all(|x| close(*x, 1.0 / l2.sqrt(), 5.0e-7, 0.0)), g, || (sf(q), "1/length".into()));
                        let r = [0.5f32, -0.25, 2.0, 1.0];
                        let w = xmul(d, d4(r));
                        let g = XMQuaternionMultiply(vf(q), vf(r));
                        sw.tv((0..4).all(|i| (fb(g)[i] as f64 - w[i]).abs() <= 1.0e-6), g, || (format!("{} {}", sf(q), sf(r)), format!("{:?}", w)));
                    }
                }
            }
        });
        let mut qs = unitq(if th { &[-2.0f32, -1.0, 0.0, 0.5, 1.0, 3.0] } else { &[-1.0f32, 0.0, 0.5, 2.0] });
        // near-identity and near-half-turn rotations
        for e in [1.0e-6f64, 1.0e-4, 1.0e-3, 3.0e-3, 4.4e-3, 4.6e-3, 1.0e-2, 0.02, 0.05, 0.07, 0.085, 0.1, 0.2, 0.4, 3.13, 3.1415926, 3.15, 6.27] {
            for ax in [[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [1.0, 2.0, -3.0]] {
                qs.push(qaxis(ax, e).map(|x| x as f32));
            }
        }
        let mut worst = [0.0f64; 4];
        // rotations by every octave of angle, from the identity, from half a turn and from a full turn
        let mut oq: Vec<F4> = vec![];
        for ax in [[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 2.0, -3.0], [-2.0, 0.5, 0.1]] {
            for e in octaves(-26, 0) {
                for b in [0.0f64, std::f64::consts::PI, -std::f64::consts::PI, 2.0 * std::f64::consts::PI] {
                    oq.push(qaxis(ax, b + e as f64).map(|x| x as f32));
                }
            }
        }
        // one component near zero while the others are not
        for (k, b) in [[0.6f32, -0.48, 0.64, 0.0], [0.48, 0.6, 0.0, 0.64], [-0.8, 0.0, 0.36, -0.48], [0.0, 0.48, 0.8, 0.36]].iter().enumerate() {
            for e in octaves(-26, -2) {
                let mut q = d4(*b);
                q[3 - k] = e as f64;
                oq.push(qnorm(q).map(|x| x as f32));
            }
        }
        c.sweep("XMQuaternionLn", |sw| {
            for (i, q) in qs.iter().chain(&oq).enumerate() {
                if q[3] < -0.9999 {
                    continue; // the logarithm is not defined around a full turn
                }
                let w = lnq(d4(*q));
                sw.state();
                let g = XMQuaternionLn(vf(*q));
                let near = q[3] < -0.99;
                let e = dist(fb(g), w);
                if !near { worst[0] = worst[0].max(e); }
                sw.tv(e <= if near { 1.0e-3 } else { 4.0e-6 }, g, || (format!("#{} {}", i, sf(*q)), format!("{:?}", w)));
            }
        });
        c.sweep("XMQuaternionExp", |sw| {
            let mut vs = vec3s(&[-2.0f32, -0.5, -1.0e-3, 0.0, 1.0e-9, 0.02, 0.1, 1.5, 3.0]);
            vs.push([1.0e-8, -1.0e-8, 1.0e-8]);
            vs.extend(star(&[[0.0f32; 3], [0.3, -0.2, 0.5], [1.0, 1.0, -1.0]], &octaves(-30, 0)));
            for e in octaves(-30, 0) {
                for d in vec3s(&[-1.0f32, 0.0, 0.7]) {
                    vs.push(d.map(|x| x * e));
                }
            }
            for (i, v) in vs.iter().enumerate() {
                for w in [0.0f32, 100.0, f32::NAN] {
                    let want = expq([v[0] as f64, v[1] as f64, v[2] as f64, 0.0]);
                    sw.state();
                    let g = XMQuaternionExp(v3w(*v, w));
                    let e = dist(fb(g), want);
                    worst[1] = worst[1].max(e);
                    sw.tv(e <= 1.0e-6, g, || (format!("#{} {:?} w={}", i, v, w), format!("{:?}", want)));
                }
            }
        });
        let ts: &[f32] = if th { &[0.0, 0.03125, 0.1, 0.25, 0.3333, 0.5, 0.6, 0.75, 0.9, 0.99, 1.0] } else { &[0.0, 0.1, 0.5, 0.75, 1.0] };
        // partners: lattice x lattice, plus every lattice rotation perturbed by small and nearly opposite rotations
        let mut pairs: Vec<(F4, F4)> = vec![];
        for a in &qs {
            for b in &qs {
                pairs.push((*a, *b));
            }
            for e in [0.0f64, 1.0e-6, 1.0e-4, 1.0e-3, 4.0e-3, 8.8e-3, 8.9e-3, 8.95e-3, 9.1e-3, 0.02, 0.04, 0.07, 0.1, 0.2, 0.5, 3.0, 3.1, 3.13, 3.14159, 3.15] {
                for ax in [[1.0, 0.0, 0.0], [0.0, 0.0, 1.0], [-1.0, 2.0, 0.5]] {
                    let b = qham(d4(*a), qaxis(ax, e));
                    pairs.push((*a, b.map(|x| x as f32)));
                    pairs.push((*a, b.map(|x| -x as f32)));
                }
            }
        }
        for vform in [false, true] {
            c.sweep(if vform { "XMQuaternionSlerpV" } else { "XMQuaternionSlerp" }, |sw| {
                for (a, b) in &pairs {
                    for &t in ts {
                        sw.state();
                        let g = if vform { XMQuaternionSlerpV(vf(*a), vf(*b), vf([t; 4])) } else { XMQuaternionSlerp(vf(*a), vf(*b), t) };
                        let ws = slerps(d4(*a), d4(*b), t as f64);
                        let e = ws.iter().map(|w| dist(fb(g), *w)).fold(f64::INFINITY, f64::min);
                        worst[2] = worst[2].max(e);
                        sw.tv(e <= 6.0e-6, g, || (format!("{} {} t={}", sf(*a), sf(*b), t), format!("{:?}", ws)));
                    }
                }
            });
        }
        // every octave of t next to both ends and the middle; every octave of arc
        let mut tl: Vec<f32> = vec![];
        for k in 2..=24 {
            for m in [1.0f32, 1.3, 1.75] {
                let e = m * 2f32.powi(-k);
                tl.extend([e, 1.0 - e, 0.5 + e, 0.5 - e]);
            }
        }
        tl.dedup();
        let mut opairs: Vec<(F4, F4)> = oq.iter().map(|b| ([0.0, 0.0, 0.0, 1.0], *b)).collect();
        for (i, b) in oq.iter().enumerate() {
            let a = qs[i % qs.len()];
            opairs.push((a, qnorm(qham(d4(a), d4(*b))).map(|x| x as f32)));
        }
        for vform in [false, true] {
            c.sweep(if vform { "XMQuaternionSlerpV octaves" } else { "XMQuaternionSlerp octaves" }, |sw| {
                let some: Vec<(F4, F4)> = pairs.iter().step_by(if th { 61 } else { 397 }).cloned().collect();
                let mut chk = |a: &F4, b: &F4, t: f32| {
                    sw.state();
                    let g = if vform { XMQuaternionSlerpV(vf(*a), vf(*b), vf([t; 4])) } else { XMQuaternionSlerp(vf(*a), vf(*b), t) };
                    let ws = slerps(d4(*a), d4(*b), t as f64);
                    let e = ws.iter().map(|w| dist(fb(g), *w)).fold(f64::INFINITY, f64::min);
                    sw.tv(e <= 6.0e-6, g, || (format!("{} {} t={}", sf(*a), sf(*b), t), format!("{:?}", ws)));
                };
                for (a, b) in &some {
                    for &t in &tl {
                        chk(a, b, t);
                    }
                }
                for (a, b) in &opairs {
                    for &t in &[0.0f32, 0.02, 0.3, 0.5, 0.875, 1.0] {
                        chk(a, b, t);
                    }
                }
            });
        }
        let mut few: Vec<F4> = qs.iter().step_by(if th { 13 } else { 37 }).cloned().collect();
        // a close neighbour of a member and of its negative
        let near = |q: F4, s: f64| { let d = qnorm([q[0] as f64 * s + 0.012, q[1] as f64 * s - 0.009, q[2] as f64 * s + 0.004, q[3] as f64 * s]); d.map(|x| x as f32) };
        few.push(near(few[1], 1.0));
        few.push(near(few[0], -1.0));
        // a chain of slerps: errors of intermediate results are judged against the reference applied to the real intermediates
        for vform in [false, true] {
            c.sweep(if vform { "XMQuaternionSquadV" } else { "XMQuaternionSquad" }, |sw| {
                for a in &few { for b in &few { for e in &few { for h in &few { for &t in &[0.0f32, 0.25, 0.5, 0.9, 1.0, 0.007, 0.994, 8.0e-4, 0.4995] {
                    let td = t as f64;
                    let mut ws = vec![];
                    for p in slerps(d4(*a), d4(*h), td) {
                        for q in slerps(d4(*b), d4(*e), td) {
                            ws.extend(slerps(p, q, 2.0 * td * (1.0 - td)));
                        }
                    }
                    sw.state();
                    let g = if vform { XMQuaternionSquadV(vf(*a), vf(*b), vf(*e), vf(*h), vf([t; 4])) } else { XMQuaternionSquad(vf(*a), vf(*b), vf(*e), vf(*h), t) };
                    let er = ws.iter().map(|w| dist(fb(g), *w)).fold(f64::INFINITY, f64::min);
                    sw.tv(er <= 2.0e-5, g, || (format!("{} {} {} {} t={}", sf(*a), sf(*b), sf(*e), sf(*h), t), format!("{:?}", ws)));
                }}}}}
            });
        }
        let trio: Vec<[F4; 4]> = {
            let n = few.len();
            (0..n).map(|i| [few[i], few[(i + 1) % n], few[(i * 3 + 2) % n], few[(i * 5 + 1) % n]]).collect()
        };
        for vform in [false, true] {
            c.sweep(if vform { "XMQuaternionSquadV octaves" } else { "XMQuaternionSquad octaves" }, |sw| {
                for [a, b, e, h] in &trio {
                    for &t in &tl {
                        let td = t as f64;
                        let mut ws = vec![];
                        for p in slerps(d4(*a), d4(*h), td) {
                            for q in slerps(d4(*b), d4(*e), td) {
                                ws.extend(slerps(p, q, 2.0 * td * (1.0 - td)));
                            }
                        }
                        sw.state();
                        let g = if vform { XMQuaternionSquadV(vf(*a), vf(*b), vf(*e), vf(*h), vf([t; 4])) } else { XMQuaternionSquad(vf(*a), vf(*b), vf(*e), vf(*h), t) };
                        let er = ws.iter().map(|w| dist(fb(g), *w)).fold(f64::INFINITY, f64::min);
                        sw.tv(er <= 2.0e-5, g, || (format!("{} {} {} {} t={}", sf(*a), sf(*b), sf(*e), sf(*h), t), format!("{:?}", ws)));
                    }
                }
            });
        }
        c.sweep("XMQuaternionSquadSetup", |sw| {
            for a in &few { for b in &few { for e in &few { for h in &few {
                let (q0, q1, q2, q3) = (d4(*a), d4(*b), d4(*e), d4(*h));
                let ng = |q: D4| q.map(|x| -x);
                let d12 = qdot(q1, q2);
                let s2 = if d12 < 0.0 { ng(q2) } else { q2 };
                let d01 = qdot(q0, q1);
                let d23 = qdot(s2, q3);
                if d12.abs() < 1.0e-5 || d01.abs() < 1.0e-5 || d23.abs() < 1.0e-5 {
                    continue; // sign choice decided by rounding
                }
                let s0 = if d01 < 0.0 { ng(q0) } else { q0 };
                let s3 = if d23 < 0.0 { ng(q3) } else { q3 };
                let (i1, i2) = (qconj(q1), qconj(s2));
                let sum = |x: D4, y: D4| [0, 1, 2, 3].map(|i| -0.25 * (x[i] + y[i]));
                let wa = xmul(q1, expq(sum(lnq(xmul(i1, s0)), lnq(xmul(i1, s2)))));
                let wb = xmul(s2, expq(sum(lnq(xmul(i2, q1)), lnq(xmul(i2, s3)))));
                let (mut ga, mut gb, mut gc) = (vf([9.0; 4]), vf([9.0; 4]), vf([9.0; 4]));
                sw.state();
                XMQuaternionSquadSetup(&mut ga, &mut gb, &mut gc, vf(*a), vf(*b), vf(*e), vf(*h));
                // the logarithm of a nearly-zero rotation loses half the digits to the arccosine
                let tol = if [qdot(i1, qconj(s0)), qdot(i1, qconj(s2)), qdot(i2, qconj(s3))].iter().any(|d| d.abs() > 0.9999) { 3.0e-6 } else { 3.0e-6 };
                let er = dist(fb(ga), wa).max(dist(fb(gb), wb)).max(dist(fb(gc), s2));
                if tol < 1.0e-4 { worst[3] = worst[3].max(er); }
                sw.tv(er <= tol, ga, || (format!("{} {} {} {} -> b {} c {}", sf(*a), sf(*b), sf(*e), sf(*h), sf(fb(gb)), sf(fb(gc))), format!("a {:?} b {:?} c {:?}", wa, wb, s2)));
                // end points of the spline segment
                if t_ok(&[q1, wa, wb, s2]) {
                    for t in [0.0f32, 1.0] {
                        let g = XMQuaternionSquad(vf(*b), ga, gb, gc, t);
                        let w = if t == 0.0 { q1 } else { s2 };
                        sw.tv(dist(fb(g), w).min(dist(fb(g), ng(w))) <= 2.0e-5, g, || (format!("squad of setup {} {} {} {} t={}", sf(*a), sf(*b), sf(*e), sf(*h), t), format!("+-{:?}", w)));
                    }
                }
            }}}}
        });
        for vform in [false, true] {
            c.sweep(if vform { "XMQuaternionBaryCentricV" } else { "XMQuaternionBaryCentric" }, |sw| {
 
                let w8 = [0.0f32, 0.00390625, 0.125, 0.25, 0.5, 0.75, 1.0, -0.00390625, -0.25, -0.5];
                let mut chk = |a: &F4, b: &F4, e: &F4, f: f32, g_: f32| {
                    let s = f as f64 + g_ as f64;
                    if s > 1.0 || s < -0.5 || (s != 0.0 && (g_ as f64 / s).abs() > 2.0) {
                        return;
                    }
                    let mut ws = vec![];
                    if s == 0.0 {
                        ws.push(d4(*a));
                    } else {
                        for p in slerps(d4(*a), d4(*b), s) {
                            for q in slerps(d4(*a), d4(*e), s) {
                                ws.extend(slerps(p, q, g_ as f64 / s));
                            }
                        }
                    }
                    sw.state();
                    let g = if vform { XMQuaternionBaryCentricV(vf(*a), vf(*b), vf(*e), vf([f; 4]), vf([g_; 4])) } else { XMQuaternionBaryCentric(vf(*a), vf(*b), vf(*e), f, g_) };
                    let er = ws.iter().map(|w| dist(fb(g), *w)).fold(f64::INFINITY, f64::min);
                    // extrapolation across an arc so short that the library interpolates linearly
                    let ex = |t: f64| if t < 0.0 || t > 1.0 { (t * (t - 1.0)).abs() } else { 0.0 };
                    let tol = if s.abs() < 1.6e-5 { 3.0e-5 } else { 2.0e-5 } * (1.0 + if s != 0.0 { ex(s) + ex(g_ as f64 / s) } else { 0.0 });
                    sw.tv(er <= tol, g, || (format!("{} {} {} f={} g={}", sf(*a), sf(*b), sf(*e), f, g_), format!("{:?}", ws)));
                };
                for a in &few { for b in &few { for e in &few { for f in w8 { for g_ in w8 {
                    chk(a, b, e, f, g_);
                }}}}}
                for [a, b, e, _] in &trio {
                    for &f in &tl {
                        for g_ in [0.0f32, 0.25, -0.125, f, 2.0 * f, 1.0 - f, -0.5 * f] {
                            chk(a, b, e, f, g_);
                            chk(a, b, e, g_, f);
                        }
                        chk(a, b, e, -f, 0.0);
                        chk(a, b, e, 0.0, -f);
                    }
                }
            });
        }
        if meas {
            println!("MEASURE ln {:e} exp {:e} slerp {:e} setup {:e}", worst[0], worst[1], worst[2], worst[3]);
        }
    });
}
fn t_ok(qs: &[D4]) -> bool {
    qs.iter().all(|q| q.iter().all(|x| x.is_finite()))
}
