//! C17: decomposing an affine matrix recovers scale, rotation and translation.
use mc::dom::*;
use mc::refm::*;
use mc::*;

fn unitq(al: &[f32]) -> Vec<D4> {
    let mut v: Vec<D4> = vec4s(al).into_iter().filter(|q| q.iter().any(|x| *x != 0.0)).map(|q| qnorm(d4(q))).collect();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup_by(|a, b| (0..4).all(|i| (a[i] - b[i]).abs() < 1.0e-9));
    v
}
fn srt(s: D3, q: D4, t: D3) -> M4 {
    fm(&chain(&[scal(s), qmat(q), trans(t)]))
}
fn call(m: &M4) -> (bool, F4, F4, F4) {
    let junk = vf([7.0, -7.0, 7.0, -7.0]);
    let (mut s, mut q, mut t) = (junk, junk, junk);
    let ok = XMMatrixDecompose(&mut s, &mut q, &mut t, mf(*m));
    (ok, fb(s), fb(q), fb(t))
}

fn main() {
    Ctx::main("C17", |c| {
        let th = c.thorough();
        let qs = unitq(if th { &[-1.0, -0.4, 0.0, 0.3, 1.0] } else { &[-1.0, 0.0, 0.3, 0.7] });
        let scales: Vec<f32> = if th { vec![-3.0, -1.0, -0.25, -4.0e-4, 1.2e-4, 0.01, 0.5, 1.0, 1.5, 3.0, 200.0, 1.0e6] } else { vec![-3.0, -0.25, -4.0e-4, 1.2e-4, 0.01, 1.0, 1.5, 100.0] };
        let ts: Vec<[f32; 3]> = vec![[0.0, 0.0, 0.0], [1.0, -2.0, 300.0], [-0.5, 1.0e6, -3.0], [4.0e-4, -7.0e-4, 1.0e-6]];
        let mut worst = 0.0f64;
        // all scales with all rotations, then scales close to one with rotations close to none and to quarter and half turns
        let mut near: Vec<D4> = vec![];
        for a in [0.0f64, 3.0e-3, -4.0e-4, 3.0e-5, std::f64::consts::FRAC_PI_2 - 2.0e-3, std::f64::consts::PI + 1.0e-3] {
            for ax in [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [0.3, -1.0, 0.6]] {
                near.push(qaxis(ax, a));
            }
        }
        let lists = [(vec3s(&scales), qs.clone()), (vec3s(&[1.0, 1.003, 0.9995, -1.0002, 1.00004, 2.0]), near)];
        c.sweep("XMMatrixDecompose", |sw| {
            for (s, qs) in lists.iter().flat_map(|(ss, qs)| ss.iter().map(move |s| (*s, qs))) {
                let sd = d3(s);
                for (k, q) in qs.iter().enumerate() {
                    let t = ts[k % ts.len()];
                    let m = srt(sd, *q, d3(t));
                    sw.state();
                    at(|| format!("{:?}", m));
                    let (ok, gs, gq, gt) = call(&m);
                    let smax = sd.iter().fold(0.0f64, |a, b| a.max(b.abs()));
                    let smin = sd.iter().fold(1.0e30f64, |a, b| a.min(b.abs()));
                    let unit = (qdot(d4(gq), d4(gq)) - 1.0).abs() <= 2.0e-6;
                    let gsd = [gs[0] as f64, gs[1] as f64, gs[2] as f64];
                    let re = chain(&[scal(gsd), qmat(qnorm(d4(gq)))]);
                    let mut e = 0.0f64;
                    for i in 0..3 {
                        for j in 0..3 {
                            let d = (re[i][j] - m[i][j] as f64).abs() / sd[i].abs();
                            e = if d.is_nan() { f64::INFINITY } else { e.max(d) };
                        }
                        // magnitudes of the scales
                        let d = (gsd[i].abs() / sd[i].abs() - 1.0).abs();
                        e = if d.is_nan() { f64::INFINITY } else { e.max(d) };
                    }
                    // handedness: the sign of the determinant survives
                    let hand = gsd[0] * gsd[1] * gsd[2] * (sd[0] * sd[1] * sd[2]) > 0.0;
                    worst = worst.max(e);
                    let tr = (0..3).all(|i| gt[i] == t[i]) && gt[3] == 1.0;
                    let fine = ok && unit && hand && tr && e <= 8.0e-6;
                    let _ = (smax, smin);
                    sw.t(fine, h4(ubits(gq)), || {
                        (format!("scale {:?} rotation {:?} translation {:?} matrix {}", s, q, t, sm(&m)),
                         format!("ok={} scale={} rot={} trans={} err={:e}", ok, sf(gs), sf(gq), sf(gt), e),
                         "true, and parts that recompose to the matrix".into())
                    });
                }
            }
        });
        // Scales at or below the 1e-4 threshold: the direction of such an axis is not recoverable, the rest is.
        c.sweep("vanishing scales", |sw| {
            let al: &[f32] = &[0.0, 1.0e-6, -5.0e-5, 8.0e-5, 0.5, 2.0, -3.0];
            for s in vec3s(al) {
                if s.iter().all(|x| x.abs() >= 1.0e-4) {
                    continue;
                }
                let sd = d3(s);
                for (k, q) in qs.iter().enumerate() {
                    let t = ts[k % ts.len()];
                    let m = srt(sd, *q, d3(t));
                    sw.state();
                    at(|| format!("{:?}", m));
                    let (ok, gs, gq, gt) = call(&m);
                    let unit = (qdot(d4(gq), d4(gq)) - 1.0).abs() <= 2.0e-6;
                    let gsd = [gs[0] as f64, gs[1] as f64, gs[2] as f64];
                    let re = chain(&[scal(gsd), qmat(qnorm(d4(gq)))]);
                    let mut e = 0.0f64;
                    for i in 0..3 {
                        for j in 0..3 {
                            let d = (re[i][j] - m[i][j] as f64).abs();
                            e = if d.is_nan() { f64::INFINITY } else { e.max(d) };
                        }
                    }
                    let tr = (0..3).all(|i| gt[i] == t[i]) && gt[3] == 1.0;
                    sw.t(ok && unit && tr && e <= 2.5e-4, h4(ubits(gq)), || {
                        (format!("scale {:?} rotation {:?} translation {:?} matrix {}", s, q, t, sm(&m)),
                         format!("ok={} scale={} rot={} trans={} err={:e}", ok, sf(gs), sf(gq), sf(gt), e),
                         "true, and parts that recompose to the matrix within the vanishing-scale tolerance".into())
                    });
                }
            }
        });
        // Sheared bases: unit rows whose determinant is clearly off +-1 (rejected) or clearly near it (accepted).
        c.sweep("sheared matrices", |sw| {
            let amt: &[f64] = &[0.0, 0.02, 0.05, 0.13, 0.16, 0.2, 0.3, 1.0, 4.0, -0.02, -0.13, -0.16, -0.3, -2.0];
            let sc: &[f32] = &[-2.0, 0.5, 1.0, 10.0];
            for (k, q) in qs.iter().enumerate() {
                for r in 0..3 {
                    for c2 in 0..3 {
                        if r == c2 {
                            continue;
                        }
                        for &h in amt {
                            for s in vec3s(sc) {
                                let mut sh = ID;
                                sh[r][c2] = h;
                                // rows scaled after shearing, then rotated
                                let m = fm(&chain(&[scal(d3(s)), sh, qmat(*q), trans(d3(ts[k % ts.len()]))]));
                                let det = 1.0 / (1.0 + h * h).sqrt();
                                let d2 = (det - 1.0) * (det - 1.0);
                                if d2 > 0.9e-4 && d2 < 1.1e-4 {
                                    continue;
                                }
                                sw.state();
                                let (ok, gs, gq, gt) = call(&m);
                                let want = d2 < 1.0e-4;
                                let tr = (0..3).all(|i| gt[i] == ts[k % ts.len()][i]);
                                sw.t(ok == want && tr, (ok as u64) << 52, || {
                                    (format!("shear [{}][{}]={} scale {:?} rotation {:?}: {}", r, c2, h, s, q, sm(&m)), format!("{} scale={} rot={}", ok, sf(gs), sf(gq)), format!("{}", want))
                                });
                            }
                        }
                    }
                }
            }
            // linearly dependent rows of ordinary size contain no rotation
            for q in &qs {
                for (r, c2) in [(0, 1), (0, 2), (1, 2)] {
                    for f in [1.0f64, -1.0, 2.0, -0.5] {
                        let mut b = qmat(*q);
                        for j in 0..3 {
                            b[r][j] = b[c2][j] * f;
                        }
                        let m = fm(&b);
                        sw.state();
                        let (ok, ..) = call(&m);
                        sw.t(!ok, ok as u64, || (format!("dependent rows {}", sm(&m)), format!("{}", ok), "false".into()));
                    }
                }
            }
        });
        if std::env::var("MC_MEASURE").is_ok() {
            eprintln!("worst {:e}", worst);
        }
    });
}
