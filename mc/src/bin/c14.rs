//! C14: transform, view and projection builders.
use mc::dom::*;
use mc::refm::*;
use mc::*;
use std::f64::consts::PI;

fn hm(m: &M4) -> u64 {
    m.iter().flatten().fold(0u64, |a, b| (a ^ b.to_bits() as u64).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23))
}
const W: [f32; 3] = [100.0, f32::NAN, f32::INFINITY];
fn rx(a: f64) -> DM { qmat(qaxis([1.0, 0.0, 0.0], a)) }
fn ry(a: f64) -> DM { qmat(qaxis([0.0, 1.0, 0.0], a)) }
fn rz(a: f64) -> DM { qmat(qaxis([0.0, 0.0, 1.0], a)) }

struct K<'a, 'b> {
    sw: &'a mut Sweep<'b>,
    worst: f64,
}
impl<'a, 'b> K<'a, 'b> {
    /// every cell within `tol` (relative to `mag`)
    fn cmp(&mut self, g: XMMATRIX, w: &DM, tol: f64, mag: f64, what: impl Fn() -> String) {
        self.sw.state();
        let g = mb(g);
        let ok = (0..4).all(|i| (0..4).all(|j| {
            let e = (g[i][j] as f64 - w[i][j]).abs() / (tol * mag).max(1.0e-300);
            if e.is_finite() { self.worst = self.worst.max(e); }
            if tol == 0.0 { g[i][j] as f64 == w[i][j] } else { e <= 1.0 }
        }));
        self.sw.t(ok, hm(&g), || (what(), sm(&g), format!("{:?}", w)));
    }
}

fn main() {
    Ctx::main("C14", |c| {
        let th = c.thorough();
        let meas = std::env::var("MC_MEASURE").is_ok();
        let mut sweep = |c: &mut Ctx, name: &str, f: &mut dyn FnMut(&mut K)| {
            let mut w = 0.0;
            c.sweep(name, |sw| {
                let mut k = K { sw, worst: 0.0 };
                f(&mut k);
                w = k.worst;
            });
            if meas {
                println!("MEASURE {} {:.3}", name, w);
            }
        };
        let al = [-3.0f32, -0.5, 0.0, 1.0, 1.0e10, 7.25, 1.0e-3, 1.001, -1.0e-7, 0.9999];
        let mut al3 = vec3s(&al);
        al3.extend(star(&[[0.5, -2.0, 3.0], [0.0, 0.0, 0.0], [1.0, 1.0, 1.0]], &octaves(-126, 127)));
        sweep(c, "XMMatrixTranslation", &mut |k| {
            for (i, &v) in al3.iter().enumerate() {
                let w = trans(d3(v));
                k.cmp(XMMatrixTranslation(v[0], v[1], v[2]), &w, 0.0, 1.0, || format!("{:?}", v));
                k.cmp(XMMatrixTranslationFromVector(v3w(v, W[i % 3])), &w, 0.0, 1.0, || format!("vector {:?}", v));
            }
        });
        sweep(c, "XMMatrixScaling", &mut |k| {
            for (i, &v) in al3.iter().enumerate() {
                let w = scal(d3(v));
                k.cmp(XMMatrixScaling(v[0], v[1], v[2]), &w, 0.0, 1.0, || format!("{:?}", v));
                k.cmp(XMMatrixScalingFromVector(v3w(v, W[i % 3])), &w, 0.0, 1.0, || format!("vector {:?}", v));
            }
        });
        let na = if th { 720 } else { 48 };
        let mut angs: Vec<f32> = (-na..=na).map(|i| (i as f64 * PI * 2.0 / na as f64) as f32).collect();
        angs.extend([0.1, -0.1, 1.0e-4, 50.0, -33.3, 1.0e-2, -1.0e-3, 1.0e-5, 3.0e-7, 101.0, -257.5, 1000.25, -5000.0, 20000.5, 1.0e5]);
        for k in [-12i32, -10, -8, -6, -5, -4] {
            // a little beside the quarter turns
            for q in -4..=4 {
                angs.extend([(q as f64 * PI / 2.0 + 2f64.powi(k)) as f32, (q as f64 * PI / 2.0 - 2f64.powi(k)) as f32]);
            }
        }
        angs.extend(octaves(-30, 16));
        for (n, f, r) in [("XMMatrixRotationX", XMMatrixRotationX as fn(f32) -> XMMATRIX, rx as fn(f64) -> DM), ("XMMatrixRotationY", XMMatrixRotationY, ry), ("XMMatrixRotationZ", XMMatrixRotationZ, rz)] {
            sweep(c, n, &mut |k| {
                for &a in &angs {
                    k.cmp(f(a), &r(a as f64), 4.0e-7, 1.0 + a.abs() as f64 * 0.5, || format!("{:?}", a));
                }
            });
        }
        let mut eul: Vec<f32> = vec![0.0, 0.3, -0.7, 1.5707964, -1.5707964, 3.1415927, 2.2, -3.0, 1.0e-3, -2.0e-5, 1.57];
        if th {
            eul.extend([0.05, -0.05, 1.0, -2.0, 4.0, -5.0, 6.2831855, 0.78539819]);
        }
        sweep(c, "XMMatrixRotationRollPitchYaw", &mut |k| {
            let mut es = vec3s(&eul);
            es.extend(star(&[[0.3, -0.7, 1.1], [0.0, 0.0, 0.0], [-2.2, 1.57, 2.9]], &octaves(-24, 3)));
            for (i, v) in es.into_iter().enumerate() {
                let w = chain(&[rz(v[2] as f64), rx(v[0] as f64), ry(v[1] as f64)]);
                k.cmp(XMMatrixRotationRollPitchYaw(v[0], v[1], v[2]), &w, 2.0e-6, 1.0, || format!("{:?}", v));
                k.cmp(XMMatrixRotationRollPitchYawFromVector(v3w(v, [0.0, 100.0, -3.0][i % 3])), &w, 2.0e-6, 1.0, || format!("vector {:?}", v));
            }
        });
        let mut axes = vec3s(if th { &[-2.0f32, -1.0, -0.25, 0.0, 0.5, 1.0, 3.0] } else { &[-2.0f32, -0.25, 0.0, 1.0, 3.0] });
        axes.retain(|v| v.iter().any(|x| *x != 0.0));
        // axes whose length or direction is nearly, but not quite, special; tiny and huge ones
        for l in [1.0 + 2f64.powi(-4), 1.0 + 2f64.powi(-8), 1.0 - 2f64.powi(-7), 1.0 + 2f64.powi(-12), 1.0 - 2f64.powi(-14), 1.0e-3, 1.0e-6, 1.0e-12, 1.0e3, 1.0e7, 1.0e14] {
            for v in [[1.0, 0.0, 0.0], [0.0, -1.0, 0.0], [0.0, 0.0, 1.0], [0.6, -0.64, 0.48], [1.0, 2.0f64.powi(-9), 0.0], [2.0f64.powi(-12), 1.0, -2.0f64.powi(-10)], [0.0, 2.0f64.powi(-7), -1.0]] {
                axes.push(v.map(|x| (x * l) as f32));
            }
        }
        axes.extend(star(&[[1.0, 0.5, -0.25]], &octaves(-40, 40)));
        sweep(c, "XMMatrixRotationAxis", &mut |k| {
            for (i, v) in axes.iter().enumerate() {
                for &a in angs.iter().step_by(if th { 5 } else { 3 }) {
                    let w = qmat(qaxis(d3(*v), a as f64));
                    k.cmp(XMMatrixRotationAxis(v3w(*v, [0.0, 100.0, -3.0][i % 3]), a), &w, 8.0e-7, 1.0 + a.abs() as f64 * 0.5, || format!("axis {:?} angle {:?}", v, a));
                    let n = norm3(d3(*v));
                    let nf = [n[0] as f32, n[1] as f32, n[2] as f32];
                    k.cmp(XMMatrixRotationNormal(v3w(nf, [0.0, 100.0, -3.0][i % 3]), a), &w, 8.0e-7, 1.0 + a.abs() as f64 * 0.5, || format!("normal {:?} angle {:?}", nf, a));
                }
            }
        });
        sweep(c, "XMMatrixRotationQuaternion", &mut |k| {
            let mut qs = vec4s(if th { &[-2.0f32, -1.0, 0.0, 0.5, 1.0, 3.0] } else { &[-1.0f32, 0.0, 0.5, 2.0] });
            qs.retain(|v| v.iter().any(|x| *x != 0.0));
            for k in -20i32..=-1 {
                // close to no rotation and to half a turn
                let e = 2f32.powi(k);
                qs.extend([[e, 0.0, 0.0, 1.0], [e, -e, e, 1.0], [0.0, e, 0.0, -1.0], [1.0, 0.0, 0.0, e], [0.5, 1.0, -1.0, e], [0.0, e, 1.0, 0.0]]);
            }
            for q in qs {
                let q = qnorm(d4(q)).map(|x| x as f32);
                k.cmp(XMMatrixRotationQuaternion(vf(q)), &qmat(d4(q)), 6.0e-7, 1.0, || sf(q));
            }
        });
        // composites: a lattice of all six/four parameters
        let orig = [[0.0f32, 0.0, 0.0], [1.0, -2.0, 3.0], [-0.5, 4.0, 0.25], [0.001, -0.0005, 0.002]];
        let scs = [[1.0f32, 1.0, 1.0], [2.0, 0.5, -3.0], [0.25, 4.0, 1.5], [1.001, 0.9995, 1.0]];
        let rots = [qaxis([0.0, 0.0, 1.0], 0.0), qaxis([1.0, 2.0, -1.0], 0.8), qaxis([0.0, 1.0, 0.0], 2.5), qaxis([-1.0, 0.3, 0.2], -1.7), qaxis([1.0, 1.0, -0.5], 0.002)].map(|q| q.map(|x| x as f32));
        let a2 = [0.0f32, 0.6, -2.1, 1.5707964, 0.002, -0.0004, 3.1410];
        // one component at a time through every octave
        let oc = octaves(-16, 16);
        let lad = star(&[[1.0, -2.0, 3.0]], &oc);
        let lm = |v: [f32; 3]| v.iter().fold(1.0f64, |a, x| a.max(x.abs() as f64));
        sweep(c, "composites by octaves", &mut |k| {
            let z = |v: [f32; 3], d: f64| [v[0] as f64, v[1] as f64, d];
            let base = ([1.0f32, -2.0, 3.0], [2.0f32, 0.5, -3.0], [-0.5f32, 4.0, 0.25], [3.0f32, 1.0, -2.0]);
            for slot in 0..4 {
                for v in &lad {
                    let (mut so, mut s, mut ro, mut t) = base;
                    *[&mut so, &mut s, &mut ro, &mut t][slot] = *v;
                    let mag = 20.0 * (1.0 + lm(so)) * (1.0 + lm(s)) + 20.0 * (lm(ro) + lm(t));
                    for (sq, rq, sa, ra) in [(rots[1], rots[3], 0.6f32, -2.1f32), (rots[0], rots[2], 0.0, 1.2), (rots[0], rots[0], 0.0, 0.0)] {
                        let (sm_, rm) = (qmat(d4(sq)), qmat(d4(rq)));
                        let w = chain(&[trans(mul3(d3(so), -1.0)), mt(&sm_), scal(d3(s)), sm_, trans(d3(so)), trans(mul3(d3(ro), -1.0)), rm, trans(d3(ro)), trans(d3(t))]);
                        let (o0, s0, r0, t0) = (v3w(so, 5.0), v3w(s, 6.0), v3w(ro, 7.0), v3w(t, 8.0));
                        k.cmp(XMMatrixTransformation(o0, vf(sq), s0, r0, vf(rq), t0), &w, 1.0e-6, mag, || format!("so {:?} sq {:?} s {:?} ro {:?} rq {:?} t {:?}", so, sq, s, ro, rq, t));
                        let w = chain(&[scal(d3(s)), trans(mul3(d3(ro), -1.0)), rm, trans(d3(ro)), trans(d3(t))]);
                        k.cmp(XMMatrixAffineTransformation(s0, r0, vf(rq), t0), &w, 1.0e-6, mag, || format!("affine s {:?} ro {:?} rq {:?} t {:?}", s, ro, rq, t));
                        let w = chain(&[trans(mul3(z(so, 0.0), -1.0)), rz(-sa as f64), scal(z(s, 1.0)), rz(sa as f64), trans(z(so, 0.0)), trans(mul3(z(ro, 0.0), -1.0)), rz(ra as f64), trans(z(ro, 0.0)), trans(z(t, 0.0))]);
                        k.cmp(XMMatrixTransformation2D(o0, sa, s0, r0, ra, t0), &w, 1.0e-6, mag, || format!("2D so {:?} sa {:?} s {:?} ro {:?} ra {:?} t {:?}", so, sa, s, ro, ra, t));
                        let w = chain(&[scal(z(s, 1.0)), trans(mul3(z(ro, 0.0), -1.0)), rz(ra as f64), trans(z(ro, 0.0)), trans(z(t, 0.0))]);
                        k.cmp(XMMatrixAffineTransformation2D(s0, r0, ra, t0), &w, 1.0e-6, mag, || format!("affine 2D s {:?} ro {:?} ra {:?} t {:?}", s, ro, ra, t));
                    }
                }
            }
            let (so, s, ro, t) = base;
            let (o0, s0, r0, t0) = (v3w(so, 5.0), v3w(s, 6.0), v3w(ro, 7.0), v3w(t, 8.0));
            for a in octaves(-18, 3) {
                for (sa, ra) in [(a, 0.7f32), (0.7, a), (a, a)] {
                    let w = chain(&[trans(mul3(z(so, 0.0), -1.0)), rz(-sa as f64), scal(z(s, 1.0)), rz(sa as f64), trans(z(so, 0.0)), trans(mul3(z(ro, 0.0), -1.0)), rz(ra as f64), trans(z(ro, 0.0)), trans(z(t, 0.0))]);
                    k.cmp(XMMatrixTransformation2D(o0, sa, s0, r0, ra, t0), &w, 1.0e-6, 60.0, || format!("2D angles {} {}", sa, ra));
                    let w = chain(&[scal(z(s, 1.0)), trans(mul3(z(ro, 0.0), -1.0)), rz(ra as f64), trans(z(ro, 0.0)), trans(z(t, 0.0))]);
                    k.cmp(XMMatrixAffineTransformation2D(s0, r0, ra, t0), &w, 1.0e-6, 40.0, || format!("affine 2D angle {}", ra));
                    let (sq, rq) = (qaxis([1.0, 2.0, -1.0], sa as f64).map(|x| x as f32), qaxis([-1.0, 0.3, 0.2], ra as f64).map(|x| x as f32));
                    let (sm_, rm) = (qmat(d4(sq)), qmat(d4(rq)));
                    let w = chain(&[trans(mul3(d3(so), -1.0)), mt(&sm_), scal(d3(s)), sm_, trans(d3(so)), trans(mul3(d3(ro), -1.0)), rm, trans(d3(ro)), trans(d3(t))]);
                    k.cmp(XMMatrixTransformation(o0, vf(sq), s0, r0, vf(rq), t0), &w, 1.0e-6, 60.0, || format!("angles {} {}", sa, ra));
                    let w = chain(&[scal(d3(s)), trans(mul3(d3(ro), -1.0)), rm, trans(d3(ro)), trans(d3(t))]);
                    k.cmp(XMMatrixAffineTransformation(s0, r0, vf(rq), t0), &w, 1.0e-6, 40.0, || format!("affine angle {}", ra));
                }
            }
        });
        sweep(c, "XMMatrixTransformation", &mut |k| {
            for so in orig { for sq in rots { for s in scs { for ro in orig { for rq in rots { for (i, t) in orig.iter().enumerate() {
                let (sm_, rm) = (qmat(d4(sq)), qmat(d4(rq)));
                let w = chain(&[trans(mul3(d3(so), -1.0)), mt(&sm_), scal(d3(s)), sm_, trans(d3(so)), trans(mul3(d3(ro), -1.0)), rm, trans(d3(ro)), trans(d3(*t))]);
                let j = W[i % 3];
                let g = XMMatrixTransformation(v3w(so, j), vf(sq), v3w(s, j), v3w(ro, j), vf(rq), v3w(*t, j));
                k.cmp(g, &w, 1.0e-6, 20.0, || format!("so {:?} sq {:?} s {:?} ro {:?} rq {:?} t {:?}", so, sq, s, ro, rq, t));
            }}}}}}
        });
        sweep(c, "XMMatrixAffineTransformation", &mut |k| {
            for s in scs { for ro in orig { for rq in rots { for (i, t) in orig.iter().enumerate() {
                let w = chain(&[scal(d3(s)), trans(mul3(d3(ro), -1.0)), qmat(d4(rq)), trans(d3(ro)), trans(d3(*t))]);
                let j = W[i % 3];
                let g = XMMatrixAffineTransformation(v3w(s, j), v3w(ro, j), vf(rq), v3w(*t, j));
                k.cmp(g, &w, 1.0e-6, 10.0, || format!("s {:?} ro {:?} rq {:?} t {:?}", s, ro, rq, t));
            }}}}
        });
        sweep(c, "XMMatrixTransformation2D", &mut |k| {
            let z = |v: [f32; 3], d: f64| [v[0] as f64, v[1] as f64, d];
            for so in orig { for sa in a2 { for s in scs { for ro in orig { for ra in a2 { for t in orig {
                let w = chain(&[trans(mul3(z(so, 0.0), -1.0)), rz(-sa as f64), scal(z(s, 1.0)), rz(sa as f64), trans(z(so, 0.0)), trans(mul3(z(ro, 0.0), -1.0)), rz(ra as f64), trans(z(ro, 0.0)), trans(z(t, 0.0))]);
                let g = XMMatrixTransformation2D(v3w(so, 55.0), sa, v3w(s, 55.0), v3w(ro, 55.0), ra, v3w(t, 55.0));
                k.cmp(g, &w, 1.0e-6, 20.0, || format!("so {:?} sa {:?} s {:?} ro {:?} ra {:?} t {:?}", so, sa, s, ro, ra, t));
            }}}}}}
            // z lanes and w lanes are not part of a 2D transformation
            let g = XMMatrixTransformation2D(vf([1.0, 2.0, f32::NAN, f32::NAN]), 0.3, vf([2.0, 3.0, f32::NAN, f32::NAN]), vf([1.0, 2.0, f32::NAN, f32::NAN]), 0.4, vf([1.0, 2.0, f32::NAN, f32::NAN]));
            k.sw.state();
            let ok = mb(g).iter().flatten().all(|x| x.is_finite());
            k.sw.t(ok, 0, || ("NaN in z and w of every vector".into(), sm(&mb(g)), "finite".into()));
        });
        sweep(c, "XMMatrixAffineTransformation2D", &mut |k| {
            let z = |v: [f32; 3], d: f64| [v[0] as f64, v[1] as f64, d];
            for s in scs { for ro in orig { for ra in a2 { for (i, t) in orig.iter().enumerate() {
                let w = chain(&[scal(z(s, 1.0)), trans(mul3(z(ro, 0.0), -1.0)), rz(ra as f64), trans(z(ro, 0.0)), trans(z(*t, 0.0))]);
                let j = W[i % 3];
                let g = XMMatrixAffineTransformation2D(v3w(s, j), v3w(ro, j), ra, v3w(*t, j));
                k.cmp(g, &w, 1.0e-6, 10.0, || format!("s {:?} ro {:?} ra {:?} t {:?}", s, ro, ra, t));
            }}}}
        });
        let mut planes: Vec<F4> = vec![];
        for n in vec3s(&[-2.0f32, 0.0, 1.0, 3.0]) {
            if n != [0.0; 3] {
                for d in [0.0f32, 1.0, -4.0, 10.0, 0.001] {
                    planes.push([n[0], n[1], n[2], d]);
                    if d != 10.0 {
                        // the same plane in another unit, and with a normal that is nearly unit
                        for s in [2f32.powi(-20), 2f32.powi(-10), 2f32.powi(20)] {
                            planes.push([n[0] * s, n[1] * s, n[2] * s, d * s]);
                        }
                        let l = len3(d3(n));
                        for e in [0.0, 0.01, -0.01, 0.0005, -0.00005] {
                            let u = (1.0 + e) / l;
                            planes.push([(n[0] as f64 * u) as f32, (n[1] as f64 * u) as f32, (n[2] as f64 * u) as f32, d]);
                        }
                    }
                }
            }
        }
        planes.extend(star(&[[1.0, -2.0, 3.0, 4.0], [0.0, 1.0, 0.0, -1.0]], &octaves(-20, 20)).into_iter().filter(|p| p[1] != 0.0 && p[1].abs() > 1.0e-3));
        let np = |p: F4| {
            let l = len3([p[0] as f64, p[1] as f64, p[2] as f64]);
            d4(p).map(|x| x / l)
        };
        sweep(c, "XMMatrixReflect", &mut |k| {
            for p in &planes {
                let n = np(*p);
                let mut w = ID;
                for i in 0..4 {
                    for j in 0..3 {
                        w[i][j] -= 2.0 * n[i] * n[j];
                    }
                }
                k.cmp(XMMatrixReflect(vf(*p)), &w, 1.0e-6, 1.0 + n[3].abs() * 2.0, || sf(*p));
            }
        });
        let shadow = |k: &mut K, p: F4, l: F4| {
            let n = np(p);
            let ld = d4(l);
            let d = qdot(n, ld);
            let mut w = [[0.0; 4]; 4];
            for i in 0..4 {
                for j in 0..4 {
                    w[i][j] = -n[i] * ld[j];
                }
                w[i][i] += d;
            }
            let ml = l.iter().fold(5.0f64, |a, x| a.max(x.abs() as f64));
            k.cmp(XMMatrixShadow(vf(p), vf(l)), &w, 1.0e-6, 2.0 * ml * (1.0 + n[3].abs()), || format!("{} {}", sf(p), sf(l)));
        };
        sweep(c, "XMMatrixShadow", &mut |k| {
            for p in &planes {
                for l in vec4s(&[-3.0f32, 0.0, 1.0, 5.0, 0.001]) {
                    shadow(k, *p, l);
                }
            }
            for p in [[1.0, -2.0, 3.0, 4.0], [0.0, 0.6, 0.8, -1.0], [0.5, 0.5, 0.25, 0.0]] {
                for l in star(&[[1.0, -2.0, 3.0, 1.0], [4.0, 5.0, -6.0, 0.0]], &octaves(-20, 20)) {
                    shadow(k, p, l);
                }
            }
        });
        // cameras
        let mut dirs = vec3s(&[-2.0f32, 0.0, 0.5, 1.0]);
        dirs.retain(|v| *v != [0.0; 3]);
        for (i, d) in dirs.clone().iter().enumerate() {
            let s = [0.0009765625f32, 1024.0, 9.5367431640625e-7, 1048576.0][i % 4];
            dirs.push(d.map(|x| x * s));
        }
        dirs.extend([[0.0f32, 0.001, 1.0], [0.001, 0.0, -1.0], [1.0, 0.001, 0.002], [0.05, 1.0, 0.0], [0.0, -1.0, 0.05], [0.6, 0.0, 0.8], [0.6, 0.0, 0.801]]);
        let ups = [[0.0f32, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 3.0, -0.5], [0.0, 0.001, 0.0], [0.0, 1000.0, 1.0], [0.001, 1.001, 0.0]];
        let eyes = [[0.0f32, 0.0, 0.0], [1.0, -2.0, 3.0], [-10.0, 4.0, 0.5], [0.004, -0.006, 0.003], [0.0005, 0.0, -0.0007]];
        // eye, direction and up through every octave, one component at a time
        let mut cams: Vec<([f32; 3], [f32; 3], [f32; 3])> = vec![];
        for (e, d, u) in [([1.0f32, -2.0, 3.0], [0.5f32, -1.0, 2.0], [0.0f32, 1.0, 0.0]), ([-4.0, 0.0, 0.5], [1.0, 0.25, -0.5], [0.3, 0.2, 1.0])] {
            cams.extend(star(&[e], &octaves(-14, 20)).into_iter().map(|e| (e, d, u)));
            cams.extend(star(&[d], &octaves(-14, 14)).into_iter().map(|d| (e, d, u)));
            cams.extend(star(&[u], &octaves(-14, 14)).into_iter().map(|u| (e, d, u)));
            for x in octaves(-30, 30) {
                cams.push((e, d.map(|c| c * x), u));
                cams.push((e, d, u.map(|c| c * x)));
            }
        }
        for e in eyes {
            for d in &dirs {
                for u in ups {
                    cams.push((e, *d, u));
                }
            }
        }
        let view = |eye: D3, dir: D3, up: D3, rh: bool| {
            let z = norm3(mul3(dir, if rh { -1.0 } else { 1.0 }));
            let x = norm3(cross3(up, z));
            let y = cross3(z, x);
            let mut m = ID;
            for (j, a) in [x, y, z].iter().enumerate() {
                for i in 0..3 {
                    m[i][j] = a[i];
                }
                m[3][j] = -dot3(*a, eye);
            }
            m
        };
        for (n, rh, at_) in [("XMMatrixLookToLH", false, false), ("XMMatrixLookToRH", true, false), ("XMMatrixLookAtLH", false, true), ("XMMatrixLookAtRH", true, true)] {
            sweep(c, n, &mut |k| {
                for (i, (e, d, u)) in cams.iter().enumerate() {
                    let sn = len3(cross3(norm3(d3(*u)), norm3(d3(*d))));
                    let me = e.iter().fold(10.0f64, |a, x| a.max(x.abs() as f64));
                    if sn < 0.04 || at_ && len3(d3(*d)) < 0.09 * me {
                        continue;
                    }
                    let j = [0.0f32, 100.0, 1.0, 0.0, 7.0][i % 5];
                    let foc = [e[0] + d[0], e[1] + d[1], e[2] + d[2]];
                    let g = match (rh, at_) {
                        (false, false) => XMMatrixLookToLH(v3w(*e, j), v3w(*d, j), v3w(*u, j)),
                        (true, false) => XMMatrixLookToRH(v3w(*e, j), v3w(*d, j), v3w(*u, j)),
                        (false, true) => XMMatrixLookAtLH(v3w(*e, j), v3w(foc, 7.0), v3w(*u, j)),
                        (true, true) => XMMatrixLookAtRH(v3w(*e, j), v3w(foc, 7.0), v3w(*u, j)),
                    };
                    k.cmp(g, &view(d3(*e), d3(*d), d3(*u), rh), 2.0e-6, 1.2 * me * (0.25 / sn).max(1.0), || format!("eye {:?} dir {:?} up {:?}", e, d, u));
                }
            });
        }
        // projections
        let zr: Vec<(f32, f32)> = vec![(1.0, 2.0), (0.1, 100.0), (0.5, 1000.0), (10.0, 1.0), (3.0, 0.25), (1.0, 1.0e6), (7.0, 9.5), (0.001, 10.0), (1.0, 1.0009765625), (1000.0, 1.0e7), (1.0e5, 1.0e7), (0.0001, 1.0e5), (1.0e6, 1.0)];
        let szs: Vec<(f32, f32)> = vec![(2.0, 2.0), (1.0, 3.0), (4.0, 0.5), (1920.0, 1080.0), (-2.0, 5.0), (0.01, 0.02), (0.001, 1.0e4), (2.001, 2.0), (1.0e5, 1.0e-3)];
        // every octave of every parameter on its own, the others fixed
        let pos: Vec<f32> = octaves(-13, 18).into_iter().filter(|x| *x > 0.0).collect();
        let zl: Vec<(f32, f32)> = pos.iter().map(|&x| (x, 3.0 * x)).chain(pos.iter().map(|&x| (x, 0.01))).chain(pos.iter().map(|&x| (0.02, x))).chain(pos.iter().map(|&x| (x, 1.0e6))).filter(|&(n, f)| (n - f).abs() > 0.3 * n.max(f) && (n - f).abs() > 2.0e-5).collect();
        let sl: Vec<(f32, f32)> = octaves(-14, 18).iter().flat_map(|&x| [(x, 2.0), (3.0, x)]).collect();
        let near_rel = |k: &mut K, g: XMMATRIX, w: &DM, what: &dyn Fn() -> String| {
            // every cell by relative error, exact zeros and ones
            k.sw.state();
            let g = mb(g);
            let ok = (0..4).all(|i| (0..4).all(|j| if w[i][j] == 0.0 || w[i][j].abs() == 1.0 && j == 3 { g[i][j] as f64 == w[i][j] } else { close(g[i][j], w[i][j], 2.0e-6, 0.0) }));
            k.sw.t(ok, hm(&g), || (what(), sm(&g), format!("{:?}", w)));
        };
        for rh in [false, true] {
            let s = if rh { "RH" } else { "LH" };
            let sg = if rh { -1.0f64 } else { 1.0 };
            sweep(c, &format!("XMMatrixPerspective{}", s), &mut |k| {
                for (&(w, h), &(n, f)) in szs.iter().flat_map(|a| zr.iter().map(move |b| (a, b))).chain(sl.iter().map(|a| (a, &zr[0]))).chain(zl.iter().map(|b| (&szs[1], b))) {{
                    let (wd, hd, nd, fd) = (w as f64, h as f64, n as f64, f as f64);
                    let r = fd / (fd - nd);
                    let m = [[2.0 * nd / wd, 0.0, 0.0, 0.0], [0.0, 2.0 * nd / hd, 0.0, 0.0], [0.0, 0.0, sg * r, sg], [0.0, 0.0, -r * nd, 0.0]];
                    let g = if rh { XMMatrixPerspectiveRH(w, h, n, f) } else { XMMatrixPerspectiveLH(w, h, n, f) };
                    near_rel(k, g, &m, &|| format!("{} {} {} {}", w, h, n, f));
                }}
            });
            sweep(c, &format!("XMMatrixPerspectiveFov{}", s), &mut |k| {
                let mut ps: Vec<(f32, f32, f32, f32)> = vec![];
                for fov in [0.01f32, 0.02, 0.1, 0.5, 0.785398, 1.0, 1.5707964, 2.0, 3.0] { for asp in [0.5f32, 1.0, 1.7777778, 2.0, -1.5, 1.001, 0.01, 300.0] { for &(n, f) in &zr {
                    ps.push((fov, asp, n, f));
                }}}
                ps.extend(zl.iter().map(|&(n, f)| (1.0, 1.5, n, f)));
                ps.extend(sl.iter().map(|&(a, _)| (1.0, a, 0.5, 9.0)));
                ps.extend((1..=310).map(|i| (i as f32 * 0.01, 1.25, 0.5, 9.0)));
                ps.extend(pos.iter().filter(|x| **x < 0.02).map(|&x| (x, 1.25, 0.5, 9.0)));
                for (fov, asp, n, f) in ps {{{
                    let (nd, fd) = (n as f64, f as f64);
                    let r = fd / (fd - nd);
                    let hh = 1.0 / (fov as f64 * 0.5).tan();
                    let m = [[hh / asp as f64, 0.0, 0.0, 0.0], [0.0, hh, 0.0, 0.0], [0.0, 0.0, sg * r, sg], [0.0, 0.0, -r * nd, 0.0]];
                    let g = if rh { XMMatrixPerspectiveFovRH(fov, asp, n, f) } else { XMMatrixPerspectiveFovLH(fov, asp, n, f) };
                    near_rel(k, g, &m, &|| format!("fov {} aspect {} {} {}", fov, asp, n, f));
                }}}
            });
            sweep(c, &format!("XMMatrixPerspectiveOffCenter{}", s), &mut |k| {
                let mut ps: Vec<[f32; 6]> = vec![];
                for (l, r_) in [(-1.0f32, 1.0f32), (-2.0, 5.0), (1.0, 4.0), (3.0, -1.0), (-0.25, 0.5), (-1.0, 1.001), (-1000.0, 1001.0), (-0.001, 0.001)] { for (b, t) in [(-1.0f32, 1.0f32), (-3.0, 0.5), (2.0, 2.5), (1.0, -2.0), (-1.0, 1.0009765625), (-0.001, 0.00101)] { for &(n, f) in &zr {
                    ps.push([l, r_, b, t, n, f]);
                }}}
                ps.extend(star(&[[-1.0, 2.0, -1.5, 1.0, 0.5, 9.0]], &octaves(-12, 16)).into_iter().filter(|p| {
                    let ok = |a: f32, b: f32| (a - b).abs() > 0.3 * a.abs().max(b.abs());
                    p[4] > 0.0 && p[5] > 0.0 && ok(p[4], p[5]) && ok(p[0], p[1]) && ok(p[2], p[3]) && ok(p[0], -p[1]) && ok(p[2], -p[3])
                }));
                ps.extend(zl.iter().map(|&(n, f)| [-1.0, 2.0, -1.5, 1.0, n, f]));
                for [l, r_, b, t, n, f] in ps {{{
                    let (ld, rd, bd, td, nd, fd) = (l as f64, r_ as f64, b as f64, t as f64, n as f64, f as f64);
                    let r = fd / (fd - nd);
                    let m = [
                        [2.0 * nd / (rd - ld), 0.0, 0.0, 0.0],
                        [0.0, 2.0 * nd / (td - bd), 0.0, 0.0],
                        [-sg * (ld + rd) / (rd - ld), -sg * (td + bd) / (td - bd), sg * r, sg],
                        [0.0, 0.0, -r * nd, 0.0],
                    ];
                    let g = if rh { XMMatrixPerspectiveOffCenterRH(l, r_, b, t, n, f) } else { XMMatrixPerspectiveOffCenterLH(l, r_, b, t, n, f) };
                    near_rel(k, g, &m, &|| format!("{} {} {} {} {} {}", l, r_, b, t, n, f));
                }}}
            });
            sweep(c, &format!("XMMatrixOrthographic{}", s), &mut |k| {
                let mut zo = zr.clone();
                zo.extend([(0.0, 10.0), (-5.0, 5.0), (-3.0, -7.0), (0.0, 0.001), (-0.001, 1.0), (0.001, 1.0)]);
                for (&(w, h), &(n, f)) in szs.iter().flat_map(|a| zo.iter().map(move |b| (a, b))).chain(sl.iter().map(|a| (a, &zo[0]))).chain(zl.iter().map(|b| (&szs[1], b))) {{
                    let (wd, hd, nd, fd) = (w as f64, h as f64, n as f64, f as f64);
                    let r = 1.0 / (fd - nd);
                    let m = [[2.0 / wd, 0.0, 0.0, 0.0], [0.0, 2.0 / hd, 0.0, 0.0], [0.0, 0.0, sg * r, 0.0], [0.0, 0.0, -r * nd, 1.0]];
                    let g = if rh { XMMatrixOrthographicRH(w, h, n, f) } else { XMMatrixOrthographicLH(w, h, n, f) };
                    near_rel(k, g, &m, &|| format!("{} {} {} {}", w, h, n, f));
                }}
            });
        }
        sweep(c, "XMMatrixSet", &mut |k| {
            for r in 0..16 {
                let v = |i: usize| ((i + r) % 16) as f32 + 0.5;
                let mut w = [[0.0; 4]; 4];
                for i in 0..16 {
                    w[i / 4][i % 4] = v(i) as f64;
                }
                let g = XMMatrixSet(v(0), v(1), v(2), v(3), v(4), v(5), v(6), v(7), v(8), v(9), v(10), v(11), v(12), v(13), v(14), v(15));
                k.cmp(g, &w, 0.0, 1.0, || format!("rotation {}", r));
            }
        });
    });
}
