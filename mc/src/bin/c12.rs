//! C12: vector-by-matrix transforms and viewport projection.
use mc::dom::*;
use mc::refm::*;
use mc::*;

type VM = fn(XMVECTOR, XMMATRIX) -> XMVECTOR;
const JUNK: [[f32; 2]; 3] = [[100.0, -77.0], [f32::NAN, f32::INFINITY], [f32::NEG_INFINITY, 3.0e38]];
fn pad(v: F4, d: usize, j: usize) -> F4 {
    let mut r = v;
    for k in d..4 {
        r[k] = JUNK[j % 3][(k - d + j) % 2];
    }
    r
}
pub fn mats(th: bool) -> Vec<M4> {
    let mut r = vec![];
    // every single cell and every pair of cells
    for i in 0..16 {
        let mut m = [[0.0f32; 4]; 4];
        m[i / 4][i % 4] = 3.0;
        r.push(m);
        for j in 0..i {
            let mut n = m;
            n[j / 4][j % 4] = -5.0;
            r.push(n);
        }
    }
    // dense matrices with sixteen different entries, in every rotation of the entries
    let p = [2.0f32, -3.0, 5.0, 7.0, -11.0, 13.0, 17.0, -19.0, 23.0, 29.0, 31.0, -37.0, 41.0, 43.0, -47.0, 53.0];
    for k in 0..16 {
        let mut m = [[0.0f32; 4]; 4];
        for i in 0..16 {
            m[i / 4][i % 4] = p[(i * if th { 5 } else { 1 } + k) % 16];
        }
        r.push(m);
    }
    r.push(fm(&ID));
    r
}
/// the identity, a scaling, a rotation, a translation, a perspective and a mirror, with every cell moved by small steps
fn near_mats() -> Vec<M4> {
    let rot = qmat(qaxis([1.0, 2.0, -1.0], 0.7));
    let per = [[1.5, 0.0, 0.0, 0.0], [0.0, 2.0, 0.0, 0.0], [0.0, 0.0, 20.0 / 19.0, 1.0], [0.0, 0.0, -20.0 / 19.0, 0.0]];
    let base = [ID, scal([2.0, 0.5, -1.5]), rot, chain(&[rot, trans([1.0, -3.0, 0.5])]), per, chain(&[rot, trans([1.0, -3.0, 0.5]), per]), scal([-1.0, 1.0, 1.0])];
    let mut r = vec![];
    for b in base {
        let m = fm(&b);
        r.push(m);
        for cell in 0..16 {
            for k in [1i32, 3, 5, 7, 10, 13, 16, 20, 23] {
                for s in [1.0f32, -1.0] {
                    let mut n = m;
                    n[cell / 4][cell % 4] += s * 2f32.powi(-k);
                    r.push(n);
                }
            }
        }
        // the whole matrix in a different unit
        for k in [-40i32, -20, -10, 10, 20, 40] {
            r.push(m.map(|q| q.map(|x| x * 2f32.powi(k))));
        }
    }
    r
}

fn main() {
    Ctx::main("C12", |c| {
        let th = c.thorough();
        let ms = mats(th);
        let al: &[f32] = if th { &[-3.0, -1.0, 0.0, 1.0, 2.5] } else { &[-2.0, 0.0, 1.0, 3.0] };
        let fs: Vec<(&str, VM, usize, f64, bool)> = vec![
            ("XMVector2Transform", XMVector2Transform, 2, 1.0, false),
            ("XMVector2TransformNormal", XMVector2TransformNormal, 2, 0.0, false),
            ("XMVector2TransformCoord", XMVector2TransformCoord, 2, 1.0, true),
            ("XMVector3Transform", XMVector3Transform, 3, 1.0, false),
            ("XMVector3TransformNormal", XMVector3TransformNormal, 3, 0.0, false),
            ("XMVector3TransformCoord", XMVector3TransformCoord, 3, 1.0, true),
            ("XMVector4Transform", XMVector4Transform, 4, 0.0, false),
        ];
        for (n, f, d, w, coord) in fs.clone() {
            c.sweep(n, |sw| {
                let vs = vec4s(al);
                for m in &ms {
                    let md = dm(m);
                    for (i, v) in vs.iter().enumerate() {
                        if d < 4 && (d..4).any(|k| v[k] != al[0]) {
                            continue;
                        }
                        for s in [1.0f32, 1048576.0, 9.5367431640625e-7] {
                            let a = pad(v.map(|x| x * s), d, i);
                            let e = match d {
                                2 => [a[0] as f64, a[1] as f64, 0.0, w],
                                3 => [a[0] as f64, a[1] as f64, a[2] as f64, w],
                                _ => d4(a),
                            };
                            // z of a 2D vector is implicitly zero
                            let mut r = vm(e, &md);
                            if coord && (r[3] == 0.0 || s != 1.0) {
                                continue;
                            }
                            if coord {
                                let w = r[3];
                                r = r.map(|x| x / w);
                            }
                            sw.state();
                            let g = f(vf(a), mf(*m));
                            let gf = fb(g);
                            // sums stay exact in f32 unless the implicit 1 meets a scaled operand
                            let scaled = s != 1.0;
                            let mag = 250.0 * s.max(1.0) as f64;
                            let ok = (0..4).all(|k| if coord { close(gf[k], r[k], 3.0e-7, 0.0) } else if scaled { close(gf[k], r[k], 3.0e-7, 2.0e-7 * mag) } else { gf[k] as f64 == r[k] });
                            sw.tv(ok, g, || (format!("{} {}", sf(a), sm(m)), format!("{:?}", r)));
                        }
                    }
                }
            });
        }
        // matrices a small step away from the identity, a scaling, a rotation, a translation and a perspective: the result may not
        // jump when a cell, the vector or the resulting w comes close to 0 or 1
        let near = near_mats();
        for (n, f, d, w, coord) in fs.clone() {
            c.sweep(&format!("{} near special matrices", n), |sw| {
                let vs: Vec<F4> = vec4s(&[-2.0f32, 0.0, 1.0, 0.75]).into_iter().filter(|v| d == 4 || (d..4).all(|k| v[k] == 1.0)).collect();
                for m in &near {
                    let md = dm(m);
                    for (i, v) in vs.iter().enumerate() {
                        for s in [1.0f32, 1.0009765625, 4096.0, 0.000244140625, 1.0e-7] {
                            let a = pad(v.map(|x| x * s), d, i);
                            let mut e = [a[0] as f64, a[1] as f64, 0.0, w];
                            if d >= 3 {
                                e[2] = a[2] as f64;
                            }
                            if d == 4 {
                                e[3] = a[3] as f64;
                            }
                            let r = vm(e, &md);
                            let mag: Vec<f64> = (0..4).map(|k| (0..4).map(|l| (e[l] * md[l][k]).abs()).sum::<f64>()).collect();
                            let tw = 3.0e-7 * mag[3];
                            if coord && r[3].abs() <= 8.0 * tw {
                                continue;
                            }
                            sw.state();
                            let g = f(vf(a), mf(*m));
                            let gf = fb(g);
                            let ok = (0..4).all(|k| {
                                if coord {
                                    let q = r[k] / r[3];
                                    q.abs() > 1.0e30 || (gf[k] as f64 - q).abs() <= (3.0e-7 * mag[k] + q.abs() * (tw + 3.0e-7 * r[3].abs())) / r[3].abs() * 1.2
                                } else {
                                    (gf[k] as f64 - r[k]).abs() <= 3.0e-7 * mag[k]
                                }
                            });
                            sw.tv(ok, g, || (format!("{} {}", sf(a), sm(m)), format!("{:?}", if coord { r.map(|x| x / r[3]) } else { r })));
                        }
                    }
                }
            });
        }
        // every octave of every matrix cell and of every vector component, one at a time
        for (n, f, d, w, coord) in fs {
            c.sweep(&format!("{} by octaves", n), |sw| {
                let rot = qmat(qaxis([1.0, 2.0, -1.0], 0.7));
                let per = [[1.5, 0.0, 0.0, 0.0], [0.0, 2.0, 0.0, 0.0], [0.0, 0.0, 20.0 / 19.0, 1.0], [0.0, 0.0, -20.0 / 19.0, 0.0]];
                let bm = [fm(&ID), fm(&chain(&[rot, trans([1.0, -3.0, 0.5])])), fm(&chain(&[rot, trans([1.0, -3.0, 0.5]), per])), ms[140], [[0.0; 4]; 4]];
                let bv: [F4; 3] = [[1.5, -0.75, 2.0, 1.0], [0.0, 0.0, 0.0, 1.0], [-20.0, 0.03, 7.0, -0.5]];
                let mut chk = |v: F4, m: &M4, j: usize| {
                    let a = pad(v, d, j);
                    let md = dm(m);
                    let mut e = [a[0] as f64, a[1] as f64, 0.0, w];
                    if d >= 3 { e[2] = a[2] as f64; }
                    if d == 4 { e[3] = a[3] as f64; }
                    let r = vm(e, &md);
                    let mag: Vec<f64> = (0..4).map(|k| (0..4).map(|l| (e[l] * md[l][k]).abs()).sum::<f64>()).collect();
                    let tw = 3.0e-7 * mag[3];
                    if coord && r[3].abs() <= 8.0 * tw {
                        return;
                    }
                    sw.state();
                    let g = f(vf(a), mf(*m));
                    let gf = fb(g);
                    let ok = (0..4).all(|k| {
                        if coord {
                            let q = r[k] / r[3];
                            q.abs() > 1.0e30 || (gf[k] as f64 - q).abs() <= (3.0e-7 * mag[k] + q.abs() * (tw + 3.0e-7 * r[3].abs())) / r[3].abs() * 1.2 + 1.0e-37
                        } else {
                            (gf[k] as f64 - r[k]).abs() <= 3.5e-7 * mag[k] + 1.0e-37
                        }
                    });
                    sw.tv(ok, g, || (format!("{} {}", sf(a), sm(m)), format!("{:?}", if coord { r.map(|x| x / r[3]) } else { r })));
                };
                for (j, v) in star(&bv, &octaves(-40, 40)).iter().enumerate() {
                    for m in &bm {
                        chk(*v, m, j);
                    }
                }
                for m in &bm {
                    for cell in 0..16 {
                        for (j, x) in octaves(-40, 40).into_iter().enumerate() {
                            let mut k = *m;
                            k[cell / 4][cell % 4] = x;
                            let mut h = *m;
                            h[cell / 4][cell % 4] += if x.abs() < 1.0 { x } else { 0.0 };
                            for v in bv {
                                chk(v, &k, j);
                                chk(v, &h, j);
                            }
                        }
                    }
                }
            });
        }
        // viewport mapping, and its inverse
        let cams: Vec<(DM, DM, DM)> = {
            let mut r = vec![];
            let rot = qmat(qaxis([1.0, 2.0, -1.0], 0.7));
            let worlds = [ID, trans([1.0, -2.0, 0.5]), trans([0.0009765625, -0.00048828125, 0.001953125]), scal([1.0009765625, 1.0, 0.9990234375]), chain(&[scal([2.0, 0.5, 1.5]), rot, trans([0.5, 0.25, -1.0])])];
            let views = [ID, trans([0.0, 0.0, 3.0]), trans([0.0009765625, 0.0, 0.0]), qmat(qaxis([0.0, 0.0, 1.0], 0.0009765625)), mmul(&qmat(qaxis([0.0, 1.0, 0.0], 0.4)), &trans([0.3, -0.2, 4.0]))];
            // a left-handed, a right-handed perspective and an off-centre orthographic projection
            let lh = [[1.5, 0.0, 0.0, 0.0], [0.0, 2.0, 0.0, 0.0], [0.0, 0.0, 20.0 / 19.0, 1.0], [0.0, 0.0, -20.0 / 19.0, 0.0]];
            let rh = [[1.5, 0.0, 0.0, 0.0], [0.0, 2.0, 0.0, 0.0], [0.0, 0.0, -20.0 / 19.0, -1.0], [0.0, 0.0, -20.0 / 19.0, 0.0]];
            let or = [[0.5, 0.0, 0.0, 0.0], [0.0, 0.25, 0.0, 0.0], [0.0, 0.0, 0.0625, 0.0], [0.125, -0.25, -0.0625, 1.0]];
            for w in worlds {
                for v in views {
                    for p in [lh, rh, or] {
                        r.push((w, v, p));
                    }
                }
            }
            r
        };
        let mut vps: Vec<[f32; 6]> = vec![
            [0.0, 0.0, 2.0, 2.0, 0.0, 1.0], [0.0, 0.0, 640.0, 480.0, 0.0, 1.0], [100.0, 50.0, 640.0, 480.0, 0.25, 0.75], [-20.0, 10.0, 33.0, 1001.0, 0.0, 1.0],
            [5.0, -7.0, 1.0, 8.0, 0.5, 1.0], [0.0, 0.0, 1920.0, 1080.0, 1.0, 0.0],
            [0.0009765625, -0.0009765625, 2.0, 2.0, 0.0, 1.0], [0.5, 0.25, 640.5, 480.25, 0.0009765625, 0.9990234375], [-640.0, -480.0, 640.0, 480.0, 0.0, 0.125], [0.0, 0.0, 8192.0, 1.0, -1.0, 1.0],
            [0.0, 0.0, 600.0, 599.0, 0.0, 1.0], [0.0, 0.0, 1.0, 0.9990234375, 0.4375, 0.44140625], [1.0, -1.0, 1.0078125, 1.0, -0.00390625, 1.00390625],
        ];
        let nvp = vps.len();
        // every octave of every viewport parameter
        vps.extend(star(&[[0.0f32, 0.0, 640.0, 480.0, 0.0, 1.0], [100.0, -50.0, 33.0, 1001.0, 0.25, 0.75]], &octaves(-14, 13)));
        vps.retain(|v| (v[5] - v[4]).abs() > 1.0e-3 && (v[5] - v[4]).abs() < 300.0);
        let pts = vec3s(if th { &[-2.0f32, -1.0, 0.0, 0.5, 1.0, 2.5] } else { &[-2.0f32, -0.5, 0.0, 1.5] });
        let mut wp = (0.0f64, 0.0f64);
        c.sweep("XMVector3Project", |sw| {
            for (ic, (w, v, p)) in cams.iter().enumerate() {
                let t = chain(&[dm(&fm(w)), dm(&fm(v)), dm(&fm(p))]);
                for vp in &vps[..if ic % 6 == 4 { vps.len() } else { nvp }] {
                    for (i, q) in pts.iter().enumerate() {
                        let h = vm([q[0] as f64, q[1] as f64, q[2] as f64, 1.0], &t);
                        if h[3].abs() < 0.2 {
                            continue;
                        }
                        let (x, y, z) = (h[0] / h[3], h[1] / h[3], h[2] / h[3]);
                        let e = vp.map(|x| x as f64);
                        let want = [e[0] + (1.0 + x) * e[2] * 0.5, e[1] + (1.0 - y) * e[3] * 0.5, e[4] + z * (e[5] - e[4])];
                        sw.state();
                        let g = XMVector3Project(vf(pad([q[0], q[1], q[2], 0.0], 3, i)), vp[0], vp[1], vp[2], vp[3], vp[4], vp[5], mf(fm(p)), &mf(fm(v)), &mf(fm(w)));
                        let gf = fb(g);
                        let k = 1.0 + (x.abs() + y.abs() + z.abs() + 5.0) / h[3].abs();
                        let sc = [e[2].abs() + e[0].abs(), e[3].abs() + e[1].abs(), (e[4].abs() + (e[5] - e[4]).abs()).max(1.0)];
                        let ok = (0..3).all(|l| {
                            let er = (gf[l] as f64 - want[l]).abs() / (sc[l] * k);
                            wp.0 = wp.0.max(er);
                            er <= 5.0e-7
                        });
                        sw.tv(ok, g, || (format!("{:?} vp={:?} w={:?} v={:?} p={:?}", q, vp, w, v, p), format!("{:?}", want)));
                    }
                }
            }
        });
        c.sweep("XMVector3Project by octaves", |sw| {
            let vp = [100.0f32, 50.0, 640.0, 480.0, 0.25, 0.75];
            for (w, v, p) in &cams {
                let t = chain(&[dm(&fm(w)), dm(&fm(v)), dm(&fm(p))]);
                for (i, q) in star(&[[1.0f32, -0.5, 2.0], [0.0, 0.0, 6.0]], &octaves(-26, 12)).iter().enumerate() {
                    let h = vm([q[0] as f64, q[1] as f64, q[2] as f64, 1.0], &t);
                    let big = q.iter().fold(1.0f64, |a, b| a.max(b.abs() as f64));
                    if h[3].abs() < 0.05 * big && h[3].abs() < 0.2 {
                        continue;
                    }
                    let (x, y, z) = (h[0] / h[3], h[1] / h[3], h[2] / h[3]);
                    let e = vp.map(|x| x as f64);
                    let want = [e[0] + (1.0 + x) * e[2] * 0.5, e[1] + (1.0 - y) * e[3] * 0.5, e[4] + z * (e[5] - e[4])];
                    sw.state();
                    let g = XMVector3Project(vf(pad([q[0], q[1], q[2], 0.0], 3, i)), vp[0], vp[1], vp[2], vp[3], vp[4], vp[5], mf(fm(p)), &mf(fm(v)), &mf(fm(w)));
                    // the point times the (unit sized) matrix, over w
                    let k = 2.0 + (1.0 + x.abs() + y.abs() + z.abs()) * (8.0 + 4.0 * big) / h[3].abs();
                    let sc = [740.0, 530.0, 1.0];
                    let ok = (0..3).all(|l| (fb(g)[l] as f64 - want[l]).abs() <= 5.0e-7 * sc[l] * k);
                    sw.tv(ok, g, || (format!("{:?} w={:?} v={:?} p={:?}", q, w, v, p), format!("{:?}", want)));
                }
            }
        });
        c.sweep("XMVector3Unproject", |sw| {
            for (ic, (w, v, p)) in cams.iter().enumerate() {
                let t = chain(&[dm(&fm(w)), dm(&fm(v)), dm(&fm(p))]);
                let it = inv(&t).unwrap();
                for vp in &vps[..if ic % 6 == 4 { vps.len() } else { nvp }] {
                    // lattice of screen positions inside the viewport
                    for fx in [0.0f64, 0.25, 0.5, 1.0] {
                        for fy in [0.0f64, 0.375, 1.0] {
                            for fz in [0.0f64, 0.3, 0.7, 0.9] {
                                let e = vp.map(|x| x as f64);
                                let s = [(e[0] + fx * e[2]) as f32, (e[1] + fy * e[3]) as f32, (e[4] + fz * (e[5] - e[4])) as f32];
                                let nd = [(s[0] as f64 - e[0]) / (e[2] * 0.5) - 1.0, 1.0 - (s[1] as f64 - e[1]) / (e[3] * 0.5), (s[2] as f64 - e[4]) / (e[5] - e[4]), 1.0];
                                let h = vm(nd, &it);
                                let want = [h[0] / h[3], h[1] / h[3], h[2] / h[3]];
                                sw.state();
                                let g = XMVector3Unproject(vf(pad([s[0], s[1], s[2], 0.0], 3, (fx * 4.0) as usize)), vp[0], vp[1], vp[2], vp[3], vp[4], vp[5], mf(fm(p)), &mf(fm(v)), &mf(fm(w)));
                                let gf = fb(g);
                                let k = maxabs(&it) * (1.0 + want.iter().fold(0.0f64, |a, b| a.max(b.abs()))) / h[3].abs() * (1.0 + e[0].abs() / e[2].abs() + e[1].abs() / e[3].abs() + (1.0f64).max(e[4].abs()) / (e[5] - e[4]).abs());
                                let ok = (0..3).all(|l| {
                                    let er = (gf[l] as f64 - want[l]).abs() / k;
                                    wp.1 = wp.1.max(er);
                                    er <= 5.0e-7
                                });
                                sw.tv(ok, g, || (format!("{:?} vp={:?} w={:?} v={:?} p={:?}", s, vp, w, v, p), format!("{:?}", want)));
                            }
                        }
                    }
                }
            }
        });
        if std::env::var("MC_MEASURE").is_ok() {
            println!("MEASURE project {:e} unproject {:e}", wp.0, wp.1);
        }
    });
}
