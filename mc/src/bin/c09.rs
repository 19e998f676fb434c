//! C09: angle wrapping and modulo.
use mc::dom::*;
use mc::*;
use std::f64::consts::PI;

/// Does `g` lie in [-pi,pi] and differ from `x` by whole turns, up to rounding `tol`?
fn wraps(g: f32, x: f64, tol: f64) -> bool {
    let g = g as f64;
    let k = ((x - g) / (2.0 * PI)).round();
    g.abs() <= PI + tol && (x - g - k * 2.0 * PI).abs() <= tol
}

fn main() {
    Ctx::main("C09", |c| {
        let th = c.thorough();
        // every multiple of pi/8 over 64 turns with neighbouring floats, plus a structured grid up to 2^17
        let mut vals: Vec<f32> = vec![];
        for k in -1024i32..=1024 {
            let x = (k as f64 * PI / 8.0) as f32;
            for d in [0i32, 1, -1, 2, -2] {
                vals.push(f32::from_bits((x.to_bits() as i32 + d) as u32));
            }
        }
        vals.retain(|x| x.is_finite() && x.abs() < 1.0e6);
        vals.extend(grid_vec(0, 143, if th { 12 } else { 6 }));
        let tol = |x: f32| 1.0e-6 + 3.0e-7 * x.abs() as f64;
        c.sweep("XMVectorModAngles", |sw| {
            // beyond 2^17 the turns still cancel up to the rounding of the angle itself
            let mut all = vals.clone();
            all.extend(grid_vec(144, 250, if th { 8 } else { 4 }));
            unary(&all, |a| {
                sw.state();
                let g = XMVectorModAngles(vf(a));
                let ok = (0..4).all(|i| wraps(fb(g)[i], a[i] as f64, tol(a[i])));
                sw.tv(ok, g, || (sf(a), "in [-pi,pi], congruent".into()));
            });
            if th {
                every_f32(0, |u| {
                    let a = u.map(f32::from_bits);
                    if a.iter().all(|x| x.abs() <= 131072.0) {
                        sw.state();
                        let g = XMVectorModAngles(vf(a));
                        let ok = (0..4).all(|i| wraps(fb(g)[i], a[i] as f64, tol(a[i])));
                        sw.tv(ok, g, || (sf(a), "in [-pi,pi], congruent".into()));
                    }
                });
            }
        });
        c.sweep("XMScalarModAngle", |sw| {
            let chk = |sw: &mut Sweep, x: f32| {
                sw.state();
                let g = XMScalarModAngle(x);
                sw.t(wraps(g, x as f64, tol(x)), h4([g.to_bits(), 0, 0, 0]), || (format!("{:?}", x), format!("{:?}", g), "in [-pi,pi], congruent".into()));
            };
            for &x in &vals {
                chk(sw, x);
            }
            for x in grid_vec(144, 159, 6) {
                chk(sw, x);
            }
            if th {
                every_f32(0, |u| {
                    for b in u {
                        if f32::from_bits(b).abs() <= 131072.0 {
                            chk(sw, f32::from_bits(b));
                        }
                    }
                });
            }
        });
        // angles in their documented ranges, on a lattice plus the exact ends and their neighbours
        let n = if th { 256 } else { 64 };
        let p32 = std::f32::consts::PI;
        let mut v1: Vec<f32> = (-n..n).map(|k| (k as f64 / n as f64 * PI) as f32).collect();
        v1.extend([-p32, f32::from_bits(p32.to_bits() - 1), -f32::from_bits(p32.to_bits() - 1), f32::from_bits(1), -0.0, 1.0e-10]);
        v1.extend(octaves(-30, 1));
        v1.retain(|x| *x < p32 && *x >= -p32);
        let mut v2: Vec<f32> = (-2 * n..=2 * n).map(|k| (k as f64 / n as f64 * PI) as f32).collect();
        v2.extend([p32, -p32, f32::from_bits((2.0 * p32).to_bits() - 1), 3.0, -0.0, f32::from_bits(1)]);
        v2.extend(octaves(-30, 1));
        for (name, sub) in [("XMVectorAddAngles", false), ("XMVectorSubtractAngles", true)] {
            c.sweep(name, |sw| {
                let (n1, n2) = (v1.len(), v2.len());
                // sums close to the ends of the range, the same in all lanes
                let near: Vec<f32> = [0.0f64, 1.0e-6, 1.0e-4, 7.0e-4, 5.0e-3, 0.05].iter().flat_map(|e| [e, &-e].map(|e| *e as f32).to_vec()).collect();
                for &x in near.iter() { for &y in near.iter() { for m in [0.0f32, 0.5, 1.0, -0.5, -1.0, -2.0] {
                    let (a, b) = (m * p32 + x, (1.0 - m) * p32 * if sub { -1.0 } else { 1.0 } + y);
                    if !(a < p32 && a >= -p32 && b.abs() < 2.0 * p32) { continue; }
                    for (a, b) in [(a, b), (-a, -b)] {
                        if a >= p32 { continue; }
                        sw.state();
                        let g = if sub { XMVectorSubtractAngles(vf([a; 4]), vf([b; 4])) } else { XMVectorAddAngles(vf([a; 4]), vf([b; 4])) };
                        let ok = fb(g).iter().all(|g| wraps(*g, if sub { a as f64 - b as f64 } else { a as f64 + b as f64 }, 2.0e-6));
                        sw.tv(ok, g, || (format!("{:?} {:?} in all lanes", a, b), "in [-pi,pi], congruent to the exact sum/difference".into()));
                    }
                } } }
                for i in 0..n1 {
                    for j in 0..n2 {
                        // every pair visits every lane over the sweep; neighbours differ
                        let a = [v1[i], v1[(i + 7) % n1], v1[(i + 31) % n1], v1[(i + 50) % n1]];
                        let b = [v2[j], v2[(j + 29) % n2], v2[(j + 3) % n2], v2[(j + 101) % n2]];
                        sw.state();
                        let g = if sub { XMVectorSubtractAngles(vf(a), vf(b)) } else { XMVectorAddAngles(vf(a), vf(b)) };
                        let gf = fb(g);
                        let ok = (0..4).all(|l| wraps(gf[l], if sub { a[l] as f64 - b[l] as f64 } else { a[l] as f64 + b[l] as f64 }, 2.0e-6));
                        sw.tv(ok, g, || (format!("{} {}", sf(a), sf(b)), "in [-pi,pi], congruent to the exact sum/difference".into()));
                    }
                }
            });
        }
        let mut ms: Vec<f32> = specials();
        ms.extend([0.1, -0.1, 0.3, 7.0, -7.0, 10.0, 3.7, -3.7, 1000.25, 12345.678, 6.2831855, 3.1415927, 5.5, -5.5, 0.7, 100.0, 1.0e-3]);
        ms.push(f32::NAN);
        c.sweep("XMVectorMod", |sw| {
            let lane = |g: f32, a: f32, b: f32| {
                let q = (a / b).trunc() as f64;
                let p = q * b as f64;
                let w = a as f64 - p;
                if p.is_finite() && p.abs() > 3.4028e38 {
                    return true; // the product may or may not round to infinity
                }
                if w.is_nan() || w.is_infinite() {
                    return if w.is_nan() { g.is_nan() } else { g as f64 == w };
                }
                // fused or not, and whatever the product rounds to
                (g as f64 - w).abs() <= 1.2e-7 * p.abs() + 6.0e-8 * w.abs() + 3.0e-45
            };
            let mut f = |a: F4, b: F4| {
                sw.state();
                let g = XMVectorMod(vf(a), vf(b));
                let gf = fb(g);
                sw.tv((0..4).all(|i| lane(gf[i], a[i], b[i])), g, || (format!("{} {}", sf(a), sf(b)), format!("{:?}", [0, 1, 2, 3].map(|i| a[i] as f64 - b[i] as f64 * (a[i] / b[i]).trunc() as f64))));
            };
            binary(&ms, &mut f);
            binary_packed(&octaves(-60, 60), &mut f);
            for x in octaves(-100, 100) {
                for k in 0..=23 {
                    let e = 2f32.powi(-k);
                    f([x, x * (1.0 + e), x * (3.0 - e), -x], [x * (1.0 + e), x, -x, x * (0.5 + e)]);
                }
            }
            // integers and halves: the exact remainder
            let ints: Vec<f32> = (-40..=40).map(|k| k as f32 * 0.5).collect();
            binary_packed(&ints, &mut f);
            binary(&ints, &mut f);
        });
    });
}
