//! C25: every build configuration gives the same answers.
//! Run mode: evaluates every public function on every state of its operand domain and writes the raw results to
//! MC_OUT. Compare mode (`c25 compare A B`): compares two configurations' results state by state.
use mc::*;
use std::io::{Read, Write};
#[path = "../calls.rs"]
#[allow(unused, clippy::all)]
mod calls;
use calls::*;

/// The operand domain: the full product of the operands' menus where it fits the bound, otherwise every state that
/// differs from one of the base states in at most two operands.
fn states(e: &Entry, th: bool, f0: &mut dyn FnMut(&[u32])) {
    let f = &mut |a: &[u32]| {
        if legal(e, a) {
            f0(a)
        }
    };
    let menus: Vec<Vec<Vec<u32>>> = e.args.iter().map(|k| menu(*k)).collect();
    let mut offs = vec![];
    let mut n = 0;
    for k in e.args {
        offs.push(n);
        n += k.words();
    }
    let put = |a: &mut Vec<u32>, i: usize, v: &[u32]| a[offs[i]..offs[i] + v.len()].copy_from_slice(v);
    // magnitudes: each vector or scalar operand scaled by every octave, the others at rest
    {
        let mut a = vec![0u32; n];
        for (i, k) in e.args.iter().enumerate() {
            // (the remainder of a large number, and the projection through a viewport out of proportion, keep no digits)
            if !matches!(k, K::V | K::F | K::M | K::VPOS) || ["Mod", "Angles", "Unproject"].iter().any(|x| e.name.contains(x)) {
                continue;
            }
            for base in 0..if th { 6 } else { 3 } {
                for (j, m) in menus.iter().enumerate() {
                    put(&mut a, j, &m[(base * 5 + j * 3) % m.len()]);
                }
                let at: Vec<f32> = menus[i][(base * 5 + i * 3) % menus[i].len()].iter().map(|w| f32::from_bits(*w)).collect();
                // (a determinant multiplies four entries)
                let top = if matches!(k, K::M) { 20 } else { 60 };
                for x in -top..=top {
                    let v: Vec<u32> = at.iter().map(|f| (f * (x as f32).exp2()).to_bits()).collect();
                    put(&mut a, i, &v);
                    f(&a);
                }
            }
        }
    }
    let limit = if th { 200_000.0 } else { 6_000.0 };
    let total: f64 = menus.iter().map(|m| m.len() as f64).product();
    let mut a = vec![0u32; n];
    if total <= limit {
        let mut idx = vec![0usize; menus.len()];
        'all: loop {
            for (i, m) in menus.iter().enumerate() {
                put(&mut a, i, &m[idx[i]]);
            }
            f(&a);
            let mut k = 0;
            loop {
                if k == idx.len() {
                    break 'all;
                }
                idx[k] += 1;
                if idx[k] < menus[k].len() {
                    break;
                }
                idx[k] = 0;
                k += 1;
            }
        }
        return;
    }
    for base in 0..if th { 8 } else { 2 } {
        for i in 0..menus.len() {
            for j in i + 1..menus.len() {
                for x in &menus[i] {
                    for y in &menus[j] {
                        for (k, m) in menus.iter().enumerate() {
                            put(&mut a, k, &m[(base * 5 + k * 3) % m.len()]);
                        }
                        put(&mut a, i, x);
                        put(&mut a, j, y);
                        f(&a);
                    }
                }
            }
        }
        if menus.len() == 1 {
            for x in &menus[0] {
                put(&mut a, 0, x);
                f(&a);
            }
            return;
        }
    }
}

fn skipped(e: &Entry) -> bool {
    e.name.contains("Debug")
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() > 3 && args[1] == "compare" {
        return compare(&args[2], &args[3]);
    }
    let path = std::env::var("MC_OUT").unwrap_or_else(|_| "/dev/null".into());
    let mut file = std::io::BufWriter::with_capacity(1 << 20, std::fs::File::create(path).unwrap());
    Ctx::main("C25", |c| {
        let th = c.thorough();
        for e in calls::all() {
            if skipped(&e) {
                continue;
            }
            let mut data: Vec<u8> = vec![];
            let mut words = 0u32;
            let mut fl = vec![];
            c.sweep(e.name, |sw| {
                let mut o = Out::default();
                let mut keep: Vec<u32> = vec![];
                states(&e, th, &mut |a| {
                    o.clear();
                    set_words(a);
                    sw.state();
                    (e.call)(a, &mut o);
                    if words == 0 {
                        words = o.w.len() as u32;
                        fl = o.float.iter().map(|x| (*x && !e.bits) as u8).collect();
                    }
                    assert_eq!(words, o.w.len() as u32);
                    keep.extend_from_slice(&o.w);
                    let h = o.w.iter().fold(0u64, |h, x| (h ^ *x as u64).wrapping_mul(0x9E3779B97F4A7C15));
                    let (w, e) = (&o.w, &e);
                    sw.t(!o.corrupt, h, || (format!("{} {:08x?}", e.name, a), format!("{:08x?}", w), "guards intact".into()));
                });
                data = keep.iter().flat_map(|x| x.to_le_bytes()).collect();
            });
            let _ = file.write_all(&(e.name.len() as u32).to_le_bytes());
            let _ = file.write_all(e.name.as_bytes());
            let _ = file.write_all(&words.to_le_bytes());
            let _ = file.write_all(&fl);
            let _ = file.write_all(&(data.len() as u64).to_le_bytes());
            let _ = file.write_all(&data);
        }
        let _ = file.flush();
    });
}

struct Rec {
    words: usize,
    fl: Vec<u8>,
    data: Vec<u8>,
}
fn load(p: &str) -> std::collections::BTreeMap<String, Rec> {
    let mut r = std::collections::BTreeMap::new();
    let mut f = std::io::BufReader::with_capacity(1 << 20, std::fs::File::open(p).unwrap());
    loop {
        let mut b4 = [0u8; 4];
        if f.read_exact(&mut b4).is_err() {
            return r;
        }
        let mut name = vec![0u8; u32::from_le_bytes(b4) as usize];
        f.read_exact(&mut name).unwrap();
        f.read_exact(&mut b4).unwrap();
        let words = u32::from_le_bytes(b4) as usize;
        let mut fl = vec![0u8; words];
        f.read_exact(&mut fl).unwrap();
        let mut b8 = [0u8; 8];
        f.read_exact(&mut b8).unwrap();
        let mut data = vec![0u8; u64::from_le_bytes(b8) as usize];
        f.read_exact(&mut data).unwrap();
        r.insert(String::from_utf8(name).unwrap(), Rec { words, fl, data });
    }
}

/// (relative to the state's largest result, absolute)
fn tol(name: &str) -> (f64, f64) {
    let has = |l: &[&str]| l.iter().any(|x| name.contains(x));
    if has(&["TanEst"]) {
        return (8.0e-3, 1.0e-4);
    }
    if has(&["Est"]) {
        return (1.0e-3, 1.0e-3);
    }
    if has(&["AngleBetween"]) {
        return (1.0e-5, 2.0e-3);
    }
    if has(&["Project", "Unproject"]) {
        return (1.0e-3, 1.0e-5);
    }
    if has(&["Intersect", "BaryCentric", "CreateFromMatrix"]) {
        return (1.0e-4, 1.0e-5);
    }
    if has(&["Exp", "Pow", "SinH", "CosH", "TanH", "Cross", "FromPoints", "Decompose", "Transformation", "Determinant", "Inverse"]) {
        return (3.0e-5, 2.0e-5);
    }
    (6.0e-6, 4.0e-6)
}
/// result words the function leaves unspecified
fn unspecified(e: &Entry, i: usize) -> bool {
    // two-dimensional functions do not define z and w (results that splat a scalar are still compared in x and y)
    e.name.starts_with("XMVector2") && i >= 2 && !e.name.contains("Transform")
}
/// states outside a function's documented domain, or exactly on a decision boundary where rounding decides
fn legal(e: &Entry, a: &[u32]) -> bool {
    let mut off = vec![];
    let mut n = 0;
    for k in e.args {
        off.push(n);
        n += k.words();
    }
    let word = |i: usize| f32::from_bits(a[i]);
    let arg = |i: usize| &a[off[i]..off[i] + e.args[i].words()];
    for i in 0..e.args.len() {
        for j in i + 1..e.args.len() {
            // coinciding points and coinciding volumes are ties
            let vol = |k: K| matches!(k, K::G | K::S | K::B | K::O | K::R);
            if vol(e.args[i]) && e.args[i] == e.args[j] && arg(i) == arg(j) {
                return false;
            }
        }
    }
    match e.name {
        "XMVectorClamp" => (0..4).all(|l| word(4 + l) <= word(8 + l)),
        // not rotations
        "XMQuaternionRotationMatrix" | "XMMatrixDecompose" | "BoundingOrientedBox::TransformMatrix" | "BoundingFrustum::TransformMatrix" => {
            let m = off[e.args.len() - 1];
            let r = |i: usize, j: usize| word(m + 4 * i + j) as f64;
            let dot = |i: usize, j: usize| (0..3).map(|k| r(i, k) * r(j, k)).sum::<f64>();
            let orth = dot(0, 1).abs() < 1e-5 && dot(0, 2).abs() < 1e-5 && dot(1, 2).abs() < 1e-5;
            orth && (e.name == "XMMatrixDecompose" || (0..3).all(|i| (dot(i, i) - 1.0).abs() < 1e-5))
        }
        // negative-zero lanes, NaN and out-of-range conversions are not promised
        "XMLoadFloat3x3" => a.iter().all(|w| *w != 0x8000_0000 && !(w & 0x7f80_0000 == 0x7f80_0000 && w & 0x0040_0000 == 0 && w & 0x003f_ffff != 0)),
        "XMConvertVectorFloatToInt" | "XMConvertVectorFloatToUInt" => (0..4).all(|l| word(l).abs() < 1.0e9 / (a[4] as f32).exp2()),
        n if n.contains("NormalizeEst") || n.contains("ReciprocalLength") || n.contains("AngleBetweenVectors") => {
            let d = if n.contains('2') { 2 } else if n.contains('3') { 3 } else { 4 };
            (0..a.len() / 4).all(|v| (0..d).any(|l| word(4 * v + l) != 0.0))
        }
        _ => true,
    }
}

fn compare(pa: &str, pb: &str) {
    let (ra, rb) = (load(pa), load(pb));
    let measure = std::env::var("MC_MEASURE").is_ok();
    Ctx::main("C25", |c| {
        let th = c.thorough();
        for e in calls::all() {
            if skipped(&e) {
                continue;
            }
            c.sweep(&format!("{} agreement", e.name), |sw| {
                let (x, y) = match (ra.get(e.name), rb.get(e.name)) {
                    (Some(x), Some(y)) if x.words > 0 && y.words > 0 && x.data.len() == y.data.len() => (x, y),
                    _ => return sw.fail((e.name.into(), "no results".into(), "results".into())),
                };
                let (rel, abs) = tol(e.name);
                let mut k = 0usize;
                let (mut worst, mut wbits, mut wlane) = (0.0f64, 0u64, 0usize);
                states(&e, th, &mut |a| {
                    let k0 = k;
                    k += 1;
                    let g = |r: &Rec, i: usize| { let o = (k0 * r.words + i) * 4; u32::from_le_bytes([r.data[o], r.data[o + 1], r.data[o + 2], r.data[o + 3]]) };
                    let n = x.words;
                    let mut scale = 0.0f64;
                    for i in 0..n {
                        if x.fl[i] == 1 {
                            let f = f32::from_bits(g(x, i)) as f64;
                            if f.is_finite() { scale = scale.max(f.abs()); }
                        }
                    }
                    let mut ok = true;
                    for i in 0..n {
                        if unspecified(&e, i) {
                            continue;
                        }
                        let (p, q) = (g(x, i), g(y, i));
                        if x.fl[i] == 1 {
                            let (p, q) = (f32::from_bits(p), f32::from_bits(q));
                            if !num_eq(p, q) {
                                let d = (p as f64 - q as f64).abs() / (rel * scale + abs);
                                if !(d <= 1.0) { ok = false; }
                                let d = if d.is_nan() { f64::INFINITY } else { d };
                                if d > worst { worst = d; wlane = i; }
                            }
                        } else if p != q {
                            ok = false;
                            wbits += 1;
                        }
                    }
                    sw.state();
                    let show = |r: &Rec| (0..n).map(|i| if r.fl[i] == 1 { format!("{:?}", f32::from_bits(g(r, i))) } else { format!("{:08x}", g(r, i)) }).collect::<Vec<_>>().join(" ");
                    sw.t(ok, 0, || (format!("{} ({})", e.name, a.iter().map(|w| format!("{:08x}={:?}", w, f32::from_bits(*w))).collect::<Vec<_>>().join(" ")), show(y), format!("{} (reference configuration)", show(x))));
                });
                if measure && (worst > 0.2 || wbits > 0) {
                    eprintln!("MEASURE {:8.3} lane {} bits {} {}", worst, wlane, wbits, e.name);
                }
            });
        }
    });
}
