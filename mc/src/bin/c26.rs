//! C26: every public function returns normally, stays inside its out-parameters and depends on nothing but its
//! operands, whatever the operand lanes contain. Deviation-bounded exhaustive enumeration: from each base
//! state, every way to replace up to two operand words by special values, and every way to flood whole operands.
use mc::*;
#[path = "../calls.rs"]
#[allow(unused, clippy::all)]
mod calls;
use calls::*;

/// Overwrites dead stack, so that a result computed from uninitialised memory changes between two calls.
#[inline(never)]
fn scrub(p: u32) {
    let mut a = [0u32; 768];
    for x in a.iter_mut() {
        unsafe { std::ptr::write_volatile(x, p) };
    }
    std::hint::black_box(&a);
}

/// Functions whose documented preconditions (unit length, non-zero width, ordered bounds, ...) are asserted in debug builds:
/// arbitrary lanes are outside their domain there. In release builds they take part like all the others.
const ASSERTED: &[&str] = &[
    "BoundingBox::ContainsFrustum", "BoundingBox::ContainsOrientedBox", "BoundingBox::ContainsTriangle", "BoundingBox::CreateFromSphere",
    "BoundingBox::CreateMerged", "BoundingBox::IntersectsFrustum", "BoundingBox::IntersectsOrientedBox", "BoundingBox::IntersectsPlane",
    "BoundingBox::IntersectsRay", "BoundingBox::IntersectsTriangle", "BoundingBox::TransformDecomposed", "BoundingFrustum::ContainedBy",
    "BoundingFrustum::ContainsFrustum", "BoundingFrustum::ContainsOrientedBox", "BoundingFrustum::ContainsPoint", "BoundingFrustum::GetCorners",
    "BoundingFrustum::IntersectsBox", "BoundingFrustum::IntersectsFrustum", "BoundingFrustum::IntersectsOrientedBox",
    "BoundingFrustum::IntersectsPlane", "BoundingFrustum::IntersectsRay", "BoundingFrustum::IntersectsSphere", "BoundingFrustum::IntersectsTriangle",
    "BoundingFrustum::TransformDecomposed", "BoundingFrustum::TransformMatrix", "BoundingOrientedBox::ContainedBy",
    "BoundingOrientedBox::ContainsBox", "BoundingOrientedBox::ContainsFrustum", "BoundingOrientedBox::ContainsOrientedBox",
    "BoundingOrientedBox::ContainsSphere", "BoundingOrientedBox::ContainsTriangle", "BoundingOrientedBox::GetCorners",
    "BoundingOrientedBox::IntersectsBox", "BoundingOrientedBox::IntersectsFrustum", "BoundingOrientedBox::IntersectsOrientedBox",
    "BoundingOrientedBox::IntersectsPlane", "BoundingOrientedBox::IntersectsRay", "BoundingOrientedBox::IntersectsSphere",
    "BoundingOrientedBox::IntersectsTriangle", "BoundingOrientedBox::TransformDecomposed", "BoundingOrientedBox::TransformMatrix",
    "BoundingSphere::ContainsFrustum", "BoundingSphere::ContainsOrientedBox", "BoundingSphere::ContainsTriangle", "BoundingSphere::CreateFromFrustum",
    "BoundingSphere::IntersectsFrustum", "BoundingSphere::IntersectsOrientedBox", "BoundingSphere::IntersectsPlane", "BoundingSphere::IntersectsRay",
    "BoundingSphere::IntersectsTriangle", "XMFresnelTerm", "XMMatrixLookAtLH", "XMMatrixLookAtRH", "XMMatrixLookToLH", "XMMatrixLookToRH",
    "XMMatrixOrthographicLH", "XMMatrixOrthographicRH", "XMMatrixPerspectiveFovLH", "XMMatrixPerspectiveFovRH", "XMMatrixPerspectiveLH",
    "XMMatrixPerspectiveOffCenterLH", "XMMatrixPerspectiveOffCenterRH", "XMMatrixPerspectiveRH", "XMMatrixReflect", "XMMatrixRotationAxis",
    "XMMatrixShadow", "XMQuaternionBaryCentric", "XMQuaternionBaryCentricV", "XMQuaternionRotationAxis", "XMQuaternionSlerp", "XMQuaternionSlerpV",
    "XMQuaternionSquad", "XMQuaternionSquadV", "XMVector2ClampLength", "XMVector2ClampLengthV", "XMVector4ClampLength", "XMVector4ClampLengthV",
    "XMVectorClamp", "triangle_tests::IntersectsPlane", "triangle_tests::IntersectsRay", "triangle_tests::IntersectsTriangle",
];
/// In a debug build: functions with asserted preconditions, or with an operand that could carry one, are left out.
fn left_out(e: &Entry) -> bool {
    cfg!(debug_assertions) && (ASSERTED.contains(&e.name) || e.args.iter().any(|k| matches!(k, K::O | K::R | K::Q | K::N2 | K::N3 | K::N4 | K::P)))
}

struct Run<'a, 'b> {
    e: &'a Entry,
    sw: &'a mut Sweep<'b>,
    o1: Out,
    o2: Out,
}
impl<'a, 'b> Run<'a, 'b> {
    fn go(&mut self, a: &[u32]) {
        self.sw.state();
        self.o1.clear();
        self.o2.clear();
        scrub(0x7fc0_0001);
        (self.e.call)(a, &mut self.o1);
        scrub(0x4249_0fdb);
        (self.e.call)(a, &mut self.o2);
        let ok = !self.o1.corrupt && !self.o2.corrupt && self.o1.w == self.o2.w;
        let h = self.o1.w.iter().fold(0u64, |h, x| (h ^ *x as u64).wrapping_mul(0x9E3779B97F4A7C15));
        let (e, o1, o2) = (self.e, &self.o1, &self.o2);
        self.sw.t(ok, h, || {
            (format!("{} words {:08x?}", e.name, a), format!("first call {:08x?} second call {:08x?} guards intact {}", o1.w, o2.w, !(o1.corrupt | o2.corrupt)), "the same result twice, guards intact".into())
        });
    }
}

fn main() {
    Ctx::main("C26", |c| {
        let th = c.thorough();
        let small: Vec<u32> = [0.0f32, f32::from_bits(1), 1.0e-20, -1.0, 1.0e20, f32::MAX, f32::NEG_INFINITY, f32::NAN].iter().map(|x| x.to_bits()).collect();
        let single: Vec<u32> = dom::specials_nan().iter().map(|x| x.to_bits()).chain(dom::patterns()).collect();
        for e in calls::all() {
            if left_out(&e) {
                continue;
            }
            c.sweep(e.name, |sw| {
                let menus: Vec<Vec<Vec<u32>>> = e.args.iter().map(|k| menu(*k)).collect();
                let mut offs = vec![];
                let mut n = 0;
                for k in e.args {
                    offs.push(n);
                    n += k.words();
                }
                let free: Vec<usize> = e.args.iter().enumerate().filter(|(_, k)| k.free()).flat_map(|(i, k)| offs[i]..offs[i] + k.words()).collect();
                let put = |a: &mut Vec<u32>, i: usize, v: &[u32]| a[offs[i]..offs[i] + v.len()].copy_from_slice(v);
                let nb = if th { 6 } else if n > 24 { 2 } else { 3 };
                let mut r = Run { e: &e, sw, o1: Out::default(), o2: Out::default() };
                for bno in 0..nb {
                    let mut base = vec![0u32; n];
                    for (i, m) in menus.iter().enumerate() {
                        put(&mut base, i, &m[(bno * 5 + i * 3) % m.len()]);
                    }
                    if bno == nb - 1 {
                        // the all-zero state
                        for w in &free { base[*w] = 0; }
                    }
                    set_words(&base);
                    r.go(&base);
                    // every ordinary value of every operand, pairs of operands for indices
                    for (i, m) in menus.iter().enumerate() {
                        for v in m {
                            let mut a = base.clone();
                            put(&mut a, i, v);
                            set_words(&a);
                            r.go(&a);
                        }
                    }
                    // one special word
                    for w in &free {
                        for s in &single {
                            let mut a = base.clone();
                            a[*w] = if e.args.contains(&K::H) { *s & 0xffff } else { *s };
                            set_words(&a);
                            r.go(&a);
                        }
                    }
                    // every exponent, both signs, alone in each word and flooding each operand (shift counts, loops and
                    // integer conversions inside the library depend on the exponent)
                    if bno == 0 || free.len() <= 2 {
                        let man: &[u32] = if free.len() <= 2 || th { &[0, 1, 0x1000, 0x200000, 0x400000, 0x7fe000, 0x7fffff] } else { &[0, 0x59_999a] };
                        for ex in 0..=255u32 {
                            for sg in [0u32, 0x8000_0000] {
                                for m in man {
                                    let s = sg | ex << 23 | m;
                                    for w in &free {
                                        let mut a = base.clone();
                                        a[*w] = s;
                                        set_words(&a);
                                        r.go(&a);
                                    }
                                    for i in 0..e.args.len() {
                                        if !e.args[i].free() || e.args[i].words() == 1 { continue; }
                                        let mut a = base.clone();
                                        put(&mut a, i, &vec![s; e.args[i].words()]);
                                        set_words(&a);
                                        r.go(&a);
                                    }
                                }
                            }
                        }
                    }
                    if bno == 0 && free.len() == 1 && e.args.contains(&K::H) {
                        for h in 0..=0xffffu32 {
                            let mut a = base.clone();
                            a[free[0]] = h;
                            set_words(&a);
                            r.go(&a);
                        }
                    }
                    // two special words
                    for (x, w) in free.iter().enumerate() {
                        for w2 in &free[x + 1..] {
                            for s in &small {
                                for s2 in &small {
                                    let mut a = base.clone();
                                    a[*w] = *s;
                                    a[*w2] = *s2;
                                    set_words(&a);
                                    r.go(&a);
                                }
                            }
                        }
                    }
                    if th && free.len() <= 24 {
                        for (x, w) in free.iter().enumerate() {
                            for (y, w2) in free.iter().enumerate().skip(x + 1) {
                                for w3 in &free[y + 1..] {
                                    for s in &small { for s2 in &small { for s3 in &small {
                                        let mut a = base.clone();
                                        a[*w] = *s;
                                        a[*w2] = *s2;
                                        a[*w3] = *s3;
                                        set_words(&a);
                                        r.go(&a);
                                    } } }
                                }
                            }
                        }
                    }
                    // whole operands flooded with one value, alone and in pairs
                    for i in 0..e.args.len() {
                        for j in i..e.args.len() {
                            if !e.args[i].free() || !e.args[j].free() || e.args.contains(&K::H) { continue; }
                            for s in &single {
                                for s2 in &small {
                                    let mut a = base.clone();
                                    put(&mut a, j, &vec![*s2; e.args[j].words()]);
                                    put(&mut a, i, &vec![*s; e.args[i].words()]);
                                    set_words(&a);
                                    r.go(&a);
                                }
                            }
                        }
                    }
                }
            });
        }
    });
}
