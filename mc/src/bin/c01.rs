//! C01: lane routing.
use mc::dom::*;
use mc::*;

fn s(x: &str, a: U4, b: U4) -> String {
    format!("{} a={} b={}", x, sv(a), sv(b))
}

// Type-level forms: all 256 swizzles and all 4096 permutes, generated by macro recursion.
macro_rules! sw_inner {
    ($v:ident, $f:ident, $(($x:ident,$xi:expr)),*; $all:tt) => { $( sw_y!($v, $f, $x, $xi, $all); )* };
}
macro_rules! sw_y { ($v:ident,$f:ident,$x:ident,$xi:expr,[$(($y:ident,$yi:expr)),*]) => { $( sw_z!($v,$f,$x,$xi,$y,$yi,[(SwizzleX,0),(SwizzleY,1),(SwizzleZ,2),(SwizzleW,3)]); )* }; }
macro_rules! sw_z { ($v:ident,$f:ident,$x:ident,$xi:expr,$y:ident,$yi:expr,[$(($z:ident,$zi:expr)),*]) => { $( sw_w!($v,$f,$x,$xi,$y,$yi,$z,$zi,[(SwizzleX,0),(SwizzleY,1),(SwizzleZ,2),(SwizzleW,3)]); )* }; }
macro_rules! sw_w { ($v:ident,$f:ident,$x:ident,$xi:expr,$y:ident,$yi:expr,$z:ident,$zi:expr,[$(($w:ident,$wi:expr)),*]) => { $( $f([$xi,$yi,$zi,$wi], <($x,$y,$z,$w) as XMVectorSwizzle>::XMVectorSwizzle as fn(XMVECTOR)->XMVECTOR); )* }; }

type PF = fn(XMVECTOR, XMVECTOR) -> XMVECTOR;
type PT = Vec<([u32; 4], PF)>;
fn route(a: U4, b: U4, e: [u32; 4]) -> U4 {
    let all = [a[0], a[1], a[2], a[3], b[0], b[1], b[2], b[3]];
    [all[e[0] as usize], all[e[1] as usize], all[e[2] as usize], all[e[3] as usize]]
}
macro_rules! for8 {
    ($m:ident $($args:tt)*) => { $m!(Permute0X $($args)*); $m!(Permute0Y $($args)*); $m!(Permute0Z $($args)*); $m!(Permute0W $($args)*);
        $m!(Permute1X $($args)*); $m!(Permute1Y $($args)*); $m!(Permute1Z $($args)*); $m!(Permute1W $($args)*); };
}
fn perm_w<X: Permute, Y: Permute, Z: Permute>(sw: &mut PT) {
    macro_rules! go { ($w:ident) => { sw.push(([X::PERMUTE, Y::PERMUTE, Z::PERMUTE, $w::PERMUTE], <(X, Y, Z, $w) as XMVectorPermute>::XMVectorPermute)); }; }
    for8!(go);
}
fn perm_z<X: Permute, Y: Permute>(sw: &mut PT) {
    macro_rules! go { ($w:ident) => { perm_w::<X, Y, $w>(sw); }; }
    for8!(go);
}
fn perm_y<X: Permute>(sw: &mut PT) {
    macro_rules! go { ($w:ident) => { perm_z::<X, $w>(sw); }; }
    for8!(go);
}
fn perm_x(sw: &mut Sweep) {
    let mut tab: PT = vec![];
    {
        let t = &mut tab;
        macro_rules! go { ($w:ident) => { perm_y::<$w>(t); }; }
        for8!(go);
    }
    assert!(tab.len() == 4096);
    for (e, f) in tab {
        for (a, b) in tag_pairs() {
            sw.state();
            let g = f(vu(a), vu(b));
            let w = route(a, b, e);
            sw.tv(ub(g) == w, g, || (s(&format!("<{:?}>", e), a, b), sv(w)));
        }
    }
}
// The specialised tuples are only selected when the concrete types are visible.
fn perm_concrete(sw: &mut Sweep) {
    macro_rules! one { ($($t:ident $i:expr),*) => {{
        let e = [$($i),*];
        for (a, b) in tag_pairs() {
            sw.state();
            let g = <($($t),*)>::XMVectorPermute(vu(a), vu(b));
            let w = route(a, b, e);
            sw.tv(ub(g) == w, g, || (s(&format!("<{:?}>", e), a, b), sv(w)));
        }
    }}; }
    one!(Permute0X 0, Permute0Y 1, Permute0Z 2, Permute0W 3);
    one!(Permute1X 4, Permute1Y 5, Permute1Z 6, Permute1W 7);
    one!(Permute0X 0, Permute0Y 1, Permute1X 4, Permute1Y 5);
    one!(Permute1Z 6, Permute1W 7, Permute0Z 2, Permute0W 3);
    one!(Permute0X 0, Permute1X 4, Permute0Y 1, Permute1Y 5);
    one!(Permute0Z 2, Permute1Z 6, Permute0W 3, Permute1W 7);
    one!(Permute0X 0, Permute0X 0, Permute1X 4, Permute1X 4);
    one!(Permute0Z 2, Permute0W 3, Permute1Z 6, Permute1W 7);
}

fn main() {
    Ctx::main("C01", |c| {
        let tags: Vec<U4> = TAGS.iter().chain(ALIKE.iter()).cloned().collect();
        c.sweep("XMVectorSwizzle", |sw| {
            for a in 0..256u32 {
                let e = [a & 3, (a >> 2) & 3, (a >> 4) & 3, a >> 6];
                for t in &tags {
                    sw.state();
                    let g = XMVectorSwizzle(vu(*t), e[0], e[1], e[2], e[3]);
                    let w = route(*t, *t, e);
                    sw.tv(ub(g) == w, g, || (s(&format!("{:?}", e), *t, *t), sv(w)));
                }
            }
        });
        c.sweep("XMVectorSwizzle trait", |sw| {
            let mut f = |e: [u32; 4], h: fn(XMVECTOR) -> XMVECTOR| {
                for t in &tags {
                    sw.state();
                    let g = h(vu(*t));
                    let w = route(*t, *t, e);
                    sw.tv(ub(g) == w, g, || (s(&format!("<{:?}>", e), *t, *t), sv(w)));
                }
            };
            sw_inner!(v, f, (SwizzleX,0),(SwizzleY,1),(SwizzleZ,2),(SwizzleW,3); [(SwizzleX,0),(SwizzleY,1),(SwizzleZ,2),(SwizzleW,3)]);
        });
        c.sweep("XMVectorPermute", |sw| {
            for a in 0..4096u32 {
                let e = [a & 7, (a >> 3) & 7, (a >> 6) & 7, a >> 9];
                for (x, y) in tag_pairs() {
                    sw.state();
                    let g = XMVectorPermute(vu(x), vu(y), e[0], e[1], e[2], e[3]);
                    let w = route(x, y, e);
                    sw.tv(ub(g) == w, g, || (s(&format!("{:?}", e), x, y), sv(w)));
                }
            }
        });
        c.sweep("XMVectorPermute trait", perm_x);
        c.sweep("XMVectorPermute trait concrete", perm_concrete);
        c.sweep("XMVectorSelectControl", |sw| {
            for a in 0..16u32 {
                let e = [a & 1, (a >> 1) & 1, (a >> 2) & 1, a >> 3];
                sw.state();
                let g = XMVectorSelectControl(e[0], e[1], e[2], e[3]);
                let w = [e[0].wrapping_neg(), e[1].wrapping_neg(), e[2].wrapping_neg(), e[3].wrapping_neg()];
                sw.tv(ub(g) == w, g, || (format!("{:?}", e), sv(w)));
            }
        });
        c.sweep("XMVectorSelect", |sw| {
            let p = patterns();
            for (x, y) in tag_pairs() {
                let mut chk = |ctl: U4| {
                    sw.state();
                    let g = XMVectorSelect(vu(x), vu(y), vu(ctl));
                    let mut w = [0; 4];
                    for i in 0..4 {
                        w[i] = (x[i] & !ctl[i]) | (y[i] & ctl[i]);
                    }
                    sw.tv(ub(g) == w, g, || (format!("{} ctl={}", s("", x, y), sv(ctl)), sv(w)));
                };
                all4(&p[..8], |ctl| chk(ctl));
                for &q in &p {
                    for l in 0..4 {
                        let mut ctl = [0xffffffff, 0, 0xffffffff, 0];
                        ctl[l] = q;
                        chk(ctl);
                    }
                }
                for b in 0..32 {
                    chk([1 << b, !(1 << b), 1u32.rotate_left(31 - b), 3u32.rotate_left(b)]);
                }
            }
        });
        c.sweep("XMVectorMergeXY/ZW", |sw| {
            for x in &tags {
                for y in &tags {
                    sw.state();
                    let g = XMVectorMergeXY(vu(*x), vu(*y));
                    let w = [x[0], y[0], x[1], y[1]];
                    sw.tv(ub(g) == w, g, || (s("XY", *x, *y), sv(w)));
                    let g = XMVectorMergeZW(vu(*x), vu(*y));
                    let w = [x[2], y[2], x[3], y[3]];
                    sw.tv(ub(g) == w, g, || (s("ZW", *x, *y), sv(w)));
                }
            }
        });
        c.sweep("XMVectorShiftLeft", |sw| {
            for x in &tags {
                for y in &tags {
                    for n in 0..4u32 {
                        sw.state();
                        let g = XMVectorShiftLeft(vu(*x), vu(*y), n);
                        let w = route(*x, *y, [n, n + 1, n + 2, n + 3]);
                        sw.tv(ub(g) == w, g, || (s(&format!("n={}", n), *x, *y), sv(w)));
                    }
                }
            }
        });
        c.sweep("XMVectorRotateLeft/Right", |sw| {
            for x in &tags {
                for n in 0..4u32 {
                    sw.state();
                    let g = XMVectorRotateLeft(vu(*x), n);
                    let w = route(*x, *x, [n, n + 1, n + 2, n + 3]);
                    sw.tv(ub(g) == w, g, || (s(&format!("L n={}", n), *x, *x), sv(w)));
                    let g = XMVectorRotateRight(vu(*x), n);
                    let w = route(*x, *x, [4 - n, 5 - n, 6 - n, 7 - n]);
                    sw.tv(ub(g) == w, g, || (s(&format!("R n={}", n), *x, *x), sv(w)));
                }
            }
        });
        c.sweep("XMVectorInsert", |sw| {
            for x in &tags {
                for y in &tags {
                    for n in 0..4u32 {
                        for a in 0..16u32 {
                            let e = [a & 1, (a >> 1) & 1, (a >> 2) & 1, a >> 3];
                            sw.state();
                            let g = XMVectorInsert(vu(*x), vu(*y), n, e[0], e[1], e[2], e[3]);
                            let r = route(*y, *y, [n, n + 1, n + 2, n + 3]);
                            let mut w = *x;
                            for i in 0..4 {
                                if e[i] != 0 {
                                    w[i] = r[i];
                                }
                            }
                            sw.tv(ub(g) == w, g, || (s(&format!("n={} sel={:?}", n, e), *x, *y), sv(w)));
                        }
                    }
                }
            }
        });
        c.sweep("XMVectorSplatX/Y/Z/W", |sw| {
            for x in &tags {
                sw.state();
                let fs: [fn(XMVECTOR) -> XMVECTOR; 4] = [|v| XMVectorSplatX(v), |v| XMVectorSplatY(v), |v| XMVectorSplatZ(v), |v| XMVectorSplatW(v)];
                for i in 0..4 {
                    let g = fs[i](vu(*x));
                    let w = [x[i]; 4];
                    sw.tv(ub(g) == w, g, || (s(&format!("lane {}", i), *x, *x), sv(w)));
                }
            }
        });
        // Sequences: every composition of two routing steps from every start tag (machine state = lane contents).
        let mut seqs = 0;
        c.sweep("routing sequences (BFS)", |sw| {
            use std::collections::{HashSet, VecDeque};
            type St = (U4, U4);
            let mut seen: HashSet<St> = HashSet::new();
            let mut q: VecDeque<(St, u32)> = VecDeque::new();
            let s0 = (TAGS[0], TAGS[2]);
            seen.insert(s0);
            q.push_back((s0, 0));
            let depth = if sw.tier == Tier::Thorough { 4 } else { 3 };
            while let Some(((a, b), d)) = q.pop_front() {
                sw.state();
                if d >= depth {
                    continue;
                }
                let (va, vb) = (vu(a), vu(b));
                let rt = |e: [u32; 4]| route(a, b, e);
                let steps: [(&str, XMVECTOR, XMVECTOR, U4, U4); 9] = [
                    ("swap", vb, va, b, a),
                    ("mergeXY", XMVectorMergeXY(va, vb), vb, rt([0, 4, 1, 5]), b),
                    ("mergeZW", va, XMVectorMergeZW(va, vb), a, rt([2, 6, 3, 7])),
                    ("shl1", XMVectorShiftLeft(va, vb, 1), vb, rt([1, 2, 3, 4]), b),
                    ("rotr1", va, XMVectorRotateRight(vb, 1), a, rt([7, 4, 5, 6])),
                    ("ins", XMVectorInsert(va, vb, 2, 0, 1, 0, 1), vb, rt([0, 7, 2, 5]), b),
                    ("perm", XMVectorPermute(va, vb, 7, 0, 5, 2), vb, rt([7, 0, 5, 2]), b),
                    ("swz", XMVectorSwizzle(va, 3, 1, 2, 0), vb, rt([3, 1, 2, 0]), b),
                    ("sel", va, XMVectorSelect(va, vb, XMVectorSelectControl(1, 0, 0, 1)), a, rt([4, 1, 2, 7])),
                ];
                for (n, ga, gb, wa, wb) in steps {
                    sw.t(ub(ga) == wa && ub(gb) == wb, h4(ub(ga)), || (s(n, a, b), format!("{} {}", sv(ub(ga)), sv(ub(gb))), format!("{} {}", sv(wa), sv(wb))));
                    seqs += 1;
                    if seen.insert((wa, wb)) {
                        q.push_back(((wa, wb), d + 1));
                    }
                }
            }
        });
        c.seqs += seqs;
    });
}
