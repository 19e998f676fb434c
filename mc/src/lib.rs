//! Explicit-state enumeration framework.
//!
//! A check is a set of *sweeps*. A sweep enumerates a finite domain of model states (operand tuples,
//! or machine states found by breadth-first search) completely; for every state it takes one
//! transition in the real implementation and one in the reference model and compares the results.
#![allow(non_snake_case, clippy::all)]
pub use directx_math::collision::*;
pub use directx_math::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;

pub type U4 = [u32; 4];
pub type F4 = [f32; 4];
pub type M4 = [[f32; 4]; 4];
pub type D3 = [f64; 3];
pub type D4 = [f64; 4];
pub type DM = [[f64; 4]; 4];

// Independent of the library's own load/store functions.
#[repr(C, align(16))]
#[derive(Clone, Copy)]
struct A16<T>(T);

#[inline(always)]
pub fn vu(x: U4) -> XMVECTOR {
    unsafe { *(&A16(x) as *const A16<U4> as *const XMVECTOR) }
}
#[inline(always)]
pub fn vf(x: F4) -> XMVECTOR {
    unsafe { *(&A16(x) as *const A16<F4> as *const XMVECTOR) }
}
#[inline(always)]
pub fn ub(v: XMVECTOR) -> U4 {
    unsafe { *(&v as *const XMVECTOR as *const U4) }
}
#[inline(always)]
pub fn fb(v: XMVECTOR) -> F4 {
    unsafe { *(&v as *const XMVECTOR as *const F4) }
}
#[inline(always)]
pub fn mf(x: M4) -> XMMATRIX {
    unsafe { *(&A16(x) as *const A16<M4> as *const XMMATRIX) }
}
#[inline(always)]
pub fn mb(m: XMMATRIX) -> M4 {
    unsafe { *(&m as *const XMMATRIX as *const M4) }
}
pub fn f3(x: [f32; 3]) -> XMFLOAT3 {
    XMFLOAT3 { x: x[0], y: x[1], z: x[2] }
}
pub fn a3(x: &XMFLOAT3) -> [f32; 3] {
    [x.x, x.y, x.z]
}
pub fn v3w(x: [f32; 3], w: f32) -> XMVECTOR {
    vf([x[0], x[1], x[2], w])
}
pub fn ubits(x: F4) -> U4 {
    [x[0].to_bits(), x[1].to_bits(), x[2].to_bits(), x[3].to_bits()]
}

#[inline(always)]
pub fn num_eq(a: f32, b: f32) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
/// |got - want| <= abs + rel*|want|; NaN matches NaN, infinities match exactly.
#[inline(always)]
pub fn close(got: f32, want: f64, rel: f64, abs: f64) -> bool {
    if want.is_nan() {
        return got.is_nan();
    }
    if want.is_infinite() {
        return got as f64 == want;
    }
    let d = (got as f64 - want).abs();
    d <= abs + rel * want.abs()
}
pub fn close_n(got: &[f32], want: &[f64], rel: f64, abs: f64) -> bool {
    got.iter().zip(want).all(|(g, w)| close(*g, *w, rel, abs))
}
pub fn close_m(got: &M4, want: &DM, rel: f64, abs: f64) -> bool {
    (0..4).all(|i| close_n(&got[i], &want[i], rel, abs))
}
pub fn eq_m(got: &M4, want: &DM) -> bool {
    (0..4).all(|i| (0..4).all(|j| got[i][j] as f64 == want[i][j]))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default, Clone)]
pub struct OpStat {
    pub states: u64,
    pub transitions: u64,
    pub fails: u64,
    pub outcomes: u64,
    pub panicked: bool,
}

pub struct Viol {
    pub op: String,
    pub input: String,
    pub got: String,
    pub want: String,
}

pub struct Ctx {
    pub prop: &'static str,
    pub config: String,
    pub tier: Tier,
    filter: Option<String>,
    ops: BTreeMap<String, OpStat>,
    viols: Vec<Viol>,
    samples: Vec<String>,
    notes: Vec<String>,
    pub seqs: u64,
}

pub const MAX_VIOL_PER_OP: u64 = 3;

pub struct Sweep<'a> {
    pub name: &'a str,
    pub st: OpStat,
    bloom: [u64; 64],
    viols: &'a mut Vec<Viol>,
    samples: &'a mut Vec<String>,
    pub tier: Tier,
    nsample: u32,
}

#[inline(always)]
pub fn h4(x: U4) -> u64 {
    let a = (x[0] as u64) | ((x[1] as u64) << 32);
    let b = (x[2] as u64) | ((x[3] as u64) << 32);
    (a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xC2B2AE3D27D4EB4F)).wrapping_mul(0xFF51AFD7ED558CCD)
}

impl<'a> Sweep<'a> {
    /// A new model state (operand tuple) has been enumerated.
    #[inline(always)]
    pub fn state(&mut self) {
        self.st.states += 1;
    }
    #[inline(always)]
    pub fn outcome(&mut self, h: u64) {
        let k = (h >> 52) as usize & 4095;
        self.bloom[k >> 6] |= 1 << (k & 63);
    }
    /// One transition: the implementation's observation agreed with the model or not.
    #[inline(always)]
    pub fn t(&mut self, ok: bool, h: u64, detail: impl Fn() -> (String, String, String)) {
        self.st.transitions += 1;
        self.outcome(h);
        if !ok {
            self.fail(detail());
        } else if self.nsample < 1 && self.samples.len() < 24 {
            self.sample(detail());
        }
    }
    #[inline(always)]
    pub fn tv(&mut self, ok: bool, got: XMVECTOR, detail: impl Fn() -> (String, String)) {
        let g = ub(got);
        self.t(ok, h4(g), || {
            let (i, w) = detail();
            (i, sv(g), w)
        });
    }
    /// transition counted without recording (bulk)
    #[inline(always)]
    pub fn ok(&mut self) {
        self.st.transitions += 1;
    }
    #[cold]
    fn sample(&mut self, d: (String, String, String)) {
        self.nsample += 1;
        let s = format!("{} ({}) -> {}", self.name, d.0, d.1);
        self.samples.push(s.chars().take(300).collect());
    }
    #[cold]
    pub fn fail(&mut self, d: (String, String, String)) {
        self.st.fails += 1;
        if self.st.fails <= MAX_VIOL_PER_OP {
            self.viols.push(Viol { op: self.name.to_string(), input: d.0, got: d.1, want: d.2 });
        }
    }
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
    static CUR: std::cell::RefCell<String> = std::cell::RefCell::new(String::new());
}
thread_local! { static CURW: std::cell::RefCell<Vec<u32>> = std::cell::RefCell::new(vec![]); }
/// The same for raw operand words; formatted only when needed.
#[inline]
pub fn set_words(a: &[u32]) {
    CURW.with(|c| {
        let mut c = c.borrow_mut();
        c.clear();
        c.extend_from_slice(a);
    });
}
/// Remember what is about to be evaluated (shown if it panics).
pub fn at(s: impl FnOnce() -> String) {
    CUR.with(|c| *c.borrow_mut() = s());
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

pub fn sv(u: U4) -> String {
    format!(
        "[{:?} {:?} {:?} {:?}|{:08x} {:08x} {:08x} {:08x}]",
        f32::from_bits(u[0]), f32::from_bits(u[1]), f32::from_bits(u[2]), f32::from_bits(u[3]), u[0], u[1], u[2], u[3]
    )
}
pub fn sf(f: F4) -> String {
    sv(ubits(f))
}
pub fn sm(m: &M4) -> String {
    format!("{:?}", m)
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn note(&mut self, s: String) {
        self.notes.push(s);
    }
    pub fn sweep(&mut self, name: &str, f: impl FnOnce(&mut Sweep)) {
        if let Some(flt) = &self.filter {
            if flt != name {
                return;
            }
        }
        println!("BEGIN {}", name);
        let mut sw = Sweep {
            name,
            st: OpStat::default(),
            bloom: [0; 64],
            viols: &mut self.viols,
            samples: &mut self.samples,
            tier: self.tier,
            nsample: 0,
        };
        CUR.with(|c| c.borrow_mut().clear());
        CURW.with(|c| c.borrow_mut().clear());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut sw)));
        if r.is_err() {
            let msg = LAST_PANIC.with(|p| p.borrow().clone());
            let mut cur = CUR.with(|p| p.borrow().clone());
            CURW.with(|w| {
                if !w.borrow().is_empty() {
                    let _ = write!(cur, " words {:08x?}", w.borrow());
                }
            });
            sw.st.panicked = true;
            let n = sw.st.states;
            sw.fail((format!("state #{} {}", n, cur), format!("panic: {}", msg), "normal return".into()));
        }
        sw.st.outcomes = sw.bloom.iter().map(|b| b.count_ones() as u64).sum();
        let st = sw.st.clone();
        let e = self.ops.entry(name.to_string()).or_default();
        e.states += st.states;
        e.transitions += st.transitions;
        e.fails += st.fails;
        e.outcomes = e.outcomes.max(st.outcomes);
        e.panicked |= st.panicked;
    }
    /// Runs a check and prints its machine-readable report.
    pub fn main(prop: &'static str, f: impl FnOnce(&mut Ctx)) {
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let config = std::env::var("MC_CONFIG").unwrap_or_else(|_| "unknown".into());
        let filter = std::env::var("MC_ONLY").ok().filter(|s| !s.is_empty());
        std::panic::set_hook(Box::new(|i| {
            LAST_PANIC.with(|p| *p.borrow_mut() = format!("{}", i).replace('\n', " "));
        }));
        let t0 = std::time::Instant::now();
        let mut c = Ctx { prop, config, tier, filter, ops: BTreeMap::new(), viols: vec![], samples: vec![], notes: vec![], seqs: 0 };
        f(&mut c);
        let mut o = String::new();
        let _ = write!(o, "{{\"property\":\"{}\",\"config\":\"{}\",\"wall_s\":{:.3},\"seqs\":{},\"ops\":{{", c.prop, c.config, t0.elapsed().as_secs_f64(), c.seqs);
        for (i, (k, v)) in c.ops.iter().enumerate() {
            let _ = write!(
                o, "{}\"{}\":{{\"states\":{},\"transitions\":{},\"fails\":{},\"outcomes\":{},\"panicked\":{}}}",
                if i > 0 { "," } else { "" }, esc(k), v.states, v.transitions, v.fails, v.outcomes, v.panicked
            );
        }
        o.push_str("},\"violations\":[");
        for (i, v) in c.viols.iter().enumerate() {
            let _ = write!(
                o, "{}{{\"op\":\"{}\",\"input\":\"{}\",\"got\":\"{}\",\"want\":\"{}\"}}",
                if i > 0 { "," } else { "" }, esc(&v.op), esc(&v.input), esc(&v.got), esc(&v.want)
            );
        }
        o.push_str("],\"samples\":[");
        for (i, v) in c.samples.iter().enumerate() {
            let _ = write!(o, "{}\"{}\"", if i > 0 { "," } else { "" }, esc(v));
        }
        o.push_str("],\"notes\":[");
        for (i, v) in c.notes.iter().enumerate() {
            let _ = write!(o, "{}\"{}\"", if i > 0 { "," } else { "" }, esc(v));
        }
        o.push_str("]}");
        println!("RESULT {}", o);
    }
}

pub mod dom;
pub mod geo;
pub mod refm;
