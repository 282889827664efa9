//! SMT back ends.  Queries are conjunctions of width-1 terms.
//! Order of attack: result cache, (1) sound real relaxation with rounding-error variables (z3, linear/nonlinear
//! arithmetic), (2) bit-precise QF_FPBV (z3), (3) bit-precise portfolio (z3 variants and cvc5 in parallel).
//! libm functions are uninterpreted with range and monotonicity axioms, refined against the host libm (CEGAR).
use crate::icp;
use crate::term::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::{Duration, Instant};

pub enum Res { Sat(Model), Unsat, Unknown }

#[derive(Default, Clone)]
pub struct Stats { pub queries: u64, pub cache_hits: u64, pub sat: u64, pub unsat: u64, pub unknown: u64, pub by_real: u64, pub by_bits: u64, pub by_portfolio: u64, pub cegar: u64, pub solver_s: f64, pub max_query_s: f64, pub confirmed_sat: u64, pub by_icp: u64, pub icp_s: f64, pub icp_asked: u64, pub icp_agreed: u64, pub range_tests: u64 }

struct Proc { child: Child, stdin: ChildStdin, rx: Receiver<String> }

fn spawn(cmd: &str, args: &[&str]) -> Proc {
    let mut child = Command::new(cmd).args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap_or_else(|e| panic!("cannot start {cmd}: {e}"));
    let stdin = child.stdin.take().unwrap();
    let out = child.stdout.take().unwrap();
    let (tx, rx) = channel();
    std::thread::spawn(move || { let mut r = BufReader::new(out); let mut l = String::new(); loop { l.clear(); match r.read_line(&mut l) { Ok(0) | Err(_) => break, Ok(_) => { if tx.send(l.trim_end().to_string()).is_err() { break; } } } } });
    Proc { child, stdin, rx }
}
impl Drop for Proc { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }

pub struct Solver {
    z3: Option<Proc>, pub z3cmd: String, pub z3alt: String, pub cvc5: String,
    cache: HashMap<Vec<T>, Option<Model>>, // None = unsat
    ev: Evaluator,
    pub st: Stats,
    pub quick_ms: u64, pub real_ms: u64, pub hard_ms: u64, pub use_real: bool,
    pub last_unknown: String, pub dump: Option<String>, pub use_icp: bool, pub icp_boxes: usize, pub recheck: u64, pub recheck_step: u64, pub selftest: bool, pub real_first_min: usize,
}

// ---- exact decimal rendering of floats ----
fn big_shl(mut v: Vec<u32>, n: u32) -> Vec<u32> { // base 1e9 little endian times 2^n
    let mut n = n; while n > 0 { let s = n.min(28); let mut c = 0u64; for d in v.iter_mut() { let x = ((*d as u64) << s) + c; *d = (x % 1_000_000_000) as u32; c = x / 1_000_000_000; } while c > 0 { v.push((c % 1_000_000_000) as u32); c /= 1_000_000_000; } n -= s; } v
}
fn big_str(v: &[u32]) -> String { let mut s = String::new(); for (i, d) in v.iter().rev().enumerate() { if i == 0 { s += &d.to_string(); } else { s += &format!("{:09}", d); } } s }
fn big_from(mut x: u64) -> Vec<u32> { let mut v = vec![]; if x == 0 { v.push(0); } while x > 0 { v.push((x % 1_000_000_000) as u32); x /= 1_000_000_000; } v }
pub fn irat(x: i128) -> String { if x < 0 { format!("(- {}.0)", x.unsigned_abs()) } else { format!("{}.0", x) } }
pub fn rat(x: f64) -> String {
    if x == 0.0 { return "0.0".into(); }
    let b = x.abs().to_bits(); let e = (b >> 52) as i32; let m = b & ((1u64 << 52) - 1);
    let (mut m, mut e) = if e == 0 { (m, -1074) } else { (m | (1u64 << 52), e - 1075) };
    let tz = m.trailing_zeros(); m >>= tz; e += tz as i32;
    let s = if e >= 0 { format!("{}.0", big_str(&big_shl(big_from(m), e as u32))) } else { format!("(/ {}.0 {}.0)", m, big_str(&big_shl(vec![1], (-e) as u32))) };
    if x < 0.0 { format!("(- {})", s) } else { s }
}

fn bvlit(v: u128, w: u16) -> String { if w % 4 == 0 { format!("#x{:0width$x}", v & mask(w), width = (w / 4) as usize) } else { format!("#b{:0width$b}", v & mask(w), width = w as usize) } }
fn fmt(w: u16) -> (&'static str, u32, u32) { if w == 32 { ("(_ FloatingPoint 8 24)", 8, 24) } else { ("(_ FloatingPoint 11 53)", 11, 53) } }
fn fplit(v: u128, w: u16) -> String { let (_, e, m) = fmt(w); format!("((_ to_fp {} {}) {})", e, m, bvlit(v, w)) }

fn is_fp_op(o: Op) -> bool { matches!(o, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem | Op::FSqrt | Op::FMin | Op::FMax | Op::FFma | Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRint | Op::FRound | Op::FExt | Op::FNarrow | Op::SToF | Op::UToF | Op::Uf) }
fn monotone(n: &str) -> Option<bool> { match n { "exp" | "exp2" | "log" | "log2" | "log10" | "tanh" | "atan" | "sinh" | "cbrt" | "expm1" | "log1p" => Some(true), _ => None } }

/// Bit-precise script.  Returns (script, variables with their get-value expression).
pub struct UfLemma { pub app: T, pub args: [u128; 2], pub val: u128 }

fn emit_bits(tm: &Tm, roots: &[T], lemmas: &[UfLemma], produce: bool) -> (String, Vec<(u32, String)>) {
    let mut s = String::with_capacity(4096);
    let mut all: Vec<T> = roots.to_vec();
    for l in lemmas { all.push(l.app); }
    let cone = tm.cone(&all);
    let mut need: HashMap<T, u8> = HashMap::new();
    for &r in roots { *need.entry(r).or_insert(0) |= 1; }
    for l in lemmas { *need.entry(l.app).or_insert(0) |= 2; }
    for &t in cone.iter().rev() {
        let nd = *need.get(&t).unwrap_or(&1);
        let n = tm.n[t as usize];
        let mut add = |c: T, v: u8| { *need.entry(c).or_insert(0) |= v; };
        match n.op {
            Op::Const | Op::Var => {}
            Op::FNeg | Op::FAbs => add(n.a, nd),
            Op::Ite => { add(n.a, 1); add(n.b, nd); add(n.c, nd); }
            Op::SToF | Op::UToF => add(n.a, 1),
            Op::FEq | Op::FLt | Op::FLe | Op::FNan | Op::FToS | Op::FToU | Op::FToSSat | Op::FToUSat => { let (ch, k) = tm.children(t); for &c in &ch[..k] { add(c, 2); } }
            o if is_fp_op(o) => { let (ch, k) = tm.children(t); for &c in &ch[..k] { add(c, 2); } }
            _ => { let (ch, k) = tm.children(t); for &c in &ch[..k] { add(c, 1); } }
        }
    }
    if produce { s.push_str("(set-option :produce-models true)\n"); }
    let mut vars = vec![];
    let mut aux = String::new();
    let mut ufs: Vec<T> = vec![];
    for &t in &cone {
        let nd = *need.get(&t).unwrap_or(&1);
        let n = tm.n[t as usize];
        let w = n.w;
        let sort = |w: u16| if w == 1 { "Bool".to_string() } else { format!("(_ BitVec {})", w) };
        let b = |x: T| { let nn = &tm.n[x as usize]; if nn.op == Op::Const { if nn.w == 1 { (if nn.k != 0 { "true" } else { "false" }).to_string() } else { bvlit(nn.k, nn.w) } } else { format!("b{}", x) } };
        // bit-vector view of a possibly boolean child
        let bb = |x: T| { if tm.n[x as usize].w == 1 { let c = b(x); format!("(ite {} #b1 #b0)", c) } else { b(x) } };
        let f = |x: T| { let nn = &tm.n[x as usize]; if nn.op == Op::Const { fplit(nn.k, nn.w) } else { format!("f{}", x) } };
        let tob = |x: T| b(x); // boolean child
        match n.op {
            Op::Const => continue,
            Op::Var => {
                let fpkind = matches!(tm.vars[n.k as usize].kind, VarKind::F32 { .. } | VarKind::F64 { .. });
                if fpkind && nd == 2 { s += &format!("(declare-fun f{} () {})\n", t, fmt(w).0); vars.push((n.k as u32, format!("f{}", t))); }
                else {
                    if w == 1 { s += &format!("(declare-fun b{} () Bool)\n", t); } else { s += &format!("(declare-fun b{} () {})\n", t, sort(w)); }
                    vars.push((n.k as u32, format!("b{}", t)));
                    if nd & 2 != 0 { let (so, e, m) = fmt(w); s += &format!("(define-fun f{} () {} ((_ to_fp {} {}) b{}))\n", t, so, e, m, t); }
                }
                continue;
            }
            _ => {}
        }
        // expression in the natural view
        if is_fp_op(n.op) {
            let (so, e, m) = fmt(w);
            let ex = match n.op {
                Op::FAdd => format!("(fp.add RNE {} {})", f(n.a), f(n.b)), Op::FSub => format!("(fp.sub RNE {} {})", f(n.a), f(n.b)),
                Op::FMul => format!("(fp.mul RNE {} {})", f(n.a), f(n.b)), Op::FDiv => format!("(fp.div RNE {} {})", f(n.a), f(n.b)),
                Op::FSqrt => format!("(fp.sqrt RNE {})", f(n.a)), Op::FFma => format!("(fp.fma RNE {} {} {})", f(n.a), f(n.b), f(n.c)),
                Op::FMin => format!("(ite (fp.isNaN {x}) {y} (ite (fp.isNaN {y}) {x} (ite (fp.lt {x} {y}) {x} {y})))", x = f(n.a), y = f(n.b)),
                Op::FMax => format!("(ite (fp.isNaN {x}) {y} (ite (fp.isNaN {y}) {x} (ite (fp.lt {x} {y}) {y} {x})))", x = f(n.a), y = f(n.b)),
                Op::FFloor => format!("(fp.roundToIntegral RTN {})", f(n.a)), Op::FCeil => format!("(fp.roundToIntegral RTP {})", f(n.a)),
                Op::FTrunc => format!("(fp.roundToIntegral RTZ {})", f(n.a)), Op::FRint => format!("(fp.roundToIntegral RNE {})", f(n.a)), Op::FRound => format!("(fp.roundToIntegral RNA {})", f(n.a)),
                Op::FExt | Op::FNarrow => format!("((_ to_fp {} {}) RNE {})", e, m, f(n.a)),
                Op::SToF => format!("((_ to_fp {} {}) RNE {})", e, m, bb(n.a)), Op::UToF => format!("((_ to_fp_unsigned {} {}) RNE {})", e, m, bb(n.a)),
                Op::Uf | Op::FRem => { s += &format!("(declare-fun f{} () {})\n", t, so); ufs.push(t); String::new() }
                _ => unreachable!(),
            };
            if !ex.is_empty() { s += &format!("(define-fun f{} () {} {})\n", t, so, ex); }
            if nd & 1 != 0 { s += &format!("(declare-fun b{} () (_ BitVec {}))\n", t, w); aux += &format!("(assert (= ((_ to_fp {} {}) b{}) f{}))\n", e, m, t, t); }
            continue;
        }
        if nd & 2 != 0 && (w == 32 || w == 64) {
            let (so, e, m) = fmt(w);
            match n.op {
                Op::FNeg => s += &format!("(define-fun f{} () {} (fp.neg {}))\n", t, so, f(n.a)),
                Op::FAbs => s += &format!("(define-fun f{} () {} (fp.abs {}))\n", t, so, f(n.a)),
                Op::Ite => s += &format!("(define-fun f{} () {} (ite {} {} {}))\n", t, so, tob(n.a), f(n.b), f(n.c)),
                _ => {}
            }
            if nd & 1 == 0 && matches!(n.op, Op::FNeg | Op::FAbs | Op::Ite) { continue; }
            if !matches!(n.op, Op::FNeg | Op::FAbs | Op::Ite) { aux.push_str(""); s += &format!("; fp view of bv term\n"); }
            let _ = (e, m);
        }
        let isb = w == 1;
        let ex = match n.op {
            Op::Not => if isb { format!("(not {})", b(n.a)) } else { format!("(bvnot {})", b(n.a)) },
            Op::And | Op::Or | Op::Xor => { let nm = match (n.op, isb) { (Op::And, true) => "and", (Op::Or, true) => "or", (Op::Xor, true) => "xor", (Op::And, _) => "bvand", (Op::Or, _) => "bvor", _ => "bvxor" }; format!("({} {} {})", nm, b(n.a), b(n.b)) }
            Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Shl | Op::LShr | Op::AShr => {
                let nm = match n.op { Op::Add => "bvadd", Op::Sub => "bvsub", Op::Mul => "bvmul", Op::UDiv => "bvudiv", Op::URem => "bvurem", Op::SDiv => "bvsdiv", Op::SRem => "bvsrem", Op::Shl => "bvshl", Op::LShr => "bvlshr", _ => "bvashr" };
                if isb { // rare: arithmetic on booleans
                    format!("(= ({} {} {}) #b1)", nm, bb(n.a), bb(n.b)) } else { format!("({} {} {})", nm, b(n.a), b(n.b)) } }
            Op::Concat => format!("(concat {} {})", bb(n.a), bb(n.b)),
            Op::Extract => { let e = format!("((_ extract {} {}) {})", n.k as u16 + w - 1, n.k, b(n.a)); if isb { format!("(= {} #b1)", e) } else { e } }
            Op::ZExt => { let aw = tm.w(n.a); if aw == 1 { format!("(ite {} {} {})", b(n.a), bvlit(1, w), bvlit(0, w)) } else { format!("((_ zero_extend {}) {})", w - aw, b(n.a)) } }
            Op::SExt => { let aw = tm.w(n.a); if aw == 1 { format!("(ite {} {} {})", b(n.a), bvlit(mask(w), w), bvlit(0, w)) } else { format!("((_ sign_extend {}) {})", w - aw, b(n.a)) } }
            Op::Eq => format!("(= {} {})", b(n.a), b(n.b)),
            Op::Ult | Op::Ule | Op::Slt | Op::Sle => { let nm = match n.op { Op::Ult => "bvult", Op::Ule => "bvule", Op::Slt => "bvslt", _ => "bvsle" }; format!("({} {} {})", nm, bb(n.a), bb(n.b)) }
            Op::Ite => format!("(ite {} {} {})", b(n.a), b(n.b), b(n.c)),
            Op::FNeg => format!("(bvxor {} {})", b(n.a), bvlit(1u128 << (w - 1), w)), Op::FAbs => format!("(bvand {} {})", b(n.a), bvlit(mask(w) >> 1, w)),
            Op::FEq => format!("(fp.eq {} {})", f(n.a), f(n.b)), Op::FLt => format!("(fp.lt {} {})", f(n.a), f(n.b)), Op::FLe => format!("(fp.leq {} {})", f(n.a), f(n.b)), Op::FNan => format!("(fp.isNaN {})", f(n.a)),
            Op::FToS | Op::FToU | Op::FToSSat | Op::FToUSat => {
                let aw = tm.w(n.a); let (_, e, m) = fmt(aw); let sg = matches!(n.op, Op::FToS | Op::FToSSat);
                let x = f(n.a);
                let (lo, hi) = if sg { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1)) } else { (0.0, 2f64.powi(w as i32)) };
                let lit = |v: f64| if aw == 32 { fplit((v as f32).to_bits() as u128, 32) } else { fplit(v.to_bits() as u128, 64) };
                let (lov, hiv) = if sg { (1u128 << (w - 1), mask(w) >> 1) } else { (0, mask(w)) };
                let _ = (e, m);
                format!("(ite (fp.isNaN {x}) {z} (ite (fp.leq {x} {l}) {lv} (ite (fp.geq {x} {h}) {hv} ((_ {cv} {w}) RTZ {x}))))", x = x, z = bvlit(0, w), l = lit(lo), lv = bvlit(lov, w), h = lit(hi), hv = bvlit(hiv, w), cv = if sg { "fp.to_sbv" } else { "fp.to_ubv" }, w = w)
            }
            _ => unreachable!("{:?}", n.op),
        };
        s += &format!("(define-fun b{} () {} {})\n", t, sort(w), ex);
        if nd & 2 != 0 && (w == 32 || w == 64) && !matches!(n.op, Op::FNeg | Op::FAbs | Op::Ite) { let (so, e, m) = fmt(w); s += &format!("(define-fun f{} () {} ((_ to_fp {} {}) b{}))\n", t, so, e, m, t); }
    }
    s += &aux;
    // libm axioms
    for &t in &ufs {
        let n = tm.n[t as usize]; let w = n.w; let r = tm.fr[t as usize];
        let lit = |v: f64, up: bool| { if w == 32 { let mut x = v as f32; if up && (x as f64) < v { x = next32(x, true) } if !up && (x as f64) > v { x = next32(x, false) } fplit(x.to_bits() as u128, 32) } else { fplit(v.to_bits() as u128, 64) } };
        if !r.nan { s += &format!("(assert (not (fp.isNaN f{})))\n", t); }
        if !r.nan || r.lo > f64::NEG_INFINITY { s += &format!("(assert (or (fp.isNaN f{t}) (fp.leq {} f{t})))\n", lit(r.lo, false), t = t); }
        if !r.nan || r.hi < f64::INFINITY { s += &format!("(assert (or (fp.isNaN f{t}) (fp.leq f{t} {})))\n", lit(r.hi, true), t = t); }
    }
    for i in 0..ufs.len() { for j in 0..ufs.len() { if i == j { continue; }
        let (x, y) = (tm.n[ufs[i] as usize], tm.n[ufs[j] as usize]);
        if x.op != Op::Uf || y.op != Op::Uf || x.k != y.k || x.w != y.w { continue; }
        let f = |x: T| { let nn = &tm.n[x as usize]; if nn.op == Op::Const { fplit(nn.k, nn.w) } else { format!("f{}", x) } };
        let nm = &tm.uf_names[x.k as usize];
        if monotone(nm).is_some() { s += &format!("(assert (=> (fp.leq {} {}) (fp.leq f{} f{})))\n", f(x.a), f(y.a), ufs[i], ufs[j]); }
        if nm == "pow" && x.a == y.a && tm.fr[x.a as usize].lo >= 1.0 { s += &format!("(assert (=> (fp.leq {} {}) (fp.leq f{} f{})))\n", f(x.b), f(y.b), ufs[i], ufs[j]); }
        if nm == "pow" && x.b == y.b && tm.fr[x.b as usize].lo > 0.0 && tm.fr[x.a as usize].lo >= 0.0 && tm.fr[y.a as usize].lo >= 0.0 { s += &format!("(assert (=> (fp.leq {} {}) (fp.leq f{} f{})))\n", f(x.a), f(y.a), ufs[i], ufs[j]); }
    } }
    for l in lemmas {
        let n = tm.n[l.app as usize];
        let f = |x: T| { let nn = &tm.n[x as usize]; if nn.op == Op::Const { fplit(nn.k, nn.w) } else { format!("f{}", x) } };
        let two = n.op == Op::FRem || tm.uf_arity(n.k) == 2;
        let c2 = if two { format!(" (= {} {})", f(n.b), fplit(l.args[1], n.w)) } else { String::new() };
        s += &format!("(assert (=> (and (= {} {}){}) (= f{} {})))\n", f(n.a), fplit(l.args[0], n.w), c2, l.app, fplit(l.val, n.w));
        let mono = n.op == Op::Uf && monotone(&tm.uf_names[n.k as usize]).is_some();
        if mono { s += &format!("(assert (=> (fp.leq {a} {v}) (fp.leq f{t} {r})))\n(assert (=> (fp.geq {a} {v}) (fp.geq f{t} {r})))\n", a = f(n.a), v = fplit(l.args[0], n.w), t = l.app, r = fplit(l.val, n.w)); }
        if n.op == Op::Uf && tm.uf_names[n.k as usize] == "pow" {
            if let Some(_) = tm.cv(n.a) { if tm.fr[n.a as usize].lo >= 1.0 { s += &format!("(assert (=> (fp.leq {a} {v}) (fp.leq f{t} {r})))\n(assert (=> (fp.geq {a} {v}) (fp.geq f{t} {r})))\n", a = f(n.b), v = fplit(l.args[1], n.w), t = l.app, r = fplit(l.val, n.w)); } }
            if let Some(_) = tm.cv(n.b) { if tm.fr[n.b as usize].lo > 0.0 && tm.fr[n.a as usize].lo >= 0.0 { s += &format!("(assert (=> (fp.leq {a} {v}) (fp.leq f{t} {r})))\n(assert (=> (fp.geq {a} {v}) (fp.geq f{t} {r})))\n", a = f(n.a), v = fplit(l.args[0], n.w), t = l.app, r = fplit(l.val, n.w)); } }
        }
    }
    for &r in roots { let n = &tm.n[r as usize]; s += &format!("(assert {})\n", if n.op == Op::Const { (if n.k != 0 { "true" } else { "false" }).to_string() } else { format!("b{}", r) }); }
    (s, vars)
}
fn next32(x: f32, up: bool) -> f32 { if x == 0.0 { return if up { f32::from_bits(1) } else { -f32::from_bits(1) }; } let b = x.to_bits(); f32::from_bits(if (x > 0.0) == up { b + 1 } else { b - 1 }) }

/// Sound relaxation over the reals: every float term that is provably finite and not NaN becomes a real variable equal
/// to its exact value; roundings are bounded error variables; rounding is monotone.  Everything else is left free.
fn emit_real(tm: &Tm, roots: &[T], lemmas: &[UfLemma], relative: bool) -> Option<(String, Vec<(u32, String, bool)>)> {
    let mut all = roots.to_vec(); for l in lemmas { all.push(l.app); }
    let cone = tm.cone(&all);
    let fin = |t: T| { let r = tm.fr[t as usize]; !r.nan && r.lo.is_finite() && r.hi.is_finite() };
    // needed views: 1 bool/bv, 2 real
    let mut need: HashMap<T, u8> = HashMap::new();
    for &r in roots { *need.entry(r).or_insert(0) |= 1; }
    for l in lemmas { if fin(l.app) { *need.entry(l.app).or_insert(0) |= 2; } }
    let mut any_fp = false;
    // integer view: exact mathematical value of a bit-vector term that provably does not wrap
    let conv = cone.iter().any(|&t| matches!(tm.n[t as usize].op, Op::SToF | Op::UToF | Op::FToS | Op::FToU | Op::FToSSat | Op::FToUSat));
    let mut ivok: HashMap<T, bool> = HashMap::new();
    if conv { for &t in &cone {
        let n = tm.n[t as usize]; if n.w < 2 || n.w > 64 { ivok.insert(t, false); continue; }
        let full = tm.sr[t as usize] == (-((mask(n.w) >> 1) as i128) - 1, (mask(n.w) >> 1) as i128);
        let g = |x: T| *ivok.get(&x).unwrap_or(&false);
        let exact = |lo: i128, hi: i128| { let s = tm.sr[t as usize]; s.0 >= lo.max(-(1 << 63)) && s.1 <= hi && !full };
        let _ = &exact;
        let (sa, sb) = (tm.sr[n.a as usize], tm.sr[n.b as usize]);
        let (mn, mx) = (-((mask(n.w) >> 1) as i128) - 1, (mask(n.w) >> 1) as i128);
        let ok = match n.op {
            Op::Const => true,
            Op::Var => matches!(tm.vars[n.k as usize].kind, VarKind::SInt { .. }) || (matches!(tm.vars[n.k as usize].kind, VarKind::Bits { .. }) && !full),
            Op::Add => g(n.a) && g(n.b) && sa.0 + sb.0 >= mn && sa.1 + sb.1 <= mx,
            Op::Sub => g(n.a) && g(n.b) && sa.0 - sb.1 >= mn && sa.1 - sb.0 <= mx,
            Op::Mul => g(n.a) && g(n.b) && !full && (tm.cv(n.a).is_some() || tm.cv(n.b).is_some()),
            Op::Shl => g(n.a) && !full && tm.cv(n.b).map_or(false, |k| k < 62),
            Op::SExt => g(n.a), Op::ZExt => g(n.a) && sa.0 >= 0,
            Op::Extract => n.k == 0 && g(n.a) && sa.0 >= mn && sa.1 <= mx,
            Op::Ite => g(n.b) && g(n.c),
            Op::FToS | Op::FToSSat | Op::FToU | Op::FToUSat => { let r = tm.fr[n.a as usize]; fin(n.a) && (if matches!(n.op, Op::FToS | Op::FToSSat) { r.lo > mn as f64 - 0.5 && r.hi < mx as f64 } else { r.lo > -1.0 && r.hi < mx as f64 }) }
            _ => false };
        ivok.insert(t, ok);
    } }
    let iv = |t: T| *ivok.get(&t).unwrap_or(&false);
    let icmp = |n: &Node| -> bool { tm.w(n.a) > 1 && match n.op { Op::Eq | Op::Slt | Op::Sle => iv(n.a) && iv(n.b), Op::Ult | Op::Ule => iv(n.a) && iv(n.b) && tm.sr[n.a as usize].0 >= 0 && tm.sr[n.b as usize].0 >= 0, _ => false } };
    for &t in cone.iter().rev() {
        let Some(&nd) = need.get(&t) else { continue };
        let n = tm.n[t as usize];
        let mut add = |c: T, v: u8| { *need.entry(c).or_insert(0) |= v; };
        match n.op {
            Op::Const | Op::Var => {}
            Op::Eq | Op::Slt | Op::Sle | Op::Ult | Op::Ule if icmp(&n) => { any_fp = true; add(n.a, 4); add(n.b, 4); }
            Op::FEq | Op::FLt | Op::FLe => { if fin(n.a) && fin(n.b) { any_fp = true; add(n.a, 2); add(n.b, 2); } }
            Op::FNan => {}
            Op::FToS | Op::FToU | Op::FToSSat | Op::FToUSat => { if nd & 4 != 0 && fin(n.a) { add(n.a, 2); } }
            Op::Ite => { add(n.a, 1); if nd & 4 != 0 { add(n.b, 4); add(n.c, 4); } if nd & 2 != 0 { if fin(n.b) && fin(n.c) { add(n.b, 2); add(n.c, 2); } } if nd & 1 != 0 { add(n.b, 1); add(n.c, 1); } }
            Op::FNeg | Op::FAbs => { if nd & 2 != 0 && fin(n.a) { add(n.a, 2); } if nd & 1 != 0 { add(n.a, 1); } }
            Op::FMin | Op::FMax | Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FExt | Op::FNarrow | Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRint | Op::FRound | Op::FSqrt | Op::FFma | Op::Uf | Op::FRem => { if nd & 2 != 0 { let (ch, k) = tm.children(t); for &c in &ch[..k] { if fin(c) { add(c, 2); } } } }
            Op::SToF | Op::UToF => { if nd & 2 != 0 && iv(n.a) && (n.op == Op::SToF || tm.sr[n.a as usize].0 >= 0) { add(n.a, 4); } }
            o if is_fp_op(o) => {}
            _ => { let (ch, k) = tm.children(t); for &c in &ch[..k] { if nd & 1 != 0 { add(c, 1); } if nd & 4 != 0 { add(c, 4); } } }
        }
    }
    if !any_fp { return None; }
    let mut s = String::from("(set-option :produce-models true)\n");
    let mut vars = vec![]; let mut aux = String::new();
    let mut ufs = vec![];
    let mut mono: Vec<((u32, T, u16), String, String)> = vec![];
    for &t in &cone {
        let Some(&nd) = need.get(&t) else { continue };
        let n = tm.n[t as usize]; let w = n.w;
        let sort = |w: u16| if w == 1 { "Bool".to_string() } else { format!("(_ BitVec {})", w) };
        let b = |x: T| { let nn = &tm.n[x as usize]; if nn.op == Op::Const { if nn.w == 1 { (if nn.k != 0 { "true" } else { "false" }).to_string() } else { bvlit(nn.k, nn.w) } } else { format!("b{}", x) } };
        let bb = |x: T| { if tm.n[x as usize].w == 1 { let c = b(x); format!("(ite {} #b1 #b0)", c) } else { b(x) } };
        let r = |x: T| { let nn = &tm.n[x as usize]; if nn.op == Op::Const { rat(tm.fr[x as usize].lo) } else { format!("r{}", x) } };
        if n.op == Op::Const { continue; }
        let i = |x: T| { let nn = &tm.n[x as usize]; if nn.op == Op::Const { irat(sx(nn.k, nn.w)) } else { format!("i{}", x) } };
        if nd & 4 != 0 && iv(t) {
            let sr = tm.sr[t as usize];
            let ib = |aux: &mut String| { *aux += &format!("(assert (and (<= {} i{t}) (<= i{t} {})))\n", irat(sr.0), irat(sr.1), t = t); };
            match n.op {
                Op::Var => { s += &format!("(declare-fun j{t} () Int)\n(define-fun i{t} () Real (to_real j{t}))\n", t = t); ib(&mut aux); if nd & 2 == 0 { vars.push((n.k as u32, format!("i{}", t), true)); } }
                Op::Add => s += &format!("(define-fun i{} () Real (+ {} {}))\n", t, i(n.a), i(n.b)),
                Op::Sub => s += &format!("(define-fun i{} () Real (- {} {}))\n", t, i(n.a), i(n.b)),
                Op::Mul => s += &format!("(define-fun i{} () Real (* {} {}))\n", t, i(n.a), i(n.b)),
                Op::Shl => s += &format!("(define-fun i{} () Real (* {} {}))\n", t, i(n.a), irat(1i128 << tm.cv(n.b).unwrap())),
                Op::SExt | Op::ZExt | Op::Extract => s += &format!("(define-fun i{} () Real {})\n", t, i(n.a)),
                Op::Ite => s += &format!("(define-fun i{} () Real (ite {} {} {}))\n", t, b(n.a), i(n.b), i(n.c)),
                _ => { s += &format!("(declare-fun j{t} () Int)\n(define-fun i{t} () Real (to_real j{t}))\n", t = t); ib(&mut aux); let x = r(n.a);
                    let integral = matches!(tm.n[n.a as usize].op, Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRint | Op::FRound);
                    aux += &if integral { format!("(assert (= i{t} {x}))\n", t = t, x = x) } else { format!("(assert (ite (>= {x} 0.0) (and (<= i{t} {x}) (< {x} (+ i{t} 1.0)) (<= 0.0 i{t})) (and (>= i{t} {x}) (> {x} (- i{t} 1.0)) (<= i{t} 0.0))))\n", t = t, x = x) }; }
            }
        }
        if nd & 2 != 0 {
            let fr = tm.fr[t as usize];
            let (u, tiny) = if w == 32 { (2f64.powi(-24), 2f64.powi(-150)) } else { (2f64.powi(-53), 0.0) };
            let tiny64 = "(/ 1.0 1000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000000.0)";
            let bounds = |aux: &mut String| { *aux += &format!("(assert (and (<= {} r{t}) (<= r{t} {})))\n", rat(fr.lo), rat(fr.hi), t = t); };
            // rounding-error variable around exact expression ex
            let mag = { let m = fr.lo.abs().max(fr.hi.abs()); if m == 0.0 { 0.0 } else { m } };
            let rounded = |s: &mut String, aux: &mut String, ex: String| {
                *s += &format!("(define-fun x{} () Real {})\n(declare-fun r{} () Real)\n", t, ex, t);
                if relative {
                    *aux += &format!("(assert (let ((m (+ (* {u} (ite (>= x{t} 0.0) x{t} (- x{t}))) {ti}))) (and (<= (- r{t} x{t}) m) (<= (- x{t} r{t}) m))))\n", u = rat(u), t = t, ti = if w == 32 { rat(tiny) } else { tiny64.to_string() });
                } else {
                    // |error| <= u * max|result|*(1+2u) : half an ulp of the largest result
                    let e = mag * u * (1.0 + 4.0 * u) + if w == 32 { tiny } else { 1e-300 };
                    *aux += &format!("(assert (and (<= (- r{t} x{t}) {e}) (<= (- x{t} r{t}) {e})))\n", t = t, e = rat(e));
                }
                bounds(aux);
            };
            match n.op {
                Op::Var => { s += &format!("(declare-fun r{} () Real)\n", t); bounds(&mut aux); vars.push((n.k as u32, format!("r{}", t), true)); }
                Op::FNeg if fin(n.a) => s += &format!("(define-fun r{} () Real (- {}))\n", t, r(n.a)),
                Op::FAbs if fin(n.a) => s += &format!("(define-fun r{} () Real (ite (>= {x} 0.0) {x} (- {x})))\n", t, x = r(n.a)),
                Op::FMin if fin(n.a) && fin(n.b) => s += &format!("(define-fun r{} () Real (ite (<= {x} {y}) {x} {y}))\n", t, x = r(n.a), y = r(n.b)),
                Op::FMax if fin(n.a) && fin(n.b) => s += &format!("(define-fun r{} () Real (ite (>= {x} {y}) {x} {y}))\n", t, x = r(n.a), y = r(n.b)),
                Op::Ite if fin(n.b) && fin(n.c) => s += &format!("(define-fun r{} () Real (ite {} {} {}))\n", t, b(n.a), r(n.b), r(n.c)),
                Op::FExt if fin(n.a) => s += &format!("(define-fun r{} () Real {})\n", t, r(n.a)),
                Op::FNarrow if fin(n.a) => { rounded(&mut s, &mut aux, r(n.a)); aux += &format!("(assert (=> (>= {x} 0.0) (>= r{t} 0.0)))(assert (=> (<= {x} 0.0) (<= r{t} 0.0)))(assert (=> (<= {x} 1.0) (<= r{t} 1.0)))(assert (=> (>= {x} 1.0) (>= r{t} 1.0)))(assert (=> (>= {x} (- 1.0)) (>= r{t} (- 1.0))))(assert (=> (<= {x} (- 1.0)) (<= r{t} (- 1.0))))\n", x = r(n.a), t = t); }
                Op::FAdd if fin(n.a) && fin(n.b) => { rounded(&mut s, &mut aux, format!("(+ {} {})", r(n.a), r(n.b)));
                    for (x, y) in [(n.a, n.b), (n.b, n.a)] { aux += &format!("(assert (=> (>= {y} 0.0) (>= r{t} {x})))(assert (=> (<= {y} 0.0) (<= r{t} {x})))\n", x = r(x), y = r(y), t = t); } 
                    aux += &format!("(assert (=> (>= x{t} 0.0) (>= r{t} 0.0)))(assert (=> (<= x{t} 0.0) (<= r{t} 0.0)))(assert (=> (<= x{t} 1.0) (<= r{t} 1.0)))(assert (=> (>= x{t} (- 1.0)) (>= r{t} (- 1.0))))\n", t = t); }
                Op::FSub if fin(n.a) && fin(n.b) => { rounded(&mut s, &mut aux, format!("(- {} {})", r(n.a), r(n.b)));
                    aux += &format!("(assert (=> (>= {y} 0.0) (<= r{t} {x})))(assert (=> (<= {y} 0.0) (>= r{t} {x})))(assert (=> (>= {x} {y}) (>= r{t} 0.0)))(assert (=> (<= {x} {y}) (<= r{t} 0.0)))\n", x = r(n.a), y = r(n.b), t = t);
                    aux += &format!("(assert (=> (<= x{t} 1.0) (<= r{t} 1.0)))(assert (=> (>= x{t} (- 1.0)) (>= r{t} (- 1.0))))\n", t = t); }
                Op::FMul if fin(n.a) && fin(n.b) => {
                    let p2 = |c: T| tm.cv(c).map_or(false, |_| { let v = tm.fr[c as usize].lo.abs(); v >= 1.0 && v.is_normal() && v.to_bits() & ((1u64 << 52) - 1) == 0 });
                    let dn = |c: T, o: T| tm.cv(c).map_or(false, |_| { let v = tm.fr[c as usize].lo.abs(); v > 0.0 && v < 1.0 && v > 1e-30 && v.to_bits() & ((1u64 << 52) - 1) == 0 }) && matches!(tm.n[o as usize].op, Op::SToF | Op::UToF | Op::FExt);
                    if p2(n.a) || p2(n.b) || (w == 64 && (dn(n.a, n.b) || dn(n.b, n.a))) { s += &format!("(define-fun r{} () Real (* {} {}))\n", t, r(n.a), r(n.b)); bounds(&mut aux); }
                    else { rounded(&mut s, &mut aux, format!("(* {} {})", r(n.a), r(n.b))); if let Some(k) = if tm.cv(n.a).is_some() { Some(n.a) } else if tm.cv(n.b).is_some() { Some(n.b) } else { None } { mono.push(((1, k, w), format!("x{}", t), format!("r{}", t))); } }
                    for (x, y) in [(n.a, n.b), (n.b, n.a)] { let ry = tm.fr[y as usize]; let (x, _y) = (r(x), r(y));
                        if ry.lo >= 0.0 && ry.hi <= 1.0 { aux += &format!("(assert (ite (>= {x} 0.0) (and (<= 0.0 r{t}) (<= r{t} {x})) (and (<= r{t} 0.0) (<= {x} r{t}))))\n", x = x, t = t); }
                        else if ry.lo >= 1.0 { aux += &format!("(assert (ite (>= {x} 0.0) (>= r{t} {x}) (<= r{t} {x})))\n", x = x, t = t); }
                        else if ry.lo >= -1.0 && ry.hi <= 1.0 { aux += &format!("(assert (ite (>= {x} 0.0) (and (<= r{t} {x}) (<= (- {x}) r{t})) (and (<= {x} r{t}) (<= r{t} (- {x})))))\n", x = x, t = t); } }
                }
                Op::FDiv if fin(n.a) && fin(n.b) && (tm.fr[n.b as usize].lo > 0.0 || tm.fr[n.b as usize].hi < 0.0) => {
                    let ry = tm.fr[n.b as usize];
                    if tm.cv(n.b).is_some() { rounded(&mut s, &mut aux, format!("(/ {} {})", r(n.a), r(n.b))); mono.push(((2, n.b, w), format!("x{}", t), format!("r{}", t))); } else {
                        s += &format!("(declare-fun q{} () Real)\n", t); aux += &format!("(assert (= (* q{} {}) {}))\n", t, r(n.b), r(n.a));
                        rounded(&mut s, &mut aux, format!("q{}", t)); }
                    if ry.lo >= 1.0 { aux += &format!("(assert (ite (>= {x} 0.0) (and (<= 0.0 r{t}) (<= r{t} {x})) (and (<= r{t} 0.0) (<= {x} r{t}))))\n", x = r(n.a), t = t); }
                    else if ry.lo > 0.0 { aux += &format!("(assert (ite (>= {x} 0.0) (<= 0.0 r{t}) (<= r{t} 0.0)))\n(assert (=> (<= {x} {y}) (<= r{t} 1.0)))(assert (=> (>= {x} {y}) (>= r{t} 1.0)))\n", x = r(n.a), y = r(n.b), t = t); }
                }
                Op::FFma if fin(n.a) && fin(n.b) && fin(n.c) => rounded(&mut s, &mut aux, format!("(+ (* {} {}) {})", r(n.a), r(n.b), r(n.c))),
                Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRint | Op::FRound if fin(n.a) => {
                    s += &format!("(declare-fun r{} () Real)\n", t); bounds(&mut aux);
                    let x = r(n.a);
                    mono.push(((n.op as u32 + 100, 0, w), x.clone(), format!("r{}", t)));
                    aux += &match n.op { Op::FFloor => format!("(assert (and (<= r{t} {x}) (< {x} (+ r{t} 1.0))))\n", t = t, x = x), Op::FCeil => format!("(assert (and (>= r{t} {x}) (> {x} (- r{t} 1.0))))\n", t = t, x = x), Op::FTrunc => format!("(assert (ite (>= {x} 0.0) (and (<= r{t} {x}) (< {x} (+ r{t} 1.0))) (and (>= r{t} {x}) (> {x} (- r{t} 1.0)))))\n", t = t, x = x), _ => format!("(assert (and (<= (- r{t} {x}) 0.5) (<= (- {x} r{t}) 0.5)))\n", t = t, x = x) };
                    if fr.hi - fr.lo <= 16.0 { let mut d = String::from("(assert (or"); let mut k = fr.lo; while k <= fr.hi { d += &format!(" (= r{} {})", t, rat(k)); k += 1.0; } d += "))\n"; aux += &d; }
                }
                Op::FSqrt if fin(n.a) => { s += &format!("(declare-fun y{t} () Real)\n(assert (and (>= y{t} 0.0) (= (* y{t} y{t}) {x})))\n", t = t, x = r(n.a)); rounded(&mut s, &mut aux, format!("y{}", t)); }
                Op::Uf => { s += &format!("(declare-fun r{} () Real)\n", t); bounds(&mut aux); ufs.push(t); }
                Op::SToF | Op::UToF if iv(n.a) && (n.op == Op::SToF || tm.sr[n.a as usize].0 >= 0) => {
                    let sr = tm.sr[n.a as usize]; let lim = if w == 32 { 1i128 << 24 } else { 1i128 << 53 };
                    if sr.0 >= -lim && sr.1 <= lim { s += &format!("(define-fun r{} () Real {})\n", t, i(n.a)); bounds(&mut aux); } else { rounded(&mut s, &mut aux, i(n.a)); mono.push(((3, 0, w), i(n.a), format!("r{}", t))); }
                }
                Op::SToF | Op::UToF => {
                    s += &format!("(declare-fun r{} () Real)\n", t); bounds(&mut aux);
                }
                _ => { s += &format!("(declare-fun r{} () Real)\n", t); bounds(&mut aux); }
            }
        }
        if nd & 1 != 0 {
            let isb = w == 1;
            let ex = match n.op {
                Op::Var => { s += &format!("(declare-fun b{} () {})\n", t, sort(w)); if nd & 2 == 0 { vars.push((n.k as u32, format!("b{}", t), false)); } continue; }
                Op::Not => if isb { format!("(not {})", b(n.a)) } else { format!("(bvnot {})", b(n.a)) },
                Op::And | Op::Or | Op::Xor => { let nm = match (n.op, isb) { (Op::And, true) => "and", (Op::Or, true) => "or", (Op::Xor, true) => "xor", (Op::And, _) => "bvand", (Op::Or, _) => "bvor", _ => "bvxor" }; format!("({} {} {})", nm, b(n.a), b(n.b)) }
                Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Shl | Op::LShr | Op::AShr if !isb => { let nm = match n.op { Op::Add => "bvadd", Op::Sub => "bvsub", Op::Mul => "bvmul", Op::UDiv => "bvudiv", Op::URem => "bvurem", Op::SDiv => "bvsdiv", Op::SRem => "bvsrem", Op::Shl => "bvshl", Op::LShr => "bvlshr", _ => "bvashr" }; format!("({} {} {})", nm, b(n.a), b(n.b)) }
                Op::Concat => format!("(concat {} {})", bb(n.a), bb(n.b)),
                Op::Extract => { let e = format!("((_ extract {} {}) {})", n.k as u16 + w - 1, n.k, b(n.a)); if isb { format!("(= {} #b1)", e) } else { e } }
                Op::ZExt => { let aw = tm.w(n.a); if aw == 1 { format!("(ite {} {} {})", b(n.a), bvlit(1, w), bvlit(0, w)) } else { format!("((_ zero_extend {}) {})", w - aw, b(n.a)) } }
                Op::SExt => { let aw = tm.w(n.a); if aw == 1 { format!("(ite {} {} {})", b(n.a), bvlit(mask(w), w), bvlit(0, w)) } else { format!("((_ sign_extend {}) {})", w - aw, b(n.a)) } }
                Op::Eq | Op::Slt | Op::Sle | Op::Ult | Op::Ule if icmp(&n) => format!("({} {} {})", match n.op { Op::Eq => "=", Op::Slt | Op::Ult => "<", _ => "<=" }, i(n.a), i(n.b)),
                Op::Eq => format!("(= {} {})", b(n.a), b(n.b)),
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => { let nm = match n.op { Op::Ult => "bvult", Op::Ule => "bvule", Op::Slt => "bvslt", _ => "bvsle" }; format!("({} {} {})", nm, bb(n.a), bb(n.b)) }
                Op::Ite => format!("(ite {} {} {})", b(n.a), b(n.b), b(n.c)),
                Op::FEq if fin(n.a) && fin(n.b) => format!("(= {} {})", r(n.a), r(n.b)), Op::FLt if fin(n.a) && fin(n.b) => format!("(< {} {})", r(n.a), r(n.b)), Op::FLe if fin(n.a) && fin(n.b) => format!("(<= {} {})", r(n.a), r(n.b)),
                _ => { s += &format!("(declare-fun b{} () {})\n", t, sort(w)); continue; } // unconstrained
            };
            s += &format!("(define-fun b{} () {} {})\n", t, sort(w), ex);
        }
    }
    s += &aux;
    // rounding is monotone: stated for results of the same operation with the same constant operand
    let mut pairs = 0;
    for x in 0..mono.len() { for y in x + 1..mono.len() { if mono[x].0 == mono[y].0 && pairs < 150 { pairs += 1; let (p, q) = (&mono[x], &mono[y]); s += &format!("(assert (and (=> (<= {} {}) (<= {} {})) (=> (>= {} {}) (>= {} {}))))\n", p.1, q.1, p.2, q.2, p.1, q.1, p.2, q.2); } } }
    let r = |x: T| { let nn = &tm.n[x as usize]; if nn.op == Op::Const { rat(tm.fr[x as usize].lo) } else { format!("r{}", x) } };
    for i in 0..ufs.len() { for j in 0..ufs.len() { if i == j { continue; }
        let (x, y) = (tm.n[ufs[i] as usize], tm.n[ufs[j] as usize]);
        if x.k != y.k || x.w != y.w { continue; }
        let nm = &tm.uf_names[x.k as usize];
        if monotone(nm).is_some() && fin(x.a) && fin(y.a) { s += &format!("(assert (=> (<= {} {}) (<= r{} r{})))\n", r(x.a), r(y.a), ufs[i], ufs[j]); }
        if nm == "pow" && x.a == y.a && tm.fr[x.a as usize].lo >= 1.0 && fin(x.b) && fin(y.b) { s += &format!("(assert (=> (<= {} {}) (<= r{} r{})))\n", r(x.b), r(y.b), ufs[i], ufs[j]); }
        if nm == "pow" && x.b == y.b && tm.fr[x.b as usize].lo > 0.0 && tm.fr[x.a as usize].lo >= 0.0 && tm.fr[y.a as usize].lo >= 0.0 && fin(x.a) && fin(y.a) { s += &format!("(assert (=> (<= {} {}) (<= r{} r{})))\n", r(x.a), r(y.a), ufs[i], ufs[j]); }
    } }
    // links between libm results and comparisons of the same arguments with given anchor points
    for l in lemmas {
        let n = tm.n[l.app as usize]; if !fin(l.app) || !need.contains_key(&l.app) || n.op != Op::Uf { continue; }
        let v = |x: u128| if n.w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
        let (val, a0) = (v(l.val), v(l.args[0])); if !val.is_finite() { continue; }
        let nm = &tm.uf_names[n.k as usize];
        let (arg, av, mono) = if monotone(nm).is_some() { (n.a, a0, true) } else if nm == "pow" && tm.cv(n.a).is_some() && tm.fr[n.a as usize].lo >= 1.0 { (n.b, v(l.args[1]), true) } else if nm == "pow" && tm.cv(n.b).is_some() && tm.fr[n.b as usize].lo > 0.0 && tm.fr[n.a as usize].lo >= 0.0 { (n.a, a0, true) } else { (n.a, a0, false) };
        if !fin(arg) || !av.is_finite() { continue; }
        if mono { s += &format!("(assert (=> (<= {a} {v}) (<= r{t} {y})))(assert (=> (>= {a} {v}) (>= r{t} {y})))\n", a = r(arg), v = rat(av), t = l.app, y = rat(val)); }
        else if tm.uf_arity(n.k) == 1 { s += &format!("(assert (=> (= {a} {v}) (= r{t} {y})))\n", a = r(arg), v = rat(av), t = l.app, y = rat(val)); }
    }
    // tangents and chords of convex and concave functions at the known points
    let mut pts: BTreeMap<T, Vec<(f64, f64)>> = BTreeMap::new();
    for l in lemmas {
        let n = tm.n[l.app as usize]; if !fin(l.app) || !need.contains_key(&l.app) || n.op != Op::Uf { continue; }
        let v = |x: u128| if n.w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
        let second = tm.uf_names[n.k as usize] == "pow" && tm.cv(n.a).is_some();
        let (x, y) = (v(if second { l.args[1] } else { l.args[0] }), v(l.val));
        if x.is_finite() && y.is_finite() { pts.entry(l.app).or_default().push((x, y)); }
    }
    for (app, mut ps) in pts {
        let n = tm.n[app as usize]; let nm = tm.uf_names[n.k as usize].clone();
        let v = |x: u128| if n.w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
        let second = nm == "pow" && tm.cv(n.a).is_some();
        let arg = if second { n.b } else { n.a }; if !fin(arg) { continue; }
        let lo = tm.fr[arg as usize].lo;
        // (1 convex / -1 concave / 0 convex below zero and concave above, slope at (x, y))
        let (shape, slope): (i32, Box<dyn Fn(f64, f64) -> f64>) = match nm.as_str() {
            "exp" => (1, Box::new(|_, y| y)), "exp2" => (1, Box::new(|_, y| y * std::f64::consts::LN_2)),
            "log" if lo > 0.0 => (-1, Box::new(|x, _| 1.0 / x)), "log2" if lo > 0.0 => (-1, Box::new(|x, _| 1.0 / (x * std::f64::consts::LN_2))), "log10" if lo > 0.0 => (-1, Box::new(|x, _| 1.0 / (x * std::f64::consts::LN_10))),
            "tanh" => (0, Box::new(|_, y| 1.0 - y * y)), "atan" => (0, Box::new(|x, _| 1.0 / (1.0 + x * x))),
            "pow" if second => { let c = v(tm.cv(n.a).unwrap()); if !(c > 1.0 && c.is_finite()) { continue; } (1, Box::new(move |_, y| y * c.ln())) }
            "pow" => { let Some(e) = tm.cv(n.b) else { continue }; let e = v(e); if !(lo > 0.0 && e.is_finite()) { continue; } (if e >= 1.0 || e < 0.0 { 1 } else { -1 }, Box::new(move |x, y| e * y / x)) }
            _ => continue,
        };
        ps.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap()); ps.dedup_by(|a, b| a.0 == b.0);
        let eps = if n.w == 32 { 1e-6 } else { 1e-13 };
        let (x, y) = (r(arg), format!("r{}", app));
        for &(px, py) in &ps {
            let d = slope(px, py); if !d.is_finite() { continue; }
            let sl = eps * (py.abs() + (d * px).abs() + 1e-30);
            let rhs = format!("(+ {} (* {} (- {} {})))", rat(py), rat(d), x, rat(px));
            let dev = format!("(+ {} (* {} (ite (>= {x} {p}) (- {x} {p}) (- {p} {x}))))", rat(sl), rat(eps * d.abs()), x = x, p = rat(px));
            for (side, cvx) in match shape { 1 => vec![("true".to_string(), true)], -1 => vec![("true".to_string(), false)], _ => { let mut v = vec![]; if px >= 0.0 { v.push((format!("(>= {} 0.0)", x), false)); } if px <= 0.0 { v.push((format!("(<= {} 0.0)", x), true)); } v } } {
                s += &if cvx { format!("(assert (=> {} (>= {} (- {} {}))))\n", side, y, rhs, dev) } else { format!("(assert (=> {} (<= {} (+ {} {}))))\n", side, y, rhs, dev) };
            }
        }
        for k in 1..ps.len() {
            let ((p, vp), (q, vq)) = (ps[k - 1], ps[k]); if q - p <= 1e-6 * (p.abs() + q.abs()) { continue; }
            let d = (vq - vp) / (q - p); if !d.is_finite() { continue; }
            let cvx = match shape { 1 => true, -1 => false, _ => if p >= 0.0 { false } else if q <= 0.0 { true } else { continue } };
            let sl = 4.0 * eps * (vp.abs() + vq.abs() + 1e-30);
            let ch = format!("(+ {} (* {} (- {} {})))", rat(vp), rat(d), x, rat(p));
            s += &if cvx { format!("(assert (=> (and (<= {p} {x}) (<= {x} {q})) (<= {y} (+ {ch} {sl}))))\n", p = rat(p), q = rat(q), x = x, y = y, ch = ch, sl = rat(sl)) } else { format!("(assert (=> (and (<= {p} {x}) (<= {x} {q})) (>= {y} (- {ch} {sl}))))\n", p = rat(p), q = rat(q), x = x, y = y, ch = ch, sl = rat(sl)) };
        }
    }
    for &rt in roots { let n = &tm.n[rt as usize]; s += &format!("(assert {})\n", if n.op == Op::Const { (if n.k != 0 { "true" } else { "false" }).to_string() } else { format!("b{}", rt) }); }
    Some((s, vars))
}

// ---- s-expression values ----
#[derive(Debug, Clone)]
enum Sx { A(String), L(Vec<Sx>) }
fn parse_sx(s: &str) -> Vec<Sx> {
    let mut st: Vec<Vec<Sx>> = vec![vec![]]; let b = s.as_bytes(); let mut i = 0;
    while i < b.len() { match b[i] { b'(' => { st.push(vec![]); i += 1; } b')' => { let l = st.pop().unwrap(); if st.is_empty() { return vec![]; } st.last_mut().unwrap().push(Sx::L(l)); i += 1; } c if c.is_ascii_whitespace() => i += 1, b'|' => { let e = s[i + 1..].find('|').unwrap() + i + 2; st.last_mut().unwrap().push(Sx::A(s[i..e].into())); i = e; } _ => { let e = s[i..].find(|c: char| c.is_whitespace() || c == '(' || c == ')').map(|k| i + k).unwrap_or(s.len()); st.last_mut().unwrap().push(Sx::A(s[i..e].into())); i = e; } } }
    st.pop().unwrap_or_default()
}
fn bits_of(s: &str) -> Option<u128> { if let Some(h) = s.strip_prefix("#x") { u128::from_str_radix(h, 16).ok() } else if let Some(h) = s.strip_prefix("#b") { u128::from_str_radix(h, 2).ok() } else if s == "true" { Some(1) } else if s == "false" { Some(0) } else { None } }
fn val_bits(v: &Sx, w: u16) -> Option<u128> {
    match v {
        Sx::A(s) => bits_of(s),
        Sx::L(l) => {
            let a = |i: usize| if let Some(Sx::A(s)) = l.get(i) { s.as_str() } else { "" };
            let (e, m) = if w == 32 { (8u32, 23u32) } else { (11, 52) };
            if a(0) == "fp" { let s = bits_of(a(1))?; let x = bits_of(a(2))?; let y = bits_of(a(3))?; return Some((s << (e + m)) | (x << m) | y); }
            if a(0) == "_" { let inf = ((1u128 << e) - 1) << m; return Some(match a(1) { "+zero" => 0, "-zero" => 1u128 << (e + m), "+oo" => inf, "-oo" => inf | (1u128 << (e + m)), "NaN" => inf | (1u128 << (m - 1)), x if x.starts_with("bv") => x[2..].parse().ok()?, _ => return None }); }
            None
        }
    }
}
fn real_of(v: &Sx) -> Option<f64> {
    match v { Sx::A(s) => s.trim_end_matches('?').parse().ok(), Sx::L(l) => { let Sx::A(op) = l.first()? else { return None }; match op.as_str() { "-" => Some(-real_of(l.get(1)?)?), "/" => { let (a, b) = (l.get(1)?, l.get(2)?); big_div(a, b) } "to_real" => real_of(l.get(1)?), "root-obj" => None, _ => None } } }
}
fn big_div(a: &Sx, b: &Sx) -> Option<f64> { // numbers may exceed f64 range: scale by digits
    let f = |x: &Sx| -> Option<(f64, i32)> { let (neg, s) = match x { Sx::A(s) => (false, s.clone()), Sx::L(l) => { if let (Sx::A(m), Some(Sx::A(s))) = (l.first()?, l.get(1)) { if m == "-" { (true, s.clone()) } else { return None } } else { return None } } };
        let s = s.trim_end_matches(".0"); let s = s.trim_end_matches('.'); let (head, ex) = if s.len() > 30 { (&s[..30], (s.len() - 30) as i32) } else { (s, 0) }; let v: f64 = head.parse().ok()?; Some((if neg { -v } else { v }, ex)) };
    let ((x, p), (y, q)) = (f(a)?, f(b)?); Some((x / y) * 10f64.powi(p - q))
}

impl Solver {
    pub fn new() -> Self { Solver { z3: None, z3cmd: "z3-new".into(), z3alt: "z3".into(), cvc5: "cvc5".into(), cache: HashMap::new(), ev: Evaluator::new(), st: Stats::default(), quick_ms: 4000, real_ms: 3000, hard_ms: 120000, use_real: true, last_unknown: String::new(), dump: None, real_first_min: 1, use_icp: true, icp_boxes: 100_000, recheck: 4, recheck_step: 1, selftest: std::env::var("RAWSYM_SELFTEST").is_ok() } }

    fn ask(&mut self, script: &str, getv: &[String], ms: u64) -> Result<Option<Vec<Sx>>, String> {
        // Ok(None)=unsat, Ok(Some(values))=sat, Err=unknown
        if self.z3.is_none() { self.z3 = Some(spawn(&self.z3cmd, &["-in", "-smt2"])); }
        let p = self.z3.as_mut().unwrap();
        let gv = if getv.is_empty() { String::new() } else { format!("(get-value ({}))\n", getv.join(" ")) };
        let msg = format!("(reset)\n(set-option :timeout {})\n{}(check-sat)\n(echo \"@@\")\n", ms, script);
        if p.stdin.write_all(msg.as_bytes()).is_err() || p.stdin.flush().is_err() { self.z3 = None; return Err("pipe".into()); }
        let dl = Instant::now() + Duration::from_millis(ms + 5000);
        let mut ans = String::new();
        loop { let left = dl.saturating_duration_since(Instant::now()); match self.z3.as_ref().unwrap().rx.recv_timeout(left) { Ok(l) => { if l.contains("@@") { break; } if l.starts_with("(error") { self.z3 = None; return Err(format!("solver error {l}")); } ans = l; } Err(RecvTimeoutError::Timeout) | Err(_) => { self.z3 = None; return Err("timeout".into()); } } }
        match ans.as_str() {
            "unsat" => Ok(None),
            "sat" => {
                if gv.is_empty() { return Ok(Some(vec![])); }
                let p = self.z3.as_mut().unwrap();
                let _ = p.stdin.write_all(format!("{}(echo \"@@\")\n", gv).as_bytes()); let _ = p.stdin.flush();
                let mut out = String::new();
                loop { match p.rx.recv_timeout(Duration::from_millis(20000)) { Ok(l) => { if l.contains("@@") { break; } if l.starts_with("(error") { self.z3 = None; return Err(l); } out.push_str(&l); out.push(' '); } Err(_) => { self.z3 = None; return Err("timeout".into()); } } }
                let sx = parse_sx(&out);
                if let Some(Sx::L(l)) = sx.into_iter().next() { Ok(Some(l.into_iter().map(|e| if let Sx::L(mut kv) = e { kv.pop().unwrap() } else { e }).collect())) } else { Err("model".into()) }
            }
            a => Err(a.to_string()),
        }
    }

    fn ask_portfolio(&mut self, script: &str, getv: &[String], ms: u64) -> Result<Option<Vec<Sx>>, String> {
        let gv = if getv.is_empty() { String::new() } else { format!("(get-value ({}))\n", getv.join(" ")) };
        let secs = (ms / 1000).max(1);
        let tl = format!("-T:{}", secs); let ctl = format!("--tlimit={}", ms);
        let tactic = "(check-sat-using (then simplify propagate-values fpa2bv simplify solve-eqs elim-uncnstr bv-size-reduction max-bv-sharing ackermannize_bv bit-blast sat))\n";
        let configs: Vec<(String, Vec<String>, String)> = vec![
            (self.z3cmd.clone(), vec!["-in".into(), "-smt2".into(), tl.clone()], format!("{}(check-sat)\n{}", script, gv)),
            (self.z3cmd.clone(), vec!["-in".into(), "-smt2".into(), tl.clone()], format!("{}{}{}", script, tactic, gv)),
            (self.cvc5.clone(), vec!["--lang=smt2".into(), ctl.clone(), "--fp-exp".into()], format!("(set-logic QF_BVFP)\n{}(check-sat)\n{}", script, gv)),
        ];
        let mut procs: Vec<Proc> = vec![];
        for (c, a, s) in &configs { let a: Vec<&str> = a.iter().map(|x| x.as_str()).collect(); let mut p = spawn(c, &a); let s = s.clone() + "(exit)\n"; let _ = p.stdin.write_all(s.as_bytes()); let _ = p.stdin.flush(); procs.push(p); }
        let dl = Instant::now() + Duration::from_millis(ms + 2000);
        let mut dead = vec![false; procs.len()]; let mut outs = vec![String::new(); procs.len()];
        loop {
            let mut alive = false;
            for i in 0..procs.len() { if dead[i] { continue; } alive = true;
                loop { match procs[i].rx.try_recv() { Ok(l) => { if l.starts_with("(error") { dead[i] = true; break; } outs[i].push_str(&l); outs[i].push(' ');
                        let first = outs[i].split_whitespace().next().unwrap_or("").to_string();
                        if first == "unsat" { return Ok(None); }
                        if first == "unknown" || first == "timeout" { dead[i] = true; break; }
                        if first == "sat" { // need the rest
                            let mut t = outs[i].clone(); let d2 = Instant::now() + Duration::from_secs(10);
                            while Instant::now() < d2 { match procs[i].rx.recv_timeout(Duration::from_millis(500)) { Ok(l) => { t.push_str(&l); t.push(' '); } Err(RecvTimeoutError::Disconnected) => break, Err(_) => { if t.matches('(').count() == t.matches(')').count() && t.contains('(') { break; } } } }
                            if getv.is_empty() { return Ok(Some(vec![])); }
                            let body = t.trim_start().strip_prefix("sat").unwrap_or("").to_string();
                            if let Some(Sx::L(l)) = parse_sx(&body).into_iter().next() { return Ok(Some(l.into_iter().map(|e| if let Sx::L(mut kv) = e { kv.pop().unwrap() } else { e }).collect())); }
                            dead[i] = true; break; } }
                    Err(std::sync::mpsc::TryRecvError::Empty) => break, Err(_) => { dead[i] = true; break; } } } }
            if !alive { return Err("portfolio: no answer".into()); }
            if Instant::now() > dl { return Err("portfolio: timeout".into()); }
            std::thread::sleep(Duration::from_millis(10));
        }
    }

    /// Does the model make every term of the query true (with host libm)?
    pub fn satisfies(&mut self, tm: &Tm, q: &[T], m: &Model) -> bool { self.ev.begin(tm); for &t in q { if self.ev.eval(tm, m, t) == 0 { return false; } } true }
    pub fn eval(&mut self, tm: &Tm, m: &Model, t: T) -> u128 { self.ev.begin(tm); self.ev.eval(tm, m, t) }

    /// Decide the conjunction of q (already sliced).  `hint`: a model to try nearby (its values are used for variables
    /// the solver does not mention).
    pub fn check(&mut self, tm: &mut Tm, q: &[T], hint: &Model) -> Res {
        let mut q: Vec<T> = q.to_vec(); q.sort_unstable(); q.dedup();
        if q.iter().any(|t| tm.cv(*t) == Some(0)) { return Res::Unsat; }
        q.retain(|t| tm.cv(*t).is_none());
        if let Some(r) = self.cache.get(&q) { self.st.cache_hits += 1; return match r { None => Res::Unsat, Some(m) => Res::Sat(m.clone()) }; }
        let t0 = Instant::now();
        self.st.queries += 1;
        let r = self.check2(tm, &q, hint);
        let dt = t0.elapsed().as_secs_f64(); self.st.solver_s += dt; if dt > self.st.max_query_s { self.st.max_query_s = dt; }
        if dt > 0.25 && std::env::var("RAWSYM_TRACEQ").is_ok() { eprintln!("SLOW {:.2} s query {} -> {}", dt, self.st.queries, match &r { Res::Sat(_) => "sat", Res::Unsat => "unsat", _ => "unknown" }); }
        match &r { Res::Sat(m) => { self.st.sat += 1; self.cache.insert(q, Some(m.clone())); } Res::Unsat => { self.st.unsat += 1; self.cache.insert(q, None); } Res::Unknown => { self.st.unknown += 1; } }
        r
    }
    /// Try some assignments near `base` and at random: only ever finds witnesses, which are then exact.
    fn guess(&mut self, tm: &Tm, q: &[T], cone: &[T], base: &Model, tries: usize, salt: u64) -> Option<Model> {
        let vars: Vec<(u32, T)> = cone.iter().filter(|t| tm.n[**t as usize].op == Op::Var).map(|t| (tm.n[*t as usize].k as u32, *t)).collect();
        if vars.is_empty() { return None; }
        let mut x = 0x9E3779B97F4A7C15u64 ^ self.st.queries.wrapping_mul(0xD1B54A32D192ED03) ^ salt;
        let mut rnd = || { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x };
        for k in 0..tries {
            let mut m = base.clone();
            for &(v, tv) in &vars {
                if k > 2 && rnd() % 3 == 0 { continue; }
                let info = &tm.vars[v as usize]; let fr = tm.fr[tv as usize]; let r = rnd(); let u = (rnd() >> 11) as f64 / (1u64 << 53) as f64;
                let fl = |lo: f64, hi: f64, b: f64| -> f64 { (match r % 8 { 0 => lo, 1 => hi, 2 => b + (u - 0.5) * 1e-3 * (1.0 + b.abs()), 3 => b + (u - 0.5) * 0.2 * (1.0 + b.abs()), 4 => (lo + (hi - lo) * u).round(), 5 => 0.0, _ => lo + (hi - lo) * u }).clamp(lo, hi) };
                let bits = match info.kind {
                    VarKind::F32 { lo, hi } => (fl(fr.lo.max(lo as f64), fr.hi.min(hi as f64), m.get(&v).map(|b| f32::from_bits(*b as u32) as f64).unwrap_or(0.0)) as f32).clamp(lo, hi).to_bits() as u128,
                    VarKind::F64 { lo, hi } => fl(fr.lo.max(lo), fr.hi.min(hi), m.get(&v).map(|b| f64::from_bits(*b as u64)).unwrap_or(0.0)).to_bits() as u128,
                    VarKind::Bits { lo, hi } => { let span = hi.wrapping_sub(lo); (match r % 3 { 0 => lo, 1 => hi, _ => if span == u64::MAX { rnd() } else { lo + rnd() % (span + 1) } }) as u128 & mask(info.w) }
                    VarKind::SInt { lo, hi } => { let span = hi.wrapping_sub(lo) as u64; (match r % 3 { 0 => lo, 1 => hi, _ => if span == u64::MAX { rnd() as i64 } else { lo.wrapping_add((rnd() % (span + 1)) as i64) } }) as u128 & mask(info.w) }
                    VarKind::Raw => if r % 2 == 0 { if info.w == 32 { ((u as f32 - 0.5) * 4.0).to_bits() as u128 } else { ((u - 0.5) * 4.0).to_bits() as u128 & mask(info.w) } } else { rnd() as u128 & mask(info.w) },
                };
                m.insert(v, bits);
            }
            if self.satisfies(tm, q, &m) { self.st.confirmed_sat += 1; return Some(m); }
        }
        None
    }
    fn check2(&mut self, tm: &mut Tm, q: &[T], hint: &Model) -> Res {
        if std::env::var("RAWSYM_TRACEQ").is_ok() { eprintln!("query {} roots, cone {}", q.len(), tm.cone(q).len()); if std::env::var("RAWSYM_TRACEQ").unwrap() == "3" { for t in tm.cone(q) { eprintln!("  t{} {:?} fr {:?} ur {:?}", t, tm.n[t as usize], tm.fr[t as usize], tm.ur[t as usize]); } } }
        if self.satisfies(tm, q, hint) { return Res::Sat(hint.clone()); }
        let cone = tm.cone(q);
        let hasfp = cone.iter().any(|t| is_fp_op(tm.n[*t as usize].op));
        if !hasfp || !self.use_icp { return self.check3(tm, q, hint, &cone, hasfp); }
        // contract the ranges of all terms under the query (restored afterwards): refutes it, or helps the solver
        let saved = icp::save(tm, &cone);
        if self.selftest { self.self_test(tm, &cone, &saved); }
        let t0 = Instant::now();
        // rounding to integers: bisection first; otherwise linear reasoning is given a chance before long bisection
        let integral = cone.iter().any(|t| matches!(tm.n[*t as usize].op, Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRint | Op::FRound | Op::FToU | Op::FToS | Op::FToUSat | Op::FToSSat));
        let first = icp::solve(tm, &mut self.ev, q, &cone, hint, if integral { self.icp_boxes } else { 100 }, 1, 300);
        self.st.icp_s += t0.elapsed().as_secs_f64();
        let mut r = self.after_icp(tm, q, hint, &saved, first);
        if r.is_none() {
            // a few variables: bisection first; several: linear reasoning first
            let free = cone.iter().filter(|t| tm.n[**t as usize].op == Op::Var && icp::width(tm, **t) > 0.0).count();
            for (i, stage) in if free == 1 { [2, 1, 0] } else if free == 2 { [3, 1, 0] } else { [1, 0, 0] }.into_iter().enumerate() {
                if free > 2 && i == 2 { break; }
                if r.is_some() { break; }
                if stage == 1 {
                    if self.use_real { for relative in [false, true] { if let Some((s, _)) = emit_real(tm, q, &[], relative) { if let Ok(None) = self.ask(&s, &[], self.real_ms / 8) { self.st.by_real += 1; r = Some(Res::Unsat); break; } } } }
                } else {
                    let t0 = Instant::now();
                    let (boxes, ms) = match stage { 2 => (10_000, 300), 3 => (5_000, 100), _ => if free <= 1 { (self.icp_boxes * 20, 6000) } else { (self.icp_boxes, 1000) } };
                    let second = icp::solve(tm, &mut self.ev, q, &cone, hint, boxes, 3, ms);
                    self.st.icp_s += t0.elapsed().as_secs_f64();
                    r = self.after_icp(tm, q, hint, &saved, second);
                }
            }
        }
        let r = match r { Some(r) => r, None => self.check3(tm, q, hint, &cone, hasfp) };
        icp::restore(tm, &saved);
        r
    }
    /// Contract without any assumption and compare the ranges with the values under random assignments.
    fn self_test(&mut self, tm: &mut Tm, cone: &[T], saved: &icp::Saved) {
        let _ = icp::solve(tm, &mut self.ev, &[], cone, &Model::default(), 0, 0, 100);
        let mut x = 0x9E3779B97F4A7C15u64 ^ (self.st.queries as u64).wrapping_mul(0x2545F4914F6CDD1D);
        let mut rnd = || { x ^= x << 13; x ^= x >> 7; x ^= x << 17; x };
        for _ in 0..3 {
            let mut m = Model::default();
            for v in 0..tm.vars.len() { let r = rnd(); let f = (r >> 11) as f64 / (1u64 << 53) as f64;
                let b = match tm.vars[v].kind { VarKind::F32 { lo, hi } => ((lo as f64 + (hi as f64 - lo as f64) * f) as f32).clamp(lo, hi).to_bits() as u128, VarKind::F64 { lo, hi } => (lo + (hi - lo) * f).clamp(lo, hi).to_bits() as u128,
                    VarKind::SInt { lo, hi } => ((lo as i128 + ((hi as i128 - lo as i128) as f64 * f) as i128) as u128) & mask(tm.vars[v].w), VarKind::Bits { lo, hi } => lo as u128 + ((hi - lo) as f64 * f) as u128, VarKind::Raw => r as u128 & mask(tm.vars[v].w) };
                m.insert(v as u32, b); }
            self.ev.begin(tm);
            for &t in cone {
                let v = self.ev.eval(tm, &m, t); let n = tm.n[t as usize]; let (f, u, s) = (tm.fr[t as usize], tm.ur[t as usize], tm.sr[t as usize]);
                let bad = |what: &str| { eprintln!("RANGE TEST FAILED: t{} {:?} value {:x} {} fr {:?} ur {:?} sr {:?}", t, n, v, what, f, u, s); std::process::exit(3); };
                if v < u.0 || v > u.1 { bad("unsigned"); }
                if n.w > 1 && n.w <= 64 && (sx(v, n.w) < s.0 || sx(v, n.w) > s.1) { bad("signed"); }
                if (n.w == 32 || n.w == 64) && f != FULL && (is_fp_op(n.op) || matches!(n.op, Op::Var | Op::Const)) { let x = if n.w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) }; if x.is_nan() { if !f.nan { bad("nan"); } } else if x < f.lo || x > f.hi { bad("float"); } }
                self.st.range_tests += 1;
            }
        }
        icp::restore(tm, saved);
    }
    fn after_icp(&mut self, tm: &mut Tm, q: &[T], hint: &Model, saved: &icp::Saved, v: icp::Verdict) -> Option<Res> {
        match v {
            icp::Verdict::Open => None,
            icp::Verdict::Model(m) => { self.st.confirmed_sat += 1; Some(Res::Sat(m)) }
            icp::Verdict::Unsat => {
                // a sample of the refutations is put to the SMT solver as well
                self.st.by_icp += 1;
                if self.recheck > 0 && self.st.icp_asked < self.recheck && (self.st.by_icp - 1) % self.recheck_step == 0 {
                    self.recheck_step *= if self.recheck < 10 { 4 } else { 2 };
                    self.st.icp_asked += 1;
                    icp::restore(tm, saved);
                    let (s, vars) = emit_bits(tm, q, &[], true);
                    let gv: Vec<String> = vars.iter().map(|v| v.1.clone()).collect();
                    match self.ask(&s, &gv, 500) {
                        Ok(None) => self.st.icp_agreed += 1,
                        Ok(Some(vs)) => { let mut m = hint.clone(); for ((v, _), x) in vars.iter().zip(vs.iter()) { if let Some(b) = val_bits(x, tm.vars[*v as usize].w) { m.insert(*v, b); } }
                            if self.satisfies(tm, q, &m) { eprintln!("INTERVAL REASONING REFUTED A SATISFIABLE QUERY"); std::process::exit(3); } }
                        Err(_) => {}
                    }
                }
                Some(Res::Unsat)
            }
        }
    }
    fn check3(&mut self, tm: &mut Tm, q: &[T], hint: &Model, cone: &[T], hasfp: bool) -> Res {
        let ufs: Vec<T> = cone.iter().copied().filter(|t| { let o = tm.n[*t as usize].op; o == Op::Uf || o == Op::FRem }).collect();
        if hasfp { if let Some(m) = self.guess(tm, q, cone, hint, if cone.len() < 3000 { 24 } else { 4 }, 0) { return Res::Sat(m); } }
        let mut lemmas: Vec<UfLemma> = vec![];
        let mut seen: HashSet<(T, u128, u128)> = HashSet::new();
        // anchor points of monotone functions
        for &u in &ufs {
            let n = tm.n[u as usize]; if n.op != Op::Uf { continue; }
            let bits = |v: f64| if n.w == 32 { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 };
            let nm = tm.uf_names[n.k as usize].clone();
            let pts: &[(f64, f64)] = match nm.as_str() { "exp" => &[(0.0, 1.0), (1.0, std::f64::consts::E), (-1.0, 0.36787944117144233)], "exp2" => &[(0.0, 1.0), (1.0, 2.0), (-1.0, 0.5)], "log" => &[(1.0, 0.0), (2.0, std::f64::consts::LN_2), (0.5, -std::f64::consts::LN_2)], "log2" => &[(1.0, 0.0), (2.0, 1.0), (0.5, -1.0)], "log10" => &[(1.0, 0.0), (10.0, 1.0)], "tanh" | "atan" | "sinh" | "expm1" | "log1p" | "cbrt" => &[(0.0, 0.0)], _ => &[] };
            for &(x, y) in pts { lemmas.push(UfLemma { app: u, args: [bits(x), 0], val: bits(y) }); }
            if nm == "pow" {
                if let Some(c) = tm.cv(n.a) { lemmas.push(UfLemma { app: u, args: [c, bits(0.0)], val: bits(1.0) }); }
                if let Some(c) = tm.cv(n.b) { lemmas.push(UfLemma { app: u, args: [bits(1.0), c], val: bits(1.0) }); }
            }
        }
        let mut give_up_real = !(self.use_real && hasfp);
        let mut relative = false;
        for round in 0..60 {
            if round > 0 { self.st.cegar += 1; }
            if round == 5 { relative = true; }
            let mut cand: Option<Model> = None;
            if !give_up_real {
                if let Some((s, vars)) = emit_real(tm, q, &lemmas, relative) {
                    if let Some(d) = &self.dump { let _ = std::fs::write(format!("{}/q{}_r{}.smt2", d, self.st.queries, round), format!("{}(check-sat)\n", s)); }
                    let gv: Vec<String> = vars.iter().map(|v| v.1.clone()).collect();
                    match self.ask(&s, &gv, self.real_ms) {
                        Ok(None) => { self.st.by_real += 1; return Res::Unsat; }
                        Ok(Some(vs)) => {
                            let mut m = hint.clone();
                            for ((v, _, isr), x) in vars.iter().zip(vs.iter()) { let info = &tm.vars[*v as usize]; if *isr { if let Some(f) = real_of(x) { let bits = match info.kind { VarKind::F32 { lo, hi } => (f as f32).clamp(lo, hi).to_bits() as u128, VarKind::F64 { lo, hi } => f.clamp(lo, hi).to_bits() as u128, VarKind::SInt { lo, hi } => ((f.round() as i128).clamp(lo as i128, hi as i128) as u128) & mask(info.w), VarKind::Bits { lo, hi } => ((f.round() as i128).clamp(lo as i128, hi as i128) as u128) & mask(info.w), VarKind::Raw => if info.w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 } }; m.insert(*v, bits); } } else if let Some(b) = val_bits(x, info.w) { m.insert(*v, b); } }
                            if self.satisfies(tm, q, &m) { self.st.by_real += 1; self.st.confirmed_sat += 1; return Res::Sat(m); }
                            if let Some(m) = self.guess(tm, q, cone, &m, if cone.len() < 3000 { 40 } else { 8 }, round as u64 + 1) { return Res::Sat(m); }
                            cand = Some(m);
                        }
                        Err(e) => { self.last_unknown = e; if !relative { relative = true; continue; } give_up_real = true; }
                    }
                    if cand.is_some() && ufs.is_empty() { if !relative { relative = true; continue; } give_up_real = true; }
                } else { give_up_real = true; }
            }
            if give_up_real {
                let (s, vars) = emit_bits(tm, q, &lemmas, true);
                if let Some(d) = &self.dump { let _ = std::fs::write(format!("{}/q{}_b{}.smt2", d, self.st.queries, round), format!("{}(check-sat)\n", s)); }
                let gv: Vec<String> = vars.iter().map(|v| v.1.clone()).collect();
                let mut r = self.ask(&s, &gv, self.quick_ms);
                let mut pf = false;
                if r.is_err() { if std::env::var("RAWSYM_TRACEQ").is_ok() { eprintln!("  -> portfolio {:?}", r.as_ref().err()); } pf = true; r = self.ask_portfolio(&s, &gv, self.hard_ms); }
                match r {
                    Ok(None) => { if pf { self.st.by_portfolio += 1 } else { self.st.by_bits += 1 } return Res::Unsat; }
                    Ok(Some(vs)) => {
                        let mut m = hint.clone();
                        for ((v, _), x) in vars.iter().zip(vs.iter()) { if let Some(b) = val_bits(x, tm.vars[*v as usize].w) { m.insert(*v, b); } }
                        if pf { self.st.by_portfolio += 1 } else { self.st.by_bits += 1 }
                        if self.satisfies(tm, q, &m) { self.st.confirmed_sat += 1; return Res::Sat(m); }
                        if ufs.is_empty() { return Res::Sat(m); } // NaN payload freedom; replay decides
                        cand = Some(m);
                    }
                    Err(e) => { self.last_unknown = e; return Res::Unknown; }
                }
            }
            // refine libm applications at the candidate point
            let Some(m) = cand else { continue };
            let mut progress = false;
            self.ev.begin(tm);
            for &u in &ufs { let n = tm.n[u as usize]; let two = n.op == Op::FRem || tm.uf_arity(n.k) == 2; let a = self.ev.eval(tm, &m, n.a); let b = if two { self.ev.eval(tm, &m, n.b) } else { 0 }; let v = self.ev.eval(tm, &m, u); if seen.insert((u, a, b)) { lemmas.push(UfLemma { app: u, args: [a, b], val: v }); progress = true; } }
            if !progress { if !give_up_real { if !relative { relative = true; } else { give_up_real = true; } continue; } self.last_unknown = "libm refinement made no progress".into(); return Res::Unknown; }
        }
        self.last_unknown = "libm refinement limit".into();
        Res::Unknown
    }
}
