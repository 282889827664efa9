//! Hash-consed bit-vector terms.  Floating-point values are bit-vectors of width 32/64 (IEEE-754 patterns); the
//! floating-point operators take and return such patterns.  Width-1 terms double as booleans.
use std::collections::HashMap;
use std::rc::Rc;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var,
    Not, And, Or, Xor, Add, Sub, Mul, UDiv, URem, SDiv, SRem, Shl, LShr, AShr,
    Concat, Extract, ZExt, SExt,
    Eq, Ult, Ule, Slt, Sle, Ite,
    // floating point
    FAdd, FSub, FMul, FDiv, FRem, FSqrt, FNeg, FAbs, FMin, FMax, FFma,
    FFloor, FCeil, FTrunc, FRint, FRound,
    FEq, FLt, FLe, FNan,
    FExt, FNarrow, SToF, UToF, FToS, FToU, FToSSat, FToUSat,
    // uninterpreted libm function: k = function index
    Uf,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: T, pub b: T, pub c: T, pub k: u128 }

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct FR { pub lo: f64, pub hi: f64, pub nan: bool } // value range of the float view
pub const FULL: FR = FR { lo: f64::NEG_INFINITY, hi: f64::INFINITY, nan: true };

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum VarKind { Bits { lo: u64, hi: u64 }, SInt { lo: i64, hi: i64 }, F32 { lo: f32, hi: f32 }, F64 { lo: f64, hi: f64 }, Raw }

pub struct VarInfo { pub name: String, pub w: u16, pub kind: VarKind, pub term: T }

pub struct Tm {
    pub n: Vec<Node>,
    map: HashMap<Node, T, std::hash::BuildHasherDefault<Fx>>,
    pub fr: Vec<FR>,
    pub ur: Vec<(u128, u128)>,
    pub sr: Vec<(i128, i128)>, // signed range
    pub vars: Vec<VarInfo>,
    var_ix: HashMap<(String, u16, u64, u64, u8), u32>,
    vs: Vec<Option<Rc<Vec<u32>>>>,
    pub uf_names: Vec<String>,
}

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for c in b { self.write_u64(*c as u64) } }
    fn write_u8(&mut self, i: u8) { self.write_u64(i as u64) }
    fn write_u16(&mut self, i: u16) { self.write_u64(i as u64) }
    fn write_u32(&mut self, i: u32) { self.write_u64(i as u64) }
    fn write_u64(&mut self, i: u64) { self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95) }
    fn write_u128(&mut self, i: u128) { self.write_u64(i as u64); self.write_u64((i >> 64) as u64) }
    fn write_usize(&mut self, i: usize) { self.write_u64(i as u64) }
    fn write_isize(&mut self, i: isize) { self.write_u64(i as u64) }
}

#[inline] pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
#[inline] pub fn sx(v: u128, w: u16) -> i128 { if w >= 128 { v as i128 } else { let s = 128 - w as u32; ((v << s) as i128) >> s } }
#[inline] fn f32b(v: u128) -> f32 { f32::from_bits(v as u32) }
#[inline] fn f64b(v: u128) -> f64 { f64::from_bits(v as u64) }

pub fn uf_eval(name: &str, w: u16, a: u128, b: u128) -> u128 {
    extern "C" {
        fn sinf(x: f32) -> f32; fn cosf(x: f32) -> f32; fn tanf(x: f32) -> f32; fn expf(x: f32) -> f32; fn exp2f(x: f32) -> f32; fn logf(x: f32) -> f32;
        fn log2f(x: f32) -> f32; fn log10f(x: f32) -> f32; fn powf(x: f32, y: f32) -> f32; fn tanhf(x: f32) -> f32; fn atanf(x: f32) -> f32; fn asinf(x: f32) -> f32;
        fn acosf(x: f32) -> f32; fn sinhf(x: f32) -> f32; fn coshf(x: f32) -> f32; fn fmodf(x: f32, y: f32) -> f32; fn cbrtf(x: f32) -> f32; fn hypotf(x: f32, y: f32) -> f32; fn atan2f(x: f32, y: f32) -> f32;
        fn expm1f(x: f32) -> f32; fn log1pf(x: f32) -> f32;
        fn sin(x: f64) -> f64; fn cos(x: f64) -> f64; fn tan(x: f64) -> f64; fn exp(x: f64) -> f64; fn exp2(x: f64) -> f64; fn log(x: f64) -> f64;
        fn log2(x: f64) -> f64; fn log10(x: f64) -> f64; fn pow(x: f64, y: f64) -> f64; fn tanh(x: f64) -> f64; fn atan(x: f64) -> f64; fn asin(x: f64) -> f64;
        fn acos(x: f64) -> f64; fn sinh(x: f64) -> f64; fn cosh(x: f64) -> f64; fn fmod(x: f64, y: f64) -> f64; fn cbrt(x: f64) -> f64; fn hypot(x: f64, y: f64) -> f64; fn atan2(x: f64, y: f64) -> f64;
        fn expm1(x: f64) -> f64; fn log1p(x: f64) -> f64;
    }
    unsafe {
        if w == 32 {
            let (x, y) = (f32b(a), f32b(b));
            let r = match name {
                "sin" => sinf(x), "cos" => cosf(x), "tan" => tanf(x), "exp" => expf(x), "exp2" => exp2f(x), "log" => logf(x), "log2" => log2f(x), "log10" => log10f(x),
                "pow" => powf(x, y), "tanh" => tanhf(x), "atan" => atanf(x), "asin" => asinf(x), "acos" => acosf(x), "sinh" => sinhf(x), "cosh" => coshf(x), "fmod" => fmodf(x, y),
                "cbrt" => cbrtf(x), "hypot" => hypotf(x, y), "atan2" => atan2f(x, y), "expm1" => expm1f(x), "log1p" => log1pf(x),
                _ => panic!("libm function {name}"),
            };
            r.to_bits() as u128
        } else {
            let (x, y) = (f64b(a), f64b(b));
            let r = match name {
                "sin" => sin(x), "cos" => cos(x), "tan" => tan(x), "exp" => exp(x), "exp2" => exp2(x), "log" => log(x), "log2" => log2(x), "log10" => log10(x),
                "pow" => pow(x, y), "tanh" => tanh(x), "atan" => atan(x), "asin" => asin(x), "acos" => acos(x), "sinh" => sinh(x), "cosh" => cosh(x), "fmod" => fmod(x, y),
                "cbrt" => cbrt(x), "hypot" => hypot(x, y), "atan2" => atan2(x, y), "expm1" => expm1(x), "log1p" => log1p(x),
                _ => panic!("libm function {name}"),
            };
            r.to_bits() as u128
        }
    }
}

fn minnum<F: PartialOrd + Copy>(a: F, b: F, lt: bool) -> F { if (a < b) == lt { a } else { b } }

fn frint64(x: f64) -> f64 { x.round_ties_even() }

/// Concrete semantics of one operator.
pub fn eval_op(op: Op, w: u16, aw: u16, bw: u16, k: u128, a: u128, b: u128, c: u128, ufn: &[String]) -> u128 {
    let m = mask(w);
    macro_rules! f2 { ($f:expr) => {{ if aw == 32 { let g: fn(f32, f32) -> f32 = $f; g(f32b(a), f32b(b)).to_bits() as u128 } else { unreachable!() } }} }
    macro_rules! ff { ($x:ident, $y:ident, $e:expr) => {{ if aw == 32 { let ($x, $y) = (f32b(a), f32b(b)); let r: f32 = $e; r.to_bits() as u128 } else { let ($x, $y) = (f64b(a), f64b(b)); let r: f64 = $e; r.to_bits() as u128 } }} }
    macro_rules! fc { ($x:ident, $y:ident, $e:expr) => {{ if aw == 32 { let ($x, $y) = (f32b(a), f32b(b)); ($e) as u128 } else { let ($x, $y) = (f64b(a), f64b(b)); ($e) as u128 } }} }
    let _ = |x: u128| { let _ = x; f2!(|p, q| p + q) };
    match op {
        Op::Const => k,
        Op::Var => panic!("eval var"),
        Op::Not => !a & m,
        Op::And => a & b, Op::Or => a | b, Op::Xor => a ^ b,
        Op::Add => a.wrapping_add(b) & m, Op::Sub => a.wrapping_sub(b) & m, Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b }, Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m } }
        Op::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m } }
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 }; ((sx(a, w) >> s) as u128) & m }
        Op::Concat => ((a << bw) | b) & m,
        Op::Extract => (a >> k) & m,
        Op::ZExt => a, Op::SExt => (sx(a, aw) as u128) & m,
        Op::Eq => (a == b) as u128, Op::Ult => (a < b) as u128, Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, aw) < sx(b, aw)) as u128, Op::Sle => (sx(a, aw) <= sx(b, aw)) as u128,
        Op::Ite => if a != 0 { b } else { c },
        Op::FAdd => ff!(x, y, x + y), Op::FSub => ff!(x, y, x - y), Op::FMul => ff!(x, y, x * y), Op::FDiv => ff!(x, y, x / y), Op::FRem => ff!(x, y, x % y),
        Op::FSqrt => ff!(x, _y, x.sqrt()),
        Op::FNeg => a ^ (1u128 << (w - 1)), Op::FAbs => a & !(1u128 << (w - 1)),
        Op::FMin => ff!(x, y, if x.is_nan() { y } else if y.is_nan() { x } else { minnum(x, y, true) }),
        Op::FMax => ff!(x, y, if x.is_nan() { y } else if y.is_nan() { x } else { minnum(x, y, false) }),
        Op::FFma => if aw == 32 { f32b(a).mul_add(f32b(b), f32b(c)).to_bits() as u128 } else { f64b(a).mul_add(f64b(b), f64b(c)).to_bits() as u128 },
        Op::FFloor => ff!(x, _y, x.floor()), Op::FCeil => ff!(x, _y, x.ceil()), Op::FTrunc => ff!(x, _y, x.trunc()),
        Op::FRint => if aw == 32 { (f32b(a).round_ties_even()).to_bits() as u128 } else { frint64(f64b(a)).to_bits() as u128 },
        Op::FRound => ff!(x, _y, x.round()),
        Op::FEq => fc!(x, y, x == y), Op::FLt => fc!(x, y, x < y), Op::FLe => fc!(x, y, x <= y), Op::FNan => fc!(x, _y, x.is_nan()),
        Op::FExt => (f32b(a) as f64).to_bits() as u128,
        Op::FNarrow => (f64b(a) as f32).to_bits() as u128,
        Op::SToF => { let v = sx(a, aw); if w == 32 { (v as f32).to_bits() as u128 } else { (v as f64).to_bits() as u128 } }
        Op::UToF => if w == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 },
        Op::FToS | Op::FToSSat => { let v: i128 = if aw == 32 { f32b(a) as i128 } else { f64b(a) as i128 };
            let (lo, hi) = (if w >= 128 { i128::MIN } else { -(1i128 << (w - 1)) }, if w >= 128 { i128::MAX } else { (1i128 << (w - 1)) - 1 });
            (v.clamp(lo, hi) as u128) & m }
        Op::FToU | Op::FToUSat => { let v: u128 = if aw == 32 { f32b(a) as u128 } else { f64b(a) as u128 }; v.min(m) }
        Op::Uf => uf_eval(&ufn[k as usize], w, a, b),
    }
}

fn d32(x: f64) -> f64 { x as f32 as f64 }

impl Tm {
    pub fn new() -> Self {
        let mut t = Tm { n: vec![], map: HashMap::default(), fr: vec![], ur: vec![], sr: vec![], vars: vec![], var_ix: HashMap::new(), vs: vec![], uf_names: vec![] };
        t.cst(0, 1); t.cst(1, 1); // ids 0 and 1 = false and true
        t
    }
    #[inline] pub fn w(&self, t: T) -> u16 { self.n[t as usize].w }
    #[inline] pub fn cv(&self, t: T) -> Option<u128> { let n = &self.n[t as usize]; if n.op == Op::Const { Some(n.k) } else { None } }
    fn raw(&mut self, op: Op, w: u16, a: T, b: T, c: T, k: u128) -> T {
        let nd = Node { op, w, a, b, c, k };
        if let Some(&t) = self.map.get(&nd) { return t; }
        let id = self.n.len() as T;
        let fr = self.calc_fr(&nd);
        let mut ur = self.calc_ur(&nd);
        let mut sr = self.calc_sr(&nd);
        if w <= 64 { let half = (mask(w) >> 1) as i128;
            if ur.1 <= half as u128 { sr = (sr.0.max(ur.0 as i128), sr.1.min(ur.1 as i128)); }
            if sr.0 >= 0 { ur = (ur.0.max(sr.0 as u128), ur.1.min(sr.1 as u128)); } }
        self.n.push(nd); self.map.insert(nd, id); self.fr.push(fr); self.ur.push(ur); self.sr.push(sr); self.vs.push(None);
        id
    }
    pub fn cst(&mut self, v: u128, w: u16) -> T { self.raw(Op::Const, w, 0, 0, 0, v & mask(w)) }
    pub fn tru(&self) -> T { 1 }
    pub fn fls(&self) -> T { 0 }
    pub fn var(&mut self, name: &str, w: u16, kind: VarKind) -> T {
        let key = match kind { VarKind::Bits { lo, hi } => (lo, hi, 0), VarKind::SInt { lo, hi } => (lo as u64, hi as u64, 1), VarKind::F32 { lo, hi } => (lo.to_bits() as u64, hi.to_bits() as u64, 2), VarKind::F64 { lo, hi } => (lo.to_bits(), hi.to_bits(), 3), VarKind::Raw => (0, 0, 4) };
        let kk = (name.to_string(), w, key.0, key.1, key.2);
        if let Some(&i) = self.var_ix.get(&kk) { return self.vars[i as usize].term; }
        let i = self.vars.len() as u32;
        self.vars.push(VarInfo { name: name.to_string(), w, kind, term: 0 });
        let t = self.raw(Op::Var, w, 0, 0, 0, i as u128);
        self.vars[i as usize].term = t;
        self.var_ix.insert(kk, i);
        t
    }
    /// Constraints implied by the declaration of a variable.
    pub fn var_bounds(&mut self, t: T) -> Vec<T> {
        let i = self.n[t as usize].k as usize;
        let w = self.vars[i].w;
        match self.vars[i].kind {
            VarKind::Bits { lo, hi } => { let mut v = vec![]; if lo > 0 { let c = self.cst(lo as u128, w); v.push(self.raw(Op::Ule, 1, c, t, 0, 0)); } if (hi as u128) < mask(w) { let c = self.cst(hi as u128, w); v.push(self.raw(Op::Ule, 1, t, c, 0, 0)); } v }
            VarKind::SInt { lo, hi } => { let a = self.cst(lo as i128 as u128, w); let b = self.cst(hi as i128 as u128, w); vec![self.raw(Op::Sle, 1, a, t, 0, 0), self.raw(Op::Sle, 1, t, b, 0, 0)] }
            VarKind::F32 { lo, hi } => { let a = self.cst(lo.to_bits() as u128, 32); let b = self.cst(hi.to_bits() as u128, 32); vec![self.raw(Op::FLe, 1, a, t, 0, 0), self.raw(Op::FLe, 1, t, b, 0, 0)] }
            VarKind::F64 { lo, hi } => { let a = self.cst(lo.to_bits() as u128, 64); let b = self.cst(hi.to_bits() as u128, 64); vec![self.raw(Op::FLe, 1, a, t, 0, 0), self.raw(Op::FLe, 1, t, b, 0, 0)] }
            VarKind::Raw => vec![],
        }
    }
    pub fn uf_id(&mut self, name: &str) -> u128 {
        if let Some(i) = self.uf_names.iter().position(|n| n == name) { return i as u128; }
        self.uf_names.push(name.to_string()); (self.uf_names.len() - 1) as u128
    }
    pub fn calc_ur(&self, nd: &Node) -> (u128, u128) {
        let m = mask(nd.w);
        let full = (0, m);
        let (a, b) = (nd.a as usize, nd.b as usize);
        match nd.op {
            Op::Const => (nd.k, nd.k),
            Op::Var => match self.vars[nd.k as usize].kind { VarKind::Bits { lo, hi } => (lo as u128, hi as u128), VarKind::SInt { lo, hi } if lo >= 0 => (lo as u128, hi as u128), _ => full },
            Op::ZExt => self.ur[a],
            Op::And => (0, self.ur[a].1.min(self.ur[b].1)),
            Op::Add => { let (x, y) = (self.ur[a], self.ur[b]); match x.1.checked_add(y.1) { Some(h) if h <= m => (x.0 + y.0, h), _ => {
                // adding a "negative" constant
                if y.0 == y.1 && nd.w <= 127 { let neg = (m + 1) - y.0; if neg <= x.0 { return (x.0 - neg, x.1 - neg); } }
                full } } }
            Op::Sub => { let (x, y) = (self.ur[a], self.ur[b]); if x.0 >= y.1 { (x.0 - y.1, x.1 - y.0) } else { full } }
            Op::Mul => { let (x, y) = (self.ur[a], self.ur[b]); match x.1.checked_mul(y.1) { Some(h) if h <= m => (x.0 * y.0, h), _ => full } }
            Op::UDiv => { let (x, y) = (self.ur[a], self.ur[b]); if y.0 > 0 { (x.0 / y.1, x.1 / y.0) } else { full } }
            Op::URem => { let (x, y) = (self.ur[a], self.ur[b]); if y.0 > 0 { if x.1 < y.0 { x } else { (0, x.1.min(y.1 - 1)) } } else { full } }
            Op::LShr => { let (x, y) = (self.ur[a], self.ur[b]); if y.0 == y.1 && y.0 < 128 { (x.0 >> y.0, x.1 >> y.0) } else { (0, x.1) } }
            Op::Shl => { let (x, y) = (self.ur[a], self.ur[b]); if y.0 == y.1 && y.0 < nd.w as u128 && x.1 <= (m >> y.0) { (x.0 << y.0, x.1 << y.0) } else { full } }
            Op::Ite => { let (x, y) = (self.ur[b], self.ur[nd.c as usize]); (x.0.min(y.0), x.1.max(y.1)) }
            Op::Extract => { let x = self.ur[a]; let k = nd.k as u32; if nd.k < 128 { let (l, h) = (x.0 >> k, x.1 >> k); if nd.w >= 128 || l >> nd.w == h >> nd.w { (l & m, h & m) } else { full } } else { full } }
            Op::Concat => { let bw = self.w(nd.b); let (x, y) = (self.ur[a], self.ur[b]); ((x.0 << bw) | y.0, (x.1 << bw) | y.1) }
            Op::FToU | Op::FToUSat => { let r = self.fr[a]; let lo = if r.nan || r.lo < 0.0 { 0.0 } else { r.lo.floor() }; let hi = r.hi.max(0.0).floor(); let cl = |x: f64| if x >= (2f64).powi(nd.w as i32) { m } else { x as u128 }; (cl(lo).min(m), cl(hi).min(m)) }
            Op::FToS | Op::FToSSat => { let r = self.fr[a]; if !r.nan && r.lo >= 0.0 { let cl = |x: f64| if x >= (2f64).powi(nd.w as i32 - 1) { m >> 1 } else { x as u128 }; (cl(r.lo.floor()), cl(r.hi.floor())) } else { full } }
            _ => full,
        }
    }
    pub fn calc_sr(&self, nd: &Node) -> (i128, i128) {
        let w = nd.w; if w > 64 { return (i128::MIN, i128::MAX); }
        let (mn, mx) = (-((mask(w) >> 1) as i128) - 1, (mask(w) >> 1) as i128);
        let full = (mn, mx);
        let fit = |lo: i128, hi: i128| if lo >= mn && hi <= mx { (lo, hi) } else { full };
        let (a, b) = (nd.a as usize, nd.b as usize);
        match nd.op {
            Op::Const => { let v = sx(nd.k, w); (v, v) }
            Op::Var => match self.vars[nd.k as usize].kind { VarKind::SInt { lo, hi } => (lo as i128, hi as i128), _ => full },
            Op::Add => { let (x, y) = (self.sr[a], self.sr[b]); fit(x.0 + y.0, x.1 + y.1) }
            Op::Sub => { let (x, y) = (self.sr[a], self.sr[b]); fit(x.0 - y.1, x.1 - y.0) }
            Op::Mul => { let (x, y) = (self.sr[a], self.sr[b]); let p = [x.0 * y.0, x.0 * y.1, x.1 * y.0, x.1 * y.1]; fit(*p.iter().min().unwrap(), *p.iter().max().unwrap()) }
            Op::Not => { let x = self.sr[a]; (-1 - x.1, -1 - x.0) }
            Op::SExt => self.sr[a],
            Op::ZExt => { let u = self.ur[a]; (u.0 as i128, u.1 as i128) }
            Op::Ite => { let (x, y) = (self.sr[b], self.sr[nd.c as usize]); (x.0.min(y.0), x.1.max(y.1)) }
            Op::Extract => if nd.k == 0 && self.w(nd.a) <= 64 { let x = self.sr[a]; fit(x.0, x.1) } else { full },
            Op::AShr => { let (x, y) = (self.sr[a], self.ur[b]); if y.0 == y.1 && y.0 < w as u128 { (x.0 >> y.0, x.1 >> y.0) } else { full } }
            Op::Shl => { let (x, y) = (self.sr[a], self.ur[b]); if y.0 == y.1 && y.0 < 62 { fit(x.0 << y.0, x.1 << y.0) } else { full } }
            Op::SDiv => { let (x, y) = (self.sr[a], self.sr[b]); if y.0 > 0 { let p = [x.0 / y.0, x.0 / y.1, x.1 / y.0, x.1 / y.1]; (*p.iter().min().unwrap(), *p.iter().max().unwrap()) } else { full } }
            Op::FToS | Op::FToSSat => { let r = self.fr[a]; if r.nan { return full; } let cl = |x: f64| if x >= mx as f64 { mx } else if x <= mn as f64 { mn } else { x as i128 }; (cl(r.lo.trunc()), cl(r.hi.trunc())) }
            _ => full,
        }
    }
    pub fn calc_fr(&self, nd: &Node) -> FR {
        if nd.w != 32 && nd.w != 64 { return FULL; }
        let f32w = nd.w == 32;
        let rnd = |x: f64| if f32w { d32(x) } else { x };
        let (a, b, c) = (nd.a as usize, nd.b as usize, nd.c as usize);
        let g = |x: usize| self.fr[x];
        match nd.op {
            Op::Const => { let v = if f32w { f32b(nd.k) as f64 } else { f64b(nd.k) }; if v.is_nan() { FULL } else { FR { lo: v, hi: v, nan: false } } }
            Op::Var => match self.vars[nd.k as usize].kind { VarKind::F32 { lo, hi } => FR { lo: lo as f64, hi: hi as f64, nan: false }, VarKind::F64 { lo, hi } => FR { lo, hi, nan: false }, _ => FULL },
            Op::Ite => { let (x, y) = (g(b), g(c)); FR { lo: x.lo.min(y.lo), hi: x.hi.max(y.hi), nan: x.nan || y.nan } }
            Op::FAdd | Op::FSub => {
                let x = g(a); let mut y = g(b); if nd.op == Op::FSub { y = FR { lo: -y.hi, hi: -y.lo, nan: y.nan }; }
                let nan = x.nan || y.nan || (x.hi == f64::INFINITY && y.lo == f64::NEG_INFINITY) || (x.lo == f64::NEG_INFINITY && y.hi == f64::INFINITY);
                let (mut lo, mut hi) = if f32w { ((x.lo as f32 + y.lo as f32) as f64, (x.hi as f32 + y.hi as f32) as f64) } else { (x.lo + y.lo, x.hi + y.hi) };
                if nd.op == Op::FSub && nd.a == nd.b && !nan { lo = 0.0; hi = 0.0; }
                if lo.is_nan() { lo = f64::NEG_INFINITY } if hi.is_nan() { hi = f64::INFINITY }
                FR { lo, hi, nan }
            }
            Op::FMul => {
                let (x, y) = (g(a), g(b));
                let inf = |r: FR| r.lo == f64::NEG_INFINITY || r.hi == f64::INFINITY;
                let z = |r: FR| r.lo <= 0.0 && r.hi >= 0.0;
                let nan = x.nan || y.nan || (inf(x) && z(y)) || (inf(y) && z(x));
                let ps = [(x.lo, y.lo), (x.lo, y.hi), (x.hi, y.lo), (x.hi, y.hi)];
                let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
                for (p, q) in ps { let v = if f32w { (p as f32 * q as f32) as f64 } else { p * q }; if v.is_nan() { lo = lo.min(0.0); hi = hi.max(0.0); } else { lo = lo.min(v); hi = hi.max(v); } }
                if nd.a == nd.b && lo < 0.0 { lo = 0.0; }
                FR { lo, hi, nan }
            }
            Op::FDiv => {
                let (x, y) = (g(a), g(b));
                if y.lo > 0.0 || y.hi < 0.0 {
                    let inf = |r: FR| r.lo == f64::NEG_INFINITY || r.hi == f64::INFINITY;
                    let nan = x.nan || y.nan || (inf(x) && inf(y));
                    let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
                    for (p, q) in [(x.lo, y.lo), (x.lo, y.hi), (x.hi, y.lo), (x.hi, y.hi)] { let v = if f32w { (p as f32 / q as f32) as f64 } else { p / q }; if v.is_nan() { lo = f64::NEG_INFINITY; hi = f64::INFINITY; } else { lo = lo.min(v); hi = hi.max(v); } }
                    FR { lo, hi, nan }
                } else if !x.nan && !y.nan && !(x.lo <= 0.0 && x.hi >= 0.0) && x.lo.is_finite() && x.hi.is_finite() { FR { nan: false, ..FULL } } else { FULL }
            }
            Op::FSqrt => { let x = g(a); FR { lo: if x.lo > 0.0 { if f32w { (x.lo as f32).sqrt() as f64 } else { x.lo.sqrt() } } else { 0.0 }, hi: if x.hi > 0.0 { if f32w { (x.hi as f32).sqrt() as f64 } else { x.hi.sqrt() } } else { 0.0 }, nan: x.nan || x.lo < 0.0 } }
            Op::FNeg => { let x = g(a); FR { lo: -x.hi, hi: -x.lo, nan: x.nan } }
            Op::FAbs => { let x = g(a); let m = x.lo.abs().max(x.hi.abs()); let lo = if x.lo > 0.0 { x.lo } else if x.hi < 0.0 { -x.hi } else { 0.0 }; FR { lo, hi: m, nan: x.nan } }
            Op::FMin | Op::FMax => { let (x, y) = (g(a), g(b)); let mut r = if nd.op == Op::FMin { FR { lo: x.lo.min(y.lo), hi: x.hi.min(y.hi), nan: x.nan && y.nan } } else { FR { lo: x.lo.max(y.lo), hi: x.hi.max(y.hi), nan: x.nan && y.nan } };
                if x.nan { r.lo = r.lo.min(y.lo); r.hi = r.hi.max(y.hi); } if y.nan { r.lo = r.lo.min(x.lo); r.hi = r.hi.max(x.hi); } r }
            Op::FFma => { let (x, y, z) = (g(a), g(b), g(c)); if x.nan || y.nan || z.nan || !x.lo.is_finite() || !x.hi.is_finite() || !y.lo.is_finite() || !y.hi.is_finite() || !z.lo.is_finite() || !z.hi.is_finite() { return FULL; }
                let (mut lo, mut hi) = (f64::INFINITY, f64::NEG_INFINITY);
                for (p, q) in [(x.lo, y.lo), (x.lo, y.hi), (x.hi, y.lo), (x.hi, y.hi)] { for s in [z.lo, z.hi] { let v = if f32w { (p as f32).mul_add(q as f32, s as f32) as f64 } else { p.mul_add(q, s) }; lo = lo.min(v); hi = hi.max(v); } }
                FR { lo, hi, nan: false } }
            Op::FFloor => { let x = g(a); FR { lo: x.lo.floor(), hi: x.hi.floor(), nan: x.nan } }
            Op::FCeil => { let x = g(a); FR { lo: x.lo.ceil(), hi: x.hi.ceil(), nan: x.nan } }
            Op::FTrunc => { let x = g(a); FR { lo: x.lo.trunc(), hi: x.hi.trunc(), nan: x.nan } }
            Op::FRint => { let x = g(a); FR { lo: frint64(x.lo), hi: frint64(x.hi), nan: x.nan } }
            Op::FRound => { let x = g(a); FR { lo: x.lo.round(), hi: x.hi.round(), nan: x.nan } }
            Op::FExt => g(a),
            Op::FNarrow => { let x = g(a); FR { lo: d32(x.lo), hi: d32(x.hi), nan: x.nan } }
            Op::UToF => { let (l, h) = self.ur[a]; let cv = |v: u128| if f32w { v as f32 as f64 } else { v as f64 }; FR { lo: cv(l), hi: cv(h), nan: false } }
            Op::SToF => { let cv = |v: i128| if f32w { v as f32 as f64 } else { v as f64 }; let (l, h) = self.sr[a]; FR { lo: cv(l), hi: cv(h), nan: false } }
            Op::Uf => {
                let nm = self.uf_names[nd.k as usize].as_str();
                let x = g(a);
                let fin = x.lo.is_finite() && x.hi.is_finite() && !x.nan;
                let slack = |lo: f64, hi: f64| { let e = if f32w { 4.0 * 1.2e-7 } else { 4.0 * 2.3e-16 }; FR { lo: rnd(lo - lo.abs() * e), hi: rnd(hi + hi.abs() * e), nan: false } };
                let ev = |v: f64| { let bits = if f32w { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }; let r = uf_eval(nm, nd.w, bits, 0); if f32w { f32b(r) as f64 } else { f64b(r) } };
                match nm {
                    "sin" | "cos" => if fin { let (p, q) = (ev(x.lo), ev(x.hi)); let d = (x.hi - x.lo) * 1.000001; let e = if f32w { 4.0 * 1.2e-7 } else { 4.0 * 2.3e-16 }; FR { lo: rnd((p.max(q) - d - e).max(-1.0)), hi: rnd((p.min(q) + d + e).min(1.0)), nan: false } } else { FR { lo: -1.0, hi: 1.0, nan: true } },
                    "tanh" => FR { nan: x.nan, ..{ let s = slack(ev(x.lo), ev(x.hi)); FR { lo: s.lo.max(-1.0), hi: s.hi.min(1.0), nan: false } } },
                    "exp" | "exp2" => if !x.nan { let s = slack(ev(x.lo), ev(x.hi)); FR { lo: s.lo.max(0.0), ..s } } else { FR { lo: 0.0, hi: f64::INFINITY, nan: true } },
                    "atan" => if !x.nan { slack(ev(x.lo), ev(x.hi)) } else { FULL },
                    "log" | "log2" | "log10" => if !x.nan && x.lo > 0.0 { slack(ev(x.lo), ev(x.hi)) } else if !x.nan && x.lo >= 0.0 { let s = slack(0.0, ev(x.hi)); FR { lo: f64::NEG_INFINITY, hi: s.hi, nan: false } } else { FULL },
                    "pow" => { let y = g(b); if !x.nan && !y.nan && x.lo >= 0.0 && x.lo == x.hi && x.lo > 0.0 {
                            let p = |e: f64| { let (ba, bb) = if f32w { ((x.lo as f32).to_bits() as u128, (e as f32).to_bits() as u128) } else { (x.lo.to_bits() as u128, e.to_bits() as u128) }; let r = uf_eval("pow", nd.w, ba, bb); if f32w { f32b(r) as f64 } else { f64b(r) } };
                            let (u, v) = (p(y.lo), p(y.hi)); let s = slack(u.min(v), u.max(v)); FR { lo: s.lo.max(0.0), ..s } }
                        else if !x.nan && !y.nan && x.lo >= 0.0 && y.lo == y.hi && y.lo > 0.0 {
                            let p = |e: f64| { let (ba, bb) = if f32w { ((e as f32).to_bits() as u128, (y.lo as f32).to_bits() as u128) } else { (e.to_bits() as u128, y.lo.to_bits() as u128) }; let r = uf_eval("pow", nd.w, ba, bb); if f32w { f32b(r) as f64 } else { f64b(r) } };
                            let s = slack(p(x.lo), p(x.hi)); FR { lo: s.lo.max(0.0), ..s } }
                        else if !x.nan && !y.nan && x.lo >= 0.0 { FR { lo: 0.0, hi: f64::INFINITY, nan: false } } else { FULL } }
                    _ => FULL,
                }
            }
            _ => FULL,
        }
    }
    /// float range of a term (also usable for integer-typed patterns, where it is the full range)
    pub fn frange(&self, t: T) -> FR { self.fr[t as usize] }

    pub fn not(&mut self, a: T) -> T {
        let n = self.n[a as usize];
        match n.op { Op::Const => self.cst(!n.k, n.w), Op::Not => n.a,
            Op::Ult => self.raw(Op::Ule, 1, n.b, n.a, 0, 0), Op::Ule => self.raw(Op::Ult, 1, n.b, n.a, 0, 0),
            Op::Slt => self.raw(Op::Sle, 1, n.b, n.a, 0, 0), Op::Sle => self.raw(Op::Slt, 1, n.b, n.a, 0, 0),
            Op::FLt if !self.fr[n.a as usize].nan && !self.fr[n.b as usize].nan => self.raw(Op::FLe, 1, n.b, n.a, 0, 0),
            Op::FLe if !self.fr[n.a as usize].nan && !self.fr[n.b as usize].nan => self.raw(Op::FLt, 1, n.b, n.a, 0, 0),
            _ => self.raw(Op::Not, n.w, a, 0, 0, 0) }
    }
    pub fn and(&mut self, a: T, b: T) -> T { self.bin(Op::And, a, b) }
    pub fn or(&mut self, a: T, b: T) -> T { self.bin(Op::Or, a, b) }
    pub fn eq(&mut self, a: T, b: T) -> T { self.bin(Op::Eq, a, b) }
    pub fn neg1(&mut self, a: T) -> T { self.not(a) }

    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(v) = self.cv(c) { return if v != 0 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        let nc = self.n[c as usize];
        if nc.op == Op::Not { return self.ite(nc.a, b, a); }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => { let n = self.not(c); return self.and(n, b); }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => { let n = self.not(c); return self.or(n, a); }
                _ => {}
            }
        }
        // ite(c, ite(c,x,_), b)
        let na = self.n[a as usize]; if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        let nb = self.n[b as usize]; if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        // abs/min/max style selects stay as they are
        self.raw(Op::Ite, w, c, a, b, 0)
    }

    pub fn bin(&mut self, op: Op, mut a: T, mut b: T) -> T {
        let w = self.w(a);
        debug_assert!(op == Op::Concat || self.w(b) == w, "{:?} {} {}", op, w, self.w(b));
        let rw = match op { Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe => 1, Op::Concat => w + self.w(b), _ => w };
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let bw = self.w(b);
            let v = eval_op(op, rw, w, bw, 0, x, y, 0, &self.uf_names);
            return self.cst(v, rw);
        }
        // commutative: constant right, else ordered
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq | Op::FAdd | Op::FMul | Op::FEq) && (ca.is_some() || (cb.is_none() && a > b)) { std::mem::swap(&mut a, &mut b); }
        let (ca, cb) = (self.cv(a), self.cv(b));
        let m = mask(w);
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        // a constant with a choice between two constants: choose between the two results
        if w > 1 && !matches!(op, Op::Concat) {
            if cb.is_some() && na.op == Op::Ite && self.cv(na.b).is_some() && self.cv(na.c).is_some() { let (x, y) = (self.bin(op, na.b, b), self.bin(op, na.c, b)); return self.ite(na.a, x, y); }
            if ca.is_some() && nb.op == Op::Ite && self.cv(nb.b).is_some() && self.cv(nb.c).is_some() { let (x, y) = (self.bin(op, a, nb.b), self.bin(op, a, nb.c)); return self.ite(nb.a, x, y); }
        }
        // floating point: the same choice on both sides, or a choice between two constants, moves outwards (keeps what belongs together together)
        if matches!(op, Op::FAdd | Op::FSub | Op::FMul) {
            if na.op == Op::Ite && nb.op == Op::Ite && na.a == nb.a { let (x, y) = (self.bin(op, na.b, nb.b), self.bin(op, na.c, nb.c)); return self.ite(na.a, x, y); }
            if op == Op::FMul && nb.op == Op::Ite && self.cv(nb.b).is_some() && self.cv(nb.c).is_some() { let (x, y) = (self.bin(op, a, nb.b), self.bin(op, a, nb.c)); return self.ite(nb.a, x, y); }
            if op == Op::FMul && na.op == Op::Ite && self.cv(na.b).is_some() && self.cv(na.c).is_some() { let (x, y) = (self.bin(op, na.b, b), self.bin(op, na.c, b)); return self.ite(na.a, x, y); }
        }
        match op {
            Op::Add => {
                if cb == Some(0) { return a; }
                if let Some(k) = cb { if na.op == Op::Add { if let Some(k2) = self.cv(na.b) { let c = self.cst(k.wrapping_add(k2), w); return self.bin(Op::Add, na.a, c); } } }
                if nb.op == Op::Sub && nb.b == a { return nb.a; }
                if na.op == Op::Sub && na.b == b { return na.a; }
            }
            Op::Sub => {
                if a == b { return self.cst(0, w); }
                if let Some(k) = cb { let c = self.cst((!k).wrapping_add(1) & m, w); return self.bin(Op::Add, a, c); }
                if na.op == Op::Add { if na.b == b { return na.a; } if na.a == b { return na.b; } }
            }
            Op::Mul => { if cb == Some(0) { return b; } if cb == Some(1) { return a; } }
            Op::UDiv => { if cb == Some(1) { return a; } if let Some(k) = cb { if k.is_power_of_two() { let s = self.cst(k.trailing_zeros() as u128, w); return self.bin(Op::LShr, a, s); } } if self.ur[a as usize].1 < self.ur[b as usize].0 { return self.cst(0, w); } }
            Op::URem => { if cb == Some(1) { return self.cst(0, w); } if let Some(k) = cb { if k.is_power_of_two() { let s = self.cst(k - 1, w); return self.bin(Op::And, a, s); } } if self.ur[a as usize].1 < self.ur[b as usize].0 { return a; } }
            Op::And => {
                if a == b { return a; }
                if cb == Some(0) { return b; } if cb == Some(m) { return a; }
                if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a { return self.cst(0, w); }
                if w == 1 { // absorb
                    if na.op == Op::And && (na.a == b || na.b == b) { return a; } if nb.op == Op::And && (nb.a == a || nb.b == a) { return b; }
                    if na.op == Op::Or && (na.a == b || na.b == b) { return b; } if nb.op == Op::Or && (nb.a == a || nb.b == a) { return a; }
                    let n1 = self.not(a); if n1 == b { return 0; } }
                if let Some(k) = cb { // low mask of something with small range
                    if (k + 1).is_power_of_two() || k == u128::MAX { if self.ur[a as usize].1 <= k { return a; } 
                        let bits = (k.count_ones()) as u16; if bits < w && w > 1 { let e = self.extract(a, 0, bits); return self.zext(e, w); } }
                    if na.op == Op::And { if let Some(k2) = self.cv(na.b) { let c = self.cst(k & k2, w); return self.bin(Op::And, na.a, c); } }
                }
            }
            Op::Or => {
                if a == b { return a; }
                if cb == Some(0) { return a; } if cb == Some(m) { return b; }
                if w == 1 { if na.op == Op::Not && na.a == b || nb.op == Op::Not && nb.a == a { return 1; } let n1 = self.not(a); if n1 == b { return 1; }
                    if na.op == Op::Or && (na.a == b || na.b == b) { return a; } if nb.op == Op::Or && (nb.a == a || nb.b == a) { return b; }
                    if na.op == Op::And && (na.a == b || na.b == b) { return b; } if nb.op == Op::And && (nb.a == a || nb.b == a) { return a; }
                    // a | (!a & x) = a | x
                    if nb.op == Op::And { let n1 = self.not(a); if nb.a == n1 { return self.bin(Op::Or, a, nb.b); } if nb.b == n1 { return self.bin(Op::Or, a, nb.a); } }
                    if na.op == Op::And { let n1 = self.not(b); if na.a == n1 { return self.bin(Op::Or, b, na.b); } if na.b == n1 { return self.bin(Op::Or, b, na.a); } }
                    // x<y | x==y
                    let pair = |x: &Node, y: &Node| (x.op == Op::FLt && y.op == Op::FEq) && ((x.a == y.a && x.b == y.b) || (x.a == y.b && x.b == y.a));
                    if pair(&na, &nb) { return self.bin(Op::FLe, na.a, na.b); } if pair(&nb, &na) { return self.bin(Op::FLe, nb.a, nb.b); }
                } else {
                    // disjoint or of shifted parts -> concat
                    if let Some(r) = self.or_concat(a, b) { return r; }
                    if let Some(r) = self.or_concat(b, a) { return r; }
                }
            }
            Op::Xor => { if a == b { return self.cst(0, w); } if cb == Some(0) { return a; } if cb == Some(m) { return self.not(a); }
                if nb.op == Op::Xor && (nb.a == a) { return nb.b; } if nb.op == Op::Xor && nb.b == a { return nb.a; } if na.op == Op::Xor && na.a == b { return na.b; } if na.op == Op::Xor && na.b == b { return na.a; } }
            Op::Shl => { if cb == Some(0) { return a; } if let Some(k) = cb { if k >= w as u128 { return self.cst(0, w); } let k = k as u16; let lo = self.extract(a, 0, w - k); let z = self.cst(0, k); return self.bin(Op::Concat, lo, z); } if ca == Some(0) { return a; } }
            Op::LShr => { if cb == Some(0) { return a; } if let Some(k) = cb { if k >= w as u128 { return self.cst(0, w); } let k = k as u16; let hi = self.extract(a, k, w - k); return self.zext(hi, w); } if ca == Some(0) { return a; } }
            Op::AShr => { if cb == Some(0) { return a; } if let Some(k) = cb { if (k as u128) < w as u128 { let k = k as u16; let hi = self.extract(a, k, w - k); return self.sext(hi, w); } } }
            Op::Concat => {
                if na.op == Op::Const && na.k == 0 { return self.zext(b, rw); }
                if na.op == Op::ZExt { let x = self.bin(Op::Concat, na.a, b); return self.zext(x, rw); }
                if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + nb.w as u128 { return self.extract(na.a, nb.k as u16, rw); }
                if nb.op == Op::Concat && na.op == Op::Extract { let nba = self.n[nb.a as usize]; if nba.op == Op::Extract && nba.a == na.a && na.k == nba.k + nba.w as u128 { let h = self.extract(na.a, nba.k as u16, na.w + nba.w); return self.bin(Op::Concat, h, nb.b); } }
                if na.op == Op::Concat && nb.op == Op::Extract { let nab = self.n[na.b as usize]; if nab.op == Op::Extract && nab.a == nb.a && nab.k == nb.k + nb.w as u128 { let l = self.extract(nb.a, nb.k as u16, nab.w + nb.w); return self.bin(Op::Concat, na.a, l); } }
                if na.op == Op::Concat { if let (Some(_), Some(_)) = (self.cv(na.b), cb) { let l = self.bin(Op::Concat, na.b, b); return self.bin(Op::Concat, na.a, l); } }
            }
            Op::Eq => {
                if a == b { return 1; }
                if w == 1 { if cb == Some(1) { return a; } if cb == Some(0) { return self.not(a); } }
                let (ra, rb) = (self.ur[a as usize], self.ur[b as usize]); if ra.1 < rb.0 || rb.1 < ra.0 { return 0; }
                if let Some(k) = cb {
                    match na.op {
                        Op::ZExt => { let iw = self.w(na.a); if k > mask(iw) { return 0; } let c = self.cst(k, iw); return self.bin(Op::Eq, na.a, c); }
                        Op::SExt => { let iw = self.w(na.a); let lo = k & mask(iw); if (sx(lo, iw) as u128) & m != k { return 0; } let c = self.cst(lo, iw); return self.bin(Op::Eq, na.a, c); }
                        Op::Ite => { if let (Some(x), Some(y)) = (self.cv(na.b), self.cv(na.c)) { return match (x == k, y == k) { (true, true) => 1, (true, false) => na.a, (false, true) => self.not(na.a), _ => 0 }; }
                            if self.cv(na.b).is_some() || self.cv(na.c).is_some() { let x = self.bin(Op::Eq, na.b, b); let y = self.bin(Op::Eq, na.c, b); return self.ite(na.a, x, y); } }
                        Op::Concat => { let lw = self.w(na.b); let h = self.cst(k >> lw, self.w(na.a)); let l = self.cst(k, lw); let x = self.bin(Op::Eq, na.a, h); let y = self.bin(Op::Eq, na.b, l); return self.and(x, y); }
                        Op::Add => if let Some(k2) = self.cv(na.b) { let c = self.cst(k.wrapping_sub(k2), w); return self.bin(Op::Eq, na.a, c); },
                        Op::Not => { let c = self.cst(!k, w); return self.bin(Op::Eq, na.a, c); }
                        _ => {}
                    }
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Eq, na.a, nb.a); }
            }
            Op::Ult => { if a == b { return 0; } let (ra, rb) = (self.ur[a as usize], self.ur[b as usize]); if ra.1 < rb.0 { return 1; } if ra.0 >= rb.1 { return 0; }
                if cb == Some(1) { let z = self.cst(0, w); return self.bin(Op::Eq, a, z); }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Ult, na.a, nb.a); } }
            Op::Ule => { if a == b { return 1; } let (ra, rb) = (self.ur[a as usize], self.ur[b as usize]); if ra.1 <= rb.0 { return 1; } if ra.0 > rb.1 { return 0; }
                if cb == Some(0) { return self.bin(Op::Eq, a, b); }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { return self.bin(Op::Ule, na.a, nb.a); } }
            Op::Slt | Op::Sle => { if a == b { return (op == Op::Sle) as T; } let (ra, rb) = (self.ur[a as usize], self.ur[b as usize]); let half = m >> 1;
                if ra.1 <= half && rb.1 <= half { return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b); }
                if ra.0 > half && rb.1 <= half { return 1; } if ra.1 <= half && rb.0 > half { return 0; } }
            Op::FAdd => { if let Some(k) = cb { if self.is_fconst(k, w, -0.0) { return a; } if self.is_fconst(k, w, 0.0) { // x + 0 == x unless x is -0
                    if self.nonneg_zero_free(a) { return a; } } }
                // x + y == x if y can only be a zero and x cannot be
                let (ra, rb) = (self.fr[a as usize], self.fr[b as usize]);
                if !ra.nan && !rb.nan { if rb.lo == 0.0 && rb.hi == 0.0 && (ra.lo > 0.0 || ra.hi < 0.0) { return a; } if ra.lo == 0.0 && ra.hi == 0.0 && (rb.lo > 0.0 || rb.hi < 0.0) { return b; } } }
            Op::FSub => { if let Some(k) = cb { if self.is_fconst(k, w, 0.0) { return a; } }
                let ra = self.fr[a as usize];
                if a == b && !ra.nan && ra.lo.is_finite() && ra.hi.is_finite() { return self.cst(0, w); }
                // a choice that may cancel moves outwards
                if na.op == Op::Ite && (na.b == b || na.c == b) { let (x, y) = (self.bin(op, na.b, b), self.bin(op, na.c, b)); return self.ite(na.a, x, y); }
                if na.op == Op::Ite { let nc = self.n[na.c as usize]; if nc.op == Op::Ite && (nc.b == b || nc.c == b) { let (x, y) = (self.bin(op, na.b, b), self.bin(op, na.c, b)); return self.ite(na.a, x, y); } }
                if nb.op == Op::Ite && (nb.b == a || nb.c == a) { let (x, y) = (self.bin(op, a, nb.b), self.bin(op, a, nb.c)); return self.ite(nb.a, x, y); } }
            Op::FMul => { if let Some(k) = cb { if self.is_fconst(k, w, 1.0) { return a; } if self.is_fconst(k, w, -1.0) { return self.fneg(a); } } }
            Op::FDiv => { if let Some(k) = cb { if self.is_fconst(k, w, 1.0) { return a; }
                // division by a power of two is multiplication by its inverse
                let v = if w == 32 { f32b(k) as f64 } else { f64b(k) }; let (mant, ok) = if w == 32 { (k & 0x7fffff, v.abs() > 1e-30 && v.abs() < 1e30) } else { (k & 0xfffffffffffff, v.abs() > 1e-290 && v.abs() < 1e290) };
                if mant == 0 && ok { let inv = 1.0 / v; let c = if w == 32 { self.cst((inv as f32).to_bits() as u128, 32) } else { self.cst(inv.to_bits() as u128, 64) }; return self.bin(Op::FMul, a, c); } } }
            Op::FEq => {
                // +-0 added on either side is irrelevant for numeric equality
                let (x, y) = (self.strip_zero(a), self.strip_zero(b)); if (x, y) != (a, b) { return self.bin(Op::FEq, x, y); }
                if a == b { let n = self.fnan(a); return self.not(n); }
                let (ra, rb) = (self.fr[a as usize], self.fr[b as usize]); if ra.hi < rb.lo || rb.hi < ra.lo { return 0; }
                if !ra.nan && !rb.nan && ra.lo == ra.hi && rb.lo == rb.hi && ra.lo == rb.lo { return 1; }
                if let Some(k) = cb { if na.op == Op::Ite { if let (Some(x), Some(y)) = (self.cv(na.b), self.cv(na.c)) { let f = |p: u128| if w == 32 { f32b(p) == f32b(k) } else { f64b(p) == f64b(k) }; return match (f(x), f(y)) { (true, true) => 1, (true, false) => na.a, (false, true) => self.not(na.a), _ => 0 }; } }
                    // exact widening compared with a constant
                    if na.op == Op::FExt { let v = f64b(k); let n = v as f32; if n as f64 == v { let c = self.cst(n.to_bits() as u128, 32); return self.bin(Op::FEq, na.a, c); } else { return 0; } }
                    if na.op == Op::FAbs || na.op == Op::FNeg { if (if w == 32 { f32b(k) as f64 } else { f64b(k) }) == 0.0 { return self.bin(Op::FEq, na.a, b); } }
                }
                if na.op == Op::FExt && nb.op == Op::FExt { return self.bin(Op::FEq, na.a, nb.a); }
            }
            Op::FLt | Op::FLe => {
                let (ra, rb) = (self.fr[a as usize], self.fr[b as usize]);
                let nn = !ra.nan && !rb.nan;
                if op == Op::FLt { if a == b || ra.lo >= rb.hi { return 0; } if nn && ra.hi < rb.lo { return 1; } }
                else { if ra.lo > rb.hi { return 0; } if nn && ra.hi <= rb.lo { return 1; } if a == b { let n = self.fnan(a); return self.not(n); } }
                if na.op == Op::FExt && nb.op == Op::FExt { return self.bin(op, na.a, nb.a); }
                if na.op == Op::FNeg && nb.op == Op::FNeg { return self.bin(op, nb.a, na.a); }
                // widened float compared with a constant: compare at the narrow width
                if na.op == Op::FExt { if let Some(k) = cb { let v = f64b(k); let n = v as f32; if n as f64 == v { let c = self.cst(n.to_bits() as u128, 32); return self.bin(op, na.a, c); } } }
                if nb.op == Op::FExt { if let Some(k) = ca { let v = f64b(k); let n = v as f32; if n as f64 == v { let c = self.cst(n.to_bits() as u128, 32); return self.bin(op, c, nb.a); } } }
            }
            Op::FMin | Op::FMax => { if a == b { return a; } }
            _ => {}
        }
        self.raw(op, rw, a, b, 0, 0)
    }
    fn or_concat(&mut self, hi: T, lo: T) -> Option<T> {
        // hi = concat(x, 0_k) and lo fits in k bits
        let nh = self.n[hi as usize]; let w = nh.w;
        let (x, kz) = match nh.op { Op::Concat => { if self.cv(nh.b) == Some(0) { (nh.a, self.w(nh.b)) } else { return None } } Op::ZExt => { let ni = self.n[nh.a as usize]; if ni.op == Op::Concat && self.cv(ni.b) == Some(0) { (ni.a, self.w(ni.b)) } else { return None } } _ => return None };
        if self.ur[lo as usize].1 <= mask(kz) { let l = self.extract(lo, 0, kz); let c = self.bin(Op::Concat, x, l); return Some(self.zext(c, w)); }
        None
    }
    fn nonneg_zero_free(&self, a: T) -> bool { let r = self.fr[a as usize]; let n = self.n[a as usize]; n.op == Op::FAbs || (r.lo > 0.0 || r.hi < 0.0) || matches!(n.op, Op::UToF | Op::SToF) }
    fn strip_zero(&self, a: T) -> T { let n = self.n[a as usize]; if n.op == Op::FAdd || n.op == Op::FSub { if let Some(k) = self.cv(n.b) { if self.is_fconst(k, n.w, 0.0) || self.is_fconst(k, n.w, -0.0) { return self.strip_zero(n.a); } } } a }
    fn is_fconst(&self, k: u128, w: u16, v: f64) -> bool { if w == 32 { k as u32 == (v as f32).to_bits() } else { k as u64 == v.to_bits() } }
    pub fn fneg(&mut self, a: T) -> T { let n = self.n[a as usize]; match n.op { Op::Const => self.cst(n.k ^ (1u128 << (n.w - 1)), n.w), Op::FNeg => n.a, _ => self.raw(Op::FNeg, n.w, a, 0, 0, 0) } }
    pub fn fabs(&mut self, a: T) -> T { let n = self.n[a as usize]; if n.op != Op::Const && !self.fr[a as usize].nan && self.fr[a as usize].lo > 0.0 { return a; } match n.op { Op::Const => self.cst(n.k & !(1u128 << (n.w - 1)), n.w), Op::FNeg => self.fabs(n.a), Op::FAbs => a, Op::UToF => a, _ => self.raw(Op::FAbs, n.w, a, 0, 0, 0) } }
    pub fn fnan(&mut self, a: T) -> T { if !self.fr[a as usize].nan { return 0; } let n = self.n[a as usize]; match n.op { Op::Const => { let v = eval_op(Op::FNan, 1, n.w, 0, 0, n.k, 0, 0, &[]); v as T } Op::FNeg | Op::FAbs | Op::FExt | Op::FNarrow | Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRint | Op::FRound => self.fnan(n.a), _ => self.raw(Op::FNan, 1, a, 0, 0, 0) } }
    pub fn un(&mut self, op: Op, a: T, w: u16) -> T {
        let aw = self.w(a);
        let na = self.n[a as usize];
        if na.op == Op::Const { let v = eval_op(op, w, aw, 0, 0, na.k, 0, 0, &self.uf_names); return self.cst(v, w); }
        if w > 1 { if let Some(r) = self.ite_lift(op, a, w) { return r; } }
        match op {
            Op::Not => return self.not(a), Op::FNeg => return self.fneg(a), Op::FAbs => return self.fabs(a), Op::FNan => return self.fnan(a),
            Op::ZExt => return self.zext(a, w), Op::SExt => return self.sext(a, w),
            Op::FNarrow => if na.op == Op::FExt { return na.a; },
            Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRint | Op::FRound => { if matches!(na.op, Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRint | Op::FRound | Op::SToF | Op::UToF) { return a; } }
            Op::SToF => { if self.ur[a as usize].1 <= mask(aw) >> 1 { return self.un(Op::UToF, a, w); } if na.op == Op::SExt { return self.un(Op::SToF, na.a, w); } }
            Op::UToF => { if na.op == Op::ZExt { return self.un(Op::UToF, na.a, w); } }
            _ => {}
        }
        self.raw(op, w, a, 0, 0, 0)
    }
    fn ite_lift(&mut self, op: Op, a: T, w: u16) -> Option<T> { let n = self.n[a as usize]; if n.op == Op::Ite && self.cv(n.b).is_some() && self.cv(n.c).is_some() { let x = self.un(op, n.b, w); let y = self.un(op, n.c, w); return Some(self.ite(n.a, x, y)); } None }
    pub fn zext(&mut self, a: T, w: u16) -> T { let n = self.n[a as usize]; if n.w == w { return a; } match n.op { Op::Const => self.cst(n.k, w), Op::ZExt => self.zext(n.a, w), _ => self.raw(Op::ZExt, w, a, 0, 0, 0) } }
    pub fn sext(&mut self, a: T, w: u16) -> T { let n = self.n[a as usize]; if n.w == w { return a; } match n.op { Op::Const => self.cst(sx(n.k, n.w) as u128, w), Op::ZExt => self.zext(n.a, w), Op::SExt => self.sext(n.a, w), _ => { if self.ur[a as usize].1 <= mask(n.w) >> 1 { return self.zext(a, w); } self.raw(Op::SExt, w, a, 0, 0, 0) } } }
    pub fn extract(&mut self, a: T, lo: u16, w: u16) -> T {
        let n = self.n[a as usize];
        if lo == 0 && n.w == w { return a; }
        debug_assert!(lo + w <= n.w);
        match n.op {
            Op::Const => return self.cst(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, lo + n.k as u16, w),
            Op::ZExt | Op::SExt => { let iw = self.w(n.a); if lo + w <= iw { return self.extract(n.a, lo, w); } if n.op == Op::ZExt { if lo >= iw { return self.cst(0, w); } let e = self.extract(n.a, lo, iw - lo); return self.zext(e, w); } else if lo == 0 { return self.sext(n.a, w); } }
            Op::Concat => { let lw = self.w(n.b); if lo + w <= lw { return self.extract(n.b, lo, w); } if lo >= lw { return self.extract(n.a, lo - lw, w); } let l = self.extract(n.b, lo, lw - lo); let h = self.extract(n.a, 0, w - (lw - lo)); return self.bin(Op::Concat, h, l); }
            Op::Ite => { if self.cv(n.b).is_some() || self.cv(n.c).is_some() { let x = self.extract(n.b, lo, w); let y = self.extract(n.c, lo, w); return self.ite(n.a, x, y); } }
            Op::And | Op::Or | Op::Xor => { if self.cv(n.b).is_some() { let x = self.extract(n.a, lo, w); let y = self.extract(n.b, lo, w); return self.bin(n.op, x, y); } }
            Op::Add | Op::Mul | Op::Sub if lo == 0 => { let x = self.extract(n.a, 0, w); let y = self.extract(n.b, 0, w); return self.bin(n.op, x, y); }
            Op::Not => { let x = self.extract(n.a, lo, w); return self.not(x); }
            _ => {}
        }
        self.raw(Op::Extract, w, a, 0, 0, lo as u128)
    }
    pub fn fma(&mut self, a: T, b: T, c: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y), Some(z)) = (self.cv(a), self.cv(b), self.cv(c)) { let v = eval_op(Op::FFma, w, w, w, 0, x, y, z, &[]); return self.cst(v, w); }
        self.raw(Op::FFma, w, a, b, c, 0)
    }
    pub fn uf(&mut self, name: &str, a: T, b: Option<T>) -> T {
        let w = self.w(a); let k = self.uf_id(name);
        if let (Some(x), Some(y)) = (self.cv(a), match b { Some(b) => self.cv(b), None => Some(0) }) { let v = uf_eval(name, w, x, y); return self.cst(v, w); }
        // the second argument of a one-argument function is the term 0
        self.raw(Op::Uf, w, a, b.unwrap_or(0), 0, k)
    }
    pub fn uf_arity(&self, k: u128) -> usize { match self.uf_names[k as usize].as_str() { "pow" | "fmod" | "hypot" | "atan2" => 2, _ => 1 } }

    pub fn children(&self, t: T) -> ([T; 3], usize) {
        let n = &self.n[t as usize];
        let k = match n.op {
            Op::Const | Op::Var => 0,
            Op::Not | Op::Extract | Op::ZExt | Op::SExt | Op::FSqrt | Op::FNeg | Op::FAbs | Op::FFloor | Op::FCeil | Op::FTrunc | Op::FRint | Op::FRound | Op::FNan | Op::FExt | Op::FNarrow | Op::SToF | Op::UToF | Op::FToS | Op::FToU | Op::FToSSat | Op::FToUSat => 1,
            Op::Ite | Op::FFma => 3,
            Op::Uf => self.uf_arity(n.k),
            _ => 2,
        };
        ([n.a, n.b, n.c], k)
    }
    /// Sorted list of the variables in a term.
    pub fn varset(&mut self, t: T) -> Rc<Vec<u32>> {
        if let Some(v) = &self.vs[t as usize] { return v.clone(); }
        // iterative post-order
        let mut st = vec![t];
        while let Some(&x) = st.last() {
            if self.vs[x as usize].is_some() { st.pop(); continue; }
            let (ch, k) = self.children(x);
            let mut ready = true;
            for &c in &ch[..k] { if self.vs[c as usize].is_none() { st.push(c); ready = false; } }
            if !ready { continue; }
            let n = self.n[x as usize];
            let r: Rc<Vec<u32>> = if n.op == Op::Var { Rc::new(vec![n.k as u32]) } else if k == 0 { Rc::new(vec![]) } else {
                let mut best: Rc<Vec<u32>> = self.vs[ch[0] as usize].clone().unwrap();
                for &c in &ch[1..k] { let o = self.vs[c as usize].clone().unwrap(); if Rc::ptr_eq(&o, &best) || o.is_empty() { continue; } if best.is_empty() { best = o; continue; }
                    let mut u: Vec<u32> = Vec::with_capacity(best.len() + o.len()); let (mut i, mut j) = (0, 0);
                    while i < best.len() || j < o.len() { if j >= o.len() || (i < best.len() && best[i] < o[j]) { u.push(best[i]); i += 1; } else if i >= best.len() || o[j] < best[i] { u.push(o[j]); j += 1; } else { u.push(best[i]); i += 1; j += 1; } }
                    if u.len() == best.len() { continue; }
                    best = Rc::new(u); }
                best };
            self.vs[x as usize] = Some(r); st.pop();
        }
        self.vs[t as usize].clone().unwrap()
    }
    /// All nodes reachable from roots in ascending (topological) order.
    pub fn cone(&self, roots: &[T]) -> Vec<T> {
        let mut seen = std::collections::HashSet::<T, std::hash::BuildHasherDefault<Fx>>::default();
        let mut st: Vec<T> = roots.to_vec(); let mut out = vec![];
        while let Some(x) = st.pop() { if !seen.insert(x) { continue; } out.push(x); let (ch, k) = self.children(x); st.extend_from_slice(&ch[..k]); }
        out.sort_unstable(); out
    }
}

pub type Model = HashMap<u32, u128>;

pub struct Evaluator { stamp: u32, st: Vec<u32>, val: Vec<u128> }
impl Evaluator {
    pub fn new() -> Self { Evaluator { stamp: 0, st: vec![], val: vec![] } }
    pub fn begin(&mut self, tm: &Tm) { self.stamp += 1; if self.st.len() < tm.n.len() { self.st.resize(tm.n.len() + 1024, 0); self.val.resize(tm.n.len() + 1024, 0); } }
    /// Evaluate t under the model (call begin() when the model changes or terms were added).
    pub fn eval(&mut self, tm: &Tm, m: &Model, t: T) -> u128 {
        if tm.n[t as usize].op == Op::Const { return tm.n[t as usize].k; }
        if self.st.len() < tm.n.len() { self.st.resize(tm.n.len() + 1024, 0); self.val.resize(tm.n.len() + 1024, 0); }
        let s = self.stamp;
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if self.st[x as usize] == s { stack.pop(); continue; }
            let n = tm.n[x as usize];
            let v = match n.op {
                Op::Const => n.k,
                Op::Var => match m.get(&(n.k as u32)) { Some(v) => *v, None => default_val(&tm.vars[n.k as usize]) },
                Op::Ite => {
                    if self.st[n.a as usize] != s { stack.push(n.a); continue; }
                    let br = if self.val[n.a as usize] != 0 { n.b } else { n.c };
                    if self.st[br as usize] != s { stack.push(br); continue; }
                    self.val[br as usize]
                }
                _ => {
                    let (ch, k) = tm.children(x);
                    let mut ready = true;
                    for &c in &ch[..k] { if self.st[c as usize] != s { stack.push(c); ready = false; } }
                    if !ready { continue; }
                    let g = |i: usize| if i < k { self.val[ch[i] as usize] } else { 0 };
                    eval_op(n.op, n.w, tm.n[n.a as usize].w, tm.n[n.b as usize].w, n.k, g(0), g(1), g(2), &tm.uf_names)
                }
            };
            self.st[x as usize] = s; self.val[x as usize] = v; stack.pop();
        }
        self.val[t as usize]
    }
}
pub fn default_val(v: &VarInfo) -> u128 {
    match v.kind {
        VarKind::Bits { lo, .. } => lo as u128, VarKind::SInt { lo, hi } => (if lo <= 0 && hi >= 0 { 0 } else { lo }) as i128 as u128 & mask(v.w),
        VarKind::F32 { lo, hi } => (if lo <= 0.0 && hi >= 0.0 { 0.0f32 } else { lo }).to_bits() as u128,
        VarKind::F64 { lo, hi } => (if lo <= 0.0 && hi >= 0.0 { 0.0f64 } else { lo }).to_bits() as u128,
        VarKind::Raw => 0,
    }
}
