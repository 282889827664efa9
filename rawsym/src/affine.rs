//! Affine forms of the terms of a query: value = c + sum of k_i * e_i + something in [-e, e], with every e_i in [-1, 1].
//! Terms that share symbols keep their correlation, which plain intervals lose; every rounding of the program and of
//! this computation is added to the error term.
use crate::term::*;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Form { c: f64, k: Vec<(u32, f64)>, e: f64 }
const U: f64 = 1.2e-16; // more than half a unit in the last place
const TINY: f64 = 1e-300;
const MAX_SYMBOLS: usize = 96;

impl Form {
    fn dev(&self) -> f64 { self.k.iter().map(|x| x.1.abs()).sum::<f64>() * (1.0 + 200.0 * U) }
    fn rad(&self) -> f64 { (self.dev() + self.e) * (1.0 + 4.0 * U) }
    fn range(&self) -> (f64, f64) { let r = self.rad(); ((self.c - r).next_down(), (self.c + r).next_up()) }
    fn ok(&self) -> bool { self.c.is_finite() && self.e.is_finite() && self.k.iter().all(|x| x.1.is_finite()) }
    fn scale(&self, m: f64) -> Form { // times an exactly known number
        let mut f = Form { c: self.c * m, k: self.k.iter().map(|x| (x.0, x.1 * m)).collect(), e: self.e * m.abs() };
        f.slop(f.c.abs() + f.dev() + f.e); f
    }
    /// account for the roundings of this computation itself, which are relative to m
    fn slop(&mut self, m: f64) { self.e = (self.e + m * 8.0 * U + TINY) * (1.0 + 4.0 * U); }
    fn shift(&self, d: f64, e: f64) -> Form { let mut f = Form { c: self.c + d, k: self.k.clone(), e: self.e + e }; f.slop(f.c.abs() + d.abs() + f.e); f }
    fn lin(&self, o: &Form, s: f64) -> Form { // self + s * o, s = 1 or -1
        let mut k = Vec::with_capacity(self.k.len() + o.k.len());
        let (mut i, mut j) = (0, 0);
        let mut m = 0.0;
        while i < self.k.len() || j < o.k.len() {
            if j >= o.k.len() || (i < self.k.len() && self.k[i].0 < o.k[j].0) { k.push(self.k[i]); i += 1; }
            else if i >= self.k.len() || o.k[j].0 < self.k[i].0 { k.push((o.k[j].0, s * o.k[j].1)); j += 1; }
            else { let v = self.k[i].1 + s * o.k[j].1; m += v.abs(); if v != 0.0 { k.push((self.k[i].0, v)); } i += 1; j += 1; }
        }
        let mut f = Form { c: self.c + s * o.c, k, e: self.e + o.e };
        f.slop(m + f.c.abs() + f.e); f
    }
    fn mul(&self, o: &Form) -> Form {
        let (ra, rb) = (self.rad(), o.rad());
        let mut f = Form { c: self.c * o.c, k: vec![], e: 0.0 };
        let mut x = self.scale(o.c); x.c = 0.0; let mut y = o.scale(self.c); y.c = 0.0;
        let z = x.lin(&y, 1.0);
        f.k = z.k; f.e = z.e + ra * rb;
        f.slop(f.c.abs() + f.dev() + f.e); f
    }
    fn square(&self) -> Form {
        let r = self.rad();
        let mut f = self.scale(2.0 * self.c);
        f.c = self.c * self.c + r * r / 2.0; f.e += r * r / 2.0;
        f.slop(f.c.abs() + f.dev() + f.e + 2.0 * self.c * self.c); f
    }
}

pub struct Aff { f: HashMap<T, Form, std::hash::BuildHasherDefault<Fx>>, symbols: usize }

impl Aff {
    pub fn new() -> Aff { Aff { f: HashMap::default(), symbols: 0 } }
    pub fn get(&self, t: T) -> Option<&Form> { self.f.get(&t) }
    /// Range of a - b.
    pub fn diff(&self, a: T, b: T) -> Option<(f64, f64)> { let d = self.f.get(&a)?.lin(self.f.get(&b)?, -1.0); if d.ok() { Some(d.range()) } else { None } }
    fn fresh(&mut self, t: T, r: FR) -> Form {
        let c = r.lo + (r.hi - r.lo) * 0.5; let d = ((r.hi - c).max(c - r.lo)) * (1.0 + 4.0 * U);
        if d == 0.0 { return Form { c, k: vec![], e: 0.0 }; }
        if self.symbols < MAX_SYMBOLS { self.symbols += 1; Form { c, k: vec![(t, d)], e: TINY } } else { Form { c, k: vec![], e: d + TINY } }
    }
    /// Compute the form of t (its operands come before it) and return the range it implies.
    pub fn step(&mut self, tm: &Tm, t: T, alias: &dyn Fn(T) -> T) -> Option<(f64, f64)> {
        let n = tm.n[t as usize];
        if n.w != 32 && n.w != 64 { return None; }
        let r = tm.fr[t as usize];
        if r.nan || !r.lo.is_finite() || !r.hi.is_finite() || r.lo > r.hi { return None; }
        let big = r.lo.abs().max(r.hi.abs());
        let iw = (r.hi - r.lo) * 0.5;
        let al = alias(t);
        let mut f = if al != t { self.f.get(&al).cloned() } else { self.op(tm, &n, alias) };
        if let Some(g) = &mut f {
            if al == t && matches!(n.op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FSqrt | Op::FFma | Op::FNarrow | Op::SToF | Op::UToF) {
                g.e += big * 1.01 * if n.w == 32 { 6.0e-8 } else { U } + if n.w == 32 { 1e-45 } else { 5e-324 };
            }
            if !g.ok() { f = None; }
        }
        let g = match f { Some(g) if g.rad() <= iw * 2.0 || g.rad() < TINY * 1e3 => g, _ => self.fresh(t, r) };
        let out = g.range();
        self.f.insert(t, g);
        Some(out)
    }
    fn op(&mut self, tm: &Tm, n: &Node, alias: &dyn Fn(T) -> T) -> Option<Form> {
        let a = self.f.get(&n.a);
        match n.op {
            Op::FAdd => Some(a?.lin(self.f.get(&n.b)?, 1.0)),
            Op::FSub => Some(a?.lin(self.f.get(&n.b)?, -1.0)),
            Op::FMul => { let a = a?; if n.a == n.b { return Some(a.square()); } let b = self.f.get(&n.b)?;
                if a.e == 0.0 && a.k.is_empty() { Some(b.scale(a.c)) } else if b.e == 0.0 && b.k.is_empty() { Some(a.scale(b.c)) } else { Some(a.mul(b)) } }
            Op::FFma => { let (a, b, c) = (a?, self.f.get(&n.b)?, self.f.get(&n.c)?); Some(a.mul(b).lin(c, 1.0)) }
            Op::FDiv => {
                let a = a?; let y = tm.fr[n.b as usize];
                if y.nan || !(y.lo > 0.0 || y.hi < 0.0) { return None; }
                let b = self.f.get(&n.b)?;
                let (p, q) = (-1.0 / (y.lo * y.lo), -1.0 / (y.hi * y.hi));
                let m = b.c.clamp(y.lo, y.hi);
                Some(a.mul(&smooth(b, y, m, 1.0 / m, p.min(q), p.max(q))?))
            }
            Op::FSqrt => { let x = tm.fr[n.a as usize]; if x.nan || x.lo <= 0.0 { return None; } let a = a?; let m = a.c.clamp(x.lo, x.hi); smooth(a, x, m, m.sqrt(), 0.5 / x.hi.sqrt(), 0.5 / x.lo.sqrt()) }
            Op::FNeg => Some(a?.scale(-1.0)),
            Op::FAbs => { let x = tm.fr[n.a as usize]; if x.nan { return None; } if x.lo >= 0.0 { a.cloned() } else if x.hi <= 0.0 { Some(a?.scale(-1.0)) } else { None } }
            Op::FExt | Op::FNarrow => a.cloned(),
            Op::FFloor => Some(a?.shift(-0.5, 0.5)),
            Op::FCeil => Some(a?.shift(0.5, 0.5)),
            Op::FRint | Op::FRound => Some(a?.shift(0.0, 0.5)),
            Op::FTrunc => Some(a?.shift(0.0, 1.0)),
            Op::FMin | Op::FMax => {
                let (x, y) = (tm.fr[n.a as usize], tm.fr[n.b as usize]); if x.nan || y.nan { return None; }
                let (a, b) = (a?, self.f.get(&n.b)?); let d = b.lin(a, -1.0).range(); // b - a
                let (l, h) = if n.op == Op::FMax { (d.0.max(0.0), d.1.max(0.0)) } else { (d.0.min(0.0), d.1.min(0.0)) };
                let (l2, h2) = if n.op == Op::FMax { ((-d.1).max(0.0), (-d.0).max(0.0)) } else { ((-d.1).min(0.0), (-d.0).min(0.0)) };
                Some(if h - l <= h2 - l2 { widen(a, l, h) } else { widen(b, l2, h2) })
            }
            Op::Ite => {
                // one arm, plus what the other may differ from it where it is taken
                let (tb, tc) = (alias(n.b), alias(n.c));
                let (b, c) = (self.f.get(&n.b)?, self.f.get(&n.c)?);
                let d = c.lin(b, -1.0).range(); // c - b
                let one = |keep: T, kr: FR, or: FR, d: (f64, f64), taken: bool| -> Option<(f64, f64)> { // the difference where the other arm is taken
                    let (mut l, mut h) = d;
                    if let Some((p, q)) = implied(tm, n.a, taken, keep, kr, 0) { if p > q { return Some((0.0, 0.0)); } l = l.max((or.lo - q).next_down()); h = h.min((or.hi - p).next_up()); }
                    if l > h { return Some((0.0, 0.0)); }
                    Some((l.min(0.0), h.max(0.0)))
                };
                let (rb, rc) = (tm.fr[n.b as usize], tm.fr[n.c as usize]);
                if rb.nan || rc.nan { return None; }
                let x = one(tb, rb, rc, d, false)?; let y = one(tc, rc, rb, (-d.1, -d.0), true)?;
                Some(if x.1 - x.0 <= y.1 - y.0 { widen(b, x.0, x.1) } else { widen(c, y.0, y.1) })
            }
            Op::Uf => {
                let nm = tm.uf_names[n.k as usize].as_str();
                let x = tm.fr[n.a as usize]; if x.nan || !x.lo.is_finite() || !x.hi.is_finite() { return None; }
                let f = a?; let m = f.c.clamp(x.lo, x.hi);
                let w = x.hi - x.lo;
                let (v, l, h) = match nm {
                    "exp" => (m.exp(), x.lo.exp(), x.hi.exp()),
                    "exp2" => (m.exp2(), x.lo.exp2() * std::f64::consts::LN_2, x.hi.exp2() * std::f64::consts::LN_2),
                    "log" if x.lo > 0.0 => (m.ln(), 1.0 / x.hi, 1.0 / x.lo),
                    "log2" if x.lo > 0.0 => (m.log2(), std::f64::consts::LOG2_E / x.hi, std::f64::consts::LOG2_E / x.lo),
                    "log10" if x.lo > 0.0 => (m.log10(), std::f64::consts::LOG10_E / x.hi, std::f64::consts::LOG10_E / x.lo),
                    "sin" => (m.sin(), m.cos() - w, m.cos() + w),
                    "cos" => (m.cos(), -m.sin() - w, -m.sin() + w),
                    "tanh" | "atan" => { let g = |z: f64| if nm == "tanh" { 1.0 - z.tanh() * z.tanh() } else { 1.0 / (1.0 + z * z) }; let (p, q) = (g(x.lo), g(x.hi)); (if nm == "tanh" { m.tanh() } else { m.atan() }, p.min(q), if x.lo <= 0.0 && x.hi >= 0.0 { 1.0 } else { p.max(q) }) }
                    "pow" => {
                        let y = tm.fr[n.b as usize]; if y.nan { return None; }
                        if x.lo == x.hi && x.lo > 0.0 && y.lo.is_finite() && y.hi.is_finite() {
                            let f = self.f.get(&n.b)?; let m = f.c.clamp(y.lo, y.hi); let b = x.lo;
                            let (p, q) = (b.powf(y.lo) * b.ln(), b.powf(y.hi) * b.ln());
                            return uf(n.w, f, y, m, b.powf(m), p.min(q), p.max(q));
                        }
                        if y.lo != y.hi || x.lo <= 0.0 { return None; }
                        let e = y.lo; let (p, q) = (e * x.lo.powf(e - 1.0), e * x.hi.powf(e - 1.0));
                        (m.powf(e), p.min(q), p.max(q))
                    }
                    _ => return None,
                };
                uf(n.w, f, x, m, v, l, h)
            }
            _ => None,
        }
    }
}
/// A library function with its own error of a few units in the last place.
fn uf(w: u16, x: &Form, r: FR, m: f64, v: f64, l: f64, h: f64) -> Option<Form> {
    let mut f = smooth(x, r, m, v, l, h)?;
    let top = v.abs() + l.abs().max(h.abs()) * (r.hi - r.lo);
    f.e += top * if w == 32 { 4.0 * 1.2e-7 } else { 8.0 * 2.3e-16 }; Some(f)
}
/// f(x) where f(m) = v and the derivative lies in [l, h] over the range r of x, which m belongs to.
fn smooth(x: &Form, r: FR, m: f64, v: f64, l: f64, h: f64) -> Option<Form> {
    if !v.is_finite() || !l.is_finite() || !h.is_finite() { return None; }
    let pad = (l.abs().max(h.abs())) * 64.0 * U;
    let s = l + (h - l) * 0.5; let d = (h - s).max(s - l) + pad;
    let reach = (r.hi - m).max(m - r.lo);
    let mut f = x.shift(-m, 0.0).scale(s);
    f.c += v; f.e += d * reach + v.abs() * 64.0 * U;
    f.slop(f.c.abs() + v.abs() + f.e); Some(f)
}
fn widen(f: &Form, l: f64, h: f64) -> Form { let m = l + (h - l) * 0.5; f.shift(m, ((h - m).max(m - l)) * (1.0 + 4.0 * U)) }
/// What the truth value of a condition says about a term: a range, empty (low above high) if it cannot be.
fn implied(tm: &Tm, c: T, v: bool, t: T, r: FR, depth: u32) -> Option<(f64, f64)> {
    if depth > 4 { return None; }
    let n = tm.n[c as usize];
    if n.w != 1 { return None; }
    let side = |x: T| -> Option<bool> { if x == t { Some(false) } else if tm.n[x as usize].op == Op::FAbs && tm.n[x as usize].a == t { Some(true) } else { None } };
    let meet = |p: Option<(f64, f64)>, q: Option<(f64, f64)>| match (p, q) { (Some(a), Some(b)) => Some((a.0.max(b.0), a.1.min(b.1))), (x, None) => x, (None, x) => x };
    match n.op {
        Op::Not => implied(tm, n.a, !v, t, r, depth + 1),
        Op::And if v => meet(implied(tm, n.a, true, t, r, depth + 1), implied(tm, n.b, true, t, r, depth + 1)),
        Op::Or if !v => meet(implied(tm, n.a, false, t, r, depth + 1), implied(tm, n.b, false, t, r, depth + 1)),
        Op::And | Op::Or => { let (p, q) = (implied(tm, n.a, v, t, r, depth + 1)?, implied(tm, n.b, v, t, r, depth + 1)?); Some((p.0.min(q.0), p.1.max(q.1))) }
        Op::FLt | Op::FLe => {
            let (x, y) = if v { (n.a, n.b) } else { (n.b, n.a) }; // x <= y at least
            if !v && (tm.fr[n.a as usize].nan || tm.fr[n.b as usize].nan) { return None; }
            if let Some(ab) = side(x) { let h = tm.fr[y as usize].hi; return Some(if ab { (r.lo.max(-h), r.hi.min(h)) } else { (r.lo, r.hi.min(h)) }); }
            if let Some(ab) = side(y) { let l = tm.fr[x as usize].lo; if !ab { return Some((r.lo.max(l), r.hi)); } return Some(if l > 0.0 && r.lo > -l { (l.max(r.lo), r.hi) } else if l > 0.0 && r.hi < l { (r.lo, r.hi.min(-l)) } else { (r.lo, r.hi) }); }
            None
        }
        Op::FEq if v => { if side(n.a) == Some(false) { let o = tm.fr[n.b as usize]; Some((r.lo.max(o.lo), r.hi.min(o.hi))) } else if side(n.b) == Some(false) { let o = tm.fr[n.a as usize]; Some((r.lo.max(o.lo), r.hi.min(o.hi))) } else { None } }
        _ => None,
    }
}
