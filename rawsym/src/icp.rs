//! Interval constraint propagation over the term graph: contracts the ranges of all terms under the assumption that the
//! roots are true (forward interval evaluation and backward projection, every bound rounded outwards), and refutes a
//! query by bisecting a few variables.  Ranges are contracted in place; the caller restores them with `restore`.
use crate::affine::Aff;
use crate::term::*;

pub struct Saved { t: Vec<T>, fr: Vec<FR>, ur: Vec<(u128, u128)>, sr: Vec<(i128, i128)> }
pub enum Verdict { Unsat, Open, Model(Model) }
struct Conflict;
type R = Result<(), Conflict>;

fn up(x: f64) -> f64 { if x == f64::INFINITY || x.is_nan() { f64::INFINITY } else { x.next_up() } }
fn dn(x: f64) -> f64 { if x == f64::NEG_INFINITY || x.is_nan() { f64::NEG_INFINITY } else { x.next_down() } }
// neighbours in the precision of the term, for a value of that precision (or any value in between)
fn upw(x: f64, w: u16) -> f64 { if w == 32 { let y = x as f32; if y == f32::INFINITY { return f64::INFINITY; } let y = y as f64; if y > x { y.max((y as f32).next_up() as f64) } else { (y as f32).next_up() as f64 } } else { up(x) } }
fn dnw(x: f64, w: u16) -> f64 { if w == 32 { let y = x as f32; if y == f32::NEG_INFINITY { return f64::NEG_INFINITY; } (y as f64 as f32).next_down() as f64 } else { dn(x) } }

pub fn save(tm: &Tm, cone: &[T]) -> Saved {
    Saved { t: cone.to_vec(), fr: cone.iter().map(|t| tm.fr[*t as usize]).collect(), ur: cone.iter().map(|t| tm.ur[*t as usize]).collect(), sr: cone.iter().map(|t| tm.sr[*t as usize]).collect() }
}
pub fn restore(tm: &mut Tm, s: &Saved) { for (i, t) in s.t.iter().enumerate() { let t = *t as usize; tm.fr[t] = s.fr[i]; tm.ur[t] = s.ur[i]; tm.sr[t] = s.sr[i]; } }

struct Icp<'a> { tm: &'a mut Tm, changed: f64 }

impl<'a> Icp<'a> {
    fn f(&self, t: T) -> FR { self.tm.fr[t as usize] }
    fn isf(&self, t: T) -> bool { let w = self.tm.w(t); w == 32 || w == 64 }
    fn meet_f(&mut self, t: T, lo: f64, hi: f64) -> R {
        let lo = if lo.is_nan() { f64::NEG_INFINITY } else { lo }; let hi = if hi.is_nan() { f64::INFINITY } else { hi };
        let r = self.tm.fr[t as usize];
        let (nl, nh) = (r.lo.max(lo), r.hi.min(hi));
        if nl > nh { return if r.nan { Ok(()) } else { Err(Conflict) }; }
        if r.nan { return Ok(()); }
        if nl > r.lo || nh < r.hi {
            let (a, b) = (r.hi - r.lo, nh - nl);
            self.changed += if !a.is_finite() { 1.0 } else if a > 0.0 { (a - b) / a } else { 0.0 };
            self.tm.fr[t as usize] = FR { lo: nl, hi: nh, nan: false };
        }
        Ok(())
    }
    fn not_nan(&mut self, t: T) -> R { let r = &mut self.tm.fr[t as usize]; if r.nan { r.nan = false; self.changed += 1.0; if r.lo > r.hi { return Err(Conflict); } } Ok(()) }
    fn meet_u(&mut self, t: T, lo: u128, hi: u128) -> R {
        let r = self.tm.ur[t as usize]; let (nl, nh) = (r.0.max(lo), r.1.min(hi));
        if nl > nh { return Err(Conflict); }
        if (nl, nh) != r { self.changed += ((r.1 - r.0) - (nh - nl)) as f64 / (r.1 - r.0) as f64; self.tm.ur[t as usize] = (nl, nh); self.link(t)?; }
        Ok(())
    }
    fn meet_s(&mut self, t: T, lo: i128, hi: i128) -> R {
        let r = self.tm.sr[t as usize]; let (nl, nh) = (r.0.max(lo), r.1.min(hi));
        if nl > nh { return Err(Conflict); }
        if (nl, nh) != r { self.changed += 0.5; self.tm.sr[t as usize] = (nl, nh); self.link(t)?; }
        Ok(())
    }
    fn link(&mut self, t: T) -> R {
        let w = self.tm.w(t); if w > 64 || w == 1 { return Ok(()); }
        let half = mask(w) >> 1; let i = t as usize;
        let (mut u, mut s) = (self.tm.ur[i], self.tm.sr[i]);
        if u.1 <= half { s = (s.0.max(u.0 as i128), s.1.min(u.1 as i128)); } else if u.0 > half { s = (s.0.max(sx(u.0, w)), s.1.min(sx(u.1, w))); }
        if s.0 >= 0 { u = (u.0.max(s.0 as u128), u.1.min(s.1 as u128)); } else if s.1 < 0 { u = (u.0.max(s.0 as u128 & mask(w)), u.1.min(s.1 as u128 & mask(w))); }
        if u.0 > u.1 || s.0 > s.1 { return Err(Conflict); }
        self.tm.ur[i] = u; self.tm.sr[i] = s; Ok(())
    }
    fn b(&self, t: T) -> Option<bool> { let r = self.tm.ur[t as usize]; if r.0 == r.1 { Some(r.0 != 0) } else { None } }
    fn setb(&mut self, t: T, v: bool) -> R { match self.b(t) { Some(x) => if x == v { Ok(()) } else { Err(Conflict) }, None => { self.tm.ur[t as usize] = (v as u128, v as u128); self.changed += 1.0; Ok(()) } } }

    /// The term that t is known to equal numerically within the current ranges.
    fn alias(&self, mut t: T) -> T {
        loop {
            let n = self.tm.n[t as usize];
            t = match n.op {
                Op::Ite => match self.b(n.a) { Some(true) => n.b, Some(false) => n.c, None => return t },
                Op::FMax | Op::FMin => { let (x, y) = (self.f(n.a), self.f(n.b)); if x.nan || y.nan { return t; } let mx = n.op == Op::FMax; if x.hi <= y.lo { if mx { n.b } else { n.a } } else if y.hi <= x.lo { if mx { n.a } else { n.b } } else { return t } }
                _ => return t,
            };
        }
    }
    /// Is a <= b for sure (neither being NaN), by the shape of the terms?
    fn leq(&self, a: T, b: T, depth: u32) -> bool {
        let (a, b) = (self.alias(a), self.alias(b));
        let (x, y) = (self.f(a), self.f(b));
        if x.nan || y.nan { return false; }
        if a == b || x.hi <= y.lo { return true; }
        if depth == 0 { return false; }
        let (m, n) = (self.tm.n[a as usize], self.tm.n[b as usize]);
        match m.op { Op::FMax => return self.leq(m.a, b, depth - 1) && self.leq(m.b, b, depth - 1), Op::FMin => if self.leq(m.a, b, depth - 1) || self.leq(m.b, b, depth - 1) { return true; }, Op::Ite => return self.leq(m.b, b, depth - 1) && self.leq(m.c, b, depth - 1), _ => {} }
        match n.op { Op::FMin => return self.leq(a, n.a, depth - 1) && self.leq(a, n.b, depth - 1), Op::FMax => if self.leq(a, n.a, depth - 1) || self.leq(a, n.b, depth - 1) { return true; }, Op::Ite => return self.leq(a, n.b, depth - 1) && self.leq(a, n.c, depth - 1), _ => {} }
        match (m.op, n.op) {
            // widening keeps the value, so either side may be looked at through it
            (Op::FExt, _) => self.leq(m.a, b, depth - 1),
            (_, Op::FExt) => self.leq(a, n.a, depth - 1),
            // rounding to single precision is monotone and keeps single-precision values
            (Op::FNarrow, Op::FNarrow) => self.leq(m.a, n.a, depth - 1),
            (Op::FNarrow, _) if n.w == 32 => self.leq(m.a, b, depth - 1),
            (_, Op::FNarrow) if m.w == 32 => self.leq(a, n.a, depth - 1),
            _ => false,
        }
    }
    fn forward(&mut self, t: T) -> R {
        let mut n = self.tm.n[t as usize];
        if matches!(n.op, Op::Const | Op::Var) { return Ok(()); }
        if n.w == 1 {
            if matches!(n.op, Op::FLt | Op::FLe | Op::FEq | Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) {
                n.a = self.alias(n.a); n.b = self.alias(n.b);
                if n.a == n.b { match n.op { Op::FLt | Op::Ult | Op::Slt => { self.setb(t, false)?; } Op::Eq | Op::Ule | Op::Sle => { self.setb(t, true)?; } _ => if !self.f(n.a).nan { self.setb(t, true)?; } } return Ok(()); }
            }
            if matches!(n.op, Op::FLe | Op::FLt) && self.b(t).is_none() && !self.f(n.a).nan && !self.f(n.b).nan { if n.op == Op::FLe { if self.leq(n.a, n.b, 6) { self.setb(t, true)?; } } else if self.leq(n.b, n.a, 6) { self.setb(t, false)?; } }
            let v: Option<bool> = match n.op {
                Op::Not => self.b(n.a).map(|x| !x),
                Op::And => match (self.b(n.a), self.b(n.b)) { (Some(false), _) | (_, Some(false)) => Some(false), (Some(true), Some(true)) => Some(true), _ => None },
                Op::Or => match (self.b(n.a), self.b(n.b)) { (Some(true), _) | (_, Some(true)) => Some(true), (Some(false), Some(false)) => Some(false), _ => None },
                Op::Xor => match (self.b(n.a), self.b(n.b)) { (Some(x), Some(y)) => Some(x != y), _ => None },
                Op::Ite => match self.b(n.a) { Some(true) => self.b(n.b), Some(false) => self.b(n.c), None => match (self.b(n.b), self.b(n.c)) { (Some(x), Some(y)) if x == y => Some(x), _ => None } },
                Op::Eq => { let (x, y) = (self.tm.ur[n.a as usize], self.tm.ur[n.b as usize]); let (p, q) = (self.tm.sr[n.a as usize], self.tm.sr[n.b as usize]);
                    if x.1 < y.0 || y.1 < x.0 { Some(false) } else if self.tm.w(n.a) <= 64 && self.tm.w(n.a) > 1 && (p.1 < q.0 || q.1 < p.0) { Some(false) } else if x.0 == x.1 && y.0 == y.1 && x.0 == y.0 { Some(true) } else { None } }
                Op::Ult => { let (x, y) = (self.tm.ur[n.a as usize], self.tm.ur[n.b as usize]); if x.1 < y.0 { Some(true) } else if x.0 >= y.1 { Some(false) } else { None } }
                Op::Ule => { let (x, y) = (self.tm.ur[n.a as usize], self.tm.ur[n.b as usize]); if x.1 <= y.0 { Some(true) } else if x.0 > y.1 { Some(false) } else { None } }
                Op::Slt => { let (x, y) = (self.tm.sr[n.a as usize], self.tm.sr[n.b as usize]); if x.1 < y.0 { Some(true) } else if x.0 >= y.1 { Some(false) } else { None } }
                Op::Sle => { let (x, y) = (self.tm.sr[n.a as usize], self.tm.sr[n.b as usize]); if x.1 <= y.0 { Some(true) } else if x.0 > y.1 { Some(false) } else { None } }
                Op::FLt => { let (x, y) = (self.f(n.a), self.f(n.b)); if x.lo >= y.hi { Some(false) } else if !x.nan && !y.nan && x.hi < y.lo { Some(true) } else { None } }
                Op::FLe => { let (x, y) = (self.f(n.a), self.f(n.b)); if x.lo > y.hi { Some(false) } else if !x.nan && !y.nan && x.hi <= y.lo { Some(true) } else { None } }
                Op::FEq => { let (x, y) = (self.f(n.a), self.f(n.b)); if x.lo > y.hi || y.lo > x.hi { Some(false) } else if !x.nan && !y.nan && x.lo == x.hi && y.lo == y.hi && x.lo == y.lo { Some(true) } else { None } }
                Op::FNan => if !self.f(n.a).nan { Some(false) } else { None },
                _ => None,
            };
            if let Some(v) = v { self.setb(t, v)?; }
            return Ok(());
        }
        if n.op == Op::Ite { if let Some(v) = self.b(n.a) { let x = (if v { n.b } else { n.c }) as usize;
            let (f, u, s) = (self.tm.fr[x], self.tm.ur[x], self.tm.sr[x]);
            if self.isf(t) { if !f.nan { self.not_nan(t)?; } self.meet_f(t, f.lo, f.hi)?; }
            self.meet_u(t, u.0, u.1)?; if n.w <= 64 { self.meet_s(t, s.0, s.1)?; }
            return Ok(()); } }
        if self.isf(t) { let r = self.tm.calc_fr(&n); if !r.nan { self.not_nan(t)?; } if r != FULL { self.meet_f(t, r.lo, r.hi)?; } }
        if !is_float(n.op) {
            // all operands known: the value is
            let (ch, k) = self.tm.children(t);
            if k > 0 && ch[..k].iter().all(|c| { let u = self.tm.ur[*c as usize]; u.0 == u.1 }) {
                let g = |i: usize| if i < k { self.tm.ur[ch[i] as usize].0 } else { 0 }; let gw = |i: usize| if i < k { self.tm.w(ch[i]) } else { 0 };
                let v = eval_op(n.op, n.w, gw(0), gw(1), n.k, g(0), g(1), g(2), &self.tm.uf_names);
                self.meet_u(t, v, v)?;
            }
        }
        let u = self.tm.calc_ur(&n); if u != (0, mask(n.w)) { self.meet_u(t, u.0, u.1)?; }
        if n.w <= 64 { let s = self.tm.calc_sr(&n); self.meet_s(t, s.0, s.1)?; }
        Ok(())
    }

    fn backward(&mut self, t: T) -> R {
        let n = self.tm.n[t as usize];
        if matches!(n.op, Op::Const | Op::Var) { return Ok(()); }
        let (a, b) = (n.a, n.b);
        if n.w == 1 {
            let v = match self.b(t) { Some(v) => v, None => return Ok(()) };
            match n.op {
                Op::Not => self.setb(a, !v)?,
                Op::And => if v { self.setb(a, true)?; self.setb(b, true)?; } else { if self.b(a) == Some(true) { self.setb(b, false)?; } if self.b(b) == Some(true) { self.setb(a, false)?; } },
                Op::Or => if !v { self.setb(a, false)?; self.setb(b, false)?; } else { if self.b(a) == Some(false) { self.setb(b, true)?; } if self.b(b) == Some(false) { self.setb(a, true)?; } },
                Op::Xor => { if let Some(x) = self.b(a) { self.setb(b, x != v)?; } if let Some(x) = self.b(b) { self.setb(a, x != v)?; } }
                Op::Ite => match self.b(a) { Some(true) => self.setb(b, v)?, Some(false) => self.setb(n.c, v)?, None => { if self.b(b) == Some(!v) { self.setb(a, false)?; } if self.b(n.c) == Some(!v) { self.setb(a, true)?; } } },
                Op::Eq => { let w = self.tm.w(a); let (x, y) = (self.tm.ur[a as usize], self.tm.ur[b as usize]);
                    if v { self.meet_u(a, y.0, y.1)?; let x = self.tm.ur[a as usize]; self.meet_u(b, x.0, x.1)?;
                        if w <= 64 && w > 1 { let (p, q) = (self.tm.sr[a as usize], self.tm.sr[b as usize]); self.meet_s(a, q.0, q.1)?; self.meet_s(b, p.0, p.1)?; } }
                    else { for (p, q, r, s) in [(a, x, b, y), (b, y, a, x)] { let _ = s; let _ = p; if q.0 == q.1 { let z = self.tm.ur[r as usize]; if z.0 == z.1 && z.0 == q.0 { return Err(Conflict); } if z.0 == q.0 { self.meet_u(r, z.0 + 1, z.1)?; } else if z.1 == q.0 { self.meet_u(r, z.0, z.1 - 1)?; } } } } }
                Op::Ult | Op::Ule => { let (x, y, st) = if v { (a, b, n.op == Op::Ult) } else { (b, a, n.op == Op::Ule) }; let d = st as u128;
                    let h = self.tm.ur[y as usize].1; if h < d { return Err(Conflict); } self.meet_u(x, 0, h - d)?; let l = self.tm.ur[x as usize].0; self.meet_u(y, l + d, u128::MAX)?; }
                Op::Slt | Op::Sle => { let (x, y, st) = if v { (a, b, n.op == Op::Slt) } else { (b, a, n.op == Op::Sle) }; let d = st as i128; if self.tm.w(a) > 64 { return Ok(()); }
                    let h = self.tm.sr[y as usize].1; self.meet_s(x, i128::MIN, h - d)?; let l = self.tm.sr[x as usize].0; self.meet_s(y, l + d, i128::MAX)?; }
                Op::FLt | Op::FLe => {
                    let (x, y, st) = if v { self.not_nan(a)?; self.not_nan(b)?; (a, b, n.op == Op::FLt) } else { if self.f(a).nan || self.f(b).nan { return Ok(()); } (b, a, n.op == Op::FLe) };
                    let w = self.tm.w(a);
                    let h = self.f(y).hi; self.meet_f(x, f64::NEG_INFINITY, if st { dnw(h, w).max(if w == 32 { -f64::INFINITY } else { -f64::INFINITY }) } else { h })?;
                    let l = self.f(x).lo; self.meet_f(y, if st { upw(l, w) } else { l }, f64::INFINITY)?; }
                Op::FEq => if v { self.not_nan(a)?; self.not_nan(b)?; let y = self.f(b); self.meet_f(a, y.lo, y.hi)?; let x = self.f(a); self.meet_f(b, x.lo, x.hi)?; }
                Op::FNan => if !v { self.not_nan(a)?; },
                _ => {}
            }
            return Ok(());
        }
        let u = self.tm.ur[t as usize]; let s = self.tm.sr[t as usize];
        match n.op {
            Op::Ite => {
                let c = n.c;
                match self.b(a) {
                    Some(v) => { let x = if v { b } else { c }; self.same(x, t)?; }
                    None => {
                        let dis = |me: &Self, x: T| { let (f, g) = (me.f(t), me.f(x)); let (p, q) = (me.tm.ur[t as usize], me.tm.ur[x as usize]); (me.isf(t) && !f.nan && !g.nan && (f.hi < g.lo || g.hi < f.lo)) || p.1 < q.0 || q.1 < p.0 };
                        if dis(self, b) { self.setb(a, false)?; } else if dis(self, c) { self.setb(a, true)?; }
                    }
                }
            }
            Op::ZExt => self.meet_u(a, u.0, u.1)?,
            Op::SExt => if n.w <= 64 { self.meet_s(a, s.0, s.1)? },
            Op::Extract => if n.k == 0 && self.tm.ur[a as usize].1 <= mask(n.w) { self.meet_u(a, u.0, u.1)? },
            Op::Add => {
                let (x, y) = (self.tm.ur[a as usize], self.tm.ur[b as usize]);
                if x.1.checked_add(y.1).is_some_and(|h| h <= mask(n.w)) { self.meet_u(a, u.0.saturating_sub(y.1), u.1.saturating_sub(y.0))?; let x = self.tm.ur[a as usize]; self.meet_u(b, u.0.saturating_sub(x.1), u.1.saturating_sub(x.0))?; }
                if n.w <= 64 { let h = (mask(n.w) >> 1) as i128; let (x, y) = (self.tm.sr[a as usize], self.tm.sr[b as usize]);
                    if x.0 + y.0 >= -h - 1 && x.1 + y.1 <= h { let s = self.tm.sr[t as usize]; self.meet_s(a, s.0 - y.1, s.1 - y.0)?; let x = self.tm.sr[a as usize]; self.meet_s(b, s.0 - x.1, s.1 - x.0)?; } }
            }
            Op::Sub => {
                let (x, y) = (self.tm.ur[a as usize], self.tm.ur[b as usize]);
                if x.0 >= y.1 { self.meet_u(a, u.0 + y.0, u.1.saturating_add(y.1))?; let x = self.tm.ur[a as usize]; self.meet_u(b, x.0.saturating_sub(u.1), x.1.saturating_sub(u.0))?; }
                if n.w <= 64 { let h = (mask(n.w) >> 1) as i128; let (x, y) = (self.tm.sr[a as usize], self.tm.sr[b as usize]);
                    if x.0 - y.1 >= -h - 1 && x.1 - y.0 <= h { let s = self.tm.sr[t as usize]; self.meet_s(a, s.0 + y.0, s.1 + y.1)?; let x = self.tm.sr[a as usize]; self.meet_s(b, x.0 - s.1, x.1 - s.0)?; } }
            }
            Op::Mul => {
                let (x, y) = (self.tm.ur[a as usize], self.tm.ur[b as usize]);
                if x.1.checked_mul(y.1).is_some_and(|h| h <= mask(n.w)) { if y.0 == y.1 && y.0 > 0 { self.meet_u(a, u.0.div_ceil(y.0), u.1 / y.0)?; } else if x.0 == x.1 && x.0 > 0 { self.meet_u(b, u.0.div_ceil(x.0), u.1 / x.0)?; } }
            }
            _ => {}
        }
        if self.isf(t) { self.backward_f(t, n)?; }
        // integers from floats and back
        match n.op {
            Op::FToU | Op::FToUSat => { let u = self.tm.ur[t as usize]; if u.0 > 0 { self.not_nan(a)?; if (u.0 as f64) <= 9e15 { self.meet_f(a, u.0 as f64, f64::INFINITY)?; } } if u.1 < mask(n.w) && (u.1 as f64) < 9e15 { self.meet_f(a, f64::NEG_INFINITY, dn(u.1 as f64 + 1.0))?; } }
            Op::FToS | Op::FToSSat if n.w <= 64 => { let s = self.tm.sr[t as usize]; let h = (mask(n.w) >> 1) as i128; let big = |x: i128| x.unsigned_abs() > 1 << 52;
                if s.0 > -h - 1 && !big(s.0) { self.meet_f(a, if s.0 > 0 { s.0 as f64 } else { up(s.0 as f64 - 1.0) }, f64::INFINITY)?; }
                if s.1 < h && !big(s.1) { self.meet_f(a, f64::NEG_INFINITY, if s.1 < 0 { s.1 as f64 } else { dn(s.1 as f64 + 1.0) })?; } }
            _ => {}
        }
        Ok(())
    }
    fn same(&mut self, x: T, t: T) -> R {
        if self.isf(t) { let f = self.f(t); if !f.nan { self.not_nan(x)?; self.meet_f(x, f.lo, f.hi)?; } }
        let u = self.tm.ur[t as usize]; self.meet_u(x, u.0, u.1)?;
        if self.tm.w(t) <= 64 && self.tm.w(t) > 1 { let s = self.tm.sr[t as usize]; self.meet_s(x, s.0, s.1)?; }
        Ok(())
    }
    fn backward_f(&mut self, t: T, n: Node) -> R {
        let r = self.f(t); if r.nan { return Ok(()); }
        let (a, b) = (n.a, n.b);
        // the exact result lies here
        let (l, h) = (dnw(r.lo, n.w), upw(r.hi, n.w));
        let (x, y) = (self.f(a), if matches!(n.op, Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FMin | Op::FMax) { self.f(b) } else { FULL });
        let fin = |r: FR| r.lo.is_finite() && r.hi.is_finite() && !r.nan;
        match n.op {
            Op::FAdd if fin(x) && fin(y) && a != b => { self.meet_f(a, dn(l - y.hi), up(h - y.lo))?; let x = self.f(a); self.meet_f(b, dn(l - x.hi), up(h - x.lo))?; }
            Op::FSub if fin(x) && fin(y) && a != b => { self.meet_f(a, dn(l + y.lo), up(h + y.hi))?; let x = self.f(a); self.meet_f(b, dn(x.lo - h), up(x.hi - l))?; }
            Op::FMul if fin(x) && fin(y) && a != b => { self.div(a, l, h, y.lo, y.hi)?; let x = self.f(a); self.div(b, l, h, x.lo, x.hi)?; }
            Op::FMul if fin(x) && a == b && h.is_finite() => { let m = up(up(h.max(0.0)).sqrt()); self.meet_f(a, if x.lo >= 0.0 && l > 0.0 { dn(dn(l).max(0.0).sqrt()) } else { -m }, m)?; }
            Op::FDiv if fin(x) && fin(y) && l.is_finite() && h.is_finite() => {
                if y.lo > 0.0 || y.hi < 0.0 {
                    let ps = [l * y.lo, l * y.hi, h * y.lo, h * y.hi];
                    self.meet_f(a, dn(ps.iter().cloned().fold(f64::INFINITY, f64::min)), up(ps.iter().cloned().fold(f64::NEG_INFINITY, f64::max)))?;
                    let x = self.f(a); if l > 0.0 || h < 0.0 { self.div(b, x.lo, x.hi, l, h)?; }
                }
            }
            Op::FNeg => { if !self.f(a).nan { self.meet_f(a, -r.hi, -r.lo)?; } else { self.not_nan(a)?; } }
            Op::FAbs => { self.not_nan(a)?; let x = self.f(a); if x.lo >= 0.0 { self.meet_f(a, r.lo, r.hi)?; } else if x.hi <= 0.0 { self.meet_f(a, -r.hi, -r.lo)?; } else { self.meet_f(a, if x.lo > -r.lo { r.lo } else { -r.hi }, if x.hi < r.lo { -r.lo } else { r.hi })?; } }
            Op::FExt => { self.not_nan(a)?; self.meet_f(a, r.lo, r.hi)?; }
            Op::FNarrow => { self.not_nan(a)?; self.meet_f(a, l, h)?; }
            Op::FFloor => { self.not_nan(a)?; self.meet_f(a, r.lo.ceil(), if r.hi.abs() < 4e15 { dn(r.hi.floor() + 1.0) } else { f64::INFINITY })?; }
            Op::FCeil => { self.not_nan(a)?; self.meet_f(a, if r.lo.abs() < 4e15 { up(r.lo.ceil() - 1.0) } else { f64::NEG_INFINITY }, r.hi.floor())?; }
            Op::FTrunc => { self.not_nan(a)?; if r.lo.abs() < 4e15 && r.hi.abs() < 4e15 { self.meet_f(a, if r.lo > 0.0 { r.lo } else { up(r.lo.ceil() - 1.0) }, if r.hi < 0.0 { r.hi } else { dn(r.hi.floor() + 1.0) })?; } }
            Op::FRint | Op::FRound => { self.not_nan(a)?; if r.lo.abs() < 4e15 && r.hi.abs() < 4e15 { self.meet_f(a, r.lo - 0.5, r.hi + 0.5)?; } }
            Op::FMin if !x.nan && !y.nan => { self.meet_f(a, r.lo, f64::INFINITY)?; self.meet_f(b, r.lo, f64::INFINITY)?; if y.lo > r.hi { self.meet_f(a, f64::NEG_INFINITY, r.hi)?; } if x.lo > r.hi { self.meet_f(b, f64::NEG_INFINITY, r.hi)?; } }
            Op::FMax if !x.nan && !y.nan => { self.meet_f(a, f64::NEG_INFINITY, r.hi)?; self.meet_f(b, f64::NEG_INFINITY, r.hi)?; if y.hi < r.lo { self.meet_f(a, r.lo, f64::INFINITY)?; } if x.hi < r.lo { self.meet_f(b, r.lo, f64::INFINITY)?; } }
            Op::FSqrt => { if h.is_finite() && h > 0.0 { self.not_nan(a)?; self.meet_f(a, if l > 0.0 { dn(l * l) } else { f64::NEG_INFINITY }, up(h * h))?; } }
            Op::UToF => { if l > 0.0 && l < 9e15 { self.meet_u(a, l.floor() as u128, u128::MAX)?; } if h >= 0.0 && h < 9e15 { self.meet_u(a, 0, h.ceil() as u128)?; } }
            Op::SToF if self.tm.w(a) <= 64 => { if l.abs() < 9e15 { self.meet_s(a, l.floor() as i128, i128::MAX)?; } if h.abs() < 9e15 { self.meet_s(a, i128::MIN, h.ceil() as i128)?; } }
            _ => {}
        }
        Ok(())
    }
    // t = [l, h] / [p, q] where the product is what is known
    fn div(&mut self, t: T, l: f64, h: f64, p: f64, q: f64) -> R {
        if !(p > 0.0 || q < 0.0) { return Ok(()); }
        let ps = [l / p, l / q, h / p, h / q];
        if ps.iter().any(|x| x.is_nan()) { return Ok(()); }
        self.meet_f(t, dn(ps.iter().cloned().fold(f64::INFINITY, f64::min)), up(ps.iter().cloned().fold(f64::NEG_INFINITY, f64::max)))
    }
    fn affine(&mut self, cone: &[T]) -> R {
        let mut a = Aff::new();
        for &t in cone {
            let n = self.tm.n[t as usize];
            if matches!(n.op, Op::FLt | Op::FLe | Op::FEq) {
                if self.b(t).is_none() || true { if let Some((l, h)) = a.diff(n.a, n.b) {
                    let v = match n.op { Op::FLt => if l >= 0.0 { Some(false) } else if h < 0.0 { Some(true) } else { None }, Op::FLe => if l > 0.0 { Some(false) } else if h <= 0.0 { Some(true) } else { None }, _ => if l > 0.0 || h < 0.0 { Some(false) } else { None } };
                    if let Some(v) = v { self.setb(t, v)?; }
                } }
            } else if n.w == 1 { self.forward(t)?; }
            else if self.isf(t) { let r = { let me = &*self; a.step(me.tm, t, &|x| me.alias(x)) }; if let Some((l, h)) = r { self.meet_f(t, l, h)?; } }
        }
        Ok(())
    }
    fn contract(&mut self, cone: &[T], roots: &[T], rounds: usize) -> R {
        for &t in roots { self.setb(t, true)?; }
        for k in 0..rounds {
            self.changed = 0.0;
            for &t in cone { self.forward(t)?; }
            if k == 1 { self.affine(cone)?; }
            for &t in cone.iter().rev() { self.backward(t)?; }
            if k > 0 && self.changed < 0.02 { break; }
        }
        Ok(())
    }
}

fn midpoint(tm: &Tm, t: T, how: u32) -> u128 {
    let info = &tm.vars[tm.n[t as usize].k as usize]; let w = info.w;
    let f = tm.fr[t as usize]; let u = tm.ur[t as usize]; let s = tm.sr[t as usize];
    let p = |lo: f64, hi: f64| match how { 0 => lo + (hi - lo) * 0.5, 1 => lo, 2 => hi, _ => lo + (hi - lo) * 0.37 };
    match info.kind {
        VarKind::F32 { lo, hi } => (p(f.lo, f.hi) as f32).clamp(lo, hi).to_bits() as u128,
        VarKind::F64 { lo, hi } => p(f.lo, f.hi).clamp(lo, hi).to_bits() as u128,
        VarKind::Raw => if w == 32 && f.lo.is_finite() && f.hi.is_finite() { (p(f.lo, f.hi) as f32).to_bits() as u128 } else { u.0 },
        VarKind::SInt { .. } => ((match how { 0 => s.0 + (s.1 - s.0) / 2, 1 => s.0, 2 => s.1, _ => s.0 + (s.1 - s.0) / 3 }) as u128) & mask(w),
        VarKind::Bits { .. } => match how { 0 => u.0 + (u.1 - u.0) / 2, 1 => u.0, 2 => u.1, _ => u.0 + (u.1 - u.0) / 3 },
    }
}

fn is_float(o: Op) -> bool { !matches!(o, Op::And | Op::Or | Op::Xor | Op::Not | Op::Add | Op::Sub | Op::Mul | Op::UDiv | Op::URem | Op::SDiv | Op::SRem | Op::Shl | Op::LShr | Op::AShr | Op::ZExt | Op::SExt | Op::Extract | Op::Concat) }

/// Contract the ranges of the cone in place; refute the query or find a model if that takes little.
pub fn solve(tm: &mut Tm, ev: &mut Evaluator, roots: &[T], cone: &[T], hint: &Model, boxes: usize, max_vars: usize, max_ms: u128) -> Verdict {
    let vars: Vec<T> = cone.iter().copied().filter(|t| tm.n[*t as usize].op == Op::Var).collect();
    { let mut i = Icp { tm, changed: 0.0 }; if i.contract(cone, roots, 12).is_err() { return Verdict::Unsat; } }
    let mut try_model = |tm: &Tm, ev: &mut Evaluator, how: u32| -> Option<Model> {
        let mut m = hint.clone();
        for &v in &vars { m.insert(tm.n[v as usize].k as u32, midpoint(tm, v, how)); }
        ev.begin(tm); for &r in roots { if ev.eval(tm, &m, r) == 0 { return None; } } Some(m)
    };
    if cone.len() < 4000 { for how in 0..4 { if let Some(m) = try_model(tm, ev, how) { return Verdict::Model(m); } } }
    if boxes == 0 || cone.len() > 6000 { return Verdict::Open; }
    let root = save(tm, cone);
    let orig: Vec<f64> = vars.iter().map(|v| width(tm, *v)).collect();
    let free: Vec<usize> = (0..vars.len()).filter(|i| orig[*i] > 0.0).collect();
    if free.is_empty() || free.len() > max_vars { return Verdict::Open; }
    let mut stack: Vec<Saved> = vec![save(tm, cone)];
    let mut n = 0;
    let t0 = std::time::Instant::now();
    while let Some(s) = stack.pop() {
        restore(tm, &s);
        // the variable whose range is largest relative to the one at the root
        let mut best: Option<(f64, usize)> = None;
        for &i in &free { let w = width(tm, vars[i]) / orig[i]; if w > 0.0 && best.map_or(true, |b| w > b.0) { best = Some((w, i)); } }
        let Some((_, i)) = best else {
            // a single assignment: evaluate it exactly (a zero stands for both signs)
            let exact = vars.iter().all(|v| point(tm, *v));
            let zeros: Vec<T> = vars.iter().copied().filter(|v| matches!(tm.vars[tm.n[*v as usize].k as usize].kind, VarKind::F32 { .. } | VarKind::F64 { .. }) && tm.fr[*v as usize].lo == 0.0).collect();
            if !exact || zeros.len() > 3 { restore(tm, &root); return Verdict::Open; }
            let mut base = hint.clone();
            for &v in &vars { base.insert(tm.n[v as usize].k as u32, midpoint(tm, v, 1)); }
            for signs in 0..1u32 << zeros.len() {
                for (j, &z) in zeros.iter().enumerate() { let w = tm.vars[tm.n[z as usize].k as usize].w; base.insert(tm.n[z as usize].k as u32, if signs >> j & 1 == 1 { 1u128 << (w - 1) } else { 0 }); }
                ev.begin(tm); if roots.iter().all(|r| ev.eval(tm, &base, *r) != 0) { restore(tm, &root); return Verdict::Model(base); }
            }
            continue;
        };
        let v = vars[i];
        for side in 0..2 {
            n += 1;
            if n > boxes || t0.elapsed().as_millis() > max_ms { if std::env::var("RAWSYM_TRACEQ").is_ok() { eprintln!("icp: {} boxes, {} ms, {} left, cone {}, vars {:?}", n, t0.elapsed().as_millis(), stack.len() + 1, cone.len(), vars.iter().map(|v| (tm.vars[tm.n[*v as usize].k as usize].name.clone(), tm.fr[*v as usize])).collect::<Vec<_>>()); if std::env::var("RAWSYM_TRACEQ").unwrap() == "2" { for &t in cone { eprintln!("  t{} {:?} fr {:?} ur {:?}", t, tm.n[t as usize], tm.fr[t as usize], tm.ur[t as usize]); } } } restore(tm, &root); return Verdict::Open; }
            restore(tm, &s);
            halve(tm, v, side == 0);
            grid(tm, v);
            if tm.fr[v as usize].lo > tm.fr[v as usize].hi { continue; }
            let r = { let mut i = Icp { tm, changed: 0.0 }; let l = i.link(v); if l.is_err() { l } else { i.contract(cone, roots, 6) } };
            if r.is_err() { continue; }
            if let Some(m) = try_model(tm, ev, 0) { restore(tm, &root); return Verdict::Model(m); }
            for &i in &free { grid(tm, vars[i]); }
            if free.iter().any(|i| { let f = tm.fr[vars[*i] as usize]; f.lo > f.hi }) { continue; }
            stack.push(save(tm, cone));
        }
    }
    restore(tm, &root);
    Verdict::Unsat
}
/// Is a single value left (up to the sign of a zero)?
fn point(tm: &Tm, v: T) -> bool {
    let i = v as usize;
    match tm.vars[tm.n[i].k as usize].kind {
        VarKind::F32 { .. } => tm.fr[i].lo == tm.fr[i].hi && (tm.fr[i].lo as f32) as f64 == tm.fr[i].lo,
        VarKind::F64 { .. } => tm.fr[i].lo == tm.fr[i].hi,
        VarKind::SInt { .. } => tm.sr[i].0 == tm.sr[i].1,
        VarKind::Bits { .. } => tm.ur[i].0 == tm.ur[i].1,
        VarKind::Raw => false,
    }
}
pub fn width(tm: &Tm, v: T) -> f64 {
    let f = tm.fr[v as usize]; let u = tm.ur[v as usize]; let s = tm.sr[v as usize];
    match tm.vars[tm.n[v as usize].k as usize].kind {
        VarKind::F32 { .. } | VarKind::F64 { .. } => f.hi - f.lo,
        VarKind::SInt { .. } => (s.1 - s.0) as f64,
        VarKind::Bits { .. } => (u.1 - u.0) as f64,
        VarKind::Raw => if !f.nan && f.lo.is_finite() && f.hi.is_finite() { f.hi - f.lo } else { 0.0 },
    }
}
/// Round the bounds of a single-precision variable inwards to the grid.
fn grid(tm: &mut Tm, v: T) {
    if let VarKind::F32 { .. } = tm.vars[tm.n[v as usize].k as usize].kind {
        let f = tm.fr[v as usize]; if f.nan { return; }
        let (mut a, mut b) = (f.lo as f32, f.hi as f32);
        if (a as f64) < f.lo { a = a.next_up(); } if (b as f64) > f.hi { b = b.next_down(); }
        tm.fr[v as usize] = FR { lo: a as f64, hi: b as f64, nan: false };
    }
}
fn halve(tm: &mut Tm, v: T, low: bool) {
    let i = v as usize;
    match tm.vars[tm.n[i].k as usize].kind {
        VarKind::SInt { .. } => { let s = tm.sr[i]; let m = s.0 + (s.1 - s.0) / 2; tm.sr[i] = if low { (s.0, m) } else { (m + 1, s.1) }; }
        VarKind::Bits { .. } => { let u = tm.ur[i]; let m = u.0 + (u.1 - u.0) / 2; tm.ur[i] = if low { (u.0, m) } else { (m + 1, u.1) }; }
        VarKind::F32 { .. } => {
            // boxes on the grid of single-precision numbers, with no number in common
            let f = tm.fr[i]; let mut m = (f.lo + (f.hi - f.lo) * 0.5) as f32; if m as f64 >= f.hi { m = m.next_down(); }
            tm.fr[i] = if low { FR { hi: (m as f64).min(f.hi), ..f } } else { FR { lo: (m.next_up() as f64).max(f.lo), ..f } };
        }
        _ => { let f = tm.fr[i]; let m = f.lo + (f.hi - f.lo) * 0.5; tm.fr[i] = if low { FR { hi: m, ..f } } else { FR { lo: m, ..f } }; }
    }
}
