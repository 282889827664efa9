//! Path-wise symbolic execution of LLVM IR: memory, states, instruction semantics, operating-system stand-ins.
use crate::ir::*;
use crate::solver::{Res, Solver};
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Vec<(T, u8)>, pub ro: bool, pub heap: bool }

#[derive(Clone)]
pub struct Frame { pub f: Rc<Func>, pub blk: u32, pub ip: u32, pub regs: Vec<V>, pub allocas: Vec<u32>, pub dst: u32, pub normal: Option<u32> }

#[derive(Clone)]
pub struct State {
    pub fr: Vec<Frame>,
    pub mem: Vec<Option<Rc<Obj>>>,
    free_ids: Vec<u32>,
    pub pc: Vec<T>,
    pub model: Rc<Model>,
    known: Rc<HashMap<T, bool>>,
    fixed: Rc<HashMap<u32, u128>>,
    pub inputs: Vec<(String, T)>,
    pub observed: Vec<T>,
    pub reached: Vec<String>,
    pub steps: u64,
    next_pick: Option<u64>,
    npick: u32, shidx: u64, shprod: u64,
    keys: HashMap<u64, V>, nkey: u64, clock: u64, rng: u64, pub threads: u32, pub depth: u32, heap_ops: u64,
}

#[derive(Clone, Debug)]
pub enum Ev { Done, Panic(String), Mem(String), Block(String), Dropped, Unsupported(String), Incomplete(String), Hang, CheckFail(String) }
type R<X> = Result<X, Ev>;

#[derive(Clone, Debug)]
pub struct Violation { pub kind: String, pub msg: String, pub at: String, pub inputs: Vec<(String, u128)>, pub trace: Vec<String> }

#[derive(Clone, Copy, PartialEq)]
enum Ext { Unset, Skip, Memcpy, Memset, Pass0, Panic, Float(Op), FixedTo, FixedFrom, Other }

pub struct Config { pub max_steps: u64, pub max_paths: u64, pub max_s: f64, pub enum_limit: u32, pub conc: Option<Vec<(String, u128)>>, pub seed: u64, pub tier: u64, pub shard: (u64, u64), pub max_viol: usize, pub merge: bool, pub progress: bool }

pub struct Exec {
    pub m: Module, pub tm: Tm, pub sv: Solver, pub cfg: Config,
    pub work: Vec<State>,
    ext: Vec<Ext>,
    t0: Instant,
    ev: Evaluator,
    pub paths: u64, pub done: u64, pub dropped: u64, pub steps: u64, pub forks: u64,
    pub checks: BTreeMap<String, [u64; 3]>, // folded, solver-proved, failed
    pub viol: Vec<Violation>, seen_viol: BTreeSet<(String, String)>,
    pub errors: Vec<String>,
    pub funcs_seen: Vec<bool>, pub instr_of: Vec<u64>,
    pub reached: BTreeMap<String, u64>,
    pub observed: Vec<u128>,
    pub enum_max: u32,
    conc_pos: usize,
}

enum Flow { Merged, Next, Jump(u32), Frame }

const ERRNO_OBJ: u32 = 1;

pub fn pretty(n: &str) -> String {
    // rough rendering of v0 / legacy mangled names: the identifiers in order
    if !(n.starts_with("_R") || n.starts_with("_ZN")) { return n.to_string(); }
    let b = n.as_bytes(); let mut i = 2; let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() { let mut j = i; let mut k = 0usize; while j < b.len() && b[j].is_ascii_digit() && k < 1000 { k = k * 10 + (b[j] - b'0') as usize; j += 1; }
            if j < b.len() && b[j] == b'_' { j += 1; }
            if k >= 2 && k < 80 && j + k <= b.len() && (b[j].is_ascii_alphabetic() || b[j] == b'_') && b[j..j + k].iter().all(|c| c.is_ascii_alphanumeric() || *c == b'_' || *c == b'$' || *c == b'.') { out.push(n[j..j + k].to_string()); i = j + k; continue; } }
        i += 1;
    }
    out.retain(|s| !(s.len() == 17 && s.starts_with('h')));
    out.join("::")
}

impl Exec {
    pub fn new(m: Module, tm: Tm, sv: Solver, cfg: Config) -> Self {
        let n = m.funcs.len();
        Exec { m, tm, sv, cfg, work: vec![], ext: vec![Ext::Unset; n], t0: Instant::now(), ev: Evaluator::new(), paths: 0, done: 0, dropped: 0, steps: 0, forks: 0, checks: BTreeMap::new(), viol: vec![], seen_viol: BTreeSet::new(), errors: vec![], funcs_seen: vec![false; n], instr_of: vec![0; n], reached: BTreeMap::new(), observed: vec![], enum_max: 0, conc_pos: 0 }
    }

    pub fn initial(&mut self, entry: &str) -> State {
        let fid = *self.m.fn_ix.get(entry).unwrap_or_else(|| panic!("no entry {entry}"));
        let f = self.m.func(fid, &mut self.tm).expect("entry body");
        let mut mem: Vec<Option<Rc<Obj>>> = vec![None; 16];
        mem[ERRNO_OBJ as usize] = Some(Rc::new(Obj { data: vec![0; 8], sym: vec![], ro: false, heap: false }));
        for g in &self.m.globals {
            debug_assert_eq!(mem.len() as u64, g.addr >> 32);
            mem.push(g.init.as_ref().map(|d| Rc::new(Obj { data: d.clone(), sym: vec![], ro: g.konst, heap: false })));
        }
        self.funcs_seen[fid as usize] = true;
        let regs = vec![V::C(0); f.nregs as usize];
        State { fr: vec![Frame { f, blk: 0, ip: 0, regs, allocas: vec![], dst: u32::MAX, normal: None }], mem, free_ids: vec![], pc: vec![], model: Rc::new(Model::new()), known: Rc::new(HashMap::new()), fixed: Rc::new(HashMap::new()), inputs: vec![], observed: vec![], reached: vec![], steps: 0, next_pick: None, npick: 0, shidx: 0, shprod: 1, keys: HashMap::new(), nkey: 0, clock: 1_000_000_000_000, rng: Self::seeded(self.cfg.seed, 0), threads: 0, depth: 0, heap_ops: 0 }
    }

    pub fn explore(&mut self, entry: &str) {
        let s = self.initial(entry);
        self.work.push(s);
        while let Some(mut st) = self.work.pop() {
            if self.paths >= self.cfg.max_paths { self.errors.push(format!("path limit {} reached", self.cfg.max_paths)); break; }
            if self.t0.elapsed().as_secs_f64() > self.cfg.max_s { self.errors.push(format!("time limit {} s reached", self.cfg.max_s)); break; }
            self.paths += 1;
            let s0 = st.steps;
            let e = match self.run(&mut st) { Ok(()) => Ev::Done, Err(e) => e };
            self.steps += st.steps - s0;
            if self.cfg.progress { eprintln!("[{:.1}s] path {} end {:?} steps {} work {} terms {} q {}", self.t0.elapsed().as_secs_f64(), self.paths, e, st.steps, self.work.len(), self.tm.n.len(), self.sv.st.queries); }
            match e {
                Ev::Done => { self.done += 1; for r in &st.reached { *self.reached.entry(r.clone()).or_insert(0) += 1; } if self.cfg.conc.is_some() { let o = st.observed.clone(); self.observed = o.iter().map(|t| self.tm.cv(*t).unwrap_or(0)).collect(); } }
                Ev::Dropped => self.dropped += 1,
                Ev::CheckFail(_) => {}
                Ev::Panic(m) => self.violation(&st, "panic", &m, None),
                Ev::Mem(m) => self.violation(&st, "memory", &m, None),
                Ev::Block(m) => self.violation(&st, "block", &m, None),
                Ev::Hang => { let m = format!("no result after {} instructions", self.cfg.max_steps); self.violation(&st, "hang", &m, None) }
                Ev::Unsupported(m) => { let w = self.whereis(&st); self.errors.push(format!("unsupported: {m} at {w}")); if self.errors.len() > 20 { break; } }
                Ev::Incomplete(m) => { let w = self.whereis(&st); self.errors.push(format!("undecided: {m} at {w}")); if self.errors.len() > 20 { break; } }
            }
            if self.viol.len() >= self.cfg.max_viol { break; }
        }
    }

    fn whereis(&self, st: &State) -> String { st.fr.iter().rev().take(6).map(|f| pretty(&f.f.name)).collect::<Vec<_>>().join(" <- ") }

    fn violation(&mut self, st: &State, kind: &str, msg: &str, m: Option<&Model>) {
        let w = self.whereis(st);
        if !self.seen_viol.insert((kind.to_string(), msg.to_string())) { return; }
        let model: Model = m.cloned().unwrap_or_else(|| (*st.model).clone());
        let mut inputs = vec![];
        for (n, t) in &st.inputs { self.ev.begin(&self.tm); let v = self.ev.eval(&self.tm, &model, *t); inputs.push((n.clone(), v)); }
        let trace = st.fr.iter().rev().take(14).map(|f| pretty(&f.f.name)).collect();
        self.viol.push(Violation { kind: kind.to_string(), msg: msg.to_string(), at: w, inputs, trace });
    }

    // ---- terms and values ----
    #[inline] fn mk(&self, t: T) -> V { let n = &self.tm.n[t as usize]; if n.op == Op::Const && n.w <= 64 { V::C(n.k as u64) } else { V::S(t) } }
    #[inline] fn t(&mut self, v: &V, w: u16) -> T { match v { V::C(c) => self.tm.cst(*c as u128, w), V::S(t) => { debug_assert_eq!(self.tm.w(*t), w); *t } V::A(_) => panic!("aggregate where scalar expected") } }

    // ---- deciding ----
    fn is_fixed(&mut self, st: &State, t: T) -> Option<u128> {
        if let Some(v) = self.tm.cv(t) { return Some(v); }
        if st.fixed.is_empty() { return None; }
        let vs = self.tm.varset(t);
        if vs.iter().all(|v| st.fixed.contains_key(v)) { let m: Model = vs.iter().map(|v| (*v, st.fixed[v])).collect(); self.ev.begin(&self.tm); return Some(self.ev.eval(&self.tm, &m, t)); }
        None
    }
    fn slice(&mut self, st: &State, c: T) -> Vec<T> {
        let mut vars: BTreeSet<u32> = self.tm.varset(c).iter().copied().collect();
        let mut q = vec![c];
        let mut left: Vec<T> = st.pc.clone();
        loop {
            let mut rest = vec![]; let n0 = left.len();
            for p in left { let vs = self.tm.varset(p); if vs.iter().any(|v| vars.contains(v)) { q.push(p); vars.extend(vs.iter().copied()); } else { rest.push(p); } }
            if rest.len() == n0 { break; }
            left = rest;
        }
        for v in vars { let t = self.tm.vars[v as usize].term; let b = self.tm.var_bounds(t); q.extend(b); }
        q
    }
    fn query(&mut self, st: &State, c: T) -> Res { let q = self.slice(st, c); let m = st.model.clone(); self.sv.check(&mut self.tm, &q, &m) }
    fn merge_model(&self, st: &State, m: Model) -> Rc<Model> { let mut n = (*st.model).clone(); for (k, v) in m { n.insert(k, v); } Rc::new(n) }
    fn learn(&mut self, st: &mut State, c: T, v: bool) { let n = self.tm.not(c); let k = Rc::make_mut(&mut st.known); k.insert(c, v); k.insert(n, !v); }
    fn assume(&mut self, st: &mut State, c: T) {
        if self.tm.cv(c).is_some() { return; }
        // split conjunctions so that slicing stays fine-grained
        let n = self.tm.n[c as usize];
        if n.op == Op::And && n.w == 1 { self.assume(st, n.a); self.assume(st, n.b); return; }
        if n.op == Op::Not && self.tm.n[n.a as usize].op == Op::Or && n.w == 1 { let o = self.tm.n[n.a as usize]; let (x, y) = (self.tm.not(o.a), self.tm.not(o.b)); self.assume(st, x); self.assume(st, y); return; }
        if n.op == Op::Eq { if let (Some(k), Op::Var) = (self.tm.cv(n.b), self.tm.n[n.a as usize].op) { let v = self.tm.n[n.a as usize].k as u32; Rc::make_mut(&mut st.fixed).insert(v, k); } }
        st.pc.push(c); self.learn(st, c, true);
    }
    pub fn decide(&mut self, st: &mut State, c: T) -> R<bool> {
        if let Some(v) = self.tm.cv(c) { return Ok(v != 0); }
        if let Some(&v) = st.known.get(&c) { return Ok(v); }
        if let Some(v) = self.is_fixed(st, c) { return Ok(v != 0); }
        self.ev.begin(&self.tm);
        let v = self.ev.eval(&self.tm, &st.model, c) != 0;
        let (pos, neg) = { let n = self.tm.not(c); if v { (c, n) } else { (n, c) } };
        match self.query(st, neg) {
            Res::Unsat => { self.learn(st, c, v); Ok(v) }
            Res::Sat(m) => {
                self.forks += 1;
                if std::env::var("RAWSYM_TRACEQ").is_ok() { if let Some(f) = st.fr.last() { eprintln!("fork in {} block {}", f.f.name, f.blk); } }
                let mut o = st.clone();
                o.model = self.merge_model(st, m);
                self.assume(&mut o, neg);
                self.work.push(o);
                self.assume(st, pos);
                Ok(v)
            }
            Res::Unknown => Err(Ev::Incomplete(format!("solver gave no answer for a branch: {}", self.sv.last_unknown))),
        }
    }
    /// Fix a term to one value, forking for every other feasible value.
    pub fn concretize(&mut self, st: &mut State, t: T) -> R<u128> {
        if let Some(v) = self.tm.cv(t) { return Ok(v); }
        if let Some(v) = self.is_fixed(st, t) { return Ok(v); }
        self.ev.begin(&self.tm);
        let v = self.ev.eval(&self.tm, &st.model, t);
        let w = self.tm.w(t);
        let k = self.tm.cst(v, w); let e = self.tm.eq(t, k);
        if st.known.get(&e) == Some(&true) { return Ok(v); }
        let ne = self.tm.not(e);
        match self.query(st, ne) {
            Res::Unsat => { self.learn(st, e, true); Ok(v) }
            Res::Sat(m) => {
                self.forks += 1;
                let mut o = st.clone(); o.model = self.merge_model(st, m); o.depth += 1;
                if o.depth > self.cfg.enum_limit { return Err(Ev::Incomplete("too many values for an address, size or selector".into())); }
                self.enum_max = self.enum_max.max(o.depth);
                self.assume(&mut o, ne); self.work.push(o);
                self.assume(st, e);
                Ok(v)
            }
            Res::Unknown => Err(Ev::Incomplete(format!("solver gave no answer while enumerating: {}", self.sv.last_unknown))),
        }
    }
    fn cu(&mut self, st: &mut State, v: &V) -> R<u64> { match v { V::C(c) => Ok(*c), V::S(t) => Ok(self.concretize(st, *t)? as u64), _ => panic!("cu") } }

    // ---- memory ----
    fn alloc(&mut self, st: &mut State, size: u64, heap: bool, fill: u8) -> R<u64> {
        if size > 1 << 30 { return Err(Ev::Unsupported(format!("allocation of {size} bytes"))); }
        let o = Rc::new(Obj { data: vec![fill; size as usize], sym: vec![], ro: false, heap });
        let id = if !heap { match st.free_ids.pop() { Some(i) => { st.mem[i as usize] = Some(o); i } None => { st.mem.push(Some(o)); (st.mem.len() - 1) as u32 } } } else { st.mem.push(Some(o)); (st.mem.len() - 1) as u32 };
        Ok((id as u64) << 32)
    }
    #[inline] fn find(st: &State, a: u64, n: u64) -> R<(usize, usize)> {
        let i = (a >> 32) as usize; let off = a & 0xffff_ffff;
        match st.mem.get(i) { Some(Some(o)) => if off + n <= o.data.len() as u64 { Ok((i, off as usize)) } else { Err(Ev::Mem(format!("access of {n} bytes at offset {off} of an object of {} bytes", o.data.len()))) },
            Some(None) if i >= 16 => Err(Ev::Mem("access to freed memory".into())), _ => Err(Ev::Mem(format!("access through invalid pointer {a:#x}"))) }
    }
    fn load_bits(&mut self, st: &State, i: usize, off: usize, n: usize) -> T {
        // n bytes as one term (little endian)
        let o = st.mem[i].as_ref().unwrap().clone();
        let mut acc: Option<T> = None; let mut k = 0;
        while k < n {
            let (part, len) = if o.sym.is_empty() || o.sym[off + k].0 == 0 {
                let mut j = k; let mut v: u128 = 0; while j < n && (o.sym.is_empty() || o.sym[off + j].0 == 0) { v |= (o.data[off + j] as u128) << (8 * (j - k)); j += 1; }
                (self.tm.cst(v, (8 * (j - k)) as u16), j - k)
            } else {
                let (t, b) = o.sym[off + k]; let mut j = k + 1; while j < n && o.sym[off + j] == (t, b + (j - k) as u8) { j += 1; }
                let w = self.tm.w(t); let lo = 8 * b as u16; let want = (8 * (j - k)) as u16;
                let p = if lo + want <= w { self.tm.extract(t, lo, want) } else { let e = self.tm.extract(t, lo, w - lo); self.tm.zext(e, want) };
                (p, j - k)
            };
            acc = Some(match acc { None => part, Some(a) => self.tm.bin(Op::Concat, part, a) });
            k += len;
        }
        acc.unwrap()
    }
    pub fn load(&mut self, st: &State, a: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Vec(n, e) if matches!(**e, Ty::Int(1)) => { let bytes = (*n as u64 + 7) / 8; let (i, off) = Self::find(st, a, bytes)?; let t = self.load_bits(st, i, off, bytes as usize); let v = (0..*n).map(|k| { let x = self.tm.extract(t, k as u16, 1); self.mk(x) }).collect(); Ok(V::A(Rc::new(v))) }
            Ty::Vec(..) | Ty::Arr(..) => { let e = elem(ty); let cnt = n_of(ty); let s = e.size(); let mut v = Vec::with_capacity(cnt as usize); for k in 0..cnt { v.push(self.load(st, a + k * s, e)?); } Ok(V::A(Rc::new(v))) }
            Ty::Struct(f, _) => { let mut v = Vec::with_capacity(f.len()); for (k, t) in f.iter().enumerate() { v.push(self.load(st, a + ty.field_off(k), t)?); } Ok(V::A(Rc::new(v))) }
            _ => {
                let n = ty.size(); let w = ty.bits();
                let (i, off) = Self::find(st, a, n)?;
                let o = st.mem[i].as_ref().unwrap();
                let n = n as usize;
                if n <= 8 && (o.sym.is_empty() || o.sym[off..off + n].iter().all(|s| s.0 == 0)) { let mut b = [0u8; 8]; b[..n].copy_from_slice(&o.data[off..off + n]); let v = u64::from_le_bytes(b); return Ok(V::C(if w < 64 { v & ((1u64 << w) - 1) } else { v })); }
                let t = self.load_bits(st, i, off, n);
                let t = if (8 * n) as u16 > w { self.tm.extract(t, 0, w) } else { t };
                Ok(if w > 64 { V::S(t) } else { self.mk(t) })
            }
        }
    }
    /// Load through a pointer that is a choice between two fixed addresses: the choice between what is there.
    fn load_choice(&mut self, st: &State, p: T, ty: &Ty) -> Option<V> {
        let n = self.tm.n[p as usize];
        if n.op != Op::Ite { return None; }
        let (x, y) = (self.tm.cv(n.b)? as u64, self.tm.cv(n.c)? as u64);
        if let Some(&k) = st.known.get(&n.a) { return self.load(st, if k { x } else { y }, ty).ok(); }
        let (x, y) = (self.load(st, x, ty).ok()?, self.load(st, y, ty).ok()?);
        let w = ty.bits(); let (x, y) = (self.t(&x, w), self.t(&y, w));
        let r = self.tm.ite(n.a, x, y); Some(if w > 64 { V::S(r) } else { self.mk(r) })
    }
    fn store_t(&mut self, st: &mut State, a: u64, n: usize, c: Option<u128>, t: T) -> R<()> {
        let (i, off) = Self::find(st, a, n as u64)?;
        let o = Rc::make_mut(st.mem[i].as_mut().unwrap());
        if o.ro { return Err(Ev::Mem("store to constant memory".into())); }
        match c {
            Some(v) => { let b = v.to_le_bytes(); o.data[off..off + n].copy_from_slice(&b[..n]); if !o.sym.is_empty() { for s in &mut o.sym[off..off + n] { *s = (0, 0); } } }
            None => { if o.sym.is_empty() { o.sym = vec![(0, 0); o.data.len()]; } for k in 0..n { o.sym[off + k] = (t, k as u8); } }
        }
        Ok(())
    }
    pub fn store(&mut self, st: &mut State, a: u64, ty: &Ty, v: &V) -> R<()> {
        match ty {
            Ty::Vec(n, e) if matches!(**e, Ty::Int(1)) => { let t = self.to_bits(v, ty); let bytes = ((*n as usize + 7) / 8) as u16; let t = self.tm.zext(t, bytes * 8); let c = self.tm.cv(t); self.store_t(st, a, bytes as usize, c, t) }
            Ty::Vec(..) | Ty::Arr(..) => { let e = elem(ty); let V::A(x) = v else { if let V::C(0) = v { let z = zero(ty, &mut self.tm); return self.store(st, a, ty, &z); } panic!("store agg") }; let s = e.size(); for (k, y) in x.iter().enumerate() { self.store(st, a + k as u64 * s, e, y)?; } Ok(()) }
            Ty::Struct(f, _) => { let V::A(x) = v else { panic!("store struct") }; for (k, y) in x.iter().enumerate() { self.store(st, a + ty.field_off(k), &f[k], y)?; } Ok(()) }
            _ => { let n = ty.size() as usize; match v { V::C(c) => self.store_t(st, a, n, Some(*c as u128), 0), V::S(t) => { let full = (8 * n) as u16; let t = if self.tm.w(*t) < full { self.tm.zext(*t, full) } else { *t }; let c = self.tm.cv(t); self.store_t(st, a, n, c, t) } _ => panic!() } }
        }
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        let (si, so) = Self::find(st, s, n)?; let (di, dof) = Self::find(st, d, n)?;
        let n = n as usize;
        let src = st.mem[si].as_ref().unwrap();
        let data = src.data[so..so + n].to_vec();
        let sym = if src.sym.is_empty() { vec![] } else { let s = src.sym[so..so + n].to_vec(); if s.iter().all(|x| x.0 == 0) { vec![] } else { s } };
        let o = Rc::make_mut(st.mem[di].as_mut().unwrap());
        if o.ro { return Err(Ev::Mem("store to constant memory".into())); }
        o.data[dof..dof + n].copy_from_slice(&data);
        if !sym.is_empty() { if o.sym.is_empty() { o.sym = vec![(0, 0); o.data.len()]; } o.sym[dof..dof + n].copy_from_slice(&sym); }
        else if !o.sym.is_empty() { for x in &mut o.sym[dof..dof + n] { *x = (0, 0); } }
        Ok(())
    }
    fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        if a == 0 { return Ok(()); }
        let i = (a >> 32) as usize;
        match st.mem.get(i) { Some(Some(o)) if o.heap && a & 0xffff_ffff == 0 => { st.mem[i] = None; Ok(()) } Some(None) if i >= 16 => Err(Ev::Mem("double free".into())), _ => Err(Ev::Mem(format!("free of invalid pointer {a:#x}"))) }
    }
    pub fn bytes(&mut self, st: &mut State, a: u64, n: u64) -> R<Vec<u8>> {
        if n == 0 { return Ok(vec![]); }
        let mut v = vec![]; for k in 0..n { let x = self.load(st, a + k, &Ty::Int(8))?; v.push(self.cu(st, &x)? as u8); } Ok(v)
    }
    fn to_bits(&mut self, v: &V, ty: &Ty) -> T {
        match ty {
            Ty::Vec(n, e) => { let ew = e.bits(); let V::A(x) = v else { panic!() }; let mut acc: Option<T> = None; for k in 0..*n as usize { let p = self.t(&x[k], ew); acc = Some(match acc { None => p, Some(a) => self.tm.bin(Op::Concat, p, a) }); } acc.unwrap() }
            _ => self.t(v, ty.bits()),
        }
    }
    fn from_bits(&mut self, t: T, ty: &Ty) -> V {
        match ty { Ty::Vec(n, e) => { let ew = e.bits(); let v = (0..*n).map(|k| { let x = self.tm.extract(t, k as u16 * ew, ew); self.mk(x) }).collect(); V::A(Rc::new(v)) } _ => self.mk(t) }
    }

    // ---- scalar operations ----
    fn bin1(&mut self, k: BinK, w: u16, a: &V, b: &V) -> R<V> {
        if let (V::C(x), V::C(y)) = (a, b) {
            let (x, y) = (*x, *y); let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
            let s = |v: u64| sx(v as u128, w) as i64;
            let div0 = || Err(Ev::Mem("division by zero".into()));
            let r = match k {
                BinK::Add => x.wrapping_add(y), BinK::Sub => x.wrapping_sub(y), BinK::Mul => x.wrapping_mul(y),
                BinK::UDiv => { if y == 0 { return div0(); } x / y } BinK::URem => { if y == 0 { return div0(); } x % y }
                BinK::SDiv => { if y == 0 { return div0(); } s(x).wrapping_div(s(y)) as u64 } BinK::SRem => { if y == 0 { return div0(); } s(x).wrapping_rem(s(y)) as u64 }
                BinK::Shl => if y >= w as u64 { 0 } else { x << y }, BinK::LShr => if y >= w as u64 { 0 } else { x >> y }, BinK::AShr => (s(x) >> y.min(w as u64 - 1)) as u64,
                BinK::And => x & y, BinK::Or => x | y, BinK::Xor => x ^ y,
                _ => { return Ok(V::C(if w == 32 { let (p, q) = (f32::from_bits(x as u32), f32::from_bits(y as u32)); (match k { BinK::FAdd => p + q, BinK::FSub => p - q, BinK::FMul => p * q, BinK::FDiv => p / q, _ => p % q }).to_bits() as u64 } else { let (p, q) = (f64::from_bits(x), f64::from_bits(y)); (match k { BinK::FAdd => p + q, BinK::FSub => p - q, BinK::FMul => p * q, BinK::FDiv => p / q, _ => p % q }).to_bits() })); }
            };
            return Ok(V::C(r & m));
        }
        let (x, y) = (self.t(a, w), self.t(b, w));
        let op = match k { BinK::Add => Op::Add, BinK::Sub => Op::Sub, BinK::Mul => Op::Mul, BinK::UDiv => Op::UDiv, BinK::URem => Op::URem, BinK::SDiv => Op::SDiv, BinK::SRem => Op::SRem, BinK::Shl => Op::Shl, BinK::LShr => Op::LShr, BinK::AShr => Op::AShr, BinK::And => Op::And, BinK::Or => Op::Or, BinK::Xor => Op::Xor, BinK::FAdd => Op::FAdd, BinK::FSub => Op::FSub, BinK::FMul => Op::FMul, BinK::FDiv => Op::FDiv, BinK::FRem => Op::FRem };
        let t = self.tm.bin(op, x, y);
        Ok(if w > 64 { V::S(t) } else { self.mk(t) })
    }
    fn icmp1(&mut self, p: IP, w: u16, a: &V, b: &V) -> V {
        if let (V::C(x), V::C(y)) = (a, b) { let (x, y) = (*x, *y); let (i, j) = (sx(x as u128, w), sx(y as u128, w)); return V::C(match p { IP::Eq => x == y, IP::Ne => x != y, IP::Ugt => x > y, IP::Uge => x >= y, IP::Ult => x < y, IP::Ule => x <= y, IP::Sgt => i > j, IP::Sge => i >= j, IP::Slt => i < j, IP::Sle => i <= j } as u64); }
        let (x, y) = (self.t(a, w), self.t(b, w)); let tm = &mut self.tm;
        let t = match p { IP::Eq => tm.eq(x, y), IP::Ne => { let e = tm.eq(x, y); tm.not(e) } IP::Ugt => tm.bin(Op::Ult, y, x), IP::Uge => tm.bin(Op::Ule, y, x), IP::Ult => tm.bin(Op::Ult, x, y), IP::Ule => tm.bin(Op::Ule, x, y), IP::Sgt => tm.bin(Op::Slt, y, x), IP::Sge => tm.bin(Op::Sle, y, x), IP::Slt => tm.bin(Op::Slt, x, y), IP::Sle => tm.bin(Op::Sle, x, y) };
        self.mk(t)
    }
    fn fcmp1(&mut self, p: FP, w: u16, a: &V, b: &V) -> V {
        let (x, y) = (self.t(a, w), self.t(b, w)); let tm = &mut self.tm;
        let t = match p {
            FP::False => 0, FP::True => 1,
            FP::Oeq => tm.bin(Op::FEq, x, y), FP::Une => { let e = tm.bin(Op::FEq, x, y); tm.not(e) }
            FP::Olt => tm.bin(Op::FLt, x, y), FP::Ole => tm.bin(Op::FLe, x, y), FP::Ogt => tm.bin(Op::FLt, y, x), FP::Oge => tm.bin(Op::FLe, y, x),
            FP::Uge => { let e = tm.bin(Op::FLt, x, y); tm.not(e) } FP::Ugt => { let e = tm.bin(Op::FLe, x, y); tm.not(e) } FP::Ule => { let e = tm.bin(Op::FLt, y, x); tm.not(e) } FP::Ult => { let e = tm.bin(Op::FLe, y, x); tm.not(e) }
            FP::Uno => { let (p, q) = (tm.fnan(x), tm.fnan(y)); tm.or(p, q) } FP::Ord => { let (p, q) = (tm.fnan(x), tm.fnan(y)); let o = tm.or(p, q); tm.not(o) }
            FP::One => { let (p, q) = (tm.bin(Op::FLt, x, y), tm.bin(Op::FLt, y, x)); tm.or(p, q) } FP::Ueq => { let (p, q) = (tm.bin(Op::FLt, x, y), tm.bin(Op::FLt, y, x)); let o = tm.or(p, q); tm.not(o) }
        };
        self.mk(t)
    }
    fn cast1(&mut self, k: CastK, fw: u16, tw: u16, a: &V) -> V {
        if let V::C(x) = a { if tw <= 64 { match k { CastK::Bit => return a.clone(), CastK::ZExt => return V::C(*x), CastK::Trunc => return V::C(*x & mask(tw) as u64), CastK::SExt => return V::C(sx(*x as u128, fw) as u64 & mask(tw) as u64), _ => {} } } }
        let t = self.t(a, fw); let tm = &mut self.tm;
        let r = match k { CastK::Bit => t, CastK::ZExt => tm.zext(t, tw), CastK::SExt => tm.sext(t, tw), CastK::Trunc => tm.extract(t, 0, tw), CastK::FpExt => tm.un(Op::FExt, t, tw), CastK::FpTrunc => tm.un(Op::FNarrow, t, tw), CastK::FpToUi => tm.un(Op::FToU, t, tw), CastK::FpToSi => tm.un(Op::FToS, t, tw), CastK::UiToFp => tm.un(Op::UToF, t, tw), CastK::SiToFp => tm.un(Op::SToF, t, tw) };
        if tw > 64 { V::S(r) } else { self.mk(r) }
    }

    #[inline] fn val(fr: &Frame, o: &Opd) -> V { match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::C(v) => v.clone() } }

    pub fn run(&mut self, st: &mut State) -> R<()> {
        loop {
            if st.fr.is_empty() { return Ok(()); }
            let f = st.fr.last().unwrap().f.clone();
            let mut cnt = 0u64;
            let fl = loop {
                let (b, ip) = { let t = st.fr.last().unwrap(); (t.blk as usize, t.ip as usize) };
                let ins = &f.blocks[b].ins[ip];
                st.steps += 1; cnt += 1;
                match self.exec(st, ins) {
                    Ok(Flow::Next) => st.fr.last_mut().unwrap().ip += 1,
                    Ok(Flow::Jump(nb)) => {
                        self.enter(st, &f, nb);
                        if st.steps > self.cfg.max_steps { break Err(Ev::Hang); }
                        if st.steps & 0x3ff == 0 && self.t0.elapsed().as_secs_f64() > self.cfg.max_s { break Err(Ev::Incomplete("time limit".into())); }
                    }
                    Ok(Flow::Merged) => {}
                    Ok(Flow::Frame) => break Ok(()),
                    Err(e) => break Err(e),
                }
            };
            self.instr_of[f.id as usize] += cnt;
            fl?;
        }
    }
    fn enter(&mut self, st: &mut State, f: &Func, nb: u32) {
        let fr = st.fr.last_mut().unwrap();
        let from = fr.blk; let blk = &f.blocks[nb as usize];
        if !blk.phis.is_empty() {
            if blk.phis.len() == 1 { let (d, ins) = &blk.phis[0]; let o = &ins.iter().find(|x| x.0 == from).expect("phi").1; let v = Self::val(fr, o); fr.regs[*d as usize] = v; }
            else { let vs: Vec<(u32, V)> = blk.phis.iter().map(|(d, ins)| { let o = &ins.iter().find(|x| x.0 == from).expect("phi").1; (*d, Self::val(fr, o)) }).collect(); for (d, v) in vs { fr.regs[d as usize] = v; } }
        }
        fr.blk = nb; fr.ip = 0;
    }

    // ---- branches that only choose floating-point values: both arms are evaluated, and the choice becomes a term ----
    fn pure_arm(&self, b: &Block) -> bool {
        b.phis.is_empty() && b.ins.len() <= 24 && b.ins[..b.ins.len() - 1].iter().all(|i| match i {
            I::Bin(k, ..) => !matches!(k, BinK::UDiv | BinK::SDiv | BinK::URem | BinK::SRem),
            I::ICmp(..) | I::FCmp(..) | I::FNeg(..) | I::Freeze(..) | I::Nop => true,
            I::Cast(k, ..) => !matches!(k, CastK::FpToUi | CastK::FpToSi),
            I::Select(.., t) => t.is_scalar() && *t != Ty::Ptr,
            I::Call { callee: Opd::C(V::C(a)), normal: None, .. } if a >> 32 == FUNC_BASE => {
                let n = &self.m.funcs[((a & 0xffff_ffff) >> 4) as usize].name;
                let n = n.strip_prefix("llvm.").map(|r| r.split('.').next().unwrap_or("")).unwrap_or(n.as_str());
                ["fabs", "sqrt", "log", "log2", "log10", "exp", "exp2", "pow", "sin", "cos", "tan", "tanh", "tanhf", "maxnum", "minnum", "maximumnum", "minimumnum", "copysign", "fma", "fmuladd", "floor", "ceil", "round", "trunc", "rint", "logf", "log10f", "expf", "powf"].contains(&n)
            }
            _ => false,
        })
    }
    fn leaves(&self, f: &Func, from: u32, to: u32, depth: u32, out: &mut Vec<(u32, u32)>) -> bool {
        let b = &f.blocks[to as usize];
        if depth > 5 || out.len() > 8 { return false; }
        if !self.pure_arm(b) { out.push((from, to)); return true; }
        match b.ins.last().unwrap() { I::Br(n) => self.leaves(f, to, *n, depth + 1, out), I::CondBr(_, x, y) => self.leaves(f, to, *x, depth + 1, out) && self.leaves(f, to, *y, depth + 1, out), _ => { out.push((from, to)); true } }
    }
    /// The block where all arms of a branch meet, if they do nothing but compute floating-point values for it.
    fn join(&self, f: &Func, blk: u32) -> Option<u32> {
        if let Some(j) = f.joins.borrow()[blk as usize] { return j; }
        let j = (|| {
            let I::CondBr(_, a, b) = f.blocks[blk as usize].ins.last()? else { return None };
            let mut l = vec![];
            if !(self.leaves(f, blk, *a, 0, &mut l) && self.leaves(f, blk, *b, 0, &mut l)) { return None; }
            let j = l[0].1;
            if l.iter().any(|x| x.1 != j) || f.blocks[j as usize].phis.is_empty() || j == blk { return None; }
            let mut froms: Vec<u32> = l.iter().map(|x| x.0).collect(); froms.sort(); froms.dedup(); if froms.len() != l.len() { return None; }
            for (p, t) in f.blocks[j as usize].phis.iter().zip(&f.blocks[j as usize].phi_ty) {
                if matches!(t, Ty::F32 | Ty::F64) { continue; }
                let v: Vec<String> = froms.iter().map(|b| format!("{:?}", p.1.iter().find(|x| x.0 == *b).map(|x| &x.1))).collect();
                if v.iter().any(|x| *x != v[0]) { return None; }
            }
            Some(j)
        })();
        f.joins.borrow_mut()[blk as usize] = Some(j);
        j
    }
    fn arm(&mut self, st: &mut State, f: &Rc<Func>, from: u32, to: u32, j: u32) -> R<Vec<V>> {
        if to == j { let fr = st.fr.last().unwrap(); return Ok(f.blocks[j as usize].phis.iter().map(|(_, ins)| Self::val(fr, &ins.iter().find(|x| x.0 == from).expect("phi").1)).collect()); }
        let b = &f.blocks[to as usize]; let n = b.ins.len() - 1;
        for i in &b.ins[..n] { st.steps += 1; match self.exec(st, i)? { Flow::Next => {} _ => panic!("arm") } }
        match &b.ins[n] {
            I::Br(k) => self.arm(st, f, to, *k, j),
            I::CondBr(c, x, y) => { let cv = Self::val(st.fr.last().unwrap(), c);
                match cv { V::C(k) => self.arm(st, f, to, if k != 0 { *x } else { *y }, j),
                    V::S(t) => if let Some(&k) = st.known.get(&t) { self.arm(st, f, to, if k { *x } else { *y }, j) } else { let p = self.arm(st, f, to, *x, j)?; let q = self.arm(st, f, to, *y, j)?; Ok(self.choose(f, j, t, p, q)) },
                    _ => panic!("arm") } }
            _ => panic!("arm"),
        }
    }
    fn choose(&mut self, f: &Func, j: u32, c: T, p: Vec<V>, q: Vec<V>) -> Vec<V> {
        let tys = &f.blocks[j as usize].phi_ty;
        p.into_iter().zip(q).zip(tys).map(|((x, y), t)| if !matches!(t, Ty::F32 | Ty::F64) { x } else { let w = t.bits(); let (x, y) = (self.t(&x, w), self.t(&y, w)); let r = self.tm.ite(c, x, y); self.mk(r) }).collect()
    }
    fn merge_arms(&mut self, st: &mut State, c: T) -> R<bool> {
        let (f, blk) = { let fr = st.fr.last().unwrap(); (fr.f.clone(), fr.blk) };
        let Some(j) = self.join(&f, blk) else { return Ok(false) };
        let I::CondBr(_, a, b) = f.blocks[blk as usize].ins.last().unwrap() else { return Ok(false) };
        let p = self.arm(st, &f, blk, *a, j)?; let q = self.arm(st, &f, blk, *b, j)?;
        let r = self.choose(&f, j, c, p, q);
        let fr = st.fr.last_mut().unwrap();
        for ((d, _), v) in f.blocks[j as usize].phis.iter().zip(r) { fr.regs[*d as usize] = v; }
        fr.blk = j; fr.ip = 0;
        Ok(true)
    }

    fn exec(&mut self, st: &mut State, ins: &I) -> R<Flow> {
        macro_rules! fr { () => { st.fr.last_mut().unwrap() } }
        macro_rules! v { ($o:expr) => { Self::val(st.fr.last().unwrap(), $o) } }
        macro_rules! set { ($d:expr, $v:expr) => {{ let x = $v; fr!().regs[*$d as usize] = x; }} }
        match ins {
            I::Nop => {}
            I::Bin(k, w, d, a, b) => { let (x, y) = (v!(a), v!(b)); let r = match (&x, &y) { (V::A(p), V::A(q)) => { let mut o = Vec::with_capacity(p.len()); for (i, j) in p.iter().zip(q.iter()) { o.push(self.bin1(*k, *w, i, j)?); } V::A(Rc::new(o)) } _ => {
                    if matches!(k, BinK::UDiv | BinK::URem | BinK::SDiv | BinK::SRem) { if let V::S(t) = y { let z = self.tm.cst(0, *w); let e = self.tm.eq(t, z); if self.decide(st, e)? { return Err(Ev::Mem("division by zero".into())); } } }
                    self.bin1(*k, *w, &x, &y)? } }; set!(d, r); }
            I::ICmp(p, w, d, a, b) => { let (x, y) = (v!(a), v!(b)); let r = match (&x, &y) { (V::A(q), V::A(s)) => { let o: Vec<V> = q.iter().zip(s.iter()).map(|(i, j)| self.icmp1(*p, *w, i, j)).collect(); V::A(Rc::new(o)) } _ => self.icmp1(*p, *w, &x, &y) }; set!(d, r); }
            I::FCmp(p, w, d, a, b) => { let (x, y) = (v!(a), v!(b)); let r = match (&x, &y) { (V::A(q), V::A(s)) => { let o: Vec<V> = q.iter().zip(s.iter()).map(|(i, j)| self.fcmp1(*p, *w, i, j)).collect(); V::A(Rc::new(o)) } _ => self.fcmp1(*p, *w, &x, &y) }; set!(d, r); }
            I::FNeg(w, d, a) => { let x = v!(a); let mut g = |x: &V| { let t = self.t(x, *w); let r = self.tm.fneg(t); self.mk(r) }; let r = match &x { V::A(q) => V::A(Rc::new(q.iter().map(|i| g(i)).collect())), _ => g(&x) }; set!(d, r); }
            I::Cast(k, t1, t2, d, a) => {
                let x = v!(a);
                let r = match (t1, t2) {
                    (Ty::Vec(_, e1), Ty::Vec(_, e2)) if *k != CastK::Bit || e1.bits() == e2.bits() => { let V::A(q) = &x else { panic!() }; let (w1, w2) = (e1.bits(), e2.bits()); V::A(Rc::new(q.iter().map(|i| self.cast1(*k, w1, w2, i)).collect())) }
                    (Ty::Vec(..), _) | (_, Ty::Vec(..)) => { let t = self.to_bits(&x, t1); self.from_bits(t, t2) }
                    _ => self.cast1(*k, t1.bits(), t2.bits(), &x),
                };
                set!(d, r);
            }
            I::Select(d, c, a, b, ty) => {
                let cv = v!(c); let (x, y) = (v!(a), v!(b));
                let r = match &cv {
                    V::C(k) => if *k != 0 { x } else { y },
                    V::S(t) => { if ty.is_scalar() && *ty != Ty::Ptr { if let Some(&kv) = st.known.get(t) { if kv { x } else { y } } else { let w = ty.bits(); let (p, q) = (self.t(&x, w), self.t(&y, w)); let r = self.tm.ite(*t, p, q); if w > 64 { V::S(r) } else { self.mk(r) } } } else if self.decide(st, *t)? { x } else { y } }
                    V::A(cs) => { let (V::A(p), V::A(q)) = (&x, &y) else { panic!() }; let e = elem(ty); let w = e.bits(); let mut o = vec![]; for i in 0..cs.len() { o.push(match &cs[i] { V::C(k) => if *k != 0 { p[i].clone() } else { q[i].clone() }, V::S(t) => { let (m, n) = (self.t(&p[i], w), self.t(&q[i], w)); let r = self.tm.ite(*t, m, n); self.mk(r) } _ => panic!() }); } V::A(Rc::new(o)) }
                };
                set!(d, r);
            }
            I::Load(d, ty, p) => { let pv = v!(p);
                if let (V::S(t), true) = (&pv, ty.is_scalar() && *ty != Ty::Ptr) { if let Some(r) = self.load_choice(st, *t, ty) { set!(d, r); return Ok(Flow::Next); } }
                let a = self.cu(st, &pv)?; let r = self.load(st, a, ty)?; set!(d, r); }
            I::Store(ty, x, p) => { let pv = v!(p); let a = self.cu(st, &pv)?; let xv = v!(x); self.store(st, a, ty, &xv)?; }
            I::Gep(d, base, off, ixs) => {
                let b = v!(base);
                let mut acc = match &b { V::C(c) => V::C(c.wrapping_add(*off)), _ => { let k = V::C(*off); self.bin1(BinK::Add, 64, &b, &k)? } };
                for (o, w, sc) in ixs { let i = v!(o); acc = match (&acc, &i) { (V::C(x), V::C(k)) => V::C(x.wrapping_add((sx(*k as u128, *w) as u64).wrapping_mul(*sc))), _ => { let e = self.cast1(CastK::SExt, *w, 64, &i); let s = V::C(*sc); let p = self.bin1(BinK::Mul, 64, &e, &s)?; self.bin1(BinK::Add, 64, &acc, &p)? } }; }
                set!(d, acc);
            }
            I::Alloca(d, sz, n) => { let nv = v!(n); let n = self.cu(st, &nv)?; let a = self.alloc(st, sz * n, false, 0xA5)?; fr!().allocas.push((a >> 32) as u32); set!(d, V::C(a)); }
            I::Br(b) => return Ok(Flow::Jump(*b)),
            I::CondBr(c, a, b) => { let cv = v!(c);
                if let V::S(t) = cv { if self.cfg.merge && self.tm.cv(t).is_none() && !st.known.contains_key(&t) && self.is_fixed(st, t).is_none() { if self.merge_arms(st, t)? { return Ok(Flow::Merged); } } }
                let k = match cv { V::C(k) => k != 0, V::S(t) => self.decide(st, t)?, _ => panic!() }; return Ok(Flow::Jump(if k { *a } else { *b })); }
            I::Switch(o, w, def, cs) => {
                let x = v!(o);
                match x {
                    V::C(k) => { for (c, l) in cs { if *c == k { return Ok(Flow::Jump(*l)); } } return Ok(Flow::Jump(*def)); }
                    V::S(t) => { for (c, l) in cs { let k = self.tm.cst(*c as u128, *w); let e = self.tm.eq(t, k); if self.decide(st, e)? { return Ok(Flow::Jump(*l)); } } return Ok(Flow::Jump(*def)); }
                    _ => panic!(),
                }
            }
            I::Ret(o) => {
                let rv = o.as_ref().map(|x| v!(x));
                let fr = st.fr.pop().unwrap();
                for i in fr.allocas { st.mem[i as usize] = None; st.free_ids.push(i); }
                if let Some(p) = st.fr.last_mut() { if fr.dst != u32::MAX { p.regs[fr.dst as usize] = rv.expect("return value"); } if let Some(nb) = fr.normal { let f = p.f.clone(); self.enter(st, &f, nb); } else { p.ip += 1; } }
                return Ok(Flow::Frame);
            }
            I::Unreachable => return Err(Ev::Mem("unreachable code executed".into())),
            I::Extract(d, a, ix) => { let mut x = v!(a); for i in ix { x = match &x { V::A(q) => q[*i as usize].clone(), _ => V::C(0) }; } set!(d, x); }
            I::Insert(d, a, b, ix, ty) => { let mut x = v!(a); let y = v!(b); if !matches!(x, V::A(_)) { x = zero(ty, &mut self.tm); } fn ins(x: &mut V, ix: &[u32], y: V) { if let V::A(q) = x { let q = Rc::make_mut(q); if ix.len() == 1 { q[ix[0] as usize] = y; } else { ins(&mut q[ix[0] as usize], &ix[1..], y); } } else { panic!() } } ins(&mut x, ix, y); set!(d, x); }
            I::ExtElem(d, a, i) => { let x = v!(a); let iv = v!(i); let k = self.cu(st, &iv)? as usize; let V::A(q) = &x else { panic!() }; let r = q[k].clone(); set!(d, r); }
            I::InsElem(d, a, b, i, n) => { let mut x = v!(a); let y = v!(b); let iv = v!(i); let k = self.cu(st, &iv)? as usize; if !matches!(x, V::A(_)) { x = V::A(Rc::new(vec![V::C(0); *n as usize])); } if let V::A(q) = &mut x { Rc::make_mut(q)[k] = y; } set!(d, x); }
            I::Shuffle(d, a, b, mv, n) => { let (x, y) = (v!(a), v!(b)); let g = |k: i32| -> V { if k < 0 { return V::C(0); } let k = k as u32; let (s, k) = if k < *n { (&x, k) } else { (&y, k - n) }; match s { V::A(q) => q[k as usize].clone(), _ => V::C(0) } }; let r = V::A(Rc::new(mv.iter().map(|k| g(*k)).collect())); set!(d, r); }
            I::Rmw(k, d, p, x, ty) => {
                let pv = v!(p); let a = self.cu(st, &pv)?; let y = v!(x); let old = self.load(st, a, ty)?; let w = ty.bits();
                let new = match k { RmwK::Xchg => y, RmwK::Add => self.bin1(BinK::Add, w, &old, &y)?, RmwK::Sub => self.bin1(BinK::Sub, w, &old, &y)?, RmwK::And => self.bin1(BinK::And, w, &old, &y)?, RmwK::Or => self.bin1(BinK::Or, w, &old, &y)?, RmwK::Xor => self.bin1(BinK::Xor, w, &old, &y)?,
                    RmwK::Nand => { let t = self.bin1(BinK::And, w, &old, &y)?; let m = V::C(mask(w) as u64); self.bin1(BinK::Xor, w, &t, &m)? } RmwK::FAdd => self.bin1(BinK::FAdd, w, &old, &y)?,
                    RmwK::Max | RmwK::Min | RmwK::UMax | RmwK::UMin => { let p = match k { RmwK::Max => IP::Sgt, RmwK::Min => IP::Slt, RmwK::UMax => IP::Ugt, _ => IP::Ult }; let c = self.icmp1(p, w, &old, &y); match c { V::C(c) => if c != 0 { old.clone() } else { y }, V::S(c) => { let (m, n) = (self.t(&old, w), self.t(&y, w)); let r = self.tm.ite(c, m, n); self.mk(r) } _ => panic!() } } };
                self.store(st, a, ty, &new)?; set!(d, old);
            }
            I::CmpXchg(d, p, c, n, ty) => {
                let pv = v!(p); let a = self.cu(st, &pv)?; let (cv, nv) = (v!(c), v!(n)); let old = self.load(st, a, ty)?; let w = ty.bits();
                let eq = match self.icmp1(IP::Eq, w, &old, &cv) { V::C(k) => k != 0, V::S(t) => self.decide(st, t)?, _ => panic!() };
                if eq { self.store(st, a, ty, &nv)?; }
                set!(d, V::A(Rc::new(vec![old, V::C(eq as u64)])));
            }
            I::Freeze(d, a) => { let x = v!(a); set!(d, x); }
            I::Call { dst, callee, args, ret, normal } => return self.call(st, *dst, callee, args, ret, *normal),
        }
        Ok(Flow::Next)
    }

    fn classify(&mut self, id: u32) -> Ext {
        let n = self.m.funcs[id as usize].name.clone(); let n = n.as_str();
        let is = |p: &str| n.starts_with(p);
        if is("llvm.lifetime") || is("llvm.dbg") || is("llvm.experimental.noalias") || is("llvm.assume") || is("llvm.x86.sse2.pause") || is("llvm.invariant") || is("llvm.donothing") || is("llvm.prefetch") { return Ext::Skip; }
        if is("llvm.memcpy") || is("llvm.memmove") { return Ext::Memcpy; }
        if is("llvm.memset") { return Ext::Memset; }
        if is("llvm.threadlocal.address") || is("llvm.expect") || is("llvm.ssa.copy") { return Ext::Pass0; }
        if n == "rust_begin_unwind" || n.ends_with("_17rust_begin_unwind") || (n.contains("4core9panicking") && (n.contains("9panic_fmt") || n.contains("19panic_nounwind_fmt") || n.contains("14panic_nounwind") || n.contains("26panic_nounwind_nobacktrace") )) { return Ext::Panic; }
        let fl: &[(&str, Op)] = &[("floor", Op::FFloor), ("ceil", Op::FCeil), ("trunc", Op::FTrunc), ("rint", Op::FRint), ("nearbyint", Op::FRint), ("roundeven", Op::FRint), ("round", Op::FRound), ("sqrt", Op::FSqrt), ("fabs", Op::FAbs)];
        for (b, o) in fl { if n == format!("{b}f") || n == *b || n == format!("llvm.{b}.f32") || n == format!("llvm.{b}.f64") { return Ext::Float(*o); } }
        // fixed-point 32.32 <-> f64 conversions of the `fixed` crate: summarised (exact semantics) on symbolic arguments
        if n.contains("5fixed") && n.contains("8FixedI64") && (n.contains("6to_numd") || n.contains("8from_numd")) && frac32(n) { return if n.contains("6to_numd") { Ext::FixedTo } else { Ext::FixedFrom }; }
        Ext::Other
    }

    fn call(&mut self, st: &mut State, dst: Option<u32>, callee: &Opd, args: &[(Ty, Opd)], ret: &Ty, normal: Option<u32>) -> R<Flow> {
        let cv = Self::val(st.fr.last().unwrap(), callee);
        let ca = self.cu(st, &cv)?;
        if ca >> 32 != FUNC_BASE { return Err(Ev::Mem(format!("call through invalid pointer {ca:#x}"))); }
        let id = ((ca & 0xffff_ffff) >> 4) as u32;
        if self.ext[id as usize] == Ext::Unset { self.ext[id as usize] = self.classify(id); }
        let e = self.ext[id as usize];
        if e == Ext::Skip { return Ok(self.fin(st, dst, normal, V::C(0))); }
        let av: Vec<V> = { let fr = st.fr.last().unwrap(); args.iter().filter(|a| a.0 != Ty::Meta).map(|a| Self::val(fr, &a.1)).collect() };
        let r = match e {
            Ext::Memcpy => { let n = self.cu(st, &av[2])?; let d = self.cu(st, &av[0])?; let s = self.cu(st, &av[1])?; self.memcpy(st, d, s, n)?; V::C(0) }
            Ext::Memset => { let n = self.cu(st, &av[2])?; let d = self.cu(st, &av[0])?; self.memset(st, d, &av[1], n)?; V::C(0) }
            Ext::Pass0 => av[0].clone(),
            Ext::Panic => return Err(self.panic_ev(st, &av)),
            Ext::Float(o) => { let w = ret.bits(); let t = self.t(&av[0], w); let r = self.tm.un(o, t, w); self.mk(r) }
            Ext::FixedTo if matches!(av[0], V::S(_)) => { let x = self.t(&av[0], 64); let c = self.tm.cst((1f64 / 4294967296.0).to_bits() as u128, 64); let f = self.tm.un(Op::SToF, x, 64); let r = self.tm.bin(Op::FMul, f, c); self.mk(r) }
            Ext::FixedFrom if matches!(av[0], V::S(_)) && { let x = self.t(&av[0], 64); let y = self.fixed_scaled(x); let (lo, hi) = (self.tm.cst((-9223372036854775808f64).to_bits() as u128, 64), self.tm.cst(9223372036854775808f64.to_bits() as u128, 64)); let (a, b) = (self.tm.bin(Op::FLe, lo, y), self.tm.bin(Op::FLt, y, hi)); let c = self.tm.bin(Op::And, a, b); self.decide(st, c)? } => { let x = self.t(&av[0], 64); let y = self.fixed_scaled(x); let r = self.tm.un(Op::FToS, y, 64); self.mk(r) }
            _ => {
                let f = match self.m.func(id, &mut self.tm) { Some(f) => f, None => {
                    let name = self.m.funcs[id as usize].name.clone();
                    let v = self.external(st, &name, &av, args, ret)?;
                    return Ok(self.fin(st, dst, normal, v));
                } };
                if st.fr.len() > 400 { return Err(Ev::Mem("call depth 400 exceeded (stack overflow)".into())); }
                self.funcs_seen[id as usize] = true;
                let mut regs = vec![V::C(0); f.nregs as usize];
                let mut allocas = vec![];
                for (i, (r, _)) in f.params.iter().enumerate() {
                    let mut x = av[i].clone();
                    if let Some(sz) = f.byval[i] { let a = self.alloc(st, sz, false, 0)?; let s = self.cu(st, &x)?; self.memcpy(st, a, s, sz)?; allocas.push((a >> 32) as u32); x = V::C(a); }
                    regs[*r as usize] = x;
                }
                st.fr.push(Frame { f, blk: 0, ip: 0, regs, allocas, dst: dst.unwrap_or(u32::MAX), normal });
                return Ok(Flow::Frame);
            }
        };
        Ok(self.fin(st, dst, normal, r))
    }
    fn fixed_scaled(&mut self, x: T) -> T { let k = self.tm.cst(4294967296f64.to_bits() as u128, 64); let y = self.tm.bin(Op::FMul, x, k); self.tm.un(Op::FRint, y, 64) }
    fn fin(&mut self, st: &mut State, dst: Option<u32>, normal: Option<u32>, r: V) -> Flow {
        let fr = st.fr.last_mut().unwrap();
        if let Some(d) = dst { fr.regs[d as usize] = r; }
        match normal { Some(b) => Flow::Jump(b), None => Flow::Next }
    }
    fn memset(&mut self, st: &mut State, d: u64, v: &V, n: u64) -> R<()> {
        if n == 0 { return Ok(()); }
        match v { V::C(b) => { let (i, off) = Self::find(st, d, n)?; let o = Rc::make_mut(st.mem[i].as_mut().unwrap()); if o.ro { return Err(Ev::Mem("store to constant memory".into())); } for x in &mut o.data[off..off + n as usize] { *x = *b as u8; } if !o.sym.is_empty() { for x in &mut o.sym[off..off + n as usize] { *x = (0, 0); } } Ok(()) }
            _ => { for k in 0..n { self.store(st, d + k, &Ty::Int(8), v)?; } Ok(()) } }
    }
    fn panic_ev(&mut self, st: &mut State, av: &[V]) -> Ev {
        // the Location is the last pointer argument that looks like one
        for v in av.iter().rev() {
            if let V::C(a) = v { if *a >> 32 >= 16 && *a >> 32 < FUNC_BASE {
                let (p, n, l, c) = match (self.load(st, *a, &Ty::Ptr), self.load(st, a + 8, &Ty::Int(64)), self.load(st, a + 16, &Ty::Int(32)), self.load(st, a + 20, &Ty::Int(32))) { (Ok(V::C(p)), Ok(V::C(n)), Ok(V::C(l)), Ok(V::C(c))) => (p, n, l, c), _ => continue };
                if n > 300 { continue; }
                if let Ok(b) = self.bytes(st, p, n) { let s = String::from_utf8_lossy(&b).trim_end_matches('\0').to_string(); if s.ends_with(".rs") { let s = s.rsplit("/rustlib/src/rust/").next().unwrap().to_string(); return Ev::Panic(format!("panic at {}:{}:{}", s, l, c)); } }
            } }
        }
        Ev::Panic(format!("panic in {}", self.whereis(st)))
    }

    fn overflow(&mut self, kind: &str, w: u16, a: &V, b: &V) -> R<V> {
        let (x, y) = (self.t(a, w), self.t(b, w)); let tm = &mut self.tm;
        let (r, o) = match kind {
            "uadd" => { let r = tm.bin(Op::Add, x, y); let (p, q) = (tm.ur[x as usize].1, tm.ur[y as usize].1); let o = if p.checked_add(q).map_or(false, |s| s <= mask(w)) { 0 } else { tm.bin(Op::Ult, r, x) }; (r, o) }
            "usub" => { let r = tm.bin(Op::Sub, x, y); let o = tm.bin(Op::Ult, x, y); (r, o) }
            "umul" => { let r = tm.bin(Op::Mul, x, y); let (p, q) = (tm.ur[x as usize].1, tm.ur[y as usize].1); let o = if p.checked_mul(q).map_or(false, |s| s <= mask(w)) { 0 } else if w <= 64 { let (X, Y) = (tm.zext(x, 2 * w), tm.zext(y, 2 * w)); let f = tm.bin(Op::Mul, X, Y); let h = tm.extract(f, w, w); let z = tm.cst(0, w); let e = tm.eq(h, z); tm.not(e) } else { return Err(Ev::Unsupported("128-bit multiplication overflow".into())); }; (r, o) }
            _ if w <= 64 && { let (p, q) = (tm.sr[x as usize], tm.sr[y as usize]); let (lo, hi) = (-((mask(w) >> 1) as i128) - 1, (mask(w) >> 1) as i128); let c: Vec<Option<i128>> = match kind { "sadd" => vec![p.0.checked_add(q.0), p.1.checked_add(q.1)], "ssub" => vec![p.0.checked_sub(q.1), p.1.checked_sub(q.0)], _ => vec![p.0.checked_mul(q.0), p.0.checked_mul(q.1), p.1.checked_mul(q.0), p.1.checked_mul(q.1)] }; c.iter().all(|v| v.map_or(false, |v| lo <= v && v <= hi)) } => { let r = tm.bin(match kind { "sadd" => Op::Add, "ssub" => Op::Sub, _ => Op::Mul }, x, y); (r, 0) }
            _ => { let (X, Y) = if w <= 64 { let ww = if kind == "smul" { 2 * w } else { w + 1 }; (tm.sext(x, ww), tm.sext(y, ww)) } else { return Err(Ev::Unsupported("signed 128-bit overflow".into())); }; let op = match kind { "sadd" => Op::Add, "ssub" => Op::Sub, _ => Op::Mul }; let r = tm.bin(op, x, y); let f = tm.bin(op, X, Y); let ww = tm.w(f); let rs = tm.sext(r, ww); let e = tm.eq(f, rs); (r, tm.not(e)) }
        };
        let rv = if w > 64 { V::S(r) } else { self.mk(r) }; let ov = self.mk(o);
        Ok(V::A(Rc::new(vec![rv, ov])))
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, av: &[V], args: &[(Ty, Opd)], ret: &Ty) -> R<V> {
        let parts: Vec<&str> = name.split('.').collect();
        let k = parts[1];
        // element-wise over vectors
        if let Ty::Vec(n, e) = ret { if matches!(k, "umax" | "umin" | "smax" | "smin" | "fabs" | "sqrt" | "floor" | "ceil" | "abs" | "minnum" | "maxnum" | "minimumnum" | "maximumnum" | "fma" | "fmuladd" | "copysign" | "uadd" | "usub" | "ctpop" | "bswap" | "fshl" | "fshr" | "trunc" | "round") {
            let mut out = vec![]; for i in 0..*n as usize { let a: Vec<V> = av.iter().map(|x| if let V::A(q) = x { q[i].clone() } else { x.clone() }).collect(); let ar: Vec<(Ty, Opd)> = args.iter().map(|x| (match &x.0 { Ty::Vec(_, e) => (**e).clone(), t => t.clone() }, x.1.clone())).collect(); let op = match k { "fabs" => Some(Op::FAbs), "sqrt" => Some(Op::FSqrt), "floor" => Some(Op::FFloor), "ceil" => Some(Op::FCeil), "trunc" => Some(Op::FTrunc), "round" => Some(Op::FRound), _ => None }; let r = if let Some(o) = op { let w = e.bits(); let t = self.t(&a[0], w); let r = self.tm.un(o, t, w); self.mk(r) } else { self.intrinsic(st, name, &a, &ar, e)? }; out.push(r); } return Ok(V::A(Rc::new(out))); } }
        let w0 = args.first().map(|a| if a.0.is_scalar() { a.0.bits() } else { 0 }).unwrap_or(0);
        let two = |s: &mut Self| { let a = s.t(&av[0], w0); let b = s.t(&av[1], w0); (a, b) };
        let wrap = |s: &Self, t: T| if s.tm.w(t) > 64 { V::S(t) } else { s.mk(t) };
        match k {
            "umax" | "umin" | "smax" | "smin" => { let (a, b) = two(self); let tm = &mut self.tm; let c = if k.starts_with('u') { tm.bin(Op::Ult, a, b) } else { tm.bin(Op::Slt, a, b) }; let r = if k.ends_with("max") { tm.ite(c, b, a) } else { tm.ite(c, a, b) }; Ok(wrap(self, r)) }
            "abs" => { let a = self.t(&av[0], w0); let z = self.tm.cst(0, w0); let n = self.tm.bin(Op::Sub, z, a); let c = self.tm.bin(Op::Slt, a, z); let r = self.tm.ite(c, n, a); Ok(wrap(self, r)) }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" if parts[2] == "with" => self.overflow(k, w0, &av[0], &av[1]),
            "uadd" | "usub" | "sadd" | "ssub" if parts[2] == "sat" => {
                let o = self.overflow(k, w0, &av[0], &av[1])?; let V::A(q) = &o else { panic!() }; let (r, ov) = (self.t(&q[0], w0), self.t(&q[1], 1)); let x = self.t(&av[0], w0); let tm = &mut self.tm;
                let lim = match k { "uadd" => tm.cst(mask(w0), w0), "usub" => tm.cst(0, w0), _ => { let z = tm.cst(0, w0); let n = tm.bin(Op::Slt, x, z); let (lo, hi) = (tm.cst(1u128 << (w0 - 1), w0), tm.cst(mask(w0) >> 1, w0)); tm.ite(n, lo, hi) } };
                let t = tm.ite(ov, lim, r); Ok(wrap(self, t)) }
            "ucmp" | "scmp" => { let (a, b) = two(self); let op = if k == "ucmp" { Op::Ult } else { Op::Slt }; let w = ret.bits(); let tm = &mut self.tm; let lt = tm.bin(op, a, b); let e = tm.eq(a, b); let (m1, z, o) = (tm.cst(mask(w), w), tm.cst(0, w), tm.cst(1, w)); let i = tm.ite(e, z, o); let r = tm.ite(lt, m1, i); Ok(wrap(self, r)) }
            "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" => {
                let t = self.t(&av[0], w0);
                if let Some(v) = self.is_fixed(st, t) { let w = w0 as u32; let r: u128 = match k { "ctpop" => v.count_ones() as u128, "ctlz" => (v.leading_zeros() - (128 - w)) as u128, "cttz" => v.trailing_zeros().min(w) as u128, "bswap" => v.swap_bytes() >> (128 - w), _ => v.reverse_bits() >> (128 - w) }; let t = self.tm.cst(r, w0); return Ok(wrap(self, t)); }
                match k {
                    "bswap" => { let mut acc: Option<T> = None; for i in 0..w0 / 8 { let p = self.tm.extract(t, i * 8, 8); acc = Some(match acc { None => p, Some(a) => self.tm.bin(Op::Concat, a, p) }); } Ok(wrap(self, acc.unwrap())) }
                    "ctpop" => { let mut acc = self.tm.cst(0, w0); for i in 0..w0 { let b = self.tm.extract(t, i, 1); let z = self.tm.zext(b, w0); acc = self.tm.bin(Op::Add, acc, z); } Ok(wrap(self, acc)) }
                    "cttz" | "ctlz" => { let mut r = self.tm.cst(w0 as u128, w0); for i in 0..w0 { let bit = if k == "cttz" { w0 - 1 - i } else { i }; let b = self.tm.extract(t, bit, 1); let v = if k == "cttz" { bit } else { w0 - 1 - bit }; let c = self.tm.cst(v as u128, w0); r = self.tm.ite(b, c, r); } Ok(wrap(self, r)) }
                    _ => Err(Ev::Unsupported(format!("{name} on a symbolic value"))),
                }
            }
            "fshl" | "fshr" => { let s = self.cu(st, &av[2])? % w0 as u64; let (a, b) = two(self); if s == 0 { return Ok(wrap(self, if k == "fshl" { a } else { b })); } let s = s as u16; let tm = &mut self.tm; let sh = if k == "fshl" { s } else { w0 - s }; let hi = tm.extract(a, 0, w0 - sh); let lo = tm.extract(b, w0 - sh, sh); let r = tm.bin(Op::Concat, hi, lo); Ok(wrap(self, r)) }
            "is" if parts[2] == "constant" => Ok(V::C(0)),
            "fptoui" | "fptosi" => { let w = ret.bits(); let t = self.t(&av[0], w0); let r = self.tm.un(if k == "fptoui" { Op::FToUSat } else { Op::FToSSat }, t, w); Ok(wrap(self, r)) }
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" => { let (a, b) = two(self); let r = self.tm.bin(if k.starts_with("min") { Op::FMin } else { Op::FMax }, a, b); Ok(self.mk(r)) }
            "fma" | "fmuladd" => { let (a, b) = two(self); let c = self.t(&av[2], w0); let r = self.tm.fma(a, b, c); Ok(self.mk(r)) }
            "is" if parts[2] == "fpclass" => {
                let x = self.t(&av[0], w0); let mask_ = self.cu(st, &av[1])?; let tm = &mut self.tm;
                let (eb, mb) = if w0 == 32 { (8u16, 23u16) } else { (11, 52) };
                let sgn = tm.extract(x, w0 - 1, 1); let pos = tm.not(sgn);
                let e = tm.extract(x, mb, eb); let m = tm.extract(x, 0, mb);
                let (e0, e1, m0) = (tm.cst(0, eb), tm.cst((1u128 << eb) - 1, eb), tm.cst(0, mb));
                let (ez, ei, mz) = (tm.eq(e, e0), tm.eq(e, e1), tm.eq(m, m0));
                let (nez, nei, nmz) = (tm.not(ez), tm.not(ei), tm.not(mz));
                let q = tm.extract(m, mb - 1, 1); let nq = tm.not(q);
                let z = tm.bin(Op::And, ez, mz); let sub = tm.bin(Op::And, ez, nmz); let norm = tm.bin(Op::And, nez, nei); let inf = tm.bin(Op::And, ei, mz); let nan = tm.bin(Op::And, ei, nmz);
                let cl = [(nan, nq), (nan, q), (inf, sgn), (norm, sgn), (sub, sgn), (z, sgn), (z, pos), (sub, pos), (norm, pos), (inf, pos)];
                let mut r = 0;
                for (i, (a, b)) in cl.iter().enumerate() { if mask_ >> i & 1 == 1 { let c = tm.bin(Op::And, *a, *b); r = tm.bin(Op::Or, r, c); } }
                if mask_ == 64 { let zc = tm.cst(0, w0); r = tm.eq(x, zc); }
                Ok(self.mk(r)) }
            "copysign" => { let (a, b) = two(self); let s = self.tm.extract(b, w0 - 1, 1); let m = self.tm.extract(a, 0, w0 - 1); let r = self.tm.bin(Op::Concat, s, m); Ok(self.mk(r)) }
            "sin" | "cos" | "tan" | "exp" | "exp2" | "log" | "log2" | "log10" | "tanh" | "atan" | "sinh" | "cosh" | "asin" | "acos" => { let a = self.t(&av[0], w0); let r = self.tm.uf(k, a, None); Ok(self.mk(r)) }
            "pow" | "atan2" => { let (a, b) = two(self); let r = self.tm.uf(k, a, Some(b)); Ok(self.mk(r)) }
            "powi" => { let n = self.cu(st, &av[1])?; let n = sx(n as u128, 32) as i32; let base = self.t(&av[0], w0); Ok({ let r = self.powi(base, n, w0); self.mk(r) }) }
            "trap" | "debugtrap" => Err(Ev::Panic(format!("abort in {}", self.whereis(st)))),
            "vector" if parts[2] == "reduce" => {
                let V::A(q) = &av[av.len() - 1] else { panic!() }; let e = match &args[args.len() - 1].0 { Ty::Vec(_, e) => (**e).clone(), _ => panic!() }; let w = e.bits();
                let op = match parts[3] { "add" => Op::Add, "fadd" => Op::FAdd, "or" => Op::Or, "and" => Op::And, "xor" => Op::Xor, "mul" => Op::Mul, "fmul" => Op::FMul, "fmax" => Op::FMax, "fmin" => Op::FMin, o => return Err(Ev::Unsupported(format!("vector.reduce.{o}"))) };
                let mut acc: Option<T> = if av.len() == 2 { Some(self.t(&av[0], w)) } else { None };
                for x in q.iter() { let t = self.t(x, w); acc = Some(match acc { None => t, Some(a) => self.tm.bin(op, a, t) }); }
                Ok(self.mk(acc.unwrap())) }
            _ => Err(Ev::Unsupported(format!("intrinsic {name}"))),
        }
    }
    fn powi(&mut self, b: T, n: i32, w: u16) -> T { // compiler-rt algorithm
        let one = self.tm.cst(if w == 32 { 1f32.to_bits() as u128 } else { 1f64.to_bits() as u128 }, w);
        let recip = n < 0; let mut r = one; let mut a = b; let mut n = n;
        loop { if n & 1 != 0 { r = self.tm.bin(Op::FMul, r, a); } n /= 2; if n == 0 { break; } a = self.tm.bin(Op::FMul, a, a); }
        if recip { self.tm.bin(Op::FDiv, one, r) } else { r }
    }

    fn seeded(seed: u64, k: u64) -> u64 { seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03 ^ k.wrapping_mul(0x2545F4914F6CDD1D) }
    fn rng(st: &mut State) -> u64 { let mut x = st.rng; x ^= x << 13; x ^= x >> 7; x ^= x << 17; st.rng = x; x }

    fn external(&mut self, st: &mut State, name: &str, av: &[V], args: &[(Ty, Opd)], ret: &Ty) -> R<V> {
        if name.starts_with("llvm.") { return self.intrinsic(st, name, av, args, ret); }
        macro_rules! u { ($i:expr) => { self.cu(st, &av[$i])? } }
        let b = |x: bool| V::C(x as u64);
        match name {
            "rawsym_any" => return self.any(st, av),
            "rawsym_assume" => {
                let c = match &av[0] { V::C(k) => { return if *k & 1 != 0 { Ok(V::C(0)) } else { Err(Ev::Dropped) } } V::S(t) => { let w = self.tm.w(*t); if w == 1 { *t } else { self.tm.extract(*t, 0, 1) } } _ => panic!() };
                self.ev.begin(&self.tm);
                if let Some(v) = self.tm.cv(c) { return if v != 0 { Ok(V::C(0)) } else { Err(Ev::Dropped) }; }
                if self.ev.eval(&self.tm, &st.model, c) == 0 { match self.query(st, c) { Res::Sat(m) => { st.model = self.merge_model(st, m); } Res::Unsat => return Err(Ev::Dropped), Res::Unknown => return Err(Ev::Incomplete(format!("assumption: {}", self.sv.last_unknown))) } }
                self.assume(st, c); return Ok(V::C(0));
            }
            "rawsym_check" => {
                let p = u!(1); let n = u!(2); let msg = String::from_utf8_lossy(&self.bytes(st, p, n)?).to_string();
                let c = match &av[0] { V::C(k) => self.tm.cst(*k as u128 & 1, 1), V::S(t) => { let w = self.tm.w(*t); if w == 1 { *t } else { self.tm.extract(*t, 0, 1) } } _ => panic!() };
                let c = match self.is_fixed(st, c) { Some(v) => self.tm.cst(v, 1), None => match st.known.get(&c) { Some(v) => self.tm.cst(*v as u128, 1), None => c } };
                match self.tm.cv(c) {
                    Some(1) => { self.checks.entry(msg).or_insert([0; 3])[0] += 1; }
                    Some(_) => { self.checks.entry(msg.clone()).or_insert([0; 3])[2] += 1; self.violation(st, "check", &msg, None); return Err(Ev::CheckFail(msg)); }
                    None => {
                        let nc = self.tm.not(c);
                        if std::env::var("RAWSYM_TRACEQ").is_ok() { eprintln!("check {msg}"); }
                        self.ev.begin(&self.tm);
                        let r = if self.ev.eval(&self.tm, &st.model, c) == 0 { Res::Sat((*st.model).clone()) } else { self.query(st, nc) };
                        match r {
                            Res::Unsat => { self.checks.entry(msg).or_insert([0; 3])[1] += 1; self.learn(st, c, true); }
                            Res::Sat(m) => { let m = self.merge_model(st, m); self.checks.entry(msg.clone()).or_insert([0; 3])[2] += 1; self.violation(st, "check", &msg, Some(&m)); 
                                // continue on the inputs that satisfy it, if any
                                self.ev.begin(&self.tm);
                                if self.ev.eval(&self.tm, &st.model, c) == 0 { match self.query(st, c) { Res::Sat(m) => st.model = self.merge_model(st, m), _ => return Err(Ev::CheckFail(msg)) } }
                                self.assume(st, c); }
                            Res::Unknown => { return Err(Ev::Incomplete(format!("check '{msg}': {}", self.sv.last_unknown))); }
                        }
                    }
                }
                return Ok(V::C(0));
            }
            "rawsym_observe" => { let t = self.t(&av[0], 64); st.observed.push(t); return Ok(V::C(0)); }
            "rawsym_seed" => { let v = u!(0); st.rng = Self::seeded(self.cfg.seed, v as u64); return Ok(V::C(0)); }
            "rawsym_concretize" => { let v = u!(0); return Ok(V::C(v)); }
            "rawsym_tier" => return Ok(V::C(self.cfg.tier as _)),
            "rawsym_is_symbolic" => return Ok(b(self.cfg.conc.is_none())),
            "rawsym_reach" => { let p = u!(0); let n = u!(1); let s = String::from_utf8_lossy(&self.bytes(st, p, n)?).to_string(); st.reached.push(s); return Ok(V::C(0)); }
            "rawsym_heap" => return Ok(V::C(st.heap_ops)),
            _ => {}
        }
        if let "malloc" | "calloc" | "realloc" | "free" | "posix_memalign" | "aligned_alloc" = name { st.heap_ops += 1; }
        Ok(match name {
            "malloc" => { let n = u!(0); V::C(self.alloc(st, n, true, 0xA5)?) }
            "calloc" => { let n = u!(0) * u!(1); V::C(self.alloc(st, n, true, 0)?) }
            "realloc" => { let p = u!(0); let n = u!(1); let q = self.alloc(st, n, true, 0xA5)?; if p != 0 { let (i, _) = Self::find(st, p, 0)?; let old = st.mem[i].as_ref().unwrap().data.len() as u64; self.memcpy(st, q, p, old.min(n))?; self.free(st, p)?; } V::C(q) }
            "free" => { let p = u!(0); self.free(st, p)?; V::C(0) }
            "posix_memalign" => { let pp = u!(0); let n = u!(2); let q = self.alloc(st, n, true, 0xA5)?; self.store(st, pp, &Ty::Ptr, &V::C(q))?; V::C(0) }
            "aligned_alloc" => { let n = u!(1); V::C(self.alloc(st, n, true, 0xA5)?) }
            "memcpy" | "memmove" => { let (d, s, n) = (u!(0), u!(1), u!(2)); self.memcpy(st, d, s, n)?; V::C(d) }
            "memset" => { let (d, n) = (u!(0), u!(2)); let x = self.cast1(CastK::Trunc, 32, 8, &av[1]); self.memset(st, d, &x, n)?; V::C(d) }
            "memcmp" | "bcmp" => { let (p, q, n) = (u!(0), u!(1), u!(2)); let mut r = 0i32; for k in 0..n { let x = self.load(st, p + k, &Ty::Int(8))?; let y = self.load(st, q + k, &Ty::Int(8))?; match self.icmp1(IP::Eq, 8, &x, &y) { V::C(0) => { let l = match self.icmp1(IP::Ult, 8, &x, &y) { V::C(c) => c != 0, V::S(t) => self.decide(st, t)?, _ => panic!() }; r = if l { -1 } else { 1 }; break; } V::C(_) => {} V::S(t) => { if !self.decide(st, t)? { let l = match self.icmp1(IP::Ult, 8, &x, &y) { V::C(c) => c != 0, V::S(t) => self.decide(st, t)?, _ => panic!() }; r = if l { -1 } else { 1 }; break; } } _ => panic!() } } V::C(r as u32 as u64) }
            "strlen" => { let p = u!(0); let mut n = 0; loop { let x = self.load(st, p + n, &Ty::Int(8))?; if self.cu(st, &x)? == 0 { break; } n += 1; } V::C(n) }
            "__errno_location" => V::C((ERRNO_OBJ as u64) << 32),
            "getrandom" => { let (p, n) = (u!(0), u!(1)); for k in 0..n { let r = Self::rng(st); self.store(st, p + k, &Ty::Int(8), &V::C(r >> 32 & 0xff))?; } V::C(n) }
            "syscall" => match u!(0) {
                318 => { let (p, n) = (u!(1), u!(2)); for k in 0..n { let r = Self::rng(st); self.store(st, p + k, &Ty::Int(8), &V::C(r >> 32 & 0xff))?; } V::C(n) }
                202 => { let op = u!(2) & 127; match op { 0 | 9 => { let a = u!(1); let exp = u!(3) & 0xffff_ffff; let x = self.load(st, a, &Ty::Int(32))?; let cur = self.cu(st, &x)?; if cur != exp { self.store(st, (ERRNO_OBJ as u64) << 32, &Ty::Int(32), &V::C(11))?; V::C(u64::MAX) } else { return Err(Ev::Block(format!("thread blocks in {}", self.whereis(st)))); } } _ => V::C(0) } }
                186 => V::C(1),
                n => return Err(Ev::Unsupported(format!("syscall {n}"))),
            },
            "clock_gettime" => { let p = u!(1); st.clock += 1000; let c = st.clock; self.store(st, p, &Ty::Int(64), &V::C(c / 1_000_000_000))?; self.store(st, p + 8, &Ty::Int(64), &V::C(c % 1_000_000_000))?; V::C(0) }
            "getenv" | "getcwd" | "dlsym" => V::C(0),
            "gettid" | "getpid" => V::C(1),
            "sysconf" => V::C(match u!(0) { 30 => 4096, 84 | 83 => 4, _ => u64::MAX }),
            "getauxval" => V::C(0),
            "sched_yield" | "pthread_detach" | "pthread_setname_np" | "pthread_attr_destroy" | "pthread_attr_init" | "pthread_attr_setstacksize" | "pthread_attr_setguardsize" | "sigaltstack" | "munmap" | "mprotect" | "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_key_delete" | "__cxa_thread_atexit_impl" | "nanosleep" | "clock_nanosleep" | "signal" | "sigaction" => V::C(0),
            "pthread_create" => { let p = u!(0); st.threads += 1; let id = st.threads as u64 + 1; self.store(st, p, &Ty::Int(64), &V::C(id))?; V::C(0) }
            "pthread_join" => return Err(Ev::Block("pthread_join".into())),
            "pthread_self" => V::C(1),
            "pthread_key_create" => { let p = u!(0); st.nkey += 1; let k = st.nkey; self.store(st, p, &Ty::Int(32), &V::C(k))?; V::C(0) }
            "pthread_setspecific" => { let k = u!(0); st.keys.insert(k, av[1].clone()); V::C(0) }
            "pthread_getspecific" => { let k = u!(0); st.keys.get(&k).cloned().unwrap_or(V::C(0)) }
            "write" => V::C(u!(2)),
            "writev" => { let (p, n) = (u!(1), u!(2)); let mut s = 0; for k in 0..n { let x = self.load(st, p + 16 * k + 8, &Ty::Int(64))?; s += self.cu(st, &x)?; } V::C(s) }
            "abort" | "exit" | "_exit" => return Err(Ev::Panic(format!("abort in {}", self.whereis(st)))),
            "poll" | "close" => V::C(0),
            "sinf" | "cosf" | "tanf" | "expf" | "exp2f" | "logf" | "log2f" | "log10f" | "tanhf" | "atanf" | "sinhf" | "coshf" | "cbrtf" | "asinf" | "acosf" | "expm1f" | "log1pf" => { let a = self.t(&av[0], 32); let r = self.tm.uf(&name[..name.len() - 1], a, None); self.mk(r) }
            "sin" | "cos" | "tan" | "exp" | "exp2" | "log" | "log2" | "log10" | "tanh" | "atan" | "sinh" | "cosh" | "cbrt" | "asin" | "acos" | "expm1" | "log1p" => { let a = self.t(&av[0], 64); let r = self.tm.uf(name, a, None); self.mk(r) }
            "powf" | "atan2f" | "hypotf" => { let a = self.t(&av[0], 32); let c = self.t(&av[1], 32); let r = self.tm.uf(&name[..name.len() - 1], a, Some(c)); self.mk(r) }
            "pow" | "atan2" | "hypot" => { let a = self.t(&av[0], 64); let c = self.t(&av[1], 64); let r = self.tm.uf(name, a, Some(c)); self.mk(r) }
            "fmodf" => { let a = self.t(&av[0], 32); let c = self.t(&av[1], 32); let r = self.tm.bin(Op::FRem, a, c); self.mk(r) }
            "fmod" => { let a = self.t(&av[0], 64); let c = self.t(&av[1], 64); let r = self.tm.bin(Op::FRem, a, c); self.mk(r) }
            "fmaf" | "fma" => { let w = ret.bits(); let (a, c, d) = (self.t(&av[0], w), self.t(&av[1], w), self.t(&av[2], w)); let r = self.tm.fma(a, c, d); self.mk(r) }
            "fminf" | "fmin" | "fmaxf" | "fmax" => { let w = ret.bits(); let (a, c) = (self.t(&av[0], w), self.t(&av[1], w)); let r = self.tm.bin(if name.starts_with("fmin") { Op::FMin } else { Op::FMax }, a, c); self.mk(r) }
            _ => return Err(Ev::Unsupported(format!("external function {name}"))),
        })
    }

    fn any(&mut self, st: &mut State, av: &[V]) -> R<V> {
        // (name, name_len, kind, width, lo, hi)
        let mut a = [0u64; 6]; for i in 0..6 { a[i] = self.cu(st, &av[i])?; }
        let name = String::from_utf8_lossy(&self.bytes(st, a[0], a[1])?).to_string();
        let (kind, w, lo, hi) = (a[2], a[3] as u16, a[4], a[5]);
        let full = format!("{}#{}", name, st.inputs.len());
        if self.cfg.conc.is_some() {
            let k = self.conc_pos; let list = self.cfg.conc.as_ref().unwrap();
            if k >= list.len() { return Err(Ev::Unsupported("input list exhausted".into())); }
            let (n, v) = list[k].clone(); if n != full { return Err(Ev::Unsupported(format!("input list mismatch: {n} vs {full}"))); }
            self.conc_pos += 1;
            let t = self.tm.cst(v, w.max(1)); st.inputs.push((full, t));
            return Ok(V::C(v as u64));
        }
        if kind == 5 {
            let v = match st.next_pick.take() { Some(v) => v, None => {
                let vals: Vec<u64> = (lo..=hi).collect();
                for &v in vals[1..].iter().rev() { let mut o = st.clone(); o.next_pick = Some(v); self.work.push(o); }
                vals[0] } };
            // sharding: by the first picks, as soon as they have enough combinations
            let (sh, ns) = self.cfg.shard;
            if st.shprod < ns { st.shidx = st.shidx * (hi - lo + 1) + (v - lo); st.shprod *= hi - lo + 1; if st.shprod >= ns && st.shidx % ns != sh { self.dropped = self.dropped.wrapping_sub(1); return Err(Ev::Dropped); } }
            st.npick += 1;
            let t = self.tm.cst(v as u128, 64); st.inputs.push((full, t));
            return Ok(V::C(v));
        }
        let k = match kind { 0 => VarKind::Bits { lo, hi }, 1 => VarKind::SInt { lo: lo as i64, hi: hi as i64 }, 2 => VarKind::F32 { lo: f32::from_bits(lo as u32), hi: f32::from_bits(hi as u32) }, 3 => VarKind::F64 { lo: f64::from_bits(lo), hi: f64::from_bits(hi) }, _ => VarKind::Raw };
        let t = self.tm.var(&full, w, k);
        st.inputs.push((full, t));
        let r = if w < 64 { if kind == 1 { self.tm.sext(t, 64) } else { self.tm.zext(t, 64) } } else { t };
        Ok(self.mk(r))
    }
}

fn n_of(t: &Ty) -> u64 { match t { Ty::Vec(n, _) => *n as u64, Ty::Arr(n, _) => *n, _ => panic!() } }
fn elem(t: &Ty) -> &Ty { match t { Ty::Vec(_, e) | Ty::Arr(_, e) => e, _ => panic!("elem of {t:?}") } }

/// typenum U32 (binary 100000) as the fraction parameter in a v0-mangled name
fn frac32(n: &str) -> bool {
    // UInt<UInt<..UInt<UTerm,B1>,B0>..,B0>: exactly one B1 followed by five B0
    let Some(i) = n.find("2B1E") else { return false };
    let rest = &n[i..]; if rest.matches("2B1E").count() != 1 { return false }
    let Some(j) = rest.find("2B0E") else { return false };
    let mut r = &rest[j + 4..]; let mut zeros = 1;
    while let Some(q) = r.strip_prefix('B') { let Some(k) = q.find('_') else { break }; let Some(t) = q[k + 1..].strip_prefix('E') else { break }; zeros += 1; r = t; }
    zeros == 5
}
