//! Parser for textual LLVM IR (opaque pointers) into a register form for the interpreter.
use crate::term::{mask, Tm, T};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty { Void, Int(u16), F32, F64, Ptr, Vec(u32, Rc<Ty>), Arr(u64, Rc<Ty>), Struct(Rc<Vec<Ty>>, bool), Label, Meta, Other }

impl Ty {
    pub fn bits(&self) -> u16 { match self { Ty::Int(w) => *w, Ty::F32 => 32, Ty::F64 => 64, Ty::Ptr => 64, _ => panic!("bits of {:?}", self) } }
    pub fn is_scalar(&self) -> bool { matches!(self, Ty::Int(_) | Ty::F32 | Ty::F64 | Ty::Ptr) }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Label | Ty::Meta | Ty::Other => 0,
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; b.next_power_of_two() }
            Ty::F32 => 4, Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(n, e) => { let b = if let Ty::Int(w) = **e { (*n as u64 * w as u64 + 7) / 8 } else { *n as u64 * e.size() }; b.next_power_of_two() }
            Ty::Arr(n, e) => n * e.size(),
            Ty::Struct(f, p) => { let mut o = 0; let mut al = 1; for t in f.iter() { let a = if *p { 1 } else { t.align() }; al = al.max(a); o = (o + a - 1) / a * a + t.size(); } (o + al - 1) / al * al }
        }
    }
    pub fn align(&self) -> u64 {
        match self { Ty::Arr(_, e) => e.align(), Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) }, Ty::Int(w) if *w > 64 => 16, _ => self.size().max(1) }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self { Ty::Struct(f, p) => { let mut o = 0; for (k, t) in f.iter().enumerate() { let a = if *p { 1 } else { t.align() }; o = (o + a - 1) / a * a; if k == i { return o; } o += t.size(); } panic!() } Ty::Arr(_, e) | Ty::Vec(_, e) => e.size() * i as u64, _ => panic!() }
    }
}

#[derive(Clone, Debug)]
pub enum V { C(u64), S(T), A(Rc<Vec<V>>) }

#[derive(Clone, Debug)]
pub enum Opd { R(u32), C(V) }

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum BinK { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum CastK { Trunc, ZExt, SExt, FpTrunc, FpExt, FpToUi, FpToSi, UiToFp, SiToFp, Bit }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum IP { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FP { False, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno, True }
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum RmwK { Xchg, Add, Sub, And, Or, Xor, Max, Min, UMax, UMin, Nand, FAdd }

#[derive(Debug)]
pub enum I {
    Bin(BinK, u16, u32, Opd, Opd),            // kind, elem width, dst
    ICmp(IP, u16, u32, Opd, Opd),
    FCmp(FP, u16, u32, Opd, Opd),
    FNeg(u16, u32, Opd),
    Cast(CastK, Ty, Ty, u32, Opd),
    Select(u32, Opd, Opd, Opd, Ty),
    Load(u32, Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(u32, Opd, u64, Vec<(Opd, u16, u64)>),
    Alloca(u32, u64, Opd),
    Call { dst: Option<u32>, callee: Opd, args: Vec<(Ty, Opd)>, ret: Ty, normal: Option<u32> },
    Br(u32), CondBr(Opd, u32, u32), Switch(Opd, u16, u32, Vec<(u64, u32)>),
    Ret(Option<Opd>), Unreachable,
    Extract(u32, Opd, Vec<u32>), Insert(u32, Opd, Opd, Vec<u32>, Ty),
    ExtElem(u32, Opd, Opd), InsElem(u32, Opd, Opd, Opd, u32), Shuffle(u32, Opd, Opd, Vec<i32>, u32),
    Rmw(RmwK, u32, Opd, Opd, Ty), CmpXchg(u32, Opd, Opd, Opd, Ty),
    Freeze(u32, Opd), Nop,
}

pub struct Block { pub phis: Vec<(u32, Vec<(u32, Opd)>)>, pub phi_ty: Vec<Ty>, pub ins: Vec<I> }
pub struct Func { pub name: String, pub id: u32, pub params: Vec<(u32, Ty)>, pub byval: Vec<Option<u64>>, pub nregs: u32, pub blocks: Vec<Block>, pub joins: RefCell<Vec<Option<Option<u32>>>> }

pub struct FnEntry { pub name: String, pub body: Option<(usize, usize)>, pub parsed: RefCell<Option<Rc<Func>>>, pub weak: bool }
pub struct GlobalDef { pub name: String, pub ty: Ty, pub init: Option<Vec<u8>>, pub konst: bool, pub addr: u64, pub weak: bool }

pub const FUNC_BASE: u64 = 0x7000_0000; // object index used for code addresses

pub struct Module {
    pub src: String,
    pub funcs: Vec<FnEntry>,
    pub fn_ix: HashMap<String, u32>,
    pub globals: Vec<GlobalDef>,
    pub g_addr: HashMap<String, u64>,
    pub types: HashMap<String, Ty>,
}

pub fn func_addr(id: u32) -> u64 { (FUNC_BASE << 32) | ((id as u64) << 4) }

#[derive(Clone, PartialEq, Debug)]
enum Tk<'a> { Loc(&'a str), Glo(String), Word(&'a str), Num(&'a str), Str(Vec<u8>), CStr(Vec<u8>), P(u8), Meta, Nl, Eof }

struct Lex<'a> { s: &'a [u8], txt: &'a str, p: usize, cur: Tk<'a>, depth: i32, nl: bool }

fn unescape(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(b.len()); let mut i = 0;
    while i < b.len() { if b[i] == b'\\' { if i + 1 < b.len() && b[i + 1] == b'\\' { o.push(b'\\'); i += 2; continue; } let h = |c: u8| (c as char).to_digit(16).unwrap() as u8; o.push(h(b[i + 1]) * 16 + h(b[i + 2])); i += 3; } else { o.push(b[i]); i += 1; } }
    o
}

impl<'a> Lex<'a> {
    fn new(txt: &'a str, nl: bool) -> Self { let mut l = Lex { s: txt.as_bytes(), txt, p: 0, cur: Tk::Eof, depth: 0, nl }; l.adv(); l }
    fn adv(&mut self) { self.cur = self.next(); }
    fn idc(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }
    fn next(&mut self) -> Tk<'a> {
        let s = self.s;
        loop {
            if self.p >= s.len() { return Tk::Eof; }
            let c = s[self.p];
            if c == b'\n' { self.p += 1; if self.nl && self.depth == 0 { return Tk::Nl; } continue; }
            if c == b' ' || c == b'\t' || c == b'\r' { self.p += 1; continue; }
            if c == b'/' && s.get(self.p + 1) == Some(&b'*') { self.p += 2; while self.p + 1 < s.len() && !(s[self.p] == b'*' && s[self.p + 1] == b'/') { self.p += 1; } self.p += 2; continue; }
            if c == b';' { while self.p < s.len() && s[self.p] != b'\n' { self.p += 1; } continue; }
            break;
        }
        let c = s[self.p];
        let st = self.p;
        match c {
            b'%' | b'@' => {
                if s[st + 1] == b'"' { let mut q = st + 2; while s[q] != b'"' { q += 1; } self.p = q + 1; let n = &self.txt[st + 2..q]; return if c == b'%' { Tk::Loc(n) } else { Tk::Glo(n.to_string()) }; }
                let mut q = st + 1; while q < s.len() && Self::idc(s[q]) { q += 1; } self.p = q; let n = &self.txt[st + 1..q];
                if c == b'%' { Tk::Loc(n) } else { Tk::Glo(n.to_string()) }
            }
            b'"' => { let mut q = st + 1; while s[q] != b'"' { q += 1; } self.p = q + 1; Tk::Str(unescape(&s[st + 1..q])) }
            b'c' if s.get(st + 1) == Some(&b'"') => { let mut q = st + 2; while s[q] != b'"' { q += 1; } self.p = q + 1; Tk::CStr(unescape(&s[st + 2..q])) }
            b'!' => { let mut q = st + 1; if q < s.len() && s[q] == b'"' { q += 1; while s[q] != b'"' { q += 1; } q += 1; } else { while q < s.len() && Self::idc(s[q]) { q += 1; } } self.p = q; Tk::Meta }
            b'#' => { let mut q = st + 1; while q < s.len() && Self::idc(s[q]) { q += 1; } self.p = q; Tk::Meta }
            b'-' | b'+' | b'0'..=b'9' => { let mut q = st + 1; while q < s.len() && (s[q].is_ascii_alphanumeric() || s[q] == b'.' || ((s[q] == b'-' || s[q] == b'+') && (s[q - 1] == b'e' || s[q - 1] == b'E') && !self.txt[st..q].contains('x'))) { q += 1; } self.p = q; Tk::Num(&self.txt[st..q]) }
            b'(' | b')' | b'[' | b']' | b'{' | b'}' | b'<' | b'>' | b',' | b'=' | b'*' | b':' | b'|' | b'/' | b'^' | b'~' => { self.p += 1; if matches!(c, b'(' | b'[' | b'{' | b'<') { self.depth += 1 } if matches!(c, b')' | b']' | b'}' | b'>') { self.depth -= 1 } Tk::P(c) }
            _ => { let mut q = st; while q < s.len() && Self::idc(s[q]) { q += 1; } if q == st { panic!("lex error at {:?}", &self.txt[st..(st + 60).min(self.txt.len())]); } self.p = q; Tk::Word(&self.txt[st..q]) }
        }
    }
    fn isp(&self, c: u8) -> bool { self.cur == Tk::P(c) }
    fn isw(&self, w: &str) -> bool { self.cur == Tk::Word(w) }
    fn eatp(&mut self, c: u8) -> bool { if self.isp(c) { self.adv(); true } else { false } }
    fn eatw(&mut self, w: &str) -> bool { if self.isw(w) { self.adv(); true } else { false } }
    fn expp(&mut self, c: u8) { if !self.eatp(c) { let p = self.p; panic!("expected {:?} got {:?} near {:?}", c as char, self.cur, &self.txt[p.saturating_sub(120)..(p + 60).min(self.txt.len())]); } }
    fn skip_parens(&mut self) { // at '('
        let mut d = 0; loop { match &self.cur { Tk::P(b'(') => d += 1, Tk::P(b')') => { d -= 1; if d == 0 { self.adv(); return; } } Tk::Eof => panic!(), _ => {} } self.adv(); }
    }
    fn skip_line(&mut self) { while !matches!(self.cur, Tk::Nl | Tk::Eof) { self.adv(); } }
    fn err(&self, m: &str) -> ! { let p = self.p; panic!("{m}: {:?} near {:?}", self.cur, &self.txt[p.saturating_sub(200)..(p + 100).min(self.txt.len())]) }
}

fn parse_float(s: &str, w: u16) -> u64 {
    let from64 = |v: f64| if w == 32 { (v as f32).to_bits() as u64 } else { v.to_bits() };
    if let Some(h) = s.strip_prefix("0x") { let b = u64::from_str_radix(h, 16).unwrap(); return from64(f64::from_bits(b)); }
    if let Some(h) = s.strip_prefix("f0x") { return u64::from_str_radix(h, 16).unwrap(); }
    let t = s.strip_prefix('+').unwrap_or(s);
    match t { "inf" => from64(f64::INFINITY), "-inf" => from64(f64::NEG_INFINITY), "nan" | "qnan" => from64(f64::NAN), "-nan" | "-qnan" => from64(-f64::NAN), _ => if w == 32 { t.parse::<f32>().unwrap().to_bits() as u64 } else { t.parse::<f64>().unwrap().to_bits() } }
}

pub struct Parser<'m> { pub m: &'m Module, pub tm: &'m mut Tm }

pub fn zero(t: &Ty, tm: &mut Tm) -> V {
    match t {
        Ty::Int(w) if *w > 64 => V::S(tm.cst(0, *w)),
        Ty::Vec(n, e) => { let z = zero(e, tm); V::A(Rc::new(vec![z; *n as usize])) }
        Ty::Arr(n, e) => { let z = zero(e, tm); V::A(Rc::new(vec![z; *n as usize])) }
        Ty::Struct(f, _) => { let v = f.iter().map(|x| zero(x, tm)).collect(); V::A(Rc::new(v)) }
        _ => V::C(0),
    }
}

fn parse_int(s: &str) -> u128 { if let Some(h) = s.strip_prefix("u0x") { return u128::from_str_radix(h, 16).unwrap(); } if let Some(h) = s.strip_prefix("s0x") { return u128::from_str_radix(h, 16).unwrap(); } if let Some(r) = s.strip_prefix('-') { (r.parse::<u128>().unwrap() as i128).wrapping_neg() as u128 } else { s.parse::<u128>().unwrap() } }

fn ptype(lx: &mut Lex, types: &HashMap<String, Ty>) -> Ty {
    let mut t = match lx.cur.clone() {
        Tk::Word(w) => {
            let t = match w { "void" => Ty::Void, "float" => Ty::F32, "double" => Ty::F64, "ptr" => Ty::Ptr, "label" => Ty::Label, "metadata" => Ty::Meta, "token" | "half" | "x86_fp80" | "opaque" => Ty::Other,
                _ if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) => Ty::Int(w[1..].parse().unwrap()), _ => lx.err("type") };
            lx.adv();
            if t == Ty::Ptr && lx.isw("addrspace") { lx.adv(); lx.skip_parens(); }
            t
        }
        Tk::P(b'<') => { lx.adv(); if lx.isp(b'{') { lx.adv(); let f = pfields(lx, types); lx.expp(b'>'); Ty::Struct(Rc::new(f), true) } else { let n: u32 = match lx.cur { Tk::Num(n) => n.parse().unwrap(), _ => lx.err("vec") }; lx.adv(); lx.adv(); let e = ptype(lx, types); lx.expp(b'>'); Ty::Vec(n, Rc::new(e)) } }
        Tk::P(b'[') => { lx.adv(); let n: u64 = match lx.cur { Tk::Num(n) => n.parse().unwrap(), _ => lx.err("arr") }; lx.adv(); lx.adv(); let e = ptype(lx, types); lx.expp(b']'); Ty::Arr(n, Rc::new(e)) }
        Tk::P(b'{') => { lx.adv(); let f = pfields(lx, types); Ty::Struct(Rc::new(f), false) }
        Tk::Loc(n) => { let t = types.get(n).cloned().unwrap_or(Ty::Other); lx.adv(); t }
        _ => lx.err("type"),
    };
    // function types: T (args)
    while lx.isp(b'(') { // only appears in calls of variadic functions
        lx.skip_parens(); let _ = &mut t; break;
    }
    t
}
fn pfields(lx: &mut Lex, types: &HashMap<String, Ty>) -> Vec<Ty> { let mut f = vec![]; if lx.eatp(b'}') { return f; } loop { f.push(ptype(lx, types)); if lx.eatp(b',') { continue; } lx.expp(b'}'); return f; } }

fn skip_attrs(lx: &mut Lex) {
    // parameter / return attributes: words, optionally with (...) or a number, and quoted strings
    loop {
        match lx.cur.clone() {
            Tk::Word(w) => {
                match w {
                    "align" => { lx.adv(); if lx.isp(b'(') { lx.skip_parens(); } else { lx.adv(); } }
                    "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "splat" | "add" | "sub" | "trunc" | "select" | "icmp" | "asm" | "xor" | "addrspacecast" | "inf" | "blockaddress" | "dso_local_equivalent" | "qnan" | "nan" => return,
                    "void" | "float" | "double" | "ptr" | "label" | "metadata" | "token" | "half" | "x86_fp80" => return,
                    _ if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()) => return,
                    _ if w.starts_with("f0x") => return,
                    _ => { lx.adv(); if lx.isp(b'(') { lx.skip_parens(); } }
                }
            }
            Tk::Str(_) => { lx.adv(); if lx.eatp(b'=') { lx.adv(); } }
            Tk::Meta => lx.adv(),
            _ => return,
        }
    }
}

impl Module {
    pub fn load(path: &str, tm: &mut Tm) -> Module {
        let src = std::fs::read_to_string(path).expect("read ll");
        let mut m = Module { src: String::new(), funcs: vec![], fn_ix: HashMap::new(), globals: vec![], g_addr: HashMap::new(), types: HashMap::new() };
        let mut glines: Vec<(String, &str)> = vec![];
        let bytes = src.as_bytes();
        let mut p = 0;
        let name_of = |l: &str| -> Option<String> { let i = l.find('@')?; let r = &l[i + 1..]; if r.starts_with('"') { let e = r[1..].find('"')?; Some(r[1..1 + e].to_string()) } else { let e = r.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '$' || c == '-')).unwrap_or(r.len()); Some(r[..e].to_string()) } };
        while p < bytes.len() {
            let e = src[p..].find('\n').map(|i| p + i).unwrap_or(bytes.len());
            let l = &src[p..e];
            if l.starts_with("define ") {
                let name = name_of(l).unwrap();
                let fe = src[e..].find("\n}").map(|i| e + i + 1).unwrap();
                let id = m.funcs.len() as u32;
                m.fn_ix.insert(name.clone(), id);
                m.funcs.push(FnEntry { name, body: Some((p, fe + 1)), parsed: RefCell::new(None), weak: false });
                p = fe + 1; continue;
            } else if l.starts_with("declare ") {
                let name = name_of(l).unwrap();
                let id = m.funcs.len() as u32;
                m.fn_ix.insert(name.clone(), id);
                m.funcs.push(FnEntry { name, body: None, parsed: RefCell::new(None), weak: l.contains("extern_weak") });
            } else if l.starts_with('@') { glines.push((name_of(l).unwrap(), l)); }
            else if l.starts_with('%') {
                let mut lx = Lex::new(l, true); if let Tk::Loc(n) = lx.cur.clone() { lx.adv(); lx.adv(); if lx.eatw("type") { if !lx.isw("opaque") { let t = ptype(&mut lx, &m.types); m.types.insert(n.to_string(), t); } } }
            }
            p = e + 1;
        }
        // pass 1: addresses
        let mut aliases = vec![];
        let mut rest: Vec<(usize, &str)> = vec![];
        for (name, l) in glines.iter() {
            let after = l.split_once(" = ").unwrap().1;
            let ws: Vec<&str> = after.split_whitespace().take(10).collect();
            if ws.contains(&"alias") { aliases.push((name.clone(), l.to_string())); continue; }
            let idx = m.globals.len();
            let konst = ws.contains(&"constant");
            let weak = ws.contains(&"extern_weak");
            let addr = ((idx as u64 + 16) << 32) | 0;
            m.globals.push(GlobalDef { name: name.clone(), ty: Ty::Void, init: None, konst, addr, weak });
            m.g_addr.insert(name.clone(), if weak { 0 } else { addr });
            rest.push((idx, l));
        }
        for (n, l) in aliases { let tgt = l.rsplit('@').next().unwrap(); let e = tgt.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_' || c == '.' || c == '$')).unwrap_or(tgt.len()); let t = tgt[..e].to_string(); if let Some(a) = m.g_addr.get(&t) { let a = *a; m.g_addr.insert(n, a); } else if let Some(&f) = m.fn_ix.get(&t) { m.fn_ix.insert(n, f); } }
        // pass 2: initialisers
        let mut inits = vec![];
        for (idx, l) in rest {
            let mut lx = Lex::new(l, true);
            lx.adv(); lx.expp(b'=');
            let mut external = false;
            loop { match lx.cur.clone() { Tk::Word("global") | Tk::Word("constant") => { lx.adv(); break; } Tk::Word(w) => { if w == "external" || w == "extern_weak" { external = true; } lx.adv(); if lx.isp(b'(') { lx.skip_parens(); } } _ => lx.err("global") } }
            let ty = ptype(&mut lx, &m.types);
            let mut buf = vec![0u8; ty.size() as usize];
            if !external { let mut ps = Parser { m: &m, tm }; let v = ps.pconst(&mut lx, &ty); write_const(&mut buf, 0, &ty, &v, ps.tm); }
            inits.push((idx, ty, if external { None } else { Some(buf) }));
        }
        for (i, ty, b) in inits { m.globals[i].ty = ty; m.globals[i].init = b; }
        m.src = src;
        m
    }
    pub fn func(&self, id: u32, tm: &mut Tm) -> Option<Rc<Func>> {
        let e = &self.funcs[id as usize];
        if let Some(f) = e.parsed.borrow().as_ref() { return Some(f.clone()); }
        let (a, b) = e.body?;
        let f = Rc::new(Parser { m: self, tm }.pfunc(id, &e.name, &self.src[a..b]));
        *e.parsed.borrow_mut() = Some(f.clone());
        Some(f)
    }
}

pub fn write_const(buf: &mut [u8], off: usize, ty: &Ty, v: &V, tm: &Tm) {
    match ty {
        Ty::Vec(_, e) | Ty::Arr(_, e) => { let V::A(a) = v else { panic!() }; let s = e.size() as usize; for (i, x) in a.iter().enumerate() { write_const(buf, off + i * s, e, x, tm); } }
        Ty::Struct(f, _) => { let V::A(a) = v else { panic!() }; for (i, x) in a.iter().enumerate() { write_const(buf, off + ty.field_off(i) as usize, &f[i], x, tm); } }
        _ => { let n = ty.size() as usize; let x: u128 = match v { V::C(c) => *c as u128, V::S(t) => tm.cv(*t).unwrap(), _ => panic!() }; buf[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]); }
    }
}

impl<'m> Parser<'m> {
    fn addr_of(&self, n: &str) -> u64 {
        if let Some(a) = self.m.g_addr.get(n) { return *a; }
        if let Some(&f) = self.m.fn_ix.get(n) { if self.m.funcs[f as usize].weak && n != "getrandom" { return 0; } return func_addr(f); }
        panic!("unknown global {n}")
    }
    fn ival(&mut self, ty: &Ty, v: u128) -> V { match ty { Ty::Int(w) if *w > 64 => V::S(self.tm.cst(v, *w)), _ => V::C((v & mask(ty.bits())) as u64) } }
    /// constant of a given type
    fn pconst(&mut self, lx: &mut Lex, ty: &Ty) -> V {
        match lx.cur.clone() {
            Tk::Num(s) => { lx.adv(); match ty { Ty::F32 => V::C(parse_float(s, 32)), Ty::F64 => V::C(parse_float(s, 64)), Ty::Other => V::C(0), _ => self.ival(ty, parse_int(s)) } }
            Tk::Glo(n) => { lx.adv(); V::C(self.addr_of(&n)) }
            Tk::CStr(b) => { lx.adv(); V::A(Rc::new(b.into_iter().map(|x| V::C(x as u64)).collect())) }
            Tk::P(b'[') => { lx.adv(); let mut v = vec![]; if !lx.eatp(b']') { loop { let t = ptype(lx, &self.m.types); v.push(self.pconst(lx, &t)); if lx.eatp(b',') { continue; } lx.expp(b']'); break; } } V::A(Rc::new(v)) }
            Tk::P(b'{') => { lx.adv(); let v = self.pstructc(lx); V::A(Rc::new(v)) }
            Tk::P(b'<') => { lx.adv(); if lx.eatp(b'{') { let v = self.pstructc(lx); lx.expp(b'>'); V::A(Rc::new(v)) } else { let mut v = vec![]; loop { let t = ptype(lx, &self.m.types); v.push(self.pconst(lx, &t)); if lx.eatp(b',') { continue; } lx.expp(b'>'); break; } V::A(Rc::new(v)) } }
            Tk::Word(w) => {
                lx.adv();
                match w {
                    "null" | "none" => V::C(0), "true" => V::C(1), "false" => V::C(0),
                    "undef" | "poison" | "zeroinitializer" => zero(ty, self.tm),
                    "inf" => V::C(parse_float("inf", ty.bits())), "nan" | "qnan" => V::C(parse_float("nan", ty.bits())),
                    _ if w.starts_with("f0x") => V::C(parse_float(w, ty.bits())),
                    "splat" => { lx.expp(b'('); let t = ptype(lx, &self.m.types); let v = self.pconst(lx, &t); lx.expp(b')'); let n = match ty { Ty::Vec(n, _) => *n as usize, _ => panic!() }; V::A(Rc::new(vec![v; n])) }
                    "getelementptr" => {
                        while let Tk::Word(x) = lx.cur { if x == "inrange" { lx.adv(); lx.skip_parens(); } else { lx.adv(); } }
                        lx.expp(b'('); let sty = ptype(lx, &self.m.types); lx.expp(b',');
                        let bt = ptype(lx, &self.m.types); let base = self.pconst(lx, &bt); let V::C(mut a) = base else { panic!() };
                        let mut t = sty.clone(); let mut first = true;
                        while lx.eatp(b',') { let it = ptype(lx, &self.m.types); let iv = self.pconst(lx, &it); let V::C(ix) = iv else { panic!() }; let w = it.bits(); let ix = crate::term::sx(ix as u128, w) as i64;
                            if first { a = a.wrapping_add((ix as u64).wrapping_mul(t.size())); first = false; } else { a = a.wrapping_add(t.field_off(ix as usize)); t = match &t { Ty::Struct(f, _) => f[ix as usize].clone(), Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(), _ => panic!() }; } }
                        lx.expp(b')'); V::C(a)
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "zext" => { while let Tk::Word(_) = lx.cur { lx.adv(); } lx.expp(b'('); let t = ptype(lx, &self.m.types); let v = self.pconst(lx, &t); lx.eatw("to"); let t2 = ptype(lx, &self.m.types); lx.expp(b')'); match v { V::C(c) if t2.is_scalar() && t2.bits() <= 64 => V::C(c & mask(t2.bits()) as u64), v => v } }
                    "sub" | "add" | "xor" => { while let Tk::Word(_) = lx.cur { lx.adv(); } lx.expp(b'('); let t = ptype(lx, &self.m.types); let x = self.pconst(lx, &t); lx.expp(b','); let t2 = ptype(lx, &self.m.types); let y = self.pconst(lx, &t2); lx.expp(b')'); let (V::C(x), V::C(y)) = (x, y) else { panic!() }; let r = match w { "sub" => x.wrapping_sub(y), "add" => x.wrapping_add(y), _ => x ^ y }; V::C(r & mask(t.bits()) as u64) }
                    "dso_local_equivalent" | "no_cfi" => self.pconst(lx, ty),
                    _ => lx.err(&format!("constant {w}")),
                }
            }
            Tk::Meta => { lx.adv(); V::C(0) }
            _ => lx.err("constant"),
        }
    }
    fn pstructc(&mut self, lx: &mut Lex) -> Vec<V> { let mut v = vec![]; if lx.eatp(b'}') { return v; } loop { let t = ptype(lx, &self.m.types); v.push(self.pconst(lx, &t)); if lx.eatp(b',') { continue; } lx.expp(b'}'); return v; } }

    fn pfunc(&mut self, id: u32, name: &str, txt: &str) -> Func {
        // header
        let hdr_end = txt.find('\n').unwrap();
        let hdr = &txt[..hdr_end];
        let mut regs: HashMap<String, u32> = HashMap::new();
        let mut nregs = 0u32;
        let mut params = vec![]; let mut byval = vec![];
        {
            let mut lx = Lex::new(hdr, true);
            while !matches!(&lx.cur, Tk::Glo(n) if n == name) { lx.adv(); }
            lx.adv(); lx.expp(b'(');
            let mut k = 0;
            if !lx.eatp(b')') { loop {
                if lx.isp(b'.') || matches!(lx.cur, Tk::Word("...")) { lx.adv(); lx.expp(b')'); break; }
                let t = ptype(&mut lx, &self.m.types);
                let mut bv = None;
                loop { match lx.cur.clone() { Tk::Word("align") => { lx.adv(); if lx.isp(b'(') { lx.skip_parens() } else { lx.adv() } } Tk::Word("byval") => { lx.adv(); lx.expp(b'('); let t = ptype(&mut lx, &self.m.types); bv = Some(t.size()); lx.expp(b')'); } Tk::Word(_) => { lx.adv(); if lx.isp(b'(') { lx.skip_parens() } } Tk::Str(_) => { lx.adv(); if lx.eatp(b'=') { lx.adv(); } } _ => break } }
                let nm = if let Tk::Loc(n) = lx.cur.clone() { lx.adv(); n.to_string() } else { k.to_string() };
                k += 1;
                regs.insert(nm, nregs); params.push((nregs, t)); byval.push(bv); nregs += 1;
                if lx.eatp(b',') { continue; } lx.expp(b')'); break;
            } }
        }
        let body = &txt[hdr_end + 1..txt.len() - 1];
        // label pass
        let mut labels: HashMap<String, u32> = HashMap::new();
        let mut nb = 0u32;
        // entry label: explicit or implicit number
        let first = body.lines().find(|l| !l.trim().is_empty()).unwrap_or("");
        let label_of = |l: &str| -> Option<String> { if l.starts_with(' ') || l.is_empty() || l.starts_with('}') { return None; } if l.starts_with('"') { let e = l[1..].find('"')?; return Some(l[1..1 + e].to_string()); } let e = l.find(':')?; Some(l[..e].to_string()) };
        if label_of(first).is_none() { labels.insert(params.len().to_string(), 0); nb = 1; }
        for l in body.lines() { if let Some(n) = label_of(l) { labels.insert(n, nb); nb += 1; } }
        let mut blocks: Vec<Block> = (0..nb).map(|_| Block { phis: vec![], phi_ty: vec![], ins: vec![] }).collect();
        let mut cur = 0usize;
        let mut lx = Lex::new(body, true);
        let mut rp = FnP { p: self, regs, nregs, labels };
        let mut at_start = true; // start of line
        loop {
            match lx.cur.clone() {
                Tk::Eof => break,
                Tk::Nl => { lx.adv(); at_start = true; continue; }
                _ => {}
            }
            if at_start {
                // label?
                let lab = match lx.cur.clone() { Tk::Word(w) => Some(w.to_string()), Tk::Num(w) => Some(w.to_string()), Tk::Str(s) => Some(String::from_utf8(s).unwrap()), _ => None };
                if let Some(n) = lab { if rp.labels.contains_key(&n) { let sv = (lx.p, lx.cur.clone(), lx.depth); lx.adv(); if lx.isp(b':') { cur = rp.labels[&n] as usize; lx.skip_line(); continue; } lx.p = sv.0; lx.cur = sv.1; lx.depth = sv.2; } }
            }
            at_start = false;
            let bi = cur;
            let (phi, ins) = rp.pinst(&mut lx);
            if let Some(ph) = phi { blocks[bi].phis.push((ph.0, ph.1)); blocks[bi].phi_ty.push(ph.2); }
            if let Some(i) = ins { blocks[bi].ins.push(i); }
            lx.skip_line();
        }
        let nregs = rp.nregs;
        Func { name: name.to_string(), id, params, byval, nregs, joins: RefCell::new(vec![None; blocks.len()]), blocks }
    }
}

struct FnP<'a, 'm> { p: &'a mut Parser<'m>, regs: HashMap<String, u32>, nregs: u32, labels: HashMap<String, u32> }

impl<'a, 'm> FnP<'a, 'm> {
    fn reg(&mut self, n: &str) -> u32 { if let Some(r) = self.regs.get(n) { return *r; } let r = self.nregs; self.nregs += 1; self.regs.insert(n.to_string(), r); r }
    fn ty(&mut self, lx: &mut Lex) -> Ty { ptype(lx, &self.p.m.types) }
    fn val(&mut self, lx: &mut Lex, t: &Ty) -> Opd { if let Tk::Loc(n) = lx.cur.clone() { lx.adv(); Opd::R(self.reg(n)) } else { Opd::C(self.p.pconst(lx, t)) } }
    fn tyval(&mut self, lx: &mut Lex) -> (Ty, Opd) { let t = self.ty(lx); let v = self.val(lx, &t); (t, v) }
    fn label(&mut self, lx: &mut Lex) -> u32 { lx.eatw("label"); if let Tk::Loc(n) = lx.cur.clone() { lx.adv(); *self.labels.get(n).unwrap_or_else(|| panic!("label {n}")) } else { lx.err("label") } }
    fn lanes(t: &Ty) -> u16 { match t { Ty::Vec(_, e) => e.bits(), t => t.bits() } }
    fn pinst(&mut self, lx: &mut Lex) -> (Option<(u32, Vec<(u32, Opd)>, Ty)>, Option<I>) {
        let mut dst = None;
        if let Tk::Loc(n) = lx.cur.clone() { lx.adv(); lx.expp(b'='); dst = Some(self.reg(n)); }
        let Tk::Word(op) = lx.cur.clone() else { lx.err("opcode") };
        lx.adv();
        let d = dst.unwrap_or(u32::MAX);
        const FLAGS: &[&str] = &["nuw", "nsw", "exact", "nneg", "disjoint", "inbounds", "nusw", "samesign", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "reassoc", "afn", "volatile", "atomic", "weak", "inrange"];
        let flags = |lx: &mut Lex| while let Tk::Word(w) = lx.cur { if FLAGS.contains(&w) { lx.adv(); if w == "inrange" { lx.skip_parens(); } } else { break; } };
        let ins = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                flags(lx); let t = self.ty(lx); let a = self.val(lx, &t); lx.expp(b','); let b = self.val(lx, &t);
                let k = match op { "add" => BinK::Add, "sub" => BinK::Sub, "mul" => BinK::Mul, "udiv" => BinK::UDiv, "sdiv" => BinK::SDiv, "urem" => BinK::URem, "srem" => BinK::SRem, "shl" => BinK::Shl, "lshr" => BinK::LShr, "ashr" => BinK::AShr, "and" => BinK::And, "or" => BinK::Or, "xor" => BinK::Xor, "fadd" => BinK::FAdd, "fsub" => BinK::FSub, "fmul" => BinK::FMul, "fdiv" => BinK::FDiv, _ => BinK::FRem };
                I::Bin(k, Self::lanes(&t), d, a, b)
            }
            "fneg" => { flags(lx); let t = self.ty(lx); let a = self.val(lx, &t); I::FNeg(Self::lanes(&t), d, a) }
            "icmp" => {
                flags(lx); let Tk::Word(p) = lx.cur else { lx.err("pred") }; lx.adv(); let t = self.ty(lx); let a = self.val(lx, &t); lx.expp(b','); let b = self.val(lx, &t);
                let p = match p { "eq" => IP::Eq, "ne" => IP::Ne, "ugt" => IP::Ugt, "uge" => IP::Uge, "ult" => IP::Ult, "ule" => IP::Ule, "sgt" => IP::Sgt, "sge" => IP::Sge, "slt" => IP::Slt, "sle" => IP::Sle, _ => lx.err("pred") };
                I::ICmp(p, Self::lanes(&t), d, a, b)
            }
            "fcmp" => {
                flags(lx); let Tk::Word(p) = lx.cur else { lx.err("pred") }; lx.adv(); let t = self.ty(lx); let a = self.val(lx, &t); lx.expp(b','); let b = self.val(lx, &t);
                let p = match p { "false" => FP::False, "oeq" => FP::Oeq, "ogt" => FP::Ogt, "oge" => FP::Oge, "olt" => FP::Olt, "ole" => FP::Ole, "one" => FP::One, "ord" => FP::Ord, "ueq" => FP::Ueq, "ugt" => FP::Ugt, "uge" => FP::Uge, "ult" => FP::Ult, "ule" => FP::Ule, "une" => FP::Une, "uno" => FP::Uno, "true" => FP::True, _ => lx.err("pred") };
                I::FCmp(p, Self::lanes(&t), d, a, b)
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "ptrtoaddr" => {
                flags(lx); let (t, a) = self.tyval(lx); lx.eatw("to"); let t2 = self.ty(lx);
                let k = match op { "trunc" => CastK::Trunc, "zext" => CastK::ZExt, "sext" => CastK::SExt, "fptrunc" => CastK::FpTrunc, "fpext" => CastK::FpExt, "fptoui" => CastK::FpToUi, "fptosi" => CastK::FpToSi, "uitofp" => CastK::UiToFp, "sitofp" => CastK::SiToFp,
                    "ptrtoint" | "ptrtoaddr" => if t2 == Ty::Int(64) { CastK::Bit } else { CastK::Trunc }, "inttoptr" => if t == Ty::Int(64) { CastK::Bit } else { CastK::ZExt }, _ => CastK::Bit };
                I::Cast(k, t, t2, d, a)
            }
            "select" => { flags(lx); let (_, c) = self.tyval(lx); lx.expp(b','); let (t, a) = self.tyval(lx); lx.expp(b','); let (_, b) = self.tyval(lx); I::Select(d, c, a, b, t) }
            "load" => { flags(lx); let t = self.ty(lx); lx.expp(b','); let (_, p) = self.tyval(lx); I::Load(d, t, p) }
            "store" => { flags(lx); let (t, v) = self.tyval(lx); lx.expp(b','); let (_, p) = self.tyval(lx); I::Store(t, v, p) }
            "getelementptr" => {
                flags(lx); let sty = self.ty(lx); lx.expp(b','); let (bt, base) = self.tyval(lx);
                if matches!(bt, Ty::Vec(..)) { panic!("vector gep"); }
                let mut off = 0u64; let mut ixs = vec![]; let mut t = sty; let mut first = true;
                while lx.eatp(b',') {
                    if lx.cur == Tk::Meta { break; }
                    let (it, iv) = self.tyval(lx);
                    let w = it.bits();
                    let sc = if first { t.size() } else { match &t { Ty::Struct(..) => 0, Ty::Arr(_, e) | Ty::Vec(_, e) => e.size(), _ => panic!() } };
                    match (&iv, first, &t) {
                        (Opd::C(V::C(k)), false, Ty::Struct(f, _)) => { off = off.wrapping_add(t.field_off(*k as usize)); let nt = f[*k as usize].clone(); t = nt; }
                        (Opd::C(V::C(k)), _, _) => { let k = crate::term::sx(*k as u128, w) as i64 as u64; off = off.wrapping_add(k.wrapping_mul(sc)); if !first { t = match &t { Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(), _ => panic!() }; } }
                        _ => { ixs.push((iv, w, sc)); if !first { t = match &t { Ty::Arr(_, e) | Ty::Vec(_, e) => (**e).clone(), _ => panic!() }; } }
                    }
                    first = false;
                }
                I::Gep(d, base, off, ixs)
            }
            "alloca" => { flags(lx); let t = self.ty(lx); let mut cnt = Opd::C(V::C(1)); if lx.eatp(b',') { if let Tk::Word(w) = lx.cur { if w.starts_with('i') { let (_, c) = self.tyval(lx); cnt = c; } } } I::Alloca(d, t.size(), cnt) }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" { if !lx.eatw("call") { lx.err("call"); } }
                loop { match lx.cur { Tk::Word("fastcc") | Tk::Word("ccc") | Tk::Word("coldcc") | Tk::Word("tailcc") | Tk::Word("preserve_mostcc") | Tk::Word("cc") => lx.adv(), _ => break } }
                flags(lx); skip_attrs(lx);
                let ret = self.ty(lx);
                let callee = match lx.cur.clone() {
                    Tk::Word("asm") => { lx.adv(); while matches!(lx.cur, Tk::Word(_)) { lx.adv(); } let body = if let Tk::Str(s) = lx.cur.clone() { String::from_utf8_lossy(&s).to_string() } else { String::new() }; lx.adv(); lx.adv(); lx.adv(); let _ = body; None }
                    Tk::Loc(n) => { lx.adv(); Some(Opd::R(self.reg(n))) }
                    _ => Some(Opd::C(self.p.pconst(lx, &Ty::Ptr))),
                };
                lx.expp(b'(');
                let mut args = vec![];
                if !lx.eatp(b')') { loop {
                    let t = self.ty(lx);
                    if t == Ty::Meta { // metadata operand
                        let mut dd = 0; loop { match lx.cur { Tk::P(b'(') => dd += 1, Tk::P(b')') if dd == 0 => break, Tk::P(b')') => dd -= 1, Tk::P(b',') if dd == 0 => break, _ => {} } lx.adv(); }
                        args.push((Ty::Meta, Opd::C(V::C(0))));
                    } else { skip_attrs(lx); let v = self.val(lx, &t); args.push((t, v)); }
                    if lx.eatp(b',') { continue; } lx.expp(b')'); break;
                } }
                let mut normal = None;
                if op == "invoke" { while !lx.isw("to") { lx.adv(); } lx.adv(); normal = Some(self.label(lx)); }
                match callee { None => I::Nop, Some(c) => I::Call { dst, callee: c, args, ret, normal } }
            }
            "br" => { if lx.isw("label") { let l = self.label(lx); I::Br(l) } else { let (_, c) = self.tyval(lx); lx.expp(b','); let a = self.label(lx); lx.expp(b','); let b = self.label(lx); if let Opd::C(V::C(k)) = c { I::Br(if k != 0 { a } else { b }) } else { I::CondBr(c, a, b) } } }
            "switch" => { let (t, v) = self.tyval(lx); lx.expp(b','); let def = self.label(lx); lx.expp(b'['); let mut cs = vec![]; while !lx.eatp(b']') { let (_, k) = self.tyval(lx); lx.expp(b','); let l = self.label(lx); let k = match k { Opd::C(V::C(k)) => k, Opd::C(V::S(x)) => self.p.tm.cv(x).unwrap() as u64, _ => panic!() }; cs.push((k, l)); } I::Switch(v, t.bits(), def, cs) }
            "ret" => { let t = self.ty(lx); if t == Ty::Void { I::Ret(None) } else { let v = self.val(lx, &t); I::Ret(Some(v)) } }
            "unreachable" => I::Unreachable,
            "resume" => I::Unreachable,
            "phi" => {
                flags(lx); let t = self.ty(lx); let mut v = vec![];
                loop { lx.expp(b'['); let o = self.val(lx, &t); lx.expp(b','); let l = if let Tk::Loc(n) = lx.cur.clone() { lx.adv(); *self.labels.get(n).unwrap() } else { lx.err("phi") }; lx.expp(b']'); v.push((l, o)); if lx.eatp(b',') { if lx.cur == Tk::Meta { break; } continue; } break; }
                return (Some((d, v, t)), None);
            }
            "extractvalue" => { let (_, a) = self.tyval(lx); let mut ix = vec![]; while lx.eatp(b',') { if let Tk::Num(n) = lx.cur { ix.push(n.parse().unwrap()); lx.adv(); } else { break; } } I::Extract(d, a, ix) }
            "insertvalue" => { let (t, a) = self.tyval(lx); lx.expp(b','); let (_, b) = self.tyval(lx); let mut ix = vec![]; while lx.eatp(b',') { if let Tk::Num(n) = lx.cur { ix.push(n.parse().unwrap()); lx.adv(); } else { break; } } I::Insert(d, a, b, ix, t) }
            "extractelement" => { let (_, a) = self.tyval(lx); lx.expp(b','); let (_, i) = self.tyval(lx); I::ExtElem(d, a, i) }
            "insertelement" => { let (t, a) = self.tyval(lx); lx.expp(b','); let (_, b) = self.tyval(lx); lx.expp(b','); let (_, i) = self.tyval(lx); let n = match t { Ty::Vec(n, _) => n, _ => panic!() }; I::InsElem(d, a, b, i, n) }
            "shufflevector" => { let (t, a) = self.tyval(lx); lx.expp(b','); let (_, b) = self.tyval(lx); lx.expp(b','); let n = match t { Ty::Vec(n, _) => n, _ => panic!() };
                let mt = self.ty(lx); let mut mv = vec![];
                // keep poison lanes as -1
                match lx.cur.clone() { Tk::Word("zeroinitializer") => { lx.adv(); if let Ty::Vec(k, _) = mt { mv = vec![0; k as usize]; } }
                    Tk::Word("poison") | Tk::Word("undef") => { lx.adv(); if let Ty::Vec(k, _) = mt { mv = vec![-1; k as usize]; } }
                    Tk::Word("splat") => { lx.adv(); lx.expp(b'('); let (_, k) = self.tyval(lx); lx.expp(b')'); if let (Ty::Vec(c, _), Opd::C(V::C(k))) = (mt, k) { mv = vec![k as i32; c as usize]; } }
                    _ => { lx.expp(b'<'); loop { lx.adv(); match lx.cur { Tk::Num(x) => mv.push(x.parse().unwrap()), _ => mv.push(-1) } lx.adv(); if lx.eatp(b',') { continue; } lx.expp(b'>'); break; } } }
                I::Shuffle(d, a, b, mv, n) }
            "atomicrmw" => { flags(lx); let Tk::Word(o) = lx.cur else { lx.err("rmw") }; lx.adv(); let (_, p) = self.tyval(lx); lx.expp(b','); let (t, v) = self.tyval(lx);
                let k = match o { "xchg" => RmwK::Xchg, "add" => RmwK::Add, "sub" => RmwK::Sub, "and" => RmwK::And, "or" => RmwK::Or, "xor" => RmwK::Xor, "max" => RmwK::Max, "min" => RmwK::Min, "umax" => RmwK::UMax, "umin" => RmwK::UMin, "nand" => RmwK::Nand, "fadd" => RmwK::FAdd, _ => lx.err("rmw") }; I::Rmw(k, d, p, v, t) }
            "cmpxchg" => { flags(lx); let (_, p) = self.tyval(lx); lx.expp(b','); let (t, c) = self.tyval(lx); lx.expp(b','); let (_, n) = self.tyval(lx); I::CmpXchg(d, p, c, n, t) }
            "freeze" => { let (_, v) = self.tyval(lx); I::Freeze(d, v) }
            "fence" | "landingpad" | "cleanup" | "catch" | "filter" | "to" => I::Nop,
            _ => lx.err(&format!("opcode {op}")),
        };
        (None, Some(ins))
    }
}
