//! Parser for textual LLVM IR (as printed by rustc's llvm-dis). Function bodies are parsed on first call.
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty { Void, Int(u16), Ptr, Float, Double, Array(u64, TyId), Vector(u64, TyId), Struct(Vec<TyId>, bool), Meta, Func }

#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> { Local(&'a str), Global(&'a str), Int(i128), Flt(f64), HexFlt(u64), Str(Vec<u8>), Word(&'a str), P(u8), Meta, Attr, Quoted(&'a str), Ellipsis, Eof }

pub struct Lex<'a> { s: &'a [u8], pub i: usize, peeked: Option<(Tok<'a>, usize)> }
fn idc(c: u8) -> bool { c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' }
impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Self { Lex { s: s.as_bytes(), i: 0, peeked: None } }
    fn st(b: &'a [u8]) -> &'a str { unsafe { std::str::from_utf8_unchecked(b) } }
    pub fn peek(&mut self) -> Tok<'a> {
        if let Some((t, _)) = &self.peeked { return t.clone(); }
        let save = self.i; let t = self.lex(); let after = self.i; self.i = save;
        self.peeked = Some((t.clone(), after)); t
    }
    pub fn next(&mut self) -> Tok<'a> { if let Some((t, a)) = self.peeked.take() { self.i = a; return t; } self.lex() }
    pub fn ctx(&self) -> String { let a = self.i.saturating_sub(80); let b = (self.i + 120).min(self.s.len()); String::from_utf8_lossy(&self.s[a..b]).to_string() }
    fn lex(&mut self) -> Tok<'a> {
        let s = self.s;
        loop {
            while self.i < s.len() && (s[self.i] as char).is_ascii_whitespace() { self.i += 1; }
            if self.i < s.len() && s[self.i] == b';' { while self.i < s.len() && s[self.i] != b'\n' { self.i += 1; } continue; }
            break;
        }
        if self.i >= s.len() { return Tok::Eof; }
        let c = s[self.i];
        match c {
            b'%' | b'@' => {
                self.i += 1;
                let name = if s[self.i] == b'"' {
                    let a = self.i + 1; self.i = a; while s[self.i] != b'"' { self.i += 1; } let r = &s[a..self.i]; self.i += 1; r
                } else { let a = self.i; while self.i < s.len() && idc(s[self.i]) { self.i += 1; } &s[a..self.i] };
                if c == b'%' { Tok::Local(Self::st(name)) } else { Tok::Global(Self::st(name)) }
            }
            b'!' => {
                self.i += 1;
                if self.i < s.len() && s[self.i] == b'{' { let mut d = 0; loop { match s[self.i] { b'{' => d += 1, b'}' => { d -= 1; if d == 0 { self.i += 1; break; } } _ => {} } self.i += 1; } }
                else { while self.i < s.len() && (idc(s[self.i]) || s[self.i] == b'\\') { self.i += 1; }
                    if self.i < s.len() && s[self.i] == b'(' { let mut d = 0; loop { match s[self.i] { b'(' => d += 1, b')' => { d -= 1; if d == 0 { self.i += 1; break; } } _ => {} } self.i += 1; } } }
                Tok::Meta
            }
            b'#' => { self.i += 1; while self.i < s.len() && idc(s[self.i]) { self.i += 1; } Tok::Attr }
            b'"' => { let a = self.i + 1; self.i = a; while s[self.i] != b'"' { self.i += 1; } let r = &s[a..self.i]; self.i += 1; Tok::Quoted(Self::st(r)) }
            b'c' if self.i + 1 < s.len() && s[self.i + 1] == b'"' => {
                self.i += 2; let mut v = vec![];
                while s[self.i] != b'"' {
                    if s[self.i] == b'\\' {
                        let h = |x: u8| (x as char).to_digit(16).unwrap() as u8;
                        if s[self.i + 1] == b'\\' { v.push(b'\\'); self.i += 2; } else { v.push(h(s[self.i + 1]) * 16 + h(s[self.i + 2])); self.i += 3; }
                    } else { v.push(s[self.i]); self.i += 1; }
                }
                self.i += 1; Tok::Str(v)
            }
            b'.' if s[self.i..].starts_with(b"...") => { self.i += 3; Tok::Ellipsis }
            b'0'..=b'9' | b'-' | b'+' => {
                let a = self.i; self.i += 1;
                if c == b'0' && self.i < s.len() && s[self.i] == b'x' { self.i += 1; let b = self.i; while s[self.i].is_ascii_hexdigit() { self.i += 1; } return Tok::HexFlt(u64::from_str_radix(Self::st(&s[b..self.i]), 16).unwrap()); }
                let mut fl = false;
                while self.i < s.len() && (s[self.i].is_ascii_digit() || s[self.i] == b'.' || s[self.i] == b'e' || (fl && (s[self.i] == b'+' || s[self.i] == b'-'))) { if s[self.i] == b'.' || s[self.i] == b'e' { fl = true; } self.i += 1; }
                let t = Self::st(&s[a..self.i]);
                if fl { Tok::Flt(t.parse().unwrap()) } else { match t.parse::<i128>() { Ok(v) => Tok::Int(v), Err(_) => Tok::Int(t.parse::<u128>().unwrap() as i128) } }
            }
            _ if c.is_ascii_alphabetic() || c == b'_' || c == b'.' || c == b'$' => { let a = self.i; while self.i < s.len() && idc(s[self.i]) { self.i += 1; } Tok::Word(Self::st(&s[a..self.i])) }
            _ => { self.i += 1; Tok::P(c) }
        }
    }
    pub fn eat(&mut self, c: u8) -> bool { if self.peek() == Tok::P(c) { self.next(); true } else { false } }
    pub fn expect(&mut self, c: u8) { let t = self.next(); if t != Tok::P(c) { panic!("expected {:?} got {:?} near: {}", c as char, t, self.ctx()); } }
    pub fn eatw(&mut self, w: &str) -> bool { if self.peek() == Tok::Word(w) { self.next(); true } else { false } }
    pub fn skip_parens(&mut self) { let mut d = 0; loop { match self.next() { Tok::P(b'(') => d += 1, Tok::P(b')') => { d -= 1; if d == 0 { return; } } Tok::Eof => panic!("eof"), _ => {} } } }
}

/// Constant values, before global addresses are folded in (addresses are known at parse time).
#[derive(Clone, Debug)]
pub enum K { Int(u128), Agg(Vec<K>), Undef }

#[derive(Clone, Debug)]
pub enum Opd { R(u32), C(u128), K(Rc<K>, TyId) }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pr { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, PtrToInt, IntToPtr, Bit, UiToFp, SiToFp, FpToUi, FpToSi, FpExt, FpTrunc }

#[derive(Debug, Clone)]
pub enum I {
    Alloca(u32, u64, u64),
    Load(u32, TyId, Opd),
    Store(TyId, Opd, Opd),
    Gep(u32, Opd, u64, Vec<(Opd, u16, u64)>),
    Bin(u32, B, TyId, Opd, Opd),
    Icmp(u32, Pr, TyId, Opd, Opd),
    Fcmp(u32, String, TyId, Opd, Opd),
    Cast(u32, Cast, TyId, TyId, Opd),
    Select(u32, TyId, Opd, TyId, Opd, Opd),
    ExtractV(u32, Opd, Vec<u32>),
    InsertV(u32, TyId, Opd, Opd, Vec<u32>),
    ExtractE(u32, Opd, Opd),
    InsertE(u32, TyId, Opd, Opd, Opd),
    Shuffle(u32, u64, Opd, Opd, Vec<i64>, TyId),
    Call { dst: u32, ret: TyId, callee: Opd, fid: Option<u32>, args: Vec<(TyId, Opd)>, normal: Option<u32> },
    Asm { dst: u32, ret: TyId, text: String, args: Vec<(TyId, Opd)> },
    Rmw(u32, String, TyId, Opd, Opd),
    CmpXchg(u32, TyId, Opd, Opd, Opd),
    Mov(u32, Opd),
    Neg(u32, TyId, Opd),
    Nop,
    Br(u32), CondBr(Opd, u32, u32), Switch(TyId, Opd, u32, Vec<(u128, u32)>), Ret(Option<Opd>), Unreachable,
}
pub const NODST: u32 = u32::MAX;

#[derive(Debug)]
pub struct Block { pub phis: Vec<(u32, TyId, Vec<(u32, Opd)>)>, pub code: Vec<I> }
#[derive(Debug)]
pub struct Body { pub nregs: u32, pub params: Vec<u32>, pub blocks: Vec<Block> }

pub struct Fun { pub name: String, pub decl: bool, text: (usize, usize), pub nparams: usize, pub body: Option<Rc<Body>>, pub called: u64 }
pub struct Glob { pub name: String, pub addr: u64, pub size: u64, pub ty: TyId, pub init: Option<K>, pub konst: bool }

pub struct Module {
    pub text: String,
    pub types: Vec<Ty>, tmap: HashMap<Ty, TyId>, named: HashMap<String, TyId>,
    pub funs: Vec<Fun>, pub fmap: HashMap<String, u32>,
    pub globs: Vec<Glob>, pub gmap: HashMap<String, u64>,
    named_text: HashMap<String, String>,
}
pub const FUN_BASE: u64 = 0x1000;
pub const GLOB_BASE: u64 = 0x0100_0000;
pub fn fun_addr(i: u32) -> u64 { FUN_BASE + 16 * i as u64 }

impl Module {
    pub fn ty(&mut self, t: Ty) -> TyId { if let Some(&i) = self.tmap.get(&t) { return i; } let i = self.types.len() as TyId; self.types.push(t.clone()); self.tmap.insert(t, i); i }
    pub fn size(&self, t: TyId) -> u64 {
        match &self.types[t as usize] {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = self.align(t); (b + a - 1) / a * a }
            Ty::Ptr | Ty::Double => 8, Ty::Float => 4,
            Ty::Array(n, e) => n * self.size(*e),
            Ty::Vector(n, e) => { let b = n * self.bits(*e); ((b + 7) / 8).next_power_of_two() }
            Ty::Struct(..) => { let (o, e) = self.layout(t); let _ = o; e }
            _ => 0,
        }
    }
    pub fn bits(&self, t: TyId) -> u64 { match &self.types[t as usize] { Ty::Int(w) => *w as u64, Ty::Ptr | Ty::Double => 64, Ty::Float => 32, Ty::Vector(n, e) => n * self.bits(*e), _ => self.size(t) * 8 } }
    pub fn align(&self, t: TyId) -> u64 {
        match &self.types[t as usize] {
            Ty::Int(w) => match *w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::Double => 8, Ty::Float => 4,
            Ty::Array(_, e) => self.align(*e),
            Ty::Vector(..) => self.size(t),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|x| self.align(*x)).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn layout(&self, t: TyId) -> (Vec<u64>, u64) {
        if let Ty::Struct(f, p) = &self.types[t as usize] {
            let mut o = 0u64; let mut v = vec![]; let mut ma = 1;
            for x in f { let a = if *p { 1 } else { self.align(*x) }; ma = ma.max(a); o = (o + a - 1) / a * a; v.push(o); o += self.size(*x); }
            (v, (o + ma - 1) / ma * ma)
        } else { panic!("layout of non-struct") }
    }
    pub fn load(text: String) -> Module {
        let mut m = Module { text: String::new(), types: vec![], tmap: HashMap::new(), named: HashMap::new(), funs: vec![], fmap: HashMap::new(), globs: vec![], gmap: HashMap::new(), named_text: HashMap::new() };
        m.ty(Ty::Void);
        // pass 1: names
        let mut pos = 0usize; let bytes = text.as_bytes();
        let mut gl: Vec<(usize, usize)> = vec![]; let mut aliases = vec![];
        while pos < bytes.len() {
            let end = bytes[pos..].iter().position(|c| *c == b'\n').map(|x| pos + x).unwrap_or(bytes.len());
            let line = &text[pos..end];
            if line.starts_with("define ") || line.starts_with("declare ") {
                let decl = line.starts_with("declare");
                let at = find_at(line);
                let mut lx = Lex::new(&line[at..]);
                let name = match lx.next() { Tok::Global(n) => n.to_string(), t => panic!("fn name {:?}", t) };
                let mut e = end;
                if !decl { // find closing "\n}"
                    e = pos + text[pos..].find("\n}\n").map(|x| x + 2).unwrap_or(text.len() - pos);
                }
                let id = m.funs.len() as u32;
                m.fmap.insert(name.clone(), id);
                m.gmap.insert(name.clone(), fun_addr(id));
                m.funs.push(Fun { name, decl, text: (pos, e), nparams: 0, body: None, called: 0 });
                pos = e + 1; continue;
            } else if line.starts_with('@') { if line.contains(" alias ") && !line.contains(" global ") && !line.contains(" constant ") { aliases.push((pos, end)); } else { gl.push((pos, end)); } }
            else if line.starts_with('%') && line.contains(" = type ") {
                let k = line.find(" = type ").unwrap();
                let n = line[1..k].trim_matches('"').to_string();
                m.named_text.insert(n, line[k + 8..].to_string());
            }
            pos = end + 1;
        }
        // pass 2: globals' addresses
        let mut addr = GLOB_BASE; let mut inits = vec![];
        for (a, e) in &gl {
            let line = text[*a..*e].to_string();
            let mut lx = Lex::new(&text[*a..*e]);
            let name = match lx.next() { Tok::Global(n) => n.to_string(), t => panic!("{:?}", t) };
            lx.expect(b'=');
            let mut ext = false; let konst;
            loop { match lx.next() {
                Tok::Word("global") => { konst = false; break; } Tok::Word("constant") => { konst = true; break; }
                Tok::Word("external") | Tok::Word("extern_weak") => ext = true,
                Tok::Word(_) => { if lx.peek() == Tok::P(b'(') { lx.skip_parens(); } }
                t => panic!("global {} tok {:?}", line, t) } }
            let ty = m.parse_ty(&mut lx);
            let sz = m.size(ty).max(1);
            addr = (addr + 15) / 16 * 16 + 16;
            let al = m.align(ty).max(16); addr = (addr + al - 1) / al * al;
            m.gmap.insert(name.clone(), addr);
            m.globs.push(Glob { name, addr, size: sz, ty, init: None, konst });
            let off = lx_pos(&lx);
            inits.push(if ext { None } else { Some((*a + off, *e)) });
            addr += sz;
        }
        for (a, e) in aliases {
            let mut lx = Lex::new(&text[a..e]);
            let name = match lx.next() { Tok::Global(n) => n.to_string(), t => panic!("{:?}", t) };
            let mut last = None;
            loop { match lx.next() { Tok::Global(n) => last = Some(n.to_string()), Tok::Eof => break, _ => {} } }
            if let Some(l) = last { if let Some(&x) = m.gmap.get(&l) { m.gmap.insert(name.clone(), x); if let Some(&f) = m.fmap.get(&l) { m.fmap.insert(name, f); } } }
        }
        for (i, it) in inits.iter().enumerate() {
            if let Some((a, e)) = it { let t = m.globs[i].ty; let s = text[*a..*e].to_string(); let mut lx = Lex::new(&s); let k = m.parse_const(&mut lx, t); m.globs[i].init = Some(k); }
        }
        m.text = text;
        m
    }
    pub fn parse_ty(&mut self, lx: &mut Lex) -> TyId {
        let t = match lx.next() {
            Tok::Word(w) => match w {
                "void" => Ty::Void, "ptr" => Ty::Ptr, "float" => Ty::Float, "double" => Ty::Double, "label" | "metadata" | "token" => Ty::Meta,
                _ if w.starts_with('i') && w[1..].parse::<u16>().is_ok() => Ty::Int(w[1..].parse().unwrap()),
                _ => panic!("type word {} near {}", w, lx.ctx()),
            },
            Tok::P(b'[') => { let n = match lx.next() { Tok::Int(n) => n as u64, t => panic!("{:?}", t) }; lx.next(); let e = self.parse_ty(lx); lx.expect(b']'); Ty::Array(n, e) }
            Tok::P(b'{') => { let mut v = vec![]; if !lx.eat(b'}') { loop { v.push(self.parse_ty(lx)); if lx.eat(b'}') { break; } lx.expect(b','); } } Ty::Struct(v, false) }
            Tok::P(b'<') => {
                if lx.peek() == Tok::P(b'{') { lx.next(); let mut v = vec![]; if !lx.eat(b'}') { loop { v.push(self.parse_ty(lx)); if lx.eat(b'}') { break; } lx.expect(b','); } } lx.expect(b'>'); Ty::Struct(v, true) }
                else { let n = match lx.next() { Tok::Int(n) => n as u64, t => panic!("{:?}", t) }; lx.next(); let e = self.parse_ty(lx); lx.expect(b'>'); Ty::Vector(n, e) }
            }
            Tok::Local(n) => { if let Some(&t) = self.named.get(n) { return t; } let tx = self.named_text.get(n).unwrap_or_else(|| panic!("named type {}", n)).clone(); let mut l2 = Lex::new(&tx); let id = self.parse_ty(&mut l2); self.named.insert(n.to_string(), id); return id; }
            t => panic!("type tok {:?} near {}", t, lx.ctx()),
        };
        if matches!(t, Ty::Ptr) && lx.peek() == Tok::Word("addrspace") { lx.next(); lx.skip_parens(); }
        self.ty(t)
    }
    fn zero(&self, t: TyId) -> K { match &self.types[t as usize] { Ty::Array(n, e) => { if self.size(*e) == 1 || *n > 64 { return K::Undef; } K::Agg((0..*n).map(|_| self.zero(*e)).collect()) } Ty::Vector(n, e) => K::Agg((0..*n).map(|_| self.zero(*e)).collect()), Ty::Struct(f, _) => K::Agg(f.clone().iter().map(|e| self.zero(*e)).collect()), _ => K::Int(0) } }
    pub fn parse_const(&mut self, lx: &mut Lex, t: TyId) -> K {
        match lx.next() {
            Tok::Int(v) => { let w = self.bits(t); K::Int((v as u128) & if w >= 128 { u128::MAX } else { (1 << w) - 1 }) }
            Tok::Flt(f) => if matches!(self.types[t as usize], Ty::Float) { K::Int((f as f32).to_bits() as u128) } else { K::Int(f.to_bits() as u128) },
            Tok::HexFlt(h) => if matches!(self.types[t as usize], Ty::Float) { K::Int((f64::from_bits(h) as f32).to_bits() as u128) } else { K::Int(h as u128) },
            Tok::Str(b) => K::Agg(b.into_iter().map(|x| K::Int(x as u128)).collect()),
            Tok::Word("null") | Tok::Word("false") => K::Int(0), Tok::Word("true") => K::Int(1),
            Tok::Word("undef") | Tok::Word("poison") | Tok::Word("none") => K::Undef,
            Tok::Word("zeroinitializer") => self.zero(t),
            Tok::Global(n) => K::Int(*self.gmap.get(n).unwrap_or_else(|| panic!("unknown global {}", n)) as u128),
            Tok::P(b'[') => { let mut v = vec![]; if !lx.eat(b']') { loop { let e = self.parse_ty(lx); v.push(self.parse_const(lx, e)); if lx.eat(b']') { break; } lx.expect(b','); } } K::Agg(v) }
            Tok::P(b'{') => { let mut v = vec![]; if !lx.eat(b'}') { loop { let e = self.parse_ty(lx); v.push(self.parse_const(lx, e)); if lx.eat(b'}') { break; } lx.expect(b','); } } K::Agg(v) }
            Tok::P(b'<') => {
                if lx.eat(b'{') { let mut v = vec![]; if !lx.eat(b'}') { loop { let e = self.parse_ty(lx); v.push(self.parse_const(lx, e)); if lx.eat(b'}') { break; } lx.expect(b','); } } lx.expect(b'>'); K::Agg(v) }
                else { let mut v = vec![]; loop { let e = self.parse_ty(lx); v.push(self.parse_const(lx, e)); if lx.eat(b'>') { break; } lx.expect(b','); } K::Agg(v) }
            }
            Tok::Word("splat") => { lx.expect(b'('); let e = self.parse_ty(lx); let k = self.parse_const(lx, e); lx.expect(b')'); let n = if let Ty::Vector(n, _) = self.types[t as usize] { n } else { panic!() }; K::Agg(vec![k; n as usize]) }
            Tok::Word("getelementptr") => {
                while let Tok::Word(w) = lx.peek() { if w == "inbounds" || w == "nuw" || w == "nusw" { lx.next(); } else if w == "inrange" { lx.next(); lx.skip_parens(); } else { break; } }
                lx.expect(b'(');
                let st = self.parse_ty(lx); lx.expect(b',');
                let pt = self.parse_ty(lx); let base = self.kint(lx, pt);
                let mut off = 0u64; let mut cur = st; let mut first = true;
                while lx.eat(b',') {
                    let it = self.parse_ty(lx); let w = self.bits(it); let k = self.kint(lx, it); let k = crate::expr::sext(k, w as u16) as i64;
                    if first { off = off.wrapping_add((k as u64).wrapping_mul(self.size(cur))); first = false; }
                    else { match self.types[cur as usize].clone() { Ty::Struct(f, _) => { off = off.wrapping_add(self.layout(cur).0[k as usize]); cur = f[k as usize]; } Ty::Array(_, e) | Ty::Vector(_, e) => { off = off.wrapping_add((k as u64).wrapping_mul(self.size(e))); cur = e; } t => panic!("gep {:?}", t) } }
                }
                lx.expect(b')');
                K::Int(base.wrapping_add(off as u128) & u64::MAX as u128)
            }
            Tok::Word(w @ ("ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "ptrtoaddr")) => {
                let _ = w;
                lx.expect(b'('); let st = self.parse_ty(lx); let k = self.kint(lx, st); assert!(lx.eatw("to")); let dt = self.parse_ty(lx); lx.expect(b')');
                let w = self.bits(dt); K::Int(k & if w >= 128 { u128::MAX } else { (1 << w) - 1 })
            }
            Tok::Word(w @ ("add" | "sub" | "mul" | "xor" | "and" | "or" | "shl")) => {
                let op = w.to_string();
                while let Tok::Word(_) = lx.peek() { lx.next(); }
                lx.expect(b'('); let st = self.parse_ty(lx); let a = self.kint(lx, st); lx.expect(b','); let s2 = self.parse_ty(lx); let b = self.kint(lx, s2); lx.expect(b')');
                let w = self.bits(st); let m = if w >= 128 { u128::MAX } else { (1 << w) - 1 };
                K::Int(match op.as_str() { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), "mul" => a.wrapping_mul(b), "xor" => a ^ b, "and" => a & b, "or" => a | b, _ => a << b } & m)
            }
            t => panic!("const tok {:?} near {}", t, lx.ctx()),
        }
    }
    fn kint(&mut self, lx: &mut Lex, t: TyId) -> u128 { match self.parse_const(lx, t) { K::Int(v) => v, K::Undef => 0, k => panic!("kint {:?}", k) } }

    pub fn body(&mut self, f: u32) -> Rc<Body> {
        if let Some(b) = &self.funs[f as usize].body { return b.clone(); }
        let (a, e) = self.funs[f as usize].text;
        let text = std::mem::take(&mut self.text);
        let b = { let mut fp = FP { m: self, lx: Lex::new(&text[a..e]), regs: HashMap::new(), blocks: HashMap::new(), nreg: 0, nblk: 0 }; Rc::new(fp.function()) };
        self.text = text;
        self.funs[f as usize].body = Some(b.clone());
        b
    }
}
fn lx_pos(lx: &Lex) -> usize { lx.i }
fn find_at(line: &str) -> usize { // first '@' outside quotes/parens preceding '('
    let b = line.as_bytes(); let mut q = false;
    for i in 0..b.len() { if b[i] == b'"' { q = !q; } if b[i] == b'@' && !q { return i; } }
    panic!("no @ in {}", line)
}

struct FP<'m, 'a> { m: &'m mut Module, lx: Lex<'a>, regs: HashMap<String, u32>, blocks: HashMap<String, u32>, nreg: u32, nblk: u32 }
impl<'m, 'a> FP<'m, 'a> {
    fn reg(&mut self, n: &str) -> u32 { if let Some(&r) = self.regs.get(n) { return r; } let r = self.nreg; self.nreg += 1; self.regs.insert(n.to_string(), r); r }
    fn blk(&mut self, n: &str) -> u32 { if let Some(&r) = self.blocks.get(n) { return r; } let r = self.nblk; self.nblk += 1; self.blocks.insert(n.to_string(), r); r }
    fn skip_attrs(&mut self) {
        loop { match self.lx.peek() {
            Tok::Word(w) => {
                if matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "splat" | "none" | "trunc" | "zext" | "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "asm" | "ptrtoaddr") { return; }
                self.lx.next();
                if w == "align" { if let Tok::Int(_) = self.lx.peek() { self.lx.next(); continue; } }
                if self.lx.peek() == Tok::P(b'(') { self.lx.skip_parens(); }
            }
            Tok::Attr => { self.lx.next(); }
            Tok::Quoted(_) => { self.lx.next(); if self.lx.eat(b'=') { self.lx.next(); } }
            _ => return,
        } }
    }
    fn opd(&mut self, t: TyId) -> Opd {
        match self.lx.peek() {
            Tok::Local(n) => { self.lx.next(); Opd::R(self.reg(n)) }
            Tok::Meta => { self.lx.next(); Opd::C(0) }
            _ => match self.m.parse_const(&mut self.lx, t) { K::Int(v) => Opd::C(v), k => Opd::K(Rc::new(k), t) },
        }
    }
    fn tyopd(&mut self) -> (TyId, Opd) { let t = self.m.parse_ty(&mut self.lx); (t, self.opd(t)) }
    fn label(&mut self) -> u32 { assert!(self.lx.eatw("label")); match self.lx.next() { Tok::Local(n) => self.blk(n), t => panic!("label {:?}", t) } }
    fn tail(&mut self) { // trailing ", align N", ", !meta !x"
        while self.lx.peek() == Tok::P(b',') {
            self.lx.next();
            match self.lx.next() { Tok::Word("align") => { self.lx.next(); } Tok::Meta => { if self.lx.peek() == Tok::Meta { self.lx.next(); } } t => panic!("tail {:?} near {}", t, self.lx.ctx()) }
        }
    }
    fn function(&mut self) -> Body {
        // header
        loop { if let Tok::Global(_) = self.lx.next() { break; } }
        self.lx.expect(b'(');
        let mut params = vec![];
        let mut auto = 0u32;
        if !self.lx.eat(b')') { loop {
            if self.lx.peek() == Tok::Ellipsis { self.lx.next(); self.lx.expect(b')'); break; }
            let _ = self.m.parse_ty(&mut self.lx); self.skip_attrs();
            match self.lx.peek() { Tok::Local(n) => { self.lx.next(); let r = self.reg(n); params.push(r); } _ => { let n = auto.to_string(); let r = self.reg(&n); params.push(r); } }
            auto += 1;
            if self.lx.eat(b')') { break; } self.lx.expect(b',');
        } }
        loop { if self.lx.next() == Tok::P(b'{') { break; } }
        let mut order: Vec<(u32, Block)> = vec![];
        // entry block: maybe labelled
        let mut cur: Option<(u32, Block)> = None;
        loop {
            // label?
            let save = self.lx.i; 
            let t = self.lx.peek();
            if t == Tok::P(b'}') { break; }
            if t == Tok::Eof { break; }
            let lab: Option<String> = match &t {
                Tok::Word(w) => { self.lx.next(); if self.lx.peek() == Tok::P(b':') { self.lx.next(); Some(w.to_string()) } else { self.lx.i = save; self.lx.peeked = None; None } }
                Tok::Int(n) => { self.lx.next(); self.lx.expect(b':'); Some(n.to_string()) }
                Tok::Quoted(w) => { self.lx.next(); self.lx.expect(b':'); Some(w.to_string()) }
                _ => None,
            };
            if let Some(l) = lab { if let Some(c) = cur.take() { order.push(c); } let b = self.blk(&l); cur = Some((b, Block { phis: vec![], code: vec![] })); continue; }
            if cur.is_none() { // unlabelled entry: its implicit number is `auto`
                let n = auto.to_string(); let b = self.blk(&n); cur = Some((b, Block { phis: vec![], code: vec![] })); }
            let mut c = cur.take().unwrap();
            self.instr(&mut c.1);
            cur = Some(c);
        }
        if let Some(c) = cur.take() { order.push(c); }
        let entry = order[0].0;
        let n = self.nblk as usize;
        let mut blocks: Vec<Option<Block>> = (0..n).map(|_| None).collect();
        for (i, b) in order { blocks[i as usize] = Some(b); }
        let mut blocks: Vec<Block> = blocks.into_iter().map(|b| b.unwrap_or(Block { phis: vec![], code: vec![I::Unreachable] })).collect();
        // make entry index 0 by swapping through a stub
        if entry != 0 { blocks.push(Block { phis: vec![], code: vec![] }); let last = blocks.len() - 1; let old0 = std::mem::replace(&mut blocks[0], Block { phis: vec![], code: vec![I::Br(entry)] }); blocks[last] = old0;
            let ren = |x: &mut u32| if *x == 0 { *x = last as u32 };
            for b in blocks.iter_mut().skip(1) { for p in b.phis.iter_mut() { for (q, _) in p.2.iter_mut() { ren(q) } }
                for i in b.code.iter_mut() { match i { I::Br(a) => ren(a), I::CondBr(_, a, c) => { ren(a); ren(c) } I::Switch(_, _, d, cs) => { ren(d); for c in cs { ren(&mut c.1) } } I::Call { normal: Some(n), .. } => ren(n), _ => {} } } }
            // a phi naming the entry block as predecessor stays valid: the stub jumps to `entry` only (entry has no phis)
        }
        Body { nregs: self.nreg, params, blocks }
    }
    fn instr(&mut self, b: &mut Block) {
        let mut dst = NODST;
        if let Tok::Local(n) = self.lx.peek() { self.lx.next(); dst = self.reg(n); self.lx.expect(b'='); }
        let op = match self.lx.next() { Tok::Word(w) => w, t => panic!("instr tok {:?} near {}", t, self.lx.ctx()) };
        let op: &'a str = op;
        let i = match op {
            "alloca" => {
                self.lx.eatw("inalloca");
                let t = self.m.parse_ty(&mut self.lx); let mut n = 1u64; let mut al = 16;
                while self.lx.eat(b',') { match self.lx.peek() {
                    Tok::Word("align") => { self.lx.next(); if let Tok::Int(a) = self.lx.next() { al = al.max(a as u64) } }
                    Tok::Meta => { self.lx.next(); self.lx.next(); }
                    _ => { let (_, o) = self.tyopd(); if let Opd::C(k) = o { n = k as u64 } else { panic!("dynamic alloca") } } } }
                I::Alloca(dst, self.m.size(t) * n, al)
            }
            "load" => {
                self.lx.eatw("atomic"); self.lx.eatw("volatile");
                let t = self.m.parse_ty(&mut self.lx); self.lx.expect(b','); let (_, p) = self.tyopd(); self.skip_order(); self.tail();
                I::Load(dst, t, p)
            }
            "store" => {
                self.lx.eatw("atomic"); self.lx.eatw("volatile");
                let (t, v) = self.tyopd(); self.lx.expect(b','); let (_, p) = self.tyopd(); self.skip_order(); self.tail();
                I::Store(t, v, p)
            }
            "fence" => { self.skip_order(); I::Nop }
            "getelementptr" => {
                while let Tok::Word(w) = self.lx.peek() { if w == "inbounds" || w == "nuw" || w == "nusw" { self.lx.next(); } else if w == "inrange" { self.lx.next(); self.lx.skip_parens(); } else { break; } }
                let st = self.m.parse_ty(&mut self.lx); self.lx.expect(b',');
                let (_, base) = self.tyopd();
                let mut off = 0u64; let mut terms = vec![]; let mut cur = st; let mut first = true;
                while self.lx.peek() == Tok::P(b',') {
                    self.lx.next();
                    if self.lx.peek() == Tok::Meta { self.lx.next(); self.lx.next(); continue; }
                    let (it, o) = self.tyopd(); let w = self.m.bits(it) as u16;
                    let elem;
                    if first { elem = cur; first = false; }
                    else { match self.m.types[cur as usize].clone() {
                        Ty::Struct(f, _) => { let k = if let Opd::C(k) = o { k as usize } else { panic!() }; off = off.wrapping_add(self.m.layout(cur).0[k]); cur = f[k]; continue; }
                        Ty::Array(_, e) | Ty::Vector(_, e) => { elem = e; cur = e; } t => panic!("gep {:?}", t) } }
                    let sz = self.m.size(elem);
                    match o { Opd::C(k) => off = off.wrapping_add((crate::expr::sext(k, w) as i64 as u64).wrapping_mul(sz)), Opd::R(_) => terms.push((o, w, sz)), Opd::K(..) => {} }
                }
                I::Gep(dst, base, off, terms)
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                while let Tok::Word(w) = self.lx.peek() { if matches!(w, "nuw" | "nsw" | "exact" | "disjoint" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc") { self.lx.next(); } else { break; } }
                let (t, x) = self.tyopd(); self.lx.expect(b','); let y = self.opd(t); self.tail();
                let o = match op { "add" => B::Add, "sub" => B::Sub, "mul" => B::Mul, "udiv" => B::UDiv, "sdiv" => B::SDiv, "urem" => B::URem, "srem" => B::SRem, "shl" => B::Shl, "lshr" => B::LShr, "ashr" => B::AShr, "and" => B::And, "or" => B::Or, "xor" => B::Xor, "fadd" => B::FAdd, "fsub" => B::FSub, "fmul" => B::FMul, "fdiv" => B::FDiv, _ => B::FRem };
                I::Bin(dst, o, t, x, y)
            }
            "fneg" => { while let Tok::Word(w) = self.lx.peek() { if w == "float" || w == "double" { break; } self.lx.next(); } let (t, x) = self.tyopd(); self.tail(); I::Neg(dst, t, x) }
            "icmp" => {
                self.lx.eatw("samesign");
                let p = match self.lx.next() { Tok::Word(w) => match w { "eq" => Pr::Eq, "ne" => Pr::Ne, "ugt" => Pr::Ugt, "uge" => Pr::Uge, "ult" => Pr::Ult, "ule" => Pr::Ule, "sgt" => Pr::Sgt, "sge" => Pr::Sge, "slt" => Pr::Slt, "sle" => Pr::Sle, w => panic!("{}", w) }, t => panic!("{:?}", t) };
                let (t, x) = self.tyopd(); self.lx.expect(b','); let y = self.opd(t); self.tail();
                I::Icmp(dst, p, t, x, y)
            }
            "fcmp" => {
                let mut p = String::new();
                while let Tok::Word(w) = self.lx.peek() { if w == "float" || w == "double" { break; } p = w.to_string(); self.lx.next(); }
                let (t, x) = self.tyopd(); self.lx.expect(b','); let y = self.opd(t); self.tail(); I::Fcmp(dst, p, t, x, y)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "ptrtoaddr" => {
                while let Tok::Word(w) = self.lx.peek() { if matches!(w, "nuw" | "nsw" | "nneg" | "fast" | "contract") { self.lx.next(); } else { break; } }
                let (t, x) = self.tyopd(); assert!(self.lx.eatw("to")); let d = self.m.parse_ty(&mut self.lx); self.tail();
                let k = match op { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt, "inttoptr" => Cast::IntToPtr, "bitcast" => Cast::Bit, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp, "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi, "fpext" => Cast::FpExt, _ => Cast::FpTrunc };
                I::Cast(dst, k, t, d, x)
            }
            "select" => { let (ct, c) = self.tyopd(); self.lx.expect(b','); let (t, x) = self.tyopd(); self.lx.expect(b','); let (_, y) = self.tyopd(); self.tail(); I::Select(dst, ct, c, t, x, y) }
            "freeze" => { let (_, x) = self.tyopd(); self.tail(); I::Mov(dst, x) }
            "phi" => {
                let t = self.m.parse_ty(&mut self.lx); let mut v = vec![];
                loop { self.lx.expect(b'['); let o = self.opd(t); self.lx.expect(b','); let l = match self.lx.next() { Tok::Local(n) => self.blk(n), t => panic!("{:?}", t) }; self.lx.expect(b']'); v.push((l, o)); if self.lx.peek() == Tok::P(b',') { self.lx.next(); if self.lx.peek() == Tok::Meta { self.lx.next(); self.lx.next(); break; } } else { break; } }
                self.tail();
                b.phis.push((dst, t, v)); return;
            }
            "extractvalue" => { let (_, a) = self.tyopd(); let mut ix = vec![]; while self.lx.peek() == Tok::P(b',') { self.lx.next(); match self.lx.next() { Tok::Int(n) => ix.push(n as u32), Tok::Meta => { self.lx.next(); } t => panic!("{:?}", t) } } I::ExtractV(dst, a, ix) }
            "insertvalue" => { let (t, a) = self.tyopd(); self.lx.expect(b','); let (_, v) = self.tyopd(); let mut ix = vec![]; while self.lx.peek() == Tok::P(b',') { self.lx.next(); match self.lx.next() { Tok::Int(n) => ix.push(n as u32), Tok::Meta => { self.lx.next(); } t => panic!("{:?}", t) } } I::InsertV(dst, t, a, v, ix) }
            "extractelement" => { let (_, a) = self.tyopd(); self.lx.expect(b','); let (_, i) = self.tyopd(); self.tail(); I::ExtractE(dst, a, i) }
            "insertelement" => { let (t, a) = self.tyopd(); self.lx.expect(b','); let (_, v) = self.tyopd(); self.lx.expect(b','); let (_, i) = self.tyopd(); self.tail(); I::InsertE(dst, t, a, v, i) }
            "shufflevector" => {
                let (t, a) = self.tyopd(); self.lx.expect(b','); let (_, c) = self.tyopd(); self.lx.expect(b',');
                let mt = self.m.parse_ty(&mut self.lx); let mk = self.m.parse_const(&mut self.lx, mt); self.tail();
                let n = if let Ty::Vector(n, _) = self.m.types[mt as usize] { n } else { panic!() };
                let mask = match mk { K::Agg(v) => v.iter().map(|k| if let K::Int(x) = k { *x as u32 as i32 as i64 } else { -1 }).collect(), _ => vec![0; n as usize] };
                let (n0, e) = if let Ty::Vector(n, e) = self.m.types[t as usize] { (n, e) } else { panic!() };
                I::Shuffle(dst, n0, a, c, mask, e)
            }
            "call" | "tail" | "musttail" | "notail" | "invoke" => {
                let inv = op == "invoke";
                if op == "tail" || op == "musttail" || op == "notail" { self.lx.next(); }
                // fast-math flags, calling convention, return attributes
                loop { match self.lx.peek() {
                    Tok::Word(w) if w == "void" || w == "ptr" || w == "float" || w == "double" || w == "token" || (w.starts_with('i') && w[1..].parse::<u16>().is_ok()) => break,
                    Tok::Word("align") => { self.lx.next(); self.lx.next(); }
                    Tok::Word(_) => { self.lx.next(); if self.lx.peek() == Tok::P(b'(') { self.lx.skip_parens(); } }
                    Tok::Quoted(_) => { self.lx.next(); if self.lx.eat(b'=') { self.lx.next(); } }
                    _ => break } }
                let ret = self.m.parse_ty(&mut self.lx);
                if self.lx.peek() == Tok::P(b'(') { self.lx.skip_parens(); }
                if self.lx.eatw("asm") {
                    while let Tok::Word(_) = self.lx.peek() { self.lx.next(); }
                    let text = match self.lx.next() { Tok::Quoted(s) => s.to_string(), t => panic!("{:?}", t) };
                    self.lx.expect(b','); self.lx.next();
                    let args = self.args(); self.calltail();
                    b.code.push(I::Asm { dst, ret, text, args }); return;
                }
                let pt = self.m.ty(Ty::Ptr);
                let mut fid = None;
                if let Tok::Global(n) = self.lx.peek() { fid = self.m.fmap.get(n).copied(); }
                let callee = self.opd(pt);
                let args = self.args();
                self.calltail();
                let mut normal = None;
                if inv { assert!(self.lx.eatw("to")); normal = Some(self.label()); assert!(self.lx.eatw("unwind")); self.label(); self.tail(); }
                I::Call { dst, ret, callee, fid, args, normal }
            }
            "atomicrmw" => {
                self.lx.eatw("volatile");
                let o = match self.lx.next() { Tok::Word(w) => w.to_string(), t => panic!("{:?}", t) };
                let (_, p) = self.tyopd(); self.lx.expect(b','); let (t, v) = self.tyopd(); self.skip_order(); self.tail();
                I::Rmw(dst, o, t, p, v)
            }
            "cmpxchg" => {
                self.lx.eatw("weak"); self.lx.eatw("volatile");
                let (_, p) = self.tyopd(); self.lx.expect(b','); let (t, c) = self.tyopd(); self.lx.expect(b','); let (_, n) = self.tyopd(); self.skip_order(); self.tail();
                I::CmpXchg(dst, t, p, c, n)
            }
            "landingpad" => { // never reached: unwinding ends the path
                self.m.parse_ty(&mut self.lx);
                self.lx.eatw("cleanup");
                while self.lx.eatw("catch") || self.lx.eatw("filter") { self.tyopd(); }
                I::Unreachable
            }
            "resume" => { self.tyopd(); I::Unreachable }
            "br" => {
                if self.lx.peek() == Tok::Word("label") { let l = self.label(); self.tail(); I::Br(l) }
                else { let (_, c) = self.tyopd(); self.lx.expect(b','); let t = self.label(); self.lx.expect(b','); let f = self.label(); self.tail(); I::CondBr(c, t, f) }
            }
            "switch" => {
                let (t, v) = self.tyopd(); self.lx.expect(b','); let d = self.label(); self.lx.expect(b'[');
                let mut cs = vec![];
                while !self.lx.eat(b']') { let (_, k) = self.tyopd(); self.lx.expect(b','); let l = self.label(); if let Opd::C(k) = k { cs.push((k, l)); } else { panic!() } }
                self.tail(); I::Switch(t, v, d, cs)
            }
            "ret" => { let t = self.m.parse_ty(&mut self.lx); let r = if t == 0 { None } else { Some(self.opd(t)) }; self.tail(); I::Ret(r) }
            "unreachable" => { self.tail(); I::Unreachable }
            _ => panic!("unknown instr {} near {}", op, self.lx.ctx()),
        };
        b.code.push(i);
    }
    fn skip_order(&mut self) { loop { match self.lx.peek() { Tok::Word("monotonic" | "acquire" | "release" | "acq_rel" | "seq_cst" | "unordered") => { self.lx.next(); } Tok::Word("syncscope") => { self.lx.next(); self.lx.skip_parens(); } _ => break } } }
    fn args(&mut self) -> Vec<(TyId, Opd)> {
        self.lx.expect(b'('); let mut v = vec![];
        if self.lx.eat(b')') { return v; }
        loop {
            let t = self.m.parse_ty(&mut self.lx);
            if matches!(self.m.types[t as usize], Ty::Meta) { // metadata argument
                match self.lx.peek() { Tok::Meta => { self.lx.next(); } _ => { let (_, _) = self.tyopd(); } }
                v.push((t, Opd::C(0)));
            } else { self.skip_attrs(); let o = self.opd(t); v.push((t, o)); }
            if self.lx.eat(b')') { return v; }
            self.lx.expect(b',');
        }
    }
    fn calltail(&mut self) {
        loop { match self.lx.peek() {
            Tok::Attr => { self.lx.next(); }
            Tok::P(b'[') => { // operand bundle
                let mut d = 0; loop { match self.lx.next() { Tok::P(b'[') => d += 1, Tok::P(b']') => { d -= 1; if d == 0 { break; } } Tok::Eof => panic!(), _ => {} } } }
            Tok::Word("nounwind" | "noreturn" | "cold" | "readnone" | "readonly" | "noinline" | "memory" | "inlinehint" | "alwaysinline") => { self.lx.next(); if self.lx.peek() == Tok::P(b'(') { self.lx.skip_parens(); } }
            _ => break } }
        // careful: ", !srcloc" but not the "," of nothing else
        while self.lx.peek() == Tok::P(b',') { let save = self.lx.i; self.lx.next(); if self.lx.peek() == Tok::Meta { self.lx.next(); if self.lx.peek() == Tok::Meta { self.lx.next(); } } else { self.lx.i = save; self.lx.peeked = None; break; } }
    }
}
