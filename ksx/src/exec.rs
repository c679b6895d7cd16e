//! The symbolic executor: runs LLVM IR on symbolic inputs, forking on every branch whose both sides are feasible.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum V { C(u128), E(Ex), A(Rc<Vec<V>>) }

#[derive(Clone)]
pub struct Frame { pub fun: u32, body: Rc<Body>, blk: u32, ip: u32, prev: u32, regs: Vec<V>, dst: u32, normal: Option<u32>, sp: u64 }

/// Two functions that run as two threads: the solver chooses where one is interrupted for the other.
#[derive(Clone)]
struct Par {
    /// the thread that is not running, if it is not over
    other: Option<(Frame, Vec<Rc<Frame>>, u64)>,
    /// what goes on when both are over
    main: (Frame, Vec<Rc<Frame>>, u64),
    /// interruptions that are still possible
    left: u64,
    asked: Option<Ex>,
    /// the next access has been decided on; the thread waits for the other one
    pass: bool, wait: bool,
}
#[derive(Clone)]
pub struct State {
    fr: Frame, stack: Vec<Rc<Frame>>, mem: Mem,
    pub pc: Vec<Ex>, pub model: Vec<u8>, pub nvars: u32,
    pub inputs: Vec<(Rc<str>, u32, u32)>,
    pub out: Vec<(u32, Ex)>, // (concrete byte | NOEX) observed
    heap: u64, own: u64, own_on: bool, pub live: u64, sp: u64, pub steps: u64, pub limit: u64, slice: u64, pub max_slice: u64, pub forks: u32, uuid: u64, rng: u64,
    pub trace: Vec<Rc<str>>, par: Option<Box<Par>>,
    pub covers: Vec<u32>,
}

#[derive(Debug, Clone)]
pub enum End { Done, Pruned, Paused, Fail(String, String), Incomplete(String) }

#[derive(Debug)]
enum Stop { End(End) }
impl From<Fault> for Stop { fn from(f: Fault) -> Self { Stop::End(End::Incomplete(format!("memory fault at {:#x}", f.0))) } }
type R<T> = Result<T, Stop>;

#[derive(Clone, Debug)]
enum In { No, Nop, Memcpy, Memset, Call(Rc<str>) }

const SLICE: u64 = 250_000_000;
pub struct Exec {
    pub m: Module, pub p: Pool, pub s: Solver,
    intr: Vec<Option<In>>,
    pub work: Vec<State>,
    pub instrs: u64, pub max_steps: u64, pub fork_count: u64,
    pub used: BTreeSet<u32>,
    globs_sorted: Vec<usize>,
    /// the variables of the code under test that all its threads share
    shared: Vec<(u64, u64)>,
    pub labels: Vec<String>, label_map: HashMap<String, u32>,
    pub branch_both: u64, pub conc_forks: u64,
    pub conc_sites: BTreeMap<String, u64>,
    pub unknown: bool,
    pub ncpu: u64,
    pub profile: HashMap<u32, u64>,
    /// stop at the next fork, without losing anything
    pub breadth: bool, pause: bool,
    pub tracing: bool,
    pub replay: Option<Vec<u8>>, pub deadline: Option<Instant>,
}

fn bug<T>(s: impl Into<String>) -> R<T> { Err(Stop::End(End::Incomplete(s.into()))) }

impl Exec {
    pub fn new(m: Module, timeout_ms: u32) -> Self {
        let mut p = Pool::new();
        p.c(1, 0); // expression 0 is reserved: "no expression" in memory overlays
        let n = m.funs.len();
        let mut gs: Vec<usize> = (0..m.globs.len()).collect();
        gs.sort_by_key(|i| m.globs[*i].addr);
        let shared = gs.iter().map(|i| &m.globs[*i]).filter(|g| !g.konst && g.name.contains("6mqtt_h") && !g.name.contains("7harness")).map(|g| (g.addr, g.addr + g.size)).collect();
        Exec { shared, m, p, s: Solver::new(timeout_ms), intr: vec![None; n], work: vec![], instrs: 0, max_steps: u64::MAX, fork_count: 0, used: BTreeSet::new(), globs_sorted: gs, labels: vec![], label_map: HashMap::new(), branch_both: 0, conc_forks: 0, conc_sites: BTreeMap::new(), unknown: false, ncpu: 1, profile: HashMap::new(), breadth: false, pause: false, tracing: false, replay: None, deadline: None }
    }
    pub fn label(&mut self, s: &str) -> u32 { if let Some(&i) = self.label_map.get(s) { return i; } let i = self.labels.len() as u32; self.labels.push(s.to_string()); self.label_map.insert(s.to_string(), i); i }

    pub fn initial(&mut self, entry: &str) -> State {
        let mut mem = Mem::new();
        for i in 0..self.m.globs.len() {
            let (a, sz, ty) = { let g = &self.m.globs[i]; (g.addr, g.size, g.ty) };
            mem.map(a, sz);
            let init = self.m.globs[i].init.take();
            if let Some(k) = &init { self.store_k(&mut mem, a, ty, k); }
            self.m.globs[i].init = init;
        }
        let f = *self.m.fmap.get(entry).unwrap_or_else(|| panic!("no entry {}", entry));
        let body = self.m.body(f);
        self.used.insert(f);
        let fr = Frame { fun: f, regs: vec![V::C(0); body.nregs as usize], body, blk: 0, ip: 0, prev: 0, dst: NODST, normal: None, sp: STACK_BASE };
        State { fr, stack: vec![], mem, pc: vec![], model: vec![], nvars: 0, inputs: vec![], out: vec![], heap: HEAP_BASE + 0x1000, own: OWN_BASE + 0x1000, own_on: false, live: 0, sp: STACK_BASE + 0x100, steps: 0, limit: self.max_steps, slice: 0, max_slice: 0, forks: 0, uuid: 0, rng: 0, trace: vec![], par: None, covers: vec![] }
    }
    fn store_k(&self, mem: &mut Mem, a: u64, ty: TyId, k: &K) {
        match (k, &self.m.types[ty as usize]) {
            (K::Int(0), _) | (K::Undef, _) => {}
            (K::Int(v), _) => { mem.store_c(a, self.m.size(ty).min(16) as usize, *v).unwrap(); }
            (K::Agg(v), Ty::Array(_, e)) | (K::Agg(v), Ty::Vector(_, e)) => { let s = self.m.size(*e); for (i, x) in v.iter().enumerate() { self.store_k(mem, a + i as u64 * s, *e, x); } }
            (K::Agg(v), Ty::Struct(f, _)) => { let (o, _) = self.m.layout(ty); for (i, x) in v.iter().enumerate() { self.store_k(mem, a + o[i], f[i], x); } }
            (k, t) => panic!("init {:?} {:?}", k, t),
        }
    }

    // ---- decisions -------------------------------------------------------------------------------------------
    fn merge(model: &mut Vec<u8>, m: &[(u32, u8)]) { for (v, x) in m { if model.len() <= *v as usize { model.resize(*v as usize + 1, 0); } model[*v as usize] = *x; } }
    /// Push a copy of `st` that takes `c`; it re-executes the current instruction.
    fn fork(&mut self, st: &State, c: Ex, m: &[(u32, u8)]) {
        let mut o = st.clone();
        Self::merge(&mut o.model, m);
        o.pc.push(c); o.forks += 1; self.fork_count += 1;
        self.work.push(o); self.pause = self.breadth;
    }
    /// Decide a symbolic condition: returns the side this state continues on, forking the other one if feasible.
    fn decide(&mut self, st: &mut State, c: Ex) -> R<bool> {
        if let Some(v) = self.p.cv(c) { return Ok(v == 1); }
        let nc = self.p.not(c);
        for &x in st.pc.iter().rev() { if x == c { return Ok(true); } if x == nc { return Ok(false); } }
        let v = self.p.eval(c, &st.model) == 1;
        let (mine, other) = if v { (c, nc) } else { (nc, c) };
        match self.s.check(&mut self.p, &st.pc, other) {
            Answer::Unsat => {}
            Answer::Sat(m) => { self.branch_both += 1; self.fork(st, other, &m); st.pc.push(mine); }
            Answer::Unknown => return bug("solver gave no answer"),
        }
        Ok(v)
    }
    /// Constrain `c` to hold; false if that is impossible.
    fn assume(&mut self, st: &mut State, c: Ex) -> R<bool> {
        if let Some(v) = self.p.cv(c) { return Ok(v == 1); }
        if self.p.eval(c, &st.model) == 1 { if !st.pc.contains(&c) { st.pc.push(c); } return Ok(true); }
        match self.s.check(&mut self.p, &st.pc, c) {
            Answer::Unsat => Ok(false),
            Answer::Sat(m) => { Self::merge(&mut st.model, &m); st.pc.push(c); Ok(true) }
            Answer::Unknown => bug("solver gave no answer"),
        }
    }
    /// Turn a symbolic value into a concrete one, forking one state per feasible value.
    fn conc(&mut self, st: &mut State, v: &V, why: &str) -> R<u128> {
        match v {
            V::C(c) => Ok(*c),
            V::E(e) => {
                if let Some(c) = self.p.cv(*e) { return Ok(c); }
                let w = self.p.w(*e);
                let x = self.p.eval(*e, &st.model);
                let k = self.p.c(w, x);
                let c = self.p.bin(Op::Eq, *e, k);
                let before = self.fork_count;
                let r = self.decide(st, c)?;
                if self.fork_count > before { self.conc_forks += 1; let f = self.m.funs[st.fr.fun as usize].name.clone(); *self.conc_sites.entry(format!("{}:{}", why, f)).or_insert(0) += 1; }
                if !r { return bug("concretisation"); }
                Ok(x)
            }
            V::A(_) => bug(format!("aggregate where a scalar is needed: {}", why)),
        }
    }
    /// The number of bytes to set aside for a block: a size that may be large is not made concrete; the block then gets
    /// its greatest possible size (safe Rust never reaches past the size it asked for, so the rest is never touched).
    fn size_bound(&mut self, st: &mut State, v: &V, why: &str) -> R<u64> {
        if let V::E(e) = v {
            let (w, k) = (self.p.w(*e), self.p.msb(*e));
            if w >= 16 && k >= 7 && k <= 21 {
                let lim = self.p.c(w, 64);
                let big = self.p.bin(Op::Ult, lim, *e);
                match self.s.check(&mut self.p, &st.pc, big) { Answer::Unsat => {} _ => return Ok(mask(k) as u64) }
            }
        }
        Ok(self.conc(st, v, why)? as u64)
    }
    fn ex(&mut self, v: &V, w: u16) -> Ex { match v { V::C(c) => self.p.c(w, *c), V::E(e) => *e, V::A(_) => panic!("aggregate as expression") } }
    fn vx(&self, e: Ex) -> V { match self.p.cv(e) { Some(c) => V::C(c), None => V::E(e) } }

    // ---- memory ----------------------------------------------------------------------------------------------
    fn load_int(&mut self, st: &State, a: u64, w: u16) -> R<V> {
        let n = ((w + 7) / 8) as usize;
        if n > 16 { return bug(format!("load of i{}", w)); }
        match st.mem.load_c(a, n)? {
            Some(v) => Ok(V::C(if w == 128 { v } else { v & mask(w) })),
            None => {
                let mut r: Option<Ex> = None;
                for i in 0..n {
                    let (b, e) = st.mem.byte(a + i as u64)?;
                    let x = if e != 0 { e } else { self.p.c(8, b as u128) };
                    r = Some(match r { None => x, Some(l) => self.p.concat(x, l) });
                }
                let r = r.unwrap();
                let r = if self.p.w(r) > w { self.p.extract(r, 0, w) } else { r };
                Ok(self.vx(r))
            }
        }
    }
    fn load(&mut self, st: &State, a: u64, t: TyId) -> R<V> {
        match self.m.types[t as usize].clone() {
            Ty::Int(w) => self.load_int(st, a, w),
            Ty::Ptr | Ty::Double => self.load_int(st, a, 64),
            Ty::Float => self.load_int(st, a, 32),
            Ty::Array(n, e) => { let s = self.m.size(e); let mut v = vec![]; for i in 0..n { v.push(self.load(st, a + i * s, e)?); } Ok(V::A(Rc::new(v))) }
            Ty::Vector(n, e) => {
                let b = self.m.bits(e);
                if b % 8 != 0 { let x = self.load_int(st, a, (n * b) as u16)?; return Ok(self.split(&x, (n * b) as u16, b as u16, n)); }
                let mut v = vec![]; for i in 0..n { v.push(self.load(st, a + i * (b / 8), e)?); } Ok(V::A(Rc::new(v)))
            }
            Ty::Struct(f, _) => { let (o, _) = self.m.layout(t); let mut v = vec![]; for (i, e) in f.iter().enumerate() { v.push(self.load(st, a + o[i], *e)?); } Ok(V::A(Rc::new(v))) }
            t => bug(format!("load of {:?}", t)),
        }
    }
    fn split(&mut self, x: &V, w: u16, b: u16, n: u64) -> V {
        let e = self.ex(x, w);
        let mut v = vec![];
        for i in 0..n { let y = self.p.extract(e, i as u16 * b, b); v.push(self.vx(y)); }
        V::A(Rc::new(v))
    }
    fn join(&mut self, v: &[V], b: u16) -> V {
        let mut r: Option<Ex> = None;
        for x in v { let e = self.ex(x, b); r = Some(match r { None => e, Some(l) => self.p.concat(e, l) }); }
        self.vx(r.unwrap())
    }
    fn store_int(&mut self, st: &mut State, a: u64, w: u16, v: &V) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        if n > 16 { return bug(format!("store of i{}", w)); }
        match v {
            V::C(c) => { st.mem.store_c(a, n, *c)?; }
            V::E(e) => {
                let e = if w as usize != n * 8 { self.p.zext(*e, (n * 8) as u16) } else { *e };
                let m = st.model.clone();
                let _ = m;
                for i in 0..n {
                    let b = self.p.extract(e, (i * 8) as u16, 8);
                    match self.p.cv(b) { Some(c) => st.mem.set_byte(a + i as u64, c as u8, 0)?, None => st.mem.set_byte(a + i as u64, 0, b)? }
                }
            }
            V::A(_) => return bug("aggregate store"),
        }
        Ok(())
    }
    fn store(&mut self, st: &mut State, a: u64, t: TyId, v: &V) -> R<()> {
        match self.m.types[t as usize].clone() {
            Ty::Int(w) => self.store_int(st, a, w, v),
            Ty::Ptr | Ty::Double => self.store_int(st, a, 64, v),
            Ty::Float => self.store_int(st, a, 32, v),
            Ty::Array(_, e) => { let s = self.m.size(e); if let V::A(x) = v { for (i, y) in x.iter().enumerate() { self.store(st, a + i as u64 * s, e, y)?; } } Ok(()) }
            Ty::Vector(n, e) => {
                let b = self.m.bits(e);
                if let V::A(x) = v {
                    if b % 8 != 0 { let j = self.join(x, b as u16); return self.store_int(st, a, (n * b) as u16, &j); }
                    for (i, y) in x.iter().enumerate() { self.store(st, a + i as u64 * (b / 8), e, y)?; }
                }
                Ok(())
            }
            Ty::Struct(f, _) => { let (o, _) = self.m.layout(t); if let V::A(x) = v { for (i, y) in x.iter().enumerate() { self.store(st, a + o[i], f[i], y)?; } } Ok(()) }
            t => bug(format!("store of {:?}", t)),
        }
    }
    /// Load through a symbolic address: an if-then-else over a small constant table where that is exact.
    fn load_sym(&mut self, st: &mut State, ae: Ex, t: TyId) -> R<Option<V>> {
        let w = match self.m.types[t as usize] { Ty::Int(w) if w % 8 == 0 => w, Ty::Ptr => 64, _ => return Ok(None) };
        let n = w as u64 / 8;
        let a = self.p.eval(ae, &st.model) as u64;
        let i = match self.globs_sorted.binary_search_by_key(&a, |i| self.m.globs[*i].addr) { Ok(i) => i, Err(0) => return Ok(None), Err(i) => i - 1 };
        let g = &self.m.globs[self.globs_sorted[i]];
        if !g.konst || g.size > 2048 || a < g.addr || a + n > g.addr + g.size { return Ok(None); }
        let (ga, gs) = (g.addr, g.size);
        let lo = self.p.c(64, ga as u128); let hi = self.p.c(64, (ga + gs - n) as u128);
        let c1 = self.p.bin(Op::Ule, lo, ae); let c2 = self.p.bin(Op::Ule, ae, hi);
        let inr = self.p.bin(Op::And, c1, c2);
        let out = self.p.not(inr);
        if !matches!(self.s.check(&mut self.p, &st.pc, out), Answer::Unsat) { return Ok(None); }
        let mut stride = 1;
        if n > 1 {
            let off = self.p.bin(Op::Sub, ae, lo); let k = self.p.c(64, n as u128); let z = self.p.c(64, 0);
            let r = self.p.bin(Op::URem, off, k); let al = self.p.bin(Op::Eq, r, z); let bad = self.p.not(al);
            if matches!(self.s.check(&mut self.p, &st.pc, bad), Answer::Unsat) { stride = n; } else { return Ok(None); }
        }
        let mut runs: Vec<(u64, u128)> = vec![]; // (last offset, value)
        let mut o = 0;
        while o + n <= gs {
            let v = match st.mem.load_c(ga + o, n as usize)? { Some(v) => v, None => return Ok(None) };
            match runs.last_mut() { Some(l) if l.1 == v => l.0 = o, _ => runs.push((o, v)) }
            o += stride;
        }
        if runs.len() > 300 { return Ok(None); }
        let mut r = self.p.c(w, runs.last().unwrap().1);
        for (o, v) in runs.iter().rev().skip(1) {
            let k = self.p.c(64, (ga + o) as u128);
            let c = self.p.bin(Op::Ule, ae, k);
            let x = self.p.c(w, *v);
            r = self.p.ite(c, x, r);
        }
        Ok(Some(self.vx(r)))
    }
    pub fn alloc(&mut self, st: &mut State, n: u64, al: u64) -> R<u64> { let own = st.own_on; self.alloc_in(st, n, al, own) }
    fn alloc_in(&mut self, st: &mut State, n: u64, al: u64, own: bool) -> R<u64> {
        let al = al.max(16);
        if own {
            // the size is kept in front of the block
            let a = (st.own + 16 + al - 1) / al * al;
            if a + n + 32 > OWN_END { return bug("heap exhausted"); }
            st.own = a + n + 16;
            st.mem.map(a - 16, 16 + n.max(1)); st.mem.store_c(a - 16, 8, n as u128)?; st.live += n;
            return Ok(a);
        }
        let a = (st.heap + al - 1) / al * al;
        if a + n + 32 > HEAP_END { return bug("heap exhausted"); }
        st.heap = a + n + 16;
        st.mem.map(a, n.max(1));
        Ok(a)
    }
    fn release(&mut self, st: &mut State, p: u64) -> R<()> {
        if p >= OWN_BASE && p < OWN_END { if let Some(n) = st.mem.load_c(p - 16, 8)? { st.live -= n as u64; st.mem.store_c(p - 16, 8, 0)?; } }
        Ok(())
    }
    fn cstr(&mut self, st: &State, a: u64, n: u64) -> R<String> {
        let mut v = vec![];
        for i in 0..n { v.push(st.mem.byte(a + i)?.0); }
        Ok(String::from_utf8_lossy(&v).to_string())
    }

    // ---- values ----------------------------------------------------------------------------------------------
    fn kv(&self, k: &K, t: TyId) -> V {
        match (k, &self.m.types[t as usize]) {
            (K::Int(v), _) => V::C(*v),
            (K::Undef, Ty::Array(n, e)) | (K::Undef, Ty::Vector(n, e)) => V::A(Rc::new((0..*n).map(|_| self.kv(&K::Undef, *e)).collect())),
            (K::Undef, Ty::Struct(f, _)) => V::A(Rc::new(f.iter().map(|e| self.kv(&K::Undef, *e)).collect())),
            (K::Undef, _) => V::C(0),
            (K::Agg(v), Ty::Array(_, e)) | (K::Agg(v), Ty::Vector(_, e)) => V::A(Rc::new(v.iter().map(|x| self.kv(x, *e)).collect())),
            (K::Agg(v), Ty::Struct(f, _)) => V::A(Rc::new(v.iter().zip(f).map(|(x, e)| self.kv(x, *e)).collect())),
            (k, t) => panic!("const {:?} {:?}", k, t),
        }
    }
    #[inline]
    fn val(&self, fr: &Frame, o: &Opd) -> V { match o { Opd::R(r) => fr.regs[*r as usize].clone(), Opd::C(c) => V::C(*c), Opd::K(k, t) => self.kv(k, *t) } }
    fn sw(&self, t: TyId) -> u16 { self.m.bits(t) as u16 }

    fn bin1(&mut self, st: &mut State, b: B, w: u16, x: &V, y: &V, fl: bool) -> R<V> {
        if fl { return self.fbin(st, b, w, x, y); }
        if let (V::C(a), V::C(c)) = (x, y) {
            let (a, c) = (*a, *c);
            if w <= 64 {
                let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                let (p, q) = (a as u64, c as u64);
                match b {
                    B::Add => return Ok(V::C((p.wrapping_add(q) & m) as u128)), B::Sub => return Ok(V::C((p.wrapping_sub(q) & m) as u128)),
                    B::And => return Ok(V::C((p & q) as u128)), B::Or => return Ok(V::C((p | q) as u128)), B::Xor => return Ok(V::C((p ^ q) as u128)),
                    B::Mul => return Ok(V::C((p.wrapping_mul(q) & m) as u128)),
                    _ => {}
                }
            }
            if matches!(b, B::UDiv | B::SDiv | B::URem | B::SRem) && c == 0 { return bug("division by zero"); }
            return Ok(V::C(fold(bop(b), w, w, a, c)));
        }
        if matches!(b, B::UDiv | B::SDiv | B::URem | B::SRem) {
            // rustc guards divisors; a symbolic divisor that can be zero would be undefined
            if let V::E(e) = y { let z = self.p.c(w, 0); let c = self.p.bin(Op::Eq, *e, z); if !matches!(self.s.check(&mut self.p, &st.pc, c), Answer::Unsat) { return bug("divisor may be zero"); } }
        }
        let (a, c) = (self.ex(x, w), self.ex(y, w));
        let r = self.p.bin(bop(b), a, c);
        Ok(self.vx(r))
    }
    fn fbin(&mut self, st: &mut State, b: B, w: u16, x: &V, y: &V) -> R<V> {
        let a = self.conc(st, x, "float")?; let c = self.conc(st, y, "float")?;
        if w == 64 { let (a, c) = (f64::from_bits(a as u64), f64::from_bits(c as u64)); let r = match b { B::FAdd => a + c, B::FSub => a - c, B::FMul => a * c, B::FDiv => a / c, _ => a % c }; Ok(V::C(r.to_bits() as u128)) }
        else { let (a, c) = (f32::from_bits(a as u32), f32::from_bits(c as u32)); let r = match b { B::FAdd => a + c, B::FSub => a - c, B::FMul => a * c, B::FDiv => a / c, _ => a % c }; Ok(V::C(r.to_bits() as u128)) }
    }
    fn icmp1(&mut self, p: Pr, w: u16, x: &V, y: &V) -> V {
        if let (V::C(a), V::C(c)) = (x, y) {
            let (a, c) = (*a, *c);
            let r = match p { Pr::Eq => a == c, Pr::Ne => a != c, Pr::Ugt => a > c, Pr::Uge => a >= c, Pr::Ult => a < c, Pr::Ule => a <= c,
                Pr::Sgt => sext(a, w) > sext(c, w), Pr::Sge => sext(a, w) >= sext(c, w), Pr::Slt => sext(a, w) < sext(c, w), Pr::Sle => sext(a, w) <= sext(c, w) };
            return V::C(r as u128);
        }
        let (a, c) = (self.ex(x, w), self.ex(y, w));
        let r = match p {
            Pr::Eq => self.p.bin(Op::Eq, a, c), Pr::Ne => { let e = self.p.bin(Op::Eq, a, c); self.p.not(e) }
            Pr::Ugt => self.p.bin(Op::Ult, c, a), Pr::Uge => self.p.bin(Op::Ule, c, a), Pr::Ult => self.p.bin(Op::Ult, a, c), Pr::Ule => self.p.bin(Op::Ule, a, c),
            Pr::Sgt => self.p.bin(Op::Slt, c, a), Pr::Sge => self.p.bin(Op::Sle, c, a), Pr::Slt => self.p.bin(Op::Slt, a, c), Pr::Sle => self.p.bin(Op::Sle, a, c),
        };
        self.vx(r)
    }
    fn cast1(&mut self, k: Cast, sw: u16, dw: u16, x: &V) -> R<V> {
        Ok(match (k, x) {
            (Cast::Trunc, V::C(c)) => V::C(*c & mask(dw)),
            (Cast::ZExt, V::C(c)) => V::C(*c),
            (Cast::SExt, V::C(c)) => V::C(sext(*c, sw) as u128 & mask(dw)),
            (Cast::PtrToInt, V::C(c)) | (Cast::IntToPtr, V::C(c)) => V::C(*c & mask(dw)),
            (Cast::Trunc, V::E(e)) => { let r = self.p.extract(*e, 0, dw); self.vx(r) }
            (Cast::ZExt, V::E(e)) => { let r = self.p.zext(*e, dw); self.vx(r) }
            (Cast::SExt, V::E(e)) => { let r = self.p.sext(*e, dw); self.vx(r) }
            (Cast::PtrToInt, V::E(e)) | (Cast::IntToPtr, V::E(e)) => { if dw < sw { let r = self.p.extract(*e, 0, dw); self.vx(r) } else { let r = self.p.zext(*e, dw); self.vx(r) } }
            (Cast::UiToFp, V::C(c)) => V::C(if dw == 64 { (*c as f64).to_bits() as u128 } else { (*c as f32).to_bits() as u128 }),
            (Cast::SiToFp, V::C(c)) => { let s = sext(*c, sw); V::C(if dw == 64 { (s as f64).to_bits() as u128 } else { (s as f32).to_bits() as u128 }) }
            (Cast::FpToUi, V::C(c)) => { let f = if sw == 64 { f64::from_bits(*c as u64) } else { f32::from_bits(*c as u32) as f64 }; V::C((f as u128) & mask(dw)) }
            (Cast::FpToSi, V::C(c)) => { let f = if sw == 64 { f64::from_bits(*c as u64) } else { f32::from_bits(*c as u32) as f64 }; V::C((f as i128) as u128 & mask(dw)) }
            (Cast::FpExt, V::C(c)) => V::C((f32::from_bits(*c as u32) as f64).to_bits() as u128),
            (Cast::FpTrunc, V::C(c)) => V::C((f64::from_bits(*c as u64) as f32).to_bits() as u128),
            (k, x) => return bug(format!("cast {:?} of {:?}", k, x)),
        })
    }
    fn vec_of(&self, t: TyId) -> Option<(u64, TyId)> { if let Ty::Vector(n, e) = self.m.types[t as usize] { Some((n, e)) } else { None } }
    fn is_f(&self, t: TyId) -> bool { matches!(self.m.types[t as usize], Ty::Float | Ty::Double) }
    fn bitcast(&mut self, st: TyId, dt: TyId, x: V) -> R<V> {
        let fl = |v: Option<(u64, TyId)>| v;
        match (fl(self.vec_of(st)), fl(self.vec_of(dt))) {
            (None, None) => Ok(x),
            (Some((_, e)), None) => { if let V::A(v) = &x { let b = self.sw(e); if self.m.bits(st) > 128 { return bug("wide bitcast"); } Ok(self.join(v, b)) } else { bug("bitcast") } }
            (None, Some((n, e))) => { let w = self.sw(st); let b = self.sw(e); Ok(self.split(&x, w, b, n)) }
            (Some((n1, e1)), Some((n2, e2))) => {
                let (b1, b2) = (self.sw(e1), self.sw(e2));
                if b1 == b2 { return Ok(x); }
                let v = if let V::A(v) = &x { v.clone() } else { return bug("bitcast") };
                let mut out = vec![];
                if b1 > b2 { let k = (b1 / b2) as u64; for i in 0..n1 { if let V::A(p) = self.split(&v[i as usize], b1, b2, k) { out.extend(p.iter().cloned()); } } }
                else { let k = (b2 / b1) as usize; for i in 0..n2 as usize { out.push(self.join(&v[i * k..i * k + k], b1)); } }
                Ok(V::A(Rc::new(out)))
            }
        }
    }
    fn select1(&mut self, st: &mut State, c: &V, t: TyId, a: V, b: V) -> R<V> {
        match c {
            V::C(1) => return Ok(a), V::C(_) => return Ok(b),
            V::E(ce) => {
                match self.m.types[t as usize].clone() {
                    Ty::Struct(..) | Ty::Array(..) => { if self.decide(st, *ce)? { Ok(a) } else { Ok(b) } }
                    Ty::Vector(_, e) => { if let (V::A(x), V::A(y)) = (&a, &b) { let mut v = vec![]; for i in 0..x.len() { v.push(self.select1(st, c, e, x[i].clone(), y[i].clone())?); } Ok(V::A(Rc::new(v))) } else { bug("select") } }
                    Ty::Ptr => { if self.decide(st, *ce)? { Ok(a) } else { Ok(b) } }
                    _ => { let w = self.sw(t); let (x, y) = (self.ex(&a, w), self.ex(&b, w)); let r = self.p.ite(*ce, x, y); Ok(self.vx(r)) }
                }
            }
            V::A(cv) => { if let (V::A(x), V::A(y), Some((_, e))) = (&a, &b, self.vec_of(t)) { let mut v = vec![]; for i in 0..x.len() { v.push(self.select1(st, &cv[i], e, x[i].clone(), y[i].clone())?); } Ok(V::A(Rc::new(v))) } else { bug("select") } }
        }
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let from = st.fr.blk;
        let body = st.fr.body.clone();
        let b = &body.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals: Vec<V> = Vec::with_capacity(b.phis.len());
            for (_, _, inc) in &b.phis {
                let o = inc.iter().find(|(q, _)| *q == from).map(|x| &x.1).unwrap_or_else(|| panic!("phi without edge in {}", self.m.funs[st.fr.fun as usize].name));
                vals.push(self.val(&st.fr, o));
            }
            for ((d, _, _), v) in b.phis.iter().zip(vals) { st.fr.regs[*d as usize] = v; }
        }
        st.fr.prev = from; st.fr.blk = to; st.fr.ip = 0;
    }

    /// Run one state until its path ends.
    pub fn run(&mut self, st: &mut State) -> End {
        match self.run_inner(st) { Ok(()) => End::Done, Err(Stop::End(e)) => e }
    }
    pub fn backtrace(&self, st: &State) -> String {
        let mut v = vec![self.m.funs[st.fr.fun as usize].name.clone()];
        for f in st.stack.iter().rev().take(14) { v.push(self.m.funs[f.fun as usize].name.clone()); }
        v.join(" < ")
    }
    fn run_inner(&mut self, st: &mut State) -> R<()> {
        loop {
            if self.pause { self.pause = false; return Err(Stop::End(End::Paused)); }
            let body: *const Body = Rc::as_ptr(&st.fr.body);
            // bodies live as long as the module: the reference stays valid while frames come and go
            let body: &Body = unsafe { &*body };
            let code = &body.blocks[st.fr.blk as usize].code;
            let ins: &I = &code[st.fr.ip as usize];
            if st.par.is_some() && self.interrupt(st, ins)? { continue; }
            st.steps += 1; self.instrs += 1;
            if st.steps > st.limit {
                if st.steps > self.max_steps { return bug("step limit"); }
                // hangs are costly: what is left to explore after one gets little time
                let d = Instant::now() + std::time::Duration::from_secs(20);
                if self.deadline.map_or(true, |x| x > d) { self.deadline = Some(d); }
                let bt = self.backtrace(st);
                return Err(Stop::End(End::Fail("a task never comes back".into(), bt)));
            }
            if self.instrs & 0x1fff == 0 { self.pause = self.breadth; if self.instrs & 0xfe000 != 0 {} else if let Some(d) = self.deadline { if Instant::now() > d { return Err(Stop::End(End::Incomplete("time limit".into()))); } } }
            match ins {
                I::Nop => {}
                I::Alloca(d, n, al) => {
                    let a = (st.sp + al - 1) / al * al;
                    st.mem.map(a, (*n).max(1)); st.sp = a + n;
                    if st.sp > HEAP_BASE - 0x1000000 { return bug("stack exhausted"); }
                    st.fr.regs[*d as usize] = V::C(a as u128);
                }
                I::Load(d, t, p) => {
                    let pv = self.val(&st.fr, p);
                    let v = match &pv {
                        V::C(a) => self.load(st, *a as u64, *t)?,
                        V::E(e) => match self.load_sym(st, *e, *t)? { Some(v) => v, None => { let a = self.conc(st, &pv, "load address")?; self.load(st, a as u64, *t)? } },
                        _ => return bug("load from aggregate"),
                    };
                    st.fr.regs[*d as usize] = v;
                }
                I::Store(t, v, p) => {
                    let pv = self.val(&st.fr, p);
                    let a = self.conc(st, &pv, "store address")?;
                    let v = self.val(&st.fr, v);
                    self.store(st, a as u64, *t, &v)?;
                }
                I::Gep(d, base, off, terms) => {
                    let b = self.val(&st.fr, base);
                    let mut conc = true;
                    let mut acc = match &b { V::C(c) => (*c as u64).wrapping_add(*off), _ => { conc = false; 0 } };
                    if conc { for (o, w, sz) in terms { if let V::C(k) = self.val(&st.fr, o) { acc = acc.wrapping_add((sext(k, *w) as i64 as u64).wrapping_mul(*sz)); } else { conc = false; break; } } }
                    if conc { st.fr.regs[*d as usize] = V::C(acc as u128); }
                    else {
                        if let V::A(_) = b { return bug("vector gep"); }
                        let mut r = self.ex(&b, 64);
                        let k = self.p.c(64, *off as u128); r = self.p.bin(Op::Add, r, k);
                        for (o, w, sz) in terms {
                            let v = self.val(&st.fr, o); let mut e = self.ex(&v, *w);
                            if *w < 64 { e = self.p.sext(e, 64); } else if *w > 64 { e = self.p.extract(e, 0, 64); }
                            let s = self.p.c(64, *sz as u128); e = self.p.bin(Op::Mul, e, s);
                            r = self.p.bin(Op::Add, r, e);
                        }
                        st.fr.regs[*d as usize] = self.vx(r);
                    }
                }
                I::Bin(d, b, t, x, y) => {
                    let (x, y) = (self.val(&st.fr, x), self.val(&st.fr, y));
                    let v = if let (V::A(xs), V::A(ys)) = (&x, &y) {
                        let (_, e) = self.vec_of(*t).unwrap(); let w = self.sw(e); let f = self.is_f(e);
                        let mut v = vec![]; for i in 0..xs.len() { v.push(self.bin1(st, *b, w, &xs[i], &ys[i], f)?); } V::A(Rc::new(v))
                    } else { let w = self.sw(*t); let f = self.is_f(*t); self.bin1(st, *b, w, &x, &y, f)? };
                    st.fr.regs[*d as usize] = v;
                }
                I::Icmp(d, p, t, x, y) => {
                    let (x, y) = (self.val(&st.fr, x), self.val(&st.fr, y));
                    let v = if let (V::A(xs), V::A(ys)) = (&x, &y) {
                        let (_, e) = self.vec_of(*t).unwrap(); let w = self.sw(e);
                        let mut v = vec![]; for i in 0..xs.len() { v.push(self.icmp1(*p, w, &xs[i], &ys[i])); } V::A(Rc::new(v))
                    } else { let w = self.sw(*t); self.icmp1(*p, w, &x, &y) };
                    st.fr.regs[*d as usize] = v;
                }
                I::Fcmp(d, p, t, x, y) => {
                    let (x, y) = (self.val(&st.fr, x), self.val(&st.fr, y));
                    let (a, c) = (self.conc(st, &x, "float")?, self.conc(st, &y, "float")?);
                    let (a, c) = if self.sw(*t) == 64 { (f64::from_bits(a as u64), f64::from_bits(c as u64)) } else { (f32::from_bits(a as u32) as f64, f32::from_bits(c as u32) as f64) };
                    let un = a.is_nan() || c.is_nan();
                    let r = match p.as_str() { "oeq" => a == c, "one" => !un && a != c, "ogt" => a > c, "oge" => a >= c, "olt" => a < c, "ole" => a <= c, "ord" => !un, "uno" => un, "ueq" => un || a == c, "une" => un || a != c, "ugt" => un || a > c, "uge" => un || a >= c, "ult" => un || a < c, "ule" => un || a <= c, "true" => true, _ => false };
                    st.fr.regs[*d as usize] = V::C(r as u128);
                }
                I::Cast(d, k, s, t, x) => {
                    let x = self.val(&st.fr, x);
                    let v = if *k == Cast::Bit { self.bitcast(*s, *t, x)? }
                    else if let V::A(xs) = &x { let (e1, e2) = (self.vec_of(*s).unwrap().1, self.vec_of(*t).unwrap().1); let (a, b) = (self.sw(e1), self.sw(e2)); let mut v = vec![]; for y in xs.iter() { v.push(self.cast1(*k, a, b, y)?); } V::A(Rc::new(v)) }
                    else {
                        let x = if matches!(k, Cast::UiToFp | Cast::SiToFp | Cast::FpToUi | Cast::FpToSi) { V::C(self.conc(st, &x, "float conversion")?) } else { x };
                        let (a, b) = (self.sw(*s), self.sw(*t)); self.cast1(*k, a, b, &x)? };
                    st.fr.regs[*d as usize] = v;
                }
                I::Select(d, _ct, c, t, x, y) => {
                    let c = self.val(&st.fr, c); let (x, y) = (self.val(&st.fr, x), self.val(&st.fr, y));
                    let v = self.select1(st, &c, *t, x, y)?;
                    st.fr.regs[*d as usize] = v;
                }
                I::ExtractV(d, a, ix) => {
                    let mut v = self.val(&st.fr, a);
                    for i in ix { v = if let V::A(x) = &v { x[*i as usize].clone() } else { return bug("extractvalue") }; }
                    st.fr.regs[*d as usize] = v;
                }
                I::InsertV(d, _t, a, x, ix) => {
                    let a = self.val(&st.fr, a); let x = self.val(&st.fr, x);
                    st.fr.regs[*d as usize] = insert(a, &x, ix);
                }
                I::ExtractE(d, a, i) => {
                    let i = self.val(&st.fr, i); let i = self.conc(st, &i, "vector index")?;
                    let v = if let V::A(x) = self.val(&st.fr, a) { x[i as usize].clone() } else { return bug("extractelement") };
                    st.fr.regs[*d as usize] = v;
                }
                I::InsertE(d, _t, a, x, i) => {
                    let i = self.val(&st.fr, i); let i = self.conc(st, &i, "vector index")?;
                    let a = self.val(&st.fr, a); let x = self.val(&st.fr, x);
                    st.fr.regs[*d as usize] = insert(a, &x, &[i as u32]);
                }
                I::Shuffle(d, n0, a, b, mask, _e) => {
                    let (a, b) = (self.val(&st.fr, a), self.val(&st.fr, b));
                    let (x, y) = match (&a, &b) { (V::A(x), V::A(y)) => (x, y), _ => return bug("shuffle") };
                    let v: Vec<V> = mask.iter().map(|m| if *m < 0 { V::C(0) } else if (*m as u64) < *n0 { x[*m as usize].clone() } else { y[(*m as u64 - n0) as usize].clone() }).collect();
                    st.fr.regs[*d as usize] = V::A(Rc::new(v));
                }
                I::Mov(d, x) => { let v = self.val(&st.fr, x); st.fr.regs[*d as usize] = v; }
                I::Neg(d, t, x) => { let x = self.val(&st.fr, x); let c = self.conc(st, &x, "float")?; let w = self.sw(*t); st.fr.regs[*d as usize] = V::C(c ^ (1u128 << (w - 1))); }
                I::Rmw(d, op, t, p, v) => {
                    let pv = self.val(&st.fr, p); let a = self.conc(st, &pv, "atomic address")? as u64;
                    let v = self.val(&st.fr, v);
                    let old = self.load(st, a, *t)?; let w = self.sw(*t);
                    let nv = match op.as_str() {
                        "xchg" => v,
                        "add" => self.bin1(st, B::Add, w, &old, &v, false)?, "sub" => self.bin1(st, B::Sub, w, &old, &v, false)?,
                        "and" => self.bin1(st, B::And, w, &old, &v, false)?, "or" => self.bin1(st, B::Or, w, &old, &v, false)?, "xor" => self.bin1(st, B::Xor, w, &old, &v, false)?,
                        "nand" => { let x = self.bin1(st, B::And, w, &old, &v, false)?; self.bin1(st, B::Xor, w, &x, &V::C(mask(w)), false)? }
                        "max" | "min" | "umax" | "umin" => { let p = match op.as_str() { "max" => Pr::Sgt, "min" => Pr::Slt, "umax" => Pr::Ugt, _ => Pr::Ult }; let c = self.icmp1(p, w, &old, &v); self.select1(st, &c, *t, old.clone(), v)? }
                        o => return bug(format!("atomicrmw {}", o)),
                    };
                    self.store(st, a, *t, &nv)?;
                    st.fr.regs[*d as usize] = old;
                }
                I::CmpXchg(d, t, p, c, n) => {
                    let pv = self.val(&st.fr, p); let a = self.conc(st, &pv, "atomic address")? as u64;
                    let c = self.val(&st.fr, c); let n = self.val(&st.fr, n);
                    let old = self.load(st, a, *t)?; let w = self.sw(*t);
                    let eq = match self.icmp1(Pr::Eq, w, &old, &c) { V::C(x) => x == 1, V::E(e) => self.decide(st, e)?, _ => return bug("cmpxchg") };
                    if eq { self.store(st, a, *t, &n)?; }
                    st.fr.regs[*d as usize] = V::A(Rc::new(vec![old, V::C(eq as u128)]));
                }
                I::Br(l) => { self.jump(st, *l); continue; }
                I::CondBr(c, t, f) => {
                    let s = match self.val(&st.fr, c) { V::C(x) => x == 1, V::E(e) => self.decide(st, e)?, _ => return bug("br") };
                    self.jump(st, if s { *t } else { *f }); continue;
                }
                I::Switch(t, v, d, cs) => {
                    let v = self.val(&st.fr, v);
                    let target = match &v {
                        V::C(x) => cs.iter().find(|c| c.0 == *x).map(|c| c.1).unwrap_or(*d),
                        V::E(e) => {
                            let w = self.sw(*t);
                            // group the case values by target, decide one target at a time starting from the model's
                            let x = self.p.eval(*e, &st.model);
                            let tgt = cs.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*d);
                            let mut r = tgt;
                            let cond = self.switch_cond(*e, w, cs, *d, tgt);
                            if !self.decide(st, cond)? {
                                r = u32::MAX; // only when an earlier constraint excluded it
                                let mut tg: Vec<u32> = cs.iter().map(|c| c.1).collect(); tg.push(*d); tg.sort_unstable(); tg.dedup();
                                for t2 in tg { let c2 = self.switch_cond(*e, w, cs, *d, t2); if self.p.eval(c2, &st.model) == 1 { r = t2; break; } }
                            }
                            if r == u32::MAX { return bug("switch"); }
                            r
                        }
                        _ => return bug("switch"),
                    };
                    self.jump(st, target); continue;
                }
                I::Ret(v) => {
                    let r = v.as_ref().map(|v| self.val(&st.fr, v));
                    match st.stack.pop() {
                        None => {
                            let Some(par) = st.par.as_mut() else { return Ok(()) };
                            par.pass = false; par.wait = false;
                            if let Some((f, s, sp)) = par.other.take() { st.fr = f; st.stack = s; st.sp = sp; continue; }
                            let par = st.par.take().unwrap(); let left = par.left; let m = par.main; st.fr = m.0; st.stack = m.1; st.sp = m.2;
                            let (dst, normal) = match &st.fr.body.clone().blocks[st.fr.blk as usize].code[st.fr.ip as usize] { I::Call { dst, normal, .. } => (*dst, *normal), _ => return bug("threads") };
                            if dst != NODST { st.fr.regs[dst as usize] = V::C(left as u128); }
                            match normal { Some(n) => { self.jump(st, n); } None => st.fr.ip += 1 }
                            continue;
                        }
                        Some(f) => {
                            st.sp = st.fr.sp;
                            let (dst, normal) = (st.fr.dst, st.fr.normal);
                            st.fr = Rc::try_unwrap(f).unwrap_or_else(|f| (*f).clone());
                            if dst != NODST { if let Some(r) = r { st.fr.regs[dst as usize] = r; } }
                            match normal { Some(n) => { self.jump(st, n); } None => st.fr.ip += 1 }
                            continue;
                        }
                    }
                }
                I::Unreachable => return bug(format!("unreachable executed in {}", self.backtrace(st))),
                I::Asm { dst, text, args, ret } => {
                    let av: Vec<V> = args.iter().map(|(_, o)| self.val(&st.fr, o)).collect();
                    if *dst != NODST {
                        let v = if text.is_empty() && !av.is_empty() { av[0].clone() } else { self.kv(&K::Undef, *ret) };
                        st.fr.regs[*dst as usize] = v;
                    }
                }
                I::Call { dst, ret, callee, fid, args, normal } => {
                    let f = match fid { Some(f) => *f, None => {
                        let cv = self.val(&st.fr, callee);
                        let a = self.conc(st, &cv, "call target")? as u64;
                        if a < FUN_BASE || (a - FUN_BASE) / 16 >= self.m.funs.len() as u64 { return bug(format!("call of {:#x} in {}", a, self.backtrace(st))); }
                        ((a - FUN_BASE) / 16) as u32 } };
                    if self.intr[f as usize].is_none() { let x = self.classify(f); self.intr[f as usize] = Some(x); }
                    match self.intr[f as usize].as_ref().unwrap() {
                        In::Nop => { if *dst != NODST { let v = self.kv(&K::Undef, *ret); st.fr.regs[*dst as usize] = v; } }
                        In::No => {
                            let body = self.m.body(f);
                            self.used.insert(f);
                            let mut regs = vec![V::C(0); body.nregs as usize];
                            for (i, (_, o)) in args.iter().enumerate() { if i < body.params.len() { regs[body.params[i] as usize] = self.val(&st.fr, o); } }
                            let nf = Frame { fun: f, body, blk: 0, ip: 0, prev: 0, regs, dst: *dst, normal: *normal, sp: st.sp };
                            let old = std::mem::replace(&mut st.fr, nf);
                            st.stack.push(Rc::new(old));
                            if st.stack.len() > 4000 { let bt = self.backtrace(st); return Err(Stop::End(End::Fail("stack overflow".into(), bt.chars().take(2000).collect()))); }
                            continue;
                        }
                        In::Memcpy | In::Memset | In::Call(_) => {
                            let av: Vec<V> = args.iter().map(|(_, o)| self.val(&st.fr, o)).collect();
                            let tys: Vec<TyId> = args.iter().map(|a| a.0).collect();
                            let kind = self.intr[f as usize].clone().unwrap();
                            if matches!(&kind, In::Call(n) if &**n == "sx_par") { self.fork_threads(st, &av)?; continue; }
                            let r = match kind {
                                In::Memcpy => { let n = self.conc(st, &av[2], "copy length")? as u64; let d = self.conc(st, &av[0], "copy target")? as u64; let s = self.conc(st, &av[1], "copy source")? as u64; st.mem.copy(d, s, n)?; av[0].clone() }
                                In::Memset => { let n = self.conc(st, &av[2], "set length")? as u64; let d = self.conc(st, &av[0], "set target")? as u64; match &av[1] { V::C(c) => st.mem.fill(d, n, *c as u8)?, v => { let e = self.ex(v, 8); let e = if self.p.w(e) > 8 { self.p.extract(e, 0, 8) } else { e }; for i in 0..n { st.mem.set_byte(d + i, 0, e)?; } } } av[0].clone() }
                                In::Call(name) => self.call_intr(st, &name, &av, &tys, *ret)?,
                                _ => unreachable!(),
                            };
                            if *dst != NODST { st.fr.regs[*dst as usize] = r; }
                        }
                    }
                    if let Some(n) = normal { self.jump(st, *n); continue; }
                }
            }
            st.fr.ip += 1;
        }
    }
    /// sx_par(f, g, a, b, n): runs f(a) and g(b) as two threads, with at most n interruptions; returns how many are left.
    fn fork_threads(&mut self, st: &mut State, a: &[V]) -> R<()> {
        if st.par.is_some() { return bug("threads inside threads"); }
        let mut v = vec![];
        for x in a { v.push(self.conc(st, x, "threads")? as u64); }
        let mut t = vec![];
        for i in 0..2 {
            let fun = ((v[i] - FUN_BASE) / 16) as u32;
            let body = self.m.body(fun); self.used.insert(fun);
            let mut regs = vec![V::C(0); body.nregs as usize];
            regs[body.params[0] as usize] = V::C(v[2 + i] as u128);
            let sp = st.sp + i as u64 * 0x100_0000;
            t.push((Frame { fun, body, blk: 0, ip: 0, prev: 0, regs, dst: NODST, normal: None, sp }, sp));
        }
        let (g, gsp) = t.pop().unwrap(); let (f, _) = t.pop().unwrap();
        let main = (std::mem::replace(&mut st.fr, f), std::mem::take(&mut st.stack), st.sp);
        st.par = Some(Box::new(Par { other: Some((g, vec![], gsp)), main, left: v[4], asked: None, pass: false, wait: false }));
        Ok(())
    }
    /// Lets the other thread go on if the solver wants it to, before an access to what threads share.
    fn interrupt(&mut self, st: &mut State, ins: &I) -> R<bool> {
        let par = st.par.as_mut().unwrap();
        if par.other.is_none() { return Ok(false); }
        let mut go = std::mem::take(&mut par.wait);
        if !go {
            let p = match ins { I::Load(_, _, p) | I::Store(_, _, p) | I::Rmw(_, _, _, p, _) | I::CmpXchg(_, _, p, _, _) => p, _ => return Ok(false) };
            let V::C(a) = self.val(&st.fr, p) else { return Ok(false) };
            if !self.shared.iter().any(|(x, y)| a as u64 >= *x && (a as u64) < *y) { return Ok(false); }
            let par = st.par.as_mut().unwrap();
            if std::mem::take(&mut par.pass) || par.left == 0 { return Ok(false); }
            let e = match par.asked { Some(e) => e, None => {
                let e = self.fresh(st, "interrupted", 1)[0];
                let k = self.p.c(8, 2); let c = self.p.bin(Op::Ult, e, k); if self.p.cv(c).is_none() { st.pc.push(c); }
                let k = self.p.c(8, 1); self.p.bin(Op::Eq, e, k) } };
            st.par.as_mut().unwrap().asked = Some(e);
            go = self.decide(st, e)?;
            let par = st.par.as_mut().unwrap();
            par.asked = None; par.pass = true;
            if go { par.left -= 1; }
        }
        if !go { return Ok(false); }
        let par = st.par.as_mut().unwrap();
        let (f, s, sp) = par.other.take().unwrap();
        par.other = Some((std::mem::replace(&mut st.fr, f), std::mem::replace(&mut st.stack, s), st.sp)); st.sp = sp;
        Ok(true)
    }
    fn switch_cond(&mut self, e: Ex, w: u16, cs: &[(u128, u32)], d: u32, t: u32) -> Ex {
        let mut c = self.p.c(1, 0);
        if t == d {
            // default: none of the values that lead elsewhere
            for (k, l) in cs { if *l != d { let k = self.p.c(w, *k); let q = self.p.bin(Op::Eq, e, k); c = self.p.bin(Op::Or, c, q); } }
            return self.p.not(c);
        }
        for (k, l) in cs { if *l == t { let k = self.p.c(w, *k); let q = self.p.bin(Op::Eq, e, k); c = self.p.bin(Op::Or, c, q); } }
        c
    }
    fn classify(&self, f: u32) -> In {
        let fun = &self.m.funs[f as usize];
        let n = fun.name.as_str();
        if let Some(r) = n.strip_prefix("llvm.") {
            if r.starts_with("memcpy") || r.starts_with("memmove") { return In::Memcpy; }
            if r.starts_with("memset") { return In::Memset; }
            for x in ["lifetime", "assume", "experimental.noalias", "dbg.", "x86.sse2.pause", "prefetch", "invariant", "donothing", "stackrestore", "stacksave", "experimental.guard"] { if r.starts_with(x) { return In::Nop; } }
            let base: Vec<&str> = r.split('.').collect();
            // keep everything before the first type suffix
            let mut k = base.len();
            for (i, b) in base.iter().enumerate() { let bb = b.as_bytes(); if i > 0 && ((bb[0] == b'i' && b[1..].parse::<u32>().is_ok()) || (bb[0] == b'v' && bb.len() > 1 && bb[1].is_ascii_digit()) || *b == "p0" || *b == "f64" || *b == "f32") { k = i; break; } }
            return In::Call(format!("llvm.{}", base[..k].join(".")).into());
        }
        for (pat, to) in [("9panicking9panic_fmt", "panic_fmt"), ("9panicking18panic_nounwind_fmt", "panic_nounwind"), ("9panicking19panic_cannot_unwind", "panic_nounwind"), ("9panicking14panic_nounwind", "panic_nounwind"), ("3std9panicking11begin_panic", "begin_panic"), ("_7___rustc12___rust_alloc", "rust_alloc"), ("_7___rustc14___rust_dealloc", "rust_dealloc"), ("_7___rustc14___rust_realloc", "rust_realloc"), ("_7___rustc19___rust_alloc_zeroed", "rust_alloc"), ("_7___rustc35___rust_no_alloc_shim_is_unstable_v2", "nop"),
            ("5alloc19handle_alloc_error", "alloc_error"), ("7process5abort", "abort"),
            ("6thread21available_parallelism", "parallelism"),
            ] {
            if n.ends_with(pat) || (to == "begin_panic" && n.contains(pat) && n.starts_with("_RINv")) { return In::Call(to.into()); }
        }
        if n.starts_with("_R") && (n.contains("4core4hash3sip") || n.contains("13DefaultHasher")) && n.contains("6Hasher") {
            if n.contains("6Hasher5write") || n.contains("6Hasher9write_str") { return In::Nop; }
            if n.contains("6Hasher6finish") { return In::Call("hash_finish".into()); }
        }
        if matches!(n, "memcpy" | "memmove") { return In::Memcpy; }
        if n == "memset" { return In::Memset; }
        if n.starts_with("sx_") || matches!(n, "bcmp" | "memcmp" | "strlen") { return In::Call(n.into()); }
        if fun.decl { return In::Call(n.into()); }
        In::No
    }
    fn fresh(&mut self, st: &mut State, name: &str, n: u32) -> Vec<Ex> {
        let mut v = vec![];
        st.inputs.push((name.into(), st.nvars, n));
        for _ in 0..n {
            let e = match &self.replay { Some(r) => { let b = r.get(st.nvars as usize).copied().unwrap_or(0); self.p.c(8, b as u128) } None => self.p.var(st.nvars) };
            st.nvars += 1; v.push(e);
        }
        st.model.resize(st.nvars as usize, 0);
        v
    }
    fn ovf(&mut self, st: &mut State, name: &str, w: u16, a: &V, b: &V) -> R<V> {
        let _ = st;
        if let (V::C(x), V::C(y)) = (a, b) {
            if w <= 64 {
                let m = mask(w);
                let (r, o) = if name.contains("uadd") { let r = x + y; (r & m, r > m) } else if name.contains("usub") { (x.wrapping_sub(*y) & m, x < y) } else if name.contains("umul") { let r = x * y; (r & m, r > m) }
                else { let (sx, sy) = (sext(*x, w), sext(*y, w)); let r = if name.contains("sadd") { sx + sy } else if name.contains("ssub") { sx - sy } else { sx * sy }; let t = r as u128 & m; (t, sext(t, w) != r) };
                return Ok(V::A(Rc::new(vec![V::C(r), V::C(o as u128)])));
            }
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let (r, o);
        if name.contains("uadd") { r = self.p.bin(Op::Add, x, y); o = self.p.bin(Op::Ult, r, x); }
        else if name.contains("usub") { r = self.p.bin(Op::Sub, x, y); o = self.p.bin(Op::Ult, x, y); }
        else if w <= 64 {
            let s = !name.contains("umul");
            let (xw, yw) = if s { (self.p.sext(x, 2 * w), self.p.sext(y, 2 * w)) } else { (self.p.zext(x, 2 * w), self.p.zext(y, 2 * w)) };
            let op = if name.contains("mul") { Op::Mul } else if name.contains("add") { Op::Add } else { Op::Sub };
            let full = self.p.bin(op, xw, yw);
            r = self.p.extract(full, 0, w);
            let back = if s { self.p.sext(r, 2 * w) } else { self.p.zext(r, 2 * w) };
            let eq = self.p.bin(Op::Eq, back, full);
            o = self.p.not(eq);
        } else { return bug("overflow intrinsic on a wide integer"); }
        Ok(V::A(Rc::new(vec![self.vx(r), self.vx(o)])))
    }
    fn call_intr(&mut self, st: &mut State, name: &str, a: &[V], tys: &[TyId], ret: TyId) -> R<V> {
        // vectors: apply lane by lane
        if name.starts_with("llvm.") && !name.starts_with("llvm.vector.reduce") && !a.is_empty() {
            if let (V::A(x), Some((n, e))) = (&a[0], tys.get(0).and_then(|t| self.vec_of(*t))) {
                let re = self.vec_of(ret).map(|x| x.1).unwrap_or(ret);
                let x = x.clone(); let mut out = vec![];
                for i in 0..n as usize {
                    let lane: Vec<V> = a.iter().map(|v| if let V::A(l) = v { l[i].clone() } else { v.clone() }).collect();
                    let _ = &x;
                    let lt: Vec<TyId> = tys.iter().map(|t| self.vec_of(*t).map(|x| x.1).unwrap_or(*t)).collect();
                    let _ = e;
                    out.push(self.call_intr(st, name, &lane, &lt, re)?);
                }
                return Ok(V::A(Rc::new(out)));
            }
        }
        let w = tys.first().map(|t| match self.m.types[*t as usize] { Ty::Int(w) => w, Ty::Ptr => 64, _ => 64 }).unwrap_or(0);
        match name {
            "nop" => Ok(V::C(0)),
            "sx_alloc" | "rust_alloc" => { let n = self.size_bound(st, &a[0], "allocation size")?; let al = self.conc(st, &a[1], "allocation align")? as u64; let p = self.alloc(st, n, al)?; Ok(V::C(p as u128)) }
            "sx_dealloc" | "rust_dealloc" => { if let V::C(p) = &a[0] { self.release(st, *p as u64)?; } if let (V::C(p), V::C(n)) = (&a[0], &a[1]) { st.mem.unmap(*p as u64, *n as u64); } Ok(V::C(0)) }
            "sx_realloc" | "rust_realloc" => {
                let p = self.conc(st, &a[0], "realloc")? as u64; let sym = !matches!(a[1], V::C(_)); let old = self.size_bound(st, &a[1], "realloc old size")?; let al = self.conc(st, &a[2], "realloc align")? as u64; let n = self.size_bound(st, &a[3], "realloc size")?;
                let q = self.alloc_in(st, n, al, p >= OWN_BASE && p < OWN_END)?; st.mem.copy(q, p, old.min(n))?; self.release(st, p)?; if !sym { st.mem.unmap(p, old); } Ok(V::C(q as u128))
            }
            "malloc" => { let n = self.conc(st, &a[0], "malloc")? as u64; let p = self.alloc(st, n, 16)?; Ok(V::C(p as u128)) }
            "calloc" => { let n = self.conc(st, &a[0], "calloc")? as u64; let m = self.conc(st, &a[1], "calloc")? as u64; let p = self.alloc(st, n * m, 16)?; Ok(V::C(p as u128)) }
            "free" => Ok(V::C(0)),
            "posix_memalign" => { let p = self.conc(st, &a[0], "memalign")? as u64; let al = self.conc(st, &a[1], "memalign")? as u64; let n = self.conc(st, &a[2], "memalign")? as u64; let q = self.alloc(st, n, al)?; st.mem.store_c(p, 8, q as u128)?; Ok(V::C(0)) }
            // ---- harness interface
            "sx_bytes" => {
                let p = self.conc(st, &a[0], "sx_bytes")? as u64; let n = self.conc(st, &a[1], "sx_bytes")? as u64;
                let (np, nn) = (self.conc(st, &a[2], "sx_bytes")? as u64, self.conc(st, &a[3], "sx_bytes")? as u64);
                let nm = self.cstr(st, np, nn)?;
                let v = self.fresh(st, &nm, n as u32);
                for (i, e) in v.into_iter().enumerate() { match self.p.cv(e) { Some(c) => st.mem.set_byte(p + i as u64, c as u8, 0)?, None => st.mem.set_byte(p + i as u64, 0, e)? } }
                Ok(V::C(0))
            }
            "sx_choice" => {
                let n = self.conc(st, &a[0], "sx_choice")?;
                if n <= 1 { return Ok(V::C(0)); }
                if n > 256 { return bug("sx_choice"); }
                let (np, nn) = (self.conc(st, &a[1], "sx_choice")? as u64, self.conc(st, &a[2], "sx_choice")? as u64);
                let nm = self.cstr(st, np, nn)?;
                let e = self.fresh(st, &nm, 1)[0];
                if n < 256 { let k = self.p.c(8, n); let c = self.p.bin(Op::Ult, e, k); if self.p.cv(c).is_none() { st.pc.push(c); } }
                let r = self.p.zext(e, 64);
                Ok(self.vx(r))
            }
            "sx_conc" => { let c = self.conc(st, &a[0], "sx_conc")?; Ok(V::C(c)) }
            "sx_assume" => {
                let c = self.bool_of(&a[0], w);
                if self.assume(st, c)? { Ok(V::C(0)) } else { Err(Stop::End(End::Pruned)) }
            }
            "sx_is_concrete" => Ok(V::C(matches!(a[0], V::C(_)) as u128)),
            "sx_fail" => { let (p, n) = (self.conc(st, &a[0], "")? as u64, self.conc(st, &a[1], "")? as u64); let s = self.cstr(st, p, n)?; let bt = self.backtrace(st); Err(Stop::End(End::Fail(s, bt))) }
            "sx_stop" => Err(Stop::End(End::Done)),
            "sx_limit" => { let (p, n) = (self.conc(st, &a[0], "")? as u64, self.conc(st, &a[1], "")? as u64); let s = self.cstr(st, p, n)?; bug(format!("harness limit: {}", s)) }
            "sx_own" => { let was = st.own_on; st.own_on = matches!(a[0], V::C(c) if c & 1 == 1); Ok(V::C(was as u128)) }
            "sx_live" => Ok(V::C(st.live as u128)),
            // 1: a task starts to run, 0: it is back
            "sx_slice" => {
                if matches!(a[0], V::C(c) if c & 1 == 1) { st.slice = st.steps; st.limit = (st.steps + SLICE).min(self.max_steps); } else { st.max_slice = st.max_slice.max(st.steps - st.slice); st.limit = self.max_steps; }
                Ok(V::C(0))
            }
            "sx_cover" => { let (p, n) = (self.conc(st, &a[0], "")? as u64, self.conc(st, &a[1], "")? as u64); let s = self.cstr(st, p, n)?; let l = self.label(&s); if !st.covers.contains(&l) { st.covers.push(l); } Ok(V::C(0)) }
            "sx_note" => { let (p, n) = (self.conc(st, &a[0], "")? as u64, self.conc(st, &a[1], "")? as u64); let s = self.cstr(st, p, n)?; if self.tracing { eprintln!("note {}", s); } st.trace.push(s.into()); Ok(V::C(0)) }
            "sx_out" => {
                let (p, n) = (self.conc(st, &a[0], "sx_out")? as u64, self.conc(st, &a[1], "sx_out length")? as u64);
                for i in 0..n { let (b, e) = st.mem.byte(p + i)?; st.out.push((b as u32, e)); }
                Ok(V::C(0))
            }
            // ---- runtime
            "panic_fmt" | "panic_nounwind" | "begin_panic" => {
                let mut loc = String::new();
                let li = if name == "begin_panic" { 2 } else { 2 };
                for i in [li, 1usize] { if let Some(V::C(l)) = a.get(i) { if let Ok(s) = self.location(st, *l as u64) { loc = s; break; } } }
                let bt = self.backtrace(st);
                Err(Stop::End(End::Fail(format!("panic at {}", loc), bt)))
            }
            "abort" | "alloc_error" => { let bt = self.backtrace(st); Err(Stop::End(End::Fail(name.to_string(), bt))) }
            "llvm.trap" | "llvm.ubsantrap" => { let bt = self.backtrace(st); Err(Stop::End(End::Fail("trap".into(), bt))) }
            "hash_finish" => Ok(V::C(0x5bd1_e995_7654_3210)),
            "parallelism" => bug("available_parallelism not modelled"),
            "sched_getaffinity" => {
                let n = self.conc(st, &a[1], "")? as u64; let p = self.conc(st, &a[2], "")? as u64; st.mem.fill(p, n, 0)?; st.mem.store_c(p, 1, 1)?; Ok(V::C(0))
            }
            "getenv" | "secure_getenv" => Ok(V::C(0)),
            "pthread_mutex_lock" | "pthread_mutex_unlock" | "pthread_rwlock_rdlock" | "pthread_rwlock_unlock" | "pthread_setspecific" | "__cxa_thread_atexit_impl" | "pthread_atfork" | "sched_yield" | "pthread_key_delete" => Ok(V::C(0)),
            "pthread_getspecific" => Ok(V::C(0)),
            "pthread_key_create" => { let p = self.conc(st, &a[0], "")? as u64; st.mem.store_c(p, 4, 1)?; Ok(V::C(0)) }
            "pthread_self" | "gettid" => Ok(V::C(1)),
            "__errno_location" => { let p = self.alloc(st, 8, 8)?; st.mem.store_c(p, 4, 2)?; Ok(V::C(p as u128)) } // ENOENT
            "open64" | "open" => Ok(V::C(mask(32))), // no files: used for cgroup limits only
            "sysconf" => Ok(V::C(1)),
            "clock_gettime" => { let p = self.conc(st, &a[1], "")? as u64; st.mem.store_c(p, 8, 1_000_000)?; st.mem.store_c(p + 8, 8, 0)?; Ok(V::C(0)) }
            "write" => { if self.tracing { let p = self.conc(st, &a[1], "")? as u64; let n = self.conc(st, &a[2], "")? as u64; let s = self.cstr(st, p, n)?; eprint!("{}", s); } Ok(a[2].clone()) }
            "syscall" => {
                let n = self.conc(st, &a[0], "")?;
                if n == 318 { // getrandom: arbitrary but fixed bytes, different for every call
                    let p = self.conc(st, &a[1], "")? as u64; let k = self.conc(st, &a[2], "")? as u64;
                    self.random(st, p, k)?; return Ok(V::C(k as u128));
                }
                if n == 186 { return Ok(V::C(1)); }
                if n == 202 { // waits for the other thread, if there is one
                    let op = self.conc(st, &a[2], "")? & 127;
                    if let Some(p) = st.par.as_mut() { if (op == 0 || op == 9) && p.other.is_some() { p.wait = true; } }
                    return Ok(V::C(0)); } // futex wake (a wait would mean a deadlock: reported by the step limit)
                bug(format!("syscall {}", n))
            }
            "getrandom" => { let p = self.conc(st, &a[0], "")? as u64; let k = self.conc(st, &a[1], "")? as u64; self.random(st, p, k)?; Ok(V::C(k as u128)) }
            "bcmp" => {
                let n = self.conc(st, &a[2], "compare length")? as u64; let x = self.conc(st, &a[0], "compare")? as u64; let y = self.conc(st, &a[1], "compare")? as u64;
                let mut c = self.p.c(1, 1);
                for i in 0..n {
                    let (b1, e1) = st.mem.byte(x + i)?; let (b2, e2) = st.mem.byte(y + i)?;
                    if e1 == 0 && e2 == 0 { if b1 != b2 { return Ok(V::C(1)); } continue; }
                    let p = if e1 != 0 { e1 } else { self.p.c(8, b1 as u128) }; let q = if e2 != 0 { e2 } else { self.p.c(8, b2 as u128) };
                    let e = self.p.bin(Op::Eq, p, q); c = self.p.bin(Op::And, c, e);
                    if self.p.cv(c) == Some(0) { return Ok(V::C(1)); }
                }
                let nc = self.p.not(c); let r = self.p.zext(nc, 32); Ok(self.vx(r))
            }
            "memcmp" => {
                let n = self.conc(st, &a[2], "compare length")? as u64; let x = self.conc(st, &a[0], "compare")? as u64; let y = self.conc(st, &a[1], "compare")? as u64;
                let mut parts: Vec<(Ex, Ex)> = vec![]; let mut tail = 0u32;
                for i in 0..n {
                    let (b1, e1) = st.mem.byte(x + i)?; let (b2, e2) = st.mem.byte(y + i)?;
                    if e1 == 0 && e2 == 0 { if b1 != b2 { tail = if b1 < b2 { u32::MAX } else { 1 }; break; } continue; }
                    let p = if e1 != 0 { e1 } else { self.p.c(8, b1 as u128) }; let q = if e2 != 0 { e2 } else { self.p.c(8, b2 as u128) };
                    parts.push((p, q));
                }
                let mut r = self.p.c(32, tail as u128);
                for (p, q) in parts.into_iter().rev() {
                    let eq = self.p.bin(Op::Eq, p, q); let lt = self.p.bin(Op::Ult, p, q);
                    let m1 = self.p.c(32, u32::MAX as u128); let o = self.p.c(32, 1);
                    let d = self.p.ite(lt, m1, o); r = self.p.ite(eq, r, d);
                }
                Ok(self.vx(r))
            }
            "strlen" => { let p = self.conc(st, &a[0], "")? as u64; let mut n = 0; loop { let (b, e) = st.mem.byte(p + n)?; if e != 0 { return bug("strlen of symbolic data"); } if b == 0 { break; } n += 1; } Ok(V::C(n as u128)) }
            // ---- llvm
            "llvm.threadlocal.address" | "llvm.launder" | "llvm.ssa.copy" | "llvm.expect" | "llvm.ptrmask" if name != "llvm.ptrmask" => Ok(a[0].clone()),
            "llvm.ptrmask" => self.bin1(st, B::And, 64, &a[0], &a[1], false),
            "llvm.is.constant" => Ok(V::C(0)),
            "llvm.objectsize" => Ok(V::C(if matches!(a[1], V::C(1)) { 0 } else { u64::MAX as u128 })),
            n if n.contains(".with.overflow") => self.ovf(st, n, w, &a[0], &a[1]),
            "llvm.umax" | "llvm.umin" | "llvm.smax" | "llvm.smin" => {
                let p = match name { "llvm.umax" => Pr::Ugt, "llvm.umin" => Pr::Ult, "llvm.smax" => Pr::Sgt, _ => Pr::Slt };
                let c = self.icmp1(p, w, &a[0], &a[1]); self.select1(st, &c, tys[0], a[0].clone(), a[1].clone())
            }
            "llvm.ucmp" | "llvm.scmp" => {
                let (l, g) = if name == "llvm.ucmp" { (Pr::Ult, Pr::Ugt) } else { (Pr::Slt, Pr::Sgt) };
                let rw = self.sw(ret);
                let lt = self.icmp1(l, w, &a[0], &a[1]); let gt = self.icmp1(g, w, &a[0], &a[1]);
                let z = self.select1(st, &gt, ret, V::C(1), V::C(0))?;
                self.select1(st, &lt, ret, V::C(mask(rw)), z)
            }
            "llvm.uadd.sat" | "llvm.usub.sat" => {
                let add = name == "llvm.uadd.sat";
                let o = self.ovf(st, if add { "uadd" } else { "usub" }, w, &a[0], &a[1])?;
                if let V::A(v) = o { self.select1(st, &v[1], tys[0], V::C(if add { mask(w) } else { 0 }), v[0].clone()) } else { unreachable!() }
            }
            "llvm.abs" => { let c = self.icmp1(Pr::Slt, w, &a[0], &V::C(0)); let n = self.bin1(st, B::Sub, w, &V::C(0), &a[0], false)?; self.select1(st, &c, tys[0], n, a[0].clone()) }
            "llvm.ctpop" => match &a[0] { V::C(c) => Ok(V::C(c.count_ones() as u128)), v => {
                let e = self.ex(v, w); let mut r = self.p.c(w, 0);
                for i in 0..w { let b = self.p.extract(e, i, 1); let b = self.p.zext(b, w); r = self.p.bin(Op::Add, r, b); } Ok(self.vx(r)) } },
            "llvm.ctlz" => match &a[0] { V::C(c) => Ok(V::C((c.leading_zeros() - (128 - w as u32)) as u128)), v => {
                let e = self.ex(v, w); let mut r = self.p.c(w, w as u128);
                for i in 0..w { let b = self.p.extract(e, i, 1); let k = self.p.c(w, (w - 1 - i) as u128); r = self.p.ite(b, k, r); } Ok(self.vx(r)) } },
            "llvm.cttz" => match &a[0] { V::C(c) => Ok(V::C(if *c == 0 { w as u128 } else { c.trailing_zeros() as u128 })), v => {
                let e = self.ex(v, w); let mut r = self.p.c(w, w as u128);
                for i in (0..w).rev() { let b = self.p.extract(e, i, 1); let k = self.p.c(w, i as u128); r = self.p.ite(b, k, r); } Ok(self.vx(r)) } },
            "llvm.bswap" => { let e = self.ex(&a[0], w); let mut r: Option<Ex> = None; for i in (0..w / 8).rev() { let b = self.p.extract(e, i * 8, 8); r = Some(match r { None => b, Some(l) => self.p.concat(b, l) }); } Ok(self.vx(r.unwrap())) }
            "llvm.bitreverse" => { let e = self.ex(&a[0], w); let mut r: Option<Ex> = None; for i in (0..w).rev() { let b = self.p.extract(e, i, 1); r = Some(match r { None => b, Some(l) => self.p.concat(b, l) }); } Ok(self.vx(r.unwrap())) }
            "llvm.fshl" | "llvm.fshr" => {
                let s = self.conc(st, &a[2], "funnel shift")? % w as u128; let s = s as u16;
                let s = if name == "llvm.fshr" { w - s } else { s };
                if s == 0 { return Ok(a[0].clone()); }
                if s == w { return Ok(a[1].clone()); }
                let (h, l) = (self.ex(&a[0], w), self.ex(&a[1], w));
                let hi = self.p.extract(h, 0, w - s); let lo = self.p.extract(l, w - s, s);
                let r = self.p.concat(hi, lo); Ok(self.vx(r))
            }
            n if n.starts_with("llvm.vector.reduce.") => {
                let op = &n["llvm.vector.reduce.".len()..];
                let (_, e) = self.vec_of(*tys.last().unwrap()).unwrap(); let w = self.sw(e);
                let v = if let V::A(v) = a.last().unwrap() { v.clone() } else { return bug("reduce") };
                let mut r = v[0].clone();
                for x in &v[1..] { r = match op { "or" => self.bin1(st, B::Or, w, &r, x, false)?, "and" => self.bin1(st, B::And, w, &r, x, false)?, "add" => self.bin1(st, B::Add, w, &r, x, false)?, "xor" => self.bin1(st, B::Xor, w, &r, x, false)?, "mul" => self.bin1(st, B::Mul, w, &r, x, false)?,
                    "umax" | "umin" | "smax" | "smin" => { let p = match op { "umax" => Pr::Ugt, "umin" => Pr::Ult, "smax" => Pr::Sgt, _ => Pr::Slt }; let c = self.icmp1(p, w, &r, x); self.select1(st, &c, e, r.clone(), x.clone())? }
                    o => return bug(format!("reduce {}", o)) }; }
                Ok(r)
            }
            "llvm.x86.sse2.pmovmskb.128" | "llvm.x86.sse2.pmovmskb" => bug("pmovmskb"),
            _ => bug(format!("call of external {} from {}", name, self.backtrace(st))),
        }
    }
    fn random(&mut self, st: &mut State, p: u64, k: u64) -> R<()> {
        for i in 0..k { st.rng = st.rng.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); st.mem.set_byte(p + i, (st.rng >> 33) as u8, 0)?; }
        Ok(())
    }
    fn bool_of(&mut self, v: &V, w: u16) -> Ex { let e = self.ex(v, w); if self.p.w(e) == 1 { return e; } let z = self.p.c(self.p.w(e), 0); let q = self.p.bin(Op::Eq, e, z); self.p.not(q) }
    fn location(&mut self, st: &State, l: u64) -> R<String> {
        let f = st.mem.load_c(l, 8)?; let n = st.mem.load_c(l + 8, 8)?; let line = st.mem.load_c(l + 16, 4)?; let col = st.mem.load_c(l + 20, 4)?;
        match (f, n, line, col) { (Some(f), Some(n), Some(l), Some(c)) if n < 400 => { let s = self.cstr(st, f as u64, n as u64)?; Ok(format!("{}:{}:{}", s.trim_end_matches('\0'), l, c)) } _ => bug("location") }
    }
    /// A value of the observed output trace under the path's model.
    pub fn outputs(&mut self, st: &State) -> Vec<u8> { st.out.iter().map(|(b, e)| if *e != 0 { self.p.eval(*e, &st.model) as u8 } else { *b as u8 }).collect() }
    pub fn uuid(&mut self, st: &mut State) -> u64 { st.uuid += 1; st.uuid }
}
fn bop(b: B) -> Op { match b { B::Add => Op::Add, B::Sub => Op::Sub, B::Mul => Op::Mul, B::UDiv => Op::UDiv, B::SDiv => Op::SDiv, B::URem => Op::URem, B::SRem => Op::SRem, B::Shl => Op::Shl, B::LShr => Op::LShr, B::AShr => Op::AShr, B::And => Op::And, B::Or => Op::Or, B::Xor => Op::Xor, _ => panic!("float op") } }
fn insert(a: V, x: &V, ix: &[u32]) -> V {
    if ix.is_empty() { return x.clone(); }
    if let V::A(mut r) = a { let v = Rc::make_mut(&mut r); let old = std::mem::replace(&mut v[ix[0] as usize], V::C(0)); v[ix[0] as usize] = insert(old, x, &ix[1..]); V::A(r) } else { panic!("insert into scalar") }
}
