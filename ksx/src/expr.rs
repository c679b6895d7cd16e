//! Hash-consed bit-vector expressions over 8-bit symbolic inputs, with local simplification.
use std::collections::HashMap;
use std::rc::Rc;

pub type Ex = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const, Var, Not, And, Or, Xor, Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, Concat, Extract, ZExt, SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: Ex, pub b: Ex, pub c: Ex, pub v: u128 }

pub struct Pool {
    pub nodes: Vec<Node>,
    pub vars: Vec<Rc<Vec<u32>>>,
    map: HashMap<Node, Ex>,
    // evaluation scratch
    stamp: Vec<u32>, val: Vec<u128>, gen: u32,
}

pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sext(v: u128, w: u16) -> i128 { if w >= 128 { v as i128 } else { let s = 128 - w as u32; ((v << s) as i128) >> s } }

pub fn fold(op: Op, w: u16, aw: u16, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::And => a & b, Op::Or => a | b, Op::Xor => a ^ b,
        Op::Add => a.wrapping_add(b) & m, Op::Sub => a.wrapping_sub(b) & m, Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sext(a, aw), sext(b, aw)); if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m } }
        Op::SRem => { let (x, y) = (sext(a, aw), sext(b, aw)); if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m } }
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 }; ((sext(a, w) >> s.min(127)) as u128) & m }
        Op::Eq => (a == b) as u128, Op::Ult => (a < b) as u128, Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, aw) < sext(b, aw)) as u128, Op::Sle => (sext(a, aw) <= sext(b, aw)) as u128,
        _ => unreachable!(),
    }
}

impl Pool {
    pub fn new() -> Self { Pool { nodes: vec![], vars: vec![], map: HashMap::new(), stamp: vec![], val: vec![], gen: 0 } }
    pub fn w(&self, e: Ex) -> u16 { self.nodes[e as usize].w }
    pub fn cv(&self, e: Ex) -> Option<u128> { let n = &self.nodes[e as usize]; if n.op == Op::Const { Some(n.v) } else { None } }
    fn mk(&mut self, n: Node) -> Ex {
        if let Some(&e) = self.map.get(&n) { return e; }
        let e = self.nodes.len() as Ex;
        let vs: Rc<Vec<u32>> = match n.op {
            Op::Const => Rc::new(vec![]),
            Op::Var => Rc::new(vec![n.v as u32]),
            _ => {
                let mut kids: Vec<Ex> = vec![n.a];
                if !matches!(n.op, Op::Not | Op::Extract | Op::ZExt | Op::SExt) { kids.push(n.b); }
                if n.op == Op::Ite { kids.push(n.c); }
                let mut best = self.vars[kids[0] as usize].clone();
                for k in &kids[1..] {
                    let o = self.vars[*k as usize].clone();
                    if o.is_empty() || Rc::ptr_eq(&o, &best) || *o == *best { continue; }
                    if best.is_empty() { best = o; continue; }
                    let mut r: Vec<u32> = best.iter().chain(o.iter()).copied().collect();
                    r.sort_unstable(); r.dedup();
                    best = if r.len() == best.len() { best } else if r.len() == o.len() { o } else { Rc::new(r) };
                }
                best
            }
        };
        self.nodes.push(n); self.vars.push(vs); self.map.insert(n, e);
        e
    }
    pub fn c(&mut self, w: u16, v: u128) -> Ex { self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, v: v & mask(w) }) }
    pub fn var(&mut self, id: u32) -> Ex { self.mk(Node { op: Op::Var, w: 8, a: 0, b: 0, c: 0, v: id as u128 }) }
    pub fn not(&mut self, a: Ex) -> Ex {
        let n = self.nodes[a as usize];
        match n.op {
            Op::Const => self.c(n.w, !n.v),
            Op::Not => n.a,
            Op::Ult if true => self.bin(Op::Ule, n.b, n.a),
            Op::Ule => self.bin(Op::Ult, n.b, n.a),
            Op::Slt => self.bin(Op::Sle, n.b, n.a),
            Op::Sle => self.bin(Op::Slt, n.b, n.a),
            _ => self.mk(Node { op: Op::Not, w: n.w, a, b: 0, c: 0, v: 0 }),
        }
    }
    pub fn ite(&mut self, c: Ex, a: Ex, b: Ex) -> Ex {
        if let Some(v) = self.cv(c) { return if v == 1 { a } else { b }; }
        if a == b { return a; }
        let w = self.w(a);
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(0), None) => { let nc = self.not(c); return self.bin(Op::And, nc, b); }
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let nc = self.not(c); return self.bin(Op::Or, nc, a); }
                _ => {}
            }
        }
        let cn = self.nodes[c as usize];
        if cn.op == Op::Not { return self.ite(cn.a, b, a); }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, v: 0 })
    }
    pub fn zext(&mut self, a: Ex, w: u16) -> Ex {
        let n = self.nodes[a as usize];
        if n.w == w { return a; }
        assert!(n.w < w);
        match n.op {
            Op::Const => self.c(w, n.v),
            Op::ZExt => self.zext(n.a, w),
            _ => self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, v: 0 }),
        }
    }
    pub fn sext(&mut self, a: Ex, w: u16) -> Ex {
        let n = self.nodes[a as usize];
        if n.w == w { return a; }
        match n.op {
            Op::Const => self.c(w, sext(n.v, n.w) as u128),
            Op::ZExt => self.zext(a, w),
            _ => self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, v: 0 }),
        }
    }
    pub fn extract(&mut self, a: Ex, lo: u16, w: u16) -> Ex {
        let n = self.nodes[a as usize];
        if lo == 0 && w == n.w { return a; }
        assert!(lo + w <= n.w, "extract {} {} of {:?}", lo, w, n);
        match n.op {
            Op::Const => self.c(w, n.v >> lo),
            Op::Extract => self.extract(n.a, lo + n.v as u16, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw { self.extract(n.b, lo, w) }
                else if lo >= lw { self.extract(n.a, lo - lw, w) }
                else {
                    let l = self.extract(n.b, lo, lw - lo);
                    let h = self.extract(n.a, 0, lo + w - lw);
                    self.concat(h, l)
                }
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo + w <= iw { self.extract(n.a, lo, w) }
                else if lo >= iw { self.c(w, 0) }
                else { let x = self.extract(n.a, lo, iw - lo); self.zext(x, w) }
            }
            Op::SExt if lo + w <= self.w(n.a) => self.extract(n.a, lo, w),
            Op::And | Op::Or | Op::Xor => { let x = self.extract(n.a, lo, w); let y = self.extract(n.b, lo, w); self.bin(n.op, x, y) }
            Op::Not => { let x = self.extract(n.a, lo, w); self.not(x) }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => { let x = self.extract(n.a, 0, w); let y = self.extract(n.b, 0, w); self.bin(n.op, x, y) }
            Op::Ite if self.cv(n.b).is_some() || self.cv(n.c).is_some() => {
                let x = self.extract(n.b, lo, w); let y = self.extract(n.c, lo, w); self.ite(n.a, x, y)
            }
            Op::Shl | Op::LShr if self.cv(n.b).is_some() => {
                let s = self.cv(n.b).unwrap();
                if s >= n.w as u128 { return self.c(w, 0); }
                let s = s as u16;
                if n.op == Op::LShr {
                    if lo + s + w <= n.w { self.extract(n.a, lo + s, w) }
                    else if lo + s >= n.w { self.c(w, 0) }
                    else { let x = self.extract(n.a, lo + s, n.w - lo - s); self.zext(x, w) }
                } else if lo + w <= s { self.c(w, 0) }
                else if lo >= s { self.extract(n.a, lo - s, w) }
                else { let h = self.extract(n.a, 0, lo + w - s); let z = self.c(s - lo, 0); self.concat(h, z) }
            }
            _ => self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, v: lo as u128 }),
        }
    }
    pub fn concat(&mut self, h: Ex, l: Ex) -> Ex {
        let (hn, ln) = (self.nodes[h as usize], self.nodes[l as usize]);
        let w = hn.w + ln.w;
        if hn.op == Op::Const && ln.op == Op::Const { return self.c(w, (hn.v << ln.w) | ln.v); }
        if hn.op == Op::Const && hn.v == 0 { return self.zext(l, w); }
        if hn.op == Op::Extract && ln.op == Op::Extract && hn.a == ln.a && hn.v == ln.v + ln.w as u128 {
            return self.extract(hn.a, ln.v as u16, w);
        }
        // to the right: (a ++ b) ++ c is a ++ (b ++ c)
        if hn.op == Op::Concat { let r = self.concat(hn.b, l); return self.concat(hn.a, r); }
        // extract(x, k..) ++ concat(extract(x, ..k), r)
        if ln.op == Op::Concat {
            let m = self.nodes[ln.a as usize];
            if hn.op == Op::Const && m.op == Op::Const { let k = self.c(hn.w + m.w, (hn.v << m.w) | m.v); return self.concat(k, ln.b); }
            if hn.op == Op::Extract && m.op == Op::Extract && hn.a == m.a && hn.v == m.v + m.w as u128 {
                let x = self.extract(hn.a, m.v as u16, hn.w + m.w);
                return self.concat(x, ln.b);
            }
        }
        // top bits of x ++ low bits where low is extract of same base from 0 : handled above
        if hn.op == Op::ZExt {
            let inner = self.concat(hn.a, l);
            return self.zext(inner, w);
        }
        self.mk(Node { op: Op::Concat, w, a: h, b: l, c: 0, v: 0 })
    }
    fn is_pred(op: Op) -> bool { matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) }
    /// highest bit that may be set, +1
    pub fn msb(&self, e: Ex) -> u16 {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => (128 - n.v.leading_zeros()) as u16,
            Op::ZExt => self.msb(n.a),
            Op::And => self.msb(n.a).min(self.msb(n.b)),
            Op::Or | Op::Xor => self.msb(n.a).max(self.msb(n.b)),
            Op::Concat => { let m = self.msb(n.a); if m == 0 { self.msb(n.b) } else { m + self.w(n.b) } }
            Op::Ite => self.msb(n.b).max(self.msb(n.c)),
            Op::LShr => match self.cv(n.b) { Some(s) if s < 128 => self.msb(n.a).saturating_sub(s as u16), _ => n.w },
            Op::URem => match self.cv(n.b) { Some(s) if s > 0 => (128 - (s - 1).leading_zeros()) as u16, _ => n.w },
            _ => n.w,
        }
    }
    pub fn bin(&mut self, op: Op, a: Ex, b: Ex) -> Ex {
        let (an, bn) = (self.nodes[a as usize], self.nodes[b as usize]);
        assert!(an.w == bn.w, "width mismatch {:?} {:?} {:?}", op, an, bn);
        let aw = an.w;
        let w = if Self::is_pred(op) { 1 } else { aw };
        let (ac, bc) = (an.op == Op::Const, bn.op == Op::Const);
        if ac && bc { let v = fold(op, w, aw, an.v, bn.v); return self.c(w, v); }
        let commut = matches!(op, Op::And | Op::Or | Op::Xor | Op::Add | Op::Mul | Op::Eq);
        if commut && (ac || (!bc && a > b)) { return self.bin2(op, b, a, bn, an, w, aw); }
        self.bin2(op, a, b, an, bn, w, aw)
    }
    fn bin2(&mut self, op: Op, a: Ex, b: Ex, an: Node, bn: Node, w: u16, aw: u16) -> Ex {
        // constant, if any of a commutative op, is on the right
        let bc = bn.op == Op::Const;
        let m = mask(aw);
        match op {
            Op::And => {
                if a == b { return a; }
                if bc {
                    if bn.v == 0 { return b; }
                    if bn.v == m { return a; }
                    // low mask -> zext(extract)
                    if (bn.v & (bn.v + 1)) == 0 {
                        let k = (128 - bn.v.leading_zeros()) as u16;
                        if self.msb(a) <= k { return a; }
                        let x = self.extract(a, 0, k);
                        return self.zext(x, aw);
                    }
                    if an.op == Op::And { if let Some(k) = self.cv(an.b) { let k2 = self.c(aw, k & bn.v); return self.bin(Op::And, an.a, k2); } }
                    if an.op == Op::ZExt {
                        let iw = self.w(an.a);
                        let k = self.c(iw, bn.v);
                        let x = self.bin(Op::And, an.a, k);
                        return self.zext(x, aw);
                    }
                }
                if aw == 1 { let nb = self.not(b); if nb == a { return self.c(1, 0); } }
            }
            Op::Or => {
                if a == b { return a; }
                if bc { if bn.v == 0 { return a; } if bn.v == m { return b; } }
                if aw == 1 { let nb = self.not(b); if nb == a { return self.c(1, 1); } }
                if let Some(r) = self.merge_disjoint(a, b, aw) { return r; }
            }
            Op::Xor => {
                if a == b { return self.c(w, 0); }
                if bc { if bn.v == 0 { return a; } if bn.v == m { return self.not(a); } }
                if let Some(r) = self.merge_disjoint(a, b, aw) { return r; }
            }
            Op::Add => {
                if bc {
                    if bn.v == 0 { return a; }
                    if an.op == Op::Add { if let Some(k) = self.cv(an.b) { let k2 = self.c(w, k.wrapping_add(bn.v)); return self.bin(Op::Add, an.a, k2); } }
                }
                if let Some(r) = self.merge_disjoint(a, b, aw) { return r; }
            }
            Op::Sub => {
                if a == b { return self.c(w, 0); }
                if bc { let k = self.c(w, bn.v.wrapping_neg()); return self.bin(Op::Add, a, k); }
                if an.op == Op::Add {
                    if an.a == b { return an.b; }
                    if an.b == b { return an.a; }
                }
            }
            Op::Mul => {
                if bc {
                    if bn.v == 0 { return b; }
                    if bn.v == 1 { return a; }
                    if bn.v.is_power_of_two() { let k = self.c(w, bn.v.trailing_zeros() as u128); return self.bin(Op::Shl, a, k); }
                }
            }
            Op::UDiv => if bc {
                if bn.v == 1 { return a; }
                if bn.v.is_power_of_two() { let k = self.c(w, bn.v.trailing_zeros() as u128); return self.bin(Op::LShr, a, k); }
            },
            Op::URem => if bc && bn.v.is_power_of_two() { let k = self.c(w, bn.v - 1); return self.bin(Op::And, a, k); },
            Op::Shl | Op::LShr if bc => {
                if bn.v == 0 { return a; }
                if bn.v >= w as u128 { return self.c(w, 0); }
                let s = bn.v as u16;
                if op == Op::Shl { let h = self.extract(a, 0, w - s); let z = self.c(s, 0); return self.concat(h, z); }
                let h = self.extract(a, s, w - s); return self.zext(h, w);
            }
            Op::AShr if bc => {
                if bn.v == 0 { return a; }
                if self.msb(a) < w { return self.bin(Op::LShr, a, b); }
                if bn.v < w as u128 { let h = self.extract(a, bn.v as u16, w - bn.v as u16); return self.sext(h, w); }
            }
            Op::Eq => {
                if a == b { return self.c(1, 1); }
                if bc {
                    if aw == 1 { return if bn.v == 1 { a } else { self.not(a) }; }
                    match an.op {
                        Op::ZExt => {
                            let iw = self.w(an.a);
                            if bn.v > mask(iw) { return self.c(1, 0); }
                            let k = self.c(iw, bn.v); return self.bin(Op::Eq, an.a, k);
                        }
                        Op::SExt => {
                            let iw = self.w(an.a);
                            let t = bn.v & mask(iw);
                            if (sext(t, iw) as u128) & m != bn.v { return self.c(1, 0); }
                            let k = self.c(iw, t); return self.bin(Op::Eq, an.a, k);
                        }
                        Op::Concat => {
                            let lw = self.w(an.b); let hw = self.w(an.a);
                            let kh = self.c(hw, bn.v >> lw); let kl = self.c(lw, bn.v);
                            let x = self.bin(Op::Eq, an.a, kh);
                            if self.cv(x) == Some(0) { return x; }
                            let y = self.bin(Op::Eq, an.b, kl);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Ite => {
                            let (x, y) = (self.cv(an.b), self.cv(an.c));
                            if x.is_some() || y.is_some() {
                                let p = self.bin(Op::Eq, an.b, b); let q = self.bin(Op::Eq, an.c, b);
                                return self.ite(an.a, p, q);
                            }
                        }
                        Op::Add => if let Some(k) = self.cv(an.b) { let k2 = self.c(aw, bn.v.wrapping_sub(k)); return self.bin(Op::Eq, an.a, k2); },
                        Op::Xor => if let Some(k) = self.cv(an.b) { let k2 = self.c(aw, bn.v ^ k); return self.bin(Op::Eq, an.a, k2); },
                        Op::Not => { let k2 = self.c(aw, !bn.v); return self.bin(Op::Eq, an.a, k2); }
                        Op::And => if let Some(k) = self.cv(an.b) { if bn.v & !k & m != 0 { return self.c(1, 0); } },
                        _ => {}
                    }
                } else if an.op == Op::ZExt && bn.op == Op::ZExt && self.w(an.a) == self.w(bn.a) {
                    return self.bin(Op::Eq, an.a, bn.a);
                } else if an.op == Op::Concat && bn.op == Op::Concat && self.w(an.a) == self.w(bn.a) {
                    let x = self.bin(Op::Eq, an.a, bn.a); let y = self.bin(Op::Eq, an.b, bn.b);
                    return self.bin(Op::And, x, y);
                }
            }
            Op::Ult => {
                if a == b { return self.c(1, 0); }
                if bc {
                    if bn.v == 0 { return self.c(1, 0); }
                    if bn.v == 1 { let z = self.c(aw, 0); return self.bin(Op::Eq, a, z); }
                    if an.op == Op::ZExt { let iw = self.w(an.a); if bn.v > mask(iw) { return self.c(1, 1); } let k = self.c(iw, bn.v); return self.bin(Op::Ult, an.a, k); }
                    if bn.v > mask(self.msb(a)) { return self.c(1, 1); }
                }
                if an.op == Op::Const {
                    if an.v == m { return self.c(1, 0); }
                    if an.v == 0 { let z = self.c(aw, 0); let e = self.bin(Op::Eq, b, z); return self.not(e); }
                    if bn.op == Op::ZExt { let iw = self.w(bn.a); if an.v >= mask(iw) { return self.c(1, 0); } let k = self.c(iw, an.v); return self.bin(Op::Ult, k, bn.a); }
                    if an.v >= mask(self.msb(b)) { return self.c(1, 0); }
                }
                if an.op == Op::ZExt && bn.op == Op::ZExt && self.w(an.a) == self.w(bn.a) { return self.bin(Op::Ult, an.a, bn.a); }
            }
            Op::Ule => {
                if a == b { return self.c(1, 1); }
                if bc {
                    if bn.v == m { return self.c(1, 1); }
                    let k = self.c(aw, bn.v + 1); return self.bin(Op::Ult, a, k);
                }
                if an.op == Op::Const {
                    if an.v == 0 { return self.c(1, 1); }
                    let k = self.c(aw, an.v - 1); return self.bin(Op::Ult, k, b);
                }
                if an.op == Op::ZExt && bn.op == Op::ZExt && self.w(an.a) == self.w(bn.a) { return self.bin(Op::Ule, an.a, bn.a); }
            }
            Op::Slt | Op::Sle => {
                if a == b { return self.c(1, (op == Op::Sle) as u128); }
                // both operands provably non-negative
                if self.msb(a) < aw && self.msb(b) < aw {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
            }
            _ => {}
        }
        self.mk(Node { op, w, a, b, c: 0, v: 0 })
    }
    /// The pieces (lowest first) a value is put together from.
    fn pieces(&mut self, e: Ex, out: &mut Vec<Ex>) {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Concat => { self.pieces(n.b, out); self.pieces(n.a, out); }
            Op::ZExt => { self.pieces(n.a, out); let iw = self.w(n.a); let z = self.c(n.w - iw, 0); out.push(z); }
            _ => out.push(e),
        }
    }
    /// a|b (or a^b, a+b) where every bit is the constant zero in one of them: a concatenation.
    fn merge_disjoint(&mut self, a: Ex, b: Ex, w: u16) -> Option<Ex> {
        if w < 2 || w > 128 { return None; }
        let (an, bn) = (self.nodes[a as usize], self.nodes[b as usize]);
        let cat = |n: &Node| matches!(n.op, Op::Concat | Op::ZExt | Op::Const);
        if !(cat(&an) && cat(&bn)) { return None; }
        let (mut pa, mut pb) = (vec![], vec![]);
        self.pieces(a, &mut pa); self.pieces(b, &mut pb);
        let mut parts = vec![];
        let (mut i, mut j, mut oi, mut oj) = (0, 0, 0u16, 0u16);
        while i < pa.len() && j < pb.len() {
            let (wx, wy) = (self.w(pa[i]), self.w(pb[j]));
            let k = (wx - oi).min(wy - oj);
            let x = self.extract(pa[i], oi, k); let y = self.extract(pb[j], oj, k);
            if self.cv(x) == Some(0) { parts.push(y) } else if self.cv(y) == Some(0) { parts.push(x) } else { return None; }
            oi += k; oj += k;
            if oi == wx { i += 1; oi = 0; }
            if oj == wy { j += 1; oj = 0; }
        }
        let mut r = parts[0];
        for p in &parts[1..] { r = self.concat(*p, r); }
        Some(r)
    }
    /// Evaluate under an assignment of input bytes (missing = 0).
    pub fn eval(&mut self, e: Ex, m: &[u8]) -> u128 {
        self.gen = self.gen.wrapping_add(1);
        if self.gen == 0 { self.stamp.iter_mut().for_each(|x| *x = 0); self.gen = 1; }
        if self.stamp.len() < self.nodes.len() { let n = self.nodes.len() + 1024; self.stamp.resize(n, 0); self.val.resize(n, 0); }
        self.ev(e, m)
    }
    fn ev(&mut self, e: Ex, m: &[u8]) -> u128 {
        let i = e as usize;
        if self.stamp[i] == self.gen { return self.val[i]; }
        let n = self.nodes[i];
        let v = match n.op {
            Op::Const => n.v,
            Op::Var => m.get(n.v as usize).copied().unwrap_or(0) as u128,
            Op::Not => !self.ev(n.a, m) & mask(n.w),
            Op::Ite => if self.ev(n.a, m) == 1 { self.ev(n.b, m) } else { self.ev(n.c, m) },
            Op::Concat => { let lw = self.w(n.b); (self.ev(n.a, m) << lw) | self.ev(n.b, m) }
            Op::Extract => (self.ev(n.a, m) >> n.v) & mask(n.w),
            Op::ZExt => self.ev(n.a, m),
            Op::SExt => { let iw = self.w(n.a); (sext(self.ev(n.a, m), iw) as u128) & mask(n.w) }
            _ => { let aw = self.w(n.a); let a = self.ev(n.a, m); let b = self.ev(n.b, m); fold(n.op, n.w, aw, a, b) }
        };
        self.stamp[i] = self.gen; self.val[i] = v;
        v
    }
    pub fn show(&self, e: Ex, d: u32) -> String {
        let n = &self.nodes[e as usize];
        if d == 0 { return "..".into(); }
        match n.op {
            Op::Const => format!("{}", n.v), Op::Var => format!("v{}", n.v),
            Op::Not => format!("!{}", self.show(n.a, d - 1)),
            Op::Extract => format!("{}[{}+:{}]", self.show(n.a, d - 1), n.v, n.w),
            Op::ZExt => format!("zx{}({})", n.w, self.show(n.a, d - 1)),
            Op::SExt => format!("sx{}({})", n.w, self.show(n.a, d - 1)),
            Op::Ite => format!("({}?{}:{})", self.show(n.a, d - 1), self.show(n.b, d - 1), self.show(n.c, d - 1)),
            _ => format!("({:?} {} {})", n.op, self.show(n.a, d - 1), self.show(n.b, d - 1)),
        }
    }
}
