//! Hash-consed bit-vector expressions with light simplification.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const, Var,
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Concat, Extract, ZExt, SExt,
    Eq, Ult, Ule, Slt, Sle, Not, // results of width 1 (Not: bitwise complement of any width)
    Ite,
    UMulOvf, SMulOvf,
    // floating point over bit patterns of width 32/64
    FAdd, FSub, FMul, FDiv, FRem, FEq, FLt, FLe, FIsNan, FToF, SiToF, UiToF, FToSiSat, FToUiSat, FSqrt, FRound,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node { pub op: Op, pub w: u16, pub a: E, pub b: E, pub c: E, pub k: u128 }

pub struct Ctx {
    pub nodes: Vec<Node>,
    map: HashMap<Node, E>,
    pub vars: Vec<VarInfo>,
    memo_gen: Vec<u32>, memo_val: Vec<u128>, gen: u32,
    varset: Vec<Option<std::rc::Rc<Vec<u32>>>>,
}
pub struct VarInfo { pub name: String, pub w: u16, pub e: E }

pub fn mask(w: u16) -> u128 { if w >= 128 { u128::MAX } else { (1u128 << w) - 1 } }
pub fn sx(v: u128, w: u16) -> i128 { if w == 0 { return 0; } let s = 128 - w as u32; ((v << s) as i128) >> s }

fn f_of(v: u128, w: u16) -> f64 { if w == 32 { f32::from_bits(v as u32) as f64 } else { f64::from_bits(v as u64) } }

pub fn eval_op(op: Op, w: u16, k: u128, aw: u16, a: u128, b: u128, c: u128) -> u128 {
    let m = mask(w);
    let am = mask(aw);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m } }
        Op::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m } }
        Op::And => a & b, Op::Or => a | b, Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => { let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 }; ((sx(a, w) >> s) as u128) & m }
        Op::Concat => unreachable!(),
        Op::Extract => (a >> k) & m,
        Op::ZExt => a,
        Op::SExt => (sx(a, aw) as u128) & m,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, aw) < sx(b, aw)) as u128,
        Op::Sle => (sx(a, aw) <= sx(b, aw)) as u128,
        Op::Not => !a & m,
        Op::Ite => if a != 0 { b } else { c },
        Op::UMulOvf => { match a.checked_mul(b) { Some(p) => (p > am) as u128, None => 1 } }
        Op::SMulOvf => { match sx(a, aw).checked_mul(sx(b, aw)) { Some(p) => { let t = sx((p as u128) & am, aw); (t != p) as u128 } None => 1 } }
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => {
            if w == 32 {
                let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                (match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, Op::FDiv => x / y, _ => x % y }).to_bits() as u128
            } else {
                let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                (match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, Op::FDiv => x / y, _ => x % y }).to_bits() as u128
            }
        }
        Op::FSqrt => if w == 32 { f32::from_bits(a as u32).sqrt().to_bits() as u128 } else { f64::from_bits(a as u64).sqrt().to_bits() as u128 },
        Op::FRound => { // k: 0 nearest-even, 1 floor, 2 ceil, 3 trunc, 4 nearest-away
            let f = |x: f64| match k { 0 => x.round_ties_even(), 1 => x.floor(), 2 => x.ceil(), 3 => x.trunc(), _ => x.round() };
            if w == 32 { (f(f32::from_bits(a as u32) as f64) as f32).to_bits() as u128 } else { f(f64::from_bits(a as u64)).to_bits() as u128 }
        }
        Op::FEq => (f_of(a, aw) == f_of(b, aw)) as u128,
        Op::FLt => (f_of(a, aw) < f_of(b, aw)) as u128,
        Op::FLe => (f_of(a, aw) <= f_of(b, aw)) as u128,
        Op::FIsNan => f_of(a, aw).is_nan() as u128,
        Op::FToF => if aw == 32 && w == 64 { (f32::from_bits(a as u32) as f64).to_bits() as u128 } else if aw == 64 && w == 32 { (f64::from_bits(a as u64) as f32).to_bits() as u128 } else { a },
        Op::SiToF => { let v = sx(a, aw); if w == 32 { (v as f32).to_bits() as u128 } else { (v as f64).to_bits() as u128 } }
        Op::UiToF => if w == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 },
        Op::FToSiSat => { let x = f_of(a, aw); let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1); let v = if x.is_nan() { 0 } else { (x as i128).clamp(lo, hi) }; (v as u128) & m }
        Op::FToUiSat => { let x = f_of(a, aw); let v = if x.is_nan() { 0 } else { (x as u128).min(m) }; v & m }
        Op::Const | Op::Var => unreachable!(),
    }
}

impl Ctx {
    pub fn new() -> Self {
        Ctx { nodes: vec![], map: HashMap::new(), vars: vec![], memo_gen: vec![], memo_val: vec![], gen: 0, varset: vec![] }
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) { return e; }
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.map.insert(n, e);
        self.memo_gen.push(0);
        self.memo_val.push(0);
        self.varset.push(None);
        e
    }
    pub fn c(&mut self, w: u16, v: u128) -> E { self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) }) }
    pub fn var(&mut self, name: String, w: u16) -> E {
        let id = self.vars.len() as u128;
        let e = self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: id });
        self.vars.push(VarInfo { name, w, e });
        e
    }
    #[inline] pub fn n(&self, e: E) -> Node { self.nodes[e as usize] }
    #[inline] pub fn w(&self, e: E) -> u16 { self.nodes[e as usize].w }
    #[inline] pub fn cv(&self, e: E) -> Option<u128> { let n = &self.nodes[e as usize]; if n.op == Op::Const { Some(n.k) } else { None } }

    /// upper bound of the unsigned value
    pub fn umax(&self, e: E) -> u128 { self.umax_d(e, 6) }
    fn umax_d(&self, e: E, d: u32) -> u128 {
        let n = self.n(e);
        let m = mask(n.w);
        if d == 0 { return m; }
        match n.op {
            Op::Const => n.k,
            Op::ZExt => self.umax_d(n.a, d - 1),
            Op::And => self.umax_d(n.a, d - 1).min(self.umax_d(n.b, d - 1)),
            Op::Ite => self.umax_d(n.b, d - 1).max(self.umax_d(n.c, d - 1)),
            Op::Add => { match self.umax_d(n.a, d - 1).checked_add(self.umax_d(n.b, d - 1)) { Some(s) if s <= m => s, _ => m } }
            Op::Mul => { match self.umax_d(n.a, d - 1).checked_mul(self.umax_d(n.b, d - 1)) { Some(s) if s <= m => s, _ => m } }
            Op::URem => { let b = self.umax_d(n.b, d - 1); let a = self.umax_d(n.a, d - 1); if self.cv(n.b).map_or(false, |v| v > 0) { a.min(b - 1) } else { a } }
            Op::UDiv => if let Some(v) = self.cv(n.b) { if v > 0 { self.umax_d(n.a, d - 1) / v } else { m } } else { m },
            Op::LShr => if let Some(v) = self.cv(n.b) { if v < 128 { self.umax_d(n.a, d - 1) >> v } else { 0 } } else { self.umax_d(n.a, d - 1) },
            Op::Or | Op::Xor => { let x = self.umax_d(n.a, d - 1) | self.umax_d(n.b, d - 1); let bits = 128 - x.leading_zeros(); mask(bits as u16).min(m) }
            _ => m,
        }
    }
    pub fn umin(&self, e: E) -> u128 {
        let n = self.n(e);
        match n.op {
            Op::Const => n.k,
            Op::ZExt => self.umin(n.a),
            Op::Add => { // no-overflow sum
                let (x, y) = (self.umax(n.a), self.umax(n.b));
                if x.checked_add(y).map_or(false, |s| s <= mask(n.w)) { self.umin_d(n.a) + self.umin_d(n.b) } else { 0 }
            }
            Op::Ite => self.umin_d(n.b).min(self.umin_d(n.c)),
            _ => 0,
        }
    }
    fn umin_d(&self, e: E) -> u128 { let n = self.n(e); match n.op { Op::Const => n.k, Op::Add | Op::ZExt => self.umin(e), _ => 0 } }

    /// bounds of the signed value (width <= 64)
    pub fn srange(&self, e: E) -> (i128, i128) { self.srange_d(e, 6) }
    fn srange_d(&self, e: E, d: u32) -> (i128, i128) {
        let n = self.n(e);
        let w = n.w;
        let (tlo, thi) = if w >= 128 { (i128::MIN, i128::MAX) } else { (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1) };
        if w > 64 { return (tlo, thi); }
        if n.op == Op::Const { let v = sx(n.k, w); return (v, v); }
        let u = self.umax(e);
        let dflt = if u <= thi as u128 { (self.umin(e) as i128, u as i128) } else { (tlo, thi) };
        if d == 0 { return dflt; }
        let fit = |lo: i128, hi: i128| if lo >= tlo && hi <= thi { (lo.max(dflt.0), hi.min(dflt.1)) } else { dflt };
        match n.op {
            Op::SExt => self.srange_d(n.a, d - 1),
            Op::Add => { let (a, b) = (self.srange_d(n.a, d - 1), self.srange_d(n.b, d - 1)); fit(a.0 + b.0, a.1 + b.1) }
            Op::Sub => { let (a, b) = (self.srange_d(n.a, d - 1), self.srange_d(n.b, d - 1)); fit(a.0 - b.1, a.1 - b.0) }
            Op::Mul => { let (a, b) = (self.srange_d(n.a, d - 1), self.srange_d(n.b, d - 1)); let v = [a.0.checked_mul(b.0), a.0.checked_mul(b.1), a.1.checked_mul(b.0), a.1.checked_mul(b.1)]; if v.iter().any(|x| x.is_none()) { return dflt; } let v: Vec<i128> = v.iter().map(|x| x.unwrap()).collect(); fit(*v.iter().min().unwrap(), *v.iter().max().unwrap()) }
            Op::Ite => { let (a, b) = (self.srange_d(n.b, d - 1), self.srange_d(n.c, d - 1)); fit(a.0.min(b.0), a.1.max(b.1)) }
            _ => dflt,
        }
    }
    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        match n.op {
            Op::Const => self.c(n.w, !n.k),
            Op::Not => n.a,
            Op::Ult => self.cmp(Op::Ule, n.b, n.a),
            Op::Ule => self.cmp(Op::Ult, n.b, n.a),
            Op::Slt => self.cmp(Op::Sle, n.b, n.a),
            Op::Sle => self.cmp(Op::Slt, n.b, n.a),
            _ => self.mk(Node { op: Op::Not, w: n.w, a, b: 0, c: 0, k: 0 }),
        }
    }
    fn bits_for(v: u128) -> u16 { (128 - v.leading_zeros() as u16).max(1) }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "{:?}", op);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { let v = eval_op(op, w, 0, w, x, y, 0); return self.c(w, v); }
        let commut = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor);
        if commut && self.cv(a).is_some() { std::mem::swap(&mut a, &mut b); }
        if commut && self.cv(b).is_none() && a > b { std::mem::swap(&mut a, &mut b); }
        let bc = self.cv(b);
        let m = mask(w);
        match op {
            Op::Add => {
                if bc == Some(0) { return a; }
                let n = self.n(a);
                if let Some(k) = bc { if n.op == Op::Add { if let Some(k2) = self.cv(n.b) { let kk = self.c(w, k.wrapping_add(k2)); return self.bin(Op::Add, n.a, kk); } } }
                // (x + c) + y -> (x + y) + c
                if bc.is_none() {
                    if n.op == Op::Add && self.cv(n.b).is_some() { let t = self.bin(Op::Add, n.a, b); return self.bin(Op::Add, t, n.b); }
                    let nb = self.n(b);
                    if nb.op == Op::Add && self.cv(nb.b).is_some() { let t = self.bin(Op::Add, a, nb.a); return self.bin(Op::Add, t, nb.b); }
                }
                let (x, y) = (self.umax(a), self.umax(b));
                if let Some(s) = x.checked_add(y) { let k = Self::bits_for(s); if k < w && k <= 32 { return self.narrowed(op, a, b, k, w); } }
            }
            Op::Sub => {
                if bc == Some(0) { return a; }
                if a == b { return self.c(w, 0); }
                if let Some(k) = bc { let nk = self.c(w, (0u128).wrapping_sub(k)); return self.bin(Op::Add, a, nk); }
                // (x + c1) - (y + c2), (x + c) - x
                let (na, nb) = (self.n(a), self.n(b));
                if nb.op == Op::Add && self.cv(nb.b).is_some() { let k = self.cv(nb.b).unwrap(); let t = self.bin(Op::Sub, a, nb.a); let kk = self.c(w, (0u128).wrapping_sub(k)); return self.bin(Op::Add, t, kk); }
                if na.op == Op::Add && self.cv(na.b).is_some() { let t = self.bin(Op::Sub, na.a, b); return self.bin(Op::Add, t, na.b); }
                if na.op == Op::Add { if na.a == b { return na.b; } if na.b == b { return na.a; } }
            }
            Op::Mul => {
                if bc == Some(0) { return b; }
                if bc == Some(1) { return a; }
                let (x, y) = (self.umax(a), self.umax(b));
                if let Some(s) = x.checked_mul(y) { let k = Self::bits_for(s); if k < w && k <= 32 { return self.narrowed(op, a, b, k, w); } }
                if let Some(k) = bc { if k.is_power_of_two() { let s = self.c(w, k.trailing_zeros() as u128); return self.bin(Op::Shl, a, s); } }
            }
            Op::UDiv | Op::URem => {
                if bc == Some(1) { return if op == Op::UDiv { a } else { self.c(w, 0) }; }
                if let Some(k) = bc { if k.is_power_of_two() {
                    if op == Op::UDiv { let s = self.c(w, k.trailing_zeros() as u128); return self.bin(Op::LShr, a, s); }
                    let s = self.c(w, k - 1); return self.bin(Op::And, a, s);
                } }
                let (x, y) = (self.umax(a), self.umax(b));
                // the divisor must be provably non-zero for the narrow form to agree with the wide one
                let k = Self::bits_for(x.max(y)); if k < w && k <= 32 && self.umin(b) > 0 { return self.narrowed(op, a, b, k, w); }
            }
            Op::SDiv | Op::SRem => {
                let top = 1u128 << (w - 1);
                if self.umax(a) < top && self.umax(b) < top && self.umin(b) > 0 { return self.bin(if op == Op::SDiv { Op::UDiv } else { Op::URem }, a, b); }
            }
            Op::And => {
                if a == b { return a; }
                if bc == Some(0) { return b; }
                if bc == Some(m) { return a; }
                if let Some(k) = bc {
                    if (k + 1).is_power_of_two() {
                        if self.umax(a) <= k { return a; }
                        let kb = Self::bits_for(k);
                        let x = self.extract(kb - 1, 0, a);
                        return self.zext(x, w);
                    }
                    let bits = Self::bits_for(k);
                    if bits < w { let x = self.extract(bits - 1, 0, a); let kk = self.c(bits, k); let y = self.bin(Op::And, x, kk); return self.zext(y, w); }
                }
                if w == 1 { if self.not(a) == b { return self.c(1, 0); } }
            }
            Op::Or => {
                if a == b { return a; }
                if bc == Some(0) { return a; }
                if bc == Some(m) { return b; }
                if w == 1 && self.not(a) == b { return self.c(1, 1); }
                // (zext x) | (zext y << k)  -> concat
                let (na, nb) = (self.n(a), self.n(b));
                for (lo, _ln, hi, hn) in [(a, na, b, nb), (b, nb, a, na)] {
                    if hn.op == Op::Shl { if let Some(s) = self.cv(hn.b) { let s = s as u16; if s > 0 && s < w && self.umax(lo) <= mask(s) {
                        let h = self.extract(w - 1 - s, 0, hn.a); let l = self.extract(s - 1, 0, lo); return self.concat(h, l);
                    } } }
                    // lo fits under the zero low bits of hi = concat(x, const 0)
                    if hn.op == Op::Concat { let lw = self.w(hn.b); if self.cv(hn.b) == Some(0) && self.umax(lo) <= mask(lw) { let l = self.extract(lw - 1, 0, lo); return self.concat(hn.a, l); } }
                    let _ = hi;
                }
            }
            Op::Xor => {
                if a == b { return self.c(w, 0); }
                if bc == Some(0) { return a; }
                if bc == Some(m) { return self.not(a); }
            }
            Op::Shl => {
                if bc == Some(0) { return a; }
                if let Some(k) = bc {
                    if k >= w as u128 { return self.c(w, 0); }
                    let x = self.umax(a);
                    if x.leading_zeros() as u128 >= 128 - w as u128 + k && Self::bits_for(x) + (k as u16) < w && Self::bits_for(x) + (k as u16) <= 40 {
                        let kb = Self::bits_for(x) + k as u16;
                        let aa = self.extract(kb - k as u16 - 1, 0, a);
                        let z = self.c(k as u16, 0);
                        let cc = self.concat(aa, z);
                        return self.zext(cc, w);
                    }
                    let aa = self.extract(w - 1 - k as u16, 0, a); let z = self.c(k as u16, 0); return self.concat(aa, z);
                }
                if self.cv(a) == Some(0) { return a; }
            }
            Op::LShr => {
                if bc == Some(0) { return a; }
                if let Some(k) = bc {
                    if k >= w as u128 { return self.c(w, 0); }
                    let x = self.extract(w - 1, k as u16, a); return self.zext(x, w);
                }
                if self.cv(a) == Some(0) { return a; }
            }
            Op::AShr => {
                if bc == Some(0) { return a; }
                if let Some(k) = bc { let k = (k as u16).min(w - 1); let x = self.extract(w - 1, k, a); return self.sext(x, w); }
            }
            _ => {}
        }
        self.mk(Node { op, w, a, b, c: 0, k: 0 })
    }
    fn narrowed(&mut self, op: Op, a: E, b: E, k: u16, w: u16) -> E {
        let x = self.extract(k - 1, 0, a);
        let y = self.extract(k - 1, 0, b);
        let r = if let (Some(p), Some(q)) = (self.cv(x), self.cv(y)) { let v = eval_op(op, k, 0, k, p, q, 0); self.c(k, v) } else { self.bin(op, x, y) };
        self.zext(r, w)
    }
    pub fn extract(&mut self, hi: u16, lo: u16, a: E) -> E {
        let n = self.n(a);
        let w = hi - lo + 1;
        if lo == 0 && w == n.w { return a; }
        match n.op {
            Op::Const => self.c(w, n.k >> lo),
            Op::Extract => { let l = n.k as u16; self.extract(hi + l, lo + l, n.a) }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { self.c(w, 0) }
                else if hi < iw { self.extract(hi, lo, n.a) }
                else { let x = self.extract(iw - 1, lo, n.a); self.zext(x, w) }
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if hi < iw { self.extract(hi, lo, n.a) }
                else if lo < iw { let x = self.extract(iw - 1, lo, n.a); self.sext(x, w) }
                else { let x = self.extract(iw - 1, iw - 1, n.a); self.sext(x, w) }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if hi < lw { self.extract(hi, lo, n.b) }
                else if lo >= lw { self.extract(hi - lw, lo - lw, n.a) }
                else { let h = self.extract(hi - lw, 0, n.a); let l = self.extract(lw - 1, lo, n.b); self.concat(h, l) }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => { let x = self.extract(hi, 0, n.a); let y = self.extract(hi, 0, n.b); self.bin(n.op, x, y) }
            Op::And | Op::Or | Op::Xor => { let x = self.extract(hi, lo, n.a); let y = self.extract(hi, lo, n.b); self.bin(n.op, x, y) }
            Op::Not => { let x = self.extract(hi, lo, n.a); self.not(x) }
            Op::Ite => { let x = self.extract(hi, lo, n.b); let y = self.extract(hi, lo, n.c); self.ite(n.a, x, y) }
            _ => self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 }),
        }
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (nh, nl) = (self.n(hi), self.n(lo));
        let w = nh.w + nl.w;
        if let (Op::Const, Op::Const) = (nh.op, nl.op) { return self.c(w, (nh.k << nl.w) | nl.k); }
        if nh.op == Op::Const && nh.k == 0 { return self.zext(lo, w); }
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + nl.w as u128 { let a = nh.a; return self.extract((nh.k as u16) + nh.w - 1, nl.k as u16, a); }
        // extract(hi..k, x) ++ x' where x' is the low part of the same expression
        if nh.op == Op::Extract && nh.a == lo && nh.k == nl.w as u128 { return self.extract(nh.k as u16 + nh.w - 1, 0, nh.a); }
        self.mk(Node { op: Op::Concat, w, a: hi, b: lo, c: 0, k: 0 })
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let n = self.n(a);
        if n.w == w { return a; }
        debug_assert!(n.w < w);
        match n.op {
            Op::Const => self.c(w, n.k),
            Op::ZExt => self.zext(n.a, w),
            _ => self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let n = self.n(a);
        if n.w == w { return a; }
        match n.op {
            Op::Const => { let v = sx(n.k, n.w) as u128; self.c(w, v) }
            Op::SExt => self.sext(n.a, w),
            Op::ZExt => self.zext(n.a, w),
            _ => self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.cv(c) { return if v != 0 { a } else { b }; }
        if a == b { return a; }
        let nc = self.n(c);
        if nc.op == Op::Not { return self.ite(nc.a, b, a); }
        let w = self.w(a);
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let nc = self.not(c); return self.bin(Op::And, nc, b); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => { let nc = self.not(c); return self.bin(Op::Or, nc, a); }
                _ => {}
            }
        }
        // ite(c, x, ite(c, y, z)) etc
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) { let x = self.ite(c, na.a, nb.a); return self.zext(x, w); }
        if w > 1 {
            if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
                if x == 1 && y == 0 { return self.zext(c, w); }
                if x == 0 && y == 1 { let n = self.not(c); return self.zext(n, w); }
                let k = Self::bits_for(x.max(y));
                if k < w && k <= 32 { let p = self.c(k, x); let q = self.c(k, y); let t = self.mk(Node { op: Op::Ite, w: k, a: c, b: p, c: q, k: 0 }); return self.zext(t, w); }
            }
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn eq(&mut self, mut a: E, mut b: E) -> E {
        if a == b { return self.c(1, 1); }
        if self.cv(a).is_some() { std::mem::swap(&mut a, &mut b); }
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Const && nb.op == Op::Const { return self.c(1, (na.k == nb.k) as u128); }
        if let Op::Const = nb.op {
            if na.w == 1 { return if nb.k == 1 { a } else { self.not(a) }; }
            if nb.k > self.umax(a) || nb.k < self.umin(a) { return self.c(1, 0); }
            match na.op {
                Op::ZExt => { let iw = self.w(na.a); let k = self.c(iw, nb.k); return self.eq(na.a, k); }
                Op::SExt => { let iw = self.w(na.a); let k = self.c(iw, nb.k); let back = self.sext(k, na.w); if back == b { return self.eq(na.a, k); } else { return self.c(1, 0); } }
                Op::Add => if let Some(k2) = self.cv(na.b) { let k = self.c(na.w, nb.k.wrapping_sub(k2)); return self.eq(na.a, k); },
                Op::Ite => {
                    let (x, y) = (self.cv(na.b), self.cv(na.c));
                    if x.is_some() || y.is_some() {
                        let p = self.eq(na.b, b); let q = self.eq(na.c, b);
                        return self.ite(na.a, p, q);
                    }
                }
                Op::Concat => {
                    let lw = self.w(na.b); let hw = self.w(na.a);
                    let kl = self.c(lw, nb.k); let kh = self.c(hw, nb.k >> lw);
                    let p = self.eq(na.b, kl); if self.cv(p) == Some(0) { return p; }
                    let q = self.eq(na.a, kh); return self.bin(Op::And, p, q);
                }
                Op::Not => { let k = self.c(na.w, !nb.k); return self.eq(na.a, k); }
                Op::Xor => if let Some(k2) = self.cv(na.b) { let k = self.c(na.w, nb.k ^ k2); return self.eq(na.a, k); },
                _ => {}
            }
        } else {
            if na.w == 1 { let x = self.bin(Op::Xor, a, b); return self.not(x); }
            if na.op == Op::ZExt && nb.op == Op::ZExt {
                let (x, y) = (self.w(na.a), self.w(nb.a));
                let m = x.max(y); let p = self.zext(na.a, m); let q = self.zext(nb.a, m); return self.eq(p, q);
            }
            if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b && self.cv(na.b).is_some() { return self.eq(na.a, nb.a); }
        }
        if a > b && nb.op != Op::Const { std::mem::swap(&mut a, &mut b); }
        self.mk(Node { op: Op::Eq, w: 1, a, b, c: 0, k: 0 })
    }
    pub fn cmp(&mut self, op: Op, a: E, b: E) -> E {
        if op == Op::Eq { return self.eq(a, b); }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { let v = eval_op(op, 1, 0, w, x, y, 0); return self.c(1, v); }
        if a == b { return self.c(1, matches!(op, Op::Ule | Op::Sle) as u128); }
        if matches!(op, Op::Slt | Op::Sle) {
            let top = 1u128 << (w - 1);
            let (ra, rb) = (self.srange(a), self.srange(b));
            if ra.1 < rb.0 || (op == Op::Sle && ra.1 <= rb.0) { return self.c(1, 1); }
            if ra.0 > rb.1 || (op == Op::Slt && ra.0 >= rb.1) { return self.c(1, 0); }
            let (xa, xb) = (self.umax(a), self.umax(b));
            if xa < top && xb < top { return self.cmp(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b); }
            // negative constants against provably non-negative values
            if let Some(k) = self.cv(b) { if k >= top && xa < top { return self.c(1, 0); } }
            if let Some(k) = self.cv(a) { if k >= top && xb < top { return self.c(1, 1); } }
            // base + c (c negative) forms: shift both sides when neither side can wrap
            if let Some(r) = self.signed_offset_cmp(op, a, b) { return r; }
        } else {
            if op == Op::Ult && self.umax(a) < self.umin(b) { return self.c(1, 1); }
            if op == Op::Ult && self.umin(a) >= self.umax(b) { return self.c(1, 0); }
            if op == Op::Ule && self.umax(a) <= self.umin(b) { return self.c(1, 1); }
            if op == Op::Ule && self.umin(a) > self.umax(b) { return self.c(1, 0); }
            if op == Op::Ult { if let Some(0) = self.cv(b) { return self.c(1, 0); } if self.cv(b) == Some(1) { let z = self.c(w, 0); return self.eq(a, z); } if self.cv(a) == Some(0) { let z = self.c(w, 0); let e = self.eq(b, z); return self.not(e); } }
            if op == Op::Ule { if self.cv(a) == Some(1) { let z = self.c(w, 0); let e = self.eq(b, z); return self.not(e); } if self.cv(b) == Some(0) { return self.eq(a, b); } }
            let k = Self::bits_for(self.umax(a).max(self.umax(b)));
            if k < w { let x = self.extract(k - 1, 0, a); let y = self.extract(k - 1, 0, b); if self.w(x) < w { if let (Some(_), Some(_)) = (self.cv(x), self.cv(y)) { return self.cmp(op, x, y); } return self.mk_cmp(op, x, y); } }
        }
        self.mk_cmp(op, a, b)
    }
    fn mk_cmp(&mut self, op: Op, a: E, b: E) -> E { self.mk(Node { op, w: 1, a, b, c: 0, k: 0 }) }
    /// a = x + ca, b = y + cb with x, y small non-negative and ca, cb small: compare in a
    /// shifted unsigned domain (exact because nothing wraps).
    fn signed_offset_cmp(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let split = |s: &Self, e: E| -> (Option<E>, i128) { let n = s.n(e); match n.op { Op::Const => (None, sx(n.k, w)), Op::Add => match s.cv(n.b) { Some(k) => (Some(n.a), sx(k, w)), None => (Some(e), 0) }, _ => (Some(e), 0) } };
        let (x, ca) = split(self, a);
        let (y, cb) = split(self, b);
        let lim = 1u128 << 40;
        let small = |s: &Self, e: Option<E>| e.map_or(true, |e| s.umax(e) < lim);
        if w < 48 || !small(self, x) || !small(self, y) || ca.unsigned_abs() >= lim || cb.unsigned_abs() >= lim { return None; }
        let off = -ca.min(cb);
        let ka = (ca + off) as u128;
        let kb = (cb + off) as u128;
        let za = self.c(w, ka);
        let zb = self.c(w, kb);
        let l = match x { Some(x) => self.bin(Op::Add, x, za), None => za };
        let r = match y { Some(y) => self.bin(Op::Add, y, zb), None => zb };
        Some(self.cmp(if op == Op::Slt { Op::Ult } else { Op::Ule }, l, r))
    }
    pub fn op1(&mut self, op: Op, w: u16, a: E, k: u128) -> E {
        if let Some(x) = self.cv(a) { let aw = self.w(a); let v = eval_op(op, w, k, aw, x, 0, 0); return self.c(w, v); }
        self.mk(Node { op, w, a, b: 0, c: 0, k })
    }
    pub fn op2(&mut self, op: Op, w: u16, a: E, b: E) -> E {
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) { let aw = self.w(a); let v = eval_op(op, w, 0, aw, x, y, 0); return self.c(w, v); }
        match op {
            Op::UMulOvf => { if let Some(p) = self.umax(a).checked_mul(self.umax(b)) { if p <= mask(self.w(a)) { return self.c(1, 0); } } }
            Op::SMulOvf => {
                let top = mask(self.w(a) - 1);
                if let Some(p) = self.umax(a).checked_mul(self.umax(b)) { if p <= top && self.umax(a) <= top && self.umax(b) <= top { return self.c(1, 0); } }
                // |x| bounds through small signed forms
                if let (Some(x), Some(y)) = (self.sabs(a), self.sabs(b)) { if let Some(p) = x.checked_mul(y) { if p <= top { return self.c(1, 0); } } }
                if self.w(a) > 1 && (self.cv(a) == Some(1) || self.cv(b) == Some(1)) || self.cv(a) == Some(0) || self.cv(b) == Some(0) { return self.c(1, 0); }
            }
            _ => {}
        }
        self.mk(Node { op, w, a, b, c: 0, k: 0 })
    }
    /// bound on the absolute value of a signed expression of the form x + c
    fn sabs(&self, e: E) -> Option<u128> {
        let n = self.n(e);
        let top = mask(n.w - 1);
        let u = self.umax(e);
        if u <= top { return Some(u); }
        match n.op {
            Op::Const => Some(sx(n.k, n.w).unsigned_abs()),
            Op::Add => { let k = self.cv(n.b)?; let m = self.umax(n.a); if m > top >> 2 { return None; } let k = sx(k, n.w).unsigned_abs(); if k > top >> 2 { None } else { Some(m + k) } }
            Op::SExt => Some(1u128 << (self.w(n.a) - 1)),
            _ => None,
        }
    }
    pub fn vars_of(&mut self, e: E) -> std::rc::Rc<Vec<u32>> {
        if let Some(v) = &self.varset[e as usize] { return v.clone(); }
        // iterative post-order
        let mut stack = vec![(e, false)];
        while let Some((x, done)) = stack.pop() {
            if self.varset[x as usize].is_some() { continue; }
            let n = self.n(x);
            let kids = self.kids(&n);
            if !done {
                stack.push((x, true));
                for k in kids { if self.varset[k as usize].is_none() { stack.push((k, false)); } }
            } else {
                let mut v: Vec<u32> = if n.op == Op::Var { vec![n.k as u32] } else { vec![] };
                for k in kids { v.extend(self.varset[k as usize].as_ref().unwrap().iter()); }
                v.sort_unstable(); v.dedup();
                self.varset[x as usize] = Some(std::rc::Rc::new(v));
            }
        }
        self.varset[e as usize].clone().unwrap()
    }
    pub fn has_fp(&mut self, e: E) -> bool {
        self.gen += 1;
        let g = self.gen;
        let mut st = vec![e];
        while let Some(x) = st.pop() {
            if self.memo_gen[x as usize] == g { continue; }
            self.memo_gen[x as usize] = g;
            let n = self.n(x);
            if n.op as u8 >= Op::FAdd as u8 { return true; }
            st.extend(self.kids(&n));
        }
        false
    }
    pub fn kids(&self, n: &Node) -> Vec<E> {
        match n.op {
            Op::Const | Op::Var => vec![],
            Op::Extract | Op::ZExt | Op::SExt | Op::Not | Op::FIsNan | Op::FToF | Op::SiToF | Op::UiToF | Op::FToSiSat | Op::FToUiSat | Op::FSqrt | Op::FRound => vec![n.a],
            Op::Ite => vec![n.a, n.b, n.c],
            _ => vec![n.a, n.b],
        }
    }
    /// Evaluate under a model; `val(var id)`.
    pub fn eval(&mut self, e: E, model: &[u128]) -> u128 {
        self.gen += 1;
        let g = self.gen;
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.memo_gen[x as usize] == g { stack.pop(); continue; }
            let n = self.n(x);
            let v = match n.op {
                Op::Const => n.k,
                Op::Var => model.get(n.k as usize).copied().unwrap_or(0) & mask(n.w),
                _ => {
                    let mut ready = true;
                    for k in self.kids(&n) { if self.memo_gen[k as usize] != g { stack.push(k); ready = false; } }
                    if !ready { continue; }
                    let a = self.memo_val[n.a as usize];
                    let b = self.memo_val[n.b as usize];
                    let c = self.memo_val[n.c as usize];
                    let aw = self.w(n.a);
                    if n.op == Op::Concat { (a << self.w(n.b)) | b } else { eval_op(n.op, n.w, n.k, aw, a, b, c) }
                }
            };
            self.memo_val[x as usize] = v;
            self.memo_gen[x as usize] = g;
            stack.pop();
        }
        self.memo_val[e as usize]
    }
}

/// Random cross-check of the simplifier against direct evaluation.
pub fn selftest(rounds: u64) {
    let mut seed = 0x9e3779b97f4a7c15u64;
    let mut rnd = move || { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; seed };
    let mut total = 0u64;
    for round in 0..rounds / 1000 {
        let mut cx = Ctx::new();
        let ws = [1u16, 3, 8, 16, 32, 64];
        let mut pool: Vec<(E, u128)> = vec![];
        let mut model = vec![];
        for (i, &w) in ws.iter().chain(ws.iter()).enumerate() { let e = cx.var(format!("v{i}"), w); let mut v = rnd() as u128 & mask(w); if rnd() % 3 == 0 { v &= 3; } model.push(v); pool.push((e, v)); }
        for _ in 0..1000 {
            let pick = |r: u64, pool: &Vec<(E, u128)>| pool[(r % pool.len() as u64) as usize];
            let (a, av) = pick(rnd(), &pool);
            let w = cx.w(a);
            let (b, bv) = if rnd() % 3 == 0 { let k = match rnd() % 5 { 0 => 0, 1 => 1, 2 => mask(w), 3 => rnd() as u128, _ => (rnd() % 16) as u128 } & mask(w); (cx.c(w, k), k) } else { let mut t = pick(rnd(), &pool); for _ in 0..40 { if cx.w(t.0) == w { break; } t = pick(rnd(), &pool); } if cx.w(t.0) != w { (a, av) } else { t } };
            let swap = rnd() % 2 == 0;
            let ((a, av), (b, bv)) = if swap { ((b, bv), (a, av)) } else { ((a, av), (b, bv)) };
            let which = rnd() % 26; let (e, v) = match which {
                0 => (cx.bin(Op::Add, a, b), eval_op(Op::Add, w, 0, w, av, bv, 0)), 1 => (cx.bin(Op::Sub, a, b), eval_op(Op::Sub, w, 0, w, av, bv, 0)), 2 => (cx.bin(Op::Mul, a, b), eval_op(Op::Mul, w, 0, w, av, bv, 0)),
                3 => (cx.bin(Op::UDiv, a, b), eval_op(Op::UDiv, w, 0, w, av, bv, 0)), 4 => (cx.bin(Op::SDiv, a, b), eval_op(Op::SDiv, w, 0, w, av, bv, 0)), 5 => (cx.bin(Op::URem, a, b), eval_op(Op::URem, w, 0, w, av, bv, 0)), 6 => (cx.bin(Op::SRem, a, b), eval_op(Op::SRem, w, 0, w, av, bv, 0)),
                7 => (cx.bin(Op::And, a, b), av & bv), 8 => (cx.bin(Op::Or, a, b), av | bv), 9 => (cx.bin(Op::Xor, a, b), av ^ bv),
                10 => (cx.bin(Op::Shl, a, b), eval_op(Op::Shl, w, 0, w, av, bv, 0)), 11 => (cx.bin(Op::LShr, a, b), eval_op(Op::LShr, w, 0, w, av, bv, 0)), 12 => (cx.bin(Op::AShr, a, b), eval_op(Op::AShr, w, 0, w, av, bv, 0)),
                13 => (cx.eq(a, b), (av == bv) as u128), 14 => (cx.cmp(Op::Ult, a, b), (av < bv) as u128), 15 => (cx.cmp(Op::Ule, a, b), (av <= bv) as u128), 16 => (cx.cmp(Op::Slt, a, b), (sx(av, w) < sx(bv, w)) as u128), 17 => (cx.cmp(Op::Sle, a, b), (sx(av, w) <= sx(bv, w)) as u128),
                18 => (cx.not(a), !av & mask(w)),
                19 => { let hi = (rnd() % w as u64) as u16; let lo = (rnd() % (hi as u64 + 1)) as u16; (cx.extract(hi, lo, a), (av >> lo) & mask(hi - lo + 1)) }
                20 => { let bw = cx.w(b); if w + bw <= 64 { (cx.concat(a, b), (av << bw) | bv) } else { continue } }
                21 => { let nw = *[8u16, 16, 32, 64].iter().find(|&&x| x >= w).unwrap(); (cx.zext(a, nw), av) }
                22 => { let nw = *[8u16, 16, 32, 64].iter().find(|&&x| x >= w).unwrap(); (cx.sext(a, nw), sx(av, w) as u128 & mask(nw)) }
                23 => { let (c, cvv) = { let mut t = pick(rnd(), &pool); for _ in 0..60 { if cx.w(t.0) == 1 { break; } t = pick(rnd(), &pool); } if cx.w(t.0) != 1 { continue } t }; (cx.ite(c, a, b), if cvv == 1 { av } else { bv }) }
                24 => (cx.op2(Op::UMulOvf, 1, a, b), eval_op(Op::UMulOvf, 1, 0, w, av, bv, 0)),
                _ => (cx.op2(Op::SMulOvf, 1, a, b), eval_op(Op::SMulOvf, 1, 0, w, av, bv, 0)),
            };
            total += 1;
            let got = cx.eval(e, &model);
            let (ul, uh) = (cx.umin(e), cx.umax(e));
            let sr = cx.srange(e);
            let wv = cx.w(e);
            if got != v || v < ul || v > uh || sx(v, wv) < sr.0 || sx(v, wv) > sr.1 { println!("selftest FAILED round {round}: got {got:#x} want {v:#x} range {ul:#x}..{uh:#x} {sr:?} node {:?} op {which} a={av:#x} {:?} b={bv:#x} {:?}", cx.n(e), cx.n(a), cx.n(b)); std::process::exit(1); }
            if cx.w(e) <= 64 { pool.push((e, v)); if pool.len() > 120 { let k = 12 + (rnd() % 100) as usize; pool.swap_remove(k); } }
        }
    }
    println!("selftest: {total} operations agree");
}
