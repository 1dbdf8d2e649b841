//! Symbolic execution of the LLVM IR of the real code.
use crate::expr::{self, mask, sx, Ctx, Op, E};
use crate::ir::{self, Bin, Body, CallI, Callee, Cast, FPred, Ins, Module, Opnd, Pred, Rmw, Ty, TyId, CV};
use crate::mem::Mem;
use crate::z3::{Res, Z3};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val { C(u128), S(E), A(Rc<Vec<Val>>) }

#[derive(Clone)]
pub struct Frame { f: u32, body: Rc<Body>, regs: Vec<Val>, pc: usize, blk: u32, dst: Option<u32>, normal: Option<u32>, sp0: u64 }

#[derive(Clone)]
pub struct State {
    mem: Mem, top: Frame, stack: Vec<Rc<Frame>>, heap: u64, sp: u64,
    pc: Vec<E>, model: Rc<Vec<u128>>, fixed: Rc<HashMap<E, u128>>,
    panic_ok: bool, steps: u64, magic: Rc<Vec<E>>, nvars: Rc<HashMap<String, u32>>, inputs: Rc<Vec<(String, E)>>,
    covered: Rc<Vec<String>>, observed: Rc<Vec<(String, Val)>>, pknown: Option<(Val, Rc<String>)>, decisions: u32, fds: Rc<Vec<Option<(u32, u64)>>>, vfs: Rc<Vec<(Vec<u8>, u64, u64)>>, failed: bool,
}

pub enum Stop { End, Panic(String), Internal(String), Conc(E), Jump }
type R<T> = Result<T, Stop>;

#[derive(Clone, Debug, PartialEq, Eq)]
enum Bi {
    None, Ext(String),
    Nop, Zero, Assume, Memcpy, Memset, Ovf(char, Bin, u16), Sat(char, Bin, u16), MinMax(Pred, u16), Abs(u16), Ucmp(bool, u16), Ctlz(u16), Cttz(u16), Ctpop(u16), Bswap(u16), Bitrev(u16),
    Fsh(bool, u16), FpSat(bool), FpClass(u16), Fabs(u16), Fun1(String, u16), FMinMax(bool, u16), Copysign(u16), Fma(u16), TlsAddr, Trap, IsConst, Expect, LoadRel, PtrMask, ReduceOr, ReduceAnd, ReduceAdd,
    Panic, FmtInt(u16, bool), FmtFloat(u16), Sym(String),
}

pub struct Trace { pub inputs: Vec<(String, u64)>, pub events: Vec<String>, pub panicked: bool }
pub struct Violation { pub label: String, pub detail: String, pub inputs: Vec<(String, u64)>, pub known: Option<String> }

pub struct Exec {
    pub m: Module, pub cx: Ctx, pub z3: Z3,
    bi: Vec<Option<Bi>>,
    pub work: Vec<State>,
    pub cov: Vec<bool>,
    cache: HashMap<Vec<E>, Option<Rc<Vec<(u32, u128)>>>>,
    enums: HashMap<(Vec<E>, E), Rc<Vec<u128>>>,
    recent: Vec<Rc<Vec<u128>>>,
    pub paths: u64, pub accepted: BTreeMap<String, u64>, pub checks: BTreeMap<String, (u64, u64)>, pub covers: BTreeMap<String, u64>,
    pub violations: Vec<Violation>, pub inconclusive: BTreeMap<String, u64>, pub total_steps: u64, pub infeasible: u64,
    pub cache_hits: u64, pub deadline: Instant, pub max_steps: u64, pub verbose: bool, pub args: Vec<i64>, pub assumes: HashSet<String>, pub maxviol: usize,
    seen_var: HashMap<(String, u16), E>,
    pub concretized: u64, pub prints: bool, errno: u64, pub ext_used: BTreeMap<String, u64>, pub placeholders: u64, pub profile: BTreeMap<String, u64>, pub do_profile: bool,
    pub stop_at_violation: bool, pub traces: Vec<Trace>, pub max_traces: usize, pub seed: u64,
}

const HEAP: u64 = 0x10_0000_0000;
const STACK: u64 = 0x70_0000_0000;
pub const MAGIC: u64 = 1_000_000_007;

fn fwidth_ok(w: u16) -> bool { w == 32 || w == 64 }

impl Exec {
    pub fn new(m: Module, z3: Z3) -> Exec {
        let n = m.funcs.len();
        let maxm = m.meta.keys().copied().max().unwrap_or(0) as usize + 1;
        Exec { m, cx: Ctx::new(), z3, bi: vec![None; n], work: vec![], cov: vec![false; maxm], cache: HashMap::new(), enums: HashMap::new(), recent: vec![], paths: 0, accepted: BTreeMap::new(), checks: BTreeMap::new(), covers: BTreeMap::new(), violations: vec![], inconclusive: BTreeMap::new(), total_steps: 0, infeasible: 0, cache_hits: 0, deadline: Instant::now(), max_steps: u64::MAX, verbose: false, args: vec![], assumes: HashSet::new(), maxviol: 3, seen_var: HashMap::new(), concretized: 0, prints: false, errno: 0, ext_used: BTreeMap::new(), placeholders: 0, profile: BTreeMap::new(), do_profile: false, stop_at_violation: false, traces: vec![], max_traces: 16, seed: 1 }
    }

    pub fn start(&mut self, entry: &str, args: &[i64]) -> Result<(), String> {
        let f = *self.m.fmap.get(entry).ok_or(format!("no entry {entry}"))?;
        let mut mem = Mem::new();
        for g in &self.m.inits { mem.write(g.addr, &g.bytes); }
        self.errno = HEAP - 64;
        let body = self.m.body(f);
        let mut regs = vec![Val::C(0); body.nregs];
        let _ = args;
        let top = Frame { f, body, regs, pc: 0, blk: 0, dst: None, normal: None, sp0: STACK };
        self.work.push(State { mem, top, stack: vec![], heap: HEAP, sp: STACK, pc: vec![], model: Rc::new(vec![]), fixed: Rc::new(HashMap::new()), panic_ok: false, steps: 0, magic: Rc::new(vec![]), nvars: Rc::new(HashMap::new()), inputs: Rc::new(vec![]), covered: Rc::new(vec![]), observed: Rc::new(vec![]), pknown: None, decisions: 0, fds: Rc::new(vec![]), vfs: Rc::new(vec![]), failed: false });
        Ok(())
    }

    pub fn run(&mut self) {
        while let Some(mut st) = self.work.pop() {
            if Instant::now() > self.deadline { *self.inconclusive.entry("time budget exhausted".into()).or_insert(0) += self.work.len() as u64 + 1; return; }
            if self.stop_at_violation && self.violations.iter().any(|v| v.known.is_none()) { *self.inconclusive.entry("stopped at the first violation".into()).or_insert(0) += 1; return; }
            let r = self.run_state(&mut st);
            self.total_steps += st.steps;
            match r {
                Stop::End => if st.failed { self.paths += 1 } else { self.finish(&st, false) },
                Stop::Panic(loc) => {
                    if std::env::var_os("SYMX_TRACE_PANIC").is_some() { eprintln!("panic {loc}\n{}", self.backtrace(&st)); }
                    if st.panic_ok { *self.accepted.entry(loc).or_insert(0) += 1; self.finish(&st, true); }
                    else if let Some((v, id)) = st.pknown.clone() {
                        let d = format!("panic at {loc}");
                        self.paths += 1;
                        let k = self.b1(&v); let nk = self.cx.not(k);
                        match self.sat(&st, nk) { Ok(None) => {} Ok(Some(m)) => self.violate(&st, "panic", &d, None, m), Err(()) => *self.inconclusive.entry("solver gave up on a panic".into()).or_insert(0) += 1 }
                        match self.sat(&st, k) { Ok(None) => {} Ok(Some(m)) => self.violate(&st, "panic", &d, Some(id.to_string()), m), Err(()) => *self.inconclusive.entry("solver gave up on a panic".into()).or_insert(0) += 1 }
                    }
                    else { let d = format!("panic at {loc}"); self.violate(&st, "panic", &d, None, st.model.clone()); self.paths += 1; }
                }
                Stop::Internal(m) => { if self.verbose { eprintln!("internal: {m}\n{}", self.backtrace(&st)); } *self.inconclusive.entry(m).or_insert(0) += 1; }
                Stop::Conc(_) | Stop::Jump => unreachable!(),
            }
        }
    }
    fn finish(&mut self, st: &State, panicked: bool) {
        // a sample of the explored paths, each with a concrete witness that the driver replays natively
        let mut r = self.seed.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(self.paths.wrapping_mul(0xD134_2543_DE82_EF95));
        r ^= r >> 29; r = r.wrapping_mul(0xBF58_476D_1CE4_E5B9); r ^= r >> 32;
        let slot = if self.traces.len() < self.max_traces { Some(self.traces.len()) } else { let k = (r % (self.paths + 1)) as usize; if k < self.max_traces { Some(k) } else { None } };
        if let Some(k) = slot {
            let inputs = st.inputs.iter().map(|(n, e)| (n.clone(), self.cx.eval(*e, &st.model) as u64)).collect();
            let mut events: Vec<String> = st.covered.iter().map(|c| format!("cover {c}")).collect();
            for (n, v) in st.observed.iter() { let k = match v { Val::C(k) => *k as u64, Val::S(e) => self.cx.eval(*e, &st.model) as u64, _ => 0 }; events.push(format!("obs {n} = {}", k as i64)); }
            let t = Trace { inputs, events, panicked };
            if k < self.traces.len() { self.traces[k] = t } else { self.traces.push(t) }
        }
        self.paths += 1; for c in st.covered.iter() { *self.covers.entry(c.clone()).or_insert(0) += 1; } }
    pub fn backtrace(&self, st: &State) -> String {
        let mut s = String::new();
        let one = |f: &Frame| -> String {
            let k = f.body.dbg.get(f.pc).copied().unwrap_or(0);
            let mut out = format!("  {}", self.m.funcs[f.f as usize].name);
            let mut k2 = Some(k);
            while let Some(k) = k2 { if let Some((fl, ln, nm)) = self.m.loc(k) { let short: String = nm.chars().take(90).collect(); out += &format!("\n      {}:{} {}", fl, ln, short); } k2 = self.m.inlined_at(k); }
            out + "\n"
        };
        s += &one(&st.top);
        for f in st.stack.iter().rev().take(14) { s += &one(f); }
        s
    }
    fn violate(&mut self, st: &State, label: &str, detail: &str, known: Option<String>, model: Rc<Vec<u128>>) {
        if self.violations.iter().filter(|v| v.label == label && v.known == known && (v.detail == detail)).count() >= 1 { return; }
        if known.is_none() && self.violations.iter().filter(|v| v.known.is_none()).count() >= self.maxviol { return; }
        let inputs = st.inputs.iter().map(|(n, e)| (n.clone(), self.cx.eval(*e, &model) as u64)).collect();
        self.violations.push(Violation { label: label.into(), detail: detail.into(), inputs, known });
    }

    // ------------------------------------------------------------ solving
    fn slice(&mut self, pc: &[E], q: E) -> Vec<E> {
        let mut vars: HashSet<u32> = self.cx.vars_of(q).iter().copied().collect();
        let mut used = vec![false; pc.len()];
        loop {
            let mut changed = false;
            for (i, &c) in pc.iter().enumerate() {
                if used[i] { continue; }
                let vs = self.cx.vars_of(c);
                if vs.iter().any(|v| vars.contains(v)) { used[i] = true; changed = true; for v in vs.iter() { vars.insert(*v); } }
            }
            if !changed { break; }
        }
        pc.iter().zip(used).filter(|(_, u)| *u).map(|(c, _)| *c).collect()
    }
    /// Some(model) / None = unsat; Err on unknown
    fn sat(&mut self, st: &State, q: E) -> Result<Option<Rc<Vec<u128>>>, ()> {
        match self.cx.cv(q) { Some(0) => return Ok(None), Some(_) => return Ok(Some(st.model.clone())), None => {} }
        let mut cs = self.slice(&st.pc, q);
        cs.push(q);
        cs.sort_unstable(); cs.dedup();
        if let Some(r) = self.cache.get(&cs) { self.cache_hits += 1; let r = r.clone(); return Ok(r.map(|m| self.merge(st, &m))); }
        for i in (0..self.recent.len()).rev() {
            let m = self.recent[i].clone();
            if cs.iter().all(|&c| self.cx.eval(c, &m) == 1) {
                self.cache_hits += 1;
                let mut vars: Vec<u32> = vec![]; for &c in &cs { vars.extend(self.cx.vars_of(c).iter()); } vars.sort_unstable(); vars.dedup();
                let part: Vec<(u32, u128)> = vars.iter().map(|&v| (v, m.get(v as usize).copied().unwrap_or(0))).collect();
                return Ok(Some(self.merge(st, &part)));
            }
        }
        let r = match self.z3.check(&mut self.cx, &cs) { Res::Sat(m) => Some(Rc::new(m)), Res::Unsat => None, Res::Unknown => return Err(()) };
        self.cache.insert(cs.clone(), r.clone());
        Ok(match r {
            None => None,
            Some(m) => {
                let full = self.merge(st, &m);
                for &c in &cs { if self.cx.eval(c, &full) != 1 { eprintln!("symx: solver model does not satisfy the query (encoding mismatch)"); std::process::exit(3); } }
                self.recent.push(full.clone());
                if self.recent.len() > 12 { self.recent.remove(0); }
                Some(full)
            }
        })
    }
    fn merge(&self, st: &State, m: &[(u32, u128)]) -> Rc<Vec<u128>> {
        let mut v = (*st.model).clone();
        v.resize(self.cx.vars.len(), 0);
        for &(i, x) in m { v[i as usize] = x; }
        Rc::new(v)
    }
    fn assume(&mut self, st: &mut State, c: E) {
        let n = self.cx.n(c);
        match n.op {
            Op::Const => return,
            Op::And => { self.assume(st, n.a); self.assume(st, n.b); return; }
            _ => {}
        }
        let f = Rc::make_mut(&mut st.fixed);
        f.insert(c, 1);
        match n.op { Op::Not => { f.insert(n.a, 0); } Op::Eq => if let Some(k) = self.cx.cv(n.b) { f.insert(n.a, k); let nn = self.cx.n(n.a); if nn.op == Op::Add { if let Some(k2) = self.cx.cv(nn.b) { f.insert(nn.a, k.wrapping_sub(k2) & mask(nn.w)); } } }, _ => {} }
        let nc = self.cx.not(c);
        Rc::make_mut(&mut st.fixed).insert(nc, 0);
        st.pc.push(c);
    }
    fn mk(&self, st: &State, e: E) -> Val {
        if let Some(v) = self.cx.cv(e) { return Val::C(v); }
        if let Some(&v) = st.fixed.get(&e) { return Val::C(v); }
        Val::S(e)
    }
    fn norm(&self, st: &State, v: &Val) -> Val { match v { Val::S(e) => self.mk(st, *e), x => x.clone() } }
    fn ex(&mut self, v: &Val, w: u16) -> E { match v { Val::C(k) => self.cx.c(w, *k), Val::S(e) => { debug_assert_eq!(self.cx.w(*e), w); *e } Val::A(_) => panic!("aggregate as scalar") } }
    fn conc(&mut self, st: &State, v: &Val) -> R<u128> { match self.norm(st, v) { Val::C(k) => Ok(k), Val::S(e) => Err(Stop::Conc(e)), _ => panic!("conc of aggregate") } }
    /// all values of e under the path condition (at most `limit`)
    fn values(&mut self, st: &State, e: E, limit: usize) -> R<Option<Rc<Vec<u128>>>> {
        let mut key = self.slice(&st.pc, e);
        key.sort_unstable();
        let key = (key, e);
        if let Some(v) = self.enums.get(&key) { return Ok(Some(v.clone())); }
        let w = self.cx.w(e);
        let mut out = vec![self.cx.eval(e, &st.model)];
        let k = self.cx.c(w, out[0]);
        let eq = self.cx.eq(e, k);
        let mut ex = self.cx.not(eq);
        loop {
            match self.sat(st, ex) {
                Ok(None) => break,
                Ok(Some(m)) => {
                    let v = self.cx.eval(e, &m);
                    out.push(v);
                    if out.len() > limit { return Ok(None); }
                    let k = self.cx.c(w, v); let eq = self.cx.eq(e, k); let ne = self.cx.not(eq);
                    ex = self.cx.bin(Op::And, ex, ne);
                }
                Err(()) => return Err(Stop::Internal("solver gave up while enumerating values".into())),
            }
        }
        out.sort_unstable();
        let r = Rc::new(out);
        self.enums.insert(key, r.clone());
        Ok(Some(r))
    }
    /// exhaustive case split on the value of e
    fn fork_values(&mut self, st: &mut State, e: E) -> R<()> {
        self.concretized += 1;
        let vals = match self.values(st, e, 130)? {
            Some(v) => v,
            None => {
                // split on a variable instead
                let vs = self.cx.vars_of(e);
                let mut best: Option<(u16, E)> = None;
                for &v in vs.iter() { let vi = &self.cx.vars[v as usize]; if st.fixed.contains_key(&vi.e) { continue; } if vi.w <= 12 && best.map_or(true, |b| vi.w < b.0) { best = Some((vi.w, vi.e)); } }
                match best { Some((_, ve)) if ve != e => { if let Some(v) = self.values(st, ve, 5000)? { return self.split(st, ve, &v); } } _ => {} }
                return Err(Stop::Internal(format!("unbounded case split\n{}", self.backtrace(st))));
            }
        };
        self.split(st, e, &vals)
    }
    fn split(&mut self, st: &mut State, e: E, vals: &[u128]) -> R<()> {
        let w = self.cx.w(e);
        let cur = self.cx.eval(e, &st.model);
        for &v in vals {
            if v == cur { continue; }
            let k = self.cx.c(w, v); let eq = self.cx.eq(e, k);
            match self.sat(st, eq) {
                Ok(Some(m)) => { let mut s2 = st.clone(); s2.model = m; s2.decisions += 1; self.assume(&mut s2, eq); Rc::make_mut(&mut s2.fixed).insert(e, v); s2.steps = 0; self.work.push(s2); }
                Ok(None) => {}
                Err(()) => return Err(Stop::Internal("solver gave up on a case split".into())),
            }
        }
        let k = self.cx.c(w, cur); let eq = self.cx.eq(e, k);
        self.assume(st, eq);
        Rc::make_mut(&mut st.fixed).insert(e, cur);
        st.decisions += 1;
        Ok(())
    }

    // ------------------------------------------------------------ operands
    #[inline]
    fn op(&self, st: &State, o: &Opnd) -> Val {
        match o { Opnd::R(r) => match &st.top.regs[*r as usize] { Val::S(e) => match st.fixed.get(e) { Some(v) => Val::C(*v), None => Val::S(*e) }, v => v.clone() }, Opnd::C(k) => Val::C(*k), Opnd::A(a) => Val::A(Rc::new(a.iter().map(cv).collect())) }
    }
    fn binop(&mut self, st: &State, op: Bin, w: u16, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = mask(w);
            return Ok(Val::C(match op {
                Bin::Add => x.wrapping_add(y) & m, Bin::Sub => x.wrapping_sub(y) & m, Bin::And => x & y, Bin::Or => x | y, Bin::Xor => x ^ y,
                Bin::Mul => x.wrapping_mul(y) & m,
                Bin::Shl => if y >= w as u128 { 0 } else { (x << y) & m }, Bin::LShr => if y >= w as u128 { 0 } else { x >> y },
                Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem if y == 0 => return Err(Stop::Internal("division by zero in the IR".into())),
                Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv | Bin::FRem if !fwidth_ok(w) => return Err(Stop::Internal("half-precision arithmetic".into())),
                _ => expr::eval_op(eop(op), w, 0, w, x, y, 0),
            }));
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = match op {
            Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv | Bin::FRem => { if !fwidth_ok(w) { return Err(Stop::Internal("half-precision arithmetic".into())); } self.cx.op2(eop(op), w, x, y) }
            _ => self.cx.bin(eop(op), x, y),
        };
        Ok(self.mk(st, e))
    }
    fn icmp(&mut self, st: &State, p: Pred, w: u16, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let r = match p { Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y, _ => { let (x, y) = (sx(x, w), sx(y, w)); match p { Pred::Sgt => x > y, Pred::Sge => x >= y, Pred::Slt => x < y, _ => x <= y } } };
            return Val::C(r as u128);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = match p {
            Pred::Eq => self.cx.eq(x, y), Pred::Ne => { let t = self.cx.eq(x, y); self.cx.not(t) }
            Pred::Ugt => self.cx.cmp(Op::Ult, y, x), Pred::Uge => self.cx.cmp(Op::Ule, y, x), Pred::Ult => self.cx.cmp(Op::Ult, x, y), Pred::Ule => self.cx.cmp(Op::Ule, x, y),
            Pred::Sgt => self.cx.cmp(Op::Slt, y, x), Pred::Sge => self.cx.cmp(Op::Sle, y, x), Pred::Slt => self.cx.cmp(Op::Slt, x, y), Pred::Sle => self.cx.cmp(Op::Sle, x, y),
        };
        self.mk(st, e)
    }
    fn fcmp(&mut self, st: &State, p: FPred, w: u16, a: &Val, b: &Val) -> R<Val> {
        if !fwidth_ok(w) { return Err(Stop::Internal("half-precision compare".into())); }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let un = { let p = self.cx.op1(Op::FIsNan, 1, x, 0); let q = self.cx.op1(Op::FIsNan, 1, y, 0); self.cx.bin(Op::Or, p, q) };
        let eq = |s: &mut Self| s.cx.op2(Op::FEq, 1, x, y);
        let lt = |s: &mut Self| s.cx.op2(Op::FLt, 1, x, y);
        let gt = |s: &mut Self| s.cx.op2(Op::FLt, 1, y, x);
        let le = |s: &mut Self| s.cx.op2(Op::FLe, 1, x, y);
        let ge = |s: &mut Self| s.cx.op2(Op::FLe, 1, y, x);
        let e = match p {
            FPred::False => self.cx.c(1, 0), FPred::True => self.cx.c(1, 1),
            FPred::Oeq => eq(self), FPred::Ogt => gt(self), FPred::Oge => ge(self), FPred::Olt => lt(self), FPred::Ole => le(self),
            FPred::One => { let q = lt(self); let r = gt(self); self.cx.bin(Op::Or, q, r) }
            FPred::Ord => self.cx.not(un), FPred::Uno => un,
            FPred::Ueq => { let q = lt(self); let r = gt(self); let o = self.cx.bin(Op::Or, q, r); self.cx.not(o) }
            FPred::Ugt => { let q = le(self); self.cx.not(q) } FPred::Uge => { let q = lt(self); self.cx.not(q) }
            FPred::Ult => { let q = ge(self); self.cx.not(q) } FPred::Ule => { let q = gt(self); self.cx.not(q) }
            FPred::Une => { let q = eq(self); self.cx.not(q) }
        };
        Ok(self.mk(st, e))
    }
    fn cast1(&mut self, st: &State, c: Cast, fw: u16, tw: u16, v: &Val) -> R<Val> {
        if let Val::C(x) = v {
            let x = *x;
            return Ok(Val::C(match c {
                Cast::Trunc => x & mask(tw), Cast::ZExt | Cast::Bits => x & mask(tw), Cast::SExt => sx(x, fw) as u128 & mask(tw),
                Cast::FPTrunc | Cast::FPExt => { if fw == 16 { let f = half_to_f32(x as u16); if tw == 32 { f.to_bits() as u128 } else { (f as f64).to_bits() as u128 } } else if tw == 16 { return Err(Stop::Internal("fptrunc to half".into())) } else { expr::eval_op(Op::FToF, tw, 0, fw, x, 0, 0) } }
                Cast::SiToFp => expr::eval_op(Op::SiToF, tw, 0, fw, x, 0, 0), Cast::UiToFp => expr::eval_op(Op::UiToF, tw, 0, fw, x, 0, 0),
                Cast::FpToSi => expr::eval_op(Op::FToSiSat, tw, 0, fw, x, 0, 0), Cast::FpToUi => expr::eval_op(Op::FToUiSat, tw, 0, fw, x, 0, 0),
            }));
        }
        let e = self.ex(v, fw);
        if matches!(c, Cast::FPTrunc | Cast::FPExt | Cast::SiToFp | Cast::UiToFp | Cast::FpToSi | Cast::FpToUi) && (fw == 16 && matches!(c, Cast::FPExt) || tw == 16 && matches!(c, Cast::FPTrunc)) { return Err(Stop::Internal("symbolic half".into())); }
        let r = match c {
            Cast::Trunc => self.cx.extract(tw - 1, 0, e), Cast::ZExt => self.cx.zext(e, tw), Cast::SExt => self.cx.sext(e, tw),
            Cast::Bits => if tw < fw { self.cx.extract(tw - 1, 0, e) } else { self.cx.zext(e, tw) },
            Cast::FPTrunc | Cast::FPExt => self.cx.op1(Op::FToF, tw, e, 0),
            Cast::SiToFp => self.cx.op1(Op::SiToF, tw, e, 0), Cast::UiToFp => self.cx.op1(Op::UiToF, tw, e, 0),
            Cast::FpToSi => self.cx.op1(Op::FToSiSat, tw, e, 0), Cast::FpToUi => self.cx.op1(Op::FToUiSat, tw, e, 0),
        };
        Ok(self.mk(st, r))
    }
    fn ite_val(&mut self, st: &State, t: TyId, c: E, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let ts = self.elem_types(t, x.len());
                let v = (0..x.len()).map(|i| self.ite_val(st, ts[i], c, &x[i], &y[i])).collect();
                Val::A(Rc::new(v))
            }
            _ => {
                if let (Val::C(x), Val::C(y)) = (a, b) { if x == y { return a.clone(); } }
                let w = self.m.bits(t);
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let e = self.cx.ite(c, x, y);
                self.mk(st, e)
            }
        }
    }
    fn elem_types(&self, t: TyId, n: usize) -> Vec<TyId> { match &self.m.types[t as usize] { Ty::Struct(fs, _) => fs.clone(), Ty::Vec(_, e) | Ty::Arr(_, e) => vec![*e; n], _ => vec![t; n] } }

    // ------------------------------------------------------------ memory
    fn load_at(&mut self, st: &State, t: TyId, a: u64) -> R<Val> {
        match &self.m.types[t as usize] {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                let w = self.m.bits(t);
                self.load_bits(st, w, a)
            }
            Ty::Vec(n, e) => {
                let (n, e) = (*n, *e);
                let ew = self.m.bits(e);
                if ew % 8 == 0 { let mut v = vec![]; for i in 0..n { v.push(self.load_bits(st, ew, a + i as u64 * (ew as u64 / 8))?); } Ok(Val::A(Rc::new(v))) }
                else { let x = self.load_bits(st, n as u16 * ew, a)?; self.unpack(st, &x, n, ew) }
            }
            Ty::Arr(n, e) => { let (n, e) = (*n, *e); let s = self.m.size(e); let mut v = vec![]; for i in 0..n { v.push(self.load_at(st, e, a + i * s)?); } Ok(Val::A(Rc::new(v))) }
            Ty::Struct(fs, _) => { let fs = fs.clone(); let mut v = vec![]; for (i, f) in fs.iter().enumerate() { let o = self.m.field_off(t, i); v.push(self.load_at(st, *f, a + o)?); } Ok(Val::A(Rc::new(v))) }
            x => panic!("load of {x:?}"),
        }
    }
    fn unpack(&mut self, st: &State, x: &Val, n: u32, ew: u16) -> R<Val> {
        Ok(Val::A(Rc::new((0..n as u16).map(|i| match x { Val::C(k) => Val::C((k >> (i * ew)) & mask(ew)), Val::S(e) => { let y = self.cx.extract((i + 1) * ew - 1, i * ew, *e); self.mk(st, y) } _ => panic!() }).collect())))
    }
    fn load_bits(&mut self, st: &State, w: u16, a: u64) -> R<Val> {
        if a < 0x1000 { return Err(Stop::Internal(format!("load from null page {a:#x}"))); }
        let n = ((w + 7) / 8) as usize;
        if let Some(v) = st.mem.load(a, n) { return Ok(Val::C(v & mask(w))); }
        let e = self.load_sym(st, n, a);
        let e = if w % 8 != 0 { self.cx.extract(w - 1, 0, e) } else { e };
        Ok(self.mk(st, e))
    }
    fn load_sym(&mut self, st: &State, n: usize, a: u64) -> E {
        // gather maximal runs of consecutive bytes of one expression
        let bytes: Vec<Result<u8, (E, u8)>> = (0..n).map(|i| st.mem.byte(a + i as u64)).collect();
        let mut i = 0;
        let mut acc: Option<E> = None;
        while i < n {
            let piece;
            match bytes[i] {
                Err((e, k)) => {
                    let mut j = i + 1;
                    while j < n { match bytes[j] { Err((e2, k2)) if e2 == e && k2 as usize == k as usize + (j - i) => j += 1, _ => break } }
                    piece = self.cx.extract((k as u16 + (j - i) as u16) * 8 - 1, k as u16 * 8, e);
                    i = j;
                }
                Ok(_) => {
                    let mut j = i; let mut v = 0u128;
                    while j < n { match bytes[j] { Ok(b) => { v |= (b as u128) << (8 * (j - i)); j += 1; } _ => break } }
                    piece = self.cx.c(((j - i) * 8) as u16, v);
                    i = j;
                }
            }
            acc = Some(match acc { None => piece, Some(lo) => self.cx.concat(piece, lo) });
        }
        acc.unwrap()
    }
    fn store_at(&mut self, st: &mut State, t: TyId, v: &Val, a: u64) -> R<()> {
        match &self.m.types[t as usize] {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => { let w = self.m.bits(t); self.store_bits(st, w, v, a) }
            Ty::Vec(n, e) => {
                let (n, e) = (*n, *e);
                let ew = self.m.bits(e);
                let Val::A(xs) = v else { panic!() };
                if ew % 8 == 0 { for i in 0..n { self.store_bits(st, ew, &xs[i as usize], a + i as u64 * (ew as u64 / 8))?; } Ok(()) }
                else { let p = self.pack(st, xs, ew); self.store_bits(st, n as u16 * ew, &p, a) }
            }
            Ty::Arr(_, e) => { let e = *e; let s = self.m.size(e); let Val::A(xs) = v else { panic!() }; for (i, x) in xs.iter().enumerate() { self.store_at(st, e, x, a + i as u64 * s)?; } Ok(()) }
            Ty::Struct(fs, _) => { let fs = fs.clone(); let Val::A(xs) = v else { panic!() }; for (i, f) in fs.iter().enumerate() { let o = self.m.field_off(t, i); self.store_at(st, *f, &xs[i], a + o)?; } Ok(()) }
            x => panic!("store of {x:?}"),
        }
    }
    fn pack(&mut self, st: &State, xs: &[Val], ew: u16) -> Val {
        if xs.iter().all(|x| matches!(x, Val::C(_))) { let mut k = 0u128; for (i, x) in xs.iter().enumerate() { if let Val::C(v) = x { k |= v << (i as u16 * ew); } } return Val::C(k); }
        let mut acc = self.ex(&xs[0], ew);
        for x in &xs[1..] { let h = self.ex(x, ew); acc = self.cx.concat(h, acc); }
        self.mk(st, acc)
    }
    fn store_bits(&mut self, st: &mut State, w: u16, v: &Val, a: u64) -> R<()> {
        if a < 0x1000 { return Err(Stop::Internal(format!("store to null page {a:#x}"))); }
        let n = ((w + 7) / 8) as usize;
        match v {
            Val::C(k) => st.mem.store(a, n, *k),
            Val::S(e) => { let e = self.cx.zext(*e, n as u16 * 8); match self.cx.cv(e) { Some(k) => st.mem.store(a, n, k), None => for i in 0..n { st.mem.set(a + i as u64, Err((e, i as u8))); } } }
            _ => panic!(),
        }
        Ok(())
    }
    fn addrs(&mut self, st: &State, e: E) -> R<Rc<Vec<u128>>> {
        match self.values(st, e, 72)? { Some(v) => Ok(v), None => Err(Stop::Conc(e)) }
    }
    fn load(&mut self, st: &State, t: TyId, p: &Val) -> R<Val> {
        match p {
            Val::C(a) => self.load_at(st, t, *a as u64),
            Val::S(e) => {
                let e = *e;
                let av = self.addrs(st, e)?;
                let mut acc = self.load_at(st, t, av[0] as u64)?;
                for &a in &av[1..] { let v = self.load_at(st, t, a as u64)?; let k = self.cx.c(64, a); let c = self.cx.eq(e, k); acc = self.ite_val(st, t, c, &v, &acc); }
                Ok(acc)
            }
            _ => panic!(),
        }
    }
    fn store(&mut self, st: &mut State, t: TyId, v: &Val, p: &Val) -> R<()> {
        match p {
            Val::C(a) => self.store_at(st, t, v, *a as u64),
            Val::S(e) => {
                let e = *e;
                let av = self.addrs(st, e)?;
                let mut olds = vec![];
                for &a in av.iter() { olds.push(self.load_at(st, t, a as u64)?); }
                // overlapping candidate ranges need the writes to be exclusive: each keeps its own old value
                let sz = self.m.size(t);
                let overlap = av.windows(2).any(|w| w[1] - w[0] < sz as u128);
                if overlap { return Err(Stop::Conc(e)); }
                for (i, &a) in av.iter().enumerate() { let k = self.cx.c(64, a); let c = self.cx.eq(e, k); let nv = self.ite_val(st, t, c, v, &olds[i]); self.store_at(st, t, &nv, a as u64)?; }
                Ok(())
            }
            _ => panic!(),
        }
    }

    // ------------------------------------------------------------ main loop
    fn run_state(&mut self, st: &mut State) -> Stop {
        let mut tick = 0u32;
        loop {
            tick += 1;
            if tick & 0xffff == 0 { if Instant::now() > self.deadline { return Stop::Internal("time budget exhausted".into()); } }
            st.steps += 1;
            if st.steps > self.max_steps { return Stop::Internal(format!("step bound reached in one path\n{}", self.backtrace(st))); }
            match self.step(st) {
                Ok(()) => {}
                Err(Stop::Jump) => {}
                Err(Stop::Conc(e)) => { if std::env::var_os("SYMX_TRACE_CONC").is_some() { eprintln!("conc\n{}", self.backtrace(st)); } if let Err(s) = self.fork_values(st, e) { return s; } }
                Err(Stop::Internal(m)) => return Stop::Internal(if m.contains('\n') || m.starts_with("time") { m } else { format!("{m}\n{}", self.backtrace(st)) }),
                Err(s) => return s,
            }
        }
    }
    fn enter(&mut self, st: &mut State, b: u32) {
        let from = st.top.blk;
        let body = st.top.body.clone();
        let blk = &body.blocks[b as usize];
        if !blk.phis.is_empty() {
            if blk.phis.len() == 1 {
                let (d, inc) = &blk.phis[0];
                let o = inc.iter().find(|(k, _)| *k == from).expect("phi edge");
                let v = self.op(st, &o.1);
                st.top.regs[*d as usize] = v;
            } else {
                let vals: Vec<(u32, Val)> = blk.phis.iter().map(|(d, inc)| { let o = inc.iter().find(|(k, _)| *k == from).expect("phi edge"); (*d, self.op(st, &o.1)) }).collect();
                for (d, v) in vals { st.top.regs[d as usize] = v; }
            }
        }
        st.top.blk = b;
        st.top.pc = blk.start;
    }
    /// pick among mutually exclusive, exhaustive (condition, block) alternatives
    fn branch(&mut self, st: &mut State, alts: Vec<(E, u32)>) -> R<()> {
        let mut cur = None;
        for (i, (c, _)) in alts.iter().enumerate() { if self.cx.eval(*c, &st.model) == 1 { cur = Some(i); break; } }
        let cur = cur.ok_or_else(|| Stop::Internal("model satisfies no branch".into()))?;
        let mut feasible = vec![];
        for (i, (c, b)) in alts.iter().enumerate() {
            if i == cur { continue; }
            match self.sat(st, *c) { Ok(Some(m)) => feasible.push((*c, *b, m)), Ok(None) => { Rc::make_mut(&mut st.fixed).insert(*c, 0); } Err(()) => return Err(Stop::Internal("solver gave up on a branch".into())) }
        }
        let (c, b) = alts[cur];
        if feasible.is_empty() { Rc::make_mut(&mut st.fixed).insert(c, 1); let n = self.cx.not(c); Rc::make_mut(&mut st.fixed).insert(n, 0); self.enter(st, b); return Ok(()); }
        if self.do_profile { let k = st.top.body.dbg[st.top.pc]; let s = self.m.loc(k).map(|(f, l, n)| format!("{}:{} {}", f.rsplit('/').next().unwrap(), l, n.chars().take(60).collect::<String>())).unwrap_or(self.m.funcs[st.top.f as usize].name.clone()); *self.profile.entry(s).or_insert(0) += 1; }
        for (c, b, m) in feasible {
            let mut s2 = st.clone();
            s2.steps = 0;
            s2.decisions += 1;
            s2.model = m;
            self.assume(&mut s2, c);
            self.enter(&mut s2, b);
            self.work.push(s2);
        }
        st.decisions += 1;
        self.assume(st, c);
        self.enter(st, b);
        Ok(())
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let body = st.top.body.clone();
        let pc = st.top.pc;
        self.cov[body.dbg[pc] as usize] = true;
        macro_rules! set { ($d:expr, $v:expr) => {{ let v = $v; st.top.regs[$d as usize] = v; st.top.pc = pc + 1; }}; }
        match &body.ins[pc] {
            Ins::Bin(op, w, n, d, a, b) => {
                let (a, b) = (self.op(st, a), self.op(st, b));
                let r = if *n == 0 { self.binop(st, *op, *w, &a, &b)? } else { let (Val::A(x), Val::A(y)) = (&a, &b) else { panic!() }; let mut v = vec![]; for i in 0..x.len() { v.push(self.binop(st, *op, *w, &x[i], &y[i])?); } Val::A(Rc::new(v)) };
                set!(*d, r);
            }
            Ins::Icmp(p, w, n, d, a, b) => {
                let (a, b) = (self.op(st, a), self.op(st, b));
                let r = if *n == 0 { self.icmp(st, *p, *w, &a, &b) } else { let (Val::A(x), Val::A(y)) = (&a, &b) else { panic!() }; Val::A(Rc::new((0..x.len()).map(|i| self.icmp(st, *p, *w, &x[i], &y[i])).collect())) };
                set!(*d, r);
            }
            Ins::Fcmp(p, w, n, d, a, b) => {
                let (a, b) = (self.op(st, a), self.op(st, b));
                let r = if *n == 0 { self.fcmp(st, *p, *w, &a, &b)? } else { let (Val::A(x), Val::A(y)) = (&a, &b) else { panic!() }; let mut v = vec![]; for i in 0..x.len() { v.push(self.fcmp(st, *p, *w, &x[i], &y[i])?); } Val::A(Rc::new(v)) };
                set!(*d, r);
            }
            Ins::FNeg(w, n, d, a) => {
                let a = self.op(st, a);
                let sign = Val::C(1u128 << (*w - 1));
                let r = if *n == 0 { self.binop(st, Bin::Xor, *w, &a, &sign)? } else { let Val::A(x) = &a else { panic!() }; let mut v = vec![]; for i in 0..x.len() { v.push(self.binop(st, Bin::Xor, *w, &x[i], &sign)?); } Val::A(Rc::new(v)) };
                set!(*d, r);
            }
            Ins::Cast(c, f, t, d, a) => {
                let a = self.op(st, a);
                let (fl, tl) = (self.m.lanes(*f), self.m.lanes(*t));
                let r = if fl == 0 && tl == 0 { let (fw, tw) = (self.m.bits(*f), self.m.bits(*t)); self.cast1(st, *c, fw, tw, &a)? }
                else if *c == Cast::Bits {
                    let fe = self.m.bits(self.m.elem(*f)); let te = self.m.bits(self.m.elem(*t));
                    let flat = if fl > 0 { let Val::A(x) = &a else { panic!() }; self.pack(st, x, fe) } else { a };
                    if tl > 0 { self.unpack(st, &flat, tl, te)? } else { flat }
                } else {
                    let fe = self.m.bits(self.m.elem(*f)); let te = self.m.bits(self.m.elem(*t));
                    let Val::A(x) = &a else { panic!() };
                    let mut v = vec![]; for i in 0..x.len() { v.push(self.cast1(st, *c, fe, te, &x[i])?); } Val::A(Rc::new(v))
                };
                set!(*d, r);
            }
            Ins::Load(t, d, p) => { let p = self.op(st, p); let v = self.load(st, *t, &p)?; set!(*d, v); }
            Ins::Store(t, v, p) => { let (v, p) = (self.op(st, v), self.op(st, p)); self.store(st, *t, &v, &p)?; st.top.pc = pc + 1; }
            Ins::Gep(d, base, off, idx) => {
                let b = self.op(st, base);
                let r = if let (Val::C(x), true) = (&b, idx.is_empty()) { Val::C((*x as u64).wrapping_add(*off as u64) as u128) } else {
                    let mut acc = b; 
                    if *off != 0 { acc = self.binop(st, Bin::Add, 64, &acc, &Val::C(*off as u64 as u128))?; }
                    for (o, w, s) in idx {
                        let i = self.op(st, o);
                        let i = if *w == 64 { i } else if *w < 64 { self.cast1(st, Cast::SExt, *w, 64, &i)? } else { self.cast1(st, Cast::Trunc, *w, 64, &i)? };
                        let k = if *s == 1 { i } else { self.binop(st, Bin::Mul, 64, &i, &Val::C(*s as u64 as u128))? };
                        acc = self.binop(st, Bin::Add, 64, &acc, &k)?;
                    }
                    acc
                };
                set!(*d, r);
            }
            Ins::Alloca(d, size, al, cnt) => {
                let c = self.op(st, cnt);
                let n = self.conc(st, &c)? as u64;
                let a = (st.sp + al - 1) / al * al;
                st.sp = a + (size * n).max(1);
                set!(*d, Val::C(a as u128));
            }
            Ins::Select(d, cl, t, c, a, b) => {
                let (c, a, b) = (self.op(st, c), self.op(st, a), self.op(st, b));
                let r = if *cl == 0 { match c { Val::C(k) => if k & 1 == 1 { a } else { b }, Val::S(e) => self.ite_val(st, *t, e, &a, &b), _ => panic!() } }
                else {
                    let (Val::A(cs), Val::A(x), Val::A(y)) = (&c, &a, &b) else { panic!() };
                    let et = self.m.elem(*t);
                    Val::A(Rc::new((0..cs.len()).map(|i| match &cs[i] { Val::C(k) => if k & 1 == 1 { x[i].clone() } else { y[i].clone() }, Val::S(e) => self.ite_val(st, et, *e, &x[i], &y[i]), _ => panic!() }).collect()))
                };
                set!(*d, r);
            }
            Ins::Call(c) => return self.call(st, c),
            Ins::Ret(v) => {
                let r = v.as_ref().map(|o| self.op(st, o));
                return self.ret(st, r);
            }
            Ins::Br(b) => self.enter(st, *b),
            Ins::CBr(c, a, b) => match self.op(st, c) {
                Val::C(k) => self.enter(st, if k & 1 == 1 { *a } else { *b }),
                Val::S(e) => { let n = self.cx.not(e); self.branch(st, vec![(e, *a), (n, *b)])?; }
                _ => panic!(),
            },
            Ins::Switch(v, w, def, cases) => match self.op(st, v) {
                Val::C(k) => { let b = cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def); self.enter(st, b); }
                Val::S(e) => {
                    let mut by: Vec<(u32, E)> = vec![];
                    let mut none = self.cx.c(1, 1);
                    for (k, b) in cases {
                        let kk = self.cx.c(*w, *k); let q = self.cx.eq(e, kk);
                        let nq = self.cx.not(q);
                        none = self.cx.bin(Op::And, none, nq);
                        match by.iter_mut().find(|x| x.0 == *b && *b != *def) { Some(x) => x.1 = self.cx.bin(Op::Or, x.1, q), None => by.push((*b, q)) }
                    }
                    let mut alts: Vec<(E, u32)> = by.into_iter().map(|(b, c)| (c, b)).collect();
                    alts.push((none, *def));
                    self.branch(st, alts)?;
                }
                _ => panic!(),
            },
            Ins::Unreachable => return Err(Stop::Internal("unreachable executed".into())),
            Ins::ExtractV(d, a, ix) => { let mut v = self.op(st, a); for &i in ix { let Val::A(x) = &v else { panic!() }; let y = x[i as usize].clone(); v = y; } let v = self.norm(st, &v); set!(*d, v); }
            Ins::InsertV(d, _t, a, v, ix) => { let a = self.op(st, a); let v = self.op(st, v); let r = insert(&a, &v, ix); set!(*d, r); }
            Ins::ExtractE(d, a, i) => { let a = self.op(st, a); let i = self.op(st, i); let i = self.conc(st, &i)? as usize; let Val::A(x) = &a else { panic!() }; let v = x[i].clone(); set!(*d, v); }
            Ins::InsertE(d, a, v, i) => { let a = self.op(st, a); let v = self.op(st, v); let i = self.op(st, i); let i = self.conc(st, &i)? as u32; let r = insert(&a, &v, &[i]); set!(*d, r); }
            Ins::Shuffle(d, a, b, mk, n) => {
                let (Val::A(x), Val::A(y)) = (self.op(st, a), self.op(st, b)) else { panic!() };
                let r = mk.iter().map(|&i| if i < *n { x[i as usize].clone() } else if i < 2 * *n { y[(i - n) as usize].clone() } else { Val::C(0) }).collect();
                set!(*d, Val::A(Rc::new(r)));
            }
            Ins::Mov(d, a) => { let v = self.op(st, a); set!(*d, v); }
            Ins::Rmw(o, w, d, p, v) => {
                let (p, v) = (self.op(st, p), self.op(st, v));
                let a = self.conc(st, &p)? as u64;
                let old = self.load_bits(st, *w, a)?;
                let nv = match o {
                    Rmw::Xchg => v, Rmw::Add => self.binop(st, Bin::Add, *w, &old, &v)?, Rmw::Sub => self.binop(st, Bin::Sub, *w, &old, &v)?, Rmw::And => self.binop(st, Bin::And, *w, &old, &v)?, Rmw::Or => self.binop(st, Bin::Or, *w, &old, &v)?, Rmw::Xor => self.binop(st, Bin::Xor, *w, &old, &v)?,
                    _ => return Err(Stop::Internal("atomicrmw".into())),
                };
                self.store_bits(st, *w, &nv, a)?;
                set!(*d, old);
            }
            Ins::CmpXchg(w, d, p, c, n) => {
                let (p, c, n) = (self.op(st, p), self.op(st, c), self.op(st, n));
                let a = self.conc(st, &p)? as u64;
                let old = self.load_bits(st, *w, a)?;
                let eq = self.icmp(st, Pred::Eq, *w, &old, &c);
                let k = self.conc(st, &eq)?;
                if k == 1 { self.store_bits(st, *w, &n, a)?; }
                set!(*d, Val::A(Rc::new(vec![old, Val::C(k)])));
            }
            Ins::Fence => st.top.pc = pc + 1,
            Ins::LandingPad(_) | Ins::Resume => return Err(Stop::Internal("unwinding reached".into())),
        }
        Ok(())
    }
    fn ret(&mut self, st: &mut State, v: Option<Val>) -> R<()> {
        let Some(caller) = st.stack.pop() else { return Err(Stop::End) };
        let dst = st.top.dst; let normal = st.top.normal;
        st.sp = st.top.sp0;
        st.top = Rc::try_unwrap(caller).unwrap_or_else(|r| (*r).clone());
        if let (Some(d), Some(v)) = (dst, v) { st.top.regs[d as usize] = v; }
        match normal { Some(b) => self.enter(st, b), None => st.top.pc += 1 }
        Ok(())
    }
    /// result of a builtin call at the current instruction
    fn done(&mut self, st: &mut State, c: &CallI, v: Val) {
        if let Some(d) = c.dst { st.top.regs[d as usize] = v; }
        match c.normal { Some(b) => self.enter(st, b), None => st.top.pc += 1 }
    }
    fn call(&mut self, st: &mut State, c: &CallI) -> R<()> {
        let f = match &c.callee {
            Callee::Direct(f) => *f,
            Callee::Ind(o) => {
                let v = self.op(st, o);
                let a = self.conc(st, &v)? as u64;
                if a < ir::FN_BASE || a >= ir::FN_BASE + 16 * self.m.funcs.len() as u64 || (a - ir::FN_BASE) % 16 != 0 { return Err(Stop::Internal(format!("indirect call to {a:#x}"))); }
                ((a - ir::FN_BASE) / 16) as u32
            }
            Callee::Asm(s) => {
                let v = if s.contains("cpuid") { Val::A(Rc::new(vec![Val::C(0); 4])) } else if s.trim().is_empty() || s.contains("black") { Val::C(0) } else { return Err(Stop::Internal(format!("inline assembly {s:?}"))) };
                self.done(st, c, v);
                return Ok(());
            }
        };
        let bi = match &self.bi[f as usize] { Some(b) => b.clone(), None => { let b = classify(&self.m, f); self.bi[f as usize] = Some(b.clone()); b } };
        let args: Vec<Val> = c.args.iter().map(|o| self.op(st, o)).collect();
        match bi {
            Bi::None => { self.push(st, f, args, c.dst, c.normal); Ok(()) }
            Bi::FmtInt(w, _) => {
                let mut args = args;
                let p = self.conc(st, &args[0])? as u64;
                if let Val::S(e) = self.load_bits(st, w, p)? {
                    if w < 32 { return Err(Stop::Conc(e)); }
                    self.placeholders += 1;
                    let e64 = self.cx.sext(e, 64);
                    let k = match st.magic.iter().position(|&x| x == e64) { Some(k) => k, None => { Rc::make_mut(&mut st.magic).push(e64); st.magic.len() - 1 } };
                    let a = self.alloc(st, 16, 16);
                    st.mem.store(a, (w / 8) as usize, (MAGIC + 64 * k as u64) as u128);
                    args[0] = Val::C(a as u128);
                }
                self.push(st, f, args, c.dst, c.normal);
                Ok(())
            }
            Bi::FmtFloat(w) => {
                let mut args = args;
                let p = self.conc(st, &args[0])? as u64;
                if let Val::S(e) = self.load_bits(st, w, p)? {
                    self.placeholders += 1;
                    let e64 = self.cx.zext(e, 64);
                    let k = match st.magic.iter().position(|&x| x == e64) { Some(k) => k, None => { Rc::make_mut(&mut st.magic).push(e64); st.magic.len() - 1 } };
                    let a = self.alloc(st, 16, 16);
                    let fv = 1_000_000.5 + k as f64;
                    st.mem.store(a, (w / 8) as usize, if w == 32 { (fv as f32).to_bits() as u128 } else { fv.to_bits() as u128 });
                    args[0] = Val::C(a as u128);
                }
                self.push(st, f, args, c.dst, c.normal);
                Ok(())
            }
            Bi::Panic => {
                let mut loc = String::from("?");
                if let Some(p) = args.last() { if let Ok(a) = self.conc(st, p) { if let Some(s) = self.read_location(st, a as u64) { loc = s; } } }
                let nm = &self.m.funcs[f as usize].name;
                let kind = nm.split("9panicking").nth(1).unwrap_or("").trim_start_matches(|c: char| c.is_ascii_digit()).to_string();
                let kind = kind.split("Cs").next().unwrap_or("").to_string();
                let mut msg = String::new();
                if kind == "panic" && args.len() == 3 { if let (Ok(p), Ok(n)) = (self.conc(st, &args[0]), self.conc(st, &args[1])) { if n < 4096 { if let Some(b) = st.mem.bytes(p as u64, n as u64) { msg = format!(" {:?}", String::from_utf8_lossy(&b)); } } } }
                Err(Stop::Panic(format!("{loc} ({kind}{msg})")))
            }
            bi => { let v = self.builtin(st, f, bi, c, &args)?; self.done(st, c, v); Ok(()) }
        }
    }
    fn read_location(&self, st: &State, a: u64) -> Option<String> {
        if a < ir::GLOBAL_BASE || a >= self.m.globals_end { return None; }
        let p = st.mem.load(a, 8)? as u64; let n = st.mem.load(a + 8, 8)? as u64; let line = st.mem.load(a + 16, 4)?; let col = st.mem.load(a + 20, 4)?;
        if n > 512 || p < ir::GLOBAL_BASE || p >= self.m.globals_end { return None; }
        Some(format!("{}:{}:{}", String::from_utf8_lossy(&st.mem.bytes(p, n)?), line, col))
    }
    fn push(&mut self, st: &mut State, f: u32, args: Vec<Val>, dst: Option<u32>, normal: Option<u32>) {
        let body = self.m.body(f);
        let np = self.m.funcs[f as usize].params.len();
        let mut regs = args;
        regs.truncate(np);
        regs.resize(body.nregs, Val::C(0));
        let fr = Frame { f, body, regs, pc: 0, blk: 0, dst, normal, sp0: st.sp };
        let old = std::mem::replace(&mut st.top, fr);
        st.stack.push(Rc::new(old));
        st.top.pc = st.top.body.blocks[0].start;
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64) -> u64 {
        let al = align.max(16);
        let a = (st.heap + 16 + al - 1) / al * al;
        st.mem.store(a - 8, 8, size as u128);
        st.heap = a + size.max(1);
        a
    }
    fn fallible(&mut self, st: &State, a: &Val) -> R<u64> { Ok(self.conc(st, a)? as u64) }

    fn builtin(&mut self, st: &mut State, f: u32, bi: Bi, c: &CallI, a: &[Val]) -> R<Val> {
        match bi {
            Bi::Nop => Ok(Val::C(0)),
            Bi::Zero => Ok(Val::C(0)),
            Bi::Assume => Ok(Val::C(0)),
            Bi::IsConst => Ok(Val::C(0)),
            Bi::Expect => Ok(a[0].clone()),
            Bi::TlsAddr => Ok(a[0].clone()),
            Bi::Trap => Err(Stop::Panic(format!("abort/trap in {}", self.m.funcs[st.top.f as usize].name))),
            Bi::Memcpy => { let n = self.conc(st, &a[2])? as u64; let d = self.conc(st, &a[0])? as u64; let s = self.conc(st, &a[1])? as u64; if n > 1 << 28 { return Err(Stop::Internal("huge memcpy".into())); } st.mem.copy(d, s, n); Ok(Val::C(d as u128)) }
            Bi::Memset => {
                let n = self.conc(st, &a[2])? as u64; let d = self.conc(st, &a[0])? as u64;
                if n > 1 << 28 { return Err(Stop::Internal("huge memset".into())); }
                match &a[1] { Val::C(b) => st.mem.fill(d, *b as u8, n), Val::S(e) => { let e = self.cx.extract(7, 0, *e); for i in 0..n { st.mem.set(d + i, Err((e, 0))); } } _ => panic!() }
                Ok(Val::C(d as u128))
            }
            Bi::Ovf(sg, op, w) => {
                if self.m.lanes(self.elem0(c.ret)) != 0 { return Err(Stop::Internal("vector overflow op".into())); }
                let r = self.binop(st, op, w, &a[0], &a[1])?;
                let o = self.ovf(st, sg, op, w, &a[0], &a[1], &r);
                Ok(Val::A(Rc::new(vec![r, o])))
            }
            Bi::Sat(sg, op, w) => {
                if let Val::A(x) = &a[0] { let Val::A(y) = &a[1] else { panic!() }; let mut v = vec![]; for i in 0..x.len() { v.push(self.builtin(st, f, Bi::Sat(sg, op, w), c, &[x[i].clone(), y[i].clone()])?); } return Ok(Val::A(Rc::new(v))); }
                let r = self.binop(st, op, w, &a[0], &a[1])?;
                let o = self.ovf(st, sg, op, w, &a[0], &a[1], &r);
                let lim = if sg == 'u' { Val::C(if op == Bin::Add { mask(w) } else { 0 }) } else {
                    // overflow direction follows the sign of the first operand
                    let neg = self.icmp(st, Pred::Slt, w, &a[0], &Val::C(0));
                    self.sel(st, w, &neg, &Val::C(1u128 << (w - 1)), &Val::C(mask(w - 1)))
                };
                Ok(self.sel(st, w, &o, &lim, &r))
            }
            Bi::MinMax(p, w) => {
                if let Val::A(x) = &a[0] { let Val::A(y) = &a[1] else { panic!() }; let mut v = vec![]; for i in 0..x.len() { v.push(self.builtin(st, f, Bi::MinMax(p, w), c, &[x[i].clone(), y[i].clone()])?); } return Ok(Val::A(Rc::new(v))); }
                let k = self.icmp(st, p, w, &a[0], &a[1]); Ok(self.sel(st, w, &k, &a[0], &a[1]))
            }
            Bi::Abs(w) => { let k = self.icmp(st, Pred::Slt, w, &a[0], &Val::C(0)); let n = self.binop(st, Bin::Sub, w, &Val::C(0), &a[0])?; Ok(self.sel(st, w, &k, &n, &a[0])) }
            Bi::Ucmp(signed, w) => {
                let rw = self.m.bits(c.ret);
                let l = self.icmp(st, if signed { Pred::Slt } else { Pred::Ult }, w, &a[0], &a[1]);
                let g = self.icmp(st, if signed { Pred::Sgt } else { Pred::Ugt }, w, &a[0], &a[1]);
                let t = self.sel(st, rw, &g, &Val::C(1), &Val::C(0));
                Ok(self.sel(st, rw, &l, &Val::C(mask(rw)), &t))
            }
            Bi::Ctlz(w) => match &a[0] { Val::C(k) => Ok(Val::C(if *k == 0 { w as u128 } else { (k.leading_zeros() - (128 - w as u32)) as u128 })), v => { let e = self.ex(v, w); let mut acc = self.cx.c(w, w as u128); for i in 0..w { let b = self.cx.extract(i, i, e); let k = self.cx.c(w, (w - 1 - i) as u128); acc = self.cx.ite(b, k, acc); } Ok(self.mk(st, acc)) } },
            Bi::Cttz(w) => match &a[0] { Val::C(k) => Ok(Val::C(if *k == 0 { w as u128 } else { k.trailing_zeros() as u128 })), v => { let e = self.ex(v, w); let mut acc = self.cx.c(w, w as u128); for i in (0..w).rev() { let b = self.cx.extract(i, i, e); let k = self.cx.c(w, i as u128); acc = self.cx.ite(b, k, acc); } Ok(self.mk(st, acc)) } },
            Bi::Ctpop(w) => match &a[0] { Val::C(k) => Ok(Val::C(k.count_ones() as u128)), v => { let e = self.ex(v, w); let mut acc = self.cx.c(w, 0); for i in 0..w { let b = self.cx.extract(i, i, e); let z = self.cx.zext(b, w); acc = self.cx.bin(Op::Add, acc, z); } Ok(self.mk(st, acc)) } },
            Bi::Bswap(w) => { let n = w / 8; match &a[0] { Val::C(k) => { let mut r = 0u128; for i in 0..n { r |= ((k >> (8 * i)) & 255) << (8 * (n - 1 - i)); } Ok(Val::C(r)) } v => { let e = self.ex(v, w); let mut acc = self.cx.extract(w - 1, w - 8, e); for i in 1..n { let hi = w - 8 * i; let b = self.cx.extract(hi - 1, hi - 8, e); acc = self.cx.concat(b, acc); } Ok(self.mk(st, acc)) } } }
            Bi::Bitrev(w) => { let k = self.conc(st, &a[0])?; let mut r = 0u128; for i in 0..w { if k >> i & 1 == 1 { r |= 1 << (w - 1 - i); } } Ok(Val::C(r)) }
            Bi::Fsh(left, w) => {
                let s = self.conc(st, &a[2])? as u16 % w;
                if s == 0 { return Ok(if left { a[0].clone() } else { a[1].clone() }); }
                let (l, r) = if left { (s, w - s) } else { (w - s, s) };
                let x = self.binop(st, Bin::Shl, w, &a[0], &Val::C(l as u128))?; let y = self.binop(st, Bin::LShr, w, &a[1], &Val::C(r as u128))?;
                self.binop(st, Bin::Or, w, &x, &y)
            }
            Bi::FpSat(signed) => { let fw = self.m.bits(c.argty[0]); let tw = self.m.bits(c.ret); self.cast1(st, if signed { Cast::FpToSi } else { Cast::FpToUi }, fw, tw, &a[0]) }
            Bi::Fabs(w) => self.binop(st, Bin::And, w, &a[0], &Val::C(mask(w - 1))),
            Bi::FpClass(w) => {
                let want = self.conc(st, &a[1])?; let e = self.ex(&a[0], w);
                let mb = if w == 32 { 23u16 } else { 52 };
                let s = self.cx.extract(w - 1, w - 1, e); let ns = self.cx.not(s);
                let ex = self.cx.extract(w - 2, mb, e); let man = self.cx.extract(mb - 1, 0, e); let q = self.cx.extract(mb - 1, mb - 1, e); let nq = self.cx.not(q);
                let (e0, e1, m0) = (self.cx.c(w - 1 - mb, 0), self.cx.c(w - 1 - mb, mask(w - 1 - mb)), self.cx.c(mb, 0));
                let ez = self.cx.eq(ex, e0); let em = self.cx.eq(ex, e1); let mz = self.cx.eq(man, m0); let (nez, nem, nmz) = (self.cx.not(ez), self.cx.not(em), self.cx.not(mz));
                let conj: [&[E]; 10] = [&[em, nmz, nq], &[em, nmz, q], &[s, em, mz], &[s, nez, nem], &[s, ez, nmz], &[s, ez, mz], &[ns, ez, mz], &[ns, ez, nmz], &[ns, nez, nem], &[ns, em, mz]];
                let mut acc = self.cx.c(1, 0);
                for (i, c) in conj.iter().enumerate() { if want >> i & 1 == 1 { let mut x = self.cx.c(1, 1); for y in c.iter() { x = self.cx.bin(Op::And, x, *y); } acc = self.cx.bin(Op::Or, acc, x); } }
                Ok(self.mk(st, acc))
            }
            Bi::Copysign(w) => { let x = self.binop(st, Bin::And, w, &a[0], &Val::C(mask(w - 1)))?; let s = self.binop(st, Bin::And, w, &a[1], &Val::C(1 << (w - 1)))?; self.binop(st, Bin::Or, w, &x, &s) }
            Bi::FMinMax(min, w) => { // minnum/maxnum (NaN-ignoring)
                let lt = self.fcmp(st, if min { FPred::Olt } else { FPred::Ogt }, w, &a[0], &a[1])?;
                let nan_b = self.fcmp(st, FPred::Uno, w, &a[1], &a[1])?;
                let pick = match (&lt, &nan_b) { (Val::C(x), Val::C(y)) => Val::C(x | y), _ => { let (p, q) = (self.ex(&lt, 1), self.ex(&nan_b, 1)); let e = self.cx.bin(Op::Or, p, q); self.mk(st, e) } };
                Ok(self.sel(st, w, &pick, &a[0], &a[1]))
            }
            Bi::Fma(w) => { let (x, y, z) = (self.conc(st, &a[0])?, self.conc(st, &a[1])?, self.conc(st, &a[2])?); Ok(Val::C(if w == 32 { f32::from_bits(x as u32).mul_add(f32::from_bits(y as u32), f32::from_bits(z as u32)).to_bits() as u128 } else { f64::from_bits(x as u64).mul_add(f64::from_bits(y as u64), f64::from_bits(z as u64)).to_bits() as u128 })) }
            Bi::Fun1(n, w) => {
                let k = match n.as_str() { "roundeven" | "rint" | "nearbyint" => Some(0), "floor" => Some(1), "ceil" => Some(2), "trunc" => Some(3), "round" => Some(4), _ => None };
                let e = self.ex(&a[0], w);
                if let Some(k) = k { let r = self.cx.op1(Op::FRound, w, e, k); return Ok(self.mk(st, r)); }
                if n == "sqrt" { let r = self.cx.op1(Op::FSqrt, w, e, 0); return Ok(self.mk(st, r)); }
                let x = self.conc(st, &a[0])?;
                let v = if w == 32 { f32::from_bits(x as u32) as f64 } else { f64::from_bits(x as u64) };
                let r = match n.as_str() { "exp" => v.exp(), "log" => v.ln(), "log2" => v.log2(), "log10" => v.log10(), "sin" => v.sin(), "cos" => v.cos(), _ => return Err(Stop::Internal(format!("float function {n}"))) };
                Ok(Val::C(if w == 32 { (r as f32).to_bits() as u128 } else { r.to_bits() as u128 }))
            }
            Bi::ReduceOr | Bi::ReduceAnd | Bi::ReduceAdd => {
                let Val::A(x) = &a[0] else { panic!() };
                let w = self.m.bits(c.ret);
                let mut acc = x[0].clone();
                for v in &x[1..] { acc = self.binop(st, match bi { Bi::ReduceOr => Bin::Or, Bi::ReduceAnd => Bin::And, _ => Bin::Add }, w, &acc, v)?; }
                Ok(acc)
            }
            Bi::LoadRel | Bi::PtrMask => Err(Stop::Internal("unsupported intrinsic".into())),
            Bi::Ext(n) => { *self.ext_used.entry(n.clone()).or_insert(0) += 1; self.external(st, &n, c, a) }
            Bi::Sym(n) => self.symcall(st, &n, a),
            Bi::None | Bi::Panic | Bi::FmtInt(..) | Bi::FmtFloat(..) => unreachable!(),
        }
    }
    fn elem0(&self, t: TyId) -> TyId { match &self.m.types[t as usize] { Ty::Struct(f, _) => f[0], _ => t } }
    fn sel(&mut self, st: &State, w: u16, c: &Val, a: &Val, b: &Val) -> Val {
        match c { Val::C(k) => if k & 1 == 1 { a.clone() } else { b.clone() }, Val::S(e) => { let (x, y) = (self.ex(a, w), self.ex(b, w)); let r = self.cx.ite(*e, x, y); self.mk(st, r) } _ => panic!() }
    }
    fn ovf(&mut self, st: &State, sg: char, op: Bin, w: u16, a: &Val, b: &Val, r: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let o = if sg == 'u' { match op { Bin::Add => x + y > mask(w), Bin::Sub => x < y, _ => x.checked_mul(y).map_or(true, |p| p > mask(w)) } }
            else { let (x, y) = (sx(x, w), sx(y, w)); let t = match op { Bin::Add => x.checked_add(y), Bin::Sub => x.checked_sub(y), _ => x.checked_mul(y) }; let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1); t.map_or(true, |t| t < lo || t > hi) };
            return Val::C(o as u128);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let rr = self.ex(r, w);
        let e = if sg == 'u' {
            match op {
                Bin::Add => { if self.cx.umax(x).checked_add(self.cx.umax(y)).map_or(false, |s| s <= mask(w)) { self.cx.c(1, 0) } else { self.cx.cmp(Op::Ult, rr, x) } }
                Bin::Sub => self.cx.cmp(Op::Ult, x, y),
                _ => self.cx.op2(Op::UMulOvf, 1, x, y),
            }
        } else {
            let (ra, rb) = (self.cx.srange(x), self.cx.srange(y));
            let (lo, hi) = (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1);
            match op {
                Bin::Add => if ra.0 + rb.0 >= lo && ra.1 + rb.1 <= hi { self.cx.c(1, 0) } else { let p = self.cx.bin(Op::Xor, x, rr); let q = self.cx.bin(Op::Xor, y, rr); let t = self.cx.bin(Op::And, p, q); self.cx.extract(w - 1, w - 1, t) },
                Bin::Sub => if ra.0 - rb.1 >= lo && ra.1 - rb.0 <= hi { self.cx.c(1, 0) } else { let p = self.cx.bin(Op::Xor, x, y); let q = self.cx.bin(Op::Xor, x, rr); let t = self.cx.bin(Op::And, p, q); self.cx.extract(w - 1, w - 1, t) },
                _ => { let c = [ra.0.saturating_mul(rb.0), ra.0.saturating_mul(rb.1), ra.1.saturating_mul(rb.0), ra.1.saturating_mul(rb.1)]; if c.iter().all(|&v| v >= lo && v <= hi) { self.cx.c(1, 0) } else { self.cx.op2(Op::SMulOvf, 1, x, y) } }
            }
        };
        self.mk(st, e)
    }

    /// forks when the byte may or may not equal `ch`
    fn byte_is(&mut self, st: &mut State, p: u64, ch: u8) -> R<bool> {
        match st.mem.byte(p) {
            Ok(b) => Ok(b == ch),
            Err(_) => { let x = self.load_sym(st, 1, p); let v = self.mk(st, x); let x = self.ex(&v, 8); let k = self.cx.c(8, ch as u128); let e = self.cx.eq(x, k); let v = self.mk(st, e); Ok(self.conc(st, &v)? & 1 == 1) }
        }
    }
    fn external(&mut self, st: &mut State, n: &str, _c: &CallI, a: &[Val]) -> R<Val> {
        macro_rules! k { ($i:expr) => { self.fallible(st, &a[$i])? }; }
        Ok(Val::C(match n {
            "malloc" => { let s = k!(0); if s > 1 << 30 { 0 } else { self.alloc(st, s, 16) as u128 } }
            "calloc" => { let (x, y) = (k!(0), k!(1)); match x.checked_mul(y) { Some(s) if s <= 1 << 30 => self.alloc(st, s, 16) as u128, _ => 0 } }
            "realloc" => { let (p, s) = (k!(0), k!(1)); if s > 1 << 30 { return Ok(Val::C(0)); } let q = self.alloc(st, s, 16); if p != 0 { let old = st.mem.load(p - 8, 8).unwrap() as u64; st.mem.copy(q, p, old.min(s)); } q as u128 }
            "posix_memalign" => { let (p, al, s) = (k!(0), k!(1), k!(2)); let q = self.alloc(st, s, al); st.mem.store(p, 8, q as u128); 0 }
            "aligned_alloc" => { let (al, s) = (k!(0), k!(1)); self.alloc(st, s, al) as u128 }
            "free" => 0,
            "memcmp" | "bcmp" => {
                let (p, q, len) = (k!(0), k!(1), k!(2));
                if len > 1 << 20 { return Err(Stop::Internal("huge memcmp".into())); }
                let mut r: i32 = 0; let mut sym = false;
                for i in 0..len { match (st.mem.byte(p + i), st.mem.byte(q + i)) { (Ok(x), Ok(y)) => if x != y { r = x as i32 - y as i32; break; }, (Err(x), Err(y)) if x == y => {}, _ => { sym = true; break; } } }
                if !sym { return Ok(Val::C(r as u32 as u128)); }
                let mut acc = self.cx.c(32, 0);
                for i in (0..len).rev() {
                    let x = self.load_sym(st, 1, p + i); let y = self.load_sym(st, 1, q + i);
                    let x = { let v = self.mk(st, x); self.ex(&v, 8) }; let y = { let v = self.mk(st, y); self.ex(&v, 8) };
                    let eq = self.cx.eq(x, y);
                    let lt = self.cx.cmp(Op::Ult, x, y);
                    let (m1, p1) = (self.cx.c(32, u32::MAX as u128), self.cx.c(32, 1));
                    let d = if n == "bcmp" { p1 } else { self.cx.ite(lt, m1, p1) };
                    acc = self.cx.ite(eq, acc, d);
                }
                return Ok(self.mk(st, acc));
            }
            "memcpy" | "memmove" => { let (d, s, l) = (k!(0), k!(1), k!(2)); st.mem.copy(d, s, l); d as u128 }
            "memset" => { let (d, b, l) = (k!(0), k!(1), k!(2)); st.mem.fill(d, b as u8, l); d as u128 }
            "strlen" => { let p = k!(0); let mut i = 0; loop { if self.byte_is(st, p + i, 0)? { break; } i += 1; if i > 1 << 20 { return Err(Stop::Internal("runaway strlen".into())); } } i as u128 }
            "memchr" => { let (p, ch, l) = (k!(0), k!(1), k!(2)); let mut r = 0; for i in 0..l { if self.byte_is(st, p + i, ch as u8)? { r = p as u128 + i as u128; break; } } r }
            "memrchr" => { let (p, ch, l) = (k!(0), k!(1), k!(2)); let mut r = 0; for i in (0..l).rev() { if self.byte_is(st, p + i, ch as u8)? { r = p as u128 + i as u128; break; } } r }
            "write" => { let (fd, p, l) = (k!(0), k!(1), k!(2)); if self.prints { if let Some(b) = st.mem.bytes(p, l) { eprint!("{}", String::from_utf8_lossy(&b)); } } let _ = fd; l as u128 }
            "writev" => { let (_, v, cnt) = (k!(0), k!(1), k!(2)); let mut t = 0; for i in 0..cnt { let p = st.mem.load(v + 16 * i, 8).unwrap_or(0) as u64; let l = st.mem.load(v + 16 * i + 8, 8).unwrap_or(0) as u64; if self.prints { if let Some(b) = st.mem.bytes(p, l) { eprint!("{}", String::from_utf8_lossy(&b)); } } t += l; } t as u128 }
            "getenv" | "secure_getenv" => 0,
            "__errno_location" => self.errno as u128,
            "getrandom" => { let (p, l) = (k!(0), k!(1)); st.mem.fill(p, 0, l); l as u128 }
            "syscall" => { let nr = k!(0); match nr { 318 => { let (p, l) = (k!(1), k!(2)); st.mem.fill(p, 0, l); l as u128 } 202 => 0, 186 => 1, _ => return Err(Stop::Internal(format!("syscall {nr}"))) } }
            "gettid" | "getpid" => 1,
            "pthread_key_create" => { let p = k!(0); st.mem.store(p, 4, 7); 0 }
            "__cxa_thread_atexit_impl" | "pthread_setspecific" | "pthread_key_delete" | "sigaltstack" | "sched_yield" => 0,
            "pthread_self" => 0x7777,
            "sysconf" => 4096,
            "clock_gettime" => { let p = k!(1); st.mem.store(p, 8, 1_700_000_000); st.mem.store(p + 8, 8, 0); 0 }
            "abort" => return Err(Stop::Internal("abort".into())),
            "exit" | "_exit" => return Err(Stop::Panic("process exit".into())),
            // files: only those a harness registered exist
            "open64" | "open" => {
                let p = k!(0);
                let path = st.mem.cstr(p).ok_or(Stop::Internal("symbolic path".into()))?;
                match st.vfs.iter().position(|v| v.0 == path) {
                    Some(i) => { let f = Rc::make_mut(&mut st.fds); f.push(Some((i as u32, 0))); (f.len() as u64 - 1 + 100) as u128 }
                    None => { st.mem.store(self.errno, 4, 2); u32::MAX as u128 }
                }
            }
            "read" => {
                let (fd, p, l) = (k!(0), k!(1), k!(2));
                let (i, pos) = st.fds.get(fd as usize - 100).copied().flatten().ok_or(Stop::Internal("bad fd".into()))?;
                let (_, ad, len) = st.vfs[i as usize].clone();
                let m = len.saturating_sub(pos).min(l);
                st.mem.copy(p, ad + pos, m);
                Rc::make_mut(&mut st.fds)[fd as usize - 100] = Some((i, pos + m));
                m as u128
            }
            "lseek64" | "lseek" => {
                let (fd, off, wh) = (k!(0), k!(1) as i64, k!(2));
                let (i, pos) = st.fds.get(fd as usize - 100).copied().flatten().ok_or(Stop::Internal("bad fd".into()))?;
                let len = st.vfs[i as usize].2;
                let base = match wh { 0 => 0, 1 => pos as i64, _ => len as i64 };
                match base.checked_add(off) { Some(x) if x >= 0 => { Rc::make_mut(&mut st.fds)[fd as usize - 100] = Some((i, x as u64)); x as u64 as u128 } _ => { st.mem.store(self.errno, 4, 22); u64::MAX as u128 } }
            }
            "close" => { let fd = k!(0); if fd >= 100 { if let Some(s) = Rc::make_mut(&mut st.fds).get_mut(fd as usize - 100) { *s = None; } } 0 }
            "statx" => { st.mem.store(self.errno, 4, 38); u32::MAX as u128 }
            "stat64" | "lstat64" | "fstat64" => {
                let len = if n == "fstat64" { let fd = k!(0); let (i, _) = st.fds.get((fd as usize).wrapping_sub(100)).copied().flatten().ok_or(Stop::Internal("bad fd".into()))?; st.vfs[i as usize].2 } else {
                    let p = k!(0);
                    let path = st.mem.cstr(p).ok_or(Stop::Internal("symbolic path".into()))?;
                    match st.vfs.iter().find(|v| v.0 == path) { Some(v) => v.2, None => { st.mem.store(self.errno, 4, 2); return Ok(Val::C(u32::MAX as u128)); } }
                };
                let p = k!(1);
                st.mem.fill(p, 0, 144);
                st.mem.store(p + 24, 4, 0o100644); // st_mode
                st.mem.store(p + 48, 8, len as u128); // st_size
                0
            }
            "fcntl" => 0,
            _ => return Err(Stop::Internal(format!("external function {n}"))),
        }))
    }

    // ------------------------------------------------------------ harness interface
    fn text(&mut self, st: &State, p: &Val, n: &Val) -> R<String> { let (p, n) = (self.conc(st, p)? as u64, self.conc(st, n)? as u64); Ok(String::from_utf8_lossy(&st.mem.bytes(p, n).ok_or(Stop::Internal("symbolic harness string".into()))?).into_owned()) }
    fn new_var(&mut self, st: &mut State, name: &str, w: u16) -> (String, E) {
        let k = st.nvars.get(name).copied().unwrap_or(0);
        Rc::make_mut(&mut st.nvars).insert(name.into(), k + 1);
        let full = if k == 0 { name.to_string() } else { format!("{name}#{k}") };
        let e = match self.seen_var.get(&(full.clone(), w)) { Some(&e) => e, None => { let e = self.cx.var(full.clone(), w); self.seen_var.insert((full.clone(), w), e); e } };
        (full, e)
    }
    fn must(&mut self, st: &mut State, c: E, why: &str) -> R<()> {
        match self.cx.cv(c) { Some(1) => return Ok(()), Some(_) => { self.infeasible += 1; return Err(Stop::Internal(format!("__infeasible {why}"))); } None => {} }
        if let Some(&v) = st.fixed.get(&c) { if v == 1 { return Ok(()); } }
        if self.cx.eval(c, &st.model) != 1 {
            match self.sat(st, c) { Ok(Some(m)) => st.model = m, Ok(None) => { self.infeasible += 1; return Err(Stop::Internal(format!("__infeasible {why}"))); } Err(()) => return Err(Stop::Internal("solver gave up on an assumption".into())) }
        }
        self.assume(st, c);
        Ok(())
    }
    fn symcall(&mut self, st: &mut State, n: &str, a: &[Val]) -> R<Val> {
        Ok(match n {
            "__sym_is_symbolic_run" => Val::C(1),
            "__sym_var" => { // name, len, lo, hi (inclusive, signed)
                let name = self.text(st, &a[0], &a[1])?;
                let lo = self.conc(st, &a[2])? as u64 as i64; let hi = self.conc(st, &a[3])? as u64 as i64;
                if lo > hi { return Err(Stop::Internal("empty range".into())); }
                let span = (hi as i128 - lo as i128) as u128;
                if span == 0 { Rc::make_mut(&mut st.nvars).entry(name.clone()).and_modify(|k| *k += 1).or_insert(1); let e = self.cx.c(64, lo as u64 as u128); Rc::make_mut(&mut st.inputs).push((name, e)); return Ok(Val::C(lo as u64 as u128)); }
                let w = (128 - span.leading_zeros()) as u16;
                let (full, v) = self.new_var(st, &name, w);
                let z = self.cx.zext(v, 64); let k = self.cx.c(64, lo as u64 as u128);
                let e = self.cx.bin(Op::Add, z, k);
                Rc::make_mut(&mut st.inputs).push((full, e));
                if span != mask(w) { let m = self.cx.c(w, span); let c = self.cx.cmp(Op::Ule, v, m); if self.cx.cv(c) != Some(1) { self.must(st, c, "range")?; } }
                self.mk(st, e)
            }
            "__sym_assume" => { let v = match &a[0] { Val::C(k) => { if k & 1 == 1 { return Ok(Val::C(0)); } self.infeasible += 1; return Err(Stop::Internal("__infeasible assume".into())) } v => v.clone() }; let c = self.b1(&v); self.must(st, c, "assume")?; Val::C(0) }
            "__sym_check" => { // cond, label, len, known, known label, len
                let label = self.text(st, &a[1], &a[2])?;
                let klabel = self.text(st, &a[4], &a[5])?;
                let c = self.b1(&a[0]); let kn = self.b1(&a[3]);
                let bad = self.cx.not(c);
                let ent = self.checks.entry(label.clone()).or_insert((0, 0));
                ent.0 += 1;
                if self.cx.cv(bad) == Some(0) { ent.1 += 1; return Ok(Val::C(0)); }
                let nk = self.cx.not(kn);
                let q = self.cx.bin(Op::And, bad, nk);
                match self.sat(st, q) {
                    Ok(None) => { self.checks.get_mut(&label).unwrap().1 += 1; }
                    Ok(Some(m)) => { let d = self.where_(st); if std::env::var_os("SYMX_TRACE_VIOL").is_some() { eprintln!("violation {label}\n{}", self.backtrace(st)); } self.violate(st, &label, &d, None, m); }
                    Err(()) => return Err(Stop::Internal("solver gave up on a check".into())),
                }
                if self.cx.cv(kn) != Some(0) {
                    let q = self.cx.bin(Op::And, bad, kn);
                    match self.sat(st, q) { Ok(None) => {} Ok(Some(m)) => { let d = self.where_(st); self.violate(st, &label, &d, Some(klabel), m); } Err(()) => return Err(Stop::Internal("solver gave up on a check".into())) }
                }
                // continue on the inputs for which the check holds
                match self.cx.cv(c) { Some(0) => { st.failed = true; return Err(Stop::End) } Some(_) => {} None => match self.must(st, c, "check") { Ok(()) => {} Err(Stop::Internal(m)) if m.starts_with("__infeasible") => { st.failed = true; return Err(Stop::End) }, Err(e) => return Err(e) } }
                Val::C(0)
            }
            "__sym_cover" => { let s = self.text(st, &a[0], &a[1])?; if !st.covered.contains(&s) { Rc::make_mut(&mut st.covered).push(s); } Val::C(0) }
            "__sym_panic_ok" => { let v = self.conc(st, &a[0])?; st.panic_ok = v & 1 == 1; Val::C(0) }
            "__sym_panic_known" => { let id = self.text(st, &a[1], &a[2])?; let v = self.norm(st, &a[0]); st.pknown = if id.is_empty() { None } else { Some((v, Rc::new(id))) }; Val::C(0) }
            "__sym_obs" => { let s = self.text(st, &a[0], &a[1])?; let v = self.norm(st, &a[2]); Rc::make_mut(&mut st.observed).push((s, v)); Val::C(0) }
            "__sym_end" => return Err(Stop::End),
            "__sym_conc" => { let v = self.conc(st, &a[0])?; Val::C(v) }
            "__sym_is_sym" => { Val::C(matches!(self.norm(st, &a[0]), Val::S(_)) as u128) }
            "__sym_arg" => { let i = self.conc(st, &a[0])? as usize; Val::C(self.args.get(i).copied().unwrap_or(0) as u64 as u128) }
            "__sym_unplace" => { let v = self.conc(st, &a[0])? as u64; let k = v.wrapping_sub(MAGIC); if k % 64 == 0 && ((k / 64) as usize) < st.magic.len() { let e = st.magic[(k / 64) as usize]; self.mk(st, e) } else { Val::C(v as u128) } }
            "__sym_unplace_f" => { let v = f64::from_bits(self.conc(st, &a[0])? as u64); let w = self.conc(st, &a[1])? as u16; let k = v - 1_000_000.5; if k >= 0.0 && k.fract() == 0.0 && (k as usize) < st.magic.len() { let e = st.magic[k as usize]; self.mk(st, e) } else if w == 32 { Val::C((v as f32).to_bits() as u128) } else { Val::C(v.to_bits() as u128) } }
            "__sym_print" => { let s = self.text(st, &a[0], &a[1])?; eprintln!("[sym] {s}"); Val::C(0) }
            "__sym_print_val" => { let s = self.text(st, &a[0], &a[1])?; match self.norm(st, &a[2]) { Val::C(k) => eprintln!("[sym] {s} = {}", k as i64), Val::S(e) => { let v = self.cx.eval(e, &st.model); eprintln!("[sym] {s} = symbolic (e.g. {}) {}", v as i64, self.show(e, 4)) } _ => {} } Val::C(0) }
            "__sym_file" => { let (p, n) = (self.conc(st, &a[0])? as u64, self.conc(st, &a[1])? as u64); let name = st.mem.bytes(p, n).unwrap(); let (d, l) = (self.conc(st, &a[2])? as u64, self.conc(st, &a[3])? as u64); let q = self.alloc(st, l, 16); st.mem.copy(q, d, l); Rc::make_mut(&mut st.vfs).push((name, q, l)); Val::C(0) }
            _ => return Err(Stop::Internal(format!("harness call {n}"))),
        })
    }
    fn where_(&self, st: &State) -> String {
        for f in std::iter::once(&st.top).chain(st.stack.iter().rev().map(|r| &**r)) {
            let mut k = f.body.dbg.get(f.pc).copied();
            while let Some(x) = k { if let Some((fl, ln, _)) = self.m.loc(x) { if fl.contains("harness/") && !fl.contains("symrt") { return format!("{}:{}", fl.rsplit('/').next().unwrap_or(""), ln); } } k = self.m.inlined_at(x); }
        }
        String::new()
    }
    fn b1(&mut self, v: &Val) -> E { match v { Val::C(k) => self.cx.c(1, *k & 1), Val::S(e) => if self.cx.w(*e) == 1 { *e } else { self.cx.extract(0, 0, *e) }, _ => panic!() } }
    pub fn show(&self, e: E, d: u32) -> String {
        let n = self.cx.n(e);
        match n.op { Op::Const => format!("{}", sx(n.k, n.w)), Op::Var => self.cx.vars[n.k as usize].name.clone(), _ if d == 0 => "..".into(), _ => { let k: Vec<String> = self.cx.kids(&n).iter().map(|&x| self.show(x, d - 1)).collect(); format!("({:?}{} {})", n.op, n.w, k.join(" ")) } }
    }
}

fn cv(c: &CV) -> Val { match c { CV::I(k) => Val::C(*k), CV::A(a) => Val::A(Rc::new(a.iter().map(cv).collect())) } }
fn insert(a: &Val, v: &Val, ix: &[u32]) -> Val {
    if ix.is_empty() { return v.clone(); }
    let Val::A(x) = a else { panic!("insert into scalar") };
    let mut x = (**x).clone();
    x[ix[0] as usize] = insert(&x[ix[0] as usize], v, &ix[1..]);
    Val::A(Rc::new(x))
}
fn eop(b: Bin) -> Op { match b { Bin::Add => Op::Add, Bin::Sub => Op::Sub, Bin::Mul => Op::Mul, Bin::UDiv => Op::UDiv, Bin::SDiv => Op::SDiv, Bin::URem => Op::URem, Bin::SRem => Op::SRem, Bin::And => Op::And, Bin::Or => Op::Or, Bin::Xor => Op::Xor, Bin::Shl => Op::Shl, Bin::LShr => Op::LShr, Bin::AShr => Op::AShr, Bin::FAdd => Op::FAdd, Bin::FSub => Op::FSub, Bin::FMul => Op::FMul, Bin::FDiv => Op::FDiv, Bin::FRem => Op::FRem } }
fn half_to_f32(h: u16) -> f32 {
    let s = (h as u32 >> 15) << 31; let e = (h >> 10) & 31; let m = (h & 1023) as u32;
    if e == 0 { let v = m as f32 * 2f32.powi(-24); f32::from_bits(v.to_bits() | s) } else if e == 31 { f32::from_bits(s | 0x7f80_0000 | (m << 13)) } else { f32::from_bits(s | ((e as u32 + 112) << 23) | (m << 13)) }
}

fn classify(m: &Module, f: u32) -> Bi {
    let fun = &m.funcs[f as usize];
    let n = fun.name.as_str();
    if n.starts_with("__sym_") { return Bi::Sym(n.to_string()); }
    if let Some(r) = n.strip_prefix("llvm.") {
        let w = fun.params.first().map(|&t| match &m.types[t as usize] { Ty::Void | Ty::Meta => 0, _ => m.bits(m.elem(t)) }).unwrap_or(0);
        let st = |p: &str| r.starts_with(p);
        return if st("lifetime") || st("experimental.noalias") || st("dbg") || st("invariant") || st("prefetch") || st("donothing") || st("x86.sse2.pause") || st("stacksave") || st("stackrestore") || st("sideeffect") || st("pseudoprobe") { Bi::Nop }
        else if st("assume") { Bi::Assume } else if st("memcpy") || st("memmove") { Bi::Memcpy } else if st("memset") { Bi::Memset }
        else if st("sadd.with") { Bi::Ovf('s', Bin::Add, w) } else if st("uadd.with") { Bi::Ovf('u', Bin::Add, w) } else if st("ssub.with") { Bi::Ovf('s', Bin::Sub, w) } else if st("usub.with") { Bi::Ovf('u', Bin::Sub, w) } else if st("smul.with") { Bi::Ovf('s', Bin::Mul, w) } else if st("umul.with") { Bi::Ovf('u', Bin::Mul, w) }
        else if st("uadd.sat") { Bi::Sat('u', Bin::Add, w) } else if st("usub.sat") { Bi::Sat('u', Bin::Sub, w) } else if st("sadd.sat") { Bi::Sat('s', Bin::Add, w) } else if st("ssub.sat") { Bi::Sat('s', Bin::Sub, w) }
        else if st("umin") { Bi::MinMax(Pred::Ult, w) } else if st("umax") { Bi::MinMax(Pred::Ugt, w) } else if st("smin") { Bi::MinMax(Pred::Slt, w) } else if st("smax") { Bi::MinMax(Pred::Sgt, w) }
        else if st("abs") { Bi::Abs(w) } else if st("ucmp") { Bi::Ucmp(false, w) } else if st("scmp") { Bi::Ucmp(true, w) } else if st("ctlz") { Bi::Ctlz(w) } else if st("cttz") { Bi::Cttz(w) } else if st("ctpop") { Bi::Ctpop(w) } else if st("bswap") { Bi::Bswap(w) } else if st("bitreverse") { Bi::Bitrev(w) }
        else if st("fshl") { Bi::Fsh(true, w) } else if st("fshr") { Bi::Fsh(false, w) } else if st("fptosi.sat") { Bi::FpSat(true) } else if st("fptoui.sat") { Bi::FpSat(false) } else if st("is.fpclass") { Bi::FpClass(w) } else if st("fabs") { Bi::Fabs(w) } else if st("copysign") { Bi::Copysign(w) }
        else if st("minnum") || st("minimumnum") { Bi::FMinMax(true, w) } else if st("maxnum") || st("maximumnum") { Bi::FMinMax(false, w) } else if st("fma.") || st("fmuladd") { Bi::Fma(w) }
        else if st("threadlocal.address") { Bi::TlsAddr } else if st("trap") || st("ubsantrap") || st("debugtrap") { Bi::Trap } else if st("is.constant") { Bi::IsConst } else if st("expect") { Bi::Expect }
        else if st("vector.reduce.or") { Bi::ReduceOr } else if st("vector.reduce.and") { Bi::ReduceAnd } else if st("vector.reduce.add") { Bi::ReduceAdd }
        else if st("x86.xgetbv") { Bi::Zero }
        else if ["sqrt", "floor", "ceil", "trunc", "rint", "nearbyint", "roundeven", "round", "exp", "log", "log2", "log10", "sin", "cos"].iter().any(|x| r.split('.').next() == Some(x)) { Bi::Fun1(r.split('.').next().unwrap().to_string(), w) }
        else { Bi::Ext(n.to_string()) };
    }
    if n.contains("4core9panicking") || n.contains("3std9panicking") && !n.contains("11panic_count") && !n.contains("9take_hook") && !n.contains("8set_hook") && !n.contains("9panicking9panicking") || n.starts_with("rust_panic") || n.contains("rust_begin_unwind") || n.contains("17rust_begin_unwind") { return Bi::Panic; }
    if n.contains("4core3fmt3num") {
        // integer Display / Debug
        let is = n.contains("7Display3fmt") || n.contains("5Debug3fmt");
        if is {
            let after = n.split("4core3fmt3num").nth(1).unwrap();
            let after = after.strip_prefix("3imp").unwrap_or(after);
            let w = match after.as_bytes()[0] { b'a' | b'h' => 8, b's' | b't' => 16, b'l' | b'm' => 32, b'x' | b'y' | b'i' | b'j' => 64, _ => 0 };
            if w != 0 { return Bi::FmtInt(w, true); }
        }
    }
    if n.contains("4core3fmt5float") && (n.contains("7Display3fmt") || n.contains("5Debug3fmt")) {
        let after = n.split("4core3fmt5float").nth(1).unwrap();
        match after.as_bytes()[0] { b'f' => return Bi::FmtFloat(32), b'd' => return Bi::FmtFloat(64), _ => {} }
    }
    if fun.src.is_none() { return Bi::Ext(n.to_string()); }
    Bi::None
}
