//! Interpreter of generated models: values are those of the reference
//! semantics, tensor operations those of burn's tensor API.
use crate::ast::*;
use sem::*;
use std::rc::Rc;
use symrt::{conc, is_sym};

/// Wrong: the code does not compile or fails at run time. Gap: not interpreted.
#[derive(Debug)]
pub enum Fail { Wrong(String), Gap(String), Break, Continue }
pub type Q<T> = Result<T, Fail>;
pub fn wrong<T>(m: impl Into<String>) -> Q<T> { Err(Fail::Wrong(m.into())) }
pub fn gap<T>(m: impl Into<String>) -> Q<T> { Err(Fail::Gap(m.into())) }
pub type S = &'static str;

/// a tensor; `pre`: what a conversion with a default type was applied to;
/// `lazy`: the rank is inferred by what the tensor is used in
#[derive(Clone)]
pub struct Tn { pub v: V, pub pre: Option<Rc<V>>, pub lazy: bool }
#[derive(Clone)]
pub struct Obj { pub n: String, pub args: Vec<X>, pub f: Vec<(String, X)> }
#[derive(Clone)]
pub enum X { T(Tn), N(E, S), A(Vec<X>), Tu(Vec<X>), Rg(Option<Box<X>>, Option<Box<X>>, bool), St(String), O(Rc<Obj>), F(Rc<(Vec<Pat>, B)>), D(V), Dev, U, No, So(Box<X>), Dt(i32), Ptr(String, Vec<usize>) }
pub fn t(v: V) -> X { X::T(Tn { v, pre: None, lazy: false }) }
pub fn n(v: i64, ty: S) -> X { X::N(E::I(v), ty) }
pub fn us(v: usize) -> X { n(v as i64, "usize") }

const TYPES: [(&str, i32); 19] = [("f32", 1), ("u8", 2), ("i8", 3), ("u16", 4), ("i16", 5), ("i32", 6), ("i64", 7), ("bool", 9), ("f16", 10), ("f64", 11), ("u32", 12), ("u64", 13), ("bf16", 16), ("usize", 7), ("isize", 7), ("int", 7), ("float", 11), ("i128", 7), ("IntElem", 7)];
pub fn tyn(s: &str) -> Option<S> { TYPES.iter().find(|x| x.0 == s).map(|x| x.0) }
pub fn tcode(s: &str) -> i32 { TYPES.iter().find(|x| x.0 == s).map_or(0, |x| x.1) }
pub fn kind(t: i32) -> i32 { match t { 1 | 10 | 11 | 16 => 1, 9 => 3, 0 => 0, _ => 2 } }
/// element type: "int" and "float" adapt to the other operand
pub fn join(a: S, b: S) -> Q<S> { if a == b || b == "int" && a != "bool" && !is_f(a) || b == "float" && is_f(a) { Ok(a) } else if a == "int" && b != "bool" && !is_f(b) || a == "float" && is_f(b) { Ok(b) } else { wrong(format!("mismatched types {a} and {b}")) } }
pub fn is_f(s: S) -> bool { matches!(s, "f32" | "f64" | "f16" | "bf16" | "float") }
pub fn wrap(v: i64, ty: S) -> i64 { match ty { "u8" => v as u8 as i64, "i8" => v as i8 as i64, "u16" => v as u16 as i64, "i16" => v as i16 as i64, "i32" => v as i32 as i64, "u32" => v as u32 as i64, _ => v } }
pub fn signed(ty: S) -> bool { !matches!(ty, "usize" | "u64" | "u32" | "u16" | "u8") }

pub struct Vm<'a> { pub p: &'a Program, pub vars: Vec<(String, Option<X>)>, pub fields: Vec<(String, X)>, pub ret: Option<X>, pub depth: usize }
const BYREF: [&str; 40] = ["clone", "dims", "shape", "device", "dtype", "to_data", "len", "iter", "as_slice", "iter_mut", "val", "forward", "is_empty", "contains", "get", "num_elements", "as_ref", "to_vec", "first", "last", "zeros_like", "ones_like", "full_like", "random_like", "num_dims", "rank", "push", "extend", "insert", "remove", "resize", "fill", "swap", "copy_from_slice", "is_some", "is_none", "chunks", "as_mut", "to_device_ref", "max_len"];

fn heavy(x: &X) -> bool { match x { X::T(_) | X::D(_) => true, X::A(l) | X::Tu(l) => l.iter().any(heavy), X::So(b) => heavy(b), _ => false } }
impl Vm<'_> {
    pub fn bind(&mut self, p: &Pat, x: X) -> Q<()> {
        match p {
            Pat::Any => Ok(()), Pat::Id(i) => { self.vars.push((i.clone(), Some(x))); Ok(()) }
            Pat::List(l) => match x { X::A(v) | X::Tu(v) => { if v.len() != l.len() { return wrong("a pattern and its value have different lengths"); } for (p, x) in l.iter().zip(v) { self.bind(p, x)?; } Ok(()) } _ => wrong("a pattern does not match its value") },
        }
    }
    fn slot(&mut self, name: &str) -> Option<&mut Option<X>> { self.vars.iter_mut().rev().find(|(k, _)| k == name).map(|(_, v)| v) }
    pub fn peek(&mut self, name: &str) -> Q<X> {
        match self.slot(name) { Some(Some(X::Ptr(p, ix))) => { let (p, ix) = (p.clone(), ix.clone()); let x = self.peek(&p)?; deep(&x, &ix) } Some(Some(x)) => Ok(x.clone()), Some(None) => wrong(format!("{name} is used after it was moved")), None => wrong(format!("{name} is not defined")) }
    }
    fn take(&mut self, name: &str) -> Q<X> { let x = self.peek(name)?; if heavy(&x) { *self.slot(name).unwrap() = None; } Ok(x) }
    pub fn block(&mut self, b: &[St]) -> Q<X> {
        let m = self.vars.len(); let r = self.stmts(b); self.vars.truncate(m); r
    }
    fn stmts(&mut self, b: &[St]) -> Q<X> {
        let mut last = X::U;
        for s in b {
            last = X::U;
            match s {
                St::Let(p, ty, e) => { let Some(e) = e else { return gap("let without value") }; let x = self.ev_as(e, ty.as_ref())?; self.bind(p, x)?; }
                St::Do(e) => { self.ev(e)?; }
                St::Value(e) => { last = self.ev(e)?; }
            }
        }
        Ok(last)
    }
    pub fn ev_as(&mut self, e: &Ex, ty: Option<&Ty>) -> Q<X> { let x = self.ev(e)?; match ty { Some(t) => self.coerce(x, t), None => Ok(x) } }
    /// a value used where type `ty` is declared
    pub fn coerce(&mut self, x: X, ty: &Ty) -> Q<X> {
        match (x, ty.n.as_str()) {
            (X::T(mut a), "Tensor") => {
                let r = ty.a.get(1).and_then(|r| r.n.parse::<usize>().ok()); let kd = match ty.a.get(2).map(|k| k.n.as_str()) { Some("Int") => 2, Some("Bool") => 3, _ => 1 };
                if let Some(r) = r && ty.a.len() > 1 { if a.lazy { a.v = lead(&a.v, r)?; a.lazy = false; } if a.v.rank() != r { return wrong(format!("a tensor of rank {} where rank {r} is declared", a.v.rank())); } }
                if a.v.t != 0 && kind(a.v.t) != kd { return wrong("a tensor of another kind than declared"); } if a.v.t == 0 { a.v.t = [1, 7, 9][kd as usize - 1]; } Ok(X::T(a))
            }
            (X::T(_), _) if ty.n == "_" => wrong("unexpected type"), (X::T(_), n) if tyn(n).is_some() || n == "[" || n == "Vec" => wrong("a tensor where another type is declared"),
            (X::N(e, from), n) if tyn(n).is_some() => { let to = tyn(n).unwrap(); join(from, to).and_then(|j| if j == to { Ok(X::N(e, to)) } else { wrong(format!("a value of type {from} where {to} is declared")) }) }
            (X::A(l), "[") => { if let Some(k) = ty.a.get(1).and_then(|k| k.n.parse::<usize>().ok()) && k != l.len() { return wrong(format!("an array of {} elements where {k} are declared", l.len())); } let el = ty.a[0].clone(); Ok(X::A(l.into_iter().map(|x| self.coerce(x, &el)).collect::<Q<_>>()?)) }
            (X::A(l), "Vec") => { match ty.a.first() { Some(el) if el.n != "_" => { let el = el.clone(); Ok(X::A(l.into_iter().map(|x| self.coerce(x, &el)).collect::<Q<_>>()?)) } _ => Ok(X::A(l)) } }
            (X::Tu(l), "(") => { if l.len() != ty.a.len() { return wrong("a tuple of another length than declared"); } let a = ty.a.clone(); Ok(X::Tu(l.into_iter().zip(&a).map(|(x, t)| self.coerce(x, t)).collect::<Q<_>>()?)) }
            (X::O(o), "Param") if o.n == "Param" => { let mut q = (*o).clone(); if let Some(w) = ty.a.first() && w.n == "Tensor" { if let Some(r) = w.a.get(1).and_then(|r| r.n.parse::<usize>().ok()) { q.f.push(("rank".into(), us(r))); } q.f.push(("kind".into(), us(match w.a.get(2).map(|k| k.n.as_str()) { Some("Int") => 2, Some("Bool") => 3, _ => 1 }))); } Ok(X::O(Rc::new(q))) }
            (X::N(_, f), "Tensor" | "[" | "Vec") => wrong(format!("a {f} where {} is declared", ty.n)), (X::A(_), "Tensor") => wrong("an array where a tensor is declared"),
            (X::A(_), n) if tyn(n).is_some() => wrong("an array where a number is declared"),
            (x, _) => Ok(x),
        }
    }
    fn place(&mut self, e: &Ex) -> Q<(String, Vec<usize>)> {
        match e {
            Ex::Path(p, ..) if p.len() == 1 => { if let Some(Some(X::Ptr(q, ix))) = self.slot(&p[0]) { return Ok((q.clone(), ix.clone())); } if self.slot(&p[0]).is_none() { return wrong(format!("{} is not defined", p[0])); } Ok((p[0].clone(), vec![])) }
            Ex::Index(b, i) => { let mut pl = self.place(b)?; let i = self.ev(i)?; pl.1.push(self.index(&i)?); Ok(pl) }
            Ex::Field(b, f) => { let mut pl = self.place(b)?; let Ok(i) = f.parse() else { return gap("field place") }; pl.1.push(i); Ok(pl) }
            Ex::Un('*', b) | Ex::Ref(b) => self.place(b), _ => gap("place expression"),
        }
    }
    fn place_mut(&mut self, pl: &(String, Vec<usize>)) -> Q<&mut X> {
        let Some(Some(mut x)) = self.slot(&pl.0).map(|s| s.as_mut()) else { return wrong(format!("{} is not available", pl.0)) };
        for i in &pl.1 { x = match x { X::A(l) | X::Tu(l) => match l.get_mut(*i) { Some(x) => x, None => return wrong("index out of bounds") }, _ => return gap("indexed place") }; } Ok(x)
    }
    pub fn index(&self, x: &X) -> Q<usize> { match x { X::N(E::I(v), _) => { let v = conc(*v); if v < 0 { wrong("index out of bounds") } else { Ok(v as usize) } } _ => gap("index") } }
    pub fn int(&self, x: &X) -> Q<i64> { match x { X::N(E::I(v), _) => Ok(*v), X::N(e, _) if cst(e).is_some() => Ok(cst(e).unwrap() as i64), _ => gap("integer expected") } }
    pub fn ints(&self, x: &X) -> Q<Vec<i64>> { match x { X::A(l) | X::Tu(l) => l.iter().map(|x| self.int(x)).collect(), _ => gap("list of integers expected") } }
    pub fn usizes(&self, x: &X) -> Q<Vec<usize>> { self.ints(x)?.into_iter().map(|v| if conc((v < 0) as i64) != 0 { wrong("a negative size") } else { Ok(conc(v) as usize) }).collect() }
    fn truth(&mut self, x: X) -> Q<bool> { match x { X::N(E::I(v), "bool") => Ok(conc((v != 0) as i64) != 0), _ => gap("condition") } }
    pub fn call_fn(&mut self, f: &X, args: Vec<X>) -> Q<X> { let X::F(f) = f else { return gap("call of a value") }; if f.0.len() != args.len() { return wrong("closure arity"); } let m = self.vars.len(); for (p, x) in f.0.iter().zip(args) { self.bind(p, x)?; } let r = self.ev(&f.1); self.vars.truncate(m); r }
    /// without moving
    pub fn by_ref(&mut self, e: &Ex) -> Q<X> {
        match e {
            Ex::Path(p, ..) if p.len() == 1 && p[0] != "self" && self.slot(&p[0]).is_some() => self.peek(&p[0]),
            Ex::Index(..) | Ex::Field(..) => self.ev(e), Ex::Ref(b) | Ex::Un('*', b) => self.by_ref(b), _ => self.ev(e),
        }
    }
    pub fn ev(&mut self, e: &Ex) -> Q<X> {
        match e {
            Ex::Int(v, ty) => Ok(n(*v, tyn(ty).unwrap_or("int"))), Ex::Float(v, ty) => Ok(X::N(k(conc_f(*v)), tyn(ty).unwrap_or("float"))), Ex::Bool(b) => Ok(n(*b as i64, "bool")), Ex::Str(s) => Ok(X::St(s.clone())),
            Ex::Path(p, g, h) => if p.len() == 1 && g.is_empty() && h.is_empty() && self.slot(&p[0]).is_some() { self.take(&p[0]) } else { self.constant(p) },
            Ex::Ref(b) => self.by_ref(b), Ex::Un('*', b) => self.by_ref(b),
            Ex::Un('-', b) => match self.ev(b)? { X::N(E::I(v), ty) => { if !signed(ty) { return wrong("negation of an unsigned value"); } Ok(n(wrap(v.wrapping_neg(), ty), ty)) } X::N(e, ty) => Ok(X::N(neg(&e), ty)), X::T(a) => self.method(X::T(a), "neg", &[], vec![]), _ => gap("negation") },
            Ex::Un(_, b) => match self.ev(b)? { X::N(e, "bool") => Ok(X::N(unary("Not", &e, &[]), "bool")), X::N(E::I(v), ty) => Ok(n(wrap(!v, ty), ty)), X::T(a) => self.method(X::T(a), "bool_not", &[], vec![]), _ => gap("not") },
            Ex::Bin(op, a, b) => {
                if op == "&&" || op == "||" { let x = self.ev(a)?; let t = self.truth(x)?; if t == (op == "||") { return Ok(n(t as i64, "bool")); } return self.ev(b); }
                let refs = matches!(op.as_str(), "==" | "!=" | "<" | "<=" | ">" | ">="); let x = if refs { self.by_ref(a)? } else { self.ev(a)? }; let y = if refs { self.by_ref(b)? } else { self.ev(b)? }; self.binary(op, x, y)
            }
            Ex::Cast(b, ty) => { let x = self.ev(b)?; self.native_cast(x, &ty.n) }
            Ex::Range(a, b, inc) => { let a = match a { Some(a) => Some(Box::new(self.ev(a)?)), None => None }; let b = match b { Some(b) => Some(Box::new(self.ev(b)?)), None => None }; Ok(X::Rg(a, b, *inc)) }
            Ex::Arr(l) => { let mut v = vec![]; for e in l { v.push(self.ev(e)?); } same_types(&mut v)?; Ok(X::A(v)) }
            Ex::Tup(l) => { let mut v = vec![]; for e in l { v.push(self.ev(e)?); } Ok(if v.is_empty() { X::U } else { X::Tu(v) }) }
            Ex::Rep(a, b) => { let x = self.ev(a)?; let m = self.ev(b)?; let m = self.index(&m)?; Ok(X::A(vec![x; m])) }
            Ex::Block(b) => self.block(b),
            Ex::If(c, a, b) => { let x = self.ev(c)?; if let X::N(x @ E::P(_), "bool") = &x && cst(x).is_none() { return gap("branch on an abstract value"); } if self.truth(x)? { self.ev(a) } else { match b { Some(b) => self.ev(b), None => Ok(X::U) } } }
            Ex::For(p, it, b) => { let x = self.iterable(it)?; let m = self.vars.len(); for v in x { self.bind(p, v)?; let r = self.ev(b); self.vars.truncate(m); match r { Ok(_) | Err(Fail::Continue) => {} Err(Fail::Break) => break, Err(e) => return Err(e) } } Ok(X::U) }
            Ex::While(c, b) => { let mut i = 0; loop { let x = self.ev(c)?; if !self.truth(x)? { return Ok(X::U); } match self.ev(b) { Ok(_) | Err(Fail::Continue) => {} Err(Fail::Break) => return Ok(X::U), Err(e) => return Err(e) } i += 1; if i > 64 { return gap("long loop"); } } }
            Ex::Loop(b) => { let mut i = 0; loop { match self.ev(b) { Ok(_) | Err(Fail::Continue) => {} Err(Fail::Break) => return Ok(X::U), Err(e) => return Err(e) } i += 1; if i > 64 { return gap("long loop"); } } }
            Ex::Break => Err(Fail::Break), Ex::Continue => Err(Fail::Continue),
            Ex::Fun(p, b) => Ok(X::F(Rc::new((p.clone(), b.clone())))),
            Ex::Set(op, l, r) => { let v = self.ev(r)?; let pl = self.place(l)?; let v = if op.is_empty() { v } else { let old = self.place_mut(&pl)?.clone(); self.binary(op, old, v)? };
                // an assignment revives a moved variable
                if pl.1.is_empty() { let Some(s) = self.slot(&pl.0) else { return wrong("assignment to an unknown variable") }; let v = if let (Some(X::N(_, ty)), X::N(e, f)) = (&*s, &v) { X::N(e.clone(), { let j = join(ty, f)?; if j != *ty && *ty != "int" && *ty != "float" { return wrong("assignment of another type"); } j }) } else { v }; *s = Some(v); }
                else { let s = self.place_mut(&pl)?; let v = if let (X::N(_, ty), X::N(e, f)) = (&*s, &v) { let j = join(ty, f)?; X::N(e.clone(), j) } else { v }; *s = v; } Ok(X::U) }
            Ex::Try(b) => self.ev(b),
            Ex::New(p, f) => { let mut o = vec![]; for (k, e) in f { o.push((k.clone(), self.ev(e)?)); } Ok(X::O(Rc::new(Obj { n: p.join("::"), args: vec![], f: o }))) }
            Ex::Field(b, f) => {
                if let Ex::Path(p, ..) = &**b && p.len() == 1 && p[0] == "self" { if f == "device" { return Ok(X::Dev); } return match self.fields.iter().find(|(k, _)| k == f) { Some((_, x)) => Ok(x.clone()), None => wrong(format!("self.{f} does not exist")) }; }
                match (self.by_ref(b)?, f.as_str()) {
                    (X::Tu(l), f) => match f.parse::<usize>().ok().and_then(|i| l.get(i).cloned()) { Some(x) => Ok(x), None => wrong("tuple field") },
                    (X::T(_), f) => wrong(format!("a tensor has no field {f}")), (X::O(o), f) => match o.f.iter().rev().find(|(k, _)| k == f) { Some((_, x)) => Ok(x.clone()), None => gap("field of a value") },
                    (X::D(v), "shape") => Ok(X::A(v.s.iter().map(|d| us(*d)).collect())), (X::D(v), "dtype") => Ok(X::Dt(v.t)), (X::A(l), "dims") => Ok(X::A(l)), _ => gap("field"),
                }
            }
            Ex::Index(b, i) => {
                let x = self.by_ref(b)?; let i = self.ev(i)?;
                let l = match &x { X::A(l) => l, X::T(_) => return wrong("a tensor is indexed"), _ => return gap("index of a value") };
                match i {
                    X::Rg(a, b, inc) => { let lo = match a { Some(a) => self.index(&a)?, None => 0 }; let hi = match b { Some(b) => self.index(&b)? + inc as usize, None => l.len() }; if lo > hi || hi > l.len() { return wrong("slice index out of bounds"); } Ok(X::A(l[lo..hi].to_vec())) }
                    X::N(_, ty) if ty != "usize" && ty != "int" => wrong(format!("an array is indexed by {ty}")),
                    i => { let i = self.index(&i)?; match l.get(i) { Some(x) => Ok(x.clone()), None => wrong("index out of bounds") } }
                }
            }
            Ex::Call(f, args) => self.call(f, args),
            Ex::Method(r, m, g, args) => {
                if m == "iter_mut" && args.is_empty() { let pl = self.place(r)?; let X::A(l) = self.place_mut(&pl)? else { return gap("iter_mut") }; let c = l.len(); return Ok(X::A((0..c).map(|i| { let mut ix = pl.1.clone(); ix.push(i); X::Ptr(pl.0.clone(), ix) }).collect())); }
                if matches!(m.as_str(), "push" | "extend" | "insert" | "remove" | "resize" | "fill" | "swap" | "extend_from_slice" | "copy_from_slice" | "sort" | "reverse" | "dedup" | "truncate" | "sort_unstable") && let Ok(pl) = self.place(r) && let Ok(X::A(_)) = self.place_mut(&pl).map(|x| x.clone()) {
                    let mut a = vec![]; for e in args { a.push(self.by_ref(e)?); }
                    let ii: Vec<usize> = a.iter().filter_map(|x| if let X::N(E::I(v), _) = x { Some(conc(*v) as usize) } else { None }).collect();
                    let X::A(l) = self.place_mut(&pl)? else { return gap("list") };
                    match (m.as_str(), &a[..]) {
                        ("push", [x]) => l.push(x.clone()), ("extend" | "extend_from_slice", [X::A(v)]) => l.extend(v.iter().cloned()), ("insert", [_, x]) if ii[0] <= l.len() => l.insert(ii[0], x.clone()), ("remove", [_]) if ii[0] < l.len() => return Ok(l.remove(ii[0])),
                        ("fill", [x]) => for v in l.iter_mut() { *v = x.clone(); }, ("swap", [_, _]) if ii[0] < l.len() && ii[1] < l.len() => l.swap(ii[0], ii[1]), ("copy_from_slice", [X::A(v)]) if v.len() == l.len() => l.clone_from_slice(v),
                        ("reverse", []) => l.reverse(), ("resize", [_, x]) => l.resize(ii[0], x.clone()), ("truncate", [_]) => l.truncate(ii[0]), _ => return gap(format!("list method {m}")),
                    }
                    return Ok(X::U);
                }
                let recv = if BYREF.contains(&m.as_str()) { self.by_ref(r)? } else { self.ev(r)? };
                let mut a = vec![]; for e in args { a.push(self.ev(e)?); }
                self.method(recv, m, g, a)
            }
        }
    }
    pub fn iterable(&mut self, e: &Ex) -> Q<Vec<X>> { let x = match e { Ex::Path(p, ..) if p.len() == 1 => self.ev(e)?, _ => self.ev(e)? }; self.list(x) }
    pub fn list(&mut self, x: X) -> Q<Vec<X>> {
        match x {
            X::A(l) => Ok(l),
            X::Rg(Some(a), Some(b), inc) => { let (X::N(_, ta), X::N(_, tb)) = (&*a, &*b) else { return gap("range") }; let ty = join(ta, tb)?; let (lo, hi) = (conc(self.int(&a)?), conc(self.int(&b)?) + inc as i64); if hi - lo > 200 { return gap("long range"); } Ok((lo..hi).map(|v| n(v, ty)).collect()) }
            _ => gap("iteration"),
        }
    }
    fn native_cast(&mut self, x: X, to: &str) -> Q<X> {
        let Some(to) = tyn(to) else { return gap("cast to a type that is not primitive") };
        match x {
            X::N(e, from) => {
                if to == "bool" && from != "bool" { return wrong(format!("cast of {from} to bool")); }
                if from == "bool" && is_f(to) { return wrong("cast of bool to a float type"); }
                if from == "f16" || from == "bf16" || to == "f16" || to == "bf16" { if from == to { return Ok(X::N(e, to)); } return wrong("a half is not a primitive type"); }
                let e = match e { E::I(v) if !is_f(to) => E::I(wrap(v, to)), e => if is_f(from) == is_f(to) && tcode(to) >= tcode(from) || from == "float" || from == "int" { e } else { ops::cast(&e, tcode(from), tcode(to)) } };
                Ok(X::N(e, to))
            }
            X::T(_) => wrong("cast of a tensor with as"), X::A(_) => wrong("cast of an array with as"), _ => gap("cast"),
        }
    }
    pub fn binary(&mut self, op: &str, a: X, b: X) -> Q<X> {
        match (a, b) {
            (X::N(x, ta), X::N(y, tb)) => {
                if op == "<<" || op == ">>" { return Ok(X::N(ops::bin(if op == "<<" { "BitShiftLEFT" } else { "BitShiftRIGHT" }, &x, &y, true, false), ta)); }
                let ty = join(ta, tb)?; let int = !is_f(ty);
                let cmp = match op { "==" => "Equal", "!=" => "Ne", "<" => "Less", "<=" => "LessOrEqual", ">" => "Greater", ">=" => "GreaterOrEqual", _ => "" };
                if cmp == "Ne" { return Ok(X::N(unary("Not", &rel("Equal", &x, &y), &[]), "bool")); } if !cmp.is_empty() { return Ok(X::N(rel(cmp, &x, &y), "bool")); }
                if ty == "bool" { return match op { "&" => Ok(X::N(rel("And", &x, &y), ty)), "|" => Ok(X::N(rel("Or", &x, &y), ty)), "^" => Ok(X::N(rel("Xor", &x, &y), ty)), _ => wrong("arithmetic on bool") }; }
                if let (E::I(p), E::I(q)) = (&x, &y) {
                    if !signed(ty) && op == "-" { if conc((*q > *p) as i64) != 0 { return wrong("subtraction below zero"); } }
                    if (op == "/" || op == "%") && int { if conc((*q == 0) as i64) != 0 { return wrong("division by zero"); } }
                    match op { "%" => return Ok(n(p % q, ty)), "&" => return Ok(n(p & q, ty)), "|" => return Ok(n(p | q, ty)), "^" => return Ok(n(p ^ q, ty)), _ => {} }
                }
                let o = match op { "+" => "Add", "-" => "Sub", "*" => "Mul", "/" => "Div", "%" => return Ok(X::N(ops::imod(&x, &y, true), ty)), "&" => "BitwiseAnd", "|" => "BitwiseOr", "^" => "BitwiseXor", _ => return gap("operator") };
                Ok(X::N(ops::bin(o, &x, &y, int, false), ty))
            }
            (X::A(x), X::A(y)) if op == "==" || op == "!=" => { if x.len() != y.len() { return Ok(n((op == "!=") as i64, "bool")); } let mut r = E::I(1); for (p, q) in x.into_iter().zip(y) { let X::N(e, _) = self.binary("==", p, q)? else { return gap("comparison") }; r = rel("And", &r, &e); } Ok(X::N(if op == "==" { r } else { unary("Not", &r, &[]) }, "bool")) }
            (X::T(x), y) => { let m = match op { "+" => "add", "-" => "sub", "*" => "mul", "/" => "div", "%" => "remainder", _ => return wrong(format!("operator {op} on a tensor")) }; self.tensor_bin(m, x, y) }
            (X::N(e, ty), X::T(y)) => { let m = match op { "+" => "add", "*" => "mul", "-" => "sub", "/" => "div", _ => return wrong(format!("operator {op} on a number and a tensor")) }; let mut v = y.v.clone(); v.d = v.d.iter().map(|_| e.clone()).collect(); if is_f(ty) != (kind(v.t) == 1) && is_f(ty) { return wrong("a float with an integer tensor"); } self.tensor_bin(m, Tn { v, pre: None, lazy: y.lazy }, X::T(y)) }
            (X::Dt(a), X::Dt(b)) => Ok(n(((a == b) == (op == "==")) as i64, "bool")),
            (X::A(_), _) | (_, X::A(_)) => wrong(format!("operator {op} on an array")), _ => gap("operands"),
        }
    }
}
pub fn conc_f(v: f64) -> f64 { if is_sym(v.to_bits() as i64) { f64::from_bits(conc(v.to_bits() as i64) as u64) } else { v } }
pub fn deep(x: &X, ix: &[usize]) -> Q<X> { let mut x = x; for i in ix { x = match x { X::A(l) | X::Tu(l) => match l.get(*i) { Some(x) => x, None => return wrong("index out of bounds") }, _ => return gap("indexed value") }; } Ok(x.clone()) }
/// leading unit dimensions up to rank r
pub fn lead(v: &V, r: usize) -> Q<V> { if v.rank() > r { return wrong("unsqueeze to a lower rank"); } let mut s = vec![1; r - v.rank()]; s.extend(&v.s); Ok(V::new(&s, v.d.clone(), v.t)) }
pub fn same_types(v: &mut [X]) -> Q<()> {
    let mut ty: Option<S> = None; let mut other = false;
    for x in v.iter() { match x { X::N(_, b) => ty = Some(match ty { None => b, Some(a) => join(a, b)? }), X::T(_) | X::A(_) => other = true, _ => {} } }
    if let Some(ty) = ty { if other { return wrong("elements of different types"); } for x in v.iter_mut() { if let X::N(_, b) = x { *b = ty; } } } Ok(())
}
