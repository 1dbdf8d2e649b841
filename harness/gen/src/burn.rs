//! burn's tensor API on reference values.
use crate::ast::*;
use crate::vm::*;
use sem::*;
use std::rc::Rc;
use symrt::conc;

const DTYPES: [(&str, i32); 13] = [("F32", 1), ("U8", 2), ("I8", 3), ("U16", 4), ("I16", 5), ("I32", 6), ("I64", 7), ("Bool", 9), ("F16", 10), ("F64", 11), ("U32", 12), ("U64", 13), ("BF16", 16)];
fn obj(n: &str, args: Vec<X>) -> X { X::O(Rc::new(Obj { n: n.into(), args, f: vec![] })) }
fn tensor(x: X) -> Q<Tn> { match x { X::T(a) => Ok(a), X::D(_) => gap("tensor data as a tensor"), _ => wrong("a tensor is expected") } }
fn truth(x: &X) -> Q<bool> { match x { X::N(E::I(v), "bool") => Ok(conc(*v) != 0), _ => gap("flag") } }
fn mk(s: &[usize], t: i32, f: impl FnMut(&[usize]) -> E) -> X { crate::vm::t(build(s, t, f)) }
fn zero(t: i32) -> E { if kind(t) == 1 { k(0.0) } else { E::I(0) } }
fn num(x: &X) -> Q<E> { match x { X::N(e, _) => Ok(e.clone()), X::T(_) | X::A(_) => wrong("a number is expected"), _ => gap("a number is expected") } }
fn flat(x: &X, s: &mut Vec<usize>, d: &mut Vec<E>, depth: usize, ty: &mut Option<S>) -> Q<()> {
    match x {
        X::N(e, n) => { if depth != s.len() { return wrong("ragged data"); } *ty = Some(match ty { None => n, Some(o) => join(o, n)? }); d.push(e.clone()); Ok(()) }
        X::A(l) => { if s.len() == depth { s.push(l.len()); } if s.get(depth) != Some(&l.len()) { return wrong("ragged data"); } for x in l { flat(x, s, d, depth + 1, ty)?; } Ok(()) }
        _ => gap("data"),
    }
}
fn data(x: X) -> Q<V> { if let X::D(v) = x { return Ok(v); } let (mut s, mut d, mut ty) = (vec![], vec![], None); flat(&x, &mut s, &mut d, 0, &mut ty)?; if s.is_empty() { return gap("scalar data"); } Ok(V { s, d, t: match ty { Some("int") => 6, Some("float") => 11, Some(t) => tcode(t), None => 0 } }) }
fn kind_of(ty: &[Ty]) -> i32 { match ty.get(2).map(|k| k.n.as_str()) { Some("Int") => 7, Some("Bool") => 9, Some("Float") => 1, _ => if ty.len() > 1 { 1 } else { 0 } } }
fn rank_of(ty: &[Ty]) -> Option<usize> { ty.get(1).and_then(|r| r.n.parse().ok()) }
/// dimension number
impl Vm<'_> {
    fn dim(&mut self, x: &X, r: usize) -> Q<usize> { let X::N(E::I(v), _) = x else { return gap("dimension") }; let v = conc(*v); let w = if v < 0 { v + r as i64 } else { v }; if w < 0 || w >= r as i64 { return wrong(format!("dimension {v} of a tensor of rank {r}")); } Ok(w as usize) }
    fn shape(&mut self, x: &X) -> Q<Vec<usize>> { match x { X::A(_) => self.usizes(x), X::T(_) => wrong("a tensor as a shape"), _ => gap("shape") } }
    fn made(&mut self, v: V, ty: &[Ty]) -> Q<X> { if let Some(r) = rank_of(ty) && r != v.rank() { return wrong(format!("a tensor of rank {r} is made from {} dimensions", v.rank())); } let kd = kind_of(ty); if kd != 0 && v.t != 0 && kind(kd) != kind(v.t) { return wrong("data of another kind than the tensor's"); } Ok(t(v)) }

    pub fn constant(&mut self, p: &[String]) -> Q<X> {
        let l = p.last().unwrap().as_str(); let o = if p.len() > 1 { p[p.len() - 2].as_str() } else { "" };
        match (o, l) {
            ("DType", d) => match DTYPES.iter().find(|x| x.0 == d) { Some(x) => Ok(X::Dt(x.1)), None => gap("element type") },
            (_, "None") => Ok(X::No), (_, "PhantomData") => Ok(X::U), (_, "self") => Ok(X::U),
            ("f32" | "f64", "INFINITY") => Ok(X::N(k(f64::INFINITY), tyn(o).unwrap())), ("f32" | "f64", "NEG_INFINITY") => Ok(X::N(k(f64::NEG_INFINITY), tyn(o).unwrap())), ("f32" | "f64", "NAN") => Ok(X::N(k(f64::NAN), tyn(o).unwrap())),
            ("i64", "MAX") => Ok(n(i64::MAX, "i64")), ("i64", "MIN") => Ok(n(i64::MIN, "i64")), ("isize", "MAX") => Ok(n(i64::MAX, "isize")), ("isize", "MIN") => Ok(n(i64::MIN, "isize")),
            _ if p.len() == 1 && l.starts_with(|c: char| c.is_lowercase() || c == '_') => wrong(format!("{l} is not defined")),
            ("Distribution" | "PaddingConfig1d" | "PaddingConfig2d" | "PaddingConfig3d" | "LinearLayout", _) if p.len() == 2 && !self.imported(o) => wrong(format!("{o} is not imported")),
            _ => Ok(obj(&p[p.len().saturating_sub(2)..].join("::"), vec![])),
        }
    }

    pub fn call(&mut self, f: &Ex, args: &[Ex]) -> Q<X> {
        let Ex::Path(p, g1, g2) = f else { let f = self.ev(f)?; let mut a = vec![]; for e in args { a.push(self.ev(e)?); } return self.call_fn(&f, a); };
        let name = p.last().unwrap().clone(); let owner = if p.len() > 1 { p[p.len() - 2].clone() } else { String::new() };
        if p.len() == 1 && self.vars.iter().any(|v| &v.0 == p.last().unwrap()) { let f = self.peek(&name)?; let mut a = vec![]; for e in args { a.push(self.ev(e)?); } return self.call_fn(&f, a); }
        if name == "s!" {
            let mut o = vec![];
            let mut i = 0; while i < args.len() {
                let step = matches!(args.get(i + 1), Some(Ex::Str(s)) if s == ";");
                if step { let Ex::Range(Some(a), Some(b), _) = &args[i] else { return gap("slice") }; let r = self.ev(a)?; let st = self.ev(b)?; o.push(X::Tu(vec![r, st])); i += 2; } else { o.push(self.ev(&args[i])?); i += 1; }
            }
            return Ok(X::A(o));
        }
        if name == "vec!" {
            // `vec![v; n]` arrives as a range followed by the marker
            if let [Ex::Range(Some(a), Some(b), _), Ex::Str(s)] = args && s == ";" { let x = self.ev(a)?; let m = self.ev(b)?; let m = self.index(&m)?; return Ok(X::A(vec![x; m])); }
            let mut v = vec![]; for e in args { v.push(self.ev(e)?); } same_types(&mut v)?; return Ok(X::A(v));
        }
        if name == "panic!" || name == "unimplemented!" || name == "unreachable!" || name == "todo!" { return wrong("the generated code panics"); }
        if name == "assert!" || name == "debug_assert!" { let x = self.ev(&args[0])?; return if truth(&x)? { Ok(X::U) } else { wrong("an assertion fails") }; }
        if name.ends_with('!') { return gap(format!("macro {name}")); }
        let mut a = vec![]; for e in args { a.push(self.ev(e)?); }
        if p.len() == 1 && self.p.funs.iter().any(|f| f.name == name) { return gap("free function"); }
        if owner == "Self" && name != "new" { return self.run_fun(&name, a); }
        let own = owner.as_str(); let m = a.len();
        match (own, name.as_str()) {
            ("Tensor", _) => self.assoc(&name, g1, g2, a),
            (_, "Some") | (_, "Ok") if m == 1 => Ok(X::So(Box::new(a.pop().unwrap()))),
            (_, "Ignored") => Ok(X::Dev), ("ParamId", "new") => Ok(X::U),
            ("Param", "uninitialized") if m == 5 => Ok(obj("Param", vec![a[1].clone(), a[4].clone()])), ("Param", "from_tensor" | "from_data") => gap("parameter made from data"),
            ("TensorData", "from") if m == 1 => { let x = a.pop().unwrap(); Ok(X::D(data(x)?)) }
            ("TensorData", "new") if m == 2 => { let s = self.shape(&a[1])?; let v = data(a.swap_remove(0))?; if numel(&s) != v.d.len() { return wrong("data of another length than its shape"); } Ok(X::D(V { s, d: v.d, t: v.t })) }
            ("Shape", "new" | "from") if m == 1 => Ok(X::A(self.list(a.pop().unwrap())?)), ("Vec", "new") => Ok(X::A(vec![])), ("Vec", "with_capacity") => Ok(X::A(vec![])), ("Vec", "from") => Ok(a.pop().unwrap()),
            ("TryInto", "try_into") if m == 1 => { let x = a.pop().unwrap(); match g1.first().or(g2.first()) { Some(ty) => { let ty = ty.clone(); self.coerce(x, &ty) } None => Ok(x) } }
            ("From" | "Into", _) if m == 1 => Ok(a.pop().unwrap()),
            ("array", "from_fn") if m == 1 => gap("from_fn"),
            ("cmp", "max") | ("cmp", "min") if m == 2 => { let b = a.pop().unwrap(); let x = a.pop().unwrap(); self.method(x, &name, &[], vec![b]) }
            ("activation", _) => self.activation(&name, a),
            ("module", "attention") if m == 6 => self.attention(a), ("module", _) => gap(format!("module::{name}")),
            (t, _) if tyn(t).is_some() && m >= 1 => { let x = a.remove(0); self.method(x, &name, &[], a) }
            ("Distribution" | "PaddingConfig1d" | "PaddingConfig2d" | "PaddingConfig3d", _) if p.len() == 2 && !self.imported(own) => wrong(format!("{own} is not imported")),
            ("Distribution" | "PadMode" | "IndexingUpdateOp" | "PaddingConfig1d" | "PaddingConfig2d" | "PaddingConfig3d" | "Activation" | "InterpolateMode", _) => Ok(obj(&format!("{own}::{name}"), a)),
            (c, "new") if c.ends_with("Config") && p.len() == 2 && !self.imported(c) => wrong(format!("{c} is not imported")),
            (c, "new") if c.ends_with("Config") || c.ends_with("Options") => Ok(obj(c, a)),
            _ => if p.len() == 1 { let u = self.p.uses.iter().any(|u| u.ends_with(&name)); if u { self.activation(&name, a) } else { wrong(format!("{name} is not in scope")) } } else { gap(format!("{}", p.join("::"))) },
        }
    }
    fn imported(&self, n: &str) -> bool { self.p.uses.iter().any(|u| u.contains(n)) }
    pub fn run_fun(&mut self, name: &str, args: Vec<X>) -> Q<X> {
        let p = self.p; let Some(f) = p.funs.iter().find(|f| f.name == name) else { return wrong(format!("no function {name}")) };
        if f.params.len() != args.len() { return wrong("number of arguments"); } if self.depth > 6 { return gap("deep recursion"); }
        let keep = std::mem::take(&mut self.vars); self.depth += 1;
        let mut r = Ok(X::U); for ((k, ty), x) in f.params.iter().zip(args) { match self.coerce(x, ty) { Ok(x) => self.vars.push((k.clone(), Some(x))), Err(e) => { r = Err(e); } } }
        if r.is_ok() { r = self.block(&f.body); if let (Ok(x), Some(ty)) = (&r, &f.ret) && ty.n != "Self" { r = self.coerce(x.clone(), ty); } }
        self.vars = keep; self.depth -= 1; r
    }
    /// functions of `Tensor`
    fn assoc(&mut self, name: &str, g1: &[Ty], g2: &[Ty], mut a: Vec<X>) -> Q<X> {
        let m = a.len(); let ty = kind_of(g1);
        match (name, m) {
            ("from_data", 2) => { let dt = match &a[1] { X::Tu(l) => match l.get(1) { Some(X::Dt(d)) => Some(*d), _ => return gap("tensor options") }, _ => None }; let x = a.swap_remove(0); let from_list = !matches!(x, X::D(_)); let mut v = data(x)?; if let Some(d) = dt { if kind(d) != kind(v.t) { return wrong("element type of another kind"); } for e in v.d.iter_mut() { *e = ops::cast(e, v.t, d); } v.t = d; }
                if ty != 0 && kind(ty) != kind(v.t) { if kind(v.t) == 3 || kind(ty) == 3 { return wrong("data of another kind than the tensor's"); } if from_list { return gap("implicit conversion"); } for e in v.d.iter_mut() { *e = ops::cast(e, v.t, ty); } v.t = ty; } self.made(v, g1) }
            ("from_data_dtype", 3) => { let X::Dt(d) = a[2] else { return gap("element type") }; let mut v = data(a.swap_remove(0))?; if ty != 0 && kind(d) != kind(ty) { return wrong("element type of another kind than the tensor's"); } for e in v.d.iter_mut() { *e = ops::cast(e, v.t, d); } v.t = d; self.made(v, g1) }
            ("from_ints" | "from_floats", 2) => { let v = data(a.swap_remove(0))?; self.made(v, g1) }
            ("zeros" | "ones" | "empty", 2) => { let s = self.shape(&a[0])?; let e = E::I((name == "ones") as i64); let dt = match &a[1] { X::Tu(l) => match l.get(1) { Some(X::Dt(d)) => *d, _ => ty }, _ => ty }; let e = if kind(dt) == 1 { k((name == "ones") as i64 as f64) } else { e }; self.made(build(&s, dt, |_| e.clone()), g1) }
            ("full", 3) => { let s = self.shape(&a[0])?; let X::N(e, f) = &a[1] else { return gap("fill value") }; let dt = match &a[2] { X::Tu(l) => match l.get(1) { Some(X::Dt(d)) => *d, _ => ty }, _ => ty }; let dt = if dt == 0 { if is_f(f) { 1 } else { 0 } } else { dt }; if kind(dt) == 2 && is_f(f) { return gap("float fill of an integer tensor"); } let e = if kind(dt) == 1 && !is_f(f) { ops::cast(e, 7, 1) } else if f == &"f64" && dt == 1 { ops::cast(e, 11, 1) } else { e.clone() }; self.made(build(&s, dt, |_| e.clone()), g1) }
            ("arange", 2) | ("arange_step", 3) => { let X::Rg(Some(lo), Some(hi), false) = &a[0] else { return wrong("a range is expected") }; let (lo, hi) = (conc(self.int(lo)?), conc(self.int(hi)?)); let st = if m == 3 { let X::N(E::I(s), ty) = &a[1] else { return gap("step") }; if !matches!(*ty, "usize" | "int") { return wrong("the step is not usize"); } conc(*s) } else { 1 }; if st == 0 { return wrong("a step of zero"); } let l: Vec<i64> = if st < 0 { if lo < hi { vec![lo] } else { vec![] } } else { let mut v = vec![]; let mut x = lo; while x < hi { v.push(x); x += st; if v.len() > 64 { return gap("long range"); } } v }; self.made(V::ints(&[l.len()], &l), g1) }
            ("cat", 2) => { let X::A(l) = &a[0] else { return gap("cat") }; let mut v: Vec<V> = vec![]; for x in l { v.push(tensor(x.clone())?.v); } if v.is_empty() { return wrong("cat of nothing"); } let r = v[0].rank(); if v.iter().any(|x| x.rank() != r || kind(x.t) != kind(v[0].t)) { return wrong("cat of tensors of different types"); } let d = self.dim(&a[1], r)?; match ops::concat(&v.iter().collect::<Vec<_>>(), d) { Some(v) => Ok(t(v)), None => wrong("cat of incompatible shapes") } }
            ("stack", 2) => { let X::A(l) = &a[0] else { return gap("stack") }; let mut v: Vec<V> = vec![]; for x in l { v.push(tensor(x.clone())?.v); } if v.is_empty() { return wrong("stack of nothing"); } let r = v[0].rank(); if v.iter().any(|x| x.s != v[0].s) { return wrong("stack of different shapes"); } let d = self.dim(&a[1], r + 1)?; if let Some(q) = g2.first().and_then(|q| q.n.parse::<usize>().ok()) && q != r + 1 { return wrong("stack to another rank"); } for x in v.iter_mut() { x.s.insert(d, 1); } Ok(t(ops::concat(&v.iter().collect::<Vec<_>>(), d).unwrap())) }
            ("random", 3) => { let s = self.shape(&a[0])?; let (d, p) = self.dist(&a[1])?; Ok(t(ops::draw(&format!("Random{d}"), &p, &s, 1))) }
            ("diag_mask", 3) => { let s = self.shape(&a[0])?; let off = conc(self.int(&a[1])?); let r = s.len(); if r < 2 { return wrong("diag_mask of rank below 2"); } Ok(mk(&s, 9, |ix| E::I((ix[r - 1] as i64 - ix[r - 2] as i64 != off) as i64))) }
            ("tril_mask" | "triu_mask", 3) => { let s = self.shape(&a[0])?; let off = conc(self.int(&a[1])?); let r = s.len(); let up = name == "triu_mask"; Ok(mk(&s, 9, |ix| { let q = ix[r - 1] as i64 - ix[r - 2] as i64; E::I(!(if up { q >= off } else { q <= off }) as i64) })) }
            _ => if let Some(X::T(_)) = a.first() { let x = a.remove(0); self.method(x, name, g2, a) } else { gap(format!("Tensor::{name}")) },
        }
    }
    fn dist(&mut self, x: &X) -> Q<(String, Vec<E>)> { let X::O(o) = x else { return gap("distribution") }; let f = |i: usize| -> Q<E> { match o.args.get(i) { Some(X::N(e, _)) => Ok(e.clone()), _ => wrong("distribution parameters") } }; match o.n.as_str() { "Distribution::Normal" => Ok(("Normal".into(), vec![f(0)?, f(1)?])), "Distribution::Uniform" => Ok(("Uniform".into(), vec![f(0)?, f(1)?])), "Distribution::Default" => Ok(("Uniform".into(), vec![k(0.0), k(1.0)])), _ => gap("distribution") } }
    fn activation(&mut self, name: &str, mut a: Vec<X>) -> Q<X> {
        if a.is_empty() { return gap(name); } let x = match a.remove(0) { X::T(x) => x, _ => return wrong(format!("activation {name} of something that is not a tensor")) };
        let mut x = x; if kind(x.v.t) != 1 && x.v.t != 0 && name != "relu" { return wrong(format!("activation {name} of a tensor that is not float")); }
        let mut p = vec![]; if matches!(name, "softmax" | "log_softmax") { if a.len() != 1 { return wrong("arguments"); } let d = self.dim(&a[0], x.v.rank())?; return Ok(t(ops::softmax(&x.v, d, name == "log_softmax"))); }
        if name == "prelu" { return gap("prelu"); }
        for y in &a { let X::N(e, ty) = y else { return wrong("arguments") }; if !is_f(ty) { return wrong(format!("{name} takes floats")); } let Some(c) = cst(e) else { return gap("parameter") }; p.push(c as f32 as f64); }
        let (op, np) = match name { "relu" => ("Relu", 0), "sigmoid" => ("Sigmoid", 0), "leaky_relu" => ("LeakyRelu", 1), "gelu" => ("Gelu", 0), "hard_sigmoid" => ("HardSigmoid", 2), "softplus" => ("Softplus", 1), "mish" => ("Mish", 0), "tanh" => ("Tanh", 0), "hard_swish" => ("HardSwish", 0), "elu" => ("Elu", 1), "celu" => ("Celu", 1), "selu" => ("Selu", 0), "softsign" => ("Softsign", 0), "thresholded_relu" => ("ThresholdedRelu", 1), "silu" => ("Silu", 0), "gelu_approximate" => ("GeluTanh", 0), "log_sigmoid" => ("LogSigmoid", 0), _ => return gap(format!("activation {name}")) };
        if p.len() != np { return wrong(format!("{name} takes {np} parameters")); }
        match name { "softplus" => { if p[0] != 1.0 { return gap("softplus with beta"); } p.clear(); } "selu" => p = vec![1.673_263_242_354_377_2_f64 as f32 as f64, 1.050_700_987_355_480_5_f64 as f32 as f64], "gelu" => p = vec![0.0], "gelu_approximate" => { x.v.d = x.v.d.iter().map(|e| unary("Gelu", e, &[1.0])).collect(); return Ok(t(x.v)); } "silu" => { x.v.d = x.v.d.iter().map(|e| mul(e, &unary("Sigmoid", e, &[]))).collect(); return Ok(t(x.v)); } _ => {} }
        x.v.d = x.v.d.iter().map(|e| unary(op, e, &p)).collect(); Ok(t(x.v))
    }
    fn attention(&mut self, a: Vec<X>) -> Q<X> {
        let mut it = a.into_iter(); let (q, kx, v) = (tensor(it.next().unwrap())?.v, tensor(it.next().unwrap())?.v, tensor(it.next().unwrap())?.v);
        if q.rank() != 4 || kx.rank() != 4 || v.rank() != 4 { return wrong("attention takes tensors of rank 4"); }
        let mut opt = |knd: i32| -> Q<Option<V>> { match it.next().unwrap() { X::No => Ok(None), X::So(x) => { let mut m = tensor(*x)?; if m.lazy { m.v = lead(&m.v, 4)?; } if m.v.rank() != 4 || kind(m.v.t) != knd { return wrong("attention mask of another type"); } Ok(Some(m.v)) } _ => wrong("an option is expected") } };
        let mask = opt(3)?; let bias = opt(1)?; let X::O(o) = it.next().unwrap() else { return gap("attention options") };
        let get = |n: &str| o.f.iter().find(|f| f.0 == n).map(|f| f.1.clone()); let fl = |x: Option<X>| -> Q<Option<f64>> { match x { Some(X::So(b)) => Ok(cst(&num(&b)?)), Some(X::No) => Ok(None), _ => gap("attention options") } };
        let causal = match get("is_causal") { Some(x) => truth(&x)?, None => return gap("attention options") }; let sc = fl(get("scale"))?.unwrap_or(1.0 / (q.s[3] as f64).sqrt()); let cap = fl(get("softcap"))?.unwrap_or(0.0);
        // positions where the mask is true are left out
        let mask = mask.map(|m| V::new(&m.s, m.d.iter().map(|e| unary("Not", e, &[])).collect(), 9));
        if mask.is_some() && bias.is_some() { return gap("mask and bias"); }
        match ops::sdpa(&q, &kx, &v, mask.as_ref().or(bias.as_ref()), sc, causal, cap) { Some(v) => Ok(t(v)), None => wrong("attention on incompatible shapes") }
    }
    /// operation on two tensors, or a tensor and a number
    pub fn tensor_bin(&mut self, m: &str, mut x: Tn, y: X) -> Q<X> {
        let num_arg = matches!(y, X::N(..));
        let mut y = match y { X::T(y) => y, X::N(e, ty) => { if kind(x.v.t) == 2 && is_f(ty) && !matches!(m, "powf") { return gap("float operand of an integer tensor"); } let e = if kind(x.v.t) == 1 && !is_f(ty) { ops::cast(&e, 7, 1) } else if ty == "f64" || ty == "float" { match cst(&e) { Some(c) if x.v.t == 1 => k(c as f32 as f64), _ => e } } else { e }; Tn { v: build(&x.v.s, x.v.t, |_| e.clone()), pre: None, lazy: x.lazy } } X::A(_) => return wrong(format!("an array as operand of {m}")), _ => return gap(format!("operand of {m}")) };
        if x.lazy && !y.lazy { x.v = lead(&x.v, y.v.rank())?; x.lazy = false; } if y.lazy && !x.lazy { y.v = lead(&y.v, x.v.rank())?; y.lazy = false; } if x.lazy && y.lazy && !num_arg { return wrong("the rank of an operand cannot be inferred"); } let lazy = x.lazy;
        if x.v.rank() != y.v.rank() { return wrong(format!("{m} of tensors of rank {} and {}", x.v.rank(), y.v.rank())); }
        let ty = if x.v.t != 0 { x.v.t } else { y.v.t }; let kd = kind(ty); if y.v.t != 0 && kind(y.v.t) != kd { return wrong(format!("{m} of tensors of different kinds")); }
        for (a, b) in x.v.s.iter().zip(&y.v.s) { if a != b && *a != 1 && *b != 1 { return wrong(format!("{m} of shapes {:?} and {:?}", x.v.s, y.v.s)); } }
        let int = kd == 2; let arith = |op: &str| -> Q<X> { if kd == 3 { return wrong(format!("{m} on a boolean tensor")); } Ok(X::T(Tn { v: ops::broadcast2(&x.v, &y.v, ty, |a, b| ops::bin(op, a, b, int, false)).unwrap(), pre: None, lazy })) };
        let comp = |op: &str| -> Q<X> { Ok(t(ops::broadcast2(&x.v, &y.v, 9, |a, b| rel(op, a, b)).unwrap())) };
        let bits = |op: &str| -> Q<X> { if kd != 2 { return wrong(format!("{m} on a tensor that is not integer")); } Ok(t(ops::broadcast2(&x.v, &y.v, ty, |a, b| ops::bin(op, a, b, true, false)).unwrap())) };
        match m {
            "add" => arith("Add"), "sub" => arith("Sub"), "mul" => arith("Mul"), "div" => arith("Div"), "max_pair" => arith("Max"), "min_pair" => arith("Min"), "powf" | "powi" | "pow" => { if (m == "powf" && kd != 1) || (m == "powi" && kd != 2 && !num_arg) { if m == "powf" { return wrong("powf on a tensor that is not float"); } } arith("Pow") }
            "remainder" => if kd == 3 { wrong("remainder on a boolean tensor") } else { Ok(t(ops::broadcast2(&x.v, &y.v, ty, |a, b| ops::imod(a, b, false)).unwrap())) }, "fmod" => if kd != 1 { gap("fmod on a tensor that is not float") } else { Ok(t(ops::broadcast2(&x.v, &y.v, ty, |a, b| ops::imod(a, b, true)).unwrap())) },
            "equal" => comp("Equal"), "not_equal" => { let X::T(r) = comp("Equal")? else { return gap("") }; Ok(t(V::new(&r.v.s, r.v.d.iter().map(|e| unary("Not", e, &[])).collect(), 9))) }
            "greater" | "greater_equal" | "lower" | "lower_equal" if kd == 3 => wrong(format!("{m} on boolean tensors")),
            "greater" => comp("Greater"), "greater_equal" => comp("GreaterOrEqual"), "lower" => comp("Less"), "lower_equal" => comp("LessOrEqual"),
            "bool_and" | "bool_or" | "bool_xor" => { if kd != 3 { return wrong(format!("{m} on a tensor that is not boolean")); } comp(match m { "bool_and" => "And", "bool_or" => "Or", _ => "Xor" }) }
            "bitwise_and" => bits("BitwiseAnd"), "bitwise_or" => bits("BitwiseOr"), "bitwise_xor" => bits("BitwiseXor"), "bitwise_left_shift" => bits("BitShiftLEFT"), "bitwise_right_shift" => bits("BitShiftRIGHT"),
            _ => gap(format!("operation {m}")),
        }
    }
    /// rank an operand is to have
    fn as_rank(&mut self, x: X, r: usize) -> Q<V> { let mut x = tensor(x)?; if x.lazy { x.v = lead(&x.v, r)?; } if x.v.rank() != r { return wrong(format!("an operand of rank {} where rank {r} is expected", x.v.rank())); } Ok(x.v) }
    /// (start, length, step) of one slice item
    fn span(&mut self, x: &X, len: usize) -> Q<(i64, i64, i64)> {
        let nn = len as i64; let at = |v: i64| if v < 0 { (v.saturating_add(nn)).max(0) } else { v.min(nn) };
        match x {
            X::Rg(a, b, inc) => { let lo = match a { Some(a) => conc(self.int(a)?), None => 0 }; let mut hi = match b { Some(b) => conc(self.int(b)?), None => nn }; if *inc { hi += 1; } let (lo, hi) = (at(lo), at(hi)); Ok((lo, (hi - lo).max(0), 1)) }
            X::Tu(l) => { let (lo, m, _) = self.span(&l[0], len)?; let st = conc(self.int(&l[1])?); if st == 0 { return wrong("a slice step of zero"); } let c = if m == 0 { 0 } else { (m - 1) / st.abs() + 1 }; Ok(if st > 0 { (lo, c, st) } else { (lo + m - 1, c, st) }) }
            X::N(E::I(v), _) => { let v = conc(*v); let w = if v < 0 { v + nn } else { v }; if w < 0 || w >= nn { return wrong("slice index out of bounds"); } Ok((w, 1, 1)) }
            _ => gap("slice item"),
        }
    }
    fn spans(&mut self, x: &X, s: &[usize]) -> Q<Vec<(i64, i64, i64)>> {
        let l = match x { X::A(l) => l.clone(), x => vec![x.clone()] }; if l.len() > s.len() { return wrong("more slice items than dimensions"); }
        let mut o = vec![]; for (i, d) in s.iter().enumerate() { o.push(match l.get(i) { Some(x) => self.span(x, *d)?, None => (0, *d as i64, 1) }); } Ok(o)
    }
    pub fn method(&mut self, recv: X, m: &str, g: &[Ty], a: Vec<X>) -> Q<X> {
        match recv {
            X::T(x) => self.tmethod(x, m, g, a),
            X::O(o) => self.omethod(o, m, a),
            X::N(e, ty) => self.nmethod(e, ty, m, g, a),
            X::So(b) => match m { "unwrap" | "expect" | "as_ref" | "cloned" | "copied" => Ok(*b), "clone" => Ok(X::So(b)), "is_some" => Ok(n(1, "bool")), "is_none" => Ok(n(0, "bool")), _ => gap(format!("option method {m}")) },
            X::No => match m { "unwrap" | "expect" => wrong("unwrap of None"), "is_some" => Ok(n(0, "bool")), "is_none" => Ok(n(1, "bool")), "clone" => Ok(X::No), _ => gap(format!("option method {m}")) },
            X::D(v) => match (m, a.len()) {
                ("convert", 0) => { let Some(ty) = g.first().and_then(|t| tyn(&t.n)) else { return gap("conversion of data") }; let to = tcode(ty); Ok(X::D(V::new(&v.s, v.d.iter().map(|e| ops::cast(e, v.t, to)).collect(), to))) }
                ("as_slice" | "to_vec" | "into_vec" | "iter" | "into_iter" | "as_mut_slice", 0) => { let ty = match g.first() { Some(t) => match tyn(&t.n) { Some(s) => { if tcode(s) != v.t && m != "iter" { if kind(v.t) != kind(tcode(s)) || v.t != 0 && tcode(s) != v.t && v.t != 7 && v.t != 6 && v.t != 1 && v.t != 11 { return wrong(format!("tensor data read as {s}")); } if kind(v.t) == 2 && tcode(s) != v.t || kind(v.t) == 1 && tcode(s) != v.t { return wrong(format!("tensor data of another type is read as {s}")); } } s } None => return gap("element type of data") }, None => name_of(v.t) }; Ok(X::A(v.d.iter().map(|e| X::N(if m == "iter" { ops::cast(e, v.t, tcode(ty)) } else { e.clone() }, ty)).collect())) }
                ("clone", 0) => Ok(X::D(v)), ("num_elements", 0) => Ok(us(v.d.len())), ("dims" | "shape", 0) => Ok(X::A(v.s.iter().map(|d| us(*d)).collect())), _ => gap(format!("data method {m}")),
            },
            X::A(l) => self.lmethod(l, m, g, a),
            X::Rg(..) => { let l = self.list(recv)?; self.lmethod(l, m, g, a) }
            X::Dev => if m == "clone" { Ok(X::Dev) } else { gap("device method") },
            X::Tu(l) => if m == "clone" { Ok(X::Tu(l)) } else { gap(format!("tuple method {m}")) },
            X::F(f) => if m == "clone" { Ok(X::F(f)) } else { gap("closure method") }, X::Dt(d) => match m { "clone" => Ok(X::Dt(d)), "is_float" => Ok(n((kind(d) == 1) as i64, "bool")), _ => gap("element type method") },
            X::Ptr(p, ix) => { let x = self.peek(&p)?; let x = deep(&x, &ix)?; self.method(x, m, g, a) }
            X::U => if m == "clone" { Ok(X::U) } else { gap("unit method") }, X::St(s) => if m == "clone" { Ok(X::St(s)) } else { gap("string method") },
        }
    }
    fn lmethod(&mut self, l: Vec<X>, m: &str, g: &[Ty], mut a: Vec<X>) -> Q<X> {
        let ty_of = |l: &[X]| l.iter().find_map(|x| if let X::N(_, t) = x { Some(*t) } else { None });
        match (m, a.len()) {
            ("iter" | "into_iter" | "clone" | "to_vec" | "as_slice" | "as_ref" | "into" | "copied" | "cloned" | "unwrap" | "expect" | "dims" | "into_vec" | "collect" | "to_owned" | "try_into" | "iter_mut", _) => {
                if m == "dims" && let Some(r) = g.first().and_then(|r| r.n.parse::<usize>().ok()) && r != l.len() { return wrong("dims of another rank"); }
                if m == "collect" && let Some(c) = g.first() && c.n == "Vec" && c.a.first().is_some_and(|e| e.n != "_") { let c = c.clone(); return self.coerce(X::A(l), &c); }
                Ok(X::A(l))
            }
            ("len" | "rank" | "num_dims" | "count", 0) => Ok(us(l.len())), ("is_empty", 0) => Ok(n(l.is_empty() as i64, "bool")),
            ("rev", 0) => Ok(X::A(l.into_iter().rev().collect())), ("enumerate", 0) => Ok(X::A(l.into_iter().enumerate().map(|(i, x)| X::Tu(vec![us(i), x])).collect())),
            ("skip", 1) => { let k = self.index(&a[0])?; Ok(X::A(l.into_iter().skip(k).collect())) } ("take", 1) => { let k = self.index(&a[0])?; Ok(X::A(l.into_iter().take(k).collect())) } ("step_by", 1) => { let k = self.index(&a[0])?; if k == 0 { return wrong("a step of zero"); } Ok(X::A(l.into_iter().step_by(k).collect())) }
            ("zip", 1) => { let b = a.pop().unwrap(); let b = self.list(b)?; Ok(X::A(l.into_iter().zip(b).map(|(x, y)| X::Tu(vec![x, y])).collect())) } ("chain", 1) => { let b = a.pop().unwrap(); let mut l = l; l.extend(self.list(b)?); Ok(X::A(l)) }
            ("map", 1) => { let mut o = vec![]; for x in l { o.push(self.call_fn(&a[0], vec![x])?); } same_types(&mut o)?; Ok(X::A(o)) }
            ("filter", 1) => { let mut o = vec![]; for x in l { let r = self.call_fn(&a[0], vec![x.clone()])?; if truth(&r)? { o.push(x); } } Ok(X::A(o)) }
            ("all" | "any", 1) => { for x in l { let r = self.call_fn(&a[0], vec![x])?; if truth(&r)? != (m == "all") { return Ok(n((m == "any") as i64, "bool")); } } Ok(n((m == "all") as i64, "bool")) }
            ("fold", 2) => { let f = a.pop().unwrap(); let mut acc = a.pop().unwrap(); for x in l { acc = self.call_fn(&f, vec![acc, x])?; } Ok(acc) }
            ("product" | "num_elements" | "sum", 0) => { let sum = m == "sum"; let ty = g.first().and_then(|t| tyn(&t.n)).or(ty_of(&l)).unwrap_or("usize"); let mut r = if is_f(ty) { k(if sum { 0.0 } else { 1.0 }) } else { E::I(if sum { 0 } else { 1 }) }; for x in &l { let X::N(e, t) = x else { return gap("product") }; join(ty, t)?; r = if sum { add(&r, e) } else { mul(&r, e) }; } Ok(X::N(r, ty)) }
            ("max" | "min", 0) => { if l.is_empty() { return Ok(X::No); } let ty = ty_of(&l).unwrap_or("int"); let mut v = vec![]; for x in &l { v.push(num(x)?); } Ok(X::So(Box::new(X::N(minmax(m == "max", &v), ty)))) }
            ("first", 0) => Ok(l.into_iter().next().map_or(X::No, |x| X::So(Box::new(x)))), ("last", 0) => Ok(l.into_iter().next_back().map_or(X::No, |x| X::So(Box::new(x)))), ("next", 0) => Ok(l.into_iter().next().map_or(X::No, |x| X::So(Box::new(x)))),
            ("get", 1) => { let i = self.index(&a[0])?; Ok(l.get(i).map_or(X::No, |x| X::So(Box::new(x.clone())))) } ("contains", 1) => { let X::N(E::I(v), _) = &a[0] else { return gap("contains") }; let v = *v; let mut r = false; for x in &l { if let X::N(E::I(w), _) = x { r |= *w == v; } } Ok(n(conc(r as i64), "bool")) }
            ("concat", 0) => { let mut o = vec![]; for x in l { let X::A(v) = x else { return gap("concat") }; o.extend(v); } Ok(X::A(o)) }
            (m, _) => gap(format!("list method {m}")),
        }
    }
    fn nmethod(&mut self, e: E, ty: S, m: &str, g: &[Ty], mut a: Vec<X>) -> Q<X> {
        let f = is_f(ty); let un = |op: &str| -> Q<X> { if !f { return wrong(format!("{m} of {ty}")); } Ok(X::N(unary(op, &e, &[]), ty)) };
        match (m, a.len()) {
            ("clone" | "to_owned" | "into_scalar" | "into", 0) => Ok(X::N(e, ty)),
            ("elem", 0) => { let Some(to) = g.first().and_then(|t| tyn(&t.n)) else { return gap("elem") }; Ok(X::N(ops::cast(&e, tcode(ty), tcode(to)), to)) }
            ("saturating_sub", 1) => { let b = self.int(&a[0])?; let E::I(v) = e else { return gap("saturating_sub") }; Ok(n(if !signed(ty) { (conc(v) - conc(b)).max(0) } else { v.saturating_sub(b) }, ty)) }
            ("max" | "min", 1) => { let X::N(b, t2) = &a[0] else { return gap("max") }; let ty = join(ty, t2)?; Ok(X::N(minmax(m == "max", &[e, b.clone()]), ty)) }
            ("abs" | "unsigned_abs", 0) => { if !signed(ty) { return wrong(format!("abs of {ty}")); } Ok(X::N(unary("Abs", &e, &[]), ty)) } ("clamp", 2) => { let (lo, hi) = (num(&a[0])?, num(&a[1])?); Ok(X::N(minmax(false, &[minmax(true, &[e, lo]), hi]), ty)) }
            ("div_ceil", 1) => { let b = self.int(&a[0])?; let E::I(v) = e else { return gap("div_ceil") }; if conc((b == 0) as i64) != 0 { return wrong("division by zero"); } Ok(n((v + b - 1) / b, ty)) }
            ("rem_euclid", 1) => { let b = conc(self.int(&a[0])?); let E::I(v) = e else { return gap("rem_euclid") }; if b == 0 { return wrong("division by zero"); } Ok(n(conc(v).rem_euclid(b), ty)) }
            ("powf" | "powi" | "pow", 1) => { let b = num(&a.pop().unwrap())?; if (m == "pow") == f { return wrong(format!("{m} of {ty}")); } Ok(X::N(pow(&e, &b), ty)) }
            ("sqrt", 0) => un("Sqrt"), ("exp", 0) => un("Exp"), ("ln", 0) => un("Log"), ("ceil", 0) => un("Ceil"), ("floor", 0) => un("Floor"), ("sin", 0) => un("Sin"), ("cos", 0) => un("Cos"), ("tan", 0) => un("Tan"), ("tanh", 0) => un("Tanh"), ("sinh", 0) => un("Sinh"), ("cosh", 0) => un("Cosh"), ("asin", 0) => un("Asin"), ("acos", 0) => un("Acos"), ("atan", 0) => un("Atan"), ("recip", 0) => { if !f { return wrong("recip of an integer"); } Ok(X::N(inv(&e), ty)) }
            ("round_ties_even", 0) => un("Round"), ("is_nan", 0) => { if !f { return wrong("is_nan of an integer"); } Ok(X::N(unary("IsNaN", &e, &[]), "bool")) } ("is_infinite", 0) => { if !f { return wrong("is_infinite of an integer"); } Ok(X::N(unary("IsInf", &e, &[1.0, 1.0]), "bool")) }
            ("is_inf" | "square" | "log" | "erf", 0) => wrong(format!("a number has no method {m}")),
            ("to_data" | "dims" | "shape" | "reshape" | "unsqueeze" | "cast" | "matmul" | "expand" | "into_data" | "equal" | "greater" | "lower" | "bool_not" | "int" | "float", _) => wrong(format!("a number has no method {m}")),
            _ => gap(format!("number method {m}")),
        }
    }
    fn tmethod(&mut self, mut x: Tn, m: &str, g: &[Ty], mut a: Vec<X>) -> Q<X> {
        let gn = |i: usize| g.get(i).and_then(|t| t.n.parse::<usize>().ok());
        if x.lazy && !matches!(m, "add" | "sub" | "mul" | "div" | "clone" | "max_pair" | "min_pair" | "equal" | "not_equal" | "greater" | "greater_equal" | "lower" | "lower_equal" | "bool_and" | "bool_or" | "bool_xor" | "remainder" | "matmul") { return wrong(format!("the rank of the tensor {m} is applied to cannot be inferred")); }
        if m != "clone" && m != "cast" { x.pre = None; }
        let r = x.v.rank(); let kd = kind(x.v.t); let ty = x.v.t;
        let expect = |k: usize| -> Q<()> { if a.len() != k { wrong(format!("{m} takes {k} arguments")) } else { Ok(()) } };
        let un = |op: &str, x: &Tn| -> Q<X> { if kd != 1 && ty != 0 && !matches!(op, "Abs" | "Neg" | "Sign") { return wrong(format!("{m} on a tensor that is not float")); } if kd == 3 { return wrong(format!("{m} on a boolean tensor")); } Ok(t(V::new(&x.v.s, x.v.d.iter().map(|e| unary(op, e, &[])).collect(), ty))) };
        let op = match m { "abs" => "Abs", "neg" => "Neg", "sqrt" => "Sqrt", "exp" => "Exp", "log" => "Log", "ceil" => "Ceil", "floor" => "Floor", "round" => "Round", "sign" => "Sign", "erf" => "Erf", "sin" => "Sin", "cos" => "Cos", "tan" => "Tan", "asin" => "Asin", "acos" => "Acos", "atan" => "Atan", "sinh" => "Sinh", "cosh" => "Cosh", "tanh" => "Tanh", "asinh" => "Asinh", "acosh" => "Acosh", "atanh" => "Atanh", "recip" => "Reciprocal", _ => "" };
        if !op.is_empty() { expect(0)?; return un(op, &x); }
        match m {
            "clone" | "detach" => Ok(X::T(x)), "device" => Ok(X::Dev), "dtype" => Ok(X::Dt(ty)), "shape" | "dims" => { if m == "dims" && let Some(q) = gn(0) && q != r { return wrong("dims of another rank"); } Ok(X::A(x.v.s.iter().map(|d| us(*d)).collect())) } "to_data" | "into_data" => Ok(X::D(x.v)), "rank" => Ok(us(r)),
            "val" => wrong("val of a tensor"),
            "square" => { if kd == 3 { return wrong("square of a boolean tensor"); } Ok(t(V::new(&x.v.s, x.v.d.iter().map(|e| mul(e, e)).collect(), ty))) }
            "is_nan" | "is_inf" | "is_finite" => { if kd != 1 { return wrong(format!("{m} on a tensor that is not float")); } Ok(t(V::new(&x.v.s, x.v.d.iter().map(|e| match m { "is_nan" => unary("IsNaN", e, &[]), "is_inf" => unary("IsInf", e, &[1.0, 1.0]), _ => apply("finite", vec![e.clone()]) }).collect(), 9))) }
            "bool_not" => { if kd != 3 { return wrong("bool_not on a tensor that is not boolean"); } Ok(t(V::new(&x.v.s, x.v.d.iter().map(|e| unary("Not", e, &[])).collect(), 9))) } "bitwise_not" => { if kd != 2 { return wrong("bitwise_not on a tensor that is not integer"); } Ok(t(V::new(&x.v.s, x.v.d.iter().map(|e| unary("BitwiseNot", e, &[])).collect(), ty))) }
            "add" | "sub" | "mul" | "div" | "remainder" | "fmod" | "max_pair" | "min_pair" | "powf" | "powi" | "equal" | "not_equal" | "greater" | "greater_equal" | "lower" | "lower_equal" | "bool_and" | "bool_or" | "bool_xor" | "bitwise_and" | "bitwise_or" | "bitwise_xor" | "bitwise_left_shift" | "bitwise_right_shift" => { expect(1)?; let y = a.pop().unwrap(); if matches!(y, X::N(..)) && !matches!(m, "remainder") { return wrong(format!("{m} takes a tensor")); } self.tensor_bin(m, x, y) }
            "add_scalar" | "sub_scalar" | "mul_scalar" | "div_scalar" | "remainder_scalar" | "powf_scalar" | "powi_scalar" | "bitwise_and_scalar" | "bitwise_or_scalar" | "bitwise_xor_scalar" | "bitwise_left_shift_scalar" | "bitwise_right_shift_scalar" | "equal_elem" | "not_equal_elem" | "greater_elem" | "greater_equal_elem" | "lower_elem" | "lower_equal_elem" => { expect(1)?; let y = a.pop().unwrap(); if !matches!(y, X::N(..)) { return wrong(format!("{m} takes a number")); } let b = m.trim_end_matches("_scalar").trim_end_matches("_elem"); self.tensor_bin(b, x, y) }
            "clamp" | "clamp_min" | "clamp_max" => { expect(if m == "clamp" { 2 } else { 1 })?; let mut lim = vec![]; for y in &a { let e = num(y)?; lim.push(if ty == 1 { match cst(&e) { Some(c) if c.is_finite() => k(c as f32 as f64), _ => e } } else { e }); } let f = |e: &E| match m { "clamp" => minmax(false, &[minmax(true, &[e.clone(), lim[0].clone()]), lim[1].clone()]), "clamp_min" => minmax(true, &[e.clone(), lim[0].clone()]), _ => minmax(false, &[e.clone(), lim[0].clone()]) }; Ok(t(V::new(&x.v.s, x.v.d.iter().map(f).collect(), ty))) }
            "mask_where" => { expect(2)?; let b = a.pop().unwrap(); let b = self.as_rank(b, r)?; let c = a.pop().unwrap(); let c = self.as_rank(c, r)?; if kind(c.t) != 3 { return wrong("the mask is not boolean"); } if kind(b.t) != kd && b.t != 0 && ty != 0 { return wrong("mask_where of different kinds"); } let Some(s) = bshape(&[&c.s, &b.s, &x.v.s]) else { return wrong("mask_where of incompatible shapes") }; Ok(mk(&s, if ty == 0 { b.t } else { ty }, |ix| select(c.bc(ix), b.bc(ix), x.v.bc(ix)))) }
            "mask_fill" => { expect(2)?; let e = num(&a.pop().unwrap())?; let c = a.pop().unwrap(); let c = self.as_rank(c, r)?; if kind(c.t) != 3 { return wrong("the mask is not boolean"); } let Some(s) = bshape(&[&c.s, &x.v.s]) else { return wrong("mask_fill of incompatible shapes") }; Ok(mk(&s, ty, |ix| select(c.bc(ix), &e, x.v.bc(ix)))) }
            // conversions
            "int" | "float" | "bool" => { let to = match m { "int" => 7, "float" => 1, _ => 9 }; let v = V::new(&x.v.s, x.v.d.iter().map(|e| ops::cast(e, ty, to)).collect(), to); if kd == kind(to) && m != "int" { return wrong(format!("a tensor of this kind has no method {m}")); } if kd == kind(to) { return wrong("an integer tensor has no method int"); } Ok(X::T(Tn { v, pre: Some(Rc::new(x.v)), lazy: false })) }
            "cast" => { expect(1)?; let X::Dt(to) = a[0] else { return gap("cast to a computed type") }; if kind(to) != kd && kd != 0 { if kd == 3 || kind(to) == 3 { return wrong("cast between kinds"); } return gap("cast to another kind"); } let (src, from) = match &x.pre { Some(p) => (p.as_ref().clone(), p.t), None => (x.v.clone(), ty) }; Ok(t(V::new(&src.s, src.d.iter().map(|e| ops::cast(e, from, to)).collect(), to))) }
            "into_scalar" => { if x.v.d.len() != 1 { return wrong("into_scalar of more than one element"); } Ok(X::N(x.v.d[0].clone(), name_of(ty))) }
            // reductions
            "sum" | "mean" | "max" | "min" | "prod" => { expect(0)?; if kd == 3 { return wrong("reduction of booleans"); } let e = ops::red(&cap(m), &x.v.d); if m == "mean" && kd == 2 { return gap("mean of integers"); } Ok(t(V::new(&[1], vec![e], ty))) }
            "sum_dim" | "mean_dim" | "max_dim" | "min_dim" | "prod_dim" => { expect(1)?; if kd == 3 { return wrong("reduction of booleans"); } if m == "mean_dim" && kd == 2 { return gap("mean of integers"); } let d = self.dim(&a[0], r)?; Ok(t(ops::reduce(&cap(m.trim_end_matches("_dim")), &x.v, &[d], true))) }
            "any" | "all" => { let e = x.v.d.iter().cloned().reduce(|p, q| rel(if m == "any" { "Or" } else { "And" }, &p, &q)).unwrap_or(E::I((m == "all") as i64)); Ok(t(V::new(&[1], vec![e], 9))) }
            "argmax" | "argmin" => { expect(1)?; let d = self.dim(&a[0], r)?; let mut s = x.v.s.clone(); s[d] = 1; Ok(mk(&s, 7, |ix| { let mut j = ix.to_vec(); let mut l: Vec<E> = (0..x.v.s[d]).map(|q| { j[d] = q; x.v.at(&j).clone() }).collect(); l.push(E::I(0)); apply(if m == "argmax" { "ArgMax" } else { "ArgMin" }, l) })) }
            "topk_with_indices" | "topk" => { expect(2)?; let kk = self.index(&a[0])?; let d = self.dim(&a[1], r)?; if kk > x.v.s[d] { return wrong("topk of too many elements"); } let mut s = x.v.s.clone(); s[d] = kk; let f = |nm: &str, ty: i32| mk(&s, ty, |ix| { let mut j = ix.to_vec(); let p = j[d]; let mut l = vec![E::I(1), E::I(1), E::I(p as i64)]; for q in 0..x.v.s[d] { j[d] = q; l.push(x.v.at(&j).clone()); } apply(nm, l) }); let (v, i) = (f("topk", ty), f("topki", 7)); if m == "topk" { Ok(v) } else { Ok(X::Tu(vec![v, i])) } }
            "cumsum" => { expect(1)?; let d = self.dim(&a[0], r)?; Ok(mk(&x.v.s, ty, |ix| sum(&(0..=ix[d]).map(|q| { let mut j = ix.to_vec(); j[d] = q; x.v.at(&j).clone() }).collect::<Vec<_>>()))) }
            // movement
            "reshape" => { expect(1)?; let l = self.ints(&a[0]).or_else(|_| wrong("shape argument"))?; let (mut s, mut miss) = (vec![], None); for (i, v) in l.iter().enumerate() { let v = conc(*v); match v { -1 => { if miss.is_some() { return wrong("reshape with two unknown dimensions"); } miss = Some(i); s.push(1); } 0 => match x.v.s.get(i) { Some(d) => s.push(*d), None => return wrong("reshape copies a dimension that does not exist") }, v if v < 0 => return wrong("reshape to a negative dimension"), v => s.push(v as usize) } } if let Some(q) = gn(0) && q != s.len() { return wrong("reshape to another rank"); }
                if let Some(i) = miss { let p = numel(&s); if p == 0 || x.v.d.len() % p != 0 { return wrong("reshape to an incompatible shape"); } s[i] = x.v.d.len() / p; } match ops::reshape(&x.v, &s) { Some(v) => Ok(t(v)), None => wrong(format!("reshape of {:?} to {s:?}", x.v.s)) } }
            "flatten" => { expect(2)?; let (p, q) = (self.dim(&a[0], r)?, self.dim(&a[1], r)?); if p > q { return wrong("flatten with reversed dimensions"); } let mut s = x.v.s[..p].to_vec(); s.push(numel(&x.v.s[p..=q])); s.extend(&x.v.s[q + 1..]); if let Some(g) = gn(0) && g != s.len() { return wrong("flatten to another rank"); } Ok(t(ops::reshape(&x.v, &s).unwrap())) }
            "squeeze" => { let s: Vec<usize> = x.v.s.iter().copied().filter(|d| *d != 1).collect(); let s = if s.is_empty() { vec![1] } else { s }; if let Some(q) = gn(0) && q != s.len() { return wrong("squeeze to another rank"); } Ok(t(ops::reshape(&x.v, &s).unwrap())) }
            "squeeze_dim" | "squeeze_dims" => { let l: Vec<X> = if m == "squeeze_dim" { a.clone() } else { match a.first() { Some(X::A(l)) => l.clone(), _ => return gap("squeeze_dims") } }; let mut d = vec![]; for y in &l { let i = self.dim(y, r)?; if x.v.s[i] != 1 { return wrong("squeeze of a dimension that is not 1"); } if d.contains(&i) { return wrong("squeeze of a dimension twice"); } d.push(i); } let s: Vec<usize> = (0..r).filter(|i| !(d.contains(i) || m == "squeeze_dims" && l.is_empty() && x.v.s[*i] == 1)).map(|i| x.v.s[i]).collect(); if s.is_empty() { return wrong("squeeze to rank 0"); } if let Some(q) = gn(0) && q != s.len() { return wrong(format!("squeeze to rank {q} leaves {}", s.len())); } Ok(t(ops::reshape(&x.v, &s).unwrap())) }
            "unsqueeze" => { expect(0)?; match gn(0) { Some(q) => Ok(t(lead(&x.v, q)?)), None => { x.lazy = true; Ok(X::T(x)) } } }
            "unsqueeze_dim" => { expect(1)?; let d = self.dim(&a[0], r + 1)?; let mut s = x.v.s.clone(); s.insert(d, 1); if let Some(q) = gn(0) && q != r + 1 { return wrong("unsqueeze_dim to another rank"); } Ok(t(ops::reshape(&x.v, &s).unwrap())) }
            "unsqueeze_dims" => { expect(1)?; let X::A(l) = &a[0] else { return gap("unsqueeze_dims") }; let q = r + l.len(); if let Some(w) = gn(0) && w != q { return wrong("unsqueeze_dims to another rank"); } let mut s = vec![0; q]; for y in l.clone() { let i = self.dim(&y, q)?; if s[i] == 1 { return wrong("unsqueeze_dims of a dimension twice"); } s[i] = 1; } let mut it = x.v.s.iter(); for d in s.iter_mut() { if *d == 0 { *d = *it.next().unwrap(); } } Ok(t(ops::reshape(&x.v, &s).unwrap())) }
            "permute" => { expect(1)?; let X::A(l) = &a[0] else { return gap("permute") }; let mut p = vec![]; for y in l.clone() { let d = self.dim(&y, r)?; if p.contains(&d) { return wrong("permute with a repeated dimension"); } p.push(d); } if p.len() != r { return wrong("permute of another rank"); } Ok(t(ops::permute(&x.v, &p))) }
            "transpose" | "t" => { expect(0)?; if r < 2 { return wrong("transpose below rank 2"); } let mut p: Vec<usize> = (0..r).collect(); p.swap(r - 1, r - 2); Ok(t(ops::permute(&x.v, &p))) }
            "swap_dims" => { expect(2)?; let (i, j) = (self.dim(&a[0], r)?, self.dim(&a[1], r)?); let mut p: Vec<usize> = (0..r).collect(); p.swap(i, j); Ok(t(ops::permute(&x.v, &p))) }
            "flip" => { expect(1)?; let X::A(l) = &a[0] else { return gap("flip") }; let mut d = vec![]; for y in l.clone() { d.push(self.dim(&y, r)?); } Ok(mk(&x.v.s, ty, |ix| { let j: Vec<usize> = ix.iter().enumerate().map(|(i, p)| if d.contains(&i) { x.v.s[i] - 1 - p } else { *p }).collect(); x.v.at(&j).clone() })) }
            "expand" => { expect(1)?; let l = self.ints(&a[0])?; if l.len() < r { return wrong("expand to a lower rank"); } let off = l.len() - r; let mut s = vec![]; for (i, v) in l.iter().enumerate() { let v = conc(*v); let old = if i >= off { Some(x.v.s[i - off]) } else { None }; s.push(match (v, old) { (-1, Some(d)) => d, (v, _) if v < 0 => return wrong("expand to a negative dimension"), (v, Some(d)) if d != 1 && d != v as usize => return wrong(format!("expand of {:?} to {l:?}", x.v.s)), (v, _) => v as usize }); } Ok(mk(&s, ty, |ix| x.v.bc(ix).clone())) }
            "repeat" => { expect(1)?; let s2 = self.shape(&a[0])?; if s2.len() != r { return wrong("repeat of another rank"); } let s: Vec<usize> = x.v.s.iter().zip(&s2).map(|(p, q)| p * q).collect(); Ok(mk(&s, ty, |ix| { let j: Vec<usize> = ix.iter().zip(&x.v.s).map(|(i, d)| i % d).collect(); x.v.at(&j).clone() })) }
            "repeat_dim" => { expect(2)?; let d = self.dim(&a[0], r)?; let c = self.index(&a[1])?; let mut s = x.v.s.clone(); s[d] *= c; Ok(mk(&s, ty, |ix| { let j: Vec<usize> = ix.iter().zip(&x.v.s).map(|(i, d)| i % d).collect(); x.v.at(&j).clone() })) }
            "slice" => { expect(1)?; let sp = self.spans(&a[0], &x.v.s)?; let s: Vec<usize> = sp.iter().map(|p| p.1 as usize).collect(); Ok(mk(&s, ty, |ix| { let j: Vec<usize> = ix.iter().zip(&sp).map(|(i, p)| (p.0 + *i as i64 * p.2) as usize).collect(); x.v.at(&j).clone() })) }
            "slice_assign" => { expect(2)?; let sp = self.spans(&a[0], &x.v.s)?; let b = a.pop().unwrap(); let b = self.as_rank(b, r)?; let s: Vec<usize> = sp.iter().map(|p| p.1 as usize).collect(); if b.s != s { return wrong("slice_assign of another shape"); } let mut o = x.v.clone(); for ix in each(&s) { let mut q = 0; for (i, p) in ix.iter().zip(&sp).enumerate().map(|(d, (i, p))| ((d, i), p)) { q = q * x.v.s[i.0] + (p.0 + *i.1 as i64 * p.2) as usize; } o.d[q] = b.at(&ix).clone(); } Ok(t(o)) }
            "narrow" => { expect(3)?; let d = self.dim(&a[0], r)?; let (p, c) = (self.index(&a[1])?, self.index(&a[2])?); if p + c > x.v.s[d] { return wrong("narrow out of bounds"); } Ok(t(ops::slice(&x.v, &[p as i64], &[(p + c) as i64], &[d], &[1]).unwrap())) }
            "split_with_sizes" => { expect(2)?; let sz = self.shape(&a[0])?; let d = self.dim(&a[1], r)?; if sz.iter().sum::<usize>() != x.v.s[d] { return wrong("split sizes do not add up"); } let mut o = vec![]; let mut p = 0; for c in sz { let mut s = x.v.s.clone(); s[d] = c; o.push(mk(&s, ty, |ix| { let mut j = ix.to_vec(); j[d] += p; x.v.at(&j).clone() })); p += c; } Ok(X::A(o)) }
            "split" => { expect(2)?; let c = self.index(&a[0])?; let d = self.dim(&a[1], r)?; if c == 0 { return wrong("split into chunks of nothing"); } let mut o = vec![]; let mut p = 0; while p < x.v.s[d] { let l = c.min(x.v.s[d] - p); o.push(t(ops::slice(&x.v, &[p as i64], &[(p + l) as i64], &[d], &[1]).unwrap())); p += l; } Ok(X::A(o)) }
            "select" => { expect(2)?; let d = self.dim(&a[0], r)?; let i = a.pop().unwrap(); let i = self.as_rank(i, 1)?; if kind(i.t) != 2 { return wrong("indices that are not integer"); } self.indices_ok(&i, x.v.s[d])?; match ops::gather(&x.v, &i, d) { Some(v) => Ok(t(v)), None => wrong("select out of bounds") } }
            "take" => { expect(2)?; let d = self.dim(&a[0], r)?; let i = tensor(a.pop().unwrap())?; if let Some(q) = gn(0) && q != i.v.rank() { return wrong("take with indices of another rank"); } if let Some(q) = gn(1) && q != r + i.v.rank() - 1 { return wrong("take to another rank"); } if kind(i.v.t) != 2 { return wrong("indices that are not integer"); } self.indices_ok(&i.v, x.v.s[d])?; match ops::gather(&x.v, &i.v, d) { Some(v) => Ok(t(v)), None => wrong("take out of bounds") } }
            "gather" => { expect(2)?; let d = self.dim(&a[0], r)?; let i = a.pop().unwrap(); let i = self.as_rank(i, r)?; if kind(i.t) != 2 { return wrong("indices that are not integer"); } self.indices_ok(&i, x.v.s[d])?; for q in 0..r { if q != d && i.s[q] > x.v.s[q] { return wrong("gather with indices larger than the tensor"); } } match ops::op("GatherElements", &[Some(x.v.clone()), Some(i)], &ops::A::new().set_i("axis", d as i64), 18, 1) { Some(mut v) => Ok(t(v.remove(0))), None => wrong("gather out of bounds") } }
            "scatter" => { expect(4)?; let X::O(o) = a.pop().unwrap() else { return gap("scatter") }; if o.n != "IndexingUpdateOp::Add" { return gap("scatter update"); } let u = a.pop().unwrap(); let u = self.as_rank(u, r)?; let i = a.pop().unwrap(); let i = self.as_rank(i, r)?; let d = self.dim(&a[0], r)?; if i.s != u.s { return wrong("scatter with indices and values of different shapes"); }
                for q in 0..r { if q != d && i.s[q] != x.v.s[q] { return wrong("scatter into a tensor of another shape"); } }
                if i.to_ints().is_none() { let mut o = x.v.clone(); for ix in each(&i.s) { for p in 0..x.v.s[d] { let mut j = ix.clone(); j[d] = p; let mut q = 0; for (w, m) in j.iter().zip(&x.v.s) { q = q * m + w; } let hit = match single(i.at(&ix)) { Some(at) if at.op == "ArgMax" && at.args.len() == x.v.s[d] + 1 && at.args.last() == Some(&E::I(0)) => { let mut l = vec![E::I(p as i64)]; l.extend(at.args[..x.v.s[d]].iter().cloned()); apply("hardmax", l) } _ => rel("Equal", i.at(&ix), &E::I(p as i64)) }; o.d[q] = add(&o.d[q], &mul(&hit, u.at(&ix))); } } return Ok(t(o)); }
                self.indices_ok(&i, x.v.s[d])?; match ops::op("ScatterElements", &[Some(x.v.clone()), Some(i), Some(u)], &ops::A::new().set_i("axis", d as i64).set_s("reduction", "add"), 18, 1) { Some(mut v) => Ok(t(v.remove(0))), None => wrong("scatter out of bounds") } }
            "pad" => { expect(2)?; let X::O(o) = a.pop().unwrap() else { return gap("pad mode") }; let l = match &a[0] { X::A(l) => l.clone(), X::Tu(_) => return gap("pad of the last dimensions"), _ => return gap("pad") }; let (mut b, mut e) = (vec![0; r], vec![0; r]); if l.len() > r { return wrong("pad of more dimensions than there are"); } let off = r - l.len(); for (i, y) in l.iter().enumerate() { let v = self.usizes(y)?; b[off + i] = v[0] as i64; e[off + i] = v[1] as i64; } let mode = match o.n.as_str() { "PadMode::Constant" => "constant", "PadMode::Edge" => "edge", "PadMode::Reflect" => "reflect", _ => return gap("pad mode") };
                let z = if mode == "constant" { match &o.args[..] { [X::N(e, f)] => { if is_f(f) && kd == 2 { return gap("float padding of an integer tensor"); } if kd == 1 && !is_f(f) { ops::cast(e, 7, 1) } else { e.clone() } } _ => return wrong("padding value") } } else { zero(ty) }; match ops::pad(&x.v, &b, &e, mode, &z) { Some(v) => Ok(t(v)), None => wrong("pad out of bounds") } }
            "triu" | "tril" => { expect(1)?; if r < 2 { return wrong("triangle below rank 2"); } let off = conc(self.int(&a[0])?); Ok(mk(&x.v.s, ty, |ix| { let q = ix[r - 1] as i64 - ix[r - 2] as i64; if if m == "triu" { q >= off } else { q <= off } { x.v.at(ix).clone() } else { zero(ty) } })) }
            "one_hot_fill" => { expect(4)?; let dep = self.index(&a[0])?; let (on, off) = (num(&a[1])?, num(&a[2])?); let fl = matches!(&a[1], X::N(_, f) if is_f(f)); let (on, off) = if kd == 2 && fl { (ops::cast(&on, 1, ty), ops::cast(&off, 1, ty)) } else { (on, off) }; let d = self.dim(&a[3], r + 1)?; if let Some(q) = gn(0) && q != r + 1 { return wrong("one_hot to another rank"); } let mut s = x.v.s.clone(); s.insert(d, dep);
                // negative indices count from the end
                Ok(mk(&s, ty, |ix| { let mut j = ix.to_vec(); let p = j.remove(d) as i64; let e = x.v.at(&j); let q = dep as i64; let hit = match e { E::I(v) => E::I((*v == p || *v + q == p) as i64), _ => rel("Or", &rel("Equal", e, &E::I(p)), &rel("Equal", e, &E::I(p - q))) }; select(&hit, &on, &off) })) }
            "zeros_like" | "ones_like" => { let e = if kd == 1 { k((m == "ones_like") as i64 as f64) } else { E::I((m == "ones_like") as i64) }; Ok(mk(&x.v.s, ty, |_| e.clone())) } "full_like" => { let e = num(&a[0])?; Ok(mk(&x.v.s, ty, |_| e.clone())) }
            "random_like" => { expect(1)?; let (d, p) = self.dist(&a[0])?; Ok(t(ops::draw(&format!("Random{d}Like"), &p, &x.v.s, ty))) }
            "matmul" => { expect(1)?; let mut y = tensor(a.pop().unwrap())?; if x.lazy && !y.lazy { x.v = lead(&x.v, y.v.rank())?; } if y.lazy { y.v = lead(&y.v, r)?; } if x.v.rank() != y.v.rank() { return wrong(format!("matmul of tensors of rank {} and {}", x.v.rank(), y.v.rank())); } if r < 2 && !x.lazy { return wrong("matmul below rank 2"); } if kd != kind(y.v.t) { return wrong("matmul of different kinds"); } match ops::matmul(&x.v, &y.v) { Some(v) => Ok(t(v)), None => wrong(format!("matmul of {:?} and {:?}", x.v.s, y.v.s)) } }
            "len" | "elem" | "iter" | "as_slice" => wrong(format!("a tensor has no method {m}")),
            _ => gap(format!("tensor method {m}")),
        }
    }
    fn indices_ok(&mut self, i: &V, len: usize) -> Q<()> { for e in &i.d { if let E::I(v) = e { let bad = (*v < -(len as i64)) | (*v >= len as i64); if conc(bad as i64) != 0 { return wrong("index out of bounds"); } } else { return gap("abstract index"); } } Ok(()) }

    // modules
    fn omethod(&mut self, o: Rc<Obj>, m: &str, a: Vec<X>) -> Q<X> {
        if m == "clone" { return Ok(X::O(o)); }
        if let Some(f) = m.strip_prefix("with_") { let mut q = (*o).clone(); if a.len() != 1 { return wrong("setting"); } q.f.push((f.into(), a.into_iter().next().unwrap())); return Ok(X::O(Rc::new(q))); }
        if m == "init" { let mut q = (*o).clone(); let Some(b) = q.n.strip_suffix("Config") else { return gap("init") }; q.n = b.to_string(); return Ok(X::O(Rc::new(q))); }
        if m == "val" && o.n == "Param" { return match o.f.iter().rev().find(|f| f.0 == "#") { Some((_, x)) => Ok(x.clone()), None => gap("parameter without value") }; }
        if m == "forward" { return self.module(&o, a); }
        gap(format!("{}.{m}", o.n))
    }
    fn module(&mut self, o: &Obj, mut a: Vec<X>) -> Q<X> {
        let get = |n: &str| o.f.iter().rev().find(|f| f.0 == n).map(|f| f.1.clone());
        if a.len() != 1 { return gap("module with several inputs"); } let x = tensor(a.pop().unwrap())?; if x.lazy { return wrong("the rank of an operand cannot be inferred"); } let x = x.v; let r = x.rank();
        let par = |n: &str| -> Option<V> { match get(&format!("#{n}")) { Some(X::T(v)) => Some(v.v), _ => None } };
        let base = o.n.trim_end_matches("1d").trim_end_matches("2d").trim_end_matches("3d"); let nd: usize = if o.n.ends_with("1d") { 1 } else if o.n.ends_with("2d") { 2 } else if o.n.ends_with("3d") { 3 } else { 0 };
        if nd > 0 && r != nd + 2 { return wrong(format!("{} on a tensor of rank {r}", o.n)); }
        if kind(x.t) != 1 { return wrong(format!("{} on a tensor that is not float", o.n)); }
        let list = |vm: &mut Vm, n: &str, d: i64| -> Q<Vec<i64>> { match get(n) { None => Ok(vec![d; nd]), Some(X::A(l)) => { if l.len() != nd { return wrong(format!("{n} of another length")); } vm.ints(&X::A(l)) } Some(y) => if nd == 1 { Ok(vec![vm.int(&y)?]) } else { wrong(format!("{n} is not an array")) } } };
        let eps = || -> Q<f64> { match get("epsilon") { Some(X::N(e, _)) => cst(&e).map_or_else(|| gap("epsilon"), |v| Ok(v as f32 as f64)), _ => Ok(1e-5f32 as f64) } };
        let pads = |vm: &mut Vm| -> Q<Vec<i64>> { match get("padding") { None => Ok(vec![0; 2 * nd]), Some(X::O(p)) => { let l = vm.ints(&X::A(p.args.clone()))?; if !p.n.starts_with(&format!("PaddingConfig{nd}d")) { return wrong("padding of another dimension"); } match p.n.rsplit("::").next().unwrap() { "Valid" => Ok(vec![0; 2 * nd]), "Explicit" => { let l = if nd == 3 && l.len() == 3 { [l.clone(), l].concat() } else { l }; if l.len() != 2 * nd { return wrong("explicit padding of another length"); } Ok(l) } s => gap(format!("padding {s}")) } } Some(y) => { let l = match &y { X::A(_) => vm.ints(&y)?, y => vec![vm.int(y)?] }; if l.len() != nd { return wrong("padding of another length"); } Ok([l.clone(), l].concat()) } } };
        let f = |v: Option<V>, what: &str| v.map_or_else(|| wrong(format!("incompatible shapes in {what}")), |v| Ok(t(v)));
        match base {
            "Conv" | "ConvTranspose" => {
                let Some(w) = par("weight") else { return gap("weights") }; let mut at = ops::A::new().set_is("strides", list(self, "stride", 1)?).set_is("dilations", list(self, "dilation", 1)?); if let Some(gx) = get("groups") { at = at.set_i("group", self.int(&gx)?); }
                at = at.set_is("pads", pads(self)?); let b = par("bias");
                if base == "Conv" { f(ops::conv(&x, &w, b.as_ref(), &at), "a convolution") } else { at = at.set_is("output_padding", list(self, "padding_out", 0)?); f(ops::conv_transpose(&x, &w, b.as_ref(), &at), "a transposed convolution") }
            }
            "MaxPool" | "AvgPool" => { let kern = match o.args.first() { Some(X::A(l)) => self.ints(&X::A(l.clone()))?, Some(y) => vec![self.int(y)?], None => return wrong("kernel size") }; if kern.len() != nd { return wrong("kernel of another length"); }
                // strides default to the kernel size
                let st = if nd == 1 { get("stride") } else { get("strides") }; let st = match st { None => kern.clone(), Some(X::A(l)) => self.ints(&X::A(l))?, Some(y) => vec![self.int(&y)?] };
                let mut at = ops::A::new().set_is("kernel_shape", kern).set_is("strides", st).set_is("pads", pads(self)?); if base == "MaxPool" { at = at.set_is("dilations", list(self, "dilation", 1)?); }
                if let Some(c) = get("ceil_mode") { at = at.set_i("ceil_mode", truth(&c)? as i64); } let inc = match get("count_include_pad") { Some(c) => truth(&c)?, None => true }; at = at.set_i("count_include_pad", inc as i64);
                match ops::pool(base == "MaxPool", &x, &at) { Some(v) => Ok(t(v)), None => { symrt::assume(false); gap("pool") } } }
            "AdaptiveAvgPool" => { let l = match o.args.first() { Some(X::A(l)) => self.ints(&X::A(l.clone()))?, Some(y) => vec![self.int(y)?], None => vec![] }; if l.iter().any(|v| conc(*v) != 1) { return gap("adaptive pooling"); } Ok(t(ops::reduce("Mean", &x, &(2..r).collect::<Vec<_>>(), true))) }
            "BatchNorm" => { let (Some(sc), Some(b), Some(me), Some(va)) = (par("gamma"), par("beta"), par("running_mean"), par("running_var")) else { return gap("weights") }; let c = sc.d.len(); if r < 2 || x.s[1] != c { return wrong("batch normalisation of another number of channels"); } Ok(t(ops::batch_norm(&x, &sc, &b, &me, &va, eps()?))) }
            "InstanceNorm" | "GroupNorm" => { let (Some(sc), Some(b)) = (par("gamma"), par("beta")) else { return gap("weights") }; if r < 2 || x.s[1] != sc.d.len() || b.d.len() != sc.d.len() { return wrong("normalisation of another number of channels"); } let gr = if base == "InstanceNorm" { x.s[1] } else { self.index(&o.args[0])? }; if gr == 0 { return wrong("no groups"); } f(ops::group_norm(&x, gr, eps()?, |c| sc.d[c].clone(), |c| b.d[c].clone()), "a group normalisation") }
            "LayerNorm" => { let Some(sc) = par("gamma") else { return gap("weights") }; let b = par("beta"); if sc.s != [x.s[r - 1]] { return wrong("layer normalisation of another size"); } f(ops::layer_norm(&x, &sc, b.as_ref(), r - 1, eps()?), "a layer normalisation") }
            "Linear" => { let Some(w) = par("weight") else { return gap("weights") }; let Some(mut v) = ops::matmul(&x, &w) else { return wrong("linear layer of another size") }; if let Some(b) = par("bias") { v = match ops::broadcast2(&v, &b, v.t, add) { Some(v) => v, None => return wrong("bias of another size") }; } Ok(t(v)) }
            "PRelu" => { let Some(al) = par("alpha") else { return gap("weights") }; let c = al.d.len(); if c != 1 && (r < 2 || x.s[1] != c) { return wrong("PReLU with another number of channels"); } Ok(mk(&x.s, x.t, |ix| ops::prelu(x.at(ix), &al.d[if c == 1 { 0 } else { ix[1] }]))) }
            "Dropout" => Ok(t(x)), _ => gap(format!("module {}", o.n)),
        }
    }
    /// parameters a field needs: (path, shape, kind)
    pub fn params(&mut self, name: &str, x: &X) -> Q<Vec<(String, Vec<usize>, i32)>> {
        let X::O(o) = x else { return Ok(vec![]) }; let get = |n: &str| o.f.iter().rev().find(|f| f.0 == n).map(|f| f.1.clone());
        let p = |s: &str, sh: Vec<usize>| (format!("{name}.{s}"), sh, 1); let arg = |vm: &mut Vm, i: usize| -> Q<Vec<usize>> { match o.args.get(i) { Some(X::A(_)) => vm.usizes(&o.args[i]), Some(x) => Ok(vec![vm.index(x)?]), None => wrong("constructor arguments") } };
        let bias = match get("bias") { Some(b) => truth(&b)?, None => true }; let base = o.n.trim_end_matches("1d").trim_end_matches("2d").trim_end_matches("3d");
        Ok(match base {
            "Param" => { let s = self.shape(&o.args[1])?; let kd = match get("kind") { Some(k) => self.index(&k)? as i32, None => 0 }; if let Some(r) = get("rank") && self.index(&r)? != s.len() { return wrong("a parameter declared with another rank than its shape"); } vec![(name.to_string(), s, kd)] }
            "Conv" | "ConvTranspose" => { let (c, kern) = if o.n == "Conv1d" { (vec![arg(self, 0)?[0], arg(self, 1)?[0]], arg(self, 2)?) } else { (arg(self, 0)?, arg(self, 1)?) }; let g = match get("groups") { Some(g) => self.index(&g)?, None => 1 }; if g == 0 || c[0] % g != 0 || c[1] % g != 0 { return wrong("channels are not divisible by the groups"); } let mut w = if base == "Conv" { vec![c[1], c[0] / g] } else { vec![c[0], c[1] / g] }; w.extend(kern); let mut o = vec![p("weight", w)]; if bias { o.push(p("bias", vec![c[1]])); } o }
            "BatchNorm" => { let c = arg(self, 0)?; ["gamma", "beta", "running_mean", "running_var"].iter().map(|s| p(s, c.clone())).collect() }
            "InstanceNorm" => { let c = arg(self, 0)?; vec![p("gamma", c.clone()), p("beta", c)] } "GroupNorm" => { let c = arg(self, 1)?; vec![p("gamma", c.clone()), p("beta", c)] }
            "LayerNorm" => { let c = arg(self, 0)?; let mut o = vec![p("gamma", c.clone())]; if bias { o.push(p("beta", c)); } o }
            "Linear" => { let (i, q) = (arg(self, 0)?[0], arg(self, 1)?[0]); let col = matches!(get("layout"), Some(X::O(l)) if l.n.ends_with("Col")); let mut o = vec![p("weight", if col { vec![q, i] } else { vec![i, q] })]; if bias { o.push(p("bias", vec![q])); } o }
            "PRelu" => { let c = match get("num_parameters") { Some(x) => self.index(&x)?, None => 1 }; vec![p("alpha", vec![c])] }
            _ => vec![],
        })
    }
}
pub fn name_of(t: i32) -> S { match t { 1 => "f32", 2 => "u8", 3 => "i8", 4 => "u16", 5 => "i16", 6 => "i32", 7 => "i64", 9 => "bool", 10 => "f16", 11 => "f64", 12 => "u32", 13 => "u64", 16 => "bf16", _ => "int" } }
fn cap(s: &str) -> String { let mut c = s.chars(); c.next().map(|f| f.to_ascii_uppercase()).into_iter().chain(c).collect() }
