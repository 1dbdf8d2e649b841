#![allow(invalid_runtime_symbol_definitions)]
//! The code generated for a model computes what the model computes.
use sem::V;
use symrt::*;
mod ast;
mod burn;
mod data;
mod vm;
use ast::{P, Program};
use vm::*;

fn debug() -> bool { symbolic() && arg(7) != 0 || !symbolic() }
/// code outside of what the interpreter knows: no verdict
fn undecided(m: &str) { note(&format!("GAP {m}")); cover(&format!("undecided: {m}")); }
fn note(m: &str) { if debug() { print(m); } }
/// the generated program of a model, together with its parameter file
pub fn generate(m: &sem::pb::Model, simplify: bool) -> Option<(proc_macro2::TokenStream, Vec<burn_store::TensorSnapshot>)> {
    let g = onnx_ir::OnnxGraphBuilder::new().simplify(simplify).parse_bytes(&m.bytes()).ok()?;
    burn_store::WRITTEN.with(|w| w.borrow_mut().clear());
    let t = burn_onnx::generate_tokens(g, std::path::Path::new("/dev/null/m"));
    Some((t, burn_store::WRITTEN.with(|w| w.borrow_mut().pop().map(|x| x.1).unwrap_or_default())))
}
/// runs the program on the inputs, in the order of the graph's inputs
pub fn interpret(p: &Program, snaps: &[burn_store::TensorSnapshot], ins: &[(&str, V)]) -> Q<Vec<V>> {
    let mut vm = Vm { p, vars: vec![], fields: vec![], ret: None, depth: 0 };
    let X::O(o) = vm.run_fun("new", vec![X::Dev])? else { return wrong("new does not return the model") };
    for (k, _) in &p.fields { if !o.f.iter().any(|f| f.0 == *k) { return wrong(format!("the field {k} is not initialised")); } }
    let mut seen: Vec<&String> = vec![]; for (k, _) in &o.f { if seen.contains(&k) || !p.fields.iter().any(|f| f.0 == *k) { return wrong(format!("the field {k} is not declared once")); } seen.push(k); }
    let mut fields = vec![]; let mut used = 0;
    for (name, x) in o.f.clone() {
        let need = vm.params(&name, &x)?; let X::O(m) = &x else { continue }; let mut m = (**m).clone();
        for (path, shape, kd) in need {
            let hit: Vec<_> = snaps.iter().filter(|s| s.full_path() == path).collect();
            if hit.len() != 1 { return wrong(format!("{} tensors are stored for the parameter {path}", hit.len())); } used += 1;
            let s = hit[0]; let Ok(d) = s.to_data() else { return wrong(format!("the data of {path} cannot be loaded")) };
            let mut v = data::val(&d); let sh: Vec<usize> = s.shape.iter().map(|d| conc(*d as i64) as usize).collect();
            if sem::numel(&sh) != v.d.len() || data::code(s.dtype) != v.t { return wrong(format!("{path} is stored with a header that does not match its data")); } v.s = sh;
            if v.s != shape { return wrong(format!("{path} has shape {:?} and {:?} is stored", shape, v.s)); }
            if v.d.len() != sem::numel(&v.s) { return wrong(format!("{path} is stored with {} elements", v.d.len())); }
            if kd != 0 && kind(v.t) != kd { return wrong(format!("{path} is stored with another kind of element")); }
            if path.ends_with(".weight") && m.n == "Linear" && m.f.iter().any(|f| f.0 == "layout" && matches!(&f.1, X::O(l) if l.n.ends_with("Col"))) { v = sem::ops::permute(&v, &[1, 0]); }
            let key = path.strip_prefix(&format!("{name}.")).map_or("#".to_string(), |k| format!("#{k}")); m.f.push((key, t(v)));
        }
        fields.push((name, X::O(std::rc::Rc::new(m))));
    }
    if used != snaps.len() { return wrong("the parameter file holds tensors that no field loads"); }
    vm.fields = fields;
    let Some(f) = p.funs.iter().find(|f| f.name == "forward") else { return wrong("there is no forward") };
    if f.params.len() != ins.len() { return wrong("forward has another number of parameters than the graph has inputs"); }
    let mut args = vec![]; for ((_, ty), (_, v)) in f.params.iter().zip(ins) { args.push(input(v, ty)?); }
    let r = vm.run_fun("forward", args)?;
    match r { X::Tu(l) => l.into_iter().map(output).collect(), X::U => Ok(vec![]), x => Ok(vec![output(x)?]) }
}
fn input(v: &V, ty: &ast::Ty) -> Q<X> {
    if ty.n == "Tensor" { let mut v = v.clone(); if v.s.is_empty() { v.s = vec![1]; } return Ok(t(v)); }
    if let Some(n) = tyn(&ty.n) { if v.d.len() != 1 || kind(tcode(n)) != kind(v.t) { return wrong(format!("an input declared as {n}")); } return Ok(X::N(v.d[0].clone(), n)); }
    if ty.n == "[" { return Ok(X::A(v.d.iter().map(|e| X::N(e.clone(), "i64")).collect())); }
    gap("input type")
}
fn output(x: X) -> Q<V> {
    match x {
        X::T(a) => Ok(a.v), X::N(e, ty) => Ok(V::scalar(e, tcode(ty))),
        X::A(l) => { let mut d = vec![]; let mut ty = 7; for x in &l { let X::N(e, t) = x else { return gap("output") }; d.push(e.clone()); ty = tcode(t); } Ok(V::new(&[d.len()], d, ty)) }
        _ => gap("output"),
    }
}
/// compares a program with the meaning of its model
pub fn judge(toks: proc_macro2::TokenStream, snaps: &[burn_store::TensorSnapshot], ins: &[(&str, V)], want: &[V], known: (bool, &str)) {
    let p = match P::new(toks).program() { Ok(p) => p, Err(e) => { undecided(&e.0); return } };
    sem::ops::reset();
    let mut all: Vec<(&str, V)> = vec![]; for (n, v) in ins { all.push((*n, v.clone())); }
    match interpret(&p, snaps, &all) {
        Ok(got) => {
            cover("computed"); check(got.len() == want.len(), "forward returns another number of values than the graph has outputs");
            for (x, y) in want.iter().zip(&got) { let ok = sem::same(x, y) & (y.t == 0 || kind(x.t) == kind(y.t)); if debug() && (is_sym(ok as i64) || !ok) { print("want "); print(&x.show()); print(" got "); print(&y.show()); } check_known(ok, "the generated code computes something else", known.0, known.1); }
        }
        Err(Fail::Wrong(m)) => { note(&m); check_known(false, "the generated code is not a program that runs", known.0, known.1); }
        Err(Fail::Gap(m)) => { undecided(&m); }
        Err(_) => { undecided("control flow"); }
    }
}
/// args: 0 group, 1 operator case, 2 hidden dimensions, 3 variant, 4 opset, 5 simplify
fn operator() {
    let Some(mut g) = sem::cases::case(arg(0), arg(1), arg(2), arg(3)) else { return };
    if arg(4) != 0 && g.m.opset >= 18 { g.m.opset = arg(4); }
    assume(!g.known.0);
    let ins: Vec<(&str, V)> = g.vals.iter().map(|(a, b)| (a.as_str(), b.clone())).collect();
    let Some(want) = sem::ops::run(&g.m, &ins) else { return };
    panic_ok(true);
    let Some((toks, snaps)) = generate(&g.m, arg(5) != 0) else { cover("refused"); return };
    panic_ok(false); cover("generated");
    judge(toks, &snaps, &ins, &want, g.gen_known);
}
fn listing() {
    let Some(g) = sem::cases::case(arg(0), arg(1), arg(2), arg(3)) else { return };
    let Some((t, _)) = generate(&g.m, arg(5) != 0) else { print("refused"); return };
    let s = t.to_string(); let i = s.find("pub fn new").unwrap(); print(&s[i..]);
    match P::new(t).program() { Ok(p) => print(&format!("ok {}", p.funs.len())), Err(e) => print(&format!("BAD {}", e.0)) }
}
entries! { gen_op => crate::operator; show => crate::listing; }
