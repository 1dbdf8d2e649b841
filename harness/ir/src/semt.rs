//! Imported graphs mean what the model means.
//! args of `import_op`: 0 group, 1 operator case, 2 hidden dimensions, 3 variant
use crate::irsem::*;
use crate::pb::Model;
use sem::V;
use symrt::*;

pub fn parse(m: &Model, simplify: bool) -> Option<onnx_ir::OnnxGraph> { onnx_ir::OnnxGraphBuilder::new().simplify(simplify).parse_bytes(&m.bytes()).ok() }
pub fn agree(a: &[V], b: &[V], label: &str) { agree_known(a, b, label, (false, "")) }
pub fn agree_known(a: &[V], b: &[V], label: &str, known: (bool, &str)) { agree_alt(a, b, label, known, None) }
/// `alt`: what the known finding computes; anything else is not that finding
pub fn agree_alt(a: &[V], b: &[V], label: &str, known: (bool, &str), alt: Option<&[V]>) {
    check(a.len() == b.len(), "number of graph outputs changed");
    for (i, (x, y)) in a.iter().zip(b).enumerate() { let ok = sem::same(x, y) && x.t == y.t; if is_sym(ok as i64) || !ok { if symbolic() && arg(7) != 0 { print("want "); print(&x.show()); print(" got "); print(&y.show()); } } if let Some(l) = alt { let z = sem::same(&l[i], y); check(ok | z, label); } check_known(ok, label, known.0, known.1); }
}
/// one operator: the configuration carried by the IR has the meaning of the node
pub fn import_op() { one(false) }
/// the same after simplification; arg 4: opset
pub fn simplify_op() { one(true) }
fn one(simplify: bool) {
    let Some(mut g) = sem::cases::case(arg(0), arg(1), arg(2), arg(3)) else { return };
    // definitions that have not changed since
    if arg(4) != 0 && g.m.opset >= 18 { g.m.opset = arg(4); }
    if simplify { assume(!g.known.0); }
    let ins: Vec<(&str, V)> = g.vals.iter().map(|(a, b)| (a.as_str(), b.clone())).collect();
    panic_ok(true);
    let Some(r) = parse(&g.m, simplify) else { cover("refused"); return };
    panic_ok(false);
    let Some(want) = sem::ops::run(&g.m, &ins) else { return }; cover("imported"); well_formed(&r, &[]);
    if r.nodes.iter().filter(|n| !matches!(n, onnx_ir::ir::Node::Constant(_))).count() < g.m.nodes.iter().filter(|n| n.op != "Constant").count() { cover("simplified"); }
    let alt = match &g.alt { Some(m) if g.known.0 => sem::ops::run(m, &ins), _ => None };
    let got = eval(&r, &ins, true); check_known(got.is_some(), "the imported graph has no meaning", g.known.0, g.known.1);
    if let Some(got) = got { agree_alt(&want, &got, "the imported graph computes something else", g.known, alt.as_deref()); }
}
