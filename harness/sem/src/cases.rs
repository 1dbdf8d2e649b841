//! Single-operator models with symbolic shapes, attributes and operands.
use crate::alg::*;
use crate::pb::{Attr, Dim, Model, Tensor};
use symrt::*;

pub const F: i32 = 1; pub const I: i32 = 7; pub const B: i32 = 9;
pub fn pk(n: &str, lo: i64, hi: i64) -> usize { pick(n, lo, hi) as usize }
/// a model under construction together with the values of its inputs
pub struct G { pub m: Model, pub vals: Vec<(String, V)>, pub ins: Vec<String>, pub attrs: Vec<Attr<'static>>, pub hide: i64, n: i64, pub known: (bool, &'static str),
    /// what a known finding computes instead
    pub alt: Option<Model>,
    /// a known finding about the generated code
    pub gen_known: (bool, &'static str) }
impl G {
    pub fn new(opset: i64, hide: i64) -> G { G { m: Model::new(opset), vals: vec![], ins: vec![], attrs: vec![], hide, n: 0, known: (false, ""), alt: None, gen_known: (false, "") } }
    /// an abstract input; dimensions in `hide` are not declared
    pub fn decl(&mut self, name: &str, v: V) {
        let d: Vec<Dim> = v.s.iter().map(|d| { self.n += 1; if self.hide >> (self.n - 1) & 1 != 0 { Dim::Param("n") } else { Dim::Val(*d as i64) } }).collect();
        self.m.input(name, v.t, &d); self.vals.push((name.into(), v));
    }
    pub fn x(&mut self, name: &str, t: i32, s: &[usize]) { self.decl(name, V::vars(name, s, t)); self.ins.push(name.into()); }
    /// an integer operand: 0 initializer, 1 Constant node, 2 graph input, 3 scalar initializer
    pub fn i(&mut self, name: &str, v: &[i64], mode: i64) {
        let d: Vec<i64> = if mode == 3 || mode == 4 { vec![] } else { vec![v.len() as i64] };
        match mode {
            1 => { let t = Tensor::i64("", &d, v); self.m.node("Constant", &format!("c_{name}"), &[], &[name], &[Attr::Tensor("value", t.bytes())]); }
            2 | 4 => { let s: Vec<usize> = d.iter().map(|v| *v as usize).collect(); let w = V::ints(&s, v); self.m.input(name, 7, &d.iter().map(|v| Dim::Val(*v)).collect::<Vec<_>>()); self.vals.push((name.into(), w)); }
            _ => self.m.init(&Tensor::i64(name, &d, v)),
        }
        self.ins.push(name.into());
    }
    /// an integer operand that older opsets take as an attribute (mode 5)
    pub fn ia(&mut self, name: &str, attr: &'static str, v: &[i64], mode: i64) { if mode == 5 { self.a(Attr::Ints(attr, v.to_vec())); } else { self.i(name, v, mode); } }
    /// a float operand given as an initializer
    pub fn w(&mut self, name: &str, s: &[usize], v: &[f32]) { let d: Vec<i64> = s.iter().map(|v| *v as i64).collect(); self.m.init(&Tensor::f32(name, &d, v)); self.ins.push(name.into()); }
    pub fn weights(&mut self, name: &str, s: &[usize], from: f32) { let v: Vec<f32> = (0..numel(s)).map(|i| from + i as f32 * 0.25 + (i * i) as f32).collect(); self.w(name, s, &v); }
    pub fn no(&mut self) { self.ins.push(String::new()); }
    pub fn a(&mut self, a: Attr<'static>) { self.attrs.push(a); }
    pub fn go(&mut self, op: &str, outs: &[(&str, i32)]) {
        let ins: Vec<String> = std::mem::take(&mut self.ins); let i: Vec<&str> = ins.iter().map(|s| s.as_str()).collect(); let o: Vec<&str> = outs.iter().map(|s| s.0).collect(); let at = std::mem::take(&mut self.attrs);
        self.m.node(op, &format!("n{}", self.m.nodes.len()), &i, &o, &at);
    }
    pub fn out(&mut self, name: &str, t: i32) { self.m.output_noshape(name, t); }
    /// output declared with a rank
    pub fn out_r(&mut self, name: &str, t: i32, r: usize) { let d: Vec<Dim> = (0..r).map(|_| Dim::None).collect(); self.m.output(name, t, &d); }
    pub fn done(mut self, op: &str, outs: &[(&str, i32)]) -> Option<G> {
        self.go(op, outs);
        for (o, t) in outs { self.out(o, *t); }
        Some(self)
    }
}
/// the node as it would be in another opset, with a given axis
fn with_axis(m: &Model, opset: i64, axis: i64) -> Model { let mut m = m.clone(); m.opset = opset; let n = m.nodes.last_mut().unwrap(); n.attrs.0.retain(|a| a.0 != "axis"); n.attrs.0.push(("axis".into(), crate::ops::AV::I(axis))); m }
/// the lowest or the highest of a range of opsets with the same definition
fn os(g: &mut G, lo: i64, hi: i64) { g.m.opset = if flag("newer") { hi } else { lo }; }
pub fn fl(v: f32) -> u32 { v.to_bits() }
fn ints(n: &str, k: usize, lo: i64, hi: i64) -> Vec<i64> { (0..k).map(|i| int(&format!("{n}{i}"), lo, hi)).collect() }
pub fn shp(n: &str, r: usize, hi: i64) -> Vec<usize> { (0..r).map(|i| pk(&format!("{n}{i}"), 1, hi)).collect() }
pub const UN: [&str; 37] = ["Identity", "Neg", "Abs", "Reciprocal", "Sqrt", "Exp", "Log", "Ceil", "Floor", "Round", "Sign", "Erf", "Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Sinh", "Cosh", "Tanh", "Asinh", "Acosh", "Atanh", "Relu", "Sigmoid", "HardSwish", "Mish", "Softplus", "Softsign", "Gelu", "IsNaN", "LeakyRelu", "Elu", "Celu", "Selu", "Dropout"];
pub const BIN: [&str; 8] = ["Add", "Sub", "Mul", "Div", "Pow", "Mod", "PRelu", "BitwiseAnd"];
pub const CMP: [&str; 5] = ["Equal", "Less", "LessOrEqual", "Greater", "GreaterOrEqual"];
pub const RED: [&str; 10] = ["ReduceMax", "ReduceMin", "ReduceMean", "ReduceSum", "ReduceProd", "ReduceL1", "ReduceL2", "ReduceLogSum", "ReduceLogSumExp", "ReduceSumSquare"];

/// group 0: data movement; `h` hides dimensions, `v` is a variant
pub fn movement(c: i64, h: i64, v: i64) -> Option<G> {
    let mut g = G::new(18, h); let md = v / 100; let v = v % 100;
    match c {
        0 => { let (r, n) = ((v / 10) as usize, (v % 10) as usize); let s = shp("x", r, 3); g.x("x", F, &s); g.i("t", &ints("t", n, -1, 4), md); if flag("az") { g.a(Attr::Int("allowzero", 1)); } g.done("Reshape", &[("y", F)]) }
        1 => { let r = v as usize; let s = shp("x", r, 3); g.x("x", F, &s); if flag("def") { } else { g.a(Attr::Int("axis", int("axis", -(r as i64), r as i64))); } g.done("Flatten", &[("y", F)]) }
        2 => { let r = (v / 10) as usize; let n = (v % 10) as usize; let s: Vec<usize> = (0..r).map(|i| pk(&format!("x{i}"), 1, 2)).collect(); g.x("x", F, &s); if n > 0 { if md == 5 { os(&mut g, 1, 12); } g.ia("ax", "axes", &ints("ax", n, -(r as i64), r as i64 - 1), md); } g.done("Squeeze", &[("y", F)]) }
        3 => { let r = (v / 10) as usize; let n = (v % 10) as usize; let s = shp("x", r, 3); g.x("x", F, &s); if md == 5 { os(&mut g, 1, 12); } g.ia("ax", "axes", &ints("ax", n, -((r + n) as i64), (r + n) as i64 - 1), md); g.done("Unsqueeze", &[("y", F)]) }
        4 => { let r = v as usize; let s: Vec<usize> = [2, 3, 1, 2][..r].to_vec(); g.x("x", F, &s); if !flag("def") { g.a(Attr::Ints("perm", ints("p", r, 0, r as i64 - 1))); } g.done("Transpose", &[("y", F)]) }
        5 => { let (r, n) = ((v / 10) as usize, (v % 10) as usize); let s = shp("x", r, 3); g.x("x", F, &s); g.i("t", &ints("t", n, 1, 3), md); g.done("Expand", &[("y", F)]) }
        6 => { let r = v as usize; let s = shp("x", r, 2); g.x("x", F, &s); g.i("t", &ints("t", r, 1, 3), md); g.done("Tile", &[("y", F)]) }
        7 => { let r = (v / 10) as usize; let s = shp("x", r, 3); g.x("x", F, &s); if md == 5 { os(&mut g, 2, 10); } g.ia("p", "pads", &ints("p", 2 * r, 0, 2), md); match v % 10 { 0 => {} 1 if md == 5 => { g.a(Attr::Float("value", fl(1.5))); } 1 => { g.w("z", &[], &[1.5]); g.a(Attr::Str("mode", b"constant")); } 2 => g.a(Attr::Str("mode", b"edge")), 3 => g.a(Attr::Str("mode", b"reflect")), _ => { g.no(); g.i("ax", &ints("ax", r, -(r as i64), r as i64 - 1), 0); } } g.done("Pad", &[("y", F)]) }
        8 => { let (r, n) = ((v / 10) as usize, (v % 10) as usize); let s = shp("x", r, 4); g.x("x", F, &s); let w = flag("wide"); let big = |n: &str, i: usize| if w { [i64::MIN, i64::MAX, i64::MAX - 1, 0][pk(&format!("{n}w{i}"), 0, 3)] } else { int(&format!("{n}{i}"), -5, 5) };
            let (a, b): (Vec<i64>, Vec<i64>) = ((0..n).map(|i| int(&format!("s{i}"), -5, 5)).collect(), (0..n).map(|i| big("e", i)).collect()); if md == 5 { os(&mut g, 1, 9); } g.ia("s", "starts", &a, md); g.ia("e", "ends", &b, md); let k = pk("opt", 0, 2); if k > 0 { g.ia("a", "axes", &ints("a", n, -(r as i64), r as i64 - 1), md); } if k > 1 && md != 5 { let st: Vec<i64> = (0..n).map(|i| [1, 2, -1, -2][pk(&format!("st{i}"), 0, 3)]).collect(); g.gen_known = (st.iter().any(|v| *v < 0), "slice-negative-step"); g.i("st", &st, md); } g.done("Slice", &[("y", F)]) }
        9 => { let (r, n) = ((v / 10) as usize, (v % 10) as usize); let s = shp("x", r, 2); let ax = int("axis", -(r as i64), r as i64 - 1); let i = crate::ops::ax(ax, r)?; for q in 0..n { let mut t = s.clone(); t[i] = pk(&format!("n{q}"), 1, 2); g.x(&format!("x{q}"), F, &t); } g.a(Attr::Int("axis", ax)); g.done("Concat", &[("y", F)]) }
        10 => { let (r, n) = ((v / 10) as usize, (v % 10) as usize); let s: Vec<usize> = (0..r).map(|i| pk(&format!("x{i}"), 1, if i == 0 { 5 } else { 3 })).collect(); g.x("x", F, &s); let ax = int("axis", -(r as i64), r as i64 - 1); g.a(Attr::Int("axis", ax)); if md == 5 { os(&mut g, 2, 12); } if flag("sizes") { g.ia("sz", "split", &ints("sz", n, 0, 4), md); } else if md != 5 { g.a(Attr::Int("num_outputs", n as i64)); } else if s[crate::ops::ax(ax, r)?] % n != 0 { return None; } let o: Vec<String> = (0..n).map(|i| format!("y{i}")).collect(); let o: Vec<(&str, i32)> = o.iter().map(|s| (s.as_str(), F)).collect(); g.done("Split", &o) }
        11 => { let b = pk("b", 1, 2); let c = pk("c", 1, 2) * b * b; g.x("x", F, &[1, c, pk("h", 1, 2), pk("w", 1, 2)]); g.a(Attr::Int("blocksize", b as i64)); match pk("mode", 0, 2) { 0 => {} 1 => g.a(Attr::Str("mode", b"DCR")), _ => g.a(Attr::Str("mode", b"CRD")) } g.done("DepthToSpace", &[("y", F)]) }
        12 => { let b = pk("b", 1, 2); g.x("x", F, &[pk("n", 1, 2), pk("c", 1, 2), b * pk("h", 1, 2), b * pk("w", 1, 2)]); g.a(Attr::Int("blocksize", b as i64)); g.done("SpaceToDepth", &[("y", F)]) }
        13 => { let r = v as usize; let s = shp("x", r, 3); g.x("x", F, &s); if flag("start") { g.a(Attr::Int("start", int("st", -(r as i64) - 2, r as i64 + 2))); } if flag("end") { g.a(Attr::Int("end", int("en", -(r as i64) - 2, r as i64 + 2))); } g.done("Shape", &[("y", I)]) }
        14 => { let s = shp("x", v as usize, 3); g.x("x", F, &s); g.gen_known = (true, "size-does-not-compile"); g.done("Size", &[("y", I)]) }
        15 => { let n = v as usize; g.i("s", &ints("s", n, 1, 3), md); match pk("val", 0, 3) { 0 => {} 1 => g.a(Attr::Tensor("value", Tensor::f32("", &[1], &[2.5]).bytes())), 2 => g.a(Attr::Tensor("value", Tensor::i64("", &[1], &[int("fill", i64::MIN, i64::MAX)]).bytes())), _ => g.a(Attr::Tensor("value", Tensor::bools("", &[1], &[int("fill", 0, 1)]).bytes())) } g.done("ConstantOfShape", &[("y", F)]) }
        16 => { let t = [F, I][pk("t", 0, 1)]; g.x("x", t, &[pk("r", 1, 3), pk("c", 1, 3)]); if flag("kk") { g.a(Attr::Int("k", int("k", -3, 3))); } match pk("dt", 0, 2) { 0 => {} 1 => g.a(Attr::Int("dtype", 1)), _ => g.a(Attr::Int("dtype", 7)) } g.done("EyeLike", &[("y", t)]) }
        17 => { let r = v as usize; let mut s = shp("x", r, 3); if r > 2 { s[0] = 1; } g.x("x", F, &s); if flag("up") { g.a(Attr::Int("upper", int("upper", 0, 1))); } if flag("diag") { g.i("k", &[int("k", -3, 3)], if md == 0 { 3 } else { md }); } g.done("Trilu", &[("y", F)]) }
        18 => { let s = shp("x", v as usize, 2); g.x("x", [F, I, B][pk("t", 0, 2)], &s); g.done("Identity", &[("y", F)]) }
        _ => None,
    }
}
fn sym_int(g: &mut G, n: &'static str, d: usize, lo: i64, hi: i64) -> Vec<i64> { let v = ints(n, d, lo, hi); g.a(Attr::Ints(n, v.clone())); v }
fn autopad(g: &mut G, m: i64) { match m { 1 => g.a(Attr::Str("auto_pad", b"SAME_UPPER")), 2 => g.a(Attr::Str("auto_pad", b"SAME_LOWER")), 3 => g.a(Attr::Str("auto_pad", b"VALID")), _ => {} } }
/// group 1: windows and normalisation; v = dims + 10*auto_pad
pub fn spatial(c: i64, h: i64, v: i64) -> Option<G> {
    let mut g = G::new(22, h); let d = (v % 10) as usize; let ap = v / 10 % 10; let hi = [5, 5, 3, 2][d];
    match c {
        0 | 1 => { // Conv, ConvTranspose
            let gr = pk("g", 1, 2); let (cg, mg) = if d == 1 { (pk("cg", 1, 2), if gr == 1 { 2 } else { pk("mg", 1, 2) }) } else { (1, gr) }; let mut s = vec![1, cg * gr]; for i in 0..d { s.push(if d == 1 { pk(&format!("x{i}"), 3, hi) } else { [3, 2, 3][i] }); } g.x("x", F, &s);
            let kern: Vec<usize> = (0..d).map(|i| if d == 1 { pk(&format!("k{i}"), 1, 3) } else { [2, 1, 3][i] }).collect();
            let mut w = if c == 0 { vec![mg * gr, cg] } else { vec![cg * gr, mg] }; w.extend(&kern); g.weights("w", &w, 1.0); let opt = pk("opt", 0, 2); if opt > 0 { g.weights("b", &[mg * gr], 3.0); }
            if gr > 1 || opt == 1 { g.a(Attr::Int("group", gr as i64)); } if opt == 2 { g.a(Attr::Ints("kernel_shape", kern.iter().map(|v| *v as i64).collect())); }
            if c == 0 { let q = if d == 1 { pk("which", 0, 3) } else { pk("which", 0, 2) }; if q & 1 != 0 { sym_int(&mut g, "strides", d, 1, if d > 2 { 2 } else { 3 }); } if q & 2 != 0 { sym_int(&mut g, "dilations", d, 1, 2); } if ap == 0 && q == 0 { sym_int(&mut g, "pads", 2 * d, 0, if d == 1 { 2 } else { 1 }); } autopad(&mut g, ap); g.done("Conv", &[("y", F)]) }
            else { match pk("which", 0, 3) { 0 => { sym_int(&mut g, "strides", d, 1, 2); } 1 => { sym_int(&mut g, "dilations", d, 1, 2); } 2 => { let p = ints("pads", d, 0, 1); let mut q = p.clone(); q.extend(p); g.a(Attr::Ints("pads", q)); } _ => { g.a(Attr::Ints("strides", vec![2; d])); sym_int(&mut g, "output_padding", d, 0, 1); } } g.done("ConvTranspose", &[("y", F)]) }
        }
        2 | 3 => { // MaxPool, AveragePool
            let mut s = vec![1, pk("c", 1, 2)]; for i in 0..d { s.push(if d == 1 { pk(&format!("x{i}"), 3, hi) } else { [4, 3][i] }); } g.x("x", F, &s);
            let kern: Vec<i64> = (0..d).map(|i| if d == 1 { pk(&format!("k{i}"), 1, 3) as i64 } else { [2, 3][i] }).collect(); g.a(Attr::Ints("kernel_shape", kern));
            let q = pk("which", 0, 3); if q & 1 != 0 { sym_int(&mut g, "strides", d, 1, 3); } if q & 2 != 0 { sym_int(&mut g, "dilations", d, 1, 2); } if ap == 0 && q < 2 { sym_int(&mut g, "pads", 2 * d, 0, 1); } autopad(&mut g, ap);
            if ap == 0 && flag("ceil") { g.a(Attr::Int("ceil_mode", 1)); } if c == 3 && ap == 0 && flag("incl") { g.a(Attr::Int("count_include_pad", 1)); } g.done(if c == 2 { "MaxPool" } else { "AveragePool" }, &[("y", F)])
        }
        4 => { let mut s = vec![pk("n", 1, 2), 2]; s.extend(shp("x", d, 2)); g.x("x", F, &s); g.done("GlobalAveragePool", &[("y", F)]) }
        5 => { let mut s = vec![pk("n", 1, 2), pk("c", 1, 3)]; s.extend(shp("x", d, 2)); let c = s[1]; g.x("x", F, &s); for (i, n) in ["sc", "bi", "me", "va"].iter().enumerate() { if ap == 1 { g.x(n, F, &[c]); } else { g.weights(n, &[c], i as f32 + 1.0); } } if flag("eps") { g.a(Attr::Float("epsilon", fl([0.5, 0.001][pk("epsv", 0, 1)]))); } if flag("mom") { g.a(Attr::Float("momentum", fl(0.25))); } g.done("BatchNormalization", &[("y", F)]) }
        6 => { let mut s = vec![pk("n", 1, 2), pk("c", 1, 2)]; s.extend(shp("x", d, 2)); let c = s[1]; g.x("x", F, &s); for (i, n) in ["sc", "bi"].iter().enumerate() { g.weights(n, &[c], i as f32 + 1.0); } if flag("eps") { g.a(Attr::Float("epsilon", fl(0.5))); } g.done("InstanceNormalization", &[("y", F)]) }
        7 => { let s = shp("x", d, 3); let ax = int("axis", -(d as i64), d as i64 - 1); let i = crate::ops::ax(ax, d)?; g.x("x", F, &s); if flag("adef") { if i != d - 1 { return None; } } else { g.a(Attr::Int("axis", ax)); } g.weights("sc", &s[i..], 2.0); if flag("bias") { g.weights("bi", &s[i..], 5.0); } if flag("eps") { g.a(Attr::Float("epsilon", fl(0.5))); } g.done("LayerNormalization", &[("y", F)]) }
        8 => { let gr = pk("gr", 1, 2); let per = pk("per", 1, 2); let opset = if ap == 1 { 18 } else { 21 }; g.known = (opset == 18 && per > 1, "groupnorm-per-group"); g.m.opset = opset; let mut s = vec![1, gr * per]; s.extend(shp("x", d, 2)); g.x("x", F, &s); let n = if opset >= 21 { gr * per } else { gr }; g.weights("sc", &[n], 2.0); g.weights("bi", &[n], 5.0); g.a(Attr::Int("num_groups", gr as i64)); if flag("eps") { g.a(Attr::Float("epsilon", fl(0.5))); } g.done("GroupNormalization", &[("y", F)]) }
        _ => None,
    }
}
/// group 2: reductions, indexing and matrix products
pub fn indexing(c: i64, h: i64, v: i64) -> Option<G> {
    let mut g = G::new(20, h); let md = v / 1000; let v = v % 1000;
    match c {
        0 => { let op = RED[(v / 100) as usize]; let (r, n) = ((v / 10 % 10) as usize, (v % 10) as usize); let attr = md == 1; if attr { os(&mut g, 11, 12); } let s = if r > 2 { shp("x", r, 2) } else { shp("x", r, 3) }; g.x("x", F, &s); if n > 0 { let a = ints("a", n, -(r as i64), r as i64 - 1); if attr { g.a(Attr::Ints("axes", a)); } else { g.i("a", &a, 0); } } if flag("kd") { g.a(Attr::Int("keepdims", int("keep", 0, 1))); } g.done(op, &[("y", F)]) }
        1 | 2 => { let r = v as usize; let s = shp("x", r, 3); g.x("x", F, &s); if flag("ax") { g.a(Attr::Int("axis", int("axis", -(r as i64), r as i64 - 1))); } if flag("kd") { g.a(Attr::Int("keepdims", int("keep", 0, 1))); } if flag("sl") { g.a(Attr::Int("select_last_index", int("last", 0, 1))); } g.done(if c == 1 { "ArgMax" } else { "ArgMin" }, &[("y", I)]) }
        3 => { let r = v as usize; let s = shp("x", r, 3); g.x("x", F, &s); if md == 5 { os(&mut g, 1, 9); g.a(Attr::Int("k", int("k", 1, 3))); } else { g.i("k", &[int("k", 1, 3)], md); } if flag("ax") { g.a(Attr::Int("axis", int("axis", -(r as i64), r as i64 - 1))); } if flag("lg") { g.a(Attr::Int("largest", int("largest", 0, 1))); } if flag("so") { g.a(Attr::Int("sorted", int("sorted", 0, 1))); } g.done("TopK", &[("v", F), ("i", I)]) }
        4 => { let (r, q) = ((v / 10) as usize, (v % 10) as usize); let s = shp("x", r, 3); g.x("x", F, &s); let ax = int("axis", -(r as i64), r as i64 - 1); if flag("ad") { assume(ax == 0); } else { g.a(Attr::Int("axis", ax)); } let is = shp("i", q, 2); let iv = ints("iv", numel(&is), -3, 2); let d: Vec<i64> = is.iter().map(|v| *v as i64).collect(); if md == 0 { g.m.init(&Tensor::i64("i", &d, &iv)); g.ins.push("i".into()); } else { g.decl("i", V::ints(&is, &iv)); g.ins.push("i".into()); } g.done("Gather", &[("y", F)]) }
        5 => { let r = v as usize; let s = shp("x", r, 2); g.x("x", F, &s); let is = shp("i", r, 2); let iv = ints("iv", numel(&is), -2, 1); g.decl("i", V::ints(&is, &iv)); g.ins.push("i".into()); g.a(Attr::Int("axis", int("axis", -(r as i64), r as i64 - 1))); g.done("GatherElements", &[("y", F)]) }
        6 => { let (r, m) = ((v / 10 % 10) as usize, (v % 10) as usize); let s = shp("x", r, 2); g.x("x", F, &s); let b = (v / 100) as usize; let mut is: Vec<usize> = s[..b].to_vec(); is.push(pk("q", 1, 2)); is.push(m); let iv = ints("iv", numel(&is), -1, 1); g.decl("i", V::ints(&is, &iv)); g.ins.push("i".into()); if b > 0 { g.a(Attr::Int("batch_dims", b as i64)); } g.done("GatherND", &[("y", F)]) }
        7 => { let few = v >= 10; let r = (v % 10) as usize; let s = if few { vec![2; r] } else { shp("x", r, 2) }; g.x("x", F, &s); let is = shp("i", r, 2); if few && numel(&is) > 2 { return None; } for (a, b) in is.iter().zip(&s) { if a > b { return None; } } let iv = ints("iv", numel(&is), if few { -1 } else { -2 }, 1); g.decl("i", V::ints(&is, &iv)); g.ins.push("i".into()); g.x("u", F, &is); let axis = int("axis", -(r as i64), r as i64 - 1); g.a(Attr::Int("axis", axis)); let red = red_attr(&mut g); if few && red != 2 && red != 3 { return None; }
            if red < 2 { let d = (if axis < 0 { axis + r as i64 } else { axis }) as usize; let mut seen = vec![]; for (j, ix) in each(&is).into_iter().enumerate() { let mut ix = ix; let d = conc(d as i64) as usize; let n = s[d] as i64; ix[d] = conc(if iv[j] < 0 { iv[j] + n } else { iv[j] }) as usize; assume(!seen.contains(&ix)); seen.push(ix); } }
            if red < 3 { let mut off = false; for i in 0..r { off |= is[i] != s[i] && (axis != i as i64) & (axis + r as i64 != i as i64); } g.gen_known = (off, "scatter-elements-partial"); }
            g.done("ScatterElements", &[("y", F)]) }
        8 => { let (r, m) = ((v / 10 % 10) as usize, (v % 10) as usize); let s = shp("x", r, 2); g.x("x", F, &s); let q = pk("q", 1, 2); let iv = ints("iv", q * m, -1, 1); g.decl("i", V::ints(&[q, m], &iv)); g.ins.push("i".into()); let mut us = vec![q]; us.extend(&s[m..]); g.x("u", F, &us); red_attr(&mut g); g.done("ScatterND", &[("y", F)]) }
        9 => { let r = v as usize; let is = shp("i", r, 2); if flag("f") { g.decl("i", V::vars("i", &is, I)); } else { let iv = ints("iv", numel(&is), -3, 3); g.decl("i", V::ints(&is, &iv)); } g.ins.push("i".into()); g.i("d", &[int("d", 1, 3)], if md == 0 { 3 } else { md }); g.w("vals", &[2], &[0.25, 3.0]); if flag("ax") { g.a(Attr::Int("axis", int("axis", -(r as i64) - 1, r as i64))); } g.done("OneHot", &[("y", F)]) }
        10 => { for (i, n) in ["st", "li", "de"].iter().enumerate() { let x = [int("s", -3, 3), int("l", -3, 5), [1, 2, -1, -2][pk("dd", 0, 3)]][i]; g.i(n, &[x], if md == 0 { 3 } else { 4 }); } g.done("Range", &[("y", I)]) }
        11 => { let r = v as usize; let s = shp("x", r, 3); g.x("x", F, &s); g.i("a", &[int("a", -(r as i64), r as i64 - 1)], if md == 0 { [0, 3][pk("sc", 0, 1)] } else { md }); if flag("e") { g.a(Attr::Int("exclusive", int("ex", 0, 1))); } if flag("r") { g.a(Attr::Int("reverse", int("re", 0, 1))); } g.done("CumSum", &[("y", F)]) }
        12 | 13 => { if md > 0 { os(&mut g, 11, 12); } let r = v as usize; let s = shp("x", r, if r > 2 { 2 } else { 3 }); g.x("x", F, &s); let mut ax = if md > 0 { 1 } else { -1 }; if flag("ax") { ax = int("axis", -(r as i64), r as i64 - 1); g.a(Attr::Int("axis", ax)); } if md > 0 { g.known = ((ax != -1) & (ax != r as i64 - 1), "softmax-coerced"); } let mut g = g.done(if c == 12 { "Softmax" } else { "LogSoftmax" }, &[("y", F)])?; g.alt = Some(with_axis(&g.m, 13, ax)); Some(g) }
        14 => { let (a, b) = ((v / 10) as usize, (v % 10) as usize); let kk = pk("k", 1, 2); let mut s = shp("a", a - 1, 2); s.push(kk); let mut t = shp("b", b, 2); if b == 1 { t[0] = kk; } else { t[b - 2] = kk; } g.x("a", F, &s); if md == 0 { g.x("b", F, &t); } else { g.weights("b", &t, 1.0); } g.done("MatMul", &[("y", F)]) }
        15 => { let (n, kk, m) = (pk("n", 1, 2), pk("k", 1, 3), pk("m", 1, 2)); let (ta, tb) = (int("ta", 0, 1), int("tb", 0, 1)); let (tac, tbc) = (conc(ta) != 0, conc(tb) != 0); g.x("a", F, &if tac { [kk, n] } else { [n, kk] }); let bs = if tbc { [m, kk] } else { [kk, m] }; if md == 0 { g.x("b", F, &bs); } else { g.weights("b", &bs, 1.0); }
            let cs: Vec<usize> = match v { 0 => vec![], 1 => vec![m], 2 => vec![n, m], 3 => vec![n, 1], 4 => vec![1, m], _ => vec![1] }; if v > 0 { if md == 0 { g.x("c", F, &cs); } else { g.weights("c", &cs, 7.0); } } if tac || flag("tax") { g.a(Attr::Int("transA", ta)); } if tbc || flag("tbx") { g.a(Attr::Int("transB", tb)); } match pk("al", 0, 2) { 0 => {} 1 => g.a(Attr::Float("alpha", fl(1.0))), _ => g.a(Attr::Float("alpha", fl(0.5))) } match pk("be", 0, 2) { 0 => {} 1 => g.a(Attr::Float("beta", fl(1.0))), _ => g.a(Attr::Float("beta", fl(2.0))) } g.done("Gemm", &[("y", F)]) }
        16 => { let (l, m, e, w) = if v == 1 { (2, 2, 1, 1) } else { (pk("l", 1, 2), pk("m", 1, 3), pk("e", 1, 2), pk("w", 1, 2)) }; g.m.opset = 23; g.x("q", F, &[1, 2, l, e]); g.x("kx", F, &[1, 2, m, e]); g.x("v", F, &[1, 2, m, w]); let mask = flag("mask"); if mask { g.x("mask", [F, B][pk("mt", 0, 1)], &[l, m]); } if flag("sc") { g.a(Attr::Float("scale", fl([0.5, 1.0][pk("scv", 0, 1)]))); } if flag("ca") { let c = int("causal", 0, 1); g.gen_known = (mask & (c == 1), "attention-causal-mask"); g.a(Attr::Int("is_causal", c)); } if flag("so") { g.a(Attr::Float("softcap", fl(2.0))); } g.done("Attention", &[("y", F)]) }
        17 => { let r = v as usize; let s = shp("x", r, 2); g.x("x", F, &s); if flag("f") { g.decl("i", V::vars("i", &s, I)); } g.ins.truncate(1); if md > 0 { os(&mut g, 11, 12); } let mut ax = if md > 0 { 1 } else { -1 }; if flag("ax") { ax = int("axis", -(r as i64), r as i64 - 1); g.a(Attr::Int("axis", ax)); } if md > 0 { g.known = ((ax != -1) & (ax != r as i64 - 1), "hardmax-coerced"); } let mut g = g.done("Hardmax", &[("y", F)])?; g.alt = Some(with_axis(&g.m, 13, ax)); Some(g) }
        _ => None,
    }
}
fn red_attr(g: &mut G) -> usize { let red = pk("red", 0, 5); match red { 0 => {} 1 => g.a(Attr::Str("reduction", b"none")), 2 => g.a(Attr::Str("reduction", b"add")), 3 => g.a(Attr::Str("reduction", b"mul")), 4 => g.a(Attr::Str("reduction", b"max")), _ => g.a(Attr::Str("reduction", b"min")) }red }
/// group 3: elementwise operators
pub fn elementwise(c: i64, h: i64, v: i64) -> Option<G> {
    let mut g = G::new(20, h); let md = v / 10000; let v = v % 10000;
    match c {
        0 => { let op = BIN[(v / 100) as usize]; let (a, b) = ((v / 10 % 10) as usize, (v % 10) as usize); let t = if op == "BitwiseAnd" { I } else if op == "Mod" || md == 2 { I } else { F }; g.x("a", t, &shp("a", a, 2)); let bs = shp("b", b, 2); if op == "PRelu" { if b > a { return None; } for (i, d) in bs.iter().enumerate() { if *d != 1 && *d != g.vals[0].1.s[a - b + i] { return None; } if *d != 1 && a - b + i != 1 { g.gen_known = (true, "prelu-not-per-channel"); } } } if md == 1 || op == "PRelu" { g.weights("b", &bs, 2.0); } else { g.x("b", t, &bs); } if op == "Mod" && t == F && flag("fm") { g.a(Attr::Int("fmod", 1)); } g.done(op, &[("y", t)]) }
        1 => { let op = CMP[(v / 100) as usize]; let (a, b) = ((v / 10 % 10) as usize, (v % 10) as usize); g.x("a", F, &shp("a", a, 2)); let bs = shp("b", b, 2); if md == 1 { g.weights("b", &bs, 2.0); } else { g.x("b", F, &bs); } g.done(op, &[("y", B)]) }
        2 => { let op = ["And", "Or", "Xor"][(v / 100) as usize]; let (a, b) = ((v / 10 % 10) as usize, (v % 10) as usize); g.x("a", B, &shp("a", a, 2)); g.x("b", B, &shp("b", b, 2)); g.done(op, &[("y", B)]) }
        3 => { let op = UN[(v / 10) as usize]; let s = shp("x", (v % 10) as usize, 2); g.x("x", F, &s); match op { "LeakyRelu" | "Elu" | "Celu" | "Selu" => if flag("al") { g.a(Attr::Float("alpha", fl(0.5))); }, "Gelu" => match pk("ap", 0, 2) { 0 => {} 1 => g.a(Attr::Str("approximate", b"none")), _ => { g.a(Attr::Str("approximate", b"tanh")); g.known = (true, "gelu-tanh"); } }, _ => {} } let tanh = g.known.0; if op == "Selu" && flag("ga") { g.a(Attr::Float("gamma", fl(2.0))); } let mut g = g.done(op, &[("y", F)])?; if tanh { let mut m = g.m.clone(); m.nodes[0].attrs.0.clear(); g.alt = Some(m); } Some(g) }
        4 => { let s = shp("x", v as usize, 2); g.x("x", F, &s); if flag("al") { g.a(Attr::Float("alpha", fl(0.5))); } if flag("be") { g.a(Attr::Float("beta", fl(0.75))); } g.done("HardSigmoid", &[("y", F)]) }
        5 => { let s = shp("x", v as usize, 2); g.x("x", F, &s); if flag("al") { g.a(Attr::Float("alpha", fl(0.5))); } g.done("ThresholdedRelu", &[("y", F)]) }
        6 => { let s = shp("x", v as usize, 2); g.x("x", F, &s); let k = pk("k", 1, 3); if md == 2 { os(&mut g, 6, 10); if k & 1 != 0 { g.a(Attr::Float("min", fl(-1.5))); } if k & 2 != 0 { g.a(Attr::Float("max", fl(2.5))); } } else { if k & 1 != 0 { g.w("lo", &[], &[-1.5]); } else { g.no(); } if k & 2 != 0 { g.w("hi", &[], &[2.5]); } } g.done("Clip", &[("y", F)]) }
        7 => { let op = ["Max", "Min", "Sum", "Mean"][(v / 100) as usize]; let n = (v % 100 / 10) as usize; let r = (v % 10) as usize; for i in 0..n { let s = shp(&format!("s{i}"), if i == 0 { r } else { pk(&format!("r{i}"), 1, r as i64) }, 2); g.x(&format!("x{i}"), F, &s); } g.done(op, &[("y", F)]) }
        8 => { g.x("c", B, &shp("c", (v / 100) as usize, 2)); g.x("a", F, &shp("a", (v / 10 % 10) as usize, 2)); g.x("b", F, &shp("b", (v % 10) as usize, 2)); g.done("Where", &[("y", F)]) }
        9 => { let from = [F, I, B, 6][(v / 10) as usize]; let to = [1, 7, 9, 6, 11, 10, 2, 3][(v % 10) as usize]; g.x("x", from, &shp("x", 2, 2)); g.a(Attr::Int("to", to)); g.done("Cast", &[("y", to as i32)]) }
        10 => { g.x("x", B, &shp("x", v as usize, 2)); g.done("Not", &[("y", B)]) }
        11 => { g.x("x", F, &shp("x", v as usize, 2)); if flag("n") { g.a(Attr::Int("detect_negative", int("dn", 0, 1))); } if flag("p") { g.a(Attr::Int("detect_positive", int("dp", 0, 1))); } g.done("IsInf", &[("y", B)]) }
        12 => { let op = ["BitwiseAnd", "BitwiseOr", "BitwiseXor", "BitShift"][(v / 100) as usize]; let t = if v / 100 == 3 { 13 } else { I }; g.x("a", t, &shp("a", (v / 10 % 10) as usize, 2)); g.x("b", t, &shp("b", (v % 10) as usize, 2)); if v / 100 == 3 { g.a(Attr::Str("direction", if flag("l") { b"LEFT" } else { b"RIGHT" })); } g.done(op, &[("y", t)]) }
        13 => { let op = ["RandomNormal", "RandomUniform"][v as usize]; g.a(Attr::Ints("shape", ints("s", 2, 1, 3))); random_attrs(&mut g, v == 0); g.done(op, &[("y", F)]) }
        14 => { let op = ["RandomNormalLike", "RandomUniformLike", "Bernoulli"][v as usize]; g.x("x", F, &shp("x", 2, 2)); if v < 2 { random_attrs(&mut g, v == 0); } g.done(op, &[("y", F)]) }
        _ => None,
    }
}
fn random_attrs(g: &mut G, normal: bool) { let (a, b) = if normal { ("mean", "scale") } else { ("low", "high") }; if flag("ra") { g.a(Attr::Float(a, fl(0.25))); } if flag("rb") { g.a(Attr::Float(b, fl(3.0))); } }
pub fn case(group: i64, c: i64, h: i64, v: i64) -> Option<G> { match group { 0 => movement(c, h, v), 1 => spatial(c, h, v), 2 => indexing(c, h, v), _ => elementwise(c, h, v) } }
