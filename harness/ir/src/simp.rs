//! Graph rewriting (fusion, no-op elimination, the simplification passes)
//! preserves the meaning of a model.
//! args of `rewrite`: 0 pass, 1 hidden dims, 2 variant, 7 print
use crate::irsem::*;
use crate::semt::*;
use sem::cases::*;
use sem::pb::{Attr, Dim, Tensor};
use sem::{V, numel};
use symrt::*;

fn judge(g: &G) {
    let ins: Vec<(&str, V)> = g.vals.iter().map(|(a, b)| (a.as_str(), b.clone())).collect();
    panic_ok(true);
    let Some(r0) = parse(&g.m, false) else { cover("refused"); return };
    panic_ok(false);
    let Some(want) = sem::ops::run(&g.m, &ins) else { return };
    cover("imported");
    well_formed(&r0, &[]);
    let got = eval(&r0, &ins, true);
    check_known(got.is_some(), "the imported graph has no meaning", g.known.0, g.known.1);
    if let Some(got) = got { agree_known(&want, &got, "the imported graph computes something else", g.known); }
    panic_known(g.known.0, g.known.1);
    let r1 = parse(&g.m, true);
    panic_known(false, "");
    check_known(r1.is_some(), "simplification refuses a model that is otherwise imported", g.known.0, g.known.1);
    let Some(r1) = r1 else { return };
    if r1.nodes.len() < r0.nodes.len() { cover("simplified"); }
    if symbolic() || arg(7) != 0 { dump(&r0); dump(&r1); }
    well_formed(&r1, &[]);
    let got = eval(&r1, &ins, true);
    check_known(got.is_some(), "the simplified graph has no meaning", g.known.0, g.known.1);
    if let Some(got) = got { agree_known(&want, &got, "simplification changes what the model computes", g.known); }
}
fn dump(g: &onnx_ir::OnnxGraph) {
    if arg(7) == 0 { return; }
    let f = |a: &onnx_ir::Argument| format!("{}:{:?}:{:?}", a.name, a.ty, a.value_source);
    for n in &g.nodes { print(&format!("{} = {}({})", n.outputs().iter().map(f).collect::<Vec<_>>().join(" , "), n.name(), n.inputs().iter().map(f).collect::<Vec<_>>().join(" , "))); }
    print("--");
}
/// one node with given operands and outputs
fn n(g: &mut G, op: &str, ins: &[&str], outs: &[&str], at: &[Attr]) { let k = g.m.nodes.len(); g.m.node(op, &format!("node_{k}"), ins, outs, at); }
fn fconst(g: &mut G, name: &str, s: &[usize], v: f32, md: usize) {
    let d: Vec<i64> = s.iter().map(|v| *v as i64).collect(); let t = Tensor::f32(name, &d, &(0..numel(s)).map(|i| v * (1 << i) as f32).collect::<Vec<_>>());
    if md == 1 { n(g, "Constant", &[], &[name], &[Attr::Tensor("value", t.bytes())]); } else { g.m.init(&t); }
}
fn perm(p: &[i64]) -> Attr<'static> { Attr::Ints("perm", p.to_vec()) }

/// scaled dot-product attention written with primitive operators
fn attention(h: i64, v: i64) -> Option<G> {
    let mut g = G::new(if v == 5 { 11 } else { 18 }, h);
    let d = [1, 4][pk("d", 0, 1)]; let (hd, s, m, w) = (1, 2, 2, 1); let mut pre = false;
    if v == 7 { // any permutation of the keys
        let z: Vec<i64> = (0..4).map(|i| pick(&format!("p{i}"), 0, 3)).collect(); for i in 0..4 { for j in 0..i { assume(z[i] != z[j]); } }
        for x in ["q", "k", "v"] { g.x(x, F, &[2, 2, 2, 2]); } g.ins.clear();
        n(&mut g, "Transpose", &["k"], &["kt"], &[perm(&z)]); n(&mut g, "MatMul", &["q", "kt"], &["t"], &[]); fconst(&mut g, "c", &[], 2.0, 0); n(&mut g, "Mul", &["t", "c"], &["u"], &[]);
        n(&mut g, "Softmax", &["u"], &["p"], &[Attr::Int("axis", -1)]); n(&mut g, "MatMul", &["p", "v"], &["y"], &[]); g.out("y", F); return Some(g);
    }
    let kp = if v == 0 { pk("kp", 0, 3) } else { 0 };
    let two = v == 3 || v == 6;
    if v == 4 {
        // both operands transposed from [b, s, h, d] and scaled by the same scalar
        g.x("q", F, &[1, s, hd, d]); g.x("k", F, &[1, m, hd, d]); g.x("v", F, &[1, hd, m, w]);
        n(&mut g, "Transpose", &["q"], &["q1"], &[perm(&[0, 2, 1, 3])]);
        n(&mut g, "Transpose", &["k"], &["k1"], &[perm(&[0, 2, 3, 1])]);
        let ck = pk("ck", 0, 4); pre = true; g.known = (ck == 2 || ck == 3, "attention-dynamic-prescale"); let cs: &[usize] = if flag("c1") { &[1] } else { &[] };
        match ck { 0 | 1 => fconst(&mut g, "c", cs, [2.0, 0.5][ck], 0), 2 => { fconst(&mut g, "c0", cs, 4.0, 0); n(&mut g, "Sqrt", &["c0"], &["c"], &[]); } 3 => { g.x("c", F, cs); } _ => fconst(&mut g, "c", &[1, 1, 1, 1], 2.0, 0) }
        g.ins.clear();
        let (l, r) = (flag("ql"), flag("kl"));
        n(&mut g, "Mul", if l { &["c", "q1"] } else { &["q1", "c"] }, &["q2"], &[]);
        n(&mut g, "Mul", if r { &["c", "k1"] } else { &["k1", "c"] }, &["k2"], &[]);
        n(&mut g, "MatMul", &["q2", "k2"], &["t"], &[]);
    } else {
        g.x("q", F, &[1, hd, s, d]); g.ins.clear();
        // key and the permutation that is applied to it
        let (ks, p): (Vec<usize>, Vec<i64>) = match kp { 0 => (vec![1, hd, m, d], vec![0, 1, 3, 2]), 1 => (vec![1, m, hd, d], vec![0, 2, 3, 1]), 2 => (vec![1, d, hd, m], vec![0, 2, 1, 3]), _ => (vec![m, d, hd, 1], vec![3, 2, 1, 0]) };
        g.x("k", F, &ks); g.x("v", F, &[1, hd, m, w]); g.ins.clear();
        n(&mut g, "Transpose", &["k"], &["kt"], &if kp == 3 && flag("pd") { vec![] } else { vec![perm(&p)] });
        let mut q = "q";
        if two {
            let sh: Vec<usize> = match pk("qs", 0, 3) { 0 => vec![], 1 => vec![1], 2 => vec![d], _ => vec![1, 1, 1, 1] };
            if flag("qc") { g.x("qc", F, &sh); g.ins.clear(); } else { pre = numel(&sh) == 1; fconst(&mut g, "qc", &sh, 0.5, pk("qm", 0, 1)); }
            n(&mut g, "Mul", if flag("ql") { &["qc", "q"] } else { &["q", "qc"] }, &["q2"], &[]); q = "q2";
        }
        n(&mut g, "MatMul", &[q, "kt"], &["t"], &[]);
    }
    let mut t = "t";
    let sk = if v == 1 || v == 4 { pk("sk", 0, 1) } else { pk("sk", 0, 3) };
    if !pre && sk == 0 && d != 1 { g.known = (true, "attention-default-scale"); }
    if sk > 0 {
        let sh: Vec<usize> = match if v == 0 { pk("ss", 0, 4) } else { 0 } { 0 => vec![], 1 => vec![1], 2 => vec![1, 1, 1, 1], 3 => vec![m], _ => vec![1, 1, 1, 1, 1] };
        let d: Vec<i64> = sh.iter().map(|v| *v as i64).collect();
        let vals: Vec<f32> = (0..numel(&sh)).map(|i| 2.0 * (i + 1) as f32).collect(); g.m.init(&Tensor::f32("c1", &d, &vals));
        match sk { 1 => n(&mut g, "Div", &["t", "c1"], &["u"], &[]), 2 => n(&mut g, "Mul", &["t", "c1"], &["u"], &[]), _ => n(&mut g, "Mul", &["c1", "t"], &["u"], &[]) }
        t = "u";
    }
    if v == 1 || v == 2 {
        let ms: Vec<usize> = if v == 2 { vec![s, m] } else { match pk("ms", 0, 4) { 0 => vec![s, m], 1 => vec![1, 1, s, m], 2 => vec![1, hd, 1, m], 3 => vec![m], _ => vec![] } };
        g.x("mask", F, &ms); g.ins.clear();
        let ml = if flag("ml") { ["mask", t] } else { [t, "mask"] }; n(&mut g, "Add", &ml, &["w"], &[]); t = "w";
    }
    let at = match if v == 0 || v == 5 { pk("ax", 0, 3) } else { 1 } { 0 => vec![], 1 => vec![Attr::Int("axis", -1)], 2 => vec![Attr::Int("axis", 3)], _ => vec![Attr::Int("axis", 2)] };
    if v == 5 && (at.is_empty() || matches!(at[0], Attr::Int(_, 2))) { g.known = (true, "softmax-coerced"); }
    n(&mut g, "Softmax", &[t], &["p"], &at);
    if v == 6 { n(&mut g, "MatMul", &["p", "p"], &["z"], &[]); if s != m { return None; } g.out("z", F); n(&mut g, "MatMul", &["p", "v"], &["y"], &[]); g.out("y", F); return Some(g); }
    n(&mut g, "MatMul", &["p", "v"], &["y"], &[]); g.out("y", F);
    if v == 4 && flag("to") { g.out("t", F); }
    if v == 2 {
        let e = ["kt", "t", "u", "w", "p"][pk("e", 0, 4)]; if e == "u" && sk == 0 { return None; }
        if flag("eo") { g.out(e, F); } else { n(&mut g, "Neg", &[e], &["z"], &[]); g.out("z", F); }
    }
    Some(g)
}
/// Reshape to a permutation of the input's own dimensions
fn permute(h: i64, v: i64) -> Option<G> {
    let mut g = G::new(18, h); let (r, k) = ((v % 100 / 10) as usize, (v % 10) as usize); let md = v / 100;
    let s = shp("x", r, 3); g.x("x", F, &s); g.ins.clear();
    let st = if md == 1 { int("st", -1, 1) } else { 0 };
    let mut at = vec![]; if md == 1 { at.push(Attr::Int("start", st)); }
    n(&mut g, "Shape", &["x"], &["sh"], &at);
    let mut parts = vec![]; let mut idx = vec![];
    for i in 0..k {
        let ix = int(&format!("i{i}"), -(r as i64), r as i64 - 1); idx.push(ix);
        g.m.init(&Tensor::i64(&format!("i{i}"), &[], &[ix]));
        n(&mut g, "Gather", &["sh", &format!("i{i}")], &[&format!("g{i}")], &[Attr::Int("axis", 0)]);
        if i == 0 { g.m.init(&Tensor::i64("zero", &[1], &[0])); }
        n(&mut g, "Unsqueeze", &[&format!("g{i}"), "zero"], &[&format!("u{i}")], &[]);
        parts.push(format!("u{i}"));
    }
    let p: Vec<&str> = parts.iter().map(|s| s.as_str()).collect();
    n(&mut g, "Concat", &p, &["t"], &[Attr::Int("axis", 0)]);
    n(&mut g, "Reshape", &["x", "t"], &["y"], &[]); g.out("y", F);
    let mut id = true; for (i, x) in idx.iter().enumerate() { id &= (*x == i as i64) | (*x == i as i64 - r as i64); }
    // only the complete permutation of a full Shape is affected
    g.known = (k == r && st == 0 && !id, "permute-reshape");
    Some(g)
}
/// Shape followed by Gather or Slice
fn const_shape(h: i64, v: i64) -> Option<G> {
    let mut g = G::new(18, h); let (k, r, u) = (v / 100, (v / 10 % 10) as usize, v % 10);
    let s = shp("x", r, 2); g.x("x", F, &s); g.ins.clear(); let q = r as i64;
    let mut at = vec![]; if k < 3 && flag("st") { at.push(Attr::Int("start", int("start", -q - 1, q))); } if k < 3 && flag("en") { at.push(Attr::Int("end", int("end", -q - 1, q + 1))); }
    n(&mut g, "Shape", &["x"], &["sh"], &at);
    if k == 0 {
        let m = pk("im", 0, 2); let ix: Vec<i64> = (0..if m == 2 { 2 } else { 1 }).map(|i| int(&format!("i{i}"), -q, q - 1)).collect();
        g.m.init(&Tensor::i64("ix", &if m == 0 { vec![] } else { vec![ix.len() as i64] }, &ix));
        n(&mut g, "Gather", &["sh", "ix"], &["t"], &if flag("ga") { vec![Attr::Int("axis", int("gax", -1, 0))] } else { vec![] });
    } else {
        let big = if k == 4 { int("e", 0, q) } else { [int("e", -q - 1, q + 1), i64::MAX, i64::MIN][if k >= 2 { pk("big", 0, 2) } else { 0 }] };
        g.m.init(&Tensor::i64("b", &[1], &[if k == 4 { int("b", -1, 1) } else { int("b", -q - 1, q + 1) }])); g.m.init(&Tensor::i64("e", &[1], &[big]));
        let mut ins = vec!["sh", "b", "e"];
        if k >= 2 || flag("ax") { g.m.init(&Tensor::i64("a", &[1], &[if k == 4 { 0 } else { int("a", -1, 0) }])); ins.push("a"); if k >= 2 { g.m.init(&Tensor::i64("p", &[1], &[if k == 4 { [2, -2][pk("p", 0, 1)] } else { [1, 2, -1, -2][pk("p", 0, 3)] }])); ins.push("p"); } }
        n(&mut g, "Slice", &ins, &["t"], &[]);
    }
    // what consumes the folded value
    match u {
        0 => g.out("t", I),
        1 => { n(&mut g, "Mul", &["t", "t"], &["y"], &[]); g.out("y", I); }
        2 => { g.m.init(&Tensor::i64("c", &[1], &[3])); n(&mut g, "Add", &["t", "c"], &["y"], &[]); g.out("y", I); }
        3 => { n(&mut g, "Cast", &["t"], &["c"], &[Attr::Int("to", 1)]); n(&mut g, "Add", &["c", "x"], &["y"], &[]); g.out("y", F); }
        _ => { g.m.init(&Tensor::i64("m1", &[1], &[-1])); n(&mut g, "Reshape", &["t", "m1"], &["t1"], &[]); n(&mut g, "Concat", &["t1", "m1"], &["c"], &[Attr::Int("axis", 0)]); n(&mut g, "Reshape", &["x", "c"], &["y"], &[]); g.out("y", F); }
    }
    Some(g)
}
fn ic(g: &mut G, name: &str, s: &[usize], t: i32, lo: i64, hi: i64) -> Vec<i64> {
    let d: Vec<i64> = s.iter().map(|v| *v as i64).collect();
    let v: Vec<i64> = (0..numel(s)).map(|i| int(&format!("{name}{i}"), lo, hi)).collect();
    if t == 6 { let mut raw = vec![]; for x in &v { raw.extend_from_slice(&(*x as i32).to_le_bytes()); } g.m.init(&Tensor { name: name.into(), dims: d, dtype: 6, raw: Some(raw), ..Default::default() }); } else { g.m.init(&Tensor::i64(name, &d, &v)); }
    v
}
/// operators on constants
fn fold(h: i64, v: i64) -> Option<G> {
    let mut g = G::new(18, h); let (k, u) = (v / 100, v % 100);
    let shapes: [&[usize]; 6] = [&[], &[1], &[2], &[1, 2], &[2, 1], &[1, 1]];
    let mut t = I; let mut full = false; let opn = ["Add", "Sub", "Mul", "Div"];
    match k {
        // integer sums over the whole range
        0 => { let (a, b) = (shapes[(u / 10) as usize], shapes[(u % 10) as usize]); ic(&mut g, "a", a, I, i64::MIN, i64::MAX); ic(&mut g, "b", b, I, i64::MIN, i64::MAX); n(&mut g, opn[pk("op", 0, 1)], &["a", "b"], &["t"], &[]); full = true; }
        // smaller integers, every pair of shapes, both integer types
        1 => { t = if u >= 60 { 6 } else { I }; let (a, b) = (shapes[(u % 6) as usize], shapes[pk("bs", 0, 5)]); let o = pk("op", 0, 3);
            if o == 3 { let q = pk("q", 0, 4); let y = [[-7, 5], [9, -2], [0, 1], [3, 3], [-8, -9]][q]; let z = [[2, -3], [-4, 7], [1, -1], [0, 2], [-2, 3]][q]; for (nm, sh, v) in [("a", a, y), ("b", b, z)] { let d: Vec<i64> = sh.iter().map(|v| *v as i64).collect(); let v = &v[..numel(sh)]; if t == 6 { let mut raw = vec![]; for x in v { raw.extend_from_slice(&(*x as i32).to_le_bytes()); } g.m.init(&Tensor { name: nm.into(), dims: d, dtype: 6, raw: Some(raw), ..Default::default() }); } else { g.m.init(&Tensor::i64(nm, &d, v)); } } }
            else { ic(&mut g, "a", a, t, -2, 1); ic(&mut g, "b", b, t, -1, 2); }
            n(&mut g, opn[o], &["a", "b"], &["t"], &[]); full = numel(a) + numel(b) > 2; }
        2 => { t = F; let (a, b) = (shapes[(u % 6) as usize], shapes[pk("bs", 0, 5)]); g.w("a", a, &[1.5, -2.0][..numel(a)]); g.w("b", b, &[4.0, 0.5][..numel(b)]); g.ins.clear(); n(&mut g, opn[pk("op", 0, 3)], &["a", "b"], &["t"], &[]); }
        3 => { t = [I, 6, F][(u / 10) as usize]; let a = shapes[(u % 10) as usize]; if t == F { g.w("a", a, &[1.5, -2.0][..numel(a)]); g.ins.clear(); } else if t == 6 { ic(&mut g, "a", a, 6, i32::MIN as i64 + 1, i32::MAX as i64); full = true; } else { ic(&mut g, "a", a, I, i64::MIN, i64::MAX); full = true; } n(&mut g, "Neg", &["a"], &["t"], &[]); }
        4 => { t = F; let a = shapes[u as usize]; g.w("a", a, &[2.25, 16.0][..numel(a)]); g.ins.clear(); n(&mut g, "Sqrt", &["a"], &["t"], &[]); }
        5 => { let (from, to) = ([I, 6, F, B][(u / 10) as usize], [I, 6, F, 11, B, 2][(u % 10) as usize]); t = to; let a = shapes[pk("as", 0, 3)]; let l = numel(a); match from { F => { let w: Vec<f32> = (0..l).map(|i| [1.5, -2.0, 0.0, -0.75][pk(&format!("f{i}"), 0, 3)]).collect(); g.w("a", a, &w); g.ins.clear(); } B => { let w: Vec<i64> = (0..l).map(|i| int(&format!("f{i}"), 0, 1)).collect(); let d: Vec<i64> = a.iter().map(|v| *v as i64).collect(); g.m.init(&Tensor::bools("a", &d, &w)); } _ => { ic(&mut g, "a", a, from, -2, 2); } } n(&mut g, "Cast", &["a"], &["t"], &[Attr::Int("to", to as i64)]); }
        6 => { full = true; let r = (u / 10) as usize; let ax = int("ax", -(r as i64), r as i64 - 1); let (a, b): (&[usize], &[usize]) = match u { 10 => (&[2], &[1]), 20 => (&[1, 2], &[1, 2]), 21 => (&[2, 1], &[2, 1]), _ => (&[1, 2], &[2, 2]) }; ic(&mut g, "a", a, I, i64::MIN, i64::MAX); ic(&mut g, "b", b, I, i64::MIN, i64::MAX); n(&mut g, "Concat", &["a", "b"], &["t"], &[Attr::Int("axis", ax)]); }
        _ => { full = true; let a = shapes[u as usize]; let r = a.len() as i64; ic(&mut g, "a", a, I, i64::MIN, i64::MAX);
            match pk("op", 0, 2) {
                0 => { g.m.init(&Tensor::i64("ax", &[1], &[int("ax", -r - 1, r)])); n(&mut g, "Unsqueeze", &["a", "ax"], &["t"], &[]); }
                1 => { if r == 0 { return None; } g.m.init(&Tensor::i64("ax", &[1], &[int("ax", -r, r - 1)])); n(&mut g, "Squeeze", &["a", "ax"], &["t"], &[]); }
                _ => { let q = pk("q", 1, 2); let l: Vec<i64> = (0..q).map(|i| int(&format!("q{i}"), -1, 2)).collect(); g.m.init(&Tensor::i64("ax", &[q as i64], &l)); n(&mut g, "Reshape", &["a", "ax"], &["t"], &[]); }
            } }
    }
    // the folded value as a graph output, and as an operand next to a run-time value
    match if full { 0 } else { pk("use", 0, 2) } {
        0 => g.out("t", t),
        1 if t != B && t != 2 => { g.x("x", t, &[1, 2]); g.ins.clear(); n(&mut g, "Mul", &["x", "t"], &["y"], &[]); g.out("y", t); }
        2 if t != B && t != 2 => { n(&mut g, "Neg", &["t"], &["z"], &[]); g.x("x", t, &[2]); g.ins.clear(); n(&mut g, "Add", &["z", "x"], &["y"], &[]); g.out("y", t); g.out("z", t); }
        _ => return None,
    }
    Some(g)
}
const IDEMP: [&str; 9] = ["Relu", "Ceil", "Floor", "Round", "Sign", "Abs", "Neg", "Sqrt", "Tanh"];
/// chains of unary operators
fn idempotent(h: i64, _v: i64) -> Option<G> {
    let mut g = G::new(18, h); g.x("x", F, &[2]); g.ins.clear(); let (a, b) = (pk("a", 0, 8), pk("b", 0, 8));
    let l = pk("len", 2, 3); let mut p = "x".to_string();
    for i in 0..l { let o = format!("t{i}"); let op = IDEMP[if i == 0 { a } else if i == 1 { b } else { [a, b][pk("c", 0, 1)] }]; n(&mut g, op, &[&p], &[&o], &[]); p = o; }
    match pk("use", 0, 3) { 0 => {} 1 => { n(&mut g, "Exp", &[&p], &["y"], &[]); p = "y".into(); } 2 => { n(&mut g, "Add", &[&p, "t0"], &["y"], &[]); p = "y".into(); } _ => { n(&mut g, "Exp", &["t1"], &["y"], &[]); g.out("y", F); } }
    g.out(&p, F); Some(g)
}
/// binary operators with a constant operand
fn identity(h: i64, v: i64) -> Option<G> {
    let mut g = G::new(18, h); let t = if v >= 100 { I } else { F }; let v = v % 100; let xs: &[usize] = [&[][..], &[1], &[2], &[1, 2], &[2, 1]][v as usize];
    g.x("x", t, xs); g.ins.clear();
    let op = ["Add", "Sub", "Mul", "Div", "Pow"][pk("op", 0, 4)];
    let cs: &[usize] = [&[][..], &[1], &[2], &[1, 1], &[1, 2], &[2, 2], &[1, 1, 1]][pk("cs", 0, 6)]; let d: Vec<i64> = cs.iter().map(|v| *v as i64).collect();
    let c = pk("c", 0, 2); let mut l = vec![[0.0, 1.0, 2.0][c]; numel(cs)]; if l.len() > 1 && flag("mix") { l[1] = 3.0; }
    if t == F { g.m.init(&Tensor::f32("c", &d, &l)); } else { let w: Vec<i64> = l.iter().map(|v| *v as i64).collect(); g.m.init(&Tensor::i64("c", &d, &w)); }
    let f = flag("flip"); if f && op == "Div" && t == I { return None; } if !f && t == I && op == "Div" && c == 0 { return None; } if t == I && op == "Pow" { return None; }
    n(&mut g, op, if f { &["c", "x"] } else { &["x", "c"] }, &["y"], &[]);
    match pk("use", 0, 2) { 0 => g.out("y", t), 1 => { n(&mut g, "Neg", &["y"], &["z"], &[]); g.out("z", t); } _ => { n(&mut g, "Add", &["y", "x"], &["z"], &[]); g.out("z", t); g.out("y", t); } }
    Some(g)
}
/// pairs of nodes that are the same or differ in one respect
fn redundant(h: i64, v: i64) -> Option<G> {
    let mut g = G::new(18, h); g.x("x", F, &[2, 2]); g.x("w", F, &[2, 2]); g.ins.clear(); let at = |n: &str| -> i64 { int(n, 0, 1) };
    match v {
        0 => { for i in 0..2 { n(&mut g, "Softmax", &["x"], &[&format!("t{i}")], &[Attr::Int("axis", at(&format!("a{i}")))]); } n(&mut g, "Sub", &["t0", "t1"], &["y"], &[]); }
        1 => { let ops = ["Sub", "Add", "MatMul", "Mul"]; for i in 0..2 { let f = flag(&format!("f{i}")); n(&mut g, ops[pk(&format!("o{i}"), 0, 3)], if f { &["x", "w"] } else { &["w", "x"] }, &[&format!("t{i}")], &[]); } n(&mut g, "Div", &["t0", "t1"], &["y"], &[]); }
        2 => { let op = ["RandomNormalLike", "RandomUniformLike", "Bernoulli", "Relu"][pk("o", 0, 3)]; for i in 0..2 { n(&mut g, op, &["x"], &[&format!("t{i}")], &[]); } n(&mut g, "Sub", &["t0", "t1"], &["y"], &[]); }
        3 => { for i in 0..2 { n(&mut g, "Split", &["x"], &[&format!("a{i}"), &format!("b{i}")], &[Attr::Int("axis", at(&format!("s{i}"))), Attr::Int("num_outputs", 2)]); } n(&mut g, "Mul", &["a0", "b0"], &["m0"], &[]); n(&mut g, "Mul", &["a1", "b1"], &["m1"], &[]); n(&mut g, "Add", &["m0", "m1"], &["y"], &[]); }
        4 => { n(&mut g, "Shape", &["x"], &["sh"], &[]); let vals = [1.0f32, -1.0, 2.0, 4.0]; for i in 0..2 { let t = Tensor::f32("", &[1], &[vals[pk(&format!("v{i}"), 0, 3)]]); n(&mut g, "ConstantOfShape", &["sh"], &[&format!("t{i}")], &[Attr::Tensor("value", t.bytes())]); } n(&mut g, "Sub", &["t0", "t1"], &["y0"], &[]); n(&mut g, "Add", &["y0", "x"], &["y"], &[]); }
        5 => { for i in 0..2 { let c = format!("c{i}"); fconst(&mut g, &c, if flag(&format!("s{i}")) { &[1] } else { &[2] }, [2.0, 3.0][pk(&format!("v{i}"), 0, 1)], pk(&format!("m{i}"), 0, 1)); n(&mut g, "Mul", &["x", &c], &[&format!("t{i}")], &[]); } n(&mut g, "Sub", &["t0", "t1"], &["y"], &[]); }
        6 => { for i in 0..2 { n(&mut g, ["ReduceSum", "ReduceMax"][pk(&format!("o{i}"), 0, 1)], &["x"], &[&format!("t{i}")], &[Attr::Int("keepdims", at(&format!("k{i}")))]); } n(&mut g, "Add", &["t0", "t1"], &["y"], &[]); }
        7 => { for i in 0..2 { n(&mut g, "LeakyRelu", &["x"], &[&format!("t{i}")], &[Attr::Float("alpha", fl([0.5, 0.25][pk(&format!("k{i}"), 0, 1)]))]); } n(&mut g, "Sub", &["t0", "t1"], &["y"], &[]); }
        8 => { for i in 0..2 { n(&mut g, "Cast", &["x"], &[&format!("t{i}")], &[Attr::Int("to", [11, 7][pk(&format!("k{i}"), 0, 1)])]); n(&mut g, "Cast", &[&format!("t{i}")], &[&format!("u{i}")], &[Attr::Int("to", 1)]); } n(&mut g, "Sub", &["u0", "u1"], &["y"], &[]); }
        9 => { for i in 0..2 { let mut a = vec![]; if flag(&format!("l{i}")) { a.push(Attr::Int("largest", 1)); } if flag(&format!("a{i}")) { a.push(Attr::Int("axis", at(&format!("ax{i}")))); } g.m.init(&Tensor::i64(&format!("k{i}"), &[1], &[int(&format!("k{i}"), 1, 2)])); n(&mut g, "TopK", &["x", &format!("k{i}")], &[&format!("v{i}"), &format!("i{i}")], &a); } g.out("v0", F); g.out("i1", I); g.out("v1", F); return Some(g); }
        _ => { for i in 0..2 { let mut a = vec![]; if flag(&format!("e{i}")) { a.push(Attr::Ints("axes", vec![])); } let c = flag(&format!("w{i}")); n(&mut g, ["Transpose", "Flatten"][pk(&format!("o{i}"), 0, 1)], &[if c { "w" } else { "x" }], &[&format!("t{i}")], &if pk(&format!("p{i}"), 0, 1) == 1 { vec![] } else { a }); } n(&mut g, "Sub", &["t0", "t1"], &["y"], &[]); }
    }
    match pk("use", 0, 1) { 0 => g.out("y", F), _ => { g.out("y", F); if v == 0 || v == 1 || v == 5 || v == 7 { g.out("t1", F); } else { return None; } } }
    Some(g)
}
/// nodes that do nothing: 0 single, 1 chain of two, with every kind of producer and consumer
fn noop(h: i64, v: i64) -> Option<G> {
    let mut g = G::new(18, h); let s = [2usize, 3]; let src = pk("src", 0, 2);
    g.x("x", F, &s); g.ins.clear();
    match src { 0 => {} 1 => n(&mut g, "Relu", &["x"], &["r"], &[]), _ => g.m.init(&Tensor::f32("r", &[2, 3], &[1.0, 2.0, 3.0, 4.0, 5.0, 6.0])) }
    let mut p = if src == 0 { "x".to_string() } else { "r".to_string() };
    let len = if v == 1 { 2 } else if v == 2 { 3 } else { 1 }; let mut outs = vec![];
    for i in 0..len {
        let o = format!("n{i}"); let k = if v == 2 { [0, 4, 6][pk(&format!("k{i}"), 0, 2)] } else { pk(&format!("k{i}"), 0, 11) };
        match k {
            0 => n(&mut g, "Identity", &[&p], &[&o], &[]),
            1 => { let c = format!("dr{i}"); g.m.init(&Tensor::f32(&c, &[], &[0.5])); n(&mut g, "Dropout", &[&p, &c], &[&o], &[]) }
            2 => n(&mut g, "Cast", &[&p], &[&o], &[Attr::Int("to", 1)]),
            3 => n(&mut g, "Transpose", &[&p], &[&o], &[perm(&if flag(&format!("id{i}")) { [0, 1] } else { [1, 0] })]),
            4 => n(&mut g, "Flatten", &[&p], &[&o], &[Attr::Int("axis", int(&format!("fa{i}"), -2, 2))]),
            5 => { let c = format!("rs{i}"); let l = [int(&format!("ra{i}"), -1, 3), int(&format!("rb{i}"), -1, 3)]; g.m.init(&Tensor::i64(&c, &[2], &l)); n(&mut g, "Reshape", &[&p, &c], &[&o], &[]); }
            6 => n(&mut g, "Concat", &[&p], &[&o], &[Attr::Int("axis", 0)]),
            7 => { let c = format!("pd{i}"); let l: Vec<i64> = (0..4).map(|j| int(&format!("p{i}{j}"), 0, 1)).collect(); g.m.init(&Tensor::i64(&c, &[4], &l)); n(&mut g, "Pad", &[&p, &c], &[&o], &[]); }
            8 => { let c = format!("ex{i}"); let q = pk(&format!("eq{i}"), 0, 2); let l: Vec<i64> = [vec![2, 3], vec![1, 1], vec![1, 2, 3]][q].clone(); g.m.init(&Tensor::i64(&c, &[l.len() as i64], &l)); n(&mut g, "Expand", &[&p, &c], &[&o], &[]); }
            9 => n(&mut g, "Split", &[&p], &[&o], &[Attr::Int("axis", int(&format!("sa{i}"), 0, 1)), Attr::Int("num_outputs", 1)]),
            10 => n(&mut g, "Sum", &[&p], &[&o], &[]),
            _ => n(&mut g, ["Max", "Mean"][pk(&format!("mm{i}"), 0, 1)], &[&p], &[&o], &[]),
        }
        outs.push(o.clone()); p = o;
    }
    match pk("use", 0, 3) { 0 => g.out(&p, F), 1 => { n(&mut g, "Exp", &[&p], &["y"], &[]); g.out("y", F); } 2 => { n(&mut g, "Sub", &[&p, &p], &["y"], &[]); g.out("y", F); g.out(&outs[0], F); } _ => { n(&mut g, "Exp", &["x"], &["z"], &[]); n(&mut g, "Identity", &["z"], &["y"], &[]); g.out(&p, F); g.out("y", F); } }
    Some(g)
}
/// MatMul, Add and Gemm, which are fused into Linear
fn linear(h: i64, v: i64) -> Option<G> {
    let mut g = G::new(18, h); let (kk, m) = (pk("k", 1, 2), pk("m", 1, 2)); let xr = (v / 10 % 10) as usize; let md = v / 100;
    let mut s = shp("x", xr - 1, 2); s.push(kk); g.x("x", F, &s);
    let bs: Vec<usize> = match v % 10 { 0 => vec![m], 1 => vec![1, m], 2 => vec![1], 3 => vec![], 4 => { let mut q = s[..xr - 1].to_vec(); q.push(m); q } 5 => vec![2, 1, m], _ => vec![s[xr.max(2) - 2], 1] };
    if md == 2 { // Gemm
        let tb = flag("tb"); let ws = if tb { [m, kk] } else { [kk, m] }; let cw = pk("cw", 0, 2); if cw == 2 { g.x("w", F, &ws); } else { g.weights("w", &ws, 1.0); } if v % 10 != 7 { if cw == 1 { g.x("c", F, &bs); } else { g.weights("c", &bs, 5.0); } } g.ins.clear();
        let mut at = vec![]; if flag("al") { at.push(Attr::Float("alpha", fl([1.0, 2.0][pk("alv", 0, 1)]))); } if flag("be") { at.push(Attr::Float("beta", fl([1.0, 0.0, 0.5][pk("bev", 0, 2)]))); } if tb || flag("tbx") { at.push(Attr::Int("transB", tb as i64)); } if flag("ta") { at.push(Attr::Int("transA", 0)); }
        if v % 10 == 7 { n(&mut g, "Gemm", &["x", "w"], &["y"], &at); } else { n(&mut g, "Gemm", &["x", "w", "c"], &["y"], &at); }
        g.out("y", F); return Some(g);
    }
    let wn = flag("wnode"); let wm = if md == 3 { vec![1, kk, m] } else if md == 4 { vec![kk] } else { vec![kk, m] };
    let d: Vec<i64> = wm.iter().map(|v| *v as i64).collect(); let wt = Tensor::f32("w", &d, &(0..numel(&wm)).map(|i| 1.0 + i as f32).collect::<Vec<_>>());
    if wn { n(&mut g, "Constant", &[], &["w"], &[Attr::Tensor("value", wt.bytes())]); } else { g.m.init(&wt); }
    if md != 1 { g.weights("c", &bs, 5.0); } else { g.x("c", F, &bs); } g.ins.clear();
    n(&mut g, "MatMul", &["x", "w"], &["t"], &[]);
    if flag("gap") { n(&mut g, "Exp", &["x"], &["e"], &[]); g.out("e", F); }
    n(&mut g, "Add", if flag("flip") { &["c", "t"] } else { &["t", "c"] }, &["y"], &[]); g.out("y", F);
    match pk("use", 0, 2) { 0 => {} 1 => g.out("t", F), _ => { n(&mut g, "Neg", &["t"], &["z"], &[]); g.out("z", F); } }
    Some(g)
}
/// small graphs: every node's operator and operands are chosen freely
fn graph(h: i64, v: i64) -> Option<G> {
    let mut g = G::new(18, h); g.x("x0", F, &[2]); g.x("x1", F, &[2]); g.ins.clear(); let len = (v % 10) as usize; let md = v / 10;
    g.m.init(&Tensor::f32("c0", &[2], &[1.0, 1.0])); if md == 1 { g.m.init(&Tensor::f32("c1", &[2], &[0.0, 0.0])); }
    let mut vals: Vec<String> = vec!["x0".into(), "x1".into(), "c0".into()]; if md == 1 { vals.remove(1); vals.push("c1".into()); }
    for i in 0..len {
        let op = pk(&format!("op{i}"), 0, 3); let a = vals[pk(&format!("a{i}"), 0, vals.len() as i64 - 1)].clone(); let o = format!("v{i}");
        match op { 0 => n(&mut g, "Relu", &[&a], &[&o], &[]), 1 => n(&mut g, "Identity", &[&a], &[&o], &[]), k => { let b = vals[pk(&format!("b{i}"), 0, vals.len() as i64 - 1)].clone(); n(&mut g, ["Sub", "Mul"][k - 2], &[&a, &b], &[&o], &[]); } }
        vals.push(o);
    }
    g.out(vals.last().unwrap(), F); if md == 2 { g.out(&vals[pk("o2", 0, vals.len() as i64 - 2)], F); }
    Some(g)
}
/// several outputs, only some of which are used
fn dead(h: i64, v: i64) -> Option<G> {
    let mut g = G::new(18, h); g.x("x", F, &[4, 2]); g.ins.clear();
    if v == 1 { g.m.init(&Tensor::f32("ratio", &[], &[0.5])); n(&mut g, "Dropout", &["x", "ratio"], &["y", "mask"], &[]); match pk("use", 0, 2) { 0 => {} 1 => g.out("mask", B), _ => { n(&mut g, "Not", &["mask"], &["z"], &[]); g.out("z", B); } } g.out("y", F); return Some(g); }
    n(&mut g, "Split", &["x"], &["a", "b"], &[Attr::Int("axis", 0), Attr::Int("num_outputs", 2)]);
    n(&mut g, "Relu", &["a"], &["ra"], &[]); n(&mut g, "Exp", &["b"], &["eb"], &[]); n(&mut g, "Mul", &["ra", "eb"], &["m"], &[]);
    for (i, o) in ["a", "b", "ra", "eb", "m"].iter().enumerate() { if flag(&format!("o{i}")) { g.out(o, F); } }
    if g.m.outputs.is_empty() { return None; }
    Some(g)
}
pub fn rewrite() {
    let (h, v) = (arg(1), arg(2));
    let g = match arg(0) { 0 => attention(h, v), 1 => permute(h, v), 2 => const_shape(h, v), 3 => fold(h, v), 4 => idempotent(h, v), 5 => identity(h, v), 6 => redundant(h, v), 7 => noop(h, v), 8 => linear(h, v), 9 => graph(h, v), _ => dead(h, v) };
    let Some(g) = g else { return };
    judge(&g);
}
#[allow(dead_code)]
fn _unused(_: Dim) {}
