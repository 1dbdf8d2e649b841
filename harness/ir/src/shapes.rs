//! Soundness of inferred types: whatever rank, dimension, element type or
//! length the importer claims for a value is what the ONNX operator produces.
//! arg 0: operator case, arg 1: bit mask of input dimensions hidden from the
//! importer, arg 2: variant, arg 9: thorough tier.
use crate::pb::{self, Attr, Dim, Model, Tensor};
use onnx_ir::{ArgType, DType};
use symrt::*;

pub const F32: i32 = 1; pub const I64: i32 = 7; pub const BOOL: i32 = 9;
pub fn dt(e: i32) -> DType { match e { 1 => DType::F32, 7 => DType::I64, 9 => DType::Bool, 6 => DType::I32, 11 => DType::F64, 2 => DType::U8, 3 => DType::I8, 10 => DType::F16, _ => panic!("dt") } }
pub fn hi() -> i64 { if arg(9) != 0 { 5 } else { 4 } }
/// the dimensions of an input: all symbolic; those in the mask are not declared
pub fn dims(name: &str, rank: usize, lo: i64) -> Vec<i64> { (0..rank).map(|i| int(&format!("{name}{i}"), lo, hi())).collect() }
pub fn decl(d: &[i64], mask: i64) -> Vec<Dim<'static>> { d.iter().enumerate().map(|(i, v)| if mask >> i & 1 != 0 { Dim::Param("n") } else { Dim::Val(*v) }).collect() }
pub fn none(rank: usize) -> Vec<Dim<'static>> { (0..rank).map(|_| Dim::None).collect() }
pub fn ints(name: &str, n: usize, lo: i64, h: i64) -> Vec<i64> { (0..n).map(|i| int(&format!("{name}{i}"), lo, h)).collect() }
pub fn prod(d: &[i64]) -> i64 { d.iter().product() }

pub fn sound(ty: &ArgType, want: &[i64], elem: i32) {
    let one = want.len() <= 1 && prod(want) == 1;
    match ty {
        ArgType::Tensor(t) => {
            // a tensor of the generated code always has a rank of at least 1
            let want = if want.is_empty() { &[1][..] } else { want };
            check(t.rank == want.len(), "claimed rank is not the operator's output rank");
            check(t.dtype == dt(elem), "claimed element type is not the operator's");
            if let Some(s) = &t.static_shape {
                check(s.len() == want.len(), "claimed shape has the wrong number of dimensions");
                for (c, w) in s.iter().zip(want) { if let Some(c) = c { cover("claimed"); check(*c as i64 == *w, "claimed dimension is not the operator's output dimension"); } }
            }
        }
        ArgType::Shape(n) => { cover("shape"); check(elem == I64 || elem == BOOL, "a shape value has a non-integer element type"); check(want.len() == 1, "a shape value stands for a tensor of another rank"); if want.len() == 1 { check(*n as i64 == want[0], "claimed length of a shape value is wrong"); } }
        ArgType::ScalarTensor(d) | ArgType::ScalarNative(d) => { cover("scalar"); check(one, "a scalar stands for a tensor with more than one element"); check(*d == dt(elem), "claimed element type is not the operator's"); }
    }
}
/// parse and compare every graph output
pub fn run(m: &Model, want: &[(Vec<i64>, i32)], supported: bool) {
    if !supported { panic_ok(true); }
    let r = onnx_ir::OnnxGraphBuilder::new().simplify(arg(8) != 0).parse_bytes(&m.bytes());
    match r {
        Err(_) => { cover("refused"); check(!supported, "valid model refused"); }
        Ok(g) => {
            cover("accepted");
            check(g.outputs.len() == want.len(), "number of graph outputs changed");
            for (a, (d, e)) in g.outputs.iter().zip(want) { sound(&a.ty, d, *e); }
        }
    }
}
/// one data input `x`, one node, one output `y`
struct B { m: Model, ins: Vec<String>, attrs: Vec<Attr<'static>> }
impl B {
    fn new(opset: i64) -> B { B { m: Model::new(opset), ins: vec![], attrs: vec![] } }
    fn input(&mut self, n: &str, elem: i32, d: &[i64], mask: i64) { self.m.input(n, elem, &decl(d, mask)); self.ins.push(n.into()); }
    fn konst(&mut self, n: &str, v: &[i64]) { self.m.init(&Tensor::i64(n, &[v.len() as i64], v)); self.ins.push(n.into()); }
    fn absent(&mut self) { self.ins.push(String::new()); }
    fn a(&mut self, a: Attr<'static>) { self.attrs.push(a); }
    fn go(mut self, op: &str, want: Vec<i64>, elem: i32, supported: bool) { self.many(op, &[(want, elem)], supported) }
    fn many(&mut self, op: &str, want: &[(Vec<i64>, i32)], supported: bool) {
        let outs: Vec<String> = (0..want.len()).map(|i| format!("y{i}")).collect();
        let ins: Vec<&str> = self.ins.iter().map(|s| s.as_str()).collect();
        let os: Vec<&str> = outs.iter().map(|s| s.as_str()).collect();
        self.m.node(op, "n0", &ins, &os, &self.attrs);
        for (o, (d, e)) in outs.iter().zip(want) { self.m.output(o, *e, &none(d.len())); }
        run(&self.m, want, supported);
    }
}
fn norm(a: i64, r: i64) -> Option<usize> { let b = if a < 0 { a + r } else { a }; if b < 0 || b >= r { None } else { Some(conc(b) as usize) } }

pub fn movement() {
    let (case, mask, var) = (arg(0), arg(1), arg(2));
    match case {
        0 => { // Reshape: var = rank of x * 10 + length of target
            let (r, k) = ((var / 10) as usize, (var % 10) as usize);
            let az = flag("allowzero");
            let x = dims("x", r, 1); let t = ints("t", k, -1, hi());
            let mut want = t.clone(); let mut minus = None; let mut zero = false;
            for i in 0..k {
                if t[i] == 0 { if az { zero = true; } else { if i >= r { return; } want[i] = x[i]; } }
                else if t[i] == -1 { if minus.is_some() { return; } minus = Some(i); want[i] = 1; }
            }
            if zero { return; }
            let n = prod(&x); let p = prod(&want);
            if let Some(i) = minus { if n % p != 0 { return; } want[i] = n / p; } else if n != p { return; }
            let mut b = B::new(14); b.input("x", F32, &x, mask); b.konst("t", &t);
            if az { b.a(Attr::Int("allowzero", 1)); }
            b.go("Reshape", want, F32, true);
        }
        1 => { // Flatten
            let r = var as usize; let x = dims("x", r, 1); let a = int("axis", -(r as i64), r as i64);
            let ax = conc(if a < 0 { a + r as i64 } else { a }) as usize;
            let want = vec![prod(&x[..ax]), prod(&x[ax..])];
            let mut b = B::new(13); b.input("x", F32, &x, mask); b.a(Attr::Int("axis", a)); b.go("Flatten", want, F32, r > 1);
        }
        2 => { // Squeeze: var = rank*100 + number of axes*10 + (0: input, 1: attribute)
            let (r, k, at) = ((var / 100) as usize, (var / 10 % 10) as usize, var % 10);
            let x = dims("x", r, 1); let ax = ints("a", k, -(r as i64), r as i64 - 1);
            let mut drop = vec![false; r];
            for a in &ax { let Some(i) = norm(*a, r as i64) else { return }; if drop[i] || x[i] != 1 { return; } drop[i] = true; }
            let unknown = k == 0 && mask != 0;
            if k == 0 { for i in 0..r { drop[i] = x[i] == 1; } }
            let want: Vec<i64> = (0..r).filter(|i| !drop[*i]).map(|i| x[i]).collect();
            let mut b = B::new(if at == 1 { 11 } else { 13 }); b.input("x", F32, &x, mask);
            if k > 0 { if at == 1 { b.a(Attr::Ints("axes", ax)); } else { b.konst("ax", &ax); } }
            b.go("Squeeze", want, F32, !unknown);
        }
        3 => { // Unsqueeze: var likewise
            let (r, k, at) = ((var / 100) as usize, (var / 10 % 10) as usize, var % 10);
            let o = (r + k) as i64; let x = dims("x", r, 1); let ax = ints("a", k, -o, o - 1);
            let mut ins = vec![false; r + k];
            for a in &ax { let Some(i) = norm(*a, o) else { return }; if ins[i] { return; } ins[i] = true; }
            let mut it = x.iter(); let want: Vec<i64> = ins.iter().map(|n| if *n { 1 } else { *it.next().unwrap() }).collect();
            let mut b = B::new(if at == 1 { 11 } else { 13 }); b.input("x", F32, &x, mask);
            if at == 1 { b.a(Attr::Ints("axes", ax)); } else { b.konst("ax", &ax); }
            b.go("Unsqueeze", want, F32, true);
        }
        4 => { // Transpose
            let r = (var / 10) as usize; let x = dims("x", r, 1);
            let mut b = B::new(13); b.input("x", F32, &x, mask);
            let mut want: Vec<i64> = x.iter().rev().copied().collect();
            if var % 10 == 0 {
                let p = ints("p", r, 0, r as i64 - 1); let mut seen = vec![false; r];
                want = vec![]; for i in &p { let i = conc(*i) as usize; if seen[i] { return; } seen[i] = true; want.push(x[i]); }
                b.a(Attr::Ints("perm", p));
            }
            b.go("Transpose", want, F32, true);
        }
        5 => { // Expand: var = rank*10 + target length
            let (r, k) = ((var / 10) as usize, (var % 10) as usize);
            let x = dims("x", r, 1); let t = ints("t", k, 1, hi());
            let Some(want) = bcast(&[&x, &t]) else { return };
            let mut b = B::new(13); b.input("x", F32, &x, mask); b.konst("t", &t); b.go("Expand", want, F32, true);
        }
        6 => { // Tile
            let r = var as usize; let x = dims("x", r, 1); let t = ints("t", r, 1, 3);
            let want = x.iter().zip(&t).map(|(a, b)| a * b).collect();
            let mut b = B::new(13); b.input("x", F32, &x, mask); b.konst("t", &t); b.go("Tile", want, F32, true);
        }
        7 => { // Pad: var = rank*10 + (0: opset 13 input, 1: opset 2 attribute, 2: opset 18 with axes)
            let r = (var / 10) as usize; let x = dims("x", r, 1);
            let mut b = B::new(match var % 10 { 1 => 2, 2 => 18, _ => 13 }); b.input("x", F32, &x, mask);
            let na = if var % 10 == 2 { 1 } else { r };
            let p = ints("p", 2 * na, 0, 2); let mut want = x.clone();
            if var % 10 == 2 { let a = int("a", -(r as i64), r as i64 - 1); let i = norm(a, r as i64).unwrap(); want[i] += p[0] + p[1]; b.konst("p", &p); b.absent(); b.konst("a", &[a]); }
            else { for i in 0..r { want[i] += p[i] + p[i + r]; } if var % 10 == 1 { b.a(Attr::Ints("pads", p)); } else { b.konst("p", &p); } }
            b.a(Attr::Str("mode", b"constant"));
            b.go("Pad", want, F32, false);
        }
        8 => { // Slice: var = rank*10 + number of axes (0 = axes omitted); +1000 negative steps; +2000 attributes
            let r = (var / 10 % 10) as usize; let k = (var % 10) as usize; let st = var / 1000 == 1; let at = var / 1000 == 2;
            let x = dims("x", r, 1); let n = if k == 0 { r } else { k };
            let s = ints("s", n, -5, 5); let e = ints("e", n, -6, 6); let ax = ints("a", k, -(r as i64), r as i64 - 1); let sp = ints("k", if st { n } else { 0 }, -2, 2);
            let mut want = x.clone(); let mut used = vec![false; r];
            for i in 0..n {
                let a = if k == 0 { i } else { norm(ax[i], r as i64).unwrap() }; if used[a] { return; } used[a] = true;
                let step = if st { sp[i] } else { 1 }; if step == 0 { return; }
                want[a] = slice_len(x[a], s[i], e[i], step);
            }
            let mut b = B::new(if at { 9 } else { 13 }); b.input("x", F32, &x, mask);
            if at { b.a(Attr::Ints("starts", s)); b.a(Attr::Ints("ends", e)); if k > 0 { b.a(Attr::Ints("axes", ax)); } }
            else { b.konst("s", &s); b.konst("e", &e); if k > 0 { b.konst("a", &ax); } else if st { b.absent(); } if st { b.konst("k", &sp); } }
            b.go("Slice", want, F32, false);
        }
        9 => { // Concat: var = rank*10 + inputs
            let r = (var / 10) as usize; let n = var % 10; let x = dims("x", r, 1);
            let a = int("axis", -(r as i64), r as i64 - 1); let ax = norm(a, r as i64).unwrap();
            let mut want = x.clone(); let mut b = B::new(13); b.input("x", F32, &x, mask);
            for i in 1..n { let mut d = x.clone(); d[ax] = int(&format!("c{i}"), 1, hi()); want[ax] += d[ax]; b.input(&format!("z{i}"), F32, &d, mask >> (i * r as i64)); }
            b.a(Attr::Int("axis", a)); b.go("Concat", want, F32, true);
        }
        10 => { // Split: var = rank*100 + outputs*10 + (0: sizes input, 1: equal (opset 13), 2: num_outputs (18), 3: attribute (11))
            let (r, n, k) = ((var / 100) as usize, (var / 10 % 10) as usize, var % 10);
            let x = dims("x", r, 1); let a = int("axis", -(r as i64), r as i64 - 1); let ax = norm(a, r as i64).unwrap();
            let mut b = B::new(match k { 2 => 18, 3 => 11, _ => 13 }); b.input("x", F32, &x, mask); b.a(Attr::Int("axis", a));
            let mut parts = vec![];
            match k {
                0 | 3 => { parts = ints("s", n, 1, hi()); if parts.iter().sum::<i64>() != x[ax] { return; } if k == 0 { b.konst("s", &parts); } else { b.a(Attr::Ints("split", parts.clone())); } }
                1 => { if x[ax] % n as i64 != 0 { return; } parts = vec![x[ax] / n as i64; n]; }
                _ => { let c = (x[ax] + n as i64 - 1) / n as i64; let mut left = x[ax]; for _ in 0..n { let t = if left < c { left } else { c }; parts.push(t); left -= t; } if parts[n - 1] == 0 { return; } b.a(Attr::Int("num_outputs", n as i64)); }
            }
            let want: Vec<_> = parts.iter().map(|p| { let mut d = x.clone(); d[ax] = *p; (d, F32) }).collect();
            let known = mask >> ax & 1 == 0;
            b.many("Split", &want, known || k == 0 || k == 3);
        }
        11 | 12 => { // DepthToSpace, SpaceToDepth
            let x = dims("x", 4, 1); let bs = int("bs", 1, 3); let mut b = B::new(13); b.input("x", F32, &x, mask); b.a(Attr::Int("blocksize", bs));
            if case == 11 { if x[1] % (bs * bs) != 0 { return; } b.go("DepthToSpace", vec![x[0], x[1] / (bs * bs), x[2] * bs, x[3] * bs], F32, true) }
            else { if x[2] % bs != 0 || x[3] % bs != 0 { return; } b.go("SpaceToDepth", vec![x[0], x[1] * bs * bs, x[2] / bs, x[3] / bs], F32, true) }
        }
        13 => { // Shape with start and end
            let r = var as usize; let x = dims("x", r, 1); let s = int("s", -6, 6); let e = int("e", -6, 6); let r = r as i64;
            let cl = |v: i64| { let v = if v < 0 { v + r } else { v }; if v < 0 { 0 } else if v > r { r } else { v } };
            let n = cl(e) - cl(s); if n < 0 { return; }
            let mut b = B::new(15); b.input("x", F32, &x, mask); b.a(Attr::Int("start", s)); b.a(Attr::Int("end", e)); b.go("Shape", vec![n], I64, n > 0);
        }
        14 => { // Size
            let x = dims("x", var as usize, 1); let mut b = B::new(13); b.input("x", F32, &x, mask); b.go("Size", vec![], I64, true);
        }
        15 => { // ConstantOfShape: var = length*10 + (0: no value, 1: int64 value)
            let n = (var / 10) as usize; let t = ints("t", n, 0, hi()); let mut b = B::new(13); b.konst("t", &t);
            let mut el = F32; if var % 10 == 1 { el = I64; b.a(Attr::Tensor("value", Tensor::i64("", &[1], &[7]).bytes())); }
            b.go("ConstantOfShape", t, el, true);
        }
        16 => { // ConstantOfShape of Shape(x), chained with a declared output
            let x = dims("x", var as usize, 1); let mut m = Model::new(13); m.input("x", F32, &decl(&x, mask));
            m.node("Shape", "n0", &["x"], &["s"], &[]); m.node("ConstantOfShape", "n1", &["s"], &["y"], &[]); m.output("y", F32, &none(x.len()));
            run(&m, &[(x, F32)], true);
        }
        17 => { // Reshape by a shape computed from another tensor
            let x = dims("x", 2, 1); let z = dims("z", var as usize, 1); if prod(&x) != prod(&z) { return; }
            let mut m = Model::new(13); m.input("x", F32, &decl(&x, mask)); m.input("z", F32, &decl(&z, mask >> 2));
            m.node("Shape", "n0", &["z"], &["s"], &[]); m.node("Reshape", "n1", &["x", "s"], &["y"], &[]); m.output("y", F32, &none(z.len()));
            run(&m, &[(z, F32)], true);
        }
        18 => { // Expand to the shape of another tensor
            let x = dims("x", 2, 1); let z = dims("z", var as usize, 1); let Some(w) = bcast(&[&x, &z]) else { return };
            let mut m = Model::new(13); m.input("x", F32, &decl(&x, mask)); m.input("z", F32, &decl(&z, mask >> 2));
            m.node("Shape", "n0", &["z"], &["s"], &[]); m.node("Expand", "n1", &["x", "s"], &["y"], &[]); m.output("y", F32, &none(w.len()));
            run(&m, &[(w, F32)], true);
        }
        19 => { // EyeLike, Trilu, Identity
            let x = dims("x", 2, 1); let mut b = B::new(14); b.input("x", F32, &x, mask);
            b.go(["EyeLike", "Trilu", "Identity"][var as usize], x, F32, true);
        }
        20 => { // Slice and Concat of shape values
            let x = dims("x", 3, 1); let s = int("s", -4, 4); let e = int("e", -4, 4); let st = if var == 0 { 1 } else { int("k", -2, 2) }; if st == 0 { return; }
            let n = slice_len(3, s, e, st); if n == 0 { return; }
            let mut m = Model::new(13); m.input("x", F32, &decl(&x, mask)); m.node("Shape", "n0", &["x"], &["s"], &[]);
            m.init(&Tensor::i64("a", &[1], &[s])); m.init(&Tensor::i64("b", &[1], &[e])); m.init(&Tensor::i64("c", &[1], &[0])); m.init(&Tensor::i64("d", &[1], &[st]));
            m.node("Slice", "n1", &["s", "a", "b", "c", "d"], &["t"], &[]);
            m.node("Concat", "n2", &["t", "s"], &["y"], &[Attr::Int("axis", 0)]);
            m.output("y", I64, &none(1)); m.output("t", I64, &none(1));
            run(&m, &[(vec![n + 3], I64), (vec![n], I64)], true);
        }
        _ => panic!("case"),
    }
}
/// length of Slice along one axis (ONNX clamping rules)
pub fn slice_len(d: i64, s: i64, e: i64, st: i64) -> i64 {
    let (mut s, mut e) = (if s < 0 { s + d } else { s }, if e < 0 { e + d } else { e });
    if st > 0 { s = s.clamp(0, d); e = e.clamp(0, d); if e <= s { 0 } else { (e - s + st - 1) / st } }
    else { s = s.clamp(0, d - 1); e = e.clamp(-1, d - 1); if e >= s { 0 } else { (s - e + -st - 1) / -st } }
}
/// NumPy broadcasting of several shapes
pub fn bcast(all: &[&[i64]]) -> Option<Vec<i64>> {
    let r = all.iter().map(|s| s.len()).max().unwrap(); let mut o = vec![1; r];
    for s in all { for (i, d) in s.iter().enumerate() { let k = r - s.len() + i; if o[k] == 1 { o[k] = *d; } else if *d != 1 && *d != o[k] { return None; } } }
    Some(o)
}
