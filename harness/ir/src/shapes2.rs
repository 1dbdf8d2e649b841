//! Soundness of inferred types, continued: convolution and pooling, reductions
//! and indexing, elementwise operators, normalisation and recurrent layers.
use crate::pb::{Attr, Dim, Model, Tensor};
use crate::shapes::*;
use symrt::*;

fn out(m: &mut Model, op: &str, ins: &[&str], attrs: &[Attr], want: &[(Vec<i64>, i32)], ok: bool) {
    let outs: Vec<String> = (0..want.len()).map(|i| format!("y{i}")).collect();
    let os: Vec<&str> = outs.iter().map(|s| s.as_str()).collect();
    m.node(op, "n0", ins, &os, attrs);
    for (o, (d, e)) in outs.iter().zip(want) { m.output(o, *e, &none(d.len())); }
    run(m, want, ok);
}
/// arg 2: auto_pad (0 explicit, 1 VALID, 2 SAME_UPPER, 3 SAME_LOWER, 4 NOTSET), arg 3: further variant
fn auto() -> Option<Attr<'static>> { match arg(2) { 1 => Some(Attr::Str("auto_pad", b"VALID")), 2 => Some(Attr::Str("auto_pad", b"SAME_UPPER")), 3 => Some(Attr::Str("auto_pad", b"SAME_LOWER")), 4 => Some(Attr::Str("auto_pad", b"NOTSET")), _ => None } }
/// output length of a sliding window, None when the model is invalid
fn win(i: i64, k: i64, s: i64, d: i64, pb: i64, pe: i64) -> Option<i64> {
    let e = d * (k - 1) + 1;
    match arg(2) {
        1 => if i < e { None } else { Some((i - e) / s + 1) },
        2 | 3 => Some((i + s - 1) / s),
        _ => if i + pb + pe < e { None } else { Some((i + pb + pe - e) / s + 1) },
    }
}
pub fn spatial() {
    let (case, mask, var) = (arg(0), arg(1), arg(3));
    let h = if arg(9) != 0 { 9 } else { 6 };
    match case {
        0..=2 => { // ConvNd: var bit 0: weight is an input, bit 1: bias, bit 2: defaults, bit 3: two groups, bit 4: no kernel_shape
            let n = case as usize + 1; let r = n + 2;
            let mut x = dims("x", 2, 1); x.extend(ints("s", n, 1, h));
            let g = if var & 8 != 0 { 2 } else { 1 };
            x[1] = if g == 2 { 2 * x[1] } else { x[1] };
            let mut w = vec![int("m", 1, 2) * g, if g == 2 { x[1] / 2 } else { x[1] }]; w.extend(ints("k", n, 1, if n == 3 { 2 } else { 3 }));
            if var & 1 == 0 { for v in w.iter_mut() { *v = conc(*v); } x[1] = w[1] * g; }
            let st = ints("st", n, 1, 3); let di = ints("d", n, 1, 2); let p = ints("p", 2 * n, 0, 2);
            let mut want = vec![x[0], w[0]];
            for i in 0..n { let Some(o) = (if var & 4 != 0 { win(x[2 + i], w[2 + i], 1, 1, 0, 0) } else { win(x[2 + i], w[2 + i], st[i], di[i], p[i], p[i + n]) }) else { return }; want.push(o); }
            let mut m = Model::new(13); m.input("x", F32, &decl(&x, mask));
            if var & 1 == 0 { let c = w.iter().product::<i64>() as usize; m.init(&Tensor::f32("w", &w, &vec![0.5; c])); } else { m.input("w", F32, &decl(&w, 0)); }
            let mut ins = vec!["x", "w"];
            if var & 2 != 0 { m.input("b", F32, &[Dim::Val(w[0])]); ins.push("b"); }
            let mut a = vec![Attr::Int("group", g)];
            if var & 16 == 0 { a.push(Attr::Ints("kernel_shape", w[2..].to_vec())); }
            if var & 4 == 0 { a.push(Attr::Ints("strides", st)); a.push(Attr::Ints("dilations", di)); if arg(2) == 0 || arg(2) == 4 { a.push(Attr::Ints("pads", p)); } }
            if let Some(x) = auto() { a.push(x); }
            let _ = r;
            out(&mut m, ["Conv", "Conv", "Conv"][case as usize], &ins, &a, &[(want, F32)], false);
        }
        3..=5 => { // ConvTransposeNd
            let n = case as usize - 2;
            let mut x = dims("x", 2, 1); x.extend(ints("s", n, 1, h));
            let mut w = vec![x[1], int("m", 1, 3)]; w.extend(ints("k", n, 1, 3));
            let st = ints("st", n, 1, 3); let di = ints("d", n, 1, 2); let p = ints("p", n, 0, 1); let op = ints("o", n, 0, 1);
            let mut want = vec![x[0], w[1]];
            for i in 0..n { let o = st[i] * (x[2 + i] - 1) + op[i] + (w[2 + i] - 1) * di[i] + 1 - 2 * p[i]; if o < 1 || op[i] >= st[i] { return; } want.push(o); }
            let mut pads = p.clone(); pads.extend(p);
            let mut m = Model::new(13); m.input("x", F32, &decl(&x, mask)); m.input("w", F32, &decl(&w, 0));
            out(&mut m, "ConvTranspose", &["x", "w"], &[Attr::Ints("kernel_shape", w[2..].to_vec()), Attr::Ints("strides", st), Attr::Ints("dilations", di), Attr::Ints("pads", pads), Attr::Ints("output_padding", op)], &[(want, F32)], false);
        }
        6..=9 => { // MaxPool1d, 2d, AveragePool1d, 2d; var bit 0: ceil_mode, bit 1: defaults
            let n = ((case - 6) % 2 + 1) as usize; let avg = case >= 8;
            let mut x = dims("x", 2, 1); x.extend(ints("s", n, 1, h));
            let k = ints("k", n, 1, 3); let st = ints("st", n, 1, 3); let p = ints("p", 2 * n, 0, 2); let di = if avg { vec![1; n] } else { ints("d", n, 1, 2) };
            let mut want = vec![x[0], x[1]];
            for i in 0..n {
                let (s, d, a, b) = if var & 2 != 0 { (1, 1, 0, 0) } else { (st[i], di[i], p[i], p[i + n]) };
                if a >= k[i] || b >= k[i] { return; }
                let Some(mut o) = win(x[2 + i], k[i], s, d, a, b) else { return };
                if var & 1 != 0 { let rest = x[2 + i] + a + b - d * (k[i] - 1) - 1; let c = (rest + s - 1) / s + 1; if (c - 1) * s >= x[2 + i] + a { return; } o = c; }
                want.push(o);
            }
            let mut m = Model::new(19); m.input("x", F32, &decl(&x, mask));
            let mut a = vec![Attr::Ints("kernel_shape", k)];
            if var & 2 == 0 { a.push(Attr::Ints("strides", st)); if !avg { a.push(Attr::Ints("dilations", di)); } if arg(2) == 0 || arg(2) == 4 { a.push(Attr::Ints("pads", p)); } }
            if var & 1 != 0 { a.push(Attr::Int("ceil_mode", 1)); }
            if let Some(x) = auto() { a.push(x); }
            out(&mut m, if avg { "AveragePool" } else { "MaxPool" }, &["x"], &a, &[(want, F32)], false);
        }
        10 => { // GlobalAveragePool
            let x = dims("x", var as usize, 1); let mut want = vec![1; x.len()]; want[0] = x[0]; want[1] = x[1];
            let mut m = Model::new(13); m.input("x", F32, &decl(&x, mask)); out(&mut m, "GlobalAveragePool", &["x"], &[], &[(want, F32)], false);
        }
        11 => { // Resize by sizes, by integral scales
            let x = dims("x", 4, 1); let s = ints("z", 4, 1, 6); if s[0] != x[0] || s[1] != x[1] { return; }
            let mut m = Model::new(13); m.input("x", F32, &decl(&x, mask));
            if var == 0 { m.init(&Tensor::i64("s", &[4], &s)); out(&mut m, "Resize", &["x", "", "", "s"], &[Attr::Str("mode", b"nearest")], &[(s, F32)], false); }
            else { m.init(&Tensor::f32("s", &[4], &[1.0, 1.0, 2.0, 3.0])); let w = vec![x[0], x[1], x[2] * 2, x[3] * 3]; out(&mut m, "Resize", &["x", "", "s"], &[Attr::Str("mode", b"nearest")], &[(w, F32)], false); }
        }
        12 => { // GridSample
            let x = dims("x", 4, 1); let g = dims("g", 3, 1); let w = vec![x[0], x[1], g[1], g[2]]; let gd = vec![x[0], g[1], g[2], 2];
            let mut m = Model::new(16); m.input("x", F32, &decl(&x, mask)); m.input("g", F32, &decl(&gd, 0)); out(&mut m, "GridSample", &["x", "g"], &[], &[(w, F32)], false);
        }
        13 => { // Col2Im
            let x = dims("x", 3, 1); let im = ints("i", 2, 1, 6); let bl = ints("b", 2, 1, 2); let st = ints("st", 2, 1, 2); let p = ints("p", 4, 0, 1); let di = ints("d", 2, 1, 2);
            let mut l = 1; for i in 0..2 { let v = im[i] + p[i] + p[i + 2] - di[i] * (bl[i] - 1) - 1; if v < 0 { return; } l *= v / st[i] + 1; }
            if x[1] % (bl[0] * bl[1]) != 0 || x[2] != l { return; }
            let w = vec![x[0], x[1] / (bl[0] * bl[1]), im[0], im[1]];
            let mut m = Model::new(18); m.input("x", F32, &decl(&x, mask)); m.init(&Tensor::i64("i", &[2], &im)); m.init(&Tensor::i64("b", &[2], &bl));
            out(&mut m, "Col2Im", &["x", "i", "b"], &[Attr::Ints("strides", st), Attr::Ints("pads", p), Attr::Ints("dilations", di)], &[(w, F32)], false);
        }
        14 => { // DeformConv
            let mut x = dims("x", 2, 1); x.extend(ints("s", 2, 1, h)); let w = vec![int("m", 1, 3), x[1], int("k0", 1, 3), int("k1", 1, 3)];
            let st = ints("st", 2, 1, 3); let di = ints("d", 2, 1, 2); let p = ints("p", 4, 0, 2);
            let mut want = vec![x[0], w[0]];
            for i in 0..2 { let v = x[2 + i] + p[i] + p[i + 2] - di[i] * (w[2 + i] - 1) - 1; if v < 0 { return; } want.push(v / st[i] + 1); }
            let off = vec![x[0], 2 * w[2] * w[3], want[2], want[3]];
            let mut m = Model::new(19); m.input("x", F32, &decl(&x, mask)); m.input("w", F32, &decl(&w, 0)); m.input("o", F32, &decl(&off, 0));
            out(&mut m, "DeformConv", &["x", "w", "o"], &[Attr::Ints("kernel_shape", w[2..].to_vec()), Attr::Ints("strides", st), Attr::Ints("dilations", di), Attr::Ints("pads", p)], &[(want, F32)], false);
        }
        15 => { // normalisation layers keep the shape
            let x = dims("x", 4, 1); let c = [x[1]];
            let mut m = Model::new(18); m.input("x", F32, &decl(&x, mask));
            let cd = if var == 2 { [x[3]] } else { c };
            for n in ["a", "b", "c", "d"] { if var == 0 || n == "a" || n == "b" { m.input(n, F32, &decl(&cd, 0)); } }
            match var {
                0 => out(&mut m, "BatchNormalization", &["x", "a", "b", "c", "d"], &[], &[(x, F32)], false),
                1 => out(&mut m, "InstanceNormalization", &["x", "a", "b"], &[], &[(x, F32)], false),
                2 => out(&mut m, "LayerNormalization", &["x", "a", "b"], &[Attr::Int("axis", -1)], &[(x, F32)], false),
                _ => out(&mut m, "GroupNormalization", &["x", "a", "b"], &[Attr::Int("num_groups", 1)], &[(x, F32)], false),
            }
        }
        16..=18 => { // LSTM, GRU, RNN: var 0 forward, 1 reverse, 2 bidirectional
            let (seq, b, i, hs) = (int("seq", 1, 4), int("b", 1, 3), int("i", 1, 3), int("h", 1, 3));
            let d = if var == 2 { 2 } else { 1 }; let g = [4, 3, 1][case as usize - 16];
            let x = [seq, b, i];
            let mut m = Model::new(14); m.input("x", F32, &decl(&x, mask)); m.input("w", F32, &decl(&[d, g * hs, i], 0)); m.input("r", F32, &decl(&[d, g * hs, hs], 0));
            let mut want = vec![(vec![seq, d, b, hs], F32), (vec![d, b, hs], F32)]; if case == 16 { want.push((vec![d, b, hs], F32)); }
            out(&mut m, ["LSTM", "GRU", "RNN"][case as usize - 16], &["x", "w", "r"], &[Attr::Int("hidden_size", hs), Attr::Str("direction", [&b"forward"[..], b"reverse", b"bidirectional"][var as usize])], &want, false);
        }
        _ => panic!("case"),
    }
}

fn axis(r: usize) -> (i64, usize) { let a = int("axis", -(r as i64), r as i64 - 1); (a, conc(if a < 0 { a + r as i64 } else { a }) as usize) }
const RED: [&str; 10] = ["ReduceSum", "ReduceMean", "ReduceMax", "ReduceMin", "ReduceProd", "ReduceL1", "ReduceL2", "ReduceSumSquare", "ReduceLogSum", "ReduceLogSumExp"];
pub fn indexing() {
    let (case, mask, var) = (arg(0), arg(1), arg(2));
    match case {
        0 => { // reductions: var = operator*100 + rank*10 + axes; arg 3: 0 input, 1 attribute, 2 noop_with_empty_axes
            let (op, r, k) = ((var / 100) as usize, (var / 10 % 10) as usize, (var % 10) as usize);
            let x = dims("x", r, 1); let ax = ints("a", k, -(r as i64), r as i64 - 1); let keep = flag("keepdims");
            let mut red = vec![k == 0 && arg(3) != 2; r];
            for a in &ax { let i = conc(if *a < 0 { a + r as i64 } else { *a }) as usize; if red[i] { return; } red[i] = true; }
            let want: Vec<i64> = (0..r).filter(|i| keep || !red[*i]).map(|i| if red[i] { 1 } else { x[i] }).collect();
            let mut m = Model::new(if arg(3) == 1 { 11 } else { 18 }); m.input("x", F32, &decl(&x, mask));
            let mut a = vec![Attr::Int("keepdims", keep as i64)]; let mut ins = vec!["x"];
            if k > 0 { if arg(3) == 1 { a.push(Attr::Ints("axes", ax)); } else { m.init(&Tensor::i64("ax", &[k as i64], &ax)); ins.push("ax"); } }
            if arg(3) == 2 { a.push(Attr::Int("noop_with_empty_axes", 1)); }
            out(&mut m, RED[op], &ins, &a, &[(want, F32)], arg(3) != 2);
        }
        1 | 2 => { // ArgMax, ArgMin
            let r = var as usize; let x = dims("x", r, 1); let (a, i) = axis(r); let keep = flag("keepdims");
            let mut want = x.clone(); if keep { want[i] = 1; } else { want.remove(i); }
            let mut m = Model::new(13); m.input("x", F32, &decl(&x, mask));
            out(&mut m, if case == 1 { "ArgMax" } else { "ArgMin" }, &["x"], &[Attr::Int("axis", a), Attr::Int("keepdims", keep as i64)], &[(want, I64)], true);
        }
        3 => { // TopK
            let r = var as usize; let x = dims("x", r, 1); let (a, i) = axis(r); let k = int("k", 1, hi()); if k > x[i] { return; }
            let mut want = x.clone(); want[i] = k;
            let mut m = Model::new(11); m.input("x", F32, &decl(&x, mask)); m.init(&Tensor::i64("k", &[1], &[k]));
            out(&mut m, "TopK", &["x", "k"], &[Attr::Int("axis", a)], &[(want.clone(), F32), (want, I64)], true);
        }
        4 => { // Gather: var = rank of data*10 + rank of indices; arg 3: constant index
            let (r, q) = ((var / 10) as usize, (var % 10) as usize);
            let x = dims("x", r, 1); let i = dims("i", q, 1); let (a, k) = axis(r);
            let mut want = x[..k].to_vec(); want.extend(&i); want.extend(&x[k + 1..]);
            let mut m = Model::new(13); m.input("x", F32, &decl(&x, mask));
            if arg(3) == 1 { if q > 0 { for v in &i { if *v != 1 { return; } } } m.init(&Tensor::i64("i", &i, &[0])); } else { m.input("i", I64, &decl(&i, mask >> r)); }
            out(&mut m, "Gather", &["x", "i"], &[Attr::Int("axis", a)], &[(want, F32)], true);
        }
        5 => { // GatherElements
            let r = var as usize; let x = dims("x", r, 1); let i = dims("i", r, 1); let (a, k) = axis(r);
            for j in 0..r { if j != k && i[j] > x[j] { return; } }
            let mut m = Model::new(13); m.input("x", F32, &decl(&x, mask)); m.input("i", I64, &decl(&i, mask >> r));
            out(&mut m, "GatherElements", &["x", "i"], &[Attr::Int("axis", a)], &[(i, F32)], true);
        }
        6 => { // GatherND: var = rank*10 + rank of indices; batch_dims = arg 3
            let (r, q) = ((var / 10) as usize, (var % 10) as usize); let b = arg(3) as usize;
            let x = dims("x", r, 1); let mut i = dims("i", q, 1); i[q - 1] = int("last", 1, (r - b) as i64); for j in 0..b { if i[j] != x[j] { return; } }
            let k = conc(i[q - 1]) as usize; if b >= q || b >= r { return; }
            let mut want = i[..q - 1].to_vec(); want.extend(&x[b + k..]);
            let mut m = Model::new(13); m.input("x", F32, &decl(&x, mask)); m.input("i", I64, &decl(&i, 0));
            out(&mut m, "GatherND", &["x", "i"], &[Attr::Int("batch_dims", b as i64)], &[(want, F32)], true);
        }
        7 => { // ScatterElements, ScatterND
            let x = dims("x", 2, 1); let i = dims("i", 2, 1); let mut m = Model::new(13); m.input("x", F32, &decl(&x, mask));
            if var == 0 { if i[0] > x[0] || i[1] > x[1] { return; } m.input("i", I64, &decl(&i, 0)); m.input("u", F32, &decl(&i, 0)); out(&mut m, "ScatterElements", &["x", "i", "u"], &[], &[(x, F32)], true); }
            else { m.input("i", I64, &decl(&[i[0], 1], 0)); m.input("u", F32, &decl(&[i[0], x[1]], 0)); out(&mut m, "ScatterND", &["x", "i", "u"], &[], &[(x, F32)], true); }
        }
        8 => { // CumSum, Softmax, LogSoftmax, Hardmax
            let x = dims("x", 2, 1); let (a, _) = axis(2); let mut m = Model::new(13); m.input("x", F32, &decl(&x, mask));
            if var == 0 { m.init(&Tensor::i64("a", &[], &[a])); out(&mut m, "CumSum", &["x", "a"], &[], &[(x, F32)], true); }
            else { out(&mut m, ["", "Softmax", "LogSoftmax", "Hardmax"][var as usize], &["x"], &[Attr::Int("axis", a)], &[(x, F32)], true); }
        }
        9 => { // OneHot
            let r = var as usize; let x = dims("x", r, 1); let a = int("axis", -(r as i64) - 1, r as i64); let d = int("depth", 1, 4);
            let k = conc(if a < 0 { a + r as i64 + 1 } else { a }) as usize; let mut want = x.clone(); want.insert(k, d);
            let mut m = Model::new(11); m.input("x", I64, &decl(&x, mask)); m.init(&Tensor::i64("d", &[], &[d])); m.init(&Tensor::f32("v", &[2], &[0.0, 1.0]));
            out(&mut m, "OneHot", &["x", "d", "v"], &[Attr::Int("axis", a)], &[(want, F32)], true);
        }
        10 => { // NonZero: rank x unknown
            let r = var as usize; let x = dims("x", r, 1); let nz = int("nz", 0, 8); let mut m = Model::new(13); m.input("x", F32, &decl(&x, mask));
            out(&mut m, "NonZero", &["x"], &[], &[(vec![r as i64, nz], I64)], true);
        }
        11 => { // Range
            let (s, d) = (int("s", -3, 3), int("d", 1, 3)); let n = int("n", 0, 4); let mut m = Model::new(13);
            let l = s + n * d; m.init(&Tensor::i64("s", &[], &[s])); m.init(&Tensor::i64("l", &[], &[l])); m.init(&Tensor::i64("d", &[], &[d]));
            out(&mut m, "Range", &["s", "l", "d"], &[], &[(vec![n], I64)], true);
        }
        12 => { // MatMul of two ranks
            let (r, q) = ((var / 10) as usize, (var % 10) as usize); let x = dims("x", r, 1); let z = dims("z", q, 1);
            let (mut a, mut b) = (x.clone(), z.clone()); if r == 1 { a.insert(0, 1); } if q == 1 { b.push(1); }
            let (n, k) = (a.len(), b.len()); if a[n - 1] != b[k - 2] { return; }
            let Some(mut w) = bcast(&[&a[..n - 2], &b[..k - 2]]) else { return }; if r > 1 { w.push(a[n - 2]); } if q > 1 { w.push(b[k - 1]); }
            let mut m = Model::new(13); m.input("x", F32, &decl(&x, mask)); m.input("z", F32, &decl(&z, mask >> r));
            out(&mut m, "MatMul", &["x", "z"], &[], &[(w, F32)], r + q > 2);
        }
        13 => { // Gemm with transposes and an optional C
            let (i, j, k) = (int("i", 1, 4), int("j", 1, 4), int("k", 1, 4)); let (ta, tb) = (flag("ta"), flag("tb"));
            let (a, b) = (if ta { [k, i] } else { [i, k] }, if tb { [j, k] } else { [k, j] });
            let mut m = Model::new(13); m.input("a", F32, &decl(&a, mask)); m.input("b", F32, &decl(&b, 0)); let mut ins = vec!["a", "b"];
            match var { 1 => { m.input("c", F32, &decl(&[j], 0)); ins.push("c"); } 2 => { m.input("c", F32, &decl(&[i, j], 0)); ins.push("c"); } 3 => { m.input("c", F32, &decl(&[i, 1], 0)); ins.push("c"); } _ => {} }
            out(&mut m, "Gemm", &ins, &[Attr::Int("transA", ta as i64), Attr::Int("transB", tb as i64)], &[(vec![i, j], F32)], true);
        }
        14 => { // MatMul with a constant weight (turned into a linear layer), optional bias
            let r = (var / 10) as usize; let x = dims("x", r, 1); let k = 2; let j = pick("j", 1, 3); if x[r - 1] != k { return; }
            let mut w = x.clone(); w[r - 1] = j;
            let mut m = Model::new(13); m.input("x", F32, &decl(&x, mask)); m.init(&Tensor::f32("w", &[k, j], &vec![1.0; (k * j) as usize]));
            m.node("MatMul", "n0", &["x", "w"], &["t"], &[]);
            if var % 10 == 1 { m.init(&Tensor::f32("b", &[j], &vec![1.0; j as usize])); m.node("Add", "n1", &["t", "b"], &["y"], &[]); } else { m.node("Relu", "n1", &["t"], &["y"], &[]); }
            m.output("y", F32, &none(r)); run(&m, &[(w, F32)], true);
        }
        15 => { // Gemm with a constant weight
            let x = dims("x", 2, 1); let j = pick("j", 1, 3); let tb = flag("tb"); if x[1] != 2 { return; }
            let mut m = Model::new(13); m.input("x", F32, &decl(&x, mask)); m.init(&Tensor::f32("w", &if tb { [j, 2] } else { [2, j] }, &vec![1.0; 2 * j as usize])); m.init(&Tensor::f32("b", &[j], &vec![1.0; j as usize]));
            out(&mut m, "Gemm", &["x", "w", "b"], &[Attr::Int("transB", tb as i64)], &[(vec![x[0], j], F32)], true);
        }
        16 => { // Einsum-free attention: output shapes
            let (b, h, s, t, d, e) = (int("b", 1, 2), int("h", 1, 2), int("s", 1, 3), int("t", 1, 3), int("d", 1, 3), int("e", 1, 3));
            let mut m = Model::new(23); m.input("q", F32, &decl(&[b, h, s, d], mask)); m.input("k", F32, &decl(&[b, h, t, d], mask)); m.input("v", F32, &decl(&[b, h, t, e], mask));
            out(&mut m, "Attention", &["q", "k", "v"], &[], &[(vec![b, h, s, e], F32)], true);
        }
        _ => panic!("case"),
    }
}

const UN: &[&str] = &["Abs", "Ceil", "Cos", "Erf", "Exp", "Floor", "Identity", "LeakyRelu", "Log", "Neg", "Reciprocal", "Relu", "Round", "Sigmoid", "Sign", "Sin", "Sqrt", "Tan", "Tanh", "Softplus", "Softsign", "HardSigmoid", "Elu", "Selu", "Celu", "Clip", "Dropout", "ThresholdedRelu", "HardSwish", "Mish", "Gelu"];
pub fn elementwise() {
    let (case, mask, var) = (arg(0), arg(1), arg(2));
    match case {
        // binary operators on two ranks: var = operator*100 + rank*10 + rank; arg 3: first operand passes through an operator that hides its shape
        0 => {
            const OPS: [(&str, i32, i32); 14] = [("Add", 1, 1), ("Sub", 1, 1), ("Mul", 1, 1), ("Div", 1, 1), ("Pow", 1, 1), ("Equal", 1, 9), ("Less", 1, 9), ("GreaterOrEqual", 1, 9), ("And", 9, 9), ("Xor", 9, 9), ("Max", 1, 1), ("Min", 1, 1), ("Mod", 7, 7), ("PRelu", 1, 1)];
            let (op, r, q) = ((var / 100) as usize, (var / 10 % 10) as usize, (var % 10) as usize); let (n, ie, oe) = OPS[op];
            let x = dims("x", r, 1); let z = dims("z", q, 1); let Some(w) = bcast(&[&x, &z]) else { return };
            if n == "PRelu" { if w.len() != x.len() { return; } for (a, b) in w.iter().zip(&x) { if *a != *b { return; } } }
            let mut m = Model::new(18); let hide = arg(3) == 1;
            // Slice(x, 0..huge) keeps every element; the result's shape is unknown to the importer
            if hide { let mut d = x.clone(); d.push(1); m.input("x0", ie, &decl(&d, mask)); m.init(&Tensor::i64("zero", &[], &[0])); m.node("Gather", "h", &["x0", "zero"], &["x"], &[Attr::Int("axis", r as i64)]); } else { m.input("x", ie, &decl(&x, mask)); }
            m.input("z", ie, &decl(&z, mask >> r));
            let a = if n == "Mod" { vec![Attr::Int("fmod", 0)] } else { vec![] };
            out(&mut m, n, &["x", "z"], &a, &[(w, oe)], n != "PRelu" && n != "Mod");
        }
        1 => { // Where: ranks of condition, x, y in var
            let (a, b, c) = ((var / 100) as usize, (var / 10 % 10) as usize, (var % 10) as usize);
            let (p, x, z) = (dims("c", a, 1), dims("x", b, 1), dims("z", c, 1)); let Some(w) = bcast(&[&p, &x, &z]) else { return };
            let mut m = Model::new(16); m.input("c", BOOL, &decl(&p, mask)); m.input("x", F32, &decl(&x, mask >> a)); m.input("z", F32, &decl(&z, mask >> (a + b)));
            out(&mut m, "Where", &["c", "x", "z"], &[], &[(w, F32)], true);
        }
        2 => { // unary operators
            let x = dims("x", 3, 1); let mut m = Model::new(22); m.input("x", F32, &decl(&x, mask));
            out(&mut m, UN[var as usize], &["x"], &[], &[(x, F32)], var != 25 && var != 26);
        }
        3 => { // Cast to every element type, IsNaN, Not
            let x = dims("x", 2, 1); let mut m = Model::new(13); m.input("x", if var == 100 { BOOL } else { F32 }, &decl(&x, mask));
            match var { 100 => out(&mut m, "Not", &["x"], &[], &[(x, BOOL)], true), 101 => out(&mut m, "IsNaN", &["x"], &[], &[(x, BOOL)], true), 102 => out(&mut m, "IsInf", &["x"], &[], &[(x, BOOL)], true),
                to => out(&mut m, "Cast", &["x"], &[Attr::Int("to", to)], &[(x, to as i32)], true) }
        }
        4 => { // Sum, Max, Mean of three
            let (x, z, v) = (dims("x", 2, 1), dims("z", 1, 1), dims("v", 2, 1)); let Some(w) = bcast(&[&x, &z, &v]) else { return };
            let mut m = Model::new(13); m.input("x", F32, &decl(&x, mask)); m.input("z", F32, &decl(&z, 0)); m.input("v", F32, &decl(&v, 0));
            out(&mut m, ["Sum", "Max", "Min", "Mean"][var as usize], &["x", "z", "v"], &[], &[(w, F32)], false);
        }
        5 => { // arithmetic on shape values: Shape(x) op Shape(z) / constant
            let x = dims("x", 2, 1); let z = dims("z", var as usize, 1); let Some(w) = bcast(&[&[2], &[var]]) else { return };
            let mut m = Model::new(15); m.input("x", F32, &decl(&x, mask)); m.node("Shape", "n1", &["x"], &["s"], &[]);
            m.input("z", F32, &decl(&z, mask >> 2)); m.node("Shape", "n2", &["z"], &["t"], &[]);
            out(&mut m, ["Add", "Mul", "Equal", "Div"][arg(3) as usize], &["t", "s"], &[], &[(w, if arg(3) == 2 { BOOL } else { I64 })], false);
        }
        6 => { // a shape value combined with a constant vector / scalar, then cast and used
            let x = dims("x", 3, 1); let c = ints("c", var as usize, 1, 4); let Some(w) = bcast(&[&[3], &[var]]) else { return };
            let mut m = Model::new(15); m.input("x", F32, &decl(&x, mask)); m.node("Shape", "n1", &["x"], &["s"], &[]);
            m.init(&Tensor::i64("c", &[var], &c));
            out(&mut m, ["Add", "Mul", "Max", "Sub"][arg(3) as usize], if arg(4) == 1 { &["c", "s"] } else { &["s", "c"] }, &[], &[(w, I64)], false);
        }
        7 => { // Where over shapes and constants (the usual Expand idiom)
            let x = dims("x", 3, 1); let c = ints("c", 3, -1, 4); let mut m = Model::new(15); m.input("x", F32, &decl(&x, mask)); m.node("Shape", "n1", &["x"], &["s"], &[]);
            m.init(&Tensor::i64("c", &[3], &c)); m.init(&Tensor::i64("k", &[3], &[-1, -1, -1])); m.node("Equal", "n2", &["c", "k"], &["e"], &[]);
            out(&mut m, "Where", &["e", "s", "c"], &[], &[(vec![3], I64)], true);
        }
        _ => panic!("case"),
    }
}
