//! Meaning of an imported graph: every IR node is turned into the ONNX
//! operator it stands for, with the attributes its configuration carries, and
//! evaluated with the reference semantics.
use onnx_ir::node::*;
use onnx_ir::padding::*;
use onnx_ir::{ArgType, Argument, DType, Node, OnnxGraph, RuntimeInputRef, TensorData, ValueSource};
use sem::ops::{A, op};
use sem::{E, V, k};
use symrt::*;

pub fn code(d: DType) -> i32 { match d { DType::F32 => 1, DType::U8 => 2, DType::I8 => 3, DType::U16 => 4, DType::I16 => 5, DType::I32 => 6, DType::I64 => 7, DType::Bool => 9, DType::F16 => 10, DType::F64 => 11, DType::U32 => 12, DType::U64 => 13, DType::BF16 => 16, _ => 0 } }
fn cf(bits: i64, wide: bool) -> E { let b = conc(bits) as u64; k(if wide { f64::from_bits(b) } else { f32::from_bits(b as u32) as f64 }) }
/// value of stored tensor data, decoded independently of the importer
pub fn val(d: &TensorData) -> V {
    let b = d.as_bytes(); let mut o = vec![];
    match d.dtype {
        DType::F32 => for c in b.chunks_exact(4) { o.push(cf(u32::from_le_bytes([c[0], c[1], c[2], c[3]]) as i64, false)); },
        DType::F64 => for c in b.chunks_exact(8) { o.push(cf(i64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]), true)); },
        DType::I64 | DType::U64 => for c in b.chunks_exact(8) { o.push(E::I(i64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]))); },
        DType::I32 => for c in b.chunks_exact(4) { o.push(E::I(i32::from_le_bytes([c[0], c[1], c[2], c[3]]) as i64)); },
        DType::U32 => for c in b.chunks_exact(4) { o.push(E::I(u32::from_le_bytes([c[0], c[1], c[2], c[3]]) as i64)); },
        DType::I16 => for c in b.chunks_exact(2) { o.push(E::I(i16::from_le_bytes([c[0], c[1]]) as i64)); },
        DType::U16 => for c in b.chunks_exact(2) { o.push(E::I(u16::from_le_bytes([c[0], c[1]]) as i64)); },
        DType::I8 => for c in b { o.push(E::I(*c as i8 as i64)); }, DType::U8 | DType::Bool => for c in b { o.push(E::I(*c as i64)); },
        _ => {}
    }
    V { s: d.shape.iter().map(|v| conc(*v as i64) as usize).collect(), d: o, t: code(d.dtype) }
}
pub type Env = Vec<(String, V)>;
fn look(env: &Env, n: &str) -> Option<V> { env.iter().rev().find(|(k, _)| k == n).map(|(_, v)| v.clone()) }
pub fn arg_val(a: &Argument, env: &Env) -> Option<V> {
    match a.value_source {
        ValueSource::Optional => None,
        ValueSource::Static(_) => { let d = a.value(); check(d.is_some(), "a constant operand has no data"); d.as_ref().map(val) }
        ValueSource::Constant => match a.value() { Some(d) => Some(val(&d)), None => { let v = look(env, &a.name); check(v.is_some(), "a constant operand has no data"); v } },
        ValueSource::Dynamic => { let v = look(env, &a.name); check(v.is_some(), "an operand refers to a value that nothing has produced"); v }
    }
}
/// is the claimed type right for the value? a rank-0 tensor is held with rank 1 in generated code
pub fn fits(ty: &ArgType, v: &V) {
    match ty {
        ArgType::Tensor(t) => {
            let s = if v.s.is_empty() { vec![1] } else { v.s.clone() };
            check(t.rank == s.len(), "claimed rank is not the value's rank");
            check(code(t.dtype) == v.t, "claimed element type is not the value's");
            if let Some(c) = &t.static_shape && c.len() == s.len() { for (c, w) in c.iter().zip(&s) { if let Some(c) = c { check(c == w, "claimed dimension is not the value's"); } } }
        }
        ArgType::Shape(n) => check(v.s.len() == 1 && v.s[0] == *n, "a shape value stands for a tensor of another rank or length"),
        ArgType::ScalarTensor(d) | ArgType::ScalarNative(d) => { check(v.s.len() <= 1 && v.d.len() == 1, "a scalar stands for a tensor with more than one element"); check(code(*d) == v.t, "claimed element type is not the value's"); }
    }
}
fn p1(a: A, p: &PaddingConfig1d, m: &AutoPad) -> A { let a = match p { PaddingConfig1d::Valid => a, PaddingConfig1d::Explicit(l, r) => a.set_is("pads", vec![*l as i64, *r as i64]) }; auto(a, m) }
fn p2(a: A, p: &PaddingConfig2d, m: &AutoPad) -> A { let a = match p { PaddingConfig2d::Valid => a, PaddingConfig2d::Explicit(t, l, b, r) => a.set_is("pads", vec![*t as i64, *l as i64, *b as i64, *r as i64]) }; auto(a, m) }
fn p3(a: A, p: &PaddingConfig3d, m: &AutoPad) -> A { let a = match p { PaddingConfig3d::Valid => a, PaddingConfig3d::Explicit(f, t, l, k, b, r) => a.set_is("pads", [f, t, l, k, b, r].iter().map(|v| **v as i64).collect()) }; auto(a, m) }
fn auto(a: A, m: &AutoPad) -> A { match m { AutoPad::NotSet => a, AutoPad::SameUpper => a.set_s("auto_pad", "SAME_UPPER"), AutoPad::SameLower => a.set_s("auto_pad", "SAME_LOWER"), AutoPad::Valid => a.set_s("auto_pad", "VALID") } }
fn u(v: &[usize]) -> Vec<i64> { v.iter().map(|x| *x as i64).collect() }
fn b(v: bool) -> i64 { v as i64 }
fn win(a: A, kern: &[usize], st: &[usize], dil: &[usize]) -> A { a.set_is("kernel_shape", u(kern)).set_is("strides", u(st)).set_is("dilations", u(dil)) }

pub enum Next { Op(String, Vec<Option<V>>, A), Done(Option<Vec<V>>) }
/// the operator an IR node stands for
pub fn meaning(n: &Node, env: &Env) -> Next {
    let ins: Vec<Option<V>> = n.inputs().iter().map(|a| arg_val(a, env)).collect();
    let rt = |r: &RuntimeInputRef| -> Option<V> { let a = n.inputs().get(r.input_index); check(a.is_some(), "a runtime operand index is out of range"); a.and_then(|a| arg_val(a, env)) };
    let x = ins.first().cloned().flatten();
    let iv = |v: &[i64]| Some(V::ints(&[v.len()], v)); let sc = |v: i64| Some(V::ints(&[], &[v])); let fs = |v: f64, t: i32| Some(V::scalar(k(v), t));
    let mut a = A::new(); let mut i = ins.clone();
    macro_rules! plain { ($($v:ident)*) => { match n { $(Node::$v(_) => Some(stringify!($v)),)* _ => None } } }
    if let Some(nm) = plain!(Add Sub Mul Div Neg Abs Pow Reciprocal Sqrt Exp Log Ceil Floor Round Sign Erf Sin Cos Tan Asin Acos Atan Sinh Cosh Tanh Asinh Acosh Atanh Relu Sigmoid Gelu Mish Softplus Softsign HardSwish PRelu Equal Greater GreaterOrEqual Less LessOrEqual And Or Xor Not Where BitwiseAnd BitwiseOr BitwiseXor BitwiseNot Max Min Mean Sum MatMul Size Identity GlobalAveragePool NonZero IsNaN Bernoulli GlobalMaxPool CastLike) { return Next::Op(nm.into(), i, a); }
    let nm: &str = match n {
        Node::Constant(c) => { let d = c.outputs[0].value().or_else(|| c.inputs.first().and_then(|a| a.value())); check(d.is_some(), "a Constant node has no data"); return Next::Done(d.map(|d| vec![val(&d)])); }
        Node::Softmax(c) => { a = a.set_i("axis", c.config.axis as i64); "Softmax" } Node::LogSoftmax(c) => { a = a.set_i("axis", c.config.axis as i64); "LogSoftmax" }
        Node::LeakyRelu(c) => { a = a.set_f("alpha", c.config.alpha); "LeakyRelu" } Node::HardSigmoid(c) => { a = a.set_f("alpha", c.config.alpha).set_f("beta", c.config.beta); "HardSigmoid" }
        Node::Elu(c) => { a = a.set_f("alpha", c.config.alpha); "Elu" } Node::Celu(c) => { a = a.set_f("alpha", c.config.alpha); "Celu" } Node::Selu(c) => { a = a.set_f("alpha", c.config.alpha).set_f("gamma", c.config.gamma); "Selu" }
        Node::ThresholdedRelu(c) => { a = a.set_f("alpha", c.config.alpha); "ThresholdedRelu" } Node::Swish(c) => { a = a.set_f("alpha", c.config.alpha); "Swish" }
        Node::Hardmax(c) => { a = a.set_i("axis", c.config.axis as i64); "Hardmax" }
        Node::BitShift(c) => { a = a.set_s("direction", match c.config.direction { bitshift::Direction::Left => "LEFT", bitshift::Direction::Right => "RIGHT" }); "BitShift" }
        Node::ArgMax(c) => { a = a.set_i("axis", c.config.axis as i64).set_i("keepdims", b(c.config.keepdims)); "ArgMax" } Node::ArgMin(c) => { a = a.set_i("axis", c.config.axis as i64).set_i("keepdims", b(c.config.keepdims)); "ArgMin" }
        Node::ReduceMax(_) | Node::ReduceMin(_) | Node::ReduceMean(_) | Node::ReduceSum(_) | Node::ReduceProd(_) | Node::ReduceL1(_) | Node::ReduceL2(_) | Node::ReduceLogSum(_) | Node::ReduceLogSumExp(_) | Node::ReduceSumSquare(_) => {
            macro_rules! red { ($($v:ident)*) => { match n { $(Node::$v(c) => (stringify!($v), &c.config),)* _ => unreachable!() } } }
            let (nm, c) = red!(ReduceMax ReduceMin ReduceMean ReduceSum ReduceProd ReduceL1 ReduceL2 ReduceLogSum ReduceLogSumExp ReduceSumSquare);
            i.truncate(1); a = a.set_i("keepdims", b(c.keepdims)); if !c.dims.is_empty() { a = a.set_is("axes", u(&c.dims)); } nm
        }
        Node::Cast(c) => { a = a.set_i("to", code(c.config.to) as i64); "Cast" }
        Node::Clip(c) => { let t = x.as_ref().map_or(1, |v| v.t); let f = |l: &Option<clip::ClipInput>| match l { None => None, Some(clip::ClipInput::Static(v)) => if sem::is_int(t) { Some(V::scalar(E::I(*v as i64), t)) } else { fs(*v, t) }, Some(clip::ClipInput::Runtime(r)) => rt(r) }; i = vec![x, f(&c.config.min), f(&c.config.max)]; "Clip" }
        Node::Concat(c) => { for (v, a) in i.iter_mut().zip(&c.inputs) { if let Some(v) = v && v.s.is_empty() && !matches!(a.ty, ArgType::Tensor(_)) { v.s = vec![1]; } } a = a.set_i("axis", c.config.axis as i64); "Concat" }
        Node::Expand(c) => { i = vec![x, match &c.config { expand::ExpandConfig::Static(v) => iv(v), expand::ExpandConfig::Runtime(r) => rt(r) }]; "Expand" }
        Node::Flatten(c) => { a = a.set_i("axis", c.config.axis as i64); "Flatten" }
        Node::Gather(c) => { a = a.set_i("axis", c.config.axis as i64); "Gather" }
        Node::GatherElements(c) => { a = a.set_i("axis", c.config.axis as i64); "GatherElements" }
        Node::GatherND(c) => { a = a.set_i("batch_dims", c.config.batch_dims as i64); "GatherND" }
        Node::Pad(c) => { let t = x.as_ref().map_or(1, |v| v.t); let p = match &c.config.pads { pad::PadInput::Static(l) => { let mut v: Vec<i64> = l.iter().map(|p| p.0 as i64).collect(); v.extend(l.iter().map(|p| p.1 as i64)); iv(&v) } pad::PadInput::Runtime(r) => rt(r) };
            let z = match &c.config.constant_value { pad::ConstantValueInput::Static(v) => if sem::is_int(t) { Some(V::scalar(E::I(*v as i64), t)) } else { fs(*v as f64, t) }, pad::ConstantValueInput::Runtime(r) => rt(r) };
            a = a.set_s("mode", match c.config.mode { pad::PadMode::Constant => "constant", pad::PadMode::Reflect => "reflect", pad::PadMode::Edge => "edge" }); i = vec![x, p, z]; "Pad" }
        Node::Reshape(c) => { i = vec![x, match &c.config.shape { reshape::ReshapeInput::Static(v) => iv(v), reshape::ReshapeInput::Runtime(r) => rt(r) }]; "Reshape" }
        Node::ScatterElements(c) => { use scatter_elements::ScatterElementsReduction::*; a = a.set_i("axis", c.config.axis as i64).set_s("reduction", match c.config.reduction { None => "none", Add => "add", Mul => "mul", Max => "max", Min => "min" }); "ScatterElements" }
        Node::ScatterND(c) => { use scatter_nd::ScatterNDReduction::*; a = a.set_s("reduction", match c.config.reduction { None => "none", Add => "add", Mul => "mul", Max => "max", Min => "min" }); "ScatterND" }
        Node::Shape(c) => { a = a.set_i("start", c.config.start as i64).set_i("end", c.config.end as i64); "Shape" }
        Node::Slice(c) => { let f = |s: &slice::SliceInput| match s { slice::SliceInput::Static(v) => iv(v), slice::SliceInput::Runtime(r) => rt(r) }; i = vec![x, f(&c.config.starts), f(&c.config.ends), c.config.axes.as_ref().and_then(f), c.config.steps.as_ref().and_then(f)]; "Slice" }
        Node::Split(c) => { let m = c.outputs.len(); a = a.set_i("axis", c.config.axis as i64);
            let sz = match (&c.config.split_sizes, c.config.split_size) { (Some(split::SplitSizesInput::Static(v)), _) => iv(&u(v)), (Some(split::SplitSizesInput::Runtime(r)), _) => rt(r), (None, Some(q)) => x.as_ref().and_then(|x| { let mut l = *x.s.get(c.config.axis)? as i64; let q = q as i64; iv(&(0..m).map(|_| { let t = q.min(l); l -= t; t }).collect::<Vec<_>>()) }), _ => Option::None }; i = vec![x, sz]; "Split" }
        Node::Squeeze(c) => { i = vec![x, match &c.config.axes { None => None, Some(squeeze::SqueezeInput::Static(v)) => iv(v), Some(squeeze::SqueezeInput::Runtime(r)) => rt(r) }]; "Squeeze" }
        Node::Unsqueeze(c) => { i = vec![x, match &c.config { unsqueeze::UnsqueezeConfig::Static(v) => iv(v), unsqueeze::UnsqueezeConfig::Runtime(r) => rt(r) }]; "Unsqueeze" }
        Node::Tile(c) => { i = vec![x, match &c.config.repeats { tile::TileInput::Static(v) => iv(&u(v)), tile::TileInput::Runtime(r) => rt(r) }]; "Tile" }
        Node::Transpose(c) => { a = a.set_is("perm", c.config.perm.clone()); "Transpose" }
        Node::DepthToSpace(c) => { a = a.set_i("blocksize", c.config.block_size as i64).set_s("mode", match c.config.mode { depth_to_space::DepthToSpaceMode::Dcr => "DCR", _ => "CRD" }); "DepthToSpace" }
        Node::SpaceToDepth(c) => { a = a.set_i("blocksize", c.config.block_size as i64); "SpaceToDepth" }
        Node::Gemm(c) => { a = a.set_f("alpha", c.config.alpha as f64).set_f("beta", c.config.beta as f64).set_i("transA", c.config.trans_a).set_i("transB", c.config.trans_b); "Gemm" }
        // the importer keeps the weight of a Linear as [in, out] unless transpose_weight is set
        Node::Linear(c) => { // a module: its parameters are constants of exactly these shapes
            let w = c.inputs[1].value().map(|w| w.shape.to_vec()); let q = c.inputs.get(2).map(|q| q.value().map(|q| q.shape.to_vec()));
            let Some(w) = w else { return Next::Done(None) }; let m = w.get(if c.config.transpose_weight { 0 } else { 1 });
            if w.len() != 2 || !q.is_none_or(|q| q.is_some_and(|q| q.len() == 1 && Some(&q[0]) == m)) { return Next::Done(None); }
            a = a.set_i("transpose_weight", b(c.config.transpose_weight)); "Linear" }
        Node::Conv1d(c) => { let c = &c.config; a = p1(win(a, &[c.kernel_size], &[c.stride], &[c.dilation]).set_i("group", c.groups as i64), &c.padding, &c.auto_pad); "Conv" }
        Node::Conv2d(c) => { let c = &c.config; a = p2(win(a, &c.kernel_size, &c.stride, &c.dilation).set_i("group", c.groups as i64), &c.padding, &c.auto_pad); "Conv" }
        Node::Conv3d(c) => { let c = &c.config; a = p3(win(a, &c.kernel_size, &c.stride, &c.dilation).set_i("group", c.groups as i64), &c.padding, &c.auto_pad); "Conv" }
        Node::ConvTranspose1d(c) => { let c = &c.config; let p = c.padding as i64; a = win(a, &[c.kernel_size], &[c.stride], &[c.dilation]).set_i("group", c.groups as i64).set_is("pads", vec![p, p]).set_is("output_padding", vec![c.padding_out as i64]); "ConvTranspose" }
        Node::ConvTranspose2d(c) => { let c = &c.config; let mut p = u(&c.padding); p.extend(u(&c.padding)); a = win(a, &c.kernel_size, &c.stride, &c.dilation).set_i("group", c.groups as i64).set_is("pads", p).set_is("output_padding", u(&c.padding_out)); "ConvTranspose" }
        Node::ConvTranspose3d(c) => { let c = &c.config; let mut p = u(&c.padding); p.extend(u(&c.padding)); a = win(a, &c.kernel_size, &c.stride, &c.dilation).set_i("group", c.groups as i64).set_is("pads", p).set_is("output_padding", u(&c.padding_out)); "ConvTranspose" }
        Node::AveragePool1d(c) => { let c = &c.config; a = p1(win(a, &[c.kernel_size], &[c.stride], &[c.dilation]), &c.padding, &c.auto_pad).set_i("ceil_mode", b(c.ceil_mode)).set_i("count_include_pad", b(c.count_include_pad)); "AveragePool" }
        Node::AveragePool2d(c) => { let c = &c.config; a = p2(win(a, &c.kernel_size, &c.strides, &c.dilation), &c.padding, &c.auto_pad).set_i("ceil_mode", b(c.ceil_mode)).set_i("count_include_pad", b(c.count_include_pad)); "AveragePool" }
        Node::MaxPool1d(c) => { let c = &c.config; a = p1(win(a, &[c.kernel_size], &[c.stride], &[c.dilation]), &c.padding, &c.auto_pad).set_i("ceil_mode", b(c.ceil_mode)); "MaxPool" }
        Node::MaxPool2d(c) => { let c = &c.config; a = p2(win(a, &c.kernel_size, &c.strides, &c.dilation), &c.padding, &c.auto_pad).set_i("ceil_mode", b(c.ceil_mode)); "MaxPool" }
        Node::BatchNormalization(c) => { let e = match &c.config { batch_norm::BatchNormConfig::Static(c) => c.epsilon, batch_norm::BatchNormConfig::Runtime(c) => c.epsilon }; a = a.set_f("epsilon", e); "BatchNormalization" }
        Node::InstanceNormalization(c) => { a = a.set_f("epsilon", c.config.epsilon); "InstanceNormalization" }
        Node::LayerNormalization(c) => { a = a.set_f("epsilon", c.config.epsilon); "LayerNormalization" }
        Node::GroupNormalization(c) => { a = a.set_f("epsilon", c.config.epsilon).set_i("num_groups", c.config.num_groups as i64); "GroupNormalization" }
        Node::Dropout(_) => "Dropout",
        Node::Attention(c) => { let c = &c.config; a = a.set_i("is_causal", b(c.is_causal)).set_f("softcap", c.softcap); if let Some(s) = c.scale { a = a.set_f("scale", s); } "Attention" }
        Node::ConstantOfShape(c) => { if let Some(v) = &c.config.value { a = a.set_t("value", val(v)); } i = vec![match &c.config.shape { constant_of_shape::ConstantOfShapeShape::Static(v) => iv(v), constant_of_shape::ConstantOfShapeShape::Runtime(r) => rt(r) }]; "ConstantOfShape" }
        Node::EyeLike(c) => { a = a.set_i("k", c.config.k); if let Some(d) = c.config.dtype { a = a.set_i("dtype", code(d) as i64); } "EyeLike" }
        Node::RandomNormal(c) => { a = a.set_is("shape", u(&c.config.shape)).set_f("mean", c.config.mean).set_f("scale", c.config.scale); "RandomNormal" } Node::RandomUniform(c) => { a = a.set_is("shape", u(&c.config.shape)).set_f("low", c.config.low).set_f("high", c.config.high); "RandomUniform" }
        Node::RandomNormalLike(c) => { a = a.set_f("mean", c.config.mean).set_f("scale", c.config.scale); "RandomNormalLike" } Node::RandomUniformLike(c) => { a = a.set_f("low", c.config.low).set_f("high", c.config.high); "RandomUniformLike" }
        Node::Range(c) => { let f = |r: &range::RangeInput| match r { range::RangeInput::Static(v) => sc(*v), range::RangeInput::Runtime(r) => rt(r) }; i = vec![f(&c.config.start), f(&c.config.limit), f(&c.config.delta)]; "Range" }
        Node::OneHot(c) => { let t = ins.get(2).cloned().flatten().map_or(1, |v| v.t); let d = match &c.config.depth { one_hot::OneHotDepthInput::Static(v) => sc(*v as i64), one_hot::OneHotDepthInput::Runtime(r) => rt(r) }; let v = match &c.config.values { one_hot::OneHotValuesInput::Static(v) => Some(V::new(&[2], v.iter().map(|q| if sem::is_int(t) { E::I(*q as i64) } else { k(*q as f64) }).collect(), t)), one_hot::OneHotValuesInput::Runtime(r) => rt(r) }; a = a.set_i("axis", c.config.axis); i = vec![x, d, v]; "OneHot" }
        Node::IsInf(c) => { a = a.set_i("detect_negative", b(c.config.detect_negative)).set_i("detect_positive", b(c.config.detect_positive)); "IsInf" }
        Node::TopK(c) => { a = a.set_i("axis", c.config.axis as i64); i = vec![x, match &c.config.k { topk::TopKInput::Static(v) => sc(*v as i64), topk::TopKInput::Runtime(r) => rt(r) }]; "TopK" }
        Node::Trilu(c) => { a = a.set_i("upper", b(c.config.upper)); i = vec![x, sc(c.config.diagonal)]; "Trilu" }
        Node::Mod(c) => { a = a.set_i("fmod", b(c.config.fmod)); "Mod" }
        Node::CumSum(c) => { a = a.set_i("exclusive", b(c.config.exclusive)).set_i("reverse", b(c.config.reverse)); i = vec![x, match &c.config.axis { cumsum::CumSumAxis::Static(v) => sc(*v as i64), cumsum::CumSumAxis::Runtime(r) => rt(r) }]; "CumSum" }
        _ => return Next::Done(None),
    };
    Next::Op(nm.into(), i, a)
}
/// two ends of an edge agree: same kind, element type and rank, and no two different known dimensions
pub fn same_type(a: &ArgType, b: &ArgType) -> bool {
    match (a, b) {
        (ArgType::Tensor(p), ArgType::Tensor(q)) => p.dtype == q.dtype && p.rank == q.rank && match (&p.static_shape, &q.static_shape) { (Some(p), Some(q)) => p.len() == q.len() && p.iter().zip(q).all(|(x, y)| match (x, y) { (Some(x), Some(y)) => x == y, _ => true }), _ => true },
        _ => a == b,
    }
}
/// well-formedness: every operand is produced before it is used, under the same type, and names are unique
pub fn well_formed(g: &OnnxGraph, outer: &[String]) {
    let mut known: Vec<(&str, Option<&ArgType>)> = outer.iter().map(|s| (s.as_str(), None)).collect();
    fn find<'a>(known: &[(&str, Option<&'a ArgType>)], n: &str) -> Option<Option<&'a ArgType>> { known.iter().find(|k| k.0 == n).map(|k| k.1) }
    for a in &g.inputs { check(!a.name.is_empty() && find(&known, &a.name).is_none(), "two graph inputs share a name"); known.push((&a.name, Some(&a.ty))); }
    let mut names: Vec<&str> = vec![];
    for n in &g.nodes {
        check(!names.contains(&n.name()), "two nodes share a name"); names.push(n.name());
        for a in n.inputs() { if matches!(a.value_source, ValueSource::Dynamic) || matches!(a.value_source, ValueSource::Constant) {
            let k = find(&known, &a.name); check(k.is_some(), "a node uses a value before anything produces it");
            if let Some(Some(t)) = k { if arg(7) != 0 && !symbolic() { eprintln!("{} {} {:?} {:?}", n.name(), a.name, t, a.ty); } check(same_type(t, &a.ty), "a node uses a value under another type than it is produced with"); }
        } }
        for a in n.outputs() { if !a.name.is_empty() { check(find(&known, &a.name).is_none(), "two values share a name"); known.push((&a.name, Some(&a.ty))); } }
    }
    for a in &g.outputs { match a.value_source { ValueSource::Static(_) => check(a.value().is_some(), "a constant graph output has no data"), _ => {
        let k = find(&known, &a.name); check(k.is_some(), "a graph output is not produced by anything");
        if let Some(Some(t)) = k { check(same_type(t, &a.ty), "a graph output has another type than the value it names"); }
    } } }
}
/// evaluate an imported graph; None where the reference gives no meaning
pub fn eval(g: &OnnxGraph, inputs: &[(&str, V)], types: bool) -> Option<Vec<V>> {
    sem::ops::reset();
    let mut env: Env = vec![];
    check(g.inputs.len() == inputs.len(), "number of graph inputs changed");
    for (a, (_, v)) in g.inputs.iter().zip(inputs) { if types { fits(&a.ty, v); } env.push((a.name.clone(), v.clone())); }
    for n in &g.nodes {
        let o = match meaning(n, &env) { Next::Op(nm, i, a) => op(&nm, &i, &a, 24, n.outputs().len()), Next::Done(o) => o };
        let Some(o) = o else { print("no meaning for node "); print(n.name()); return None };
        for (a, v) in n.outputs().iter().zip(o) { if types { fits(&a.ty, &v); } if !a.name.is_empty() { env.push((a.name.clone(), v)); } }
    }
    g.outputs.iter().map(|a| { let v = arg_val(a, &env)?; if types { fits(&a.ty, &v); } Some(v) }).collect()
}
