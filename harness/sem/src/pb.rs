//! Minimal ONNX protobuf writer. Varints that may carry symbolic payloads use a
//! fixed ten-byte form, so encoding and decoding do not branch on the payload.
pub fn varint(out: &mut Vec<u8>, v: u64) {
    for i in 0..10 { let b = if i < 9 { (v >> (7 * i)) as u8 & 0x7f } else { (v >> 63) as u8 }; out.push(if i < 9 { b | 0x80 } else { b }); }
}
pub fn small(out: &mut Vec<u8>, mut v: u64) { while v >= 0x80 { out.push(v as u8 | 0x80); v >>= 7; } out.push(v as u8); }
pub fn tag(out: &mut Vec<u8>, field: u32, wire: u32) { small(out, (field << 3 | wire) as u64); }
pub fn f_int(out: &mut Vec<u8>, field: u32, v: i64) { tag(out, field, 0); varint(out, v as u64); }
pub fn f_small(out: &mut Vec<u8>, field: u32, v: u64) { tag(out, field, 0); small(out, v); }
pub fn f_bytes(out: &mut Vec<u8>, field: u32, b: &[u8]) { tag(out, field, 2); small(out, b.len() as u64); out.extend_from_slice(b); }
pub fn f_f32(out: &mut Vec<u8>, field: u32, v: u32) { tag(out, field, 5); out.extend_from_slice(&v.to_le_bytes()); }

#[derive(Clone)]
pub enum Dim<'a> { Val(i64), Param(&'a str), None }
#[derive(Clone)]
pub enum Attr<'a> { Int(&'a str, i64), Ints(&'a str, Vec<i64>), Float(&'a str, u32), Floats(&'a str, Vec<u32>), Str(&'a str, &'a [u8]), Tensor(&'a str, Vec<u8>), Graph(&'a str, Vec<u8>), Sub(&'a str, &'a Model) }

/// TensorProto
#[derive(Clone, Default)]
pub struct Tensor { pub name: String, pub dims: Vec<i64>, pub dtype: i32, pub raw: Option<Vec<u8>>, pub int64: Vec<i64>, pub int32: Vec<i32>, pub float: Vec<u32>, pub extra: Vec<u8> }
impl Tensor {
    pub fn i64(name: &str, dims: &[i64], v: &[i64]) -> Tensor { let mut raw = vec![]; for x in v { raw.extend_from_slice(&x.to_le_bytes()); } Tensor { name: name.into(), dims: dims.to_vec(), dtype: 7, raw: Some(raw), ..Default::default() } }
    pub fn f32(name: &str, dims: &[i64], v: &[f32]) -> Tensor { let mut raw = vec![]; for x in v { raw.extend_from_slice(&x.to_bits().to_le_bytes()); } Tensor { name: name.into(), dims: dims.to_vec(), dtype: 1, raw: Some(raw), ..Default::default() } }
    pub fn bools(name: &str, dims: &[i64], v: &[i64]) -> Tensor { Tensor { name: name.into(), dims: dims.to_vec(), dtype: 9, raw: Some(v.iter().map(|x| *x as u8).collect()), ..Default::default() } }
    /// the tensor's value, read independently of the importer
    pub fn val(&self) -> crate::V {
        let s: Vec<usize> = self.dims.iter().map(|d| symrt::conc(*d) as usize).collect(); let mut d = vec![];
        let r: &[u8] = self.raw.as_deref().unwrap_or(&[]);
        match self.dtype {
            7 => { for c in r.chunks(8) { if c.len() == 8 { d.push(crate::E::I(i64::from_le_bytes([c[0], c[1], c[2], c[3], c[4], c[5], c[6], c[7]]))); } } for v in &self.int64 { d.push(crate::E::I(*v)); } }
            6 => for c in r.chunks(4) { if c.len() == 4 { d.push(crate::E::I(i32::from_le_bytes([c[0], c[1], c[2], c[3]]) as i64)); } }
            9 => for c in r { d.push(crate::E::I(*c as i64)); }
            1 => { for c in r.chunks(4) { if c.len() == 4 { let b = u32::from_le_bytes([c[0], c[1], c[2], c[3]]); d.push(crate::k(f32::from_bits(symrt::conc(b as i64) as u32) as f64)); } } for v in &self.float { d.push(crate::k(f32::from_bits(*v) as f64)); } }
            _ => {}
        }
        crate::V { s, d, t: self.dtype }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        for &d in &self.dims { f_int(&mut o, 1, d); }
        f_small(&mut o, 2, self.dtype as u64);
        for &v in &self.float { f_f32(&mut o, 4, v); }
        for &v in &self.int32 { f_int(&mut o, 5, v as i64); }
        for &v in &self.int64 { f_int(&mut o, 7, v); }
        if !self.name.is_empty() { f_bytes(&mut o, 8, self.name.as_bytes()); }
        if let Some(r) = &self.raw { f_bytes(&mut o, 9, r); }
        o.extend_from_slice(&self.extra);
        o
    }
}
pub fn type_proto(elem: i32, dims: Option<&[Dim]>) -> Vec<u8> {
    let mut t = vec![];
    f_small(&mut t, 1, elem as u64);
    if let Some(dims) = dims {
        let mut s = vec![];
        for d in dims { let mut x = vec![]; match d { Dim::Val(v) => f_int(&mut x, 1, *v), Dim::Param(p) => f_bytes(&mut x, 2, p.as_bytes()), Dim::None => {} } f_bytes(&mut s, 1, &x); }
        f_bytes(&mut t, 2, &s);
    }
    let mut ty = vec![];
    f_bytes(&mut ty, 1, &t);
    ty
}
pub fn value_info(name: &str, elem: i32, dims: Option<&[Dim]>) -> Vec<u8> {
    let mut v = vec![];
    f_bytes(&mut v, 1, name.as_bytes());
    f_bytes(&mut v, 2, &type_proto(elem, dims));
    v
}
pub fn attr(a: &Attr) -> Vec<u8> {
    let mut o = vec![];
    match a {
        Attr::Int(n, v) => { f_bytes(&mut o, 1, n.as_bytes()); f_int(&mut o, 3, *v); f_small(&mut o, 20, 2); }
        Attr::Ints(n, v) => { f_bytes(&mut o, 1, n.as_bytes()); for x in v { f_int(&mut o, 8, *x); } f_small(&mut o, 20, 7); }
        Attr::Float(n, v) => { f_bytes(&mut o, 1, n.as_bytes()); f_f32(&mut o, 2, *v); f_small(&mut o, 20, 1); }
        Attr::Floats(n, v) => { f_bytes(&mut o, 1, n.as_bytes()); for x in v { f_f32(&mut o, 7, *x); } f_small(&mut o, 20, 6); }
        Attr::Str(n, v) => { f_bytes(&mut o, 1, n.as_bytes()); f_bytes(&mut o, 4, v); f_small(&mut o, 20, 3); }
        Attr::Tensor(n, v) => { f_bytes(&mut o, 1, n.as_bytes()); f_bytes(&mut o, 5, v); f_small(&mut o, 20, 4); }
        Attr::Sub(n, m) => { f_bytes(&mut o, 1, n.as_bytes()); f_bytes(&mut o, 6, &m.graph); f_small(&mut o, 20, 5); }
        Attr::Graph(n, v) => { f_bytes(&mut o, 1, n.as_bytes()); f_bytes(&mut o, 6, v); f_small(&mut o, 20, 5); }
    }
    o
}
/// the model as written: bytes for the importer, a list of nodes for the reference
#[derive(Clone)]
pub struct NodeAst { pub op: String, pub name: String, pub ins: Vec<String>, pub outs: Vec<String>, pub attrs: crate::ops::A }
#[derive(Clone)]
pub struct Model { pub opset: i64, pub graph: Vec<u8>, pub nodes: Vec<NodeAst>, pub inits: Vec<Tensor>, pub inputs: Vec<String>, pub outputs: Vec<String> }
impl Model {
    pub fn new(opset: i64) -> Model { Model { opset, graph: vec![], nodes: vec![], inits: vec![], inputs: vec![], outputs: vec![] } }
    pub fn input(&mut self, name: &str, elem: i32, dims: &[Dim]) { self.inputs.push(name.into()); f_bytes(&mut self.graph, 11, &value_info(name, elem, Some(dims))); }
    pub fn output(&mut self, name: &str, elem: i32, dims: &[Dim]) { self.outputs.push(name.into()); f_bytes(&mut self.graph, 12, &value_info(name, elem, Some(dims))); }
    pub fn value(&mut self, name: &str, elem: i32, dims: &[Dim]) { f_bytes(&mut self.graph, 13, &value_info(name, elem, Some(dims))); }
    /// an input or output without a shape
    pub fn input_noshape(&mut self, name: &str, elem: i32) { self.inputs.push(name.into()); f_bytes(&mut self.graph, 11, &value_info(name, elem, None)); }
    pub fn output_noshape(&mut self, name: &str, elem: i32) { self.outputs.push(name.into()); f_bytes(&mut self.graph, 12, &value_info(name, elem, None)); }
    pub fn init(&mut self, t: &Tensor) { self.inits.push(t.clone()); f_bytes(&mut self.graph, 5, &t.bytes()); }
    pub fn node(&mut self, op: &str, name: &str, ins: &[&str], outs: &[&str], attrs: &[Attr]) {
        self.nodes.push(NodeAst { op: op.into(), name: name.into(), ins: ins.iter().map(|s| s.to_string()).collect(), outs: outs.iter().map(|s| s.to_string()).collect(), attrs: crate::ops::A::from(attrs) });
        let mut o = vec![];
        for i in ins { f_bytes(&mut o, 1, i.as_bytes()); }
        for i in outs { f_bytes(&mut o, 2, i.as_bytes()); }
        f_bytes(&mut o, 3, name.as_bytes());
        f_bytes(&mut o, 4, op.as_bytes());
        for a in attrs { f_bytes(&mut o, 5, &attr(a)); }
        f_bytes(&mut self.graph, 1, &o);
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = vec![];
        f_small(&mut o, 1, 8);
        f_bytes(&mut o, 7, &self.graph);
        let mut s = vec![];
        f_bytes(&mut s, 1, b"");
        f_int(&mut s, 2, self.opset);
        f_bytes(&mut o, 8, &s);
        o
    }
}
/// value of a TensorProto written by `Tensor::bytes` with raw data (for tensor attributes)
pub fn tensor_from(b: &[u8]) -> crate::V {
    let mut t = Tensor::default(); let mut i = 0;
    let rd = |i: &mut usize| -> u64 { let mut v = 0u64; let mut s = 0; loop { let x = b[*i]; *i += 1; v |= ((x & 0x7f) as u64) << s; s += 7; if x & 0x80 == 0 { return v; } } };
    while i < b.len() {
        let tg = rd(&mut i);
        match (tg >> 3, tg & 7) { (1, 0) => t.dims.push(rd(&mut i) as i64), (2, 0) => t.dtype = rd(&mut i) as i32, (9, 2) => { let n = rd(&mut i) as usize; t.raw = Some(b[i..i + n].to_vec()); i += n; } (_, 0) => { rd(&mut i); } (_, 2) => { let n = rd(&mut i) as usize; i += n; } (_, 5) => i += 4, _ => panic!("tensor_from") }
    }
    t.val()
}
