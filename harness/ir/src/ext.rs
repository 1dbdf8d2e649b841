//! External tensor data: path containment and range fidelity.
use crate::{fs, pb};
use symrt::*;
fn entry(k: &[u8], v: &[u8]) -> Vec<u8> { let mut e = vec![]; pb::f_bytes(&mut e, 1, k); pb::f_bytes(&mut e, 2, v); let mut o = vec![]; pb::f_bytes(&mut o, 13, &e); o }
fn model(dims: &[i64], dtype: i32, ents: &[(&[u8], &[u8])]) -> Vec<u8> {
    let mut g = pb::Model::new(18);
    let d: Vec<pb::Dim> = dims.iter().map(|v| pb::Dim::Val(*v)).collect();
    g.input("x", dtype, &d);
    let mut extra = vec![];
    for (k, v) in ents { extra.extend_from_slice(&entry(k, v)); }
    pb::f_small(&mut extra, 14, 1);
    g.init(&pb::Tensor { name: "w".into(), dims: dims.to_vec(), dtype, extra, ..Default::default() });
    g.node("Mul", "n0", &["x", "w"], &["y"], &[]);
    g.output("y", dtype, &d);
    g.bytes()
}
/// arg 0: length of the location, arg 1: how the model file is named, arg 2: the
/// data file does not exist, arg 3: symbolic bytes are preceded by a fixed prefix
pub fn location() {
    let n = arg(0) as usize;
    let path: &'static str = ["/m/model.onnx", "model.onnx", "./model.onnx", "/m/k/../model.onnx", "sub/model.onnx"][arg(1) as usize];
    if arg(1) == 4 { fs::fs().root = b"/m/sub"; }
    fs::fs().missing = arg(2) != 0;
    fs::fs().data = vec![1, 2, 3, 4, 5, 6, 7, 8];
    let mut loc: Vec<u8> = [&b""[..], b"a/../", b"w\0", b"l/", b"..\\", b"k/../", b"//"][arg(3) as usize].to_vec();
    for i in 0..n { loc.push(int(&format!("c{i}"), 0, 127) as u8); }
    fs::put(path.as_bytes(), model(&[2], 1, &[(b"location", &loc)]));
    panic_ok(true);
    let r = onnx_ir::OnnxGraphBuilder::new().parse_file(path);
    let ok = match &r {
        Ok(g) => { for n in &g.nodes { for a in n.inputs() { let v = a.value(); if v.is_some() { cover("loaded"); } } } true }
        Err(_) => { cover("refused"); false }
    };
    for p in &fs::fs().opened { check(fs::inside(p), "an opened file lies outside the model's directory"); }
    if ok {
        let mut nul = false; let mut up = false;
        let parts = loc.split(|b| *b == b'/').collect::<Vec<_>>();
        for b in &loc { if *b == 0 { nul = true; } }
        for p in &parts { if p.len() == 2 && p[0] == b'.' && p[1] == b'.' { up = true; } }
        check(!nul, "location with a NUL byte accepted");
        check(!up, "location with a parent reference accepted");
        check(loc.is_empty() || loc[0] != b'/', "absolute location accepted");
    }
}
const SIZES: [(i32, usize); 5] = [(1, 4), (7, 8), (3, 1), (11, 8), (5, 2)];
/// arg 0: digits of the offset (0: absent), arg 1: digits of the length (0:
/// absent), arg 2: element type, arg 3: order of the entries, arg 4: leading text,
/// arg 5: memory mapping fails
pub fn range() {
    let (dt, size) = SIZES[arg(2) as usize];
    let flen = 12usize;
    let mut data = vec![];
    for i in 0..flen { data.push(any_u8(&format!("d{i}"))); }
    fs::fs().data = data.clone();
    let dims = [pick("n", 0, 3)];
    let num = |name: &str, k: i64| -> Vec<u8> { (0..k).map(|i| int(&format!("{name}{i}"), b'0' as i64, b'9' as i64) as u8).collect() };
    let pre: &[u8] = [&b""[..], b"1844674407370955161", b"+", b"-"][arg(4) as usize];
    let mut off = pre.to_vec(); off.extend(num("o", arg(0)));
    let len = num("l", arg(1));
    let (mut offv, mut lenv) = (0u128, 0u128);
    for (i, b) in off.iter().enumerate() { if i >= pre.len() || arg(4) == 1 { offv = offv * 10 + (*b - b'0') as u128; } }
    for b in &len { lenv = lenv * 10 + (*b - b'0') as u128; }
    let mut ents: Vec<(&[u8], &[u8])> = vec![(b"location", b"w.bin")];
    if arg(0) > 0 { ents.push((b"offset", &off)); }
    if arg(1) > 0 { ents.push((b"length", &len)); }
    if arg(3) == 1 { ents.reverse(); ents.insert(1, (b"checksum", b"zz")); ents.insert(0, (b"vendor", b"q")); }
    fs::put(b"/m/model.onnx", model(&dims, dt, &ents));
    fs::fs().nommap = arg(5) == 1;
    let bytes = (dims[0] as usize * size) as u128; let asked = if arg(1) > 0 { lenv } else { bytes };
    let fine = arg(4) == 0 && asked == bytes && offv + asked <= flen as u128;
    panic_ok(!fine);
    let g = match onnx_ir::OnnxGraphBuilder::new().parse_file("/m/model.onnx") { Ok(g) => g, Err(_) => { check(!fine, "a valid range is refused"); cover("refused"); return } };
    check(g.nodes.len() > 0, "the tensor is lost");
    for n in &g.nodes { for a in n.inputs() {
        let Some(v) = a.value() else { continue };
        cover("loaded");
        let want = if arg(1) > 0 { lenv } else { (dims[0] as usize * size) as u128 };
        obs("len", v.bytes.len() as i64);
        check(v.bytes.len() as u128 == want, "number of bytes loaded");
        check(want == 0 || offv + want <= flen as u128, "range beyond the end of the file accepted");
        check(arg(4) != 3 || offv == 0 || want == 0, "negative offset accepted");
        let b: &[u8] = &v.bytes;
        for i in 0..b.len() {
            let mut same = false;
            for k in 0..flen { same |= offv + i as u128 == k as u128 && b[i] == data[k]; }
            check(same, "a loaded byte is not the one at its offset in the file");
        }
    } }
}
