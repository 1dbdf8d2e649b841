//! Elements and tensors.
use std::collections::BTreeMap;
use std::rc::Rc;
use symrt::*;

/// a coefficient, ordered by its bits
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct C(pub u64);
pub fn c(v: f64) -> C { C((v + 0.0).to_bits()) }
impl C { pub fn v(self) -> f64 { f64::from_bits(self.0) } }
pub type Poly = Rc<Vec<(Vec<u32>, C)>>;
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum E { I(i64), P(Poly) }
/// an uninterpreted application
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct At { pub op: String, pub args: Vec<E> }

static mut ATOMS: Option<(Vec<At>, BTreeMap<At, u32>)> = None;
#[allow(static_mut_refs)]
fn atoms() -> &'static mut (Vec<At>, BTreeMap<At, u32>) { unsafe { ATOMS.get_or_insert_with(|| (vec![], BTreeMap::new())) } }
fn intern(a: At) -> u32 { let t = atoms(); if let Some(i) = t.1.get(&a) { return *i; } let i = t.0.len() as u32; t.0.push(a.clone()); t.1.insert(a, i); i }
fn atom_of(i: u32) -> &'static At { &atoms().0[i as usize] }

pub fn apply(op: &str, args: Vec<E>) -> E { let args = args.into_iter().map(|e| if let E::I(v) = e { E::I(conc(v)) } else { e }).collect(); E::P(Rc::new(vec![(vec![intern(At { op: op.into(), args })], c(1.0))])) }
/// element `i` of input `name`
pub fn var(name: &str, i: usize) -> E { apply(name, vec![E::I(i as i64)]) }
pub fn k(v: f64) -> E { if !v.is_finite() { return apply(if v.is_nan() { "nan" } else if v > 0.0 { "inf" } else { "-inf" }, vec![]); } E::P(Rc::new(if v == 0.0 { vec![] } else { vec![(vec![], c(v))] })) }
pub fn poly(e: &E) -> Poly { match e { E::P(p) => p.clone(), E::I(v) => { let v = conc(*v); if v == 0 { Rc::new(vec![]) } else { Rc::new(vec![(vec![], c(v as f64))]) } } } }
/// the constant an element denotes, if it does
pub fn cst(e: &E) -> Option<f64> { match e { E::I(v) => Some(conc(*v) as f64), E::P(p) => if p.is_empty() { Some(0.0) } else if p.len() == 1 && p[0].0.is_empty() { Some(p[0].1.v()) } else { None } } }
pub fn single(e: &E) -> Option<&'static At> { if let E::P(p) = e && p.len() == 1 && p[0].0.len() == 1 && p[0].1 == c(1.0) { Some(atom_of(p[0].0[0])) } else { None } }
fn from_map(m: BTreeMap<Vec<u32>, f64>) -> E { E::P(Rc::new(m.into_iter().filter(|(_, v)| *v != 0.0).map(|(k, v)| (k, c(v))).collect())) }
pub fn add(a: &E, b: &E) -> E {
    if let (E::I(x), E::I(y)) = (a, b) { return E::I(x.wrapping_add(*y)); }
    let (x, y) = (poly(a), poly(b)); let mut o = Vec::with_capacity(x.len() + y.len()); let (mut i, mut j) = (0, 0);
    while i < x.len() || j < y.len() {
        if j == y.len() || i < x.len() && x[i].0 < y[j].0 { o.push(x[i].clone()); i += 1; }
        else if i == x.len() || y[j].0 < x[i].0 { o.push(y[j].clone()); j += 1; }
        else { let s = x[i].1.v() + y[j].1.v(); if s != 0.0 { o.push((x[i].0.clone(), c(s))); } i += 1; j += 1; }
    }
    E::P(Rc::new(o))
}
pub fn mul(a: &E, b: &E) -> E {
    if let (E::I(x), E::I(y)) = (a, b) { return E::I(x.wrapping_mul(*y)); }
    let (x, y) = (poly(a), poly(b)); let mut m: BTreeMap<Vec<u32>, f64> = BTreeMap::new();
    for (k1, c1) in x.iter() { for (k2, c2) in y.iter() { let mut k = k1.clone(); k.extend_from_slice(k2); k.sort(); *m.entry(k).or_insert(0.0) += c1.v() * c2.v(); } }
    from_map(m)
}
pub fn neg(a: &E) -> E { if let E::I(x) = a { E::I(x.wrapping_neg()) } else { mul(a, &k(-1.0)) } }
pub fn sub(a: &E, b: &E) -> E { if let (E::I(x), E::I(y)) = (a, b) { E::I(x.wrapping_sub(*y)) } else { add(a, &neg(&E::P(poly(b)))) } }
pub fn inv(a: &E) -> E {
    if let Some(v) = cst(a) { return if v == 0.0 { apply("inv0", vec![]) } else { k(1.0 / v) }; }
    let p = poly(a);
    if p.len() == 1 { let m = E::P(Rc::new(vec![(p[0].0.clone(), c(1.0))])); return mul(&k(1.0 / p[0].1.v()), &apply("inv", vec![m])); }
    apply("inv", vec![E::P(p)])
}
pub fn div(a: &E, b: &E, int: bool) -> E {
    if let (E::I(x), E::I(y)) = (a, b) { assume(*y != 0); return if *y == -1 { E::I(x.wrapping_neg()) } else { E::I(x / y) }; }
    if int { if cst(b) == Some(1.0) { return a.clone(); } return apply("idiv", vec![a.clone(), b.clone()]); }
    mul(a, &inv(b))
}
pub fn sum(v: &[E]) -> E { let mut s = E::I(0); let mut first = true; for e in v { s = if first { e.clone() } else { add(&s, e) }; first = false; } s }
pub fn minmax(max: bool, v: &[E]) -> E {
    let n = if max { "Max" } else { "Min" }; let mut l: Vec<E> = vec![];
    for e in v { match single(e) { Some(a) if a.op == n => l.extend(a.args.iter().cloned()), _ => l.push(e.clone()) } }
    if l.iter().all(|e| matches!(e, E::I(_))) { return E::I(l.iter().map(|e| if let E::I(v) = e { *v } else { 0 }).reduce(|a, b| if max { if a > b { a } else { b } } else if a < b { a } else { b }).unwrap()); }
    if l.iter().all(|e| cst(e).is_some()) { return k(l.iter().map(|e| cst(e).unwrap()).reduce(|a, b| if max { a.max(b) } else { a.min(b) }).unwrap()); }
    let mut l: Vec<E> = l.iter().map(|e| E::P(poly(e))).collect(); l.sort(); l.dedup(); if l.len() == 1 { return l.pop().unwrap(); }
    if max && l.len() == 2 && l.contains(&k(0.0)) { let x = l.iter().find(|e| **e != k(0.0)).unwrap(); return apply("Relu", vec![x.clone()]); }
    apply(n, l)
}
const IDEM: [&str; 6] = ["Relu", "Ceil", "Floor", "Round", "Sign", "Abs"];
pub fn unary(op: &str, x: &E, par: &[f64]) -> E {
    if IDEM.contains(&op) && let Some(a) = single(x) && a.op == op { return x.clone(); }
    match op {
        "Identity" => return x.clone(), "Neg" => return neg(x), "Reciprocal" => return inv(x),
        // exp(p - max(..)) and log(q / exp(max(..))), as a stable log-sum-exp writes them
        "Exp" => { let p = poly(x); if let E::P(_) = x && p.len() > 1 && let Some((m, _)) = p.iter().find(|(m, c1)| m.len() == 1 && c1.v() == -1.0 && atom_of(m[0]).op == "Max") { let mx = E::P(Rc::new(vec![(m.clone(), c(1.0))])); return mul(&unary("Exp", &add(x, &mx), &[]), &inv(&unary("Exp", &mx, &[]))); } if cst(x) == Some(0.0) { return k(1.0); } }
        "Log" => { if cst(x) == Some(1.0) { return k(0.0); } if let Some(a) = single(x) && a.op == "Exp" { return a.args[0].clone(); }
            let p = poly(x); if let Some(f) = p.first().and_then(|(m, _)| m.iter().copied().find(|i| { let a = atom_of(*i); a.op == "inv" && single(&a.args[0]).is_some_and(|b| b.op == "Exp") && p.iter().all(|(n, _)| n.contains(i)) })) { let rest: BTreeMap<Vec<u32>, f64> = p.iter().map(|(n, v)| { let mut n = n.clone(); let q = n.iter().position(|i| *i == f).unwrap(); n.remove(q); (n, v.v()) }).collect(); return sub(&unary("Log", &from_map(rest), &[]), &unary("Log", &atom_of(f).args[0], &[])); } }
        "IsInf" if par.len() == 2 && par != [1.0, 1.0] => { let e = unary("IsInf", x, &[1.0, 1.0]); return match (par[0] != 0.0, par[1] != 0.0) { (false, false) => E::I(0), (true, false) => rel("And", &e, &rel("Less", x, &k(0.0))), _ => rel("And", &e, &rel("Less", &k(0.0), x)) }; }
         "Sqrt" if cst(x).is_some_and(|v| v >= 0.0) => return k(cst(x).unwrap().sqrt()),
        "Abs" => if let E::I(v) = x { return E::I(if *v < 0 { v.wrapping_neg() } else { *v }); } else if let Some(v) = cst(x) { return k(v.abs()); },
        "Sign" => if let E::I(v) = x { return E::I((*v > 0) as i64 - (*v < 0) as i64); },
        "Relu" => if let E::I(v) = x { return E::I(if *v > 0 { *v } else { 0 }); } else if let Some(v) = cst(x) { return k(v.max(0.0)); },
        "Floor" => if let Some(v) = cst(x) { return k(v.floor()); }, "Ceil" => if let Some(v) = cst(x) { return k(v.ceil()); },
        "Not" => if let E::I(v) = x { return E::I((*v == 0) as i64); } else if let Some(a) = single(x) && a.op == "Not" { return a.args[0].clone(); },
        _ => {}
    }
    let mut a = vec![E::P(poly(x))]; a.extend(par.iter().map(|v| k(*v))); apply(op, a)
}
/// comparison or logical connective, result 0/1
pub fn rel(op: &str, a: &E, b: &E) -> E {
    match op { "Greater" => return rel("Less", b, a), "GreaterOrEqual" => return rel("LessOrEqual", b, a), _ => {} }
    if let (E::I(x), E::I(y)) = (a, b) { return E::I(match op { "Less" => x < y, "LessOrEqual" => x <= y, "Equal" => x == y, "And" => *x != 0 && *y != 0, "Or" => *x != 0 || *y != 0, "Xor" => (*x != 0) != (*y != 0), _ => panic!("rel") } as i64); }
    if let (Some(x), Some(y)) = (cst(a), cst(b)) && !matches!(op, "And" | "Or" | "Xor") { return E::I(match op { "Less" => x < y, "LessOrEqual" => x <= y, _ => x == y } as i64); }
    // a whole number and an integer that became a float
    let strip = |e: &E, o: &E| -> Option<E> { let a = single(e)?; if a.op == "cast1" && cst(o).is_some_and(|v| v.fract() == 0.0 && v.abs() < 1e6) { Some(a.args[0].clone()) } else { None } };
    if !matches!(op, "And" | "Or" | "Xor") { if let Some(x) = strip(a, b) { return rel(op, &x, b); } if let Some(y) = strip(b, a) { return rel(op, a, &y); } }
    if op == "Xor" { return unary("Not", &rel("Equal", a, b), &[]); }
    let (mut x, mut y) = (E::P(poly(a)), E::P(poly(b))); if !matches!(op, "Less" | "LessOrEqual") && y < x { std::mem::swap(&mut x, &mut y); }
    apply(op, vec![x, y])
}
pub fn select(cnd: &E, a: &E, b: &E) -> E { match cnd { E::I(v) => if *v != 0 { a.clone() } else { b.clone() }, _ => if a == b { a.clone() } else if let Some(w) = single(cnd) && matches!(w.op.as_str(), "Less" | "LessOrEqual") && (eq(&w.args[0], a) && eq(&w.args[1], b) || eq(&w.args[0], b) && eq(&w.args[1], a)) { minmax(eq(&w.args[0], b), &[a.clone(), b.clone()]) } else { apply("Where", vec![cnd.clone(), E::P(poly(a)), E::P(poly(b))]) } } }
pub fn pow(a: &E, b: &E) -> E {
    match cst(b) {
        Some(1.0) => a.clone(), Some(2.0) => mul(a, a), Some(3.0) => mul(a, &mul(a, a)), Some(0.0) => if matches!(a, E::I(_)) { E::I(1) } else { k(1.0) }, Some(0.5) => unary("Sqrt", a, &[]),
        _ => apply("Pow", vec![E::P(poly(a)), E::P(poly(b))]),
    }
}
/// equality of elements; branches only on concrete structure
pub fn eq(a: &E, b: &E) -> bool { match (a, b) { (E::I(x), E::I(y)) => x == y, _ => poly(a) == poly(b) } }
pub fn show(e: &E) -> String { match e { E::I(v) => format!("{v}"), E::P(p) => if p.is_empty() { "0".into() } else { p.iter().map(|(m, k)| { let mut s = if k.v() == 1.0 && !m.is_empty() { String::new() } else { format!("{:?} ", k.v()) }; for a in m { let a = atom_of(*a); s += &a.op; s += "("; s += &a.args.iter().map(show).collect::<Vec<_>>().join(","); s += ")"; } s }).collect::<Vec<_>>().join("+") } } }

/// a tensor; `t` is the ONNX element type
#[derive(Clone)]
pub struct V { pub s: Vec<usize>, pub d: Vec<E>, pub t: i32 }
pub fn is_int(t: i32) -> bool { matches!(t, 2..=7 | 9 | 12 | 13) }
pub fn numel(s: &[usize]) -> usize { s.iter().product() }
impl V {
    pub fn new(s: &[usize], d: Vec<E>, t: i32) -> V { V { s: s.to_vec(), d, t } }
    pub fn vars(name: &str, s: &[usize], t: i32) -> V { V::new(s, (0..numel(s)).map(|i| var(name, i)).collect(), t) }
    pub fn ints(s: &[usize], d: &[i64]) -> V { V::new(s, d.iter().map(|v| E::I(*v)).collect(), 7) }
    pub fn scalar(e: E, t: i32) -> V { V::new(&[], vec![e], t) }
    /// integers of an index-like tensor
    pub fn to_ints(&self) -> Option<Vec<i64>> { self.d.iter().map(|e| match e { E::I(v) => Some(*v), _ => cst(e).map(|v| v as i64) }).collect() }
    pub fn at(&self, ix: &[usize]) -> &E { let mut o = 0; for (i, n) in ix.iter().zip(&self.s) { o = o * n + i; } &self.d[o] }
    /// element under NumPy broadcasting to an index of a tensor of rank >= ours
    pub fn bc(&self, ix: &[usize]) -> &E { let off = ix.len() - self.s.len(); let mut o = 0; for (i, n) in self.s.iter().enumerate() { o = o * n + if *n == 1 { 0 } else { ix[off + i] }; } &self.d[o] }
    pub fn rank(&self) -> usize { self.s.len() }
    pub fn show(&self) -> String { format!("{:?}t{}[{}]", self.s, self.t, self.d.iter().map(show).collect::<Vec<_>>().join(", ")) }
}
/// all indices of a shape, in row-major order
pub fn each(s: &[usize]) -> Vec<Vec<usize>> {
    let n = numel(s); let mut o = Vec::with_capacity(n); let mut ix = vec![0; s.len()];
    for _ in 0..n { o.push(ix.clone()); for j in (0..s.len()).rev() { ix[j] += 1; if ix[j] < s[j] { break; } ix[j] = 0; } }
    o
}
pub fn build(s: &[usize], t: i32, mut f: impl FnMut(&[usize]) -> E) -> V { V { s: s.to_vec(), d: each(s).iter().map(|i| f(i)).collect(), t } }
pub fn bshape(all: &[&[usize]]) -> Option<Vec<usize>> {
    let r = all.iter().map(|s| s.len()).max()?; let mut o = vec![1; r];
    for s in all { for (i, d) in s.iter().enumerate() { let k = r - s.len() + i; if o[k] == 1 { o[k] = *d; } else if *d != 1 && *d != o[k] { return None; } } }
    Some(o)
}
/// are two tensors the same (rank 0 and a single element are not told apart)?
pub fn same(a: &V, b: &V) -> bool {
    let one = |v: &V| v.s.len() <= 1 && v.d.len() == 1;
    if !(a.s == b.s || one(a) && one(b)) { return false; }
    let mut ok = true; for (x, y) in a.d.iter().zip(&b.d) { ok &= eq(x, y); } ok
}
