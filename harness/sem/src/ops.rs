//! Reference semantics of the operators, straight from the ONNX specification.
use crate::alg::*;
use crate::pb::{Attr, Model};
use symrt::conc;

#[derive(Clone)]
pub enum AV { I(i64), Is(Vec<i64>), F(f64), Fs(Vec<f64>), S(String), T(V), B(Vec<u8>), G(Model) }
#[derive(Clone, Default)]
pub struct A(pub Vec<(String, AV)>);
impl A {
    pub fn new() -> A { A::default() }
    pub fn from(l: &[Attr]) -> A {
        A(l.iter().map(|a| match a {
            Attr::Int(n, v) => (n.to_string(), AV::I(*v)), Attr::Ints(n, v) => (n.to_string(), AV::Is(v.clone())),
            Attr::Float(n, v) => (n.to_string(), AV::F(f32::from_bits(*v) as f64)), Attr::Floats(n, v) => (n.to_string(), AV::Fs(v.iter().map(|b| f32::from_bits(*b) as f64).collect())),
            Attr::Str(n, v) => (n.to_string(), AV::S(String::from_utf8_lossy(v).into_owned())), Attr::Tensor(n, b) => (n.to_string(), AV::B(b.clone())),
            Attr::Graph(n, _) => (n.to_string(), AV::I(0)), Attr::Sub(n, m) => (n.to_string(), AV::G((*m).clone())),
        }).collect())
    }
    pub fn get(&self, n: &str) -> Option<&AV> { self.0.iter().find(|(k, _)| k == n).map(|(_, v)| v) }
    pub fn t(&self, n: &str) -> Option<V> { match self.get(n) { Some(AV::T(v)) => Some(v.clone()), Some(AV::B(b)) => Some(crate::pb::tensor_from(b)), _ => None } }
    pub fn set_t(mut self, n: &str, v: V) -> A { self.0.push((n.into(), AV::T(v))); self }
    pub fn i(&self, n: &str) -> Option<i64> { if let Some(AV::I(v)) = self.get(n) { Some(*v) } else { None } }
    pub fn is(&self, n: &str) -> Option<Vec<i64>> { if let Some(AV::Is(v)) = self.get(n) { Some(v.clone()) } else { None } }
    pub fn f(&self, n: &str) -> Option<f64> { if let Some(AV::F(v)) = self.get(n) { Some(*v as f32 as f64) } else { None } }
    pub fn st(&self, n: &str) -> Option<&str> { if let Some(AV::S(v)) = self.get(n) { Some(v) } else { None } }
    pub fn set_i(mut self, n: &str, v: i64) -> A { self.0.push((n.into(), AV::I(v))); self }
    pub fn set_is(mut self, n: &str, v: Vec<i64>) -> A { self.0.push((n.into(), AV::Is(v))); self }
    pub fn set_f(mut self, n: &str, v: f64) -> A { self.0.push((n.into(), AV::F(v))); self }
    pub fn set_s(mut self, n: &str, v: &str) -> A { self.0.push((n.into(), AV::S(v.into()))); self }
}
type R = Option<Vec<V>>;
pub fn ax(a: i64, r: usize) -> Option<usize> { let b = if a < 0 { a + r as i64 } else { a }; if b < 0 || b >= r as i64 { None } else { Some(conc(b) as usize) } }
fn us(v: &[i64]) -> Option<Vec<usize>> { let mut o = vec![]; for x in v { if *x < 0 { return None; } o.push(conc(*x) as usize); } Some(o) }
fn one(v: V) -> R { Some(vec![v]) }

pub const UNARY: [&str; 38] = ["Identity", "Neg", "Abs", "Reciprocal", "Sqrt", "Exp", "Log", "Ceil", "Floor", "Round", "Sign", "Erf", "Sin", "Cos", "Tan", "Asin", "Acos", "Atan", "Sinh", "Cosh", "Tanh", "Asinh", "Acosh", "Atanh", "Relu", "Sigmoid", "HardSwish", "Mish", "Softplus", "Softsign", "Gelu", "Not", "IsNaN", "IsInf", "LeakyRelu", "Elu", "Celu", "Selu"];
pub fn bin(op: &str, a: &E, b: &E, int: bool, fmod: bool) -> E {
    match op { "Add" => add(a, b), "Sub" => sub(a, b), "Mul" => mul(a, b), "Div" => div(a, b, int), "Pow" => pow(a, b), "Mod" => imod(a, b, fmod),
        "Max" => minmax(true, &[a.clone(), b.clone()]), "Min" => minmax(false, &[a.clone(), b.clone()]), "PRelu" => prelu(a, b),
        "BitwiseAnd" | "BitwiseOr" | "BitwiseXor" | "BitShiftLEFT" | "BitShiftRIGHT" => apply(op, vec![a.clone(), b.clone()]),
        _ => rel(op, a, b) }
}
pub fn imod(a: &E, b: &E, fmod: bool) -> E {
    if let (E::I(x), E::I(y)) = (a, b) { symrt::assume(*y != 0 && *y != -1); let r = x % y; return E::I(if !fmod && r != 0 && (r < 0) != (*y < 0) { r + y } else { r }); }
    apply(if fmod { "fmod" } else { "mod" }, vec![a.clone(), b.clone()])
}
pub fn prelu(x: &E, s: &E) -> E { apply("PRelu", vec![E::P(poly(x)), E::P(poly(s))]) }
pub fn broadcast2(a: &V, b: &V, t: i32, mut f: impl FnMut(&E, &E) -> E) -> Option<V> { let s = bshape(&[&a.s, &b.s])?; Some(build(&s, t, |ix| f(a.bc(ix), b.bc(ix)))) }
pub fn permute(x: &V, p: &[usize]) -> V { let s: Vec<usize> = p.iter().map(|i| x.s[*i]).collect(); build(&s, x.t, |ix| { let mut j = vec![0; ix.len()]; for (k, q) in p.iter().enumerate() { j[*q] = ix[k]; } x.at(&j).clone() }) }
pub fn reshape(x: &V, s: &[usize]) -> Option<V> { if numel(s) != x.d.len() { return None; } Some(V::new(s, x.d.clone(), x.t)) }
pub fn concat(l: &[&V], a: usize) -> Option<V> {
    let mut s = l[0].s.clone(); if a >= s.len() { return None; } for v in &l[1..] { if v.s.len() != s.len() { return None; } for i in 0..s.len() { if i != a && v.s[i] != l[0].s[i] { return None; } } s[a] += v.s[a]; }
    Some(build(&s, l[0].t, |ix| { let mut j = ix.to_vec(); for v in l { if j[a] < v.s[a] { return v.at(&j).clone(); } j[a] -= v.s[a]; } E::I(0) }))
}
/// Slice of one axis: (start, length, step) after ONNX clamping
pub fn slice1(n: usize, s: i64, e: i64, st: i64) -> (i64, i64) {
    let n = n as i64; if n == 0 { return (0, 0); } let (mut s, mut e) = (if s < 0 { s.saturating_add(n) } else { s }, if e < 0 { e.saturating_add(n) } else { e });
    if st > 0 { s = s.clamp(0, n); e = e.clamp(0, n); (s, if e <= s { 0 } else { (e - s - 1) / st + 1 }) } else { s = s.clamp(0, n - 1); e = e.clamp(-1, n - 1); (s, if e >= s { 0 } else { (s - e - 1) / -st + 1 }) }
}
pub fn slice(x: &V, starts: &[i64], ends: &[i64], axes: &[usize], steps: &[i64]) -> Option<V> {
    let r = x.rank(); let (mut st, mut sp, mut s) = (vec![0i64; r], vec![1i64; r], x.s.clone());
    for i in 0..starts.len() { let a = *axes.get(i)?; if a >= r || steps[i] == 0 { return None; } let (b, n) = slice1(x.s[a], starts[i], ends[i], steps[i]); st[a] = conc(b); sp[a] = conc(steps[i]); s[a] = conc(n) as usize; }
    Some(build(&s, x.t, |ix| { let j: Vec<usize> = (0..r).map(|i| (st[i] + ix[i] as i64 * sp[i]) as usize).collect(); x.at(&j).clone() }))
}
pub fn pad(x: &V, before: &[i64], after: &[i64], mode: &str, val: &E) -> Option<V> {
    let r = x.rank(); let mut s = vec![]; for i in 0..r { let n = x.s[i] as i64 + before[i] + after[i]; if n < 0 { return None; } s.push(conc(n) as usize); }
    let b: Vec<i64> = before.iter().map(|v| conc(*v)).collect();
    if mode == "reflect" { for i in 0..r { if b[i] >= x.s[i] as i64 || conc(after[i]) >= x.s[i] as i64 { return None; } } }
    Some(build(&s, x.t, |ix| {
        let mut j = vec![];
        for i in 0..r { let mut p = ix[i] as i64 - b[i]; let n = x.s[i] as i64; if p < 0 || p >= n { match mode { "edge" => p = p.clamp(0, n - 1), "reflect" => { if p < 0 { p = -p; } if p >= n { p = 2 * (n - 1) - p; } } "wrap" => p = p.rem_euclid(n), _ => return val.clone() } } j.push(p as usize); }
        x.at(&j).clone()
    }))
}
pub fn reduce(op: &str, x: &V, axes: &[usize], keep: bool) -> V {
    let r = x.rank(); let s: Vec<usize> = (0..r).filter(|i| keep || !axes.contains(i)).map(|i| if axes.contains(&i) { 1 } else { x.s[i] }).collect();
    let rs: Vec<usize> = axes.iter().map(|a| x.s[*a]).collect(); let inner = each(&rs);
    build(&s, x.t, |ix| {
        let mut base = vec![0; r]; let mut q = 0; for i in 0..r { if axes.contains(&i) { if keep { q += 1; } } else { base[i] = ix[q]; q += 1; } }
        let v: Vec<E> = inner.iter().map(|j| { let mut b = base.clone(); for (k, a) in axes.iter().enumerate() { b[*a] = j[k]; } x.at(&b).clone() }).collect();
        red(op, &v)
    })
}
pub fn red(op: &str, v: &[E]) -> E {
    let n = v.len();
    match op {
        "Sum" => sum(v), "Mean" => mul(&E::P(poly(&sum(v))), &k(1.0 / n as f64)), "Max" => minmax(true, v), "Min" => minmax(false, v),
        "Prod" => v[1..].iter().fold(v[0].clone(), |a, b| mul(&a, b)), "SumSquare" => sum(&v.iter().map(|e| mul(e, e)).collect::<Vec<_>>()),
        "L1" => sum(&v.iter().map(|e| unary("Abs", e, &[])).collect::<Vec<_>>()), "L2" => unary("Sqrt", &red("SumSquare", v), &[]),
        "LogSum" => unary("Log", &sum(v), &[]), "LogSumExp" => unary("Log", &sum(&v.iter().map(|e| unary("Exp", e, &[])).collect::<Vec<_>>()), &[]),
        _ => panic!("red"),
    }
}
pub fn softmax(x: &V, a: usize, log: bool) -> V {
    build(&x.s, x.t, |ix| {
        let den = sum(&(0..x.s[a]).map(|i| { let mut j = ix.to_vec(); j[a] = i; unary("Exp", x.at(&j), &[]) }).collect::<Vec<_>>());
        if log { sub(x.at(ix), &unary("Log", &den, &[])) } else { mul(&unary("Exp", x.at(ix), &[]), &inv(&den)) }
    })
}
pub fn matmul(a: &V, b: &V) -> Option<V> {
    let (mut x, mut y) = (a.clone(), b.clone()); if x.rank() == 0 || y.rank() == 0 { return None; }
    if a.rank() == 1 { x.s.insert(0, 1); } if b.rank() == 1 { y.s.push(1); }
    let (n, m) = (x.rank(), y.rank()); if x.s[n - 1] != y.s[m - 2] { return None; } let kk = x.s[n - 1];
    let mut s = bshape(&[&x.s[..n - 2], &y.s[..m - 2]])?; let bd = s.len(); s.push(x.s[n - 2]); s.push(y.s[m - 1]);
    let (xb, yb) = (x.s[..n - 2].to_vec(), y.s[..m - 2].to_vec());
    let pick = |ix: &[usize], sh: &[usize]| -> Vec<usize> { sh.iter().enumerate().map(|(i, d)| if *d == 1 { 0 } else { ix[bd - sh.len() + i] }).collect() };
    let mut o = build(&s, a.t, |ix| {
        let (mut p, mut q) = (pick(ix, &xb), pick(ix, &yb)); p.push(ix[bd]); p.push(0); q.push(0); q.push(ix[bd + 1]);
        let t: Vec<E> = (0..kk).map(|i| { p[n - 1] = i; q[m - 2] = i; mul(x.at(&p), y.at(&q)) }).collect(); sum(&t)
    });
    if b.rank() == 1 { o.s.pop(); } if a.rank() == 1 { let l = o.s.len(); o.s.remove(if b.rank() == 1 { l - 1 } else { l - 2 }); }
    Some(o)
}
/// explicit paddings (begin.., end..) of a window operator
pub fn pads_of(a: &A, x: &[usize], kern: &[usize], st: &[usize], dil: &[usize]) -> Option<Vec<i64>> {
    let n = kern.len();
    match a.st("auto_pad").unwrap_or("NOTSET") {
        "NOTSET" => Some(a.is("pads").unwrap_or(vec![0; 2 * n]).iter().map(|v| conc(*v)).collect()), "VALID" => Some(vec![0; 2 * n]),
        m => { let mut p = vec![0; 2 * n]; for i in 0..n { let o = x[i].div_ceil(st[i]); let t = (((o - 1) * st[i] + (kern[i] - 1) * dil[i] + 1) as i64 - x[i] as i64).max(0); let (lo, hi) = (t / 2, t - t / 2); if m == "SAME_UPPER" { p[i] = lo; p[i + n] = hi; } else { p[i] = hi; p[i + n] = lo; } } Some(p) }
    }
}
pub fn conv(x: &V, w: &V, b: Option<&V>, a: &A) -> Option<V> {
    let n = x.rank() - 2; let st = us(&a.is("strides").unwrap_or(vec![1; n]))?; let dil = us(&a.is("dilations").unwrap_or(vec![1; n]))?; let g = conc(a.i("group").unwrap_or(1)) as usize;
    let kern = &w.s[2..]; let p = pads_of(a, &x.s[2..], kern, &st, &dil)?; let (cg, m) = (w.s[1], w.s[0]); if x.s[1] != cg * g || m % g != 0 { return None; }
    let mut s = vec![x.s[0], m]; for i in 0..n { let o = x.s[i + 2] as i64 + p[i] + p[i + n] - ((kern[i] - 1) * dil[i] + 1) as i64; if o < 0 { return None; } s.push(o as usize / st[i] + 1); }
    let win = each(kern);
    Some(build(&s, x.t, |ix| {
        let mut t = vec![]; let gi = ix[1] / (m / g);
        for ci in 0..cg { for kx in &win {
            let (mut xi, mut wi) = (vec![ix[0], gi * cg + ci], vec![ix[1], ci]); let mut ok = true;
            for d in 0..n { let q = (ix[d + 2] * st[d] + kx[d] * dil[d]) as i64 - p[d]; if q < 0 || q >= x.s[d + 2] as i64 { ok = false; break; } xi.push(q as usize); wi.push(kx[d]); }
            if ok { t.push(mul(x.at(&xi), w.at(&wi))); }
        } }
        if let Some(b) = b { t.push(b.d[ix[1]].clone()); } if t.is_empty() { k(0.0) } else { sum(&t) }
    }))
}
pub fn conv_transpose(x: &V, w: &V, b: Option<&V>, a: &A) -> Option<V> {
    let n = x.rank() - 2; let st = us(&a.is("strides").unwrap_or(vec![1; n]))?; let dil = us(&a.is("dilations").unwrap_or(vec![1; n]))?; let op = us(&a.is("output_padding").unwrap_or(vec![0; n]))?; let g = conc(a.i("group").unwrap_or(1)) as usize;
    let kern = &w.s[2..]; let p: Vec<i64> = a.is("pads").unwrap_or(vec![0; 2 * n]).iter().map(|v| conc(*v)).collect(); let (c, mg) = (x.s[1], w.s[1]); if c != w.s[0] || c % g != 0 { return None; }
    let mut s = vec![x.s[0], mg * g]; for i in 0..n { let o = ((x.s[i + 2] - 1) * st[i] + op[i] + (kern[i] - 1) * dil[i] + 1) as i64 - p[i] - p[i + n]; if o < 1 { return None; } s.push(o as usize); }
    let win = each(kern); let cg = c / g;
    Some(build(&s, x.t, |ix| {
        let mut t = vec![]; let gi = ix[1] / mg;
        for ci in 0..cg { for kx in &win {
            let (mut xi, mut wi) = (vec![ix[0], gi * cg + ci], vec![gi * cg + ci, ix[1] % mg]); let mut ok = true;
            for d in 0..n { let q = ix[d + 2] as i64 + p[d] - (kx[d] * dil[d]) as i64; if q < 0 || q % st[d] as i64 != 0 || q / st[d] as i64 >= x.s[d + 2] as i64 { ok = false; break; } xi.push(q as usize / st[d]); wi.push(kx[d]); }
            if ok { t.push(mul(x.at(&xi), w.at(&wi))); }
        } }
        if let Some(b) = b { t.push(b.d[ix[1]].clone()); } if t.is_empty() { k(0.0) } else { sum(&t) }
    }))
}
pub fn pool(max: bool, x: &V, a: &A) -> Option<V> {
    let n = x.rank() - 2; let kern = us(&a.is("kernel_shape")?)?; let st = us(&a.is("strides").unwrap_or(vec![1; n]))?; let dil = us(&a.is("dilations").unwrap_or(vec![1; n]))?;
    let ceil = conc(a.i("ceil_mode").unwrap_or(0)) != 0; let incl = conc(a.i("count_include_pad").unwrap_or(0)) != 0; let p = pads_of(a, &x.s[2..], &kern, &st, &dil)?;
    let mut s = x.s[..2].to_vec();
    for i in 0..n { let o = x.s[i + 2] as i64 + p[i] + p[i + n] - ((kern[i] - 1) * dil[i] + 1) as i64; if o < 0 { return None; } let o = o as usize; let mut q = if ceil { o.div_ceil(st[i]) } else { o / st[i] } + 1; if ceil && (q - 1) * st[i] >= x.s[i + 2] + p[i] as usize { q -= 1; } s.push(q); }
    let win = each(&kern); let mut bad = false;
    let v = build(&s, x.t, |ix| {
        let mut l = vec![]; let mut cnt = 0;
        for kx in &win { let mut xi = vec![ix[0], ix[1]]; let (mut inside, mut padded) = (true, true);
            for d in 0..n { let q = (ix[d + 2] * st[d] + kx[d] * dil[d]) as i64 - p[d]; if q < 0 || q >= x.s[d + 2] as i64 { inside = false; } if q >= x.s[d + 2] as i64 + p[d + n] { padded = false; } xi.push(q.max(0) as usize); }
            if inside { l.push(x.at(&xi).clone()); cnt += 1; } else if incl && padded { cnt += 1; } }
        if l.is_empty() { bad = true; return k(0.0); }
        if max { minmax(true, &l) } else { mul(&sum(&l), &k(1.0 / cnt as f64)) }
    });
    if bad { None } else { Some(v) }
}
fn normalize(x: &V, group: impl Fn(&[usize]) -> Vec<Vec<usize>>, eps: f64, scale: impl Fn(&[usize]) -> E, bias: impl Fn(&[usize]) -> E) -> V {
    build(&x.s, x.t, |ix| {
        let v: Vec<E> = group(ix).iter().map(|j| x.at(j).clone()).collect(); let m = red("Mean", &v);
        let var = red("Mean", &v.iter().map(|e| { let d = sub(e, &m); mul(&d, &d) }).collect::<Vec<_>>());
        norm1(x.at(ix), &m, &var, eps, &scale(ix), &bias(ix))
    })
}
pub fn norm1(x: &E, m: &E, var: &E, eps: f64, scale: &E, bias: &E) -> E { add(&mul(&mul(&sub(x, m), &inv(&unary("Sqrt", &add(var, &k(eps)), &[]))), scale), bias) }
pub fn layer_norm(x: &V, sc: &V, b: Option<&V>, a: usize, eps: f64) -> Option<V> {
    if bshape(&[&x.s, &sc.s])? != x.s { return None; }
    Some(normalize(x, |ix| each(&x.s[a..]).iter().map(|j| { let mut q = ix[..a].to_vec(); q.extend(j); q }).collect(), eps, |ix| sc.bc(ix).clone(), |ix| b.map_or(k(0.0), |b| b.bc(ix).clone())))
}
pub fn group_norm(x: &V, groups: usize, eps: f64, sc: impl Fn(usize) -> E, b: impl Fn(usize) -> E) -> Option<V> {
    let c = x.s[1]; if c % groups != 0 { return None; } let per = c / groups;
    Some(normalize(x, |ix| { let g = ix[1] / per; let mut s = x.s[1..].to_vec(); s[0] = per; each(&s).iter().map(|j| { let mut q = vec![ix[0]]; q.extend(j); q[1] += g * per; q }).collect() }, eps, |ix| sc(ix[1]), |ix| b(ix[1])))
}
pub fn batch_norm(x: &V, sc: &V, b: &V, m: &V, var: &V, eps: f64) -> V { build(&x.s, x.t, |ix| { let c = ix[1]; norm1(x.at(ix), &m.d[c], &var.d[c], eps, &sc.d[c], &b.d[c]) }) }
pub fn gather(x: &V, i: &V, a: usize) -> Option<V> {
    let mut s = x.s[..a].to_vec(); s.extend(&i.s); s.extend(&x.s[a + 1..]); let n = x.s[a] as i64; let iv = i.to_ints()?; for v in &iv { if *v < -n || *v >= n { return None; } }
    let iv = V::ints(&i.s, &iv.iter().map(|v| conc(if *v < 0 { v + n } else { *v })).collect::<Vec<_>>());
    Some(build(&s, x.t, |ix| { let E::I(p) = iv.at(&ix[a..a + i.rank()]) else { return E::I(0) }; let mut j = ix[..a].to_vec(); j.push(*p as usize); j.extend(&ix[a + i.rank()..]); x.at(&j).clone() }))
}
fn index_of(e: &E, n: usize) -> Option<usize> { let v = match e { E::I(v) => *v, _ => cst(e)? as i64 }; let n = n as i64; if v < -n || v >= n { return None; } Some(conc(if v < 0 { v + n } else { v }) as usize) }
pub fn combine(red: &str, old: &E, new: &E) -> E { match red { "none" => new.clone(), "add" => add(old, new), "mul" => mul(old, new), "max" => minmax(true, &[old.clone(), new.clone()]), _ => minmax(false, &[old.clone(), new.clone()]) } }
/// any operator on all of its operands, kept abstract
pub fn opaque(op: &str, par: &[E], ins: &[&V], s: &[usize], t: i32) -> V {
    let mut all = par.to_vec(); for v in ins { all.push(E::I(v.s.len() as i64)); for d in &v.s { all.push(E::I(*d as i64)); } all.extend(v.d.iter().cloned()); }
    let id = apply(op, all); let mut i = -1; build(s, t, |_| { i += 1; apply("elem", vec![id.clone(), E::I(i)]) })
}
pub fn sdpa(q: &V, kx: &V, v: &V, mask: Option<&V>, scale: f64, causal: bool, softcap: f64) -> Option<V> {
    let n = kx.rank(); let mut p: Vec<usize> = (0..n).collect(); p.swap(n - 1, n - 2);
    let mut w = matmul(q, &permute(kx, &p))?; for e in w.d.iter_mut() { *e = mul(e, &k(scale)); }
    if softcap != 0.0 { for e in w.d.iter_mut() { *e = mul(&k(softcap), &unary("Tanh", &mul(e, &k(1.0 / softcap)), &[])); } }
    if let Some(m) = mask { w = if m.t == 9 { broadcast2(&w, m, w.t, |a, b| select(b, a, &k(f64::NEG_INFINITY)))? } else { broadcast2(&w, m, w.t, add)? }; }
    if causal { let (l, r) = (w.rank() - 2, w.rank() - 1); w = build(&w.s.clone(), w.t, |ix| if ix[r] > ix[l] { apply("-inf", vec![]) } else { w.at(ix).clone() }); }
    matmul(&softmax(&w, n - 1, false), v)
}
static mut DRAWS: i64 = 0;
pub fn reset() { unsafe { DRAWS = 0 } }
pub fn draw(op: &str, par: &[E], s: &[usize], t: i32) -> V { let n = unsafe { DRAWS += 1; DRAWS }; let mut p = par.to_vec(); p.push(E::I(n)); opaque(op, &p, &[], s, t) }

fn rpar(name: &str, a: &A) -> Vec<E> { let (p, q) = if name.contains("Normal") { ("mean", "scale") } else { ("low", "high") }; vec![k(a.f(p).unwrap_or(0.0)), k(a.f(q).unwrap_or(1.0))] }
pub fn op(name: &str, ins: &[Option<V>], a: &A, opset: i64, nout: usize) -> R {
    let x = ins.first().and_then(|v| v.as_ref());
    let inp = |i: usize| ins.get(i).and_then(|v| v.as_ref());
    let ints = |i: usize, at: &str| -> Option<Vec<i64>> { if let Some(v) = inp(i) { v.to_ints() } else { a.is(at) } };
    if UNARY.contains(&name) {
        let x = x?; let par: Vec<f64> = match name { "LeakyRelu" => vec![a.f("alpha").unwrap_or(0.01f32 as f64)], "Elu" | "Celu" => vec![a.f("alpha").unwrap_or(1.0)], "Selu" => vec![a.f("alpha").unwrap_or(1.67326319217681884765625f32 as f64), a.f("gamma").unwrap_or(1.05070102214813232421875f32 as f64)],
            "Gelu" => vec![(a.st("approximate") == Some("tanh")) as i64 as f64], "IsInf" => vec![a.i("detect_negative").unwrap_or(1) as f64, a.i("detect_positive").unwrap_or(1) as f64], _ => vec![] };
        let t = if matches!(name, "IsNaN" | "IsInf") { 9 } else { x.t }; return one(V::new(&x.s, x.d.iter().map(|e| unary(name, e, &par)).collect(), t));
    }
    match name {
        "HardSigmoid" => { let x = x?; let p = [a.f("alpha").unwrap_or(0.2f32 as f64), a.f("beta").unwrap_or(0.5)]; one(V::new(&x.s, x.d.iter().map(|e| unary(name, e, &p)).collect(), x.t)) }
        "ThresholdedRelu" => { let x = x?; let p = [a.f("alpha").unwrap_or(1.0)]; one(V::new(&x.s, x.d.iter().map(|e| unary(name, e, &p)).collect(), x.t)) }
        "Clip" => { let x = x?; let lim = |i: usize, n: &str| -> Option<E> { match inp(i) { Some(v) => Some(v.d[0].clone()), None => a.f(n).map(k) } }; let (lo, hi) = (lim(1, "min"), lim(2, "max"));
            one(V::new(&x.s, x.d.iter().map(|e| { let mut e = e.clone(); if let Some(l) = &lo { e = minmax(true, &[e, l.clone()]); } if let Some(h) = &hi { e = minmax(false, &[e, h.clone()]); } e }).collect(), x.t)) }
        "Dropout" => { let x = x?; let mut r = vec![x.clone()]; if nout > 1 { r.push(V::new(&x.s, x.d.iter().map(|_| E::I(1)).collect(), 9)); } Some(r) }
        "Add" | "Sub" | "Mul" | "Div" | "Pow" | "Mod" | "PRelu" | "BitwiseAnd" | "BitwiseOr" | "BitwiseXor" | "BitShift" => { let (x, y) = (x?, inp(1)?); let int = is_int(x.t); let fm = conc(a.i("fmod").unwrap_or(0)) != 0; let nm = if name == "BitShift" { format!("BitShift{}", a.st("direction")?) } else { name.into() }; one(broadcast2(x, y, x.t, |p, q| bin(&nm, p, q, int, fm))?) }
        "Equal" | "Less" | "LessOrEqual" | "Greater" | "GreaterOrEqual" | "And" | "Or" | "Xor" => { let (x, y) = (x?, inp(1)?); one(broadcast2(x, y, 9, |p, q| rel(name, p, q))?) }
        "Max" | "Min" | "Sum" | "Mean" => { let l: Vec<&V> = ins.iter().flatten().collect(); let s = bshape(&l.iter().map(|v| &v.s[..]).collect::<Vec<_>>())?; one(build(&s, l[0].t, |ix| { let v: Vec<E> = l.iter().map(|v| v.bc(ix).clone()).collect(); red(name, &v) })) }
        "Where" => { let (c, x, y) = (x?, inp(1)?, inp(2)?); let s = bshape(&[&c.s, &x.s, &y.s])?; one(build(&s, x.t, |ix| select(c.bc(ix), x.bc(ix), y.bc(ix)))) }
        "Cast" => { let x = x?; let to = conc(a.i("to")?) as i32; one(V::new(&x.s, x.d.iter().map(|e| cast(e, x.t, to)).collect(), to)) }
        "Reshape" => { let (x, t) = (x?, ints(1, "shape")?); let az = conc(a.i("allowzero").unwrap_or(0)) != 0; let mut s = vec![]; let mut m = None;
            for (i, v) in t.iter().enumerate() { let v = conc(*v); s.push(if v == 0 && !az { *x.s.get(i)? } else if v == -1 { if m.is_some() { return None; } m = Some(i); 1 } else if v < 0 { return None } else { v as usize }); }
            if let Some(i) = m { let p = numel(&s); if p == 0 || x.d.len() % p != 0 { return None; } s[i] = x.d.len() / p; } one(reshape(x, &s)?) }
        "Flatten" => { let x = x?; let r = x.rank() as i64; let v = a.i("axis").unwrap_or(1); if v < -r || v > r { return None; } let i = conc(if v < 0 { v + r } else { v }) as usize; one(reshape(x, &[numel(&x.s[..i]), numel(&x.s[i..])])?) }
        "Squeeze" => { let x = x?; let s = match ints(1, "axes") { Some(l) if inp(1).is_some() || !l.is_empty() => { let mut d = vec![]; for v in &l { let i = ax(*v, x.rank())?; if x.s[i] != 1 || d.contains(&i) { return None; } d.push(i); } (0..x.rank()).filter(|i| !d.contains(i)).map(|i| x.s[i]).collect() } _ => x.s.iter().copied().filter(|v| *v != 1).collect::<Vec<_>>() }; one(reshape(x, &s)?) }
        "Unsqueeze" => { let x = x?; let l = ints(1, "axes")?; let r = x.rank() + l.len(); let mut s = vec![0; r]; for v in &l { let i = ax(*v, r)?; if s[i] == 1 { return None; } s[i] = 1; } let mut it = x.s.iter(); for v in s.iter_mut() { if *v == 0 { *v = *it.next()?; } } one(reshape(x, &s)?) }
        "Transpose" => { let x = x?; let p = match a.is("perm") { Some(p) if !p.is_empty() || x.rank() == 0 => us(&p)?, _ => (0..x.rank()).rev().collect() }; if p.len() != x.rank() { return None; } let mut q = p.clone(); q.sort(); for (i, v) in q.iter().enumerate() { if i != *v { return None; } } one(permute(x, &p)) }
        "Expand" => { let (x, t) = (x?, us(&ints(1, "shape")?)?); let s = bshape(&[&x.s, &t])?; one(build(&s, x.t, |ix| x.bc(ix).clone())) }
        "Tile" => { let (x, t) = (x?, us(&ints(1, "repeats")?)?); let s: Vec<usize> = x.s.iter().zip(&t).map(|(a, b)| a * b).collect(); one(build(&s, x.t, |ix| { let j: Vec<usize> = ix.iter().zip(&x.s).map(|(i, n)| i % n).collect(); x.at(&j).clone() })) }
        "Pad" => { let x = x?; let r = x.rank(); let p = ints(1, "pads")?; let ax: Vec<usize> = match inp(3) { Some(v) => { let mut o = vec![]; for i in v.to_ints()? { o.push(ax(i, r)?); } o } None => (0..r).collect() }; let m = ax.len(); if p.len() != 2 * m { return None; }
            let (mut b, mut e) = (vec![0; r], vec![0; r]); for (i, q) in ax.iter().enumerate() { b[*q] = p[i]; e[*q] = p[i + m]; } let z = match inp(2) { Some(v) => v.d[0].clone(), None => match a.f("value") { Some(v) => k(v), None => if is_int(x.t) { E::I(0) } else { k(0.0) } } }; one(pad(x, &b, &e, a.st("mode").unwrap_or("constant"), &z)?) }
        "Slice" => { let x = x?; let (s, e) = (ints(1, "starts")?, ints(2, "ends")?); let axes = match ints(3, "axes") { Some(l) if !l.is_empty() || s.is_empty() => { let mut o = vec![]; for v in l { o.push(ax(v, x.rank())?); } o } _ => (0..s.len()).collect() }; let st = match inp(4) { Some(v) => v.to_ints()?, None => vec![1; s.len()] }; if e.len() != s.len() || axes.len() != s.len() || st.len() != s.len() { return None; } one(slice(x, &s, &e, &axes, &st)?) }
        "Concat" => { let l: Vec<&V> = ins.iter().flatten().collect(); one(concat(&l, ax(a.i("axis").unwrap_or(1), l[0].rank())?)?) }
        "Split" => { let x = x?; let i = ax(a.i("axis").unwrap_or(0), x.rank())?; let n = x.s[i]; let sz = match ints(1, "split") { Some(v) if !v.is_empty() => us(&v)?, _ => { let c = n.div_ceil(nout); let mut l = n; (0..nout).map(|_| { let t = c.min(l); l -= t; t }).collect() } }; if sz.iter().sum::<usize>() != n || sz.len() != nout { return None; }
            let mut o = vec![]; let mut p = 0; for v in sz { o.push(slice(x, &[p as i64], &[(p + v) as i64], &[i], &[1])?); p += v; } Some(o) }
        "DepthToSpace" => { let x = x?; let b = conc(a.i("blocksize")?) as usize; let s = &x.s; if s.len() != 4 || b == 0 || s[1] % (b * b) != 0 { return None; } let c = s[1] / (b * b); let y = if a.st("mode").unwrap_or("DCR") == "DCR" { permute(&reshape(x, &[s[0], b, b, c, s[2], s[3]])?, &[0, 3, 4, 1, 5, 2]) } else { permute(&reshape(x, &[s[0], c, b, b, s[2], s[3]])?, &[0, 1, 4, 2, 5, 3]) }; one(reshape(&y, &[s[0], c, s[2] * b, s[3] * b])?) }
        "SpaceToDepth" => { let x = x?; let b = conc(a.i("blocksize")?) as usize; let s = &x.s; if s.len() != 4 || b == 0 || s[2] % b != 0 || s[3] % b != 0 { return None; } let y = permute(&reshape(x, &[s[0], s[1], s[2] / b, b, s[3] / b, b])?, &[0, 3, 5, 1, 2, 4]); one(reshape(&y, &[s[0], s[1] * b * b, s[2] / b, s[3] / b])?) }
        "Shape" => { let x = x?; let r = x.rank() as i64; let cl = |v: i64| { let v = if v < 0 { v + r } else { v }; conc(v.clamp(0, r)) }; let (s, e) = (cl(a.i("start").unwrap_or(0)), cl(a.i("end").unwrap_or(r))); let l: Vec<i64> = (s..e).map(|i| x.s[i as usize] as i64).collect(); one(V::ints(&[l.len()], &l)) }
        "Size" => { let x = x?; one(V::ints(&[], &[x.d.len() as i64])) }
        "ConstantOfShape" => { let s = us(&x?.to_ints()?)?; let (e, t) = match a.t("value") { Some(v) => (v.d[0].clone(), v.t), _ => (k(0.0), 1) }; one(build(&s, t, |_| e.clone())) }
        "Constant" => match &a.0.first()?.1 { AV::T(v) => one(v.clone()), AV::B(b) => one(crate::pb::tensor_from(b)), AV::I(v) => one(V::ints(&[], &[*v])), AV::Is(v) => one(V::ints(&[v.len()], v)), AV::F(v) => one(V::scalar(k(*v), 1)), AV::Fs(v) => one(V::new(&[v.len()], v.iter().map(|x| k(*x)).collect(), 1)), _ => None },
        "EyeLike" => { let x = x?; let t = a.i("dtype").map_or(x.t, |v| conc(v) as i32); let kk = conc(a.i("k").unwrap_or(0)); one(build(&x.s, t, |ix| { let v = (ix[1] as i64 - ix[0] as i64 == kk) as i64; if is_int(t) { E::I(v) } else { k(v as f64) } })) }
        "Trilu" => { let x = x?; let up = conc(a.i("upper").unwrap_or(1)) != 0; let d = match inp(1) { Some(v) => conc(v.to_ints()?[0]), None => 0 }; let r = x.rank(); let z = if is_int(x.t) { E::I(0) } else { k(0.0) }; one(build(&x.s, x.t, |ix| { let q = ix[r - 1] as i64 - ix[r - 2] as i64; if if up { q >= d } else { q <= d } { x.at(ix).clone() } else { z.clone() } })) }
        "Range" => { let (s, l, d) = (x?, inp(1)?, inp(2)?); if !is_int(s.t) { return None; } let (sv, lv, dv) = (s.to_ints()?[0], l.to_ints()?[0], d.to_ints()?[0]); if dv == 0 { return None; } let n = (lv - sv + if dv > 0 { dv - 1 } else { dv + 1 }) / dv; let n = conc(n.max(0)); let o: Vec<i64> = (0..n).map(|i| sv + i * dv).collect(); let mut v = V::ints(&[n as usize], &o); v.t = s.t; one(v) }
        "OneHot" => { let (x, d, v) = (x?, inp(1)?, inp(2)?); let dep = conc(d.to_ints()?[0]) as usize; let r = x.rank(); let i = ax(a.i("axis").unwrap_or(-1), r + 1)?; let mut s = x.s.clone(); s.insert(i, dep);
            one(build(&s, v.t, |ix| { let mut j = ix.to_vec(); let p = j.remove(i); let e = x.at(&j); let hit = match e { E::I(q) => { let m = dep as i64; E::I((*q == p as i64 || *q + m == p as i64) as i64) } _ => rel("Or", &rel("Equal", e, &E::I(p as i64)), &rel("Equal", e, &E::I(p as i64 - dep as i64))) }; select(&hit, &v.d[1], &v.d[0]) })) }
        "CumSum" => { let x = x?; let i = ax(inp(1)?.to_ints()?[0], x.rank())?; let (ex, rev) = (conc(a.i("exclusive").unwrap_or(0)) != 0, conc(a.i("reverse").unwrap_or(0)) != 0); let n = x.s[i]; one(build(&x.s, x.t, |ix| { let p = ix[i]; let l: Vec<E> = (0..n).filter(|q| match (rev, ex) { (false, false) => *q <= p, (false, true) => *q < p, (true, false) => *q >= p, _ => *q > p }).map(|q| { let mut j = ix.to_vec(); j[i] = q; x.at(&j).clone() }).collect(); if l.is_empty() { if is_int(x.t) { E::I(0) } else { k(0.0) } } else { sum(&l) } })) }
        "Gather" => { let (x, i) = (x?, inp(1)?); one(gather(x, i, ax(a.i("axis").unwrap_or(0), x.rank())?)?) }
        "GatherElements" => { let (x, i) = (x?, inp(1)?); let d = ax(a.i("axis").unwrap_or(0), x.rank())?; let mut bad = false; let o = build(&i.s, x.t, |ix| match index_of(i.at(ix), x.s[d]) { Some(p) => { let mut j = ix.to_vec(); j[d] = p; for q in 0..j.len() { if j[q] >= x.s[q] { bad = true; return E::I(0); } } x.at(&j).clone() } None => { bad = true; E::I(0) } }); if bad { None } else { one(o) } }
        "GatherND" => { let (x, i) = (x?, inp(1)?); let b = conc(a.i("batch_dims").unwrap_or(0)) as usize; let q = i.rank(); let m = i.s[q - 1]; let mut s = i.s[..q - 1].to_vec(); s.extend(&x.s[b + m..]); let mut bad = false;
            let o = build(&s, x.t, |ix| { let mut j = ix[..b].to_vec(); for t in 0..m { let mut p = ix[..q - 1].to_vec(); p.push(t); match index_of(i.at(&p), x.s[b + t]) { Some(v) => j.push(v), None => { bad = true; return E::I(0); } } } j.extend(&ix[q - 1..]); x.at(&j).clone() }); if bad { None } else { one(o) } }
        "ScatterElements" => { let (x, i, u) = (x?, inp(1)?, inp(2)?); let d = ax(a.i("axis").unwrap_or(0), x.rank())?; let rd = a.st("reduction").unwrap_or("none").to_string(); let mut o = x.clone(); for ix in each(&i.s) { let mut j = ix.clone(); j[d] = index_of(i.at(&ix), x.s[d])?; let mut p = 0; for (t, n) in j.iter().zip(&x.s) { p = p * n + t; } o.d[p] = combine(&rd, &o.d[p], u.at(&ix)); } one(o) }
        "ScatterND" => { let (x, i, u) = (x?, inp(1)?, inp(2)?); let rd = a.st("reduction").unwrap_or("none").to_string(); let mut o = x.clone(); let q = i.rank(); let m = i.s[q - 1]; for ix in each(&i.s[..q - 1]) { let mut j = vec![]; for t in 0..m { let mut p = ix.clone(); p.push(t); j.push(index_of(i.at(&p), x.s[t])?); } for rest in each(&x.s[m..]) { let mut f = j.clone(); f.extend(&rest); let mut ui = ix.clone(); ui.extend(&rest); let mut p = 0; for (t, n) in f.iter().zip(&x.s) { p = p * n + t; } o.d[p] = combine(&rd, &o.d[p], u.at(&ui)); } } one(o) }
        "MatMul" => one(matmul(x?, inp(1)?)?),
        "Gemm" => { let (x, y) = (x?, inp(1)?); let t = |v: &V, n: &str| if conc(a.i(n).unwrap_or(0)) != 0 { permute(v, &[1, 0]) } else { v.clone() }; if x.rank() != 2 || y.rank() != 2 { return None; } let mut m = matmul(&t(x, "transA"), &t(y, "transB"))?; let al = a.f("alpha").unwrap_or(1.0); for e in m.d.iter_mut() { *e = mul(e, &k(al)); }
            if let Some(c) = inp(2) { let be = a.f("beta").unwrap_or(1.0); if bshape(&[&m.s, &c.s])? != m.s { return None; } m = broadcast2(&m, c, m.t, |p, q| add(p, &mul(q, &k(be))))?; } one(m) }
        "Linear" => { let mut w = inp(1)?.clone(); if conc(a.i("transpose_weight").unwrap_or(0)) != 0 { w = permute(&w, &[1, 0]); } let mut m = matmul(x?, &w)?; if let Some(b) = inp(2) { m = broadcast2(&m, b, m.t, add)?; } one(m) }
        "Softmax" | "LogSoftmax" => { let x = x?; let log = name == "LogSoftmax"; if opset >= 13 { one(softmax(x, ax(a.i("axis").unwrap_or(-1), x.rank())?, log)) } else { let i = ax(a.i("axis").unwrap_or(1), x.rank())?; let y = reshape(x, &[numel(&x.s[..i]), numel(&x.s[i..])])?; one(reshape(&softmax(&y, 1, log), &x.s)?) } }
        n if n.starts_with("Reduce") => { let x = x?; let noop = conc(a.i("noop_with_empty_axes").unwrap_or(0)) != 0; let keep = conc(a.i("keepdims").unwrap_or(1)) != 0; let axes = match ints(1, "axes") { Some(l) if !l.is_empty() => { let mut o = vec![]; for v in l { let i = ax(v, x.rank())?; if o.contains(&i) { return None; } o.push(i); } o.sort(); o } _ => if noop { vec![] } else { (0..x.rank()).collect() } }; one(reduce(&n[6..], x, &axes, keep)) }
        "ArgMax" | "ArgMin" => { let x = x?; let i = ax(a.i("axis").unwrap_or(0), x.rank())?; let keep = conc(a.i("keepdims").unwrap_or(1)) != 0; let last = conc(a.i("select_last_index").unwrap_or(0)); let mut s = x.s.clone(); if keep { s[i] = 1; } else { s.remove(i); } one(build(&s, 7, |ix| { let mut j = ix.to_vec(); if !keep { j.insert(i, 0); } let l: Vec<E> = (0..x.s[i]).map(|q| { j[i] = q; x.at(&j).clone() }).collect(); let mut l = l; l.push(E::I(last)); apply(name, l) })) }
        "TopK" => { let x = x?; let i = ax(a.i("axis").unwrap_or(-1), x.rank())?; let kk = match inp(1) { Some(v) => conc(v.to_ints()?[0]), None => conc(a.i("k")?) } as usize; if kk > x.s[i] { return None; } let (lg, so) = (conc(a.i("largest").unwrap_or(1)), conc(a.i("sorted").unwrap_or(1))); let mut s = x.s.clone(); s[i] = kk; let f = |nm: &'static str, t: i32| build(&s, t, |ix| { let mut j = ix.to_vec(); let p = j[i]; let mut l = vec![E::I(lg), E::I(so), E::I(p as i64)]; for q in 0..x.s[i] { j[i] = q; l.push(x.at(&j).clone()); } apply(nm, l) }); Some(vec![f("topk", x.t), f("topki", 7)]) }
        "Conv" => one(conv(x?, inp(1)?, inp(2), a)?),
        "ConvTranspose" => one(conv_transpose(x?, inp(1)?, inp(2), a)?),
        "MaxPool" => one(pool(true, x?, a)?), "AveragePool" => one(pool(false, x?, a)?),
        "GlobalAveragePool" => { let x = x?; one(reduce("Mean", x, &(2..x.rank()).collect::<Vec<_>>(), true)) }
        "LayerNormalization" => { let x = x?; let i = ax(a.i("axis").unwrap_or(-1), x.rank())?; one(layer_norm(x, inp(1)?, inp(2), i, a.f("epsilon").unwrap_or(1e-5f32 as f64))?) }
        "BatchNormalization" => { let x = x?; one(batch_norm(x, inp(1)?, inp(2)?, inp(3)?, inp(4)?, a.f("epsilon").unwrap_or(1e-5f32 as f64))) }
        "InstanceNormalization" => { let x = x?; let (s, b) = (inp(1)?, inp(2)?); one(group_norm(x, x.s[1], a.f("epsilon").unwrap_or(1e-5f32 as f64), |c| s.d[c].clone(), |c| b.d[c].clone())?) }
        "GroupNormalization" => { let x = x?; let (s, b) = (inp(1)?, inp(2)?); let g = conc(a.i("num_groups")?) as usize; if g == 0 || x.s[1] % g != 0 { return None; } let per = x.s[1] / g; let chan = opset >= 21; if s.d.len() != if chan { x.s[1] } else { g } { return None; } one(group_norm(x, g, a.f("epsilon").unwrap_or(1e-5f32 as f64), |c| s.d[if chan { c } else { c / per }].clone(), |c| b.d[if chan { c } else { c / per }].clone())?) }
        "Attention" => { let (q, kx, v) = (x?, inp(1)?, inp(2)?); let sc = a.f("scale").unwrap_or(1.0 / (q.s[q.rank() - 1] as f64).sqrt()); one(sdpa(q, kx, v, inp(3), sc, conc(a.i("is_causal").unwrap_or(0)) != 0, a.f("softcap").unwrap_or(0.0))?) }
        "Bernoulli" => { let x = x?; let u = draw("RandomUniformLike", &[k(0.0), k(1.0)], &x.s, x.t); let to = a.i("dtype").map_or(x.t, |t| conc(t) as i32); one(V::new(&x.s, x.d.iter().zip(&u.d).map(|(p, q)| cast(&rel("Less", q, p), 9, to)).collect(), to)) }
        "RandomNormalLike" | "RandomUniformLike" => { let x = x?; one(draw(name, &rpar(name, a), &x.s, x.t)) }
        "RandomNormal" | "RandomUniform" => { let s = us(&a.is("shape")?)?; one(draw(name, &rpar(name, a), &s, 1)) }
        "Hardmax" => { let x = x?; let dims = x.s.clone(); let (x, i) = if opset >= 13 { (x.clone(), ax(a.i("axis").unwrap_or(-1), x.rank())?) } else { let i = ax(a.i("axis").unwrap_or(1), x.rank())?; (reshape(x, &[numel(&x.s[..i]), numel(&x.s[i..])])?, 1) }; let o = build(&x.s, x.t, |ix| { let mut l = vec![E::I(ix[i] as i64)]; let mut j = ix.to_vec(); for q in 0..x.s[i] { j[i] = q; l.push(x.at(&j).clone()); } apply("hardmax", l) }); one(reshape(&o, &dims)?) }
        "BitwiseNot" => { let x = x?; one(V::new(&x.s, x.d.iter().map(|e| unary(name, e, &[])).collect(), x.t)) }
        "GlobalMaxPool" => { let x = x?; one(reduce("Max", x, &(2..x.rank()).collect::<Vec<_>>(), true)) }
        "Swish" => { let x = x?; let al = k(a.f("alpha").unwrap_or(1.0)); one(V::new(&x.s, x.d.iter().map(|e| mul(e, &unary("Sigmoid", &mul(e, &al), &[]))).collect(), x.t)) }
        _ => { symrt::print("no reference semantics for "); symrt::print(name); panic!("reference") }
    }
}
pub fn cast(e: &E, from: i32, to: i32) -> E {
    if from == to { return e.clone(); }
    let (fi, ti) = (is_int(from), is_int(to));
    match e {
        E::I(v) => if to == 9 { E::I((*v != 0) as i64) } else if ti { E::I(match to { 2 => *v as u8 as i64, 3 => *v as i8 as i64, 4 => *v as u16 as i64, 5 => *v as i16 as i64, 6 => *v as i32 as i64, 12 => *v as u32 as i64, _ => *v }) } else { k(conc(*v) as f64) },
        _ => if let Some(v) = cst(e) && !fi { if to == 9 { E::I((v != 0.0) as i64) } else if ti { E::I(v as i64) } else { e.clone() } }
            else if !fi && !ti && (to == 11 || to == 1 && from != 11) || fi && from == 9 && ti { e.clone() } else { apply(&format!("cast{to}"), vec![e.clone()]) },
    }
}
/// reference evaluation of a model; None when the model is not valid
pub fn run(m: &Model, inputs: &[(&str, V)]) -> Option<Vec<V>> {
    reset();
    let mut env: Vec<(String, V)> = m.inits.iter().map(|t| (t.name.clone(), t.val())).collect(); for (n, v) in inputs { env.push((n.to_string(), v.clone())); }
    run_env(m, &mut env)
}
pub fn run_env(m: &Model, env: &mut Vec<(String, V)>) -> Option<Vec<V>> {
    for n in &m.nodes {
        let ins: Vec<Option<V>> = n.ins.iter().map(|i| if i.is_empty() { None } else { env.iter().rev().find(|(k, _)| k == i).map(|(_, v)| v.clone()) }).collect();
        for (i, v) in n.ins.iter().zip(&ins) { if !i.is_empty() && v.is_none() { return None; } }
        let o = op(&n.op, &ins, &n.attrs, m.opset, n.outs.len())?;
        for (k, v) in n.outs.iter().zip(o) { if !k.is_empty() { env.push((k.clone(), v)); } }
    }
    m.outputs.iter().map(|o| env.iter().rev().find(|(k, _)| k == o).map(|(_, v)| v.clone())).collect()
}
