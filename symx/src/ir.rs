//! Parser for textual LLVM IR (the final, link-time-optimised module rustc emits).
//! Function bodies are parsed on first call.
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Ty { Void, Int(u16), F32, F64, Ptr, Vec(u32, TyId), Arr(u64, TyId), Struct(Vec<TyId>, bool), Meta, Label }

#[derive(Clone, Debug)]
pub enum CV { I(u128), A(Rc<Vec<CV>>) }

#[derive(Clone, Debug)]
pub enum Opnd { R(u32), C(u128), A(Rc<Vec<CV>>) }

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum FPred { False, True, Oeq, Ogt, Oge, Olt, Ole, One, Ord, Ueq, Ugt, Uge, Ult, Ule, Une, Uno }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Cast { Trunc, ZExt, SExt, FPTrunc, FPExt, SiToFp, UiToFp, FpToSi, FpToUi, Bits }
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Rmw { Xchg, Add, Sub, And, Or, Xor, Nand, Max, Min, UMax, UMin }

#[derive(Debug)]
pub struct CallI { pub dst: Option<u32>, pub ret: TyId, pub callee: Callee, pub args: Vec<Opnd>, pub argty: Vec<TyId>, pub normal: Option<u32> }
#[derive(Debug)]
pub enum Callee { Direct(u32), Ind(Opnd), Asm(String) }

#[derive(Debug)]
pub enum Ins {
    Bin(Bin, u16, u32, u32, Opnd, Opnd),           // op, width, lanes, dst, a, b
    Icmp(Pred, u16, u32, u32, Opnd, Opnd),
    Fcmp(FPred, u16, u32, u32, Opnd, Opnd),
    FNeg(u16, u32, u32, Opnd),
    Cast(Cast, TyId, TyId, u32, Opnd),
    Load(TyId, u32, Opnd),
    Store(TyId, Opnd, Opnd),
    Gep(u32, Opnd, i64, Vec<(Opnd, u16, i64)>),
    Alloca(u32, u64, u64, Opnd),
    Select(u32, u32, TyId, Opnd, Opnd, Opnd),       // dst, cond lanes, ty
    Call(Box<CallI>),
    Ret(Option<Opnd>),
    Br(u32),
    CBr(Opnd, u32, u32),
    Switch(Opnd, u16, u32, Vec<(u128, u32)>),
    Unreachable,
    ExtractV(u32, Opnd, Vec<u32>),
    InsertV(u32, TyId, Opnd, Opnd, Vec<u32>),
    ExtractE(u32, Opnd, Opnd),
    InsertE(u32, Opnd, Opnd, Opnd),
    Shuffle(u32, Opnd, Opnd, Vec<u32>, u32),        // lanes of an input
    Mov(u32, Opnd),
    Rmw(Rmw, u16, u32, Opnd, Opnd),
    CmpXchg(u16, u32, Opnd, Opnd, Opnd),
    Fence,
    LandingPad(u32),
    Resume,
}

pub struct Block { pub phis: Vec<(u32, Vec<(u32, Opnd)>)>, pub start: usize }
pub struct Body { pub ins: Vec<Ins>, pub dbg: Vec<u32>, pub blocks: Vec<Block>, pub nregs: usize }
pub struct Func { pub name: String, pub params: Vec<TyId>, pub ret: TyId, pub src: Option<(usize, usize)>, pub param_names: Vec<String>, pub body: Option<Rc<Body>>, pub addr: u64 }

pub struct GlobalInit { pub addr: u64, pub bytes: Vec<u8>, pub constant: bool }

pub struct Module {
    pub text: Vec<u8>,
    pub types: Vec<Ty>,
    pub tmap: HashMap<Ty, TyId>,
    named: HashMap<String, TyId>,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub gaddr: HashMap<String, u64>,
    pub inits: Vec<GlobalInit>,
    pub meta: HashMap<u32, (usize, usize)>,
    pub globals_end: u64,
}

pub const FN_BASE: u64 = 0x10_0000;
pub const GLOBAL_BASE: u64 = 0x1000_0000;

pub struct P<'a> { s: &'a [u8], i: usize }
impl<'a> P<'a> {
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.s[self.i], b' ' | b'\n' | b'\t') { self.i += 1; }
        if self.s[self.i..].starts_with(b"/*") { while !self.s[self.i..].starts_with(b"*/") { self.i += 1; } self.i += 2; self.ws(); }
    }
    fn peek(&mut self) -> u8 { self.ws(); if self.i < self.s.len() { self.s[self.i] } else { 0 } }
    fn eat(&mut self, t: &str) -> bool { self.ws(); if self.s[self.i..].starts_with(t.as_bytes()) { self.i += t.len(); true } else { false } }
    fn word(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) { let n = self.s.get(self.i + t.len()).copied().unwrap_or(b' '); if !(n.is_ascii_alphanumeric() || n == b'_' || n == b'.') { self.i += t.len(); return true; } }
        false
    }
    fn expect(&mut self, t: &str) { if !self.eat(t) { let e = (self.i + 120).min(self.s.len()); panic!("IR: expected {t:?} at {:?} in {:?}", String::from_utf8_lossy(&self.s[self.i..e]), String::from_utf8_lossy(&self.s[..self.s.len().min(300)])); } }
    fn ident(&mut self) -> &'a str { self.ws(); let st = self.i; while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || matches!(self.s[self.i], b'_' | b'.' | b'$' | b'-')) { self.i += 1; } std::str::from_utf8(&self.s[st..self.i]).unwrap() }
    /// name after % or @
    fn name(&mut self) -> String {
        if self.s[self.i] == b'"' { self.i += 1; let st = self.i; while self.s[self.i] != b'"' { self.i += 1; } let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned(); self.i += 1; r } else { self.ident().to_string() }
    }
    fn int(&mut self) -> i128 { self.ws(); let neg = self.eat("-"); let st = self.i; while self.i < self.s.len() && self.s[self.i].is_ascii_digit() { self.i += 1; } let v: u128 = std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().unwrap_or_else(|_| panic!("IR: int at {:?}", String::from_utf8_lossy(&self.s[..self.s.len().min(300)]))); if neg { (v as i128).wrapping_neg() } else { v as i128 } }
    fn skip_parens(&mut self) { self.expect("("); let mut d = 1; while d > 0 { match self.s[self.i] { b'(' => d += 1, b')' => d -= 1, b'"' => { self.i += 1; while self.s[self.i] != b'"' { self.i += 1; } } _ => {} } self.i += 1; } }
}

struct Locals { regs: HashMap<String, u32>, blocks: HashMap<String, u32> }

impl Module {
    pub fn intern(&mut self, t: Ty) -> TyId { if let Some(&i) = self.tmap.get(&t) { return i; } let i = self.types.len() as TyId; self.types.push(t.clone()); self.tmap.insert(t, i); i }
    pub fn size(&self, t: TyId) -> u64 {
        match &self.types[t as usize] {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = self.align(t); (b + a - 1) / a * a }
            Ty::F32 => 4, Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(n, e) => { let bits = *n as u64 * self.bits(*e) as u64; ((bits + 7) / 8).next_power_of_two() }
            Ty::Arr(n, e) => n * self.size(*e),
            Ty::Struct(fs, packed) => { let mut o = 0; let mut al = 1; for &f in fs { if !packed { let a = self.align(f); al = al.max(a); o = (o + a - 1) / a * a; } o += self.size(f); } (o + al - 1) / al * al }
            _ => 0,
        }
    }
    pub fn bits(&self, t: TyId) -> u16 { match &self.types[t as usize] { Ty::Int(w) => *w, Ty::F32 => 32, Ty::F64 | Ty::Ptr => 64, Ty::Vec(n, e) => *n as u16 * self.bits(*e), x => panic!("bits of {x:?}") } }
    pub fn align(&self, t: TyId) -> u64 {
        match &self.types[t as usize] {
            Ty::Int(w) => { let b = ((*w as u64 + 7) / 8).next_power_of_two(); b.min(16) }
            Ty::F32 => 4, Ty::F64 | Ty::Ptr => 8,
            Ty::Vec(..) => self.size(t).min(16),
            Ty::Arr(_, e) => self.align(*e),
            Ty::Struct(fs, packed) => if *packed { 1 } else { fs.iter().map(|&f| self.align(f)).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn field_off(&self, t: TyId, k: usize) -> u64 {
        if let Ty::Struct(fs, packed) = &self.types[t as usize] { let mut o = 0; for (i, &f) in fs.iter().enumerate() { if !packed { let a = self.align(f); o = (o + a - 1) / a * a; } if i == k { return o; } o += self.size(f); } }
        panic!("field_off")
    }
    pub fn lanes(&self, t: TyId) -> u32 { match &self.types[t as usize] { Ty::Vec(n, _) => *n, _ => 0 } }
    pub fn elem(&self, t: TyId) -> TyId { match &self.types[t as usize] { Ty::Vec(_, e) | Ty::Arr(_, e) => *e, _ => t } }

    fn ty(&mut self, p: &mut P) -> TyId {
        let c = p.peek();
        let t = match c {
            b'i' if p.s[p.i + 1].is_ascii_digit() => { p.i += 1; let w = p.int() as u16; self.intern(Ty::Int(w)) }
            b'{' => { p.i += 1; let mut v = vec![]; if p.peek() != b'}' { loop { v.push(self.ty(p)); if !p.eat(",") { break; } } } p.expect("}"); self.intern(Ty::Struct(v, false)) }
            b'[' => { p.i += 1; let n = p.int() as u64; p.expect("x"); let e = self.ty(p); p.expect("]"); self.intern(Ty::Arr(n, e)) }
            b'<' => {
                p.i += 1;
                if p.peek() == b'{' { p.i += 1; let mut v = vec![]; if p.peek() != b'}' { loop { v.push(self.ty(p)); if !p.eat(",") { break; } } } p.expect("}"); p.expect(">"); self.intern(Ty::Struct(v, true)) }
                else { let n = p.int() as u32; p.expect("x"); let e = self.ty(p); p.expect(">"); self.intern(Ty::Vec(n, e)) }
            }
            b'%' => { p.i += 1; let n = p.name(); *self.named.get(&n).unwrap_or_else(|| panic!("type {n}")) }
            _ => {
                if p.word("ptr") { self.intern(Ty::Ptr) } else if p.word("void") { self.intern(Ty::Void) } else if p.word("float") { self.intern(Ty::F32) } else if p.word("double") { self.intern(Ty::F64) }
                else if p.word("half") { self.intern(Ty::Int(16)) } else if p.word("metadata") { self.intern(Ty::Meta) } else if p.word("label") { self.intern(Ty::Label) }
                else { let e = (p.i + 80).min(p.s.len()); panic!("IR: type at {:?}", String::from_utf8_lossy(&p.s[p.i..e])) }
            }
        };
        // function type (varargs call): `i64 (i64, ...)`
        t
    }
    fn zero(&self, t: TyId) -> CV {
        match &self.types[t as usize] {
            Ty::Vec(n, e) => { let z = self.zero(*e); CV::A(Rc::new(vec![z; *n as usize])) }
            Ty::Arr(n, e) => { let z = self.zero(*e); CV::A(Rc::new(vec![z; *n as usize])) }
            Ty::Struct(fs, _) => CV::A(Rc::new(fs.iter().map(|&f| self.zero(f)).collect())),
            _ => CV::I(0),
        }
    }
    fn sym_addr(&self, n: &str) -> u64 {
        if let Some(&a) = self.gaddr.get(n) { return a; }
        if let Some(&f) = self.fmap.get(n) { return self.funcs[f as usize].addr; }
        panic!("IR: unknown symbol {n}")
    }
    fn konst(&mut self, p: &mut P, t: TyId) -> CV {
        let c = p.peek();
        match c {
            b'@' => { p.i += 1; let n = p.name(); CV::I(self.sym_addr(&n) as u128) }
            b'-' | b'0'..=b'9' => self.number(p, t),
            b'{' | b'[' => {
                let close = if c == b'{' { "}" } else { "]" };
                p.i += 1;
                let mut v = vec![];
                if !p.eat(close) { loop { let et = self.ty(p); v.push(self.konst(p, et)); if !p.eat(",") { break; } } p.expect(close); }
                CV::A(Rc::new(v))
            }
            b'<' => {
                p.i += 1;
                let packed = p.eat("{");
                let mut v = vec![];
                if !(packed && p.eat("}")) { loop { let et = self.ty(p); v.push(self.konst(p, et)); if !p.eat(",") { break; } } if packed { p.expect("}"); } }
                p.expect(">");
                CV::A(Rc::new(v))
            }
            b'c' if p.s[p.i + 1] == b'"' => {
                p.i += 2;
                let mut v = vec![];
                while p.s[p.i] != b'"' {
                    if p.s[p.i] == b'\\' { if p.s[p.i + 1] == b'\\' { v.push(CV::I(b'\\' as u128)); p.i += 2; } else { let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap(); v.push(CV::I(u128::from_str_radix(h, 16).unwrap())); p.i += 3; } }
                    else { v.push(CV::I(p.s[p.i] as u128)); p.i += 1; }
                }
                p.i += 1;
                CV::A(Rc::new(v))
            }
            _ => {
                if p.word("true") { return CV::I(1); }
                if p.word("false") || p.word("null") || p.word("none") { return CV::I(0); }
                if p.word("undef") || p.word("poison") || p.word("zeroinitializer") { return self.zero(t); }
                if p.word("splat") { p.expect("("); let et = self.ty(p); let v = self.konst(p, et); p.expect(")"); let n = self.lanes(t); return CV::A(Rc::new(vec![v; n as usize])); }
                if p.word("getelementptr") {
                    loop { if p.word("inbounds") || p.word("nuw") || p.word("nusw") { continue; } if p.eat("inrange") { p.skip_parens(); continue; } break; }
                    p.expect("(");
                    let bt = self.ty(p); p.expect(",");
                    let pt = self.ty(p);
                    let mut a = self.ki(p, pt) as i128;
                    let mut cur = bt; let mut first = true;
                    while p.eat(",") {
                        let it = self.ty(p);
                        let k = self.ki(p, it);
                        let k = crate::expr::sx(k, self.bits(it));
                        if first { a += k * self.size(cur) as i128; first = false; }
                        else { match self.types[cur as usize].clone() { Ty::Struct(fs, _) => { a += self.field_off(cur, k as usize) as i128; cur = fs[k as usize]; } Ty::Arr(_, e) | Ty::Vec(_, e) => { a += k * self.size(e) as i128; cur = e; } _ => panic!() } }
                    }
                    p.expect(")");
                    return CV::I(a as u64 as u128);
                }
                for (kw, _) in [("ptrtoint", 0), ("inttoptr", 1), ("bitcast", 2), ("trunc", 3), ("addrspacecast", 4), ("ptrtoaddr", 5)] {
                    if p.word(kw) { p.expect("("); let ft = self.ty(p); let v = self.ki(p, ft); p.expect("to"); let tt = self.ty(p); p.expect(")"); return CV::I(v & crate::expr::mask(self.bits(tt))); }
                }
                for kw in ["add", "sub", "xor"] {
                    if p.word(kw) {
                        while p.word("nuw") || p.word("nsw") {}
                        p.expect("("); let at = self.ty(p); let a = self.ki(p, at); p.expect(","); let bt = self.ty(p); let b = self.ki(p, bt); p.expect(")");
                        let m = crate::expr::mask(self.bits(at));
                        return CV::I(match kw { "add" => a.wrapping_add(b), "sub" => a.wrapping_sub(b), _ => a ^ b } & m);
                    }
                }
                // special float spellings
                for (kw, v) in [("+inf", f64::INFINITY), ("-inf", f64::NEG_INFINITY), ("+qnan", f64::NAN), ("-qnan", -f64::NAN), ("nan", f64::NAN)] { if p.eat(kw) { return CV::I(if matches!(self.types[t as usize], Ty::F32) { (v as f32).to_bits() as u128 } else { v.to_bits() as u128 }); } }
                if p.eat("f0x") { let st = p.i; while p.i < p.s.len() && p.s[p.i].is_ascii_hexdigit() { p.i += 1; } return CV::I(u128::from_str_radix(std::str::from_utf8(&p.s[st..p.i]).unwrap(), 16).unwrap()); }
                let e = (p.i + 100).min(p.s.len());
                panic!("IR: constant at {:?}", String::from_utf8_lossy(&p.s[p.i..e]))
            }
        }
    }
    fn ki(&mut self, p: &mut P, t: TyId) -> u128 { match self.konst(p, t) { CV::I(v) => v, _ => panic!("scalar constant expected") } }
    fn number(&mut self, p: &mut P, t: TyId) -> CV {
        match self.types[t as usize].clone() {
            Ty::Int(w) => { let v = p.int(); CV::I(v as u128 & crate::expr::mask(w)) }
            Ty::F32 | Ty::F64 => {
                let f32_ = matches!(self.types[t as usize], Ty::F32);
                let d = if p.eat("0x") { let st = p.i; while p.i < p.s.len() && p.s[p.i].is_ascii_hexdigit() { p.i += 1; } f64::from_bits(u64::from_str_radix(std::str::from_utf8(&p.s[st..p.i]).unwrap(), 16).unwrap()) }
                else {
                    if p.s[p.i..].starts_with(b"-inf") { p.i += 4; return CV::I(if f32_ { f32::NEG_INFINITY.to_bits() as u128 } else { f64::NEG_INFINITY.to_bits() as u128 }); }
                    let st = p.i; while p.i < p.s.len() && matches!(p.s[p.i], b'0'..=b'9' | b'.' | b'e' | b'+' | b'-' | b'E') { p.i += 1; } std::str::from_utf8(&p.s[st..p.i]).unwrap().parse().unwrap() };
                CV::I(if f32_ { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 })
            }
            x => panic!("IR: number for {x:?}"),
        }
    }
    fn flatten(&self, t: TyId, v: &CV, out: &mut [u8], off: u64) {
        match (&self.types[t as usize], v) {
            (Ty::Arr(_, e), CV::A(xs)) | (Ty::Vec(_, e), CV::A(xs)) => { let s = self.size(*e); for (i, x) in xs.iter().enumerate() { self.flatten(*e, x, out, off + i as u64 * s); } }
            (Ty::Struct(fs, _), CV::A(xs)) => { for (i, x) in xs.iter().enumerate() { self.flatten(fs[i], x, out, off + self.field_off(t, i)); } }
            (_, CV::I(k)) => { let n = self.size(t) as usize; for i in 0..n { out[off as usize + i] = if i < 16 { (k >> (8 * i)) as u8 } else { 0 }; } }
            _ => panic!("flatten"),
        }
    }

    pub fn load(path: &str) -> Module {
        let text = std::fs::read(path).expect("read IR");
        let mut m = Module { text: vec![], types: vec![], tmap: HashMap::new(), named: HashMap::new(), funcs: vec![], fmap: HashMap::new(), gaddr: HashMap::new(), inits: vec![], meta: HashMap::new(), globals_end: 0 };
        let mut globals: Vec<(String, usize, usize)> = vec![];
        let mut defs: Vec<(usize, usize, usize)> = vec![]; // header start, body start, body end
        let mut decls: Vec<usize> = vec![];
        let mut tydefs: Vec<usize> = vec![];
        let mut i = 0;
        let n = text.len();
        let line_end = |i: usize| -> usize { let mut j = i; while j < n && text[j] != b'\n' { j += 1; } j };
        while i < n {
            let e = line_end(i);
            match text[i] {
                b'@' => {
                    let mut p = P { s: &text[..e], i: i + 1 };
                    let name = p.name();
                    p.expect("=");
                    globals.push((name, p.i, e));
                }
                b'd' if text[i..].starts_with(b"define ") => {
                    let b = e + 1;
                    let mut j = b;
                    loop { let le = line_end(j); if text[j] == b'}' { defs.push((i, b, j)); i = le; break; } j = le + 1; }
                    i += 1;
                    continue;
                }
                b'd' if text[i..].starts_with(b"declare ") => decls.push(i),
                b'%' => tydefs.push(i),
                b'!' => { if text.get(i + 1).map_or(false, |c| c.is_ascii_digit()) { let mut j = i + 1; let mut k = 0u32; while text[j].is_ascii_digit() { k = k * 10 + (text[j] - b'0') as u32; j += 1; } m.meta.insert(k, (j, e)); } }
                _ => {}
            }
            i = e + 1;
        }
        // named types: reserve in order of dependency by retrying
        let mut pending: Vec<(String, usize)> = tydefs.iter().map(|&i| { let e = line_end(i); let mut p = P { s: &text[..e], i: i + 1 }; let nm = p.name(); p.expect("="); p.expect("type"); (nm, p.i) }).collect();
        while !pending.is_empty() {
            let before = pending.len();
            let mut rest = vec![];
            for (nm, st) in pending {
                let e = line_end(st);
                let src = &text[st..e];
                let ok = { let mut q = 0; let mut ok = true; while q < src.len() { if src[q] == b'%' { let mut p = P { s: src, i: q + 1 }; let x = p.name(); if !m.named.contains_key(&x) { ok = false; } q = p.i; } else { q += 1; } } ok };
                if ok { let mut p = P { s: src, i: 0 }; if p.eat("opaque") { let t = m.intern(Ty::Struct(vec![], false)); m.named.insert(nm, t); } else { let t = m.ty(&mut p); m.named.insert(nm, t); } } else { rest.push((nm, st)); }
            }
            assert!(rest.len() < before, "cyclic named types");
            pending = rest;
        }
        // functions
        let header = |m: &mut Module, p: &mut P| -> Func {
            // linkage etc. up to the return type
            loop {
                let save = p.i;
                let w = p.ident();
                if w.is_empty() { break; }
                match w {
                    "define" | "declare" | "internal" | "private" | "external" | "dso_local" | "hidden" | "protected" | "weak" | "weak_odr" | "linkonce_odr" | "extern_weak" | "available_externally" | "fastcc" | "coldcc" | "ccc" | "cold" | "zeroext" | "signext" | "noundef" | "noalias" | "nonnull" | "inreg" | "unnamed_addr" | "local_unnamed_addr" | "preserve_mostcc" => {}
                    "align" => { p.int(); }
                    "range" | "dereferenceable" | "dereferenceable_or_null" | "nofpclass" => p.skip_parens(),
                    _ => { p.i = save; break; }
                }
            }
            let ret = m.ty(p);
            p.ws(); p.expect("@");
            let name = p.name();
            p.expect("(");
            let mut params = vec![]; let mut names = vec![];
            if !p.eat(")") {
                loop {
                    if p.eat("...") { p.expect(")"); break; }
                    let t = m.ty(p);
                    params.push(t);
                    m.skip_param_attrs(p);
                    if p.peek() == b'%' { p.i += 1; names.push(p.name()); } else { names.push(String::new()); }
                    if p.eat(",") { continue; }
                    p.expect(")");
                    break;
                }
            }
            Func { name, params, ret, src: None, param_names: names, body: None, addr: 0 }
        };
        for &(h, b, e) in &defs {
            let he = line_end(h);
            let mut p = P { s: &text[..he], i: h };
            let mut f = header(&mut m, &mut p);
            f.src = Some((b, e));
            f.addr = FN_BASE + 16 * m.funcs.len() as u64;
            m.fmap.insert(f.name.clone(), m.funcs.len() as u32);
            m.funcs.push(f);
        }
        for &h in &decls {
            let he = line_end(h);
            let mut p = P { s: &text[..he], i: h };
            let weak = text[h..he].windows(11).any(|w| w == b"extern_weak");
            let mut f = header(&mut m, &mut p);
            f.addr = if weak { 0 } else { FN_BASE + 16 * m.funcs.len() as u64 };
            m.fmap.insert(f.name.clone(), m.funcs.len() as u32);
            m.funcs.push(f);
        }
        assert!(FN_BASE + 16 * m.funcs.len() as u64 <= GLOBAL_BASE);
        // globals: two passes (addresses, then initialisers)
        let mut at = GLOBAL_BASE;
        let mut todo = vec![];
        for (name, st, e) in &globals {
            let mut p = P { s: &text[..*e], i: *st };
            let mut external = false; let mut weak = false; let mut constant = false; let mut alias = false;
            loop {
                p.ws();
                let w = p.ident();
                match w {
                    "external" => external = true,
                    "extern_weak" => { external = true; weak = true }
                    "global" => break,
                    "constant" => { constant = true; break }
                    "alias" => { alias = true; break }
                    "thread_local" => { if p.peek() == b'(' { p.skip_parens(); } }
                    "addrspace" => p.skip_parens(),
                    "private" | "internal" | "appending" | "hidden" | "unnamed_addr" | "local_unnamed_addr" | "dso_local" | "linkonce_odr" | "weak" | "weak_odr" | "common" | "externally_initialized" => {}
                    x => panic!("IR: global keyword {x:?} for {name}"),
                }
            }
            let t = m.ty(&mut p);
            if alias { todo.push((name.clone(), t, p.i, *e, 2u8, constant)); continue; }
            let size = m.size(t).max(1);
            let line = &text[p.i..*e];
            let al = { let pos = line.windows(8).rposition(|w| w == b", align "); match pos { Some(k) => { let mut q = P { s: line, i: k + 8 }; q.int() as u64 } None => m.align(t) } }.max(1);
            at = (at + al - 1) / al * al;
            if weak { m.gaddr.insert(name.clone(), 0); } else { m.gaddr.insert(name.clone(), at); at += size; }
            todo.push((name.clone(), t, p.i, *e, external as u8, constant));
        }
        m.globals_end = at;
        for (name, t, st, e, kind, _) in &todo { if *kind == 2 { let mut p = P { s: &text[..*e], i: *st }; let _ = t; let at = m.ty(&mut p); let a = m.ki(&mut p, at); m.gaddr.insert(name.clone(), a as u64); } }
        for (name, t, st, e, kind, constant) in todo {
            let addr = m.gaddr[&name];
            let size = m.size(t) as usize;
            let mut bytes = vec![0u8; size];
            if kind == 0 && !name.starts_with("llvm.") { let mut p = P { s: &text[..e], i: st }; let v = m.konst(&mut p, t); m.flatten(t, &v, &mut bytes, 0); }
            if kind == 2 { continue; }
            m.inits.push(GlobalInit { addr, bytes, constant });
        }
        m.text = text;
        m
    }

    fn skip_param_attrs(&mut self, p: &mut P) {
        loop {
            p.ws();
            let c = p.peek();
            if matches!(c, b'%' | b',' | b')' | b'@' | b'{' | b'[' | b'<' | b'-' | b'0'..=b'9' | 0) { return; }
            if c == b'"' { p.i += 1; while p.s[p.i] != b'"' { p.i += 1; } p.i += 1; if p.eat("=") { p.expect("\""); while p.s[p.i] != b'"' { p.i += 1; } p.i += 1; } continue; }
            if c == b'c' && p.s[p.i + 1] == b'"' { return; }
            let save = p.i;
            let w = p.ident();
            match w {
                "align" => { if p.peek() == b'(' { p.skip_parens() } else { p.int(); } }
                "dereferenceable" | "dereferenceable_or_null" | "captures" | "range" | "sret" | "byval" | "byref" | "inalloca" | "elementtype" | "initializes" | "nofpclass" | "preallocated" | "allocalign_" | "dead_on_return" if p.peek() == b'(' => p.skip_parens(),
                "noundef" | "noalias" | "nonnull" | "nocapture" | "readonly" | "readnone" | "writeonly" | "nofree" | "signext" | "zeroext" | "inreg" | "returned" | "immarg" | "swiftself" | "nest" | "allocptr" | "allocalign" | "dead_on_unwind" | "writable" | "dead_on_return" | "noext" | "captures" | "range" | "nosync" => {}
                _ => { p.i = save; return; }
            }
        }
    }

    // ---------------------------------------------------------------- bodies
    fn opnd(&mut self, p: &mut P, t: TyId, l: &mut Locals) -> Opnd {
        if p.peek() == b'%' { p.i += 1; let n = p.name(); return Opnd::R(Self::reg(l, n)); }
        match self.konst(p, t) { CV::I(v) => Opnd::C(v), CV::A(a) => Opnd::A(a) }
    }
    fn reg(l: &mut Locals, n: String) -> u32 { let k = l.regs.len() as u32; *l.regs.entry(n).or_insert(k) }
    fn tv(&mut self, p: &mut P, l: &mut Locals) -> (TyId, Opnd) { let t = self.ty(p); let o = self.opnd(p, t, l); (t, o) }
    fn label(&mut self, p: &mut P, l: &mut Locals) -> u32 { p.expect("label"); p.expect("%"); let n = p.name(); *l.blocks.get(&n).unwrap_or_else(|| panic!("IR: label {n}")) }

    pub fn body(&mut self, f: u32) -> Rc<Body> {
        if let Some(b) = &self.funcs[f as usize].body { return b.clone(); }
        let (bs, be) = self.funcs[f as usize].src.expect("no body");
        let text = std::mem::take(&mut self.text);
        let r = Rc::new(self.parse_body(&text[bs..be], f));
        self.text = text;
        self.funcs[f as usize].body = Some(r.clone());
        r
    }
    fn parse_body(&mut self, src: &[u8], f: u32) -> Body {
        let mut l = Locals { regs: HashMap::new(), blocks: HashMap::new() };
        let names = self.funcs[f as usize].param_names.clone();
        for n in names { Self::reg(&mut l, n); }
        // split into logical lines; discover blocks
        let mut lines: Vec<(usize, usize)> = vec![];
        let mut marks: Vec<(usize, u32)> = vec![]; // line index -> block begins before it
        let mut i = 0;
        let mut nb = 0u32;
        let mut in_switch = false;
        while i < src.len() {
            let mut e = i; while e < src.len() && src[e] != b'\n' { e += 1; }
            let line = &src[i..e];
            if line.is_empty() || line[0] == b';' { i = e + 1; continue; }
            if line[0] != b' ' {
                // label
                let mut p = P { s: line, i: 0 };
                let nm = p.name();
                if marks.is_empty() && !lines.is_empty() { marks.push((0, 0)); nb = 1; }
                l.blocks.insert(nm, nb);
                marks.push((lines.len(), nb));
                nb += 1;
            } else if in_switch { lines.last_mut().unwrap().1 = e; if line.starts_with(b"  ]") { in_switch = false; } }
            else if line.len() > 3 && line[2] == b' ' { lines.last_mut().unwrap().1 = e; }
            else if line.starts_with(b"    #dbg") || line.starts_with(b"  #dbg") {}
            else { lines.push((i, e)); if line.starts_with(b"  switch ") && !line.contains(&b']') { in_switch = true; } }
            i = e + 1;
        }
        if marks.is_empty() { marks.push((0, 0)); nb = 1; }
        // the entry block's implicit label is the number after the parameters
        if !l.blocks.values().any(|&b| b == 0) { let n = self.funcs[f as usize].params.len(); l.blocks.insert(n.to_string(), 0); }
        let mut body = Body { ins: vec![], dbg: vec![], blocks: (0..nb).map(|_| Block { phis: vec![], start: 0 }).collect(), nregs: 0 };
        let mut mk = 0;
        let mut cur = 0usize;
        for (li, &(s, e)) in lines.iter().enumerate() {
            while mk < marks.len() && marks[mk].0 == li { cur = marks[mk].1 as usize; body.blocks[cur].start = body.ins.len(); mk += 1; }
            let line = &src[s..e];
            let dbg = { match line.windows(8).rposition(|w| w == b", !dbg !") { Some(k) => { let mut q = P { s: line, i: k + 8 }; q.int() as u32 } None => 0 } };
            let mut p = P { s: line, i: 0 };
            let mut dst = None;
            if p.peek() == b'%' { p.i += 1; let n = p.name(); p.expect("="); dst = Some(Self::reg(&mut l, n)); }
            if p.word("phi") {
                while p.word("nnan") || p.word("ninf") || p.word("nsz") || p.word("fast") {}
                let t = self.ty(&mut p);
                let mut inc = vec![];
                loop { p.expect("["); let v = self.opnd(&mut p, t, &mut l); p.expect(","); p.expect("%"); let n = p.name(); p.expect("]"); inc.push((*l.blocks.get(&n).unwrap_or_else(|| panic!("IR: phi label {n}")), v)); if !p.eat(",") || p.peek() == b'!' { break; } }
                body.blocks[cur].phis.push((dst.unwrap(), inc));
                body.blocks[cur].start = body.ins.len();
                continue;
            }
            let ins = self.ins(&mut p, dst, &mut l);
            body.ins.push(ins);
            body.dbg.push(dbg);
        }
        body.nregs = l.regs.len();
        body
    }
    fn vecinfo(&self, t: TyId) -> (u16, u32) { let n = self.lanes(t); (self.bits(self.elem(t)), n) }
    fn ins(&mut self, p: &mut P, dst: Option<u32>, l: &mut Locals) -> Ins {
        p.ws();
        let save = p.i;
        let op = p.ident();
        let d = || dst.unwrap();
        let bin = match op { "add" => Some(Bin::Add), "sub" => Some(Bin::Sub), "mul" => Some(Bin::Mul), "udiv" => Some(Bin::UDiv), "sdiv" => Some(Bin::SDiv), "urem" => Some(Bin::URem), "srem" => Some(Bin::SRem), "and" => Some(Bin::And), "or" => Some(Bin::Or), "xor" => Some(Bin::Xor), "shl" => Some(Bin::Shl), "lshr" => Some(Bin::LShr), "ashr" => Some(Bin::AShr), "fadd" => Some(Bin::FAdd), "fsub" => Some(Bin::FSub), "fmul" => Some(Bin::FMul), "fdiv" => Some(Bin::FDiv), "frem" => Some(Bin::FRem), _ => None };
        if let Some(b) = bin {
            while p.word("nuw") || p.word("nsw") || p.word("exact") || p.word("disjoint") || p.word("nnan") || p.word("ninf") || p.word("nsz") || p.word("contract") || p.word("afn") || p.word("reassoc") || p.word("arcp") || p.word("fast") {}
            let t = self.ty(p);
            let a = self.opnd(p, t, l); p.expect(","); let c = self.opnd(p, t, l);
            let (w, n) = self.vecinfo(t);
            return Ins::Bin(b, w, n, d(), a, c);
        }
        let cast = match op { "trunc" => Some(Cast::Trunc), "zext" => Some(Cast::ZExt), "sext" => Some(Cast::SExt), "fptrunc" => Some(Cast::FPTrunc), "fpext" => Some(Cast::FPExt), "sitofp" => Some(Cast::SiToFp), "uitofp" => Some(Cast::UiToFp), "fptosi" => Some(Cast::FpToSi), "fptoui" => Some(Cast::FpToUi), "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => Some(Cast::Bits), _ => None };
        if let Some(c) = cast {
            while p.word("nuw") || p.word("nsw") || p.word("nneg") || p.word("fast") || p.word("nnan") || p.word("ninf") || p.word("nsz") || p.word("samesign") {}
            let (t, a) = self.tv(p, l); p.expect("to"); let t2 = self.ty(p);
            return Ins::Cast(c, t, t2, d(), a);
        }
        match op {
            "icmp" => {
                p.word("samesign");
                let pr = match p.ident() { "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule, "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => panic!("icmp {x}") };
                let t = self.ty(p); let a = self.opnd(p, t, l); p.expect(","); let b = self.opnd(p, t, l);
                let (w, n) = self.vecinfo(t);
                Ins::Icmp(pr, w, n, d(), a, b)
            }
            "fcmp" => {
                while p.word("nnan") || p.word("ninf") || p.word("nsz") || p.word("fast") {}
                let pr = match p.ident() { "oeq" => FPred::Oeq, "ogt" => FPred::Ogt, "oge" => FPred::Oge, "olt" => FPred::Olt, "ole" => FPred::Ole, "one" => FPred::One, "ord" => FPred::Ord, "ueq" => FPred::Ueq, "ugt" => FPred::Ugt, "uge" => FPred::Uge, "ult" => FPred::Ult, "ule" => FPred::Ule, "une" => FPred::Une, "uno" => FPred::Uno, "true" => FPred::True, "false" => FPred::False, x => panic!("fcmp {x}") };
                let t = self.ty(p); let a = self.opnd(p, t, l); p.expect(","); let b = self.opnd(p, t, l);
                let (w, n) = self.vecinfo(t);
                Ins::Fcmp(pr, w, n, d(), a, b)
            }
            "fneg" => { while p.word("fast") || p.word("nnan") {} let (t, a) = self.tv(p, l); let (w, n) = self.vecinfo(t); Ins::FNeg(w, n, d(), a) }
            "load" => { p.word("atomic"); p.word("volatile"); let t = self.ty(p); p.expect(","); let (_, a) = self.tv(p, l); Ins::Load(t, d(), a) }
            "store" => { p.word("atomic"); p.word("volatile"); let (t, v) = self.tv(p, l); p.expect(","); let (_, a) = self.tv(p, l); Ins::Store(t, v, a) }
            "getelementptr" => {
                while p.word("inbounds") || p.word("nuw") || p.word("nusw") {}
                let bt = self.ty(p); p.expect(",");
                let (pt, base) = self.tv(p, l);
                assert!(self.lanes(pt) == 0, "vector gep");
                let mut off = 0i64; let mut idx = vec![];
                let mut cur = bt; let mut first = true;
                while p.eat(",") {
                    if p.peek() == b'!' { break; }
                    let (it, o) = self.tv(p, l);
                    let w = self.bits(it);
                    let stride;
                    if first { stride = self.size(cur) as i64; first = false; }
                    else { match self.types[cur as usize].clone() { Ty::Struct(fs, _) => { if let Opnd::C(k) = o { off += self.field_off(cur, k as usize) as i64; cur = fs[k as usize]; continue; } panic!() } Ty::Arr(_, e) | Ty::Vec(_, e) => { cur = e; stride = self.size(e) as i64; } _ => panic!() } }
                    match o { Opnd::C(k) => off = off.wrapping_add((crate::expr::sx(k, w) as i64).wrapping_mul(stride)), o => idx.push((o, w, stride)) }
                }
                Ins::Gep(d(), base, off, idx)
            }
            "alloca" => {
                let t = self.ty(p);
                let mut cnt = Opnd::C(1); let mut al = self.align(t);
                while p.eat(",") { if p.peek() == b'!' { break; } if p.word("align") { al = p.int() as u64; } else if p.word("addrspace") { p.skip_parens(); } else { cnt = self.tv(p, l).1; } }
                Ins::Alloca(d(), self.size(t), al.max(1), cnt)
            }
            "select" => {
                while p.word("fast") || p.word("nnan") || p.word("ninf") || p.word("nsz") || p.word("unpredictable") {}
                let (ct, c) = self.tv(p, l); p.expect(","); let (t, a) = self.tv(p, l); p.expect(","); let (_, b) = self.tv(p, l);
                Ins::Select(d(), self.lanes(ct), t, c, a, b)
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let inv = op == "invoke";
                if op != "call" && !inv { p.expect("call"); }
                loop {
                    p.ws();
                    let s2 = p.i;
                    let w = p.ident();
                    match w {
                        "fastcc" | "coldcc" | "ccc" | "preserve_mostcc" | "noundef" | "zeroext" | "signext" | "noalias" | "nonnull" | "inreg" | "fast" | "nnan" | "ninf" | "nsz" | "contract" | "reassoc" | "arcp" | "afn" => {}
                        "align" => { p.int(); }
                        "range" | "dereferenceable" | "dereferenceable_or_null" | "nofpclass" => p.skip_parens(),
                        _ => { p.i = s2; break; }
                    }
                }
                let ret = self.ty(p);
                if p.peek() == b'(' { p.skip_parens(); }
                let callee = if p.word("asm") {
                    while p.word("sideeffect") || p.word("alignstack") || p.word("inteldialect") || p.word("unwind") {}
                    p.expect("\""); let st = p.i; while p.s[p.i] != b'"' { p.i += 1; } let s = String::from_utf8_lossy(&p.s[st..p.i]).into_owned(); p.i += 1;
                    p.expect(","); p.expect("\""); while p.s[p.i] != b'"' { p.i += 1; } p.i += 1;
                    Callee::Asm(s)
                } else if p.peek() == b'@' { p.i += 1; let n = p.name(); match self.fmap.get(&n) { Some(&f) => Callee::Direct(f), None => Callee::Ind(Opnd::C(self.sym_addr(&n) as u128)) } }
                else { let t = self.intern(Ty::Ptr); Callee::Ind(self.opnd(p, t, l)) };
                p.expect("(");
                let mut args = vec![]; let mut argty = vec![];
                if !p.eat(")") {
                    loop {
                        let t = self.ty(p);
                        if matches!(self.types[t as usize], Ty::Meta) { // skip metadata operand
                            let mut depth = 0; loop { match p.s[p.i] { b'(' => depth += 1, b')' => { if depth == 0 { break; } depth -= 1; } b',' if depth == 0 => break, b'"' => { p.i += 1; while p.s[p.i] != b'"' { p.i += 1; } } _ => {} } p.i += 1; }
                            args.push(Opnd::C(0)); argty.push(t);
                        } else { self.skip_param_attrs(p); let o = self.opnd(p, t, l); args.push(o); argty.push(t); }
                        if p.eat(",") { continue; }
                        p.expect(")"); break;
                    }
                }
                let normal = if inv { loop { if p.word("to") { break; } if p.eat("[") { while p.s[p.i] != b']' { p.i += 1; } p.i += 1; } else { p.ws(); p.i += 1; } } Some(self.label(p, l)) } else { None };
                Ins::Call(Box::new(CallI { dst, ret, callee, args, argty, normal }))
            }
            "ret" => { let t = self.ty(p); if matches!(self.types[t as usize], Ty::Void) { Ins::Ret(None) } else { Ins::Ret(Some(self.opnd(p, t, l))) } }
            "br" => {
                if p.peek() == b'l' { return Ins::Br(self.label(p, l)); }
                let (_, c) = self.tv(p, l); p.expect(","); let a = self.label(p, l); p.expect(","); let b = self.label(p, l);
                Ins::CBr(c, a, b)
            }
            "switch" => {
                let (t, v) = self.tv(p, l); p.expect(","); let def = self.label(p, l); p.expect("[");
                let mut cases = vec![];
                while !p.eat("]") { let ct = self.ty(p); let k = self.ki(p, ct); p.expect(","); let b = self.label(p, l); cases.push((k, b)); }
                Ins::Switch(v, self.bits(t), def, cases)
            }
            "unreachable" => Ins::Unreachable,
            "extractvalue" => { let (_, a) = self.tv(p, l); let mut ix = vec![]; while p.eat(",") { if p.peek() == b'!' { break; } ix.push(p.int() as u32); } Ins::ExtractV(d(), a, ix) }
            "insertvalue" => { let (t, a) = self.tv(p, l); p.expect(","); let (_, v) = self.tv(p, l); let mut ix = vec![]; while p.eat(",") { if p.peek() == b'!' { break; } ix.push(p.int() as u32); } Ins::InsertV(d(), t, a, v, ix) }
            "extractelement" => { let (_, a) = self.tv(p, l); p.expect(","); let (_, i) = self.tv(p, l); Ins::ExtractE(d(), a, i) }
            "insertelement" => { let (_, a) = self.tv(p, l); p.expect(","); let (_, v) = self.tv(p, l); p.expect(","); let (_, i) = self.tv(p, l); Ins::InsertE(d(), a, v, i) }
            "shufflevector" => {
                let (t, a) = self.tv(p, l); p.expect(","); let (_, b) = self.tv(p, l); p.expect(","); let mt = self.ty(p);
                let m = match self.konst(p, mt) { CV::A(v) => v.iter().map(|x| if let CV::I(k) = x { *k as u32 } else { 0 }).collect(), _ => panic!() };
                Ins::Shuffle(d(), a, b, m, self.lanes(t))
            }
            "freeze" => { let (_, a) = self.tv(p, l); Ins::Mov(d(), a) }
            "atomicrmw" => {
                p.word("volatile");
                let o = match p.ident() { "xchg" => Rmw::Xchg, "add" => Rmw::Add, "sub" => Rmw::Sub, "and" => Rmw::And, "or" => Rmw::Or, "xor" => Rmw::Xor, "nand" => Rmw::Nand, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, x => panic!("atomicrmw {x}") };
                let (_, a) = self.tv(p, l); p.expect(","); let (t, v) = self.tv(p, l);
                Ins::Rmw(o, self.bits(t), d(), a, v)
            }
            "cmpxchg" => { p.word("weak"); p.word("volatile"); let (_, a) = self.tv(p, l); p.expect(","); let (t, c) = self.tv(p, l); p.expect(","); let (_, n) = self.tv(p, l); Ins::CmpXchg(self.bits(t), d(), a, c, n) }
            "fence" => Ins::Fence,
            "landingpad" => Ins::LandingPad(d()),
            "resume" => Ins::Resume,
            x => { let _ = save; panic!("IR: instruction {x:?}: {:?}", String::from_utf8_lossy(&p.s[..p.s.len().min(200)])) }
        }
    }

    // ---------------------------------------------------------------- debug info
    fn meta_line(&self, k: u32) -> Option<&str> { let &(s, e) = self.meta.get(&k)?; std::str::from_utf8(&self.text[s..e]).ok() }
    fn field<'a>(s: &'a str, key: &str) -> Option<&'a str> {
        let pat = format!("{key}: ");
        let mut from = 0;
        loop {
            let i = s[from..].find(&pat)? + from;
            let prev = s.as_bytes()[i - 1];
            if prev == b'(' || prev == b' ' { let r = &s[i + pat.len()..]; return Some(if let Some(q) = r.strip_prefix('"') { &q[..q.find('"')?] } else { &r[..r.find(|c| c == ',' || c == ')')?] }); }
            from = i + 1;
        }
    }
    fn mref(s: &str) -> Option<u32> { s.strip_prefix('!')?.parse().ok() }
    /// (file, line, function name) of a location
    pub fn loc(&self, k: u32) -> Option<(String, u32, String)> {
        let s = self.meta_line(k)?;
        let line = Self::field(s, "line")?.parse().ok()?;
        let scope = Self::mref(Self::field(s, "scope")?)?;
        let (f, n) = self.scope(scope)?;
        Some((f, line, n))
    }
    pub fn inlined_at(&self, k: u32) -> Option<u32> { Self::mref(Self::field(self.meta_line(k)?, "inlinedAt")?) }
    pub fn scope(&self, mut k: u32) -> Option<(String, String)> {
        for _ in 0..64 {
            let s = self.meta_line(k)?;
            if s.contains("DISubprogram(") {
                let name = Self::field(s, "name")?.to_string();
                let f = Self::mref(Self::field(s, "file")?)?;
                let fl = Self::field(self.meta_line(f)?, "filename")?;
                let fl = fl.split("/@/").next().unwrap().to_string();
                // qualify by the enclosing namespaces
                let mut q = vec![name];
                let mut sc = Self::field(s, "scope").and_then(Self::mref);
                while let Some(x) = sc {
                    let t = self.meta_line(x)?;
                    if let Some(nm) = Self::field(t, "name") { if t.contains("DINamespace") || t.contains("DICompositeType") { q.push(nm.to_string()); } }
                    sc = if t.contains("DINamespace") || t.contains("DICompositeType") { Self::field(t, "scope").and_then(Self::mref) } else { None };
                }
                q.reverse();
                return Some((fl, q.join("::")));
            }
            k = Self::mref(Self::field(s, "scope")?)?;
        }
        None
    }
}
