//! The subset of Rust that generated models consist of.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use std::rc::Rc;

#[derive(Clone, Debug, Default)]
pub struct Ty { pub n: String, pub a: Vec<Ty> }
#[derive(Clone, Debug)]
pub enum Pat { Id(String), List(Vec<Pat>), Any }
pub type B = Rc<Ex>;
#[derive(Clone, Debug)]
pub enum Ex {
    Int(i64, String), Float(f64, String), Bool(bool), Str(String),
    Path(Vec<String>, Vec<Ty>, Vec<Ty>), Call(B, Vec<Ex>), Method(B, String, Vec<Ty>, Vec<Ex>), Field(B, String), Index(B, B),
    Un(char, B), Ref(B), Bin(String, B, B), Cast(B, Ty), Range(Option<B>, Option<B>, bool), Arr(Vec<Ex>), Rep(B, B), Tup(Vec<Ex>),
    Block(Rc<Vec<St>>), If(B, B, Option<B>), For(Pat, B, B), While(B, B), Loop(B), Fun(Vec<Pat>, B), Set(String, B, B), New(Vec<String>, Vec<(String, Ex)>), Try(B), Break, Continue,
}
#[derive(Clone, Debug)]
pub enum St { Let(Pat, Option<Ty>, Option<Ex>), Do(Ex), Value(Ex) }
#[derive(Debug)]
pub struct Fun { pub name: String, pub params: Vec<(String, Ty)>, pub ret: Option<Ty>, pub body: Rc<Vec<St>> }
#[derive(Debug, Default)]
pub struct Program { pub uses: Vec<String>, pub fields: Vec<(String, Ty)>, pub funs: Vec<Fun> }

#[derive(Debug)]
pub struct Bad(pub String);
pub type R<T> = Result<T, Bad>;
fn bad<T>(m: &str) -> R<T> { Err(Bad(m.to_string())) }

pub struct P { t: Vec<TokenTree>, i: usize }
impl P {
    pub fn new(s: TokenStream) -> P { P { t: s.into_iter().collect(), i: 0 } }
    fn end(&self) -> bool { self.i >= self.t.len() }
    fn punct_at(&self, k: usize) -> Option<char> { if let Some(TokenTree::Punct(p)) = self.t.get(self.i + k) { Some(p.as_char()) } else { None } }
    fn is(&self, s: &str) -> bool { s.chars().enumerate().all(|(k, c)| self.punct_at(k) == Some(c)) }
    fn eat(&mut self, s: &str) -> bool { if self.is(s) { self.i += s.len(); true } else { false } }
    fn need(&mut self, s: &str) -> R<()> { if self.eat(s) { Ok(()) } else { bad(&format!("expected {s}, found {}", self.t.get(self.i).map(|t| t.to_string()).unwrap_or_default())) } }
    fn id_at(&self, k: usize) -> Option<String> { if let Some(TokenTree::Ident(i)) = self.t.get(self.i + k) { Some(i.to_string()) } else { None } }
    fn kw(&mut self, s: &str) -> bool { if self.id_at(0).as_deref() == Some(s) { self.i += 1; true } else { false } }
    fn ident(&mut self) -> R<String> { match self.id_at(0) { Some(s) => { self.i += 1; Ok(s) } None => bad(&format!("expected an identifier, found {}", self.t.get(self.i).map(|t| t.to_string()).unwrap_or("the end".into()))) } }
    fn group_at(&self, k: usize, d: Delimiter) -> Option<TokenStream> { if let Some(TokenTree::Group(g)) = self.t.get(self.i + k) && g.delimiter() == d { Some(g.stream()) } else { None } }
    fn group(&mut self, d: Delimiter) -> Option<P> { let g = self.group_at(0, d)?; self.i += 1; Some(P::new(g)) }
    fn need_group(&mut self, d: Delimiter) -> R<P> { match self.group(d) { Some(p) => Ok(p), None => bad("expected a bracket") } }
    fn attrs(&mut self) { while self.is("#") { self.i += 1; if self.is("!") { self.i += 1; } self.i += 1; } }
    fn list<T>(&mut self, mut f: impl FnMut(&mut P) -> R<T>) -> R<Vec<T>> { let mut o = vec![]; while !self.end() { o.push(f(self)?); if !self.eat(",") { break; } } if !self.end() { return bad(&format!("unexpected {}", self.t[self.i])); } Ok(o) }
    pub fn ty(&mut self) -> R<Ty> {
        if self.eat("&") { if self.eat("'") { self.i += 1; } self.kw("mut"); let t = self.ty()?; return Ok(Ty { n: "&".into(), a: vec![t] }); }
        if let Some(mut g) = self.group(Delimiter::Parenthesis) { let a = g.list(|p| p.ty())?; return Ok(Ty { n: "(".into(), a }); }
        if let Some(mut g) = self.group(Delimiter::Bracket) { let e = g.ty()?; let mut a = vec![e]; if g.eat(";") { a.push(g.ty()?); } return Ok(Ty { n: "[".into(), a }); }
        if let Some(TokenTree::Literal(l)) = self.t.get(self.i) { let s = l.to_string(); self.i += 1; let s = s.trim_end_matches("usize"); return Ok(Ty { n: match s.parse::<i64>() { Ok(v) => symrt::conc(symrt::unplace(v)).to_string(), _ => s.to_string() }, a: vec![] }); }
        if self.eat("-") { let t = self.ty()?; return Ok(Ty { n: format!("-{}", t.n), a: vec![] }); }
        let mut n = self.ident()?;
        loop {
            if self.is("::") && self.punct_at(2) != Some('<') { self.i += 2; n = self.ident()?; continue; }
            self.eat("::");
            if self.eat("<") { let a = self.tys()?; if self.is("::") { self.i += 2; n = self.ident()?; continue; } return Ok(Ty { n, a }); }
            return Ok(Ty { n, a: vec![] });
        }
    }
    /// after `<`, up to and including `>`
    fn tys(&mut self) -> R<Vec<Ty>> { let mut a = vec![]; while !self.eat(">") { a.push(self.ty()?); if !self.eat(",") { self.need(">")?; break; } } Ok(a) }
    fn pat(&mut self) -> R<Pat> {
        self.eat("&"); self.kw("mut");
        if let Some(mut g) = self.group(Delimiter::Parenthesis) { return Ok(Pat::List(g.list(|p| p.pat())?)); }
        if let Some(mut g) = self.group(Delimiter::Bracket) { return Ok(Pat::List(g.list(|p| p.pat())?)); }
        let n = self.ident()?; Ok(if n == "_" { Pat::Any } else { Pat::Id(n) })
    }
    pub fn block(mut self) -> R<Rc<Vec<St>>> {
        let mut o = vec![];
        while !self.end() {
            self.attrs();
            if self.eat(";") { continue; }
            if self.kw("let") {
                let p = self.pat()?; let t = if self.eat(":") { Some(self.ty()?) } else { None };
                let e = if self.eat("=") { Some(self.expr(true)?) } else { None };
                self.need(";")?; o.push(St::Let(p, t, e)); continue;
            }
            if matches!(self.id_at(0).as_deref(), Some("_blank_" | "_comment_")) && self.punct_at(1) == Some('!') { self.i += 3; continue; }
            let e = self.expr(true)?;
            if self.eat(";") { o.push(St::Do(e)); } else if self.end() { o.push(St::Value(e)); } else if matches!(e, Ex::Block(_) | Ex::If(..) | Ex::For(..) | Ex::While(..) | Ex::Loop(_)) { o.push(St::Do(e)); } else { return bad(&format!("expected ; before {}", self.t[self.i])); }
        }
        Ok(Rc::new(o))
    }
    fn body(&mut self) -> R<Ex> { Ok(Ex::Block(self.need_group(Delimiter::Brace)?.block()?)) }
    /// `st`: struct literals allowed
    fn expr(&mut self, st: bool) -> R<Ex> {
        let l = self.range(st)?;
        for op in ["=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^="] {
            if self.is(op) && !(op == "=" && (self.is("==") || self.is("=>"))) { self.i += op.len(); let r = self.expr(st)?; return Ok(Ex::Set(op[..op.len() - 1].into(), Rc::new(l), Rc::new(r))); }
        }
        Ok(l)
    }
    fn stops(&self) -> bool { self.end() || matches!(self.punct_at(0), Some(',' | ';' | '=')) || self.group_at(0, Delimiter::Brace).is_some() }
    fn range(&mut self, st: bool) -> R<Ex> {
        if self.is("..") { self.i += 2; let inc = self.eat("="); if self.stops() { return Ok(Ex::Range(None, None, inc)); } let r = self.bin(0, st)?; return Ok(Ex::Range(None, Some(Rc::new(r)), inc)); }
        let l = self.bin(0, st)?;
        if self.is("..") { self.i += 2; let inc = self.eat("="); if self.stops() { return Ok(Ex::Range(Some(Rc::new(l)), None, inc)); } let r = self.bin(0, st)?; return Ok(Ex::Range(Some(Rc::new(l)), Some(Rc::new(r)), inc)); }
        Ok(l)
    }
    fn bin(&mut self, lvl: usize, st: bool) -> R<Ex> {
        const L: [&[&str]; 9] = [&["||"], &["&&"], &["==", "!=", "<=", ">=", "<", ">"], &["|"], &["^"], &["&"], &["<<", ">>"], &["+", "-"], &["*", "/", "%"]];
        if lvl == L.len() { return self.cast(st); }
        let mut l = self.bin(lvl + 1, st)?;
        'o: loop {
            for op in L[lvl] {
                if !self.is(op) { continue; }
                // not a longer operator
                let nx = self.punct_at(op.len());
                let joint = |p: &P, k: usize| matches!(p.t.get(p.i + k), Some(TokenTree::Punct(q)) if q.spacing() == proc_macro2::Spacing::Joint);
                if op.len() == 1 && joint(self, 0) && (nx == Some('=') || (nx == op.chars().next() && !matches!(*op, "*" | "-"))) { continue; }
                if op.len() == 2 && (*op == "<<" || *op == ">>") && !joint(self, 0) { continue; }
                self.i += op.len(); let r = self.bin(lvl + 1, st)?; l = Ex::Bin(op.to_string(), Rc::new(l), Rc::new(r)); if lvl == 2 { return Ok(l); } continue 'o;
            }
            return Ok(l);
        }
    }
    fn cast(&mut self, st: bool) -> R<Ex> { let mut e = self.unary(st)?; while self.kw("as") { let t = self.ty()?; e = Ex::Cast(Rc::new(e), t); } Ok(e) }
    fn unary(&mut self, st: bool) -> R<Ex> {
        if self.eat("&") { self.kw("mut"); return Ok(Ex::Ref(Rc::new(self.unary(st)?))); }
        for c in ['-', '!', '*'] { if self.punct_at(0) == Some(c) { self.i += 1; return Ok(Ex::Un(c, Rc::new(self.unary(st)?))); } }
        if self.is("|") || self.is("||") || self.id_at(0).as_deref() == Some("move") {
            self.kw("move"); let mut a = vec![];
            if !self.eat("||") { self.need("|")?; while !self.eat("|") { a.push(self.pat()?); if self.eat(":") { self.ty()?; } self.eat(","); } }
            if self.eat("->") { self.ty()?; }
            return Ok(Ex::Fun(a, Rc::new(self.expr(st)?)));
        }
        self.post(st)
    }
    fn args(&mut self) -> R<Option<Vec<Ex>>> { match self.group(Delimiter::Parenthesis) { Some(mut g) => Ok(Some(g.list(|p| p.expr(true))?)), None => Ok(None) } }
    fn post(&mut self, st: bool) -> R<Ex> {
        let mut e = self.prim(st)?;
        loop {
            if self.is(".") && !self.is("..") {
                self.i += 1;
                if let Some(TokenTree::Literal(l)) = self.t.get(self.i) { for f in l.to_string().split('.') { e = Ex::Field(Rc::new(e), f.to_string()); } self.i += 1; continue; }
                let n = self.ident()?; let g = if self.is("::") { self.i += 2; self.need("<")?; self.tys()? } else { vec![] };
                match self.args()? { Some(a) => e = Ex::Method(Rc::new(e), n, g, a), None => e = Ex::Field(Rc::new(e), n) }
            } else if let Some(a) = self.args()? { e = Ex::Call(Rc::new(e), a); }
            else if let Some(mut g) = self.group(Delimiter::Bracket) { let i = g.expr(true)?; e = Ex::Index(Rc::new(e), Rc::new(i)); }
            else if self.eat("?") { e = Ex::Try(Rc::new(e)); }
            else { return Ok(e); }
        }
    }
    fn macro_args(&mut self, mut g: P) -> R<Vec<Ex>> {
        let mut o = vec![];
        while !g.end() { let e = g.expr(true)?; if g.eat(";") { let n = g.expr(true)?; o.push(Ex::Range(Some(Rc::new(e)), Some(Rc::new(n)), false)); o.push(Ex::Str(";".into())); } else { o.push(e); } if !g.eat(",") { break; } }
        if g.end() { Ok(o) } else { bad("macro arguments") }
    }
    fn prim(&mut self, st: bool) -> R<Ex> {
        if let Some(TokenTree::Literal(l)) = self.t.get(self.i) { let s = l.to_string(); self.i += 1; return literal(&s); }
        if let Some(mut g) = self.group(Delimiter::Parenthesis) { let n = g.t.len(); let comma = n > 0 && matches!(&g.t[n - 1], TokenTree::Punct(p) if p.as_char() == ','); let mut l = g.list(|p| p.expr(true))?; return Ok(if l.len() == 1 && !comma { l.pop().unwrap() } else { Ex::Tup(l) }); }
        if let Some(mut g) = self.group(Delimiter::Bracket) {
            if g.end() { return Ok(Ex::Arr(vec![])); }
            let a = g.expr(true)?; if g.eat(";") { let n = g.expr(true)?; return Ok(Ex::Rep(Rc::new(a), Rc::new(n))); }
            let mut l = vec![a]; if g.eat(",") { l.extend(g.list(|p| p.expr(true))?); } if !g.end() { return bad(&format!("unexpected {} in a list", g.t[g.i])); } return Ok(Ex::Arr(l));
        }
        if let Some(g) = self.group(Delimiter::Brace) { return Ok(Ex::Block(g.block()?)); }
        if let Some(TokenTree::Group(g)) = self.t.get(self.i) && g.delimiter() == Delimiter::None { let mut p = P::new(g.stream()); self.i += 1; return p.expr(true); }
        if self.kw("true") { return Ok(Ex::Bool(true)); }
        if self.kw("false") { return Ok(Ex::Bool(false)); }
        if self.kw("break") { return Ok(Ex::Break); }
        if self.kw("continue") { return Ok(Ex::Continue); }
        if self.kw("if") {
            let c = self.expr(false)?; let t = self.body()?;
            let e = if self.kw("else") { Some(Rc::new(if self.id_at(0).as_deref() == Some("if") { self.prim(st)? } else { self.body()? })) } else { None };
            return Ok(Ex::If(Rc::new(c), Rc::new(t), e));
        }
        if self.kw("for") { let p = self.pat()?; if !self.kw("in") { return bad("for without in"); } let e = self.expr(false)?; return Ok(Ex::For(p, Rc::new(e), Rc::new(self.body()?))); }
        if self.kw("while") { let c = self.expr(false)?; return Ok(Ex::While(Rc::new(c), Rc::new(self.body()?))); }
        if self.kw("loop") { return Ok(Ex::Loop(Rc::new(self.body()?))); }
        // path; generics of the last but one and of the last segment
        if self.eat("<") { let t = self.ty()?; if self.kw("as") { self.ty()?; } self.need(">")?; self.need("::")?; let n = self.ident()?; return Ok(Ex::Path(vec![t.n.clone(), n], t.a, vec![])); }
        let mut p = vec![self.ident()?]; let (mut g1, mut g2) = (vec![], vec![]);
        while self.is("::") {
            self.i += 2;
            if self.eat("<") { g2 = self.tys()?; } else { p.push(self.ident()?); g1 = std::mem::take(&mut g2); }
        }
        if self.is("!") && !self.is("!=") && matches!(self.t.get(self.i + 1), Some(TokenTree::Group(_))) {
            self.i += 1; let Some(TokenTree::Group(g)) = self.t.get(self.i) else { return bad("macro") }; let g = P::new(g.stream()); self.i += 1;
            let a = self.macro_args(g)?; return Ok(Ex::Call(Rc::new(Ex::Path(vec![format!("{}!", p.last().unwrap())], vec![], vec![])), a));
        }
        if st && p.last().is_some_and(|n| n.starts_with(|c: char| c.is_ascii_uppercase())) && let Some(mut g) = self.group(Delimiter::Brace) {
            let f = g.list(|q| { let n = q.ident()?; let e = if q.eat(":") { q.expr(true)? } else { Ex::Path(vec![n.clone()], vec![], vec![]) }; Ok((n, e)) })?;
            return Ok(Ex::New(p, f));
        }
        Ok(Ex::Path(p, g1, g2))
    }
    fn fun(&mut self) -> R<Fun> {
        let name = self.ident()?; let mut g = self.need_group(Delimiter::Parenthesis)?; let mut params = vec![];
        if g.eat("&") { g.kw("mut"); if !g.kw("self") { return bad("receiver"); } g.eat(","); }
        while !g.end() { g.kw("mut"); let n = g.ident()?; g.need(":")?; params.push((n, g.ty()?)); if !g.eat(",") { break; } }
        let ret = if self.eat("->") { Some(self.ty()?) } else { None };
        Ok(Fun { name, params, ret, body: self.need_group(Delimiter::Brace)?.block()? })
    }
    /// a generated file
    pub fn program(mut self) -> R<Program> {
        let mut o = Program::default();
        while !self.end() {
            self.attrs();
            if self.kw("pub") { continue; }
            if self.kw("use") { let mut s = String::new(); while !self.eat(";") { if self.end() { return bad("use"); } s += &self.t[self.i].to_string(); self.i += 1; } o.uses.push(s); continue; }
            if self.kw("struct") {
                let n = self.ident()?; if self.eat("<") { let mut d = 1; while d > 0 { if self.end() { return bad("generics"); } if self.is("<") { d += 1; } if self.is(">") { d -= 1; } self.i += 1; } }
                if let Some(mut g) = self.group(Delimiter::Brace) { if n == "Model" { while !g.end() { g.attrs(); g.kw("pub"); let f = g.ident()?; g.need(":")?; o.fields.push((f, g.ty()?)); if !g.eat(",") { break; } } } } else { while !self.eat(";") { self.i += 1; if self.end() { return bad("struct"); } } }
                continue;
            }
            if self.kw("static") { while !self.eat(";") { self.i += 1; if self.end() { return bad("static"); } } continue; }
            if self.kw("impl") {
                while self.group_at(0, Delimiter::Brace).is_none() { self.i += 1; if self.end() { return bad("impl"); } }
                let mut g = self.need_group(Delimiter::Brace)?;
                while !g.end() { g.attrs(); if g.kw("pub") || g.eat(";") { continue; } if matches!(g.id_at(0).as_deref(), Some("_blank_")) { g.i += 3; continue; } if !g.kw("fn") { return bad(&format!("unexpected {}", g.t[g.i])); } o.funs.push(g.fun()?); }
                continue;
            }
            if matches!(self.id_at(0).as_deref(), Some("_blank_" | "_comment_")) { self.i += 3; self.eat(";"); continue; }
            if self.eat(";") { continue; }
            return bad(&format!("unexpected {}", self.t[self.i]));
        }
        Ok(o)
    }
}
fn literal(s: &str) -> R<Ex> {
    if s.starts_with('"') { return Ok(Ex::Str(s.trim_matches('"').to_string())); }
    for t in ["i64", "i32", "i16", "i8", "u64", "u32", "u16", "u8", "usize", "isize"] { if let Some(v) = s.strip_suffix(t) && !v.starts_with("0x") { return match v.replace('_', "").parse::<i128>() { Ok(v) => Ok(Ex::Int(symrt::unplace(v as i64), t.into())), Err(_) => bad("integer literal") }; } }
    for t in ["f32", "f64"] { if let Some(v) = s.strip_suffix(t) { return match v.replace("_", "").parse::<f64>() { Ok(x) => Ok(Ex::Float(if t == "f32" { v.replace("_", "").parse::<f32>().map_or(x, |y| y as f64) } else { x }, t.into())), Err(_) => bad("float literal") }; } }
    if let Ok(v) = s.parse::<i128>() { return Ok(Ex::Int(symrt::unplace(v as i64), "int".into())); }
    match s.parse::<f64>() { Ok(v) => Ok(Ex::Float(v, "float".into())), Err(_) => bad(&format!("literal {s}")) }
}
