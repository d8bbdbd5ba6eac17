//! Lexer and parser for the circom 2 language (no buses, no custom templates).
use crate::field::F;
use num_bigint_dig::BigUint;
use std::collections::HashMap;
use std::rc::Rc;

pub type Name = u32;
#[derive(Default)]
pub struct Interner {
    pub names: Vec<String>,
    map: HashMap<String, Name>,
}
impl Interner {
    pub fn get(&mut self, s: &str) -> Name {
        if let Some(n) = self.map.get(s) {
            return *n;
        }
        let n = self.names.len() as Name;
        self.names.push(s.into());
        self.map.insert(s.into(), n);
        n
    }
    pub fn find(&self, s: &str) -> Option<Name> {
        self.map.get(s).copied()
    }
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Op {
    Add, Sub, Mul, Div, IDiv, Mod, Pow, Shl, Shr, And, Or, Xor, LAnd, LOr, Eq, Ne, Lt, Gt, Le, Ge,
}
#[derive(Debug)]
pub enum Acc {
    Idx(Expr),
    Field(Name),
}
#[derive(Debug)]
pub enum Expr {
    Num(F),
    Var(Name, Vec<Acc>),
    Bin(Op, Box<Expr>, Box<Expr>),
    Neg(Box<Expr>),
    Not(Box<Expr>),
    Compl(Box<Expr>),
    Tern(Box<Expr>, Box<Expr>, Box<Expr>),
    Call(Name, Vec<Expr>),
    /// T(params)(inputs), the inputs possibly named
    Anon(Name, Vec<Expr>, Vec<(Option<Name>, Expr)>),
    Arr(Vec<Expr>),
    Tuple(Vec<Expr>),
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Kind {
    In,
    Out,
    Mid,
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Asg {
    Var,
    Hint,
    Con,
}
pub struct Lhs {
    pub name: Name,
    pub acc: Vec<Acc>,
}
pub enum Stmt {
    VarDecl(Name, Vec<Expr>, Option<Expr>),
    SigDecl(Kind, Name, Vec<Expr>),
    CompDecl(Name, Vec<Expr>),
    Assign(Lhs, Asg, Expr, u32),
    OpAssign(Lhs, Op, Expr, u32),
    /// (a, _, b) <== e
    Multi(Vec<Option<Lhs>>, Asg, Expr, u32),
    Eqc(Expr, Expr, u32),
    If(Expr, Box<Stmt>, Option<Box<Stmt>>),
    While(Expr, Box<Stmt>),
    Return(Expr),
    Assert(Expr, u32),
    Expr(Expr),
    Block(Vec<Stmt>, bool),
    Nop,
}
pub struct Def {
    pub name: Name,
    pub params: Vec<Name>,
    pub body: Rc<Vec<Stmt>>,
    pub template: bool,
}
pub struct MainDecl {
    pub publics: Vec<Name>,
    pub call: Expr,
}
#[derive(Debug, Clone, PartialEq)]
enum T {
    Id(String),
    Num(F),
    Str(String),
    P(&'static str),
    Eof,
}
const PUNCT: &[&str] = &[
    "<==", "==>", "<--", "-->", "===", "**=", "<<=", ">>=", "**", "<<", ">>", "<=", ">=", "==", "!=", "&&", "||", "++", "--", "+=", "-=",
    "*=", "/=", "\\=", "%=", "&=", "|=", "^=", "+", "-", "*", "/", "\\", "%", "&", "|", "^", "~", "!", "<", ">", "=", "?", ":", "(", ")",
    "[", "]", "{", "}", ",", ";", ".", "_",
];
pub struct Parser<'a> {
    t: Vec<(T, u32)>,
    i: usize,
    pub names: &'a mut Interner,
    pub includes: Vec<String>,
    pub defs: Vec<Def>,
    pub main: Option<MainDecl>,
    tmp: usize,
}
type R<X> = Result<X, String>;
fn lex(s: &str) -> R<Vec<(T, u32)>> {
    let b = s.as_bytes();
    let (mut i, mut line) = (0, 1u32);
    let mut out = vec![];
    'o: while i < b.len() {
        let c = b[i];
        if c == b'\n' {
            line += 1;
        }
        if c.is_ascii_whitespace() {
            i += 1;
            continue;
        }
        if s[i..].starts_with("//") {
            while i < b.len() && b[i] != b'\n' {
                i += 1;
            }
            continue;
        }
        if s[i..].starts_with("/*") {
            let e = s[i + 2..].find("*/").ok_or("open comment")?;
            line += s[i..i + 2 + e].matches('\n').count() as u32;
            i += e + 4;
            continue;
        }
        if c == b'"' {
            let e = s[i + 1..].find('"').ok_or("open string")?;
            out.push((T::Str(s[i + 1..i + 1 + e].into()), line));
            i += e + 2;
            continue;
        }
        if c.is_ascii_digit() {
            let st = i;
            let hex = s[i..].starts_with("0x");
            if hex {
                i += 2;
            }
            while i < b.len() && (b[i].is_ascii_alphanumeric()) {
                i += 1;
            }
            let v = if hex { BigUint::parse_bytes(&b[st + 2..i], 16) } else { BigUint::parse_bytes(&b[st..i], 10) };
            out.push((T::Num(F::from_big(&v.ok_or(format!("line {line}: bad number"))?)), line));
            continue;
        }
        if c.is_ascii_alphabetic() || c == b'$' || (c == b'_' && i + 1 < b.len() && (b[i + 1].is_ascii_alphanumeric() || b[i + 1] == b'_')) {
            let st = i;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_' || b[i] == b'$') {
                i += 1;
            }
            out.push((T::Id(s[st..i].into()), line));
            continue;
        }
        for p in PUNCT {
            if s[i..].starts_with(p) {
                out.push((T::P(p), line));
                i += p.len();
                continue 'o;
            }
        }
        return Err(format!("line {line}: unexpected character {:?}", c as char));
    }
    out.push((T::Eof, line));
    Ok(out)
}
impl<'a> Parser<'a> {
    pub fn new(src: &str, names: &'a mut Interner) -> R<Parser<'a>> {
        Ok(Parser { t: lex(src)?, i: 0, names, includes: vec![], defs: vec![], main: None, tmp: 0 })
    }
    fn peek(&self) -> &T {
        &self.t[self.i].0
    }
    fn line(&self) -> u32 {
        self.t[self.i].1
    }
    fn next(&mut self) -> T {
        let t = self.t[self.i].0.clone();
        if self.i + 1 < self.t.len() {
            self.i += 1;
        }
        t
    }
    fn is(&self, p: &str) -> bool {
        matches!(self.peek(), T::P(q) if *q == p)
    }
    fn eat(&mut self, p: &str) -> bool {
        let y = self.is(p);
        if y {
            self.i += 1;
        }
        y
    }
    fn want(&mut self, p: &str) -> R<()> {
        if self.eat(p) {
            return Ok(());
        }
        Err(format!("line {}: expected {p} at {:?}", self.line(), self.peek()))
    }
    fn kw(&mut self, k: &str) -> bool {
        let y = matches!(self.peek(), T::Id(s) if s == k);
        if y {
            self.i += 1;
        }
        y
    }
    fn ident(&mut self) -> R<Name> {
        let l = self.line();
        match self.next() {
            T::Id(s) => Ok(self.names.get(&s)),
            t => Err(format!("line {l}: expected a name at {t:?}")),
        }
    }
    pub fn file(&mut self) -> R<()> {
        while *self.peek() != T::Eof {
            if self.kw("pragma") {
                while !self.eat(";") {
                    if *self.peek() == T::Eof {
                        return Err("open pragma".into());
                    }
                    self.next();
                }
            } else if self.kw("include") {
                match self.next() {
                    T::Str(s) => self.includes.push(s),
                    t => return Err(format!("bad include {t:?}")),
                }
                self.want(";")?;
            } else if self.kw("template") || matches!(self.peek(), T::Id(s) if s == "function") {
                let template = !self.kw("function");
                while self.kw("custom") || self.kw("parallel") {}
                let name = self.ident()?;
                self.want("(")?;
                let mut params = vec![];
                while !self.eat(")") {
                    params.push(self.ident()?);
                    self.eat(",");
                }
                let body = self.block()?;
                self.defs.push(Def { name, params, body: Rc::new(body), template });
            } else if self.kw("component") {
                if !self.kw("main") {
                    return Err(format!("line {}: only main may be declared here", self.line()));
                }
                let mut publics = vec![];
                if self.eat("{") {
                    if !self.kw("public") {
                        return Err("main: expected public".into());
                    }
                    self.want("[")?;
                    while !self.eat("]") {
                        publics.push(self.ident()?);
                        self.eat(",");
                    }
                    self.want("}")?;
                }
                self.want("=")?;
                let call = self.expr()?;
                self.want(";")?;
                self.main = Some(MainDecl { publics, call });
            } else {
                return Err(format!("line {}: unexpected {:?}", self.line(), self.peek()));
            }
        }
        Ok(())
    }
    fn block(&mut self) -> R<Vec<Stmt>> {
        self.want("{")?;
        let mut v = vec![];
        while !self.eat("}") {
            if *self.peek() == T::Eof {
                return Err("open block".into());
            }
            self.stmt(&mut v)?;
        }
        Ok(v)
    }
    fn one(&mut self) -> R<Box<Stmt>> {
        if self.is("{") {
            return Ok(Box::new(Stmt::Block(self.block()?, true)));
        }
        let mut v = vec![];
        self.stmt(&mut v)?;
        Ok(Box::new(Stmt::Block(v, true)))
    }
    fn dims(&mut self) -> R<Vec<Expr>> {
        let mut d = vec![];
        while self.eat("[") {
            d.push(self.expr()?);
            self.want("]")?;
        }
        Ok(d)
    }
    fn stmt(&mut self, out: &mut Vec<Stmt>) -> R<()> {
        if self.is("{") {
            let b = self.block()?;
            out.push(Stmt::Block(b, true));
            return Ok(());
        }
        if self.eat(";") {
            return Ok(());
        }
        if self.kw("if") {
            self.want("(")?;
            let c = self.expr()?;
            self.want(")")?;
            let a = self.one()?;
            let b = if self.kw("else") { Some(self.one()?) } else { None };
            out.push(Stmt::If(c, a, b));
            return Ok(());
        }
        if self.kw("for") {
            self.want("(")?;
            let mut init = vec![];
            if !self.eat(";") {
                self.simple(&mut init)?;
                self.want(";")?;
            }
            let c = self.expr()?;
            self.want(";")?;
            let mut step = vec![];
            self.simple(&mut step)?;
            self.want(")")?;
            let b = self.one()?;
            let mut body = vec![*b];
            body.extend(step);
            init.push(Stmt::While(c, Box::new(Stmt::Block(body, true))));
            out.push(Stmt::Block(init, true));
            return Ok(());
        }
        if self.kw("while") {
            self.want("(")?;
            let c = self.expr()?;
            self.want(")")?;
            let b = self.one()?;
            out.push(Stmt::While(c, b));
            return Ok(());
        }
        self.simple(out)?;
        self.want(";")
    }
    fn simple(&mut self, out: &mut Vec<Stmt>) -> R<()> {
        let line = self.line();
        if self.kw("return") {
            let e = self.expr()?;
            out.push(Stmt::Return(e));
            return Ok(());
        }
        if self.kw("assert") {
            self.want("(")?;
            let e = self.expr()?;
            self.want(")")?;
            out.push(Stmt::Assert(e, line));
            return Ok(());
        }
        if self.kw("log") {
            self.want("(")?;
            let mut d = 1;
            while d > 0 {
                match self.next() {
                    T::P("(") => d += 1,
                    T::P(")") => d -= 1,
                    T::Eof => return Err("open log".into()),
                    _ => {}
                }
            }
            return Ok(());
        }
        let decl = if self.kw("var") {
            Some(0)
        } else if self.kw("signal") {
            let mut k = 3;
            if self.kw("input") {
                k = 1;
            } else if self.kw("output") {
                k = 2;
            }
            if self.eat("{") {
                while !self.eat("}") {
                    self.next();
                }
            }
            Some(k)
        } else if self.kw("component") {
            Some(4)
        } else {
            None
        };
        if let Some(k) = decl {
            if self.eat("(") {
                // var (a, b) = e
                let mut ns = vec![];
                while !self.eat(")") {
                    let n = self.ident()?;
                    let d = self.dims()?;
                    ns.push(n);
                    out.push(Self::declare(k, n, d));
                    self.eat(",");
                }
                if let Some(a) = self.asg() {
                    let e = self.expr()?;
                    out.push(Stmt::Multi(ns.into_iter().map(|n| Some(Lhs { name: n, acc: vec![] })).collect(), a, e, line));
                }
                return Ok(());
            }
            loop {
                let n = self.ident()?;
                let d = self.dims()?;
                if k == 0 {
                    let e = if self.eat("=") { Some(self.expr()?) } else { None };
                    out.push(Stmt::VarDecl(n, d, e));
                } else {
                    out.push(Self::declare(k, n, d));
                    if let Some(a) = self.asg() {
                        let e = self.expr()?;
                        out.push(Stmt::Assign(Lhs { name: n, acc: vec![] }, a, e, line));
                    }
                }
                if !self.eat(",") {
                    return Ok(());
                }
            }
        }
        // (a, _, b) <== e
        if self.is("(") {
            let save = self.i;
            self.i += 1;
            let mut v = vec![];
            let mut ok = true;
            loop {
                if self.eat("_") {
                    v.push(None);
                } else if matches!(self.peek(), T::Id(_)) {
                    match self.lhs() {
                        Ok(l) => v.push(Some(l)),
                        Err(_) => {
                            ok = false;
                            break;
                        }
                    }
                } else {
                    ok = false;
                    break;
                }
                if self.eat(",") {
                    continue;
                }
                if !self.eat(")") {
                    ok = false;
                }
                break;
            }
            if ok && v.len() > 1 {
                if let Some(a) = self.asg() {
                    let e = self.expr()?;
                    out.push(Stmt::Multi(v, a, e, line));
                    return Ok(());
                }
            }
            self.i = save;
        }
        if self.eat("_") {
            let a = self.asg().ok_or(format!("line {line}: expected an assignment"))?;
            let e = self.expr()?;
            out.push(Stmt::Multi(vec![None], a, e, line));
            return Ok(());
        }
        let e = self.expr()?;
        if self.eat("===") {
            let f = self.expr()?;
            out.push(Stmt::Eqc(e, f, line));
            return Ok(());
        }
        if self.is("==>") || self.is("-->") {
            let a = if self.eat("==>") { Asg::Con } else { self.want("-->").map(|_| Asg::Hint)? };
            let l = self.lhs()?;
            out.push(Stmt::Assign(l, a, e, line));
            return Ok(());
        }
        if let Expr::Tuple(_) = e {
            return Err(format!("line {line}: tuple statement"));
        }
        let Expr::Var(name, acc) = e else {
            out.push(Stmt::Expr(e));
            return Ok(());
        };
        let l = Lhs { name, acc };
        if let Some(a) = self.asg() {
            let e = self.expr()?;
            out.push(Stmt::Assign(l, a, e, line));
            return Ok(());
        }
        if self.eat("++") {
            out.push(Stmt::OpAssign(l, Op::Add, Expr::Num(F::ONE), line));
            return Ok(());
        }
        if self.eat("--") {
            out.push(Stmt::OpAssign(l, Op::Sub, Expr::Num(F::ONE), line));
            return Ok(());
        }
        for (p, o) in [
            ("+=", Op::Add), ("-=", Op::Sub), ("*=", Op::Mul), ("/=", Op::Div), ("\\=", Op::IDiv), ("%=", Op::Mod), ("**=", Op::Pow),
            ("<<=", Op::Shl), (">>=", Op::Shr), ("&=", Op::And), ("|=", Op::Or), ("^=", Op::Xor),
        ] {
            if self.eat(p) {
                let e = self.expr()?;
                out.push(Stmt::OpAssign(l, o, e, line));
                return Ok(());
            }
        }
        Err(format!("line {line}: unexpected {:?}", self.peek()))
    }
    fn declare(k: i32, n: Name, d: Vec<Expr>) -> Stmt {
        match k {
            0 => Stmt::VarDecl(n, d, None),
            1 => Stmt::SigDecl(Kind::In, n, d),
            2 => Stmt::SigDecl(Kind::Out, n, d),
            3 => Stmt::SigDecl(Kind::Mid, n, d),
            _ => Stmt::CompDecl(n, d),
        }
    }
    fn asg(&mut self) -> Option<Asg> {
        if self.eat("=") {
            Some(Asg::Var)
        } else if self.eat("<--") {
            Some(Asg::Hint)
        } else if self.eat("<==") {
            Some(Asg::Con)
        } else {
            None
        }
    }
    fn accs(&mut self) -> R<Vec<Acc>> {
        let mut acc = vec![];
        loop {
            if self.eat("[") {
                acc.push(Acc::Idx(self.expr()?));
                self.want("]")?;
            } else if self.eat(".") {
                acc.push(Acc::Field(self.ident()?));
            } else {
                return Ok(acc);
            }
        }
    }
    fn lhs(&mut self) -> R<Lhs> {
        let name = self.ident()?;
        let acc = self.accs()?;
        Ok(Lhs { name, acc })
    }
    pub fn expr(&mut self) -> R<Expr> {
        let c = self.bin(0)?;
        if self.eat("?") {
            let a = self.expr()?;
            self.want(":")?;
            let b = self.expr()?;
            return Ok(Expr::Tern(Box::new(c), Box::new(a), Box::new(b)));
        }
        Ok(c)
    }
    fn level(l: usize) -> &'static [(&'static str, Op)] {
        match l {
            0 => &[("||", Op::LOr)],
            1 => &[("&&", Op::LAnd)],
            2 => &[("==", Op::Eq), ("!=", Op::Ne), ("<=", Op::Le), (">=", Op::Ge), ("<", Op::Lt), (">", Op::Gt)],
            3 => &[("|", Op::Or)],
            4 => &[("^", Op::Xor)],
            5 => &[("&", Op::And)],
            6 => &[("<<", Op::Shl), (">>", Op::Shr)],
            7 => &[("+", Op::Add), ("-", Op::Sub)],
            8 => &[("*", Op::Mul), ("/", Op::Div), ("\\", Op::IDiv), ("%", Op::Mod)],
            9 => &[("**", Op::Pow)],
            _ => &[],
        }
    }
    fn bin(&mut self, l: usize) -> R<Expr> {
        if l == 10 {
            return self.unary();
        }
        let mut a = self.bin(l + 1)?;
        'o: loop {
            for (p, o) in Self::level(l) {
                if self.eat(p) {
                    let b = self.bin(l + 1)?;
                    a = Expr::Bin(*o, Box::new(a), Box::new(b));
                    continue 'o;
                }
            }
            return Ok(a);
        }
    }
    fn unary(&mut self) -> R<Expr> {
        if self.eat("-") {
            return Ok(Expr::Neg(Box::new(self.unary()?)));
        }
        if self.eat("!") {
            return Ok(Expr::Not(Box::new(self.unary()?)));
        }
        if self.eat("~") {
            return Ok(Expr::Compl(Box::new(self.unary()?)));
        }
        if self.kw("parallel") {
            return self.unary();
        }
        self.primary()
    }
    fn list(&mut self, end: &str) -> R<Vec<Expr>> {
        let mut v = vec![];
        while !self.eat(end) {
            v.push(self.expr()?);
            if !self.eat(",") {
                self.want(end)?;
                break;
            }
        }
        Ok(v)
    }
    fn primary(&mut self) -> R<Expr> {
        let line = self.line();
        if self.eat("(") {
            let mut v = self.list(")")?;
            if v.len() == 1 {
                return Ok(v.pop().unwrap());
            }
            return Ok(Expr::Tuple(v));
        }
        if self.eat("[") {
            return Ok(Expr::Arr(self.list("]")?));
        }
        match self.peek().clone() {
            T::Num(f) => {
                self.i += 1;
                Ok(Expr::Num(f))
            }
            T::Id(_) => {
                let n = self.ident()?;
                if self.eat("(") {
                    let a = self.list(")")?;
                    if self.eat("(") {
                        let mut ins = vec![];
                        while !self.eat(")") {
                            // name <== e, or e
                            let save = self.i;
                            let mut nm = None;
                            if let T::Id(_) = self.peek() {
                                let x = self.ident()?;
                                if self.eat("<==") || self.eat("<--") {
                                    nm = Some(x);
                                } else {
                                    self.i = save;
                                }
                            }
                            ins.push((nm, self.expr()?));
                            if !self.eat(",") {
                                self.want(")")?;
                                break;
                            }
                        }
                        self.tmp += 1;
                        let acc = self.accs()?;
                        if !acc.is_empty() {
                            return Err(format!("line {line}: access into an anonymous component"));
                        }
                        return Ok(Expr::Anon(n, a, ins));
                    }
                    return Ok(Expr::Call(n, a));
                }
                Ok(Expr::Var(n, self.accs()?))
            }
            t => Err(format!("line {line}: unexpected {t:?}")),
        }
    }
}
