//! Runs a circom program: for concrete inputs computes every wire and records the constraints circom would emit.
//! Every `<--` is a numbered hint whose value may be overridden (the compiler puts no constraint on it).
use crate::field::F;
use crate::syntax::*;
use std::collections::{HashMap, HashSet};
use std::path::{Path, PathBuf};
use std::rc::Rc;

/// sorted by wire; wire 0 is the constant one
pub type Lc = Vec<(u32, F)>;
#[derive(Clone, Debug)]
pub enum Sym {
    Known,
    Lin(Rc<Lc>),
    /// a*b + c
    Quad(Rc<Lc>, Rc<Lc>, Rc<Lc>),
    Non,
    /// declaration pass: nothing is known about it
    Unk,
}
#[derive(Clone, Debug)]
pub struct Sc {
    pub v: F,
    pub s: Sym,
}
#[derive(Clone, Debug)]
pub enum Val {
    S(Sc),
    A(Rc<Vec<Val>>),
    T(Rc<Vec<Val>>),
}
type R<X> = Result<X, String>;
fn k(v: F) -> Val {
    Val::S(Sc { v, s: Sym::Known })
}
pub fn lc_add(a: &Lc, b: &Lc, kb: F) -> Lc {
    let mut o = Vec::with_capacity(a.len() + b.len());
    let (mut i, mut j) = (0, 0);
    while i < a.len() || j < b.len() {
        if j >= b.len() || (i < a.len() && a[i].0 < b[j].0) {
            o.push(a[i]);
            i += 1;
        } else if i >= a.len() || b[j].0 < a[i].0 {
            o.push((b[j].0, b[j].1.mul(kb)));
            j += 1;
        } else {
            let v = a[i].1.add(b[j].1.mul(kb));
            if !v.is_zero() {
                o.push((a[i].0, v));
            }
            i += 1;
            j += 1;
        }
    }
    o
}
fn lc_scale(a: &Lc, f: F) -> Lc {
    if f.is_zero() {
        return vec![];
    }
    a.iter().map(|(w, c)| (*w, c.mul(f))).collect()
}
fn konst(v: F) -> Lc {
    if v.is_zero() {
        vec![]
    } else {
        vec![(0, v)]
    }
}
impl Sc {
    fn known(v: F) -> Sc {
        Sc { v, s: Sym::Known }
    }
    fn is_known(&self) -> bool {
        matches!(self.s, Sym::Known)
    }
    fn lin(&self) -> Option<Rc<Lc>> {
        match &self.s {
            Sym::Known => Some(Rc::new(konst(self.v))),
            Sym::Lin(l) => Some(l.clone()),
            _ => None,
        }
    }
    fn scale(&self, f: F) -> Sc {
        let s = match &self.s {
            Sym::Lin(l) => Sym::Lin(Rc::new(lc_scale(l, f))),
            Sym::Quad(a, b, c) => Sym::Quad(Rc::new(lc_scale(a, f)), b.clone(), Rc::new(lc_scale(c, f))),
            o => o.clone(),
        };
        Sc { v: self.v.mul(f), s }
    }
    fn plus(&self, o: &Sc, f: F) -> Sc {
        let v = self.v.add(o.v.mul(f));
        let s = match (&self.s, &o.s) {
            (Sym::Unk, _) | (_, Sym::Unk) => Sym::Unk,
            (Sym::Known, Sym::Known) => Sym::Known,
            (Sym::Non, _) | (_, Sym::Non) | (Sym::Quad(..), Sym::Quad(..)) => Sym::Non,
            (Sym::Quad(a, b, c), _) => Sym::Quad(a.clone(), b.clone(), Rc::new(lc_add(c, &o.lin().unwrap(), f))),
            (_, Sym::Quad(a, b, c)) => {
                Sym::Quad(Rc::new(lc_scale(a, f)), b.clone(), Rc::new(lc_add(&self.lin().unwrap(), c, f)))
            }
            _ => Sym::Lin(Rc::new(lc_add(&self.lin().unwrap(), &o.lin().unwrap(), f))),
        };
        Sc { v, s }
    }
    fn times(&self, o: &Sc) -> Sc {
        let v = self.v.mul(o.v);
        let s = match (&self.s, &o.s) {
            (Sym::Unk, _) | (_, Sym::Unk) => Sym::Unk,
            (_, Sym::Known) => return self.scale(o.v),
            (Sym::Known, _) => return o.scale(self.v),
            (Sym::Lin(a), Sym::Lin(b)) => Sym::Quad(a.clone(), b.clone(), Rc::new(vec![])),
            _ => Sym::Non,
        };
        Sc { v, s }
    }
}
/// a * b = c
#[derive(Clone, Debug)]
pub struct Con {
    pub a: Rc<Lc>,
    pub b: Rc<Lc>,
    pub c: Rc<Lc>,
    pub line: u32,
    pub inst: u32,
}
struct SigInfo {
    name: Name,
    base: u32,
    dims: Vec<usize>,
    kind: Kind,
}
struct Inst {
    def: usize,
    params: Rc<Vec<Val>>,
    sigs: Vec<SigInfo>,
    missing: usize,
    done: bool,
    parent: u32,
    label: Name,
}
#[derive(Clone)]
enum Slot {
    V(Val),
    Sig(usize),
    Comp(Rc<(Vec<usize>, std::cell::RefCell<Vec<Option<u32>>>)>),
}
pub struct Program {
    pub names: Interner,
    defs: Vec<Def>,
    index: HashMap<Name, usize>,
    pub main: Option<(Vec<Name>, Name, Vec<F>)>,
    pub files: Vec<PathBuf>,
}
pub struct Run {
    /// by wire as allocated; wire 0 is one
    pub wires: Vec<F>,
    pub cons: Vec<Con>,
    /// the first constraint the assignment breaks
    pub broken: Option<String>,
    pub outs: Vec<(String, Vec<u32>)>,
    pub ins: Vec<(String, Vec<u32>, bool)>,
    /// wires assigned by a hint, in order of execution
    pub hints: Vec<u32>,
    pub unassigned: usize,
    pub insts: usize,
    paths: Vec<(u32, String)>,
    sig_names: Vec<(u32, String, u32)>,
}
impl Run {
    pub fn out(&self, n: &str) -> Vec<F> {
        self.outs.iter().find(|o| o.0 == n).map(|o| o.1.iter().map(|w| self.wires[*w as usize]).collect()).unwrap_or_default()
    }
    pub fn out_wires(&self) -> Vec<u32> {
        self.outs.iter().flat_map(|o| o.1.iter().copied()).collect()
    }
    pub fn in_wires(&self) -> Vec<u32> {
        self.ins.iter().flat_map(|o| o.1.iter().copied()).collect()
    }
    pub fn name(&self, w: u32) -> String {
        let i = self.sig_names.partition_point(|s| s.0 <= w);
        if i == 0 {
            return "one".into();
        }
        let s = &self.sig_names[i - 1];
        let p = &self.paths[s.2 as usize];
        let mut path = p.1.clone();
        let mut up = p.0;
        while up != u32::MAX {
            let q = &self.paths[up as usize];
            path = format!("{}.{}", q.1, path);
            up = q.0;
        }
        format!("{}.{}+{}", path, s.1, w - s.0)
    }
}
#[derive(Clone, Copy)]
pub struct Opt<'a> {
    pub sym: bool,
    pub hints: Option<&'a HashMap<usize, F>>,
}
impl Program {
    pub fn empty() -> Program {
        Program { names: Interner::default(), defs: vec![], index: HashMap::new(), main: None, files: vec![] }
    }
    /// `file` with everything it includes; `circomlib` stands in for node_modules/circomlib/circuits
    pub fn load(file: &Path, circomlib: &Path) -> R<Program> {
        let mut p = Program::empty();
        let mut seen = HashSet::new();
        let mut todo = vec![file.to_path_buf()];
        while let Some(f) = todo.pop() {
            let f = std::fs::canonicalize(&f).map_err(|e| format!("{}: {e}", f.display()))?;
            if !seen.insert(f.clone()) {
                continue;
            }
            let src = std::fs::read_to_string(&f).map_err(|e| format!("{}: {e}", f.display()))?;
            let mut ps = Parser::new(&src, &mut p.names).map_err(|e| format!("{}: {e}", f.display()))?;
            ps.file().map_err(|e| format!("{}: {e}", f.display()))?;
            let (inc, defs, main) = (ps.includes, ps.defs, ps.main);
            for d in defs {
                if p.index.insert(d.name, p.defs.len()).is_some() {
                    return Err(format!("{}: {} is defined twice", f.display(), p.names.names[d.name as usize]));
                }
                p.defs.push(d);
            }
            if let Some(m) = main {
                if todo.is_empty() && seen.len() == 1 {
                    let Expr::Call(n, a) = m.call else { return Err("bad main".into()) };
                    let mut ev = Machine::new(&p, Opt { sym: false, hints: None });
                    let mut env = vec![];
                    let mut ps = vec![];
                    for x in &a {
                        ps.push(ev.scalar(x, &mut env, None)?.v);
                    }
                    p.main = Some((m.publics, n, ps));
                }
            }
            for i in inc {
                let g = match i.find("node_modules/circomlib/circuits/") {
                    Some(at) => circomlib.join(&i[at + "node_modules/circomlib/circuits/".len()..]),
                    None => f.parent().unwrap().join(&i),
                };
                todo.push(g);
            }
            p.files.push(f);
        }
        Ok(p)
    }
    pub fn set_main(&mut self, template: &str, params: &[F], publics: &[&str]) {
        let n = self.names.get(template);
        let pb = publics.iter().map(|s| self.names.get(s)).collect();
        self.main = Some((pb, n, params.to_vec()));
    }
    pub fn has(&self, template: &str) -> bool {
        self.names.find(template).map(|n| self.index.contains_key(&n)).unwrap_or(false)
    }
    pub fn run(&self, inputs: &HashMap<String, Vec<F>>, opt: Opt) -> R<Run> {
        let (pubs, n, params) = self.main.clone().ok_or("no main component")?;
        let mut m = Machine::new(self, opt);
        let top = m.instantiate(n, Rc::new(params.into_iter().map(k).collect()), u32::MAX, n)?;
        let need: Vec<(Name, u32, usize)> = m.insts[top as usize]
            .sigs
            .iter()
            .filter(|s| s.kind == Kind::In)
            .map(|s| (s.name, s.base, s.dims.iter().product::<usize>()))
            .collect();
        for key in inputs.keys() {
            if !need.iter().any(|x| &self.names.names[x.0 as usize] == key) {
                return Err(format!("input: no signal {key}"));
            }
        }
        for (nm, base, len) in &need {
            let s = &self.names.names[*nm as usize];
            let v = inputs.get(s).ok_or(format!("input: {s} is missing"))?;
            if v.len() != *len {
                return Err(format!("input: {s} has {} values, not {len}", v.len()));
            }
            for (j, x) in v.iter().enumerate() {
                m.wires[*base as usize + j] = *x;
                m.set[*base as usize + j] = true;
            }
        }
        m.insts[top as usize].missing = 0;
        m.execute(top)?;
        let name = |x: Name| self.names.names[x as usize].clone();
        let mut outs = vec![];
        let mut ins = vec![];
        for s in &m.insts[top as usize].sigs {
            let w: Vec<u32> = (0..s.dims.iter().product::<usize>() as u32).map(|j| s.base + j).collect();
            match s.kind {
                Kind::Out => outs.push((name(s.name), w)),
                Kind::In => ins.push((name(s.name), w, pubs.contains(&s.name))),
                _ => {}
            }
        }
        for p in &pubs {
            if !ins.iter().any(|i| i.0 == name(*p)) {
                return Err(format!("public: no input {}", name(*p)));
            }
        }
        let paths = m.insts.iter().map(|i| (i.parent, name(i.label))).collect();
        let mut sig_names: Vec<(u32, String, u32)> = vec![];
        if opt.sym {
            for (j, i) in m.insts.iter().enumerate() {
                for s in &i.sigs {
                    sig_names.push((s.base, name(s.name), j as u32));
                }
            }
            sig_names.sort();
        }
        Ok(Run {
            unassigned: m.set.iter().filter(|b| !**b).count() - 1,
            wires: m.wires,
            cons: m.cons,
            broken: m.broken,
            outs,
            ins,
            hints: m.hint_wires,
            insts: m.insts.len(),
            paths,
            sig_names,
        })
    }
}
enum Flow {
    Go,
    Ret(Val),
    /// declaration pass met control flow it cannot follow
    Stop,
}
type Env = Vec<(Name, Slot)>;
struct Machine<'p> {
    p: &'p Program,
    opt: Opt<'p>,
    wires: Vec<F>,
    set: Vec<bool>,
    cons: Vec<Con>,
    insts: Vec<Inst>,
    broken: Option<String>,
    hint_wires: Vec<u32>,
    decl: Option<Vec<(Kind, Name, Vec<usize>)>>,
    iface: HashMap<(Name, Vec<F>), Rc<Vec<(Kind, Name, Vec<usize>)>>>,
    memo: HashMap<(Name, Vec<F>), Val>,
    depth: usize,
}
fn flat_params(ps: &[Val], out: &mut Vec<F>) {
    for v in ps {
        match v {
            Val::S(s) => out.push(s.v),
            Val::A(a) | Val::T(a) => {
                out.push(F::u(a.len() as u64).neg());
                flat_params(a, out)
            }
        }
    }
}
impl<'p> Machine<'p> {
    fn new(p: &'p Program, opt: Opt<'p>) -> Machine<'p> {
        Machine {
            p,
            opt,
            wires: vec![F::ONE],
            set: vec![false],
            cons: vec![],
            insts: vec![],
            broken: None,
            hint_wires: vec![],
            decl: None,
            iface: HashMap::new(),
            memo: HashMap::new(),
            depth: 0,
        }
    }
    fn nm(&self, n: Name) -> &str {
        &self.p.names.names[n as usize]
    }
    fn def(&self, n: Name, template: bool) -> R<usize> {
        let i = *self.p.index.get(&n).ok_or(format!("{} is not defined", self.nm(n)))?;
        if self.p.defs[i].template != template {
            return Err(format!("{} is of the wrong kind", self.nm(n)));
        }
        Ok(i)
    }
    fn instantiate(&mut self, n: Name, params: Rc<Vec<Val>>, parent: u32, label: Name) -> R<u32> {
        let d = self.def(n, true)?;
        let mut key = vec![];
        flat_params(&params, &mut key);
        let key = (n, key);
        let face = match self.iface.get(&key) {
            Some(f) => f.clone(),
            None => {
                let def = &self.p.defs[d];
                if def.params.len() != params.len() {
                    return Err(format!("{}: {} parameters, not {}", self.nm(n), params.len(), def.params.len()));
                }
                let mut env: Env = def.params.iter().copied().zip(params.iter().map(|v| Slot::V(v.clone()))).collect();
                let save = self.decl.replace(vec![]);
                let body = def.body.clone();
                for s in body.iter() {
                    // what cannot be followed without signals does not declare any
                    match self.stmt(s, &mut env, 0) {
                        Ok(Flow::Go) => {}
                        _ => break,
                    }
                }
                let f = Rc::new(std::mem::replace(&mut self.decl, save).unwrap());
                self.iface.insert(key, f.clone());
                f
            }
        };
        let mut inst = Inst { def: d, params, sigs: vec![], missing: 0, done: false, parent, label };
        for (kind, name, dims) in face.iter() {
            if *kind == Kind::Mid {
                continue;
            }
            let len: usize = dims.iter().product();
            if *kind == Kind::In {
                inst.missing += len;
            }
            inst.sigs.push(SigInfo { name: *name, base: self.wires.len() as u32, dims: dims.clone(), kind: *kind });
            self.alloc(len);
        }
        let id = self.insts.len() as u32;
        let ready = inst.missing == 0;
        self.insts.push(inst);
        if ready && parent != u32::MAX {
            self.execute(id)?;
        }
        Ok(id)
    }
    fn alloc(&mut self, n: usize) {
        self.wires.resize(self.wires.len() + n, F::ZERO);
        self.set.resize(self.set.len() + n, false);
    }
    fn execute(&mut self, id: u32) -> R<()> {
        self.depth += 1;
        if self.depth > 400 {
            return Err("components nest too deep".into());
        }
        let p = self.p;
        let def = &p.defs[self.insts[id as usize].def];
        let params = self.insts[id as usize].params.clone();
        let mut env: Env = def.params.iter().copied().zip(params.iter().map(|v| Slot::V(v.clone()))).collect();
        let body = def.body.clone();
        for s in body.iter() {
            match self.stmt(s, &mut env, id).map_err(|e| if e.contains(" in ") { e } else { format!("{e} in {}", self.nm(def.name)) })? {
                Flow::Go => {}
                _ => return Err(format!("return in template {}", self.nm(def.name))),
            }
        }
        self.insts[id as usize].done = true;
        self.depth -= 1;
        Ok(())
    }
    fn find<'e>(&self, env: &'e Env, n: Name) -> Option<usize> {
        env.iter().rposition(|e| e.0 == n)
    }
    fn dims(&mut self, d: &[Expr], env: &mut Env, id: Option<u32>) -> R<Vec<usize>> {
        let mut o = vec![];
        for e in d {
            let s = self.scalar(e, env, id)?;
            if !s.is_known() {
                return Err("array size depends on a signal".into());
            }
            o.push(s.v.low().filter(|x| *x < 1 << 24).ok_or("array size")?);
        }
        Ok(o)
    }
    fn fill(d: &[usize], v: &Val) -> Val {
        match d.split_first() {
            None => v.clone(),
            Some((n, rest)) => Val::A(Rc::new(vec![Self::fill(rest, v); *n])),
        }
    }
    fn block(&mut self, b: &[Stmt], env: &mut Env, id: u32) -> R<Flow> {
        let mark = env.len();
        for s in b {
            match self.stmt(s, env, id)? {
                Flow::Go => {}
                f => {
                    env.truncate(mark);
                    return Ok(f);
                }
            }
        }
        env.truncate(mark);
        Ok(Flow::Go)
    }
    fn stmt(&mut self, s: &Stmt, env: &mut Env, id: u32) -> R<Flow> {
        let me = Some(id);
        match s {
            Stmt::Nop => {}
            Stmt::Block(b, scope) => {
                if *scope {
                    return self.block(b, env, id);
                }
                for x in b {
                    match self.stmt(x, env, id)? {
                        Flow::Go => {}
                        f => return Ok(f),
                    }
                }
            }
            Stmt::VarDecl(n, d, e) => {
                let d = self.dims(d, env, me)?;
                let v = match e {
                    Some(e) => self.eval(e, env, me)?,
                    None => Self::fill(&d, &k(F::ZERO)),
                };
                env.push((*n, Slot::V(v)));
            }
            Stmt::SigDecl(kind, n, d) => {
                let d = self.dims(d, env, me)?;
                if let Some(f) = &mut self.decl {
                    f.push((*kind, *n, d));
                    env.push((*n, Slot::Sig(usize::MAX)));
                } else {
                    let have = self.insts[id as usize].sigs.iter().position(|s| s.name == *n);
                    let i = match have {
                        Some(i) => i,
                        None => {
                            if *kind != Kind::Mid {
                                return Err(format!("{}: input or output declared where it cannot be found", self.nm(*n)));
                            }
                            let len = d.iter().product();
                            let base = self.wires.len() as u32;
                            self.insts[id as usize].sigs.push(SigInfo { name: *n, base, dims: d, kind: *kind });
                            self.alloc(len);
                            self.insts[id as usize].sigs.len() - 1
                        }
                    };
                    env.push((*n, Slot::Sig(i)));
                }
            }
            Stmt::CompDecl(n, d) => {
                let d = self.dims(d, env, me)?;
                let len = d.iter().product();
                env.push((*n, Slot::Comp(Rc::new((d, std::cell::RefCell::new(vec![None; len]))))));
            }
            Stmt::Assign(l, a, e, line) => {
                if *a == Asg::Var {
                    if let Some(i) = self.find(env, l.name) {
                        if let Slot::Comp(c) = env[i].1.clone() {
                            if self.decl.is_some() {
                                return Ok(Flow::Go);
                            }
                            let mut ix = vec![];
                            for x in &l.acc {
                                let Acc::Idx(x) = x else { return Err(format!("line {line}: bad component")) };
                                ix.push(self.index(x, env, me)?);
                            }
                            let at = Self::offset(&c.0, &ix).map_err(|m| format!("line {line}: {m}"))?;
                            let Expr::Call(t, ps) = e else { return Err(format!("line {line}: not a component")) };
                            let mut pv = vec![];
                            for x in ps {
                                pv.push(self.eval(x, env, me)?);
                            }
                            if c.1.borrow()[at].is_some() {
                                return Err(format!("line {line}: component assigned twice"));
                            }
                            let new = self.instantiate(*t, Rc::new(pv), id, l.name).map_err(|m| format!("line {line}: {m}"))?;
                            c.1.borrow_mut()[at] = Some(new);
                            return Ok(Flow::Go);
                        }
                    }
                }
                let v = self.eval(e, env, me);
                let v = match v {
                    Ok(v) => v,
                    Err(_) if self.decl.is_some() => Val::S(Sc { v: F::ZERO, s: Sym::Unk }),
                    Err(m) => return Err(format!("line {line}: {m}")),
                };
                self.assign(l, *a, v, env, id, *line)?;
            }
            Stmt::OpAssign(l, o, e, line) => {
                let i = self.find(env, l.name).ok_or(format!("line {line}: {} is not declared", self.nm(l.name)))?;
                if !matches!(env[i].1, Slot::V(_)) {
                    return Err(format!("line {line}: {} is not a variable", self.nm(l.name)));
                }
                let b = self.scalar(e, env, me)?;
                let mut ix = vec![];
                for x in &l.acc {
                    let Acc::Idx(x) = x else { return Err(format!("line {line}: bad access")) };
                    ix.push(self.index(x, env, me)?);
                }
                let Slot::V(v) = &mut env[i].1 else { unreachable!() };
                let cell = Self::cell(v, &ix).map_err(|m| format!("line {line}: {m}"))?;
                let Val::S(a) = cell else { return Err(format!("line {line}: array operation")) };
                *a = Self::op(*o, a, &b).map_err(|m| format!("line {line}: {m}"))?;
            }
            Stmt::Multi(ls, a, e, line) => {
                if self.decl.is_some() {
                    return Ok(Flow::Go);
                }
                let v = self.eval(e, env, me)?;
                let vs = match v {
                    Val::T(t) => t.to_vec(),
                    v => vec![v],
                };
                if vs.len() != ls.len() {
                    return Err(format!("line {line}: {} values for {}", vs.len(), ls.len()));
                }
                for (l, v) in ls.iter().zip(vs) {
                    if let Some(l) = l {
                        self.assign(l, *a, v, env, id, *line)?;
                    }
                }
            }
            Stmt::Eqc(a, b, line) => {
                if self.decl.is_some() {
                    return Ok(Flow::Go);
                }
                let (a, b) = (self.eval(a, env, me)?, self.eval(b, env, me)?);
                self.equal(&a, &b, id, *line)?;
            }
            Stmt::If(c, a, b) => {
                let v = match self.scalar(c, env, me) {
                    Ok(v) => v,
                    Err(_) if self.decl.is_some() => return Ok(Flow::Go),
                    Err(m) => return Err(m),
                };
                if matches!(v.s, Sym::Unk) {
                    return Ok(Flow::Go);
                }
                if !v.v.is_zero() {
                    return self.stmt(a, env, id);
                } else if let Some(b) = b {
                    return self.stmt(b, env, id);
                }
            }
            Stmt::While(c, b) => {
                let mut n = 0u64;
                loop {
                    let v = self.scalar(c, env, me)?;
                    if matches!(v.s, Sym::Unk) {
                        return Ok(Flow::Stop);
                    }
                    if v.v.is_zero() {
                        break;
                    }
                    n += 1;
                    if n > 1 << 22 {
                        return Err("loop does not end".into());
                    }
                    match self.stmt(b, env, id)? {
                        Flow::Go => {}
                        f => return Ok(f),
                    }
                }
            }
            Stmt::Return(e) => return Ok(Flow::Ret(self.eval(e, env, me)?)),
            Stmt::Assert(e, line) => {
                if self.decl.is_none() {
                    let v = self.scalar(e, env, me)?;
                    if v.v.is_zero() && self.broken.is_none() {
                        self.broken = Some(format!("assertion at line {line} in {}", self.place(id)));
                    }
                }
            }
            Stmt::Expr(e) => {
                if self.decl.is_none() {
                    self.eval(e, env, me)?;
                }
            }
        }
        Ok(Flow::Go)
    }
    fn place(&self, id: u32) -> String {
        if (id as usize) < self.insts.len() {
            self.nm(self.p.defs[self.insts[id as usize].def].name).to_string()
        } else {
            String::new()
        }
    }
    fn offset(dims: &[usize], ix: &[usize]) -> R<usize> {
        if dims.len() != ix.len() {
            return Err("wrong number of indices".into());
        }
        let mut o = 0;
        for (d, i) in dims.iter().zip(ix) {
            if i >= d {
                return Err(format!("index {i} out of {d}"));
            }
            o = o * d + i;
        }
        Ok(o)
    }
    fn cell<'v>(v: &'v mut Val, ix: &[usize]) -> R<&'v mut Val> {
        match ix.split_first() {
            None => Ok(v),
            Some((i, rest)) => match v {
                Val::A(a) => {
                    let a = Rc::make_mut(a);
                    let n = a.len();
                    Self::cell(a.get_mut(*i).ok_or(format!("index {i} out of {n}"))?, rest)
                }
                _ => Err("not an array".into()),
            },
        }
    }
    fn index(&mut self, e: &Expr, env: &mut Env, id: Option<u32>) -> R<usize> {
        let s = self.scalar(e, env, id)?;
        if matches!(s.s, Sym::Unk) {
            return Err("unknown index".into());
        }
        s.v.low().ok_or_else(|| "index too large".into())
    }
    /// the signal (and, where given, remaining dimensions) an access names
    fn locate(&mut self, l: &Lhs, env: &mut Env, id: u32, line: u32) -> R<Option<(u32, usize, Vec<usize>, u32)>> {
        let i = self.find(env, l.name).ok_or(format!("line {line}: {} is not declared", self.nm(l.name)))?;
        let slot = env[i].1.clone();
        self.locate_slot(slot, &l.acc, env, id, line)
    }
    /// owner instance, index of the signal in it, indices left, wire
    fn locate_slot(&mut self, slot: Slot, acc: &[Acc], env: &mut Env, id: u32, line: u32) -> R<Option<(u32, usize, Vec<usize>, u32)>> {
        let (owner, sig, rest) = match slot {
            Slot::V(_) => return Ok(None),
            Slot::Sig(s) => (id, s, acc),
            Slot::Comp(c) => {
                let mut ix = vec![];
                let mut j = 0;
                while let Some(Acc::Idx(x)) = acc.get(j) {
                    ix.push(self.index(x, env, Some(id))?);
                    j += 1;
                }
                let at = Self::offset(&c.0, &ix).map_err(|m| format!("line {line}: {m}"))?;
                let Some(Acc::Field(f)) = acc.get(j) else { return Err(format!("line {line}: component used as a value")) };
                let sub = c.1.borrow()[at].ok_or(format!("line {line}: component is not set"))?;
                let s = self.insts[sub as usize]
                    .sigs
                    .iter()
                    .position(|s| s.name == *f && s.kind != Kind::Mid)
                    .ok_or(format!("line {line}: no signal {}", self.nm(*f)))?;
                (sub, s, &acc[j + 1..])
            }
        };
        let mut ix = vec![];
        for x in rest {
            let Acc::Idx(x) = x else { return Err(format!("line {line}: bad access")) };
            ix.push(self.index(x, env, Some(id))?);
        }
        let s = &self.insts[owner as usize].sigs[sig];
        if ix.len() > s.dims.len() {
            return Err(format!("line {line}: too many indices"));
        }
        let mut o = 0;
        for (d, i) in s.dims.iter().zip(&ix) {
            if i >= d {
                return Err(format!("line {line}: index {i} out of {d}"));
            }
            o = o * d + i;
        }
        let left: Vec<usize> = s.dims[ix.len()..].to_vec();
        let stride: usize = left.iter().product();
        Ok(Some((owner, sig, left, s.base + (o * stride) as u32)))
    }
    fn assign(&mut self, l: &Lhs, a: Asg, v: Val, env: &mut Env, id: u32, line: u32) -> R<()> {
        if let Some(i) = self.find(env, l.name) {
            if let Slot::V(_) = env[i].1 {
                if a != Asg::Var {
                    return Err(format!("line {line}: signal assignment to a variable"));
                }
                let mut ix = vec![];
                for x in &l.acc {
                    let Acc::Idx(x) = x else { return Err(format!("line {line}: bad access")) };
                    match self.index(x, env, Some(id)) {
                        Ok(i) => ix.push(i),
                        Err(_) if self.decl.is_some() => return Ok(()),
                        Err(m) => return Err(m),
                    }
                }
                let Slot::V(cur) = &mut env[i].1 else { unreachable!() };
                *Self::cell(cur, &ix).map_err(|m| format!("line {line}: {m}"))? = v;
                return Ok(());
            }
        }
        if self.decl.is_some() {
            return Ok(());
        }
        if a == Asg::Var {
            return Err(format!("line {line}: {} is not a variable", self.nm(l.name)));
        }
        let (owner, sig, left, w) = self.locate(l, env, id, line)?.unwrap();
        let kind = self.insts[owner as usize].sigs[sig].kind;
        if (owner == id) == (kind == Kind::In) {
            return Err(format!("line {line}: {} may not be assigned here", self.nm(l.name)));
        }
        let mut n = 0;
        self.put(w, &left, &v, a, id, line, &mut n)?;
        if owner != id {
            self.feed(owner, n)?;
        }
        Ok(())
    }
    fn feed(&mut self, sub: u32, n: usize) -> R<()> {
        let s = &mut self.insts[sub as usize];
        if s.done || s.missing < n {
            return Err("input assigned twice".into());
        }
        s.missing -= n;
        if s.missing == 0 {
            self.execute(sub)?;
        }
        Ok(())
    }
    fn put(&mut self, w: u32, dims: &[usize], v: &Val, a: Asg, id: u32, line: u32, n: &mut usize) -> R<()> {
        match (dims.split_first(), v) {
            (None, Val::S(s)) => {
                if self.set[w as usize] {
                    return Err(format!("line {line}: signal assigned twice"));
                }
                self.set[w as usize] = true;
                *n += 1;
                let mut val = s.v;
                if a == Asg::Hint {
                    if let Some(x) = self.opt.hints.and_then(|h| h.get(&self.hint_wires.len())) {
                        val = *x;
                    }
                    self.hint_wires.push(w);
                    self.wires[w as usize] = val;
                } else {
                    self.wires[w as usize] = val;
                    if self.opt.sym {
                        let one = Rc::new(vec![(w, F::ONE)]);
                        let (x, y, z) = match &s.s {
                            Sym::Known | Sym::Lin(_) => {
                                let e = Rc::new(vec![]);
                                (e.clone(), e, Rc::new(lc_add(&one, &s.lin().unwrap(), F::ONE.neg())))
                            }
                            Sym::Quad(x, y, z) => (x.clone(), y.clone(), Rc::new(lc_add(&one, z, F::ONE.neg()))),
                            _ => return Err(format!("line {line}: the expression is not quadratic")),
                        };
                        self.cons.push(Con { a: x, b: y, c: z, line, inst: id });
                    }
                }
                Ok(())
            }
            (Some((d, rest)), Val::A(vs)) if vs.len() == *d => {
                let st: usize = rest.iter().product();
                for (j, x) in vs.iter().enumerate() {
                    self.put(w + (j * st) as u32, rest, x, a, id, line, n)?;
                }
                Ok(())
            }
            _ => Err(format!("line {line}: shapes do not match")),
        }
    }
    fn equal(&mut self, a: &Val, b: &Val, id: u32, line: u32) -> R<()> {
        match (a, b) {
            (Val::S(a), Val::S(b)) => {
                if a.v != b.v && self.broken.is_none() {
                    self.broken = Some(format!("constraint at line {line} in {}", self.place(id)));
                }
                if self.opt.sym {
                    let d = a.plus(b, F::ONE.neg());
                    let (x, y, z) = match &d.s {
                        Sym::Known | Sym::Lin(_) => {
                            let e = Rc::new(vec![]);
                            (e.clone(), e, d.lin().unwrap())
                        }
                        Sym::Quad(x, y, z) => (x.clone(), y.clone(), Rc::new(lc_scale(z, F::ONE.neg()))),
                        _ => return Err(format!("line {line}: the constraint is not quadratic")),
                    };
                    self.cons.push(Con { a: x, b: y, c: z, line, inst: id });
                }
                Ok(())
            }
            (Val::A(x), Val::A(y)) if x.len() == y.len() => {
                for (a, b) in x.iter().zip(y.iter()) {
                    self.equal(a, b, id, line)?;
                }
                Ok(())
            }
            _ => Err(format!("line {line}: shapes do not match")),
        }
    }
    fn read(&self, w: u32, dims: &[usize]) -> Val {
        match dims.split_first() {
            None => {
                let s = if self.opt.sym { Sym::Lin(Rc::new(vec![(w, F::ONE)])) } else { Sym::Known };
                Val::S(Sc { v: self.wires[w as usize], s })
            }
            Some((d, rest)) => {
                let st: usize = rest.iter().product();
                Val::A(Rc::new((0..*d).map(|j| self.read(w + (j * st) as u32, rest)).collect()))
            }
        }
    }
    fn scalar(&mut self, e: &Expr, env: &mut Env, id: Option<u32>) -> R<Sc> {
        match self.eval(e, env, id)? {
            Val::S(s) => Ok(s),
            _ => Err("array where a number is expected".into()),
        }
    }
    fn unk() -> Val {
        Val::S(Sc { v: F::ZERO, s: Sym::Unk })
    }
    fn eval(&mut self, e: &Expr, env: &mut Env, id: Option<u32>) -> R<Val> {
        Ok(match e {
            Expr::Num(f) => k(*f),
            Expr::Var(n, acc) => {
                let i = self.find(env, *n).ok_or(format!("{} is not declared", self.nm(*n)))?;
                if let Slot::V(_) = &env[i].1 {
                    if acc.is_empty() {
                        let Slot::V(v) = &env[i].1 else { unreachable!() };
                        return Ok(v.clone());
                    }
                    let mut ix = vec![];
                    for x in acc {
                        let Acc::Idx(x) = x else { return Err("bad access".into()) };
                        ix.push(self.index(x, env, id)?);
                    }
                    let Slot::V(v) = &env[i].1 else { unreachable!() };
                    let mut v = v;
                    for x in ix {
                        match v {
                            Val::A(a) => v = a.get(x).ok_or(format!("index {x} out of {}", a.len()))?,
                            Val::S(Sc { s: Sym::Unk, .. }) => return Ok(Self::unk()),
                            _ => return Err("not an array".into()),
                        }
                    }
                    return Ok(v.clone());
                }
                if self.decl.is_some() {
                    return Ok(Self::unk());
                }
                let slot = env[i].1.clone();
                let (owner, sig, left, w) = self.locate_slot(slot, acc, env, id.ok_or("signal in a function")?, 0)?.unwrap();
                let kind = self.insts[owner as usize].sigs[sig].kind;
                if Some(owner) != id && kind == Kind::Out && !self.insts[owner as usize].done {
                    return Err(format!("output of {} read before its inputs are set", self.nm(*n)));
                }
                self.read(w, &left)
            }
            Expr::Bin(o, a, b) => {
                let a = self.scalar(a, env, id)?;
                // no short circuit in circom's arithmetic, but an undefined operand must not matter
                let b = self.scalar(b, env, id)?;
                Val::S(Self::op(*o, &a, &b)?)
            }
            Expr::Neg(a) => Val::S(self.scalar(a, env, id)?.scale(F::ONE.neg())),
            Expr::Not(a) => {
                let a = self.scalar(a, env, id)?;
                let s = Self::opaque(&a, &a);
                Val::S(Sc { v: F::u(a.v.is_zero() as u64), s })
            }
            Expr::Compl(a) => {
                let a = self.scalar(a, env, id)?;
                let s = Self::opaque(&a, &a);
                Val::S(Sc { v: F::reduce([!a.v.0[0], !a.v.0[1], !a.v.0[2], !a.v.0[3]]), s })
            }
            Expr::Tern(c, a, b) => {
                let c = self.scalar(c, env, id)?;
                if c.is_known() {
                    return self.eval(if c.v.is_zero() { b } else { a }, env, id);
                }
                let v = self.eval(if c.v.is_zero() { b } else { a }, env, id)?;
                match v {
                    Val::S(s) => Val::S(Sc { v: s.v, s: if matches!(c.s, Sym::Unk) { Sym::Unk } else { Sym::Non } }),
                    v => v,
                }
            }
            Expr::Arr(v) => {
                let mut o = vec![];
                for x in v {
                    o.push(self.eval(x, env, id)?);
                }
                Val::A(Rc::new(o))
            }
            Expr::Tuple(v) => {
                let mut o = vec![];
                for x in v {
                    o.push(self.eval(x, env, id)?);
                }
                Val::T(Rc::new(o))
            }
            Expr::Call(n, args) => {
                let mut a = vec![];
                for x in args {
                    a.push(self.eval(x, env, id)?);
                }
                self.call(*n, a)?
            }
            Expr::Anon(n, ps, ins) => {
                if self.decl.is_some() {
                    return Ok(Self::unk());
                }
                let me = id.ok_or("component in a function")?;
                let mut pv = vec![];
                for x in ps {
                    pv.push(self.eval(x, env, id)?);
                }
                let sub = self.instantiate(*n, Rc::new(pv), me, *n)?;
                let faces: Vec<(Name, u32, Vec<usize>, Kind)> =
                    self.insts[sub as usize].sigs.iter().map(|s| (s.name, s.base, s.dims.clone(), s.kind)).collect();
                let inputs: Vec<_> = faces.iter().filter(|f| f.3 == Kind::In).collect();
                if inputs.len() != ins.len() {
                    return Err(format!("{}: {} inputs, not {}", self.nm(*n), ins.len(), inputs.len()));
                }
                for (j, (nm, x)) in ins.iter().enumerate() {
                    let f = match nm {
                        Some(nm) => inputs.iter().find(|f| f.0 == *nm).ok_or("no such input")?,
                        None => &inputs[j],
                    };
                    let v = self.eval(x, env, id)?;
                    let mut c = 0;
                    self.put(f.1, &f.2, &v, Asg::Con, me, 0, &mut c)?;
                    self.feed(sub, c)?;
                }
                let outs: Vec<Val> = faces.iter().filter(|f| f.3 == Kind::Out).map(|f| self.read(f.1, &f.2)).collect();
                if outs.len() == 1 {
                    outs.into_iter().next().unwrap()
                } else {
                    Val::T(Rc::new(outs))
                }
            }
        })
    }
    fn all_known(v: &Val) -> bool {
        match v {
            Val::S(s) => s.is_known(),
            Val::A(a) | Val::T(a) => a.iter().all(Self::all_known),
        }
    }
    fn taint(v: Val, s: &Sym) -> Val {
        match v {
            Val::S(x) => Val::S(Sc { v: x.v, s: if x.is_known() { s.clone() } else { x.s } }),
            Val::A(a) => Val::A(Rc::new(a.iter().map(|x| Self::taint(x.clone(), s)).collect())),
            Val::T(a) => Val::T(Rc::new(a.iter().map(|x| Self::taint(x.clone(), s)).collect())),
        }
    }
    fn call(&mut self, n: Name, a: Vec<Val>) -> R<Val> {
        let known = a.iter().all(Self::all_known);
        let mut key = vec![];
        flat_params(&a, &mut key);
        let key = (n, key);
        if known {
            if let Some(v) = self.memo.get(&key) {
                return Ok(v.clone());
            }
        }
        let d = self.def(n, false)?;
        let p = self.p;
        let def = &p.defs[d];
        if def.params.len() != a.len() {
            return Err(format!("{}: wrong number of arguments", self.nm(n)));
        }
        self.depth += 1;
        if self.depth > 400 {
            return Err("calls nest too deep".into());
        }
        let mut env: Env = def.params.iter().copied().zip(a.into_iter().map(Slot::V)).collect();
        let save = self.decl.take();
        let mut out = Err(format!("{} returns nothing", self.nm(n)));
        for s in def.body.iter() {
            match self.stmt(s, &mut env, u32::MAX) {
                Ok(Flow::Go) => {}
                Ok(Flow::Ret(v)) => {
                    out = Ok(v);
                    break;
                }
                Ok(Flow::Stop) => {
                    out = Ok(Self::unk());
                    break;
                }
                Err(m) => {
                    out = Err(m);
                    break;
                }
            }
        }
        self.decl = save;
        self.depth -= 1;
        let v = out?;
        if known {
            self.memo.insert(key, v.clone());
            return Ok(v);
        }
        // a value that went through signal-dependent control flow is not a constant
        Ok(Self::taint(v, &Sym::Non))
    }
    fn opaque(a: &Sc, b: &Sc) -> Sym {
        match (&a.s, &b.s) {
            (Sym::Unk, _) | (_, Sym::Unk) => Sym::Unk,
            (Sym::Known, Sym::Known) => Sym::Known,
            _ => Sym::Non,
        }
    }
    fn op(o: Op, a: &Sc, b: &Sc) -> R<Sc> {
        let t = |c: bool| F::u(c as u64);
        let bits = |f: &dyn Fn(u64, u64) -> u64| {
            F::reduce([f(a.v.0[0], b.v.0[0]), f(a.v.0[1], b.v.0[1]), f(a.v.0[2], b.v.0[2]), f(a.v.0[3], b.v.0[3])])
        };
        let v = match o {
            Op::Add => return Ok(a.plus(b, F::ONE)),
            Op::Sub => return Ok(a.plus(b, F::ONE.neg())),
            Op::Mul => return Ok(a.times(b)),
            // division by zero yields zero in the witness calculators circom emits
            Op::Div => {
                if b.is_known() {
                    return Ok(a.scale(b.v.inv()));
                }
                a.v.mul(b.v.inv())
            }
            Op::IDiv | Op::Mod => {
                if b.v.is_zero() {
                    if !a.is_known() || !b.is_known() {
                        return Ok(Sc { v: F::ZERO, s: Self::opaque(a, b) });
                    }
                    return Err("division by zero".into());
                }
                if let (Some(x), Some(y)) = (a.v.low(), b.v.low()) {
                    F::u(if o == Op::IDiv { x / y } else { x % y } as u64)
                } else if o == Op::IDiv {
                    F::from_big(&(a.v.big() / b.v.big()))
                } else {
                    F::from_big(&(a.v.big() % b.v.big()))
                }
            }
            Op::Pow => a.v.pow(&b.v.0),
            Op::Shl | Op::Shr => {
                let n = b.v.low().filter(|n| *n < 256);
                match n {
                    None => F::ZERO,
                    Some(n) if o == Op::Shr => {
                        let mut l = [0u64; 4];
                        for i in 0..4 {
                            let j = i + n / 64;
                            if j < 4 {
                                l[i] = a.v.0[j] >> (n % 64);
                                if n % 64 > 0 && j + 1 < 4 {
                                    l[i] |= a.v.0[j + 1] << (64 - n % 64);
                                }
                            }
                        }
                        F(l)
                    }
                    Some(n) => {
                        let mut l = [0u64; 4];
                        for i in 0..4 {
                            if i >= n / 64 {
                                let j = i - n / 64;
                                l[i] = a.v.0[j] << (n % 64);
                                if n % 64 > 0 && j > 0 {
                                    l[i] |= a.v.0[j - 1] >> (64 - n % 64);
                                }
                            }
                        }
                        F::reduce(l)
                    }
                }
            }
            Op::And => bits(&|x, y| x & y),
            Op::Or => bits(&|x, y| x | y),
            Op::Xor => bits(&|x, y| x ^ y),
            Op::LAnd => t(!a.v.is_zero() && !b.v.is_zero()),
            Op::LOr => t(!a.v.is_zero() || !b.v.is_zero()),
            Op::Eq => t(a.v == b.v),
            Op::Ne => t(a.v != b.v),
            Op::Lt => t(a.v.signed_cmp(&b.v).is_lt()),
            Op::Gt => t(a.v.signed_cmp(&b.v).is_gt()),
            Op::Le => t(a.v.signed_cmp(&b.v).is_le()),
            Op::Ge => t(a.v.signed_cmp(&b.v).is_ge()),
        };
        Ok(Sc { v, s: Self::opaque(a, b) })
    }
}
