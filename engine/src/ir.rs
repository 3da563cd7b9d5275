//! Textual LLVM IR front end: types, globals, functions (parsed on first use).
use crate::expr::{self, Val};
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Array(u64, Rc<Ty>),
    Vector(u64, Rc<Ty>),
    Struct(Vec<Rc<Ty>>, bool),
    Float(u32),
    Meta,
    Label,
    Func,
}

pub type TyR = Rc<Ty>;

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta | Ty::Label | Ty::Func => 1,
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Array(_, t) => t.align(),
            Ty::Vector(n, t) => (n * t.bits() / 8).next_power_of_two().max(1),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Float(w) => (*w as u64) / 8,
        }
    }
    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(w) => *w as u64,
            Ty::Ptr => 64,
            Ty::Float(w) => *w as u64,
            Ty::Vector(n, t) => n * t.bits(),
            _ => self.size() * 8,
        }
    }
    /// allocation size in bytes
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Meta | Ty::Label | Ty::Func => 0,
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => ((n * t.bits() + 7) / 8).next_power_of_two(),
            Ty::Struct(_, _) => {
                let (offs, sz) = self.struct_layout();
                let _ = offs;
                sz
            }
            Ty::Float(w) => (*w as u64) / 8,
        }
    }
    pub fn struct_layout(&self) -> (Vec<u64>, u64) {
        if let Ty::Struct(f, packed) = self {
            let mut off = 0u64;
            let mut al = 1;
            let mut offs = vec![];
            for t in f {
                if !*packed {
                    let a = t.align();
                    off = (off + a - 1) / a * a;
                    al = al.max(a);
                }
                offs.push(off);
                off += t.size();
            }
            off = (off + al - 1) / al * al;
            (offs, off)
        } else {
            panic!("struct_layout of {:?}", self)
        }
    }
    /// scalar width and lane count (lanes = 0 for a scalar)
    pub fn scal(&self) -> (u32, u32) {
        match self {
            Ty::Int(w) => (*w, 0),
            Ty::Ptr => (64, 0),
            Ty::Float(w) => (*w, 0),
            Ty::Vector(n, t) => (t.scal().0, *n as u32),
            _ => (0, 0),
        }
    }
    pub fn zero(&self) -> Val {
        match self {
            Ty::Int(w) if *w > 64 => Val::E(expr::cx().konst(*w, 0)),
            Ty::Array(n, t) | Ty::Vector(n, t) => {
                Val::A(Rc::new(vec![t.zero(); *n as usize]))
            }
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|t| t.zero()).collect())),
            _ => Val::C(0),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp { Trunc, ZExt, SExt, Same }

#[derive(Clone, Debug)]
pub enum Opnd {
    R(u32),
    K(Val),
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(usize),    // function index
    Indirect(Opnd),
}

#[derive(Clone, Debug)]
pub enum I {
    Bin { op: BinOp, w: u32, l: u32, d: u32, a: Opnd, b: Opnd },
    Icmp { p: Pred, w: u32, l: u32, d: u32, a: Opnd, b: Opnd },
    Cast { op: CastOp, fw: u32, tw: u32, l: u32, d: u32, a: Opnd },
    BitCast { f: TyR, t: TyR, d: u32, a: Opnd },
    Select { d: u32, c: Opnd, cl: u32, t: TyR, a: Opnd, b: Opnd },
    Load { d: u32, t: TyR, p: Opnd },
    Store { t: TyR, v: Opnd, p: Opnd },
    Gep { d: u32, base: Opnd, off: u64, idx: Vec<(Opnd, u32, u64)> },
    Alloca { d: u32, size: u64, n: Option<Opnd> },
    Call { d: Option<u32>, callee: Callee, args: Vec<Opnd>, rt: TyR, next: Option<u32> },
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch { w: u32, v: Opnd, def: u32, cases: Vec<(u64, u32)> },
    Ret(Option<Opnd>),
    Unreachable,
    ExtractValue { d: u32, a: Opnd, path: Vec<usize> },
    InsertValue { d: u32, a: Opnd, v: Opnd, path: Vec<usize> },
    ExtractElem { d: u32, a: Opnd, i: Opnd },
    InsertElem { d: u32, a: Opnd, v: Opnd, i: Opnd },
    Shuffle { d: u32, a: Opnd, b: Opnd, n: u32, mask: Vec<u32> },
    Copy { d: u32, a: Opnd },
    AtomicRmw { op: String, t: TyR, d: u32, p: Opnd, v: Opnd },
    CmpXchg { t: TyR, d: u32, p: Opnd, c: Opnd, n: Opnd },
    Nop,
    Unsupported(String),
}

pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opnd)>)>,
    pub ins: Vec<I>,
}

pub struct Body {
    pub params: Vec<u32>,
    pub nregs: usize,
    pub blocks: Vec<Block>,
}

pub struct Func {
    pub name: String,
    pub addr: u64,
    pub text: Option<(usize, usize)>, // byte range of "define ... }" in the source
    pub body: std::cell::OnceCell<Body>,
    pub special: std::cell::Cell<u32>, // builtin number, 0 unresolved, 1 none
}

pub struct Global {
    pub name: String,
    pub addr: u64,
    pub size: u64,
    pub konst: bool,
    pub bytes: Vec<u8>,
}

pub struct Module {
    pub src: &'static str,
    pub named: HashMap<String, TyR>,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, usize>,
    pub globals: Vec<Global>,
    pub gaddr: HashMap<String, u64>,
    pub faddr: HashMap<u64, usize>,
}

// ---------------------------------------------------------------- lexer

#[derive(Clone, Debug, PartialEq)]
pub enum T<'a> {
    W(&'a str),  // word, number, keyword
    L(String),   // %name
    G(String),   // @name
    Lab(String), // name:
    S(Vec<u8>),  // c"..." or "..."
    P(char),
    Hash,
    Nl,
    Eof,
}

fn unquote(s: &str) -> String {
    // names such as "foo\22bar"
    String::from_utf8_lossy(&unesc(s)).into_owned()
}

fn unesc(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' && i + 2 < b.len() + 0 {
            if b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
            let h = u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap(), 16);
            if let Ok(h) = h {
                o.push(h);
                i += 3;
                continue;
            }
        }
        o.push(b[i]);
        i += 1;
    }
    o
}

pub struct Lex<'a> {
    s: &'a str,
    i: usize,
    pub tok: T<'a>,
}

fn wordch(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$' || c == b'+'
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Lex<'a> {
        let mut l = Lex { s, i: 0, tok: T::Eof };
        l.next();
        l
    }
    fn name(&mut self) -> String {
        let b = self.s.as_bytes();
        if self.i < b.len() && b[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while b[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            return unquote(&self.s[st..j]);
        }
        let st = self.i;
        while self.i < b.len() && wordch(b[self.i]) {
            self.i += 1;
        }
        self.s[st..self.i].to_string()
    }
    pub fn next(&mut self) -> T<'a> {
        let t = self.lex();
        std::mem::replace(&mut self.tok, t)
    }
    fn lex(&mut self) -> T<'a> {
        let b = self.s.as_bytes();
        loop {
            if self.i >= b.len() {
                return T::Eof;
            }
            match b[self.i] {
                b' ' | b'\t' | b'\r' => self.i += 1,
                b';' => {
                    while self.i < b.len() && b[self.i] != b'\n' {
                        self.i += 1;
                    }
                }
                _ => break,
            }
        }
        let c = b[self.i];
        match c {
            b'\n' => {
                self.i += 1;
                T::Nl
            }
            b'%' => {
                self.i += 1;
                T::L(self.name())
            }
            b'@' => {
                self.i += 1;
                T::G(self.name())
            }
            b'#' => {
                self.i += 1;
                while self.i < b.len() && wordch(b[self.i]) {
                    self.i += 1;
                }
                T::Hash
            }
            b'"' => {
                let st = self.i + 1;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                self.i = j + 1;
                if self.i < b.len() && b[self.i] == b':' {
                    self.i += 1;
                    return T::Lab(unquote(&self.s[st..j]));
                }
                T::S(unesc(&self.s[st..j]))
            }
            b'c' if b.get(self.i + 1) == Some(&b'"') => {
                let st = self.i + 2;
                let mut j = st;
                while b[j] != b'"' {
                    j += 1;
                }
                self.i = j + 1;
                T::S(unesc(&self.s[st..j]))
            }
            c if wordch(c) => {
                let st = self.i;
                while self.i < b.len() && wordch(b[self.i]) {
                    self.i += 1;
                }
                let w = &self.s[st..self.i];
                if self.i < b.len() && b[self.i] == b':' {
                    self.i += 1;
                    return T::Lab(w.to_string());
                }
                T::W(w)
            }
            _ => {
                self.i += 1;
                T::P(c as char)
            }
        }
    }
    pub fn is(&self, c: char) -> bool {
        self.tok == T::P(c)
    }
    pub fn word(&self) -> &'a str {
        if let T::W(w) = self.tok {
            w
        } else {
            ""
        }
    }
    pub fn eat(&mut self, c: char) -> bool {
        if self.is(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn eatw(&mut self, w: &str) -> bool {
        if self.word() == w {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: char) {
        if !self.eat(c) {
            panic!("parse: expected '{}' got {:?} near: {}", c, self.tok, self.ctx());
        }
    }
    fn ctx(&self) -> String {
        let st = self.i.saturating_sub(100);
        let en = (self.i + 60).min(self.s.len());
        String::from_utf8_lossy(&self.s.as_bytes()[st..en]).into_owned()
    }
    pub fn skip_group(&mut self) {
        // at '(' (or '[' / '{'): skip to the matching close
        let mut d = 0;
        loop {
            match self.tok {
                T::P('(') | T::P('[') | T::P('{') => d += 1,
                T::P(')') | T::P(']') | T::P('}') => d -= 1,
                T::Eof => return,
                _ => {}
            }
            self.next();
            if d == 0 {
                return;
            }
        }
    }
    pub fn skip_line(&mut self) {
        let mut d = 0;
        loop {
            match self.tok {
                T::P('(') | T::P('[') | T::P('{') => d += 1,
                T::P(')') | T::P(']') | T::P('}') => d -= 1,
                T::Nl if d <= 0 => {
                    self.next();
                    return;
                }
                T::Eof => return,
                _ => {}
            }
            self.next();
        }
    }
    pub fn skip_nl(&mut self) {
        while self.tok == T::Nl {
            self.next();
        }
    }
}

// ---------------------------------------------------------------- module

pub fn parse_module(src: &'static str) -> Module {
    let mut m = Module {
        src,
        named: HashMap::new(),
        funcs: vec![],
        fidx: HashMap::new(),
        globals: vec![],
        gaddr: HashMap::new(),
        faddr: HashMap::new(),
    };
    // split in top-level entities by lines
    let mut types: Vec<&'static str> = vec![];
    let mut globs: Vec<&'static str> = vec![];
    let mut pos = 0;
    let bytes = src.as_bytes();
    let mut next_obj: u64 = 1;
    while pos < bytes.len() {
        let eol = match src[pos..].find('\n') {
            Some(k) => pos + k,
            None => bytes.len(),
        };
        let line = &src[pos..eol];
        if line.starts_with("define") || line.starts_with("declare") {
            let at = line.find('@').unwrap();
            let mut lx = Lex::new(&line[at..]);
            let name = match lx.next() {
                T::G(n) => n,
                t => panic!("fn name {:?}", t),
            };
            let mut text = None;
            let mut end = eol;
            if line.starts_with("define") {
                let k = src[pos..].find("\n}\n").map(|k| pos + k + 2).unwrap_or(bytes.len());
                text = Some((pos, k));
                end = k;
            }
            let addr = next_obj << 32;
            next_obj += 1;
            let idx = m.funcs.len();
            m.fidx.insert(name.clone(), idx);
            m.gaddr.insert(name.clone(), addr);
            m.faddr.insert(addr, idx);
            m.funcs.push(Func {
                name,
                addr,
                text,
                body: Default::default(),
                special: std::cell::Cell::new(0),
            });
            pos = end + 1;
            continue;
        } else if line.starts_with('@') {
            globs.push(line);
        } else if line.starts_with('%') {
            types.push(line);
        }
        pos = eol + 1;
    }
    // named types, resolved repeatedly (order independent: lazily via text map)
    let mut texts: HashMap<String, &'static str> = HashMap::new();
    for t in &types {
        let mut lx = Lex::new(t);
        if let T::L(n) = lx.next() {
            let k = t.find(" = type ").unwrap();
            texts.insert(n, &t[k + 8..]);
        }
    }
    for _ in 0..20 {
        let mut missing = false;
        let names: Vec<String> = texts.keys().cloned().collect();
        for n in names {
            if m.named.contains_key(&n) {
                continue;
            }
            let mut lx = Lex::new(texts[&n]);
            match try_ty(&m.named, &mut lx) {
                Some(t) => {
                    m.named.insert(n, t);
                }
                None => missing = true,
            }
        }
        if !missing {
            break;
        }
    }
    // globals: addresses first
    let mut pend: Vec<(usize, &'static str, TyR)> = vec![];
    let mut aliases = vec![];
    for g in &globs {
        let mut lx = Lex::new(g);
        let name = match lx.next() {
            T::G(n) => n,
            _ => continue,
        };
        lx.expect('=');
        let mut konst = false;
        let mut is_alias = false;
        let mut external = false;
        loop {
            match &lx.tok {
                T::W("constant") => {
                    konst = true;
                    lx.next();
                    break;
                }
                T::W("global") => {
                    lx.next();
                    break;
                }
                T::W("alias") | T::W("ifunc") => {
                    is_alias = true;
                    lx.next();
                    break;
                }
                T::W("external") | T::W("extern_weak") => {
                    external = true;
                    lx.next();
                }
                T::P('(') => lx.skip_group(),
                T::Eof => break,
                _ => {
                    lx.next();
                }
            }
        }
        if is_alias {
            aliases.push((name, *g));
            continue;
        }
        let ty = parse_ty(&m.named, &mut lx);
        let addr = next_obj << 32;
        next_obj += 1;
        m.gaddr.insert(name.clone(), addr);
        let size = ty.size();
        let gi = m.globals.len();
        m.globals.push(Global { name, addr, size, konst, bytes: vec![0; size as usize] });
        if !external {
            let rest = &g[..];
            let off = lx.i; // position after current token; re-lex from token start below
            let _ = off;
            pend.push((gi, rest, ty));
        }
    }
    for (name, g) in aliases {
        // @a = ... alias T, ptr @b
        let k = g.rfind('@').unwrap();
        let mut lx = Lex::new(&g[k..]);
        if let T::G(t) = lx.next() {
            if let Some(a) = m.gaddr.get(&t).cloned() {
                m.gaddr.insert(name.clone(), a);
                if let Some(f) = m.fidx.get(&t).cloned() {
                    m.fidx.insert(name, f);
                }
            }
        }
    }
    for (gi, g, ty) in pend {
        let mut lx = Lex::new(g);
        // reposition after the type
        lx.next();
        lx.next();
        loop {
            match &lx.tok {
                T::W("constant") | T::W("global") => {
                    lx.next();
                    break;
                }
                T::P('(') => lx.skip_group(),
                T::Eof => break,
                _ => {
                    lx.next();
                }
            }
        }
        let _ = parse_ty(&m.named, &mut lx);
        let v = {
            let mut p = P { m: &m, lx: &mut lx, regs: None };
            p.konst(&ty)
        };
        let mut buf = std::mem::take(&mut m.globals[gi].bytes);
        write_const(&ty, &v, &mut buf, 0);
        m.globals[gi].bytes = buf;
    }
    m
}

fn write_const(t: &Ty, v: &Val, buf: &mut [u8], off: usize) {
    match t {
        Ty::Array(_, e) => {
            if let Val::A(vs) = v {
                let sz = e.size() as usize;
                for (i, x) in vs.iter().enumerate() {
                    write_const(e, x, buf, off + i * sz);
                }
            }
        }
        Ty::Vector(_, e) => {
            if let Val::A(vs) = v {
                let sz = (e.bits() / 8) as usize;
                for (i, x) in vs.iter().enumerate() {
                    write_const(e, x, buf, off + i * sz);
                }
            }
        }
        Ty::Struct(f, _) => {
            let (offs, _) = t.struct_layout();
            if let Val::A(vs) = v {
                for (i, x) in vs.iter().enumerate() {
                    write_const(&f[i], x, buf, off + offs[i] as usize);
                }
            }
        }
        _ => {
            let n = t.size() as usize;
            let k: u128 = match v {
                Val::C(c) => *c as u128,
                Val::E(e) => expr::cx().kval(*e).expect("const"),
                _ => panic!("write_const"),
            };
            buf[off..off + n].copy_from_slice(&k.to_le_bytes()[..n]);
        }
    }
}

pub fn parse_ty(named: &HashMap<String, TyR>, lx: &mut Lex) -> TyR {
    match try_ty(named, lx) {
        Some(t) => t,
        None => panic!("type: {:?} near {}", lx.tok, lx.ctx()),
    }
}

fn try_ty(named: &HashMap<String, TyR>, lx: &mut Lex) -> Option<TyR> {
    let t = match lx.next() {
        T::W("void") => Ty::Void,
        T::W("ptr") => Ty::Ptr,
        T::W("float") => Ty::Float(32),
        T::W("half") => Ty::Float(16),
        T::W("double") => Ty::Float(64),
        T::W("fp128") => Ty::Float(128),
        T::W("x86_fp80") => Ty::Float(128),
        T::W("metadata") => Ty::Meta,
        T::W("label") => Ty::Label,
        T::W("token") => Ty::Meta,
        T::W("opaque") => Ty::Struct(vec![], false),
        T::W(w) if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => {
            Ty::Int(w[1..].parse().unwrap())
        }
        T::L(n) => return named.get(&n).cloned(),
        T::P('[') => {
            let n: u64 = lx.word().parse().ok()?;
            lx.next();
            if !lx.eatw("x") {
                return None;
            }
            let e = try_ty(named, lx)?;
            lx.expect(']');
            Ty::Array(n, e)
        }
        T::P('{') => {
            let mut f = vec![];
            while !lx.eat('}') {
                f.push(try_ty(named, lx)?);
                lx.eat(',');
            }
            Ty::Struct(f, false)
        }
        T::P('<') => {
            if lx.eat('{') {
                let mut f = vec![];
                while !lx.eat('}') {
                    f.push(try_ty(named, lx)?);
                    lx.eat(',');
                }
                lx.expect('>');
                Ty::Struct(f, true)
            } else {
                let n: u64 = lx.word().parse().ok()?;
                lx.next();
                if !lx.eatw("x") {
                    return None;
                }
                let e = try_ty(named, lx)?;
                lx.expect('>');
                Ty::Vector(n, e)
            }
        }
        _ => return None,
    };
    // function pointer style suffix such as "void ()" is handled by callers
    if lx.word() == "addrspace" {
        lx.next();
        lx.skip_group();
    }
    Some(Rc::new(t))
}

struct Regs {
    map: HashMap<String, u32>,
    n: u32,
    labels: HashMap<String, u32>,
    order: Vec<u32>,
}

struct P<'a, 'b> {
    m: &'a Module,
    lx: &'a mut Lex<'b>,
    regs: Option<&'a mut Regs>,
}

impl<'a, 'b> P<'a, 'b> {
    fn ty(&mut self) -> TyR {
        parse_ty(&self.m.named, self.lx)
    }
    fn reg(&mut self, n: &str) -> u32 {
        let r = self.regs.as_mut().unwrap();
        if let Some(k) = r.map.get(n) {
            return *k;
        }
        let k = r.n;
        r.n += 1;
        r.map.insert(n.to_string(), k);
        k
    }
    fn label(&mut self, n: &str) -> u32 {
        let r = self.regs.as_mut().unwrap();
        let k = r.labels.len() as u32;
        *r.labels.entry(n.to_string()).or_insert(k)
    }
    fn label_ref(&mut self) -> u32 {
        if !self.lx.eatw("label") {
            panic!("label expected near {}", self.lx.ctx());
        }
        match self.lx.next() {
            T::L(n) => self.label(&n),
            t => panic!("label {:?}", t),
        }
    }
    fn opnd(&mut self, ty: &TyR) -> Opnd {
        if let T::L(_) = self.lx.tok {
            if let T::L(n) = self.lx.next() {
                return Opnd::R(self.reg(&n));
            }
        }
        Opnd::K(self.konst(ty))
    }
    fn ty_opnd(&mut self) -> (TyR, Opnd) {
        let t = self.ty();
        let o = self.opnd(&t);
        (t, o)
    }
    fn skip_attrs(&mut self) {
        // parameter / return attributes
        loop {
            match &self.lx.tok {
                T::W("align") => {
                    self.lx.next();
                    if self.lx.is('(') {
                        self.lx.skip_group()
                    } else {
                        self.lx.next();
                    }
                }
                T::W(
                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none"
                    | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "sub"
                    | "add" | "xor" | "blockaddress" | "ptrtoaddr" | "splat" | "void" | "ptr"
                    | "metadata" | "half" | "float" | "double" | "label",
                ) => return,
                T::W(w)
                    if w.as_bytes()[0].is_ascii_digit()
                        || w.starts_with('-')
                        || (w.starts_with('i') && w[1..].parse::<u32>().is_ok()) =>
                {
                    return
                }
                T::W(_) => {
                    self.lx.next();
                    if self.lx.is('(') {
                        self.lx.skip_group();
                    }
                }
                T::S(_) => {
                    self.lx.next();
                    if self.lx.eat('=') {
                        self.lx.next();
                    }
                }
                T::Hash => {
                    self.lx.next();
                }
                _ => return,
            }
        }
    }
    fn kint(&mut self, ty: &TyR, neg_or_num: &str) -> Val {
        let w = ty.scal().0;
        let v: u128 = if neg_or_num.starts_with('-') {
            neg_or_num.parse::<i128>().expect("int") as u128
        } else if let Some(h) = neg_or_num.strip_prefix("0x") {
            // floating point hex
            u64::from_str_radix(h, 16).unwrap_or(0) as u128
        } else {
            match neg_or_num.parse::<u128>() {
                Ok(v) => v,
                Err(_) => {
                    // decimal float
                    let f: f64 = neg_or_num.parse().unwrap_or(0.0);
                    if w == 32 { (f as f32).to_bits() as u128 } else { f.to_bits() as u128 }
                }
            }
        };
        expr::kval(w, v)
    }
    pub fn konst(&mut self, ty: &TyR) -> Val {
        match self.lx.next() {
            T::W("true") => Val::C(1),
            T::W("false") => Val::C(0),
            T::W("null") | T::W("none") => Val::C(0),
            T::W("undef") | T::W("poison") | T::W("zeroinitializer") => ty.zero(),
            T::W("splat") => {
                self.lx.expect('(');
                let t = self.ty();
                let v = self.konst(&t);
                self.lx.expect(')');
                if let Ty::Vector(n, _) = &**ty {
                    Val::A(Rc::new(vec![v; *n as usize]))
                } else {
                    panic!("splat")
                }
            }
            T::W("getelementptr") => {
                while !self.lx.is('(') {
                    // inbounds nuw inrange(..)
                    if self.lx.word() == "inrange" {
                        self.lx.next();
                        self.lx.skip_group();
                    } else {
                        self.lx.next();
                    }
                }
                self.lx.expect('(');
                let et = self.ty();
                self.lx.expect(',');
                let (_, base) = self.ty_konst();
                let mut addr = self.cval(&base);
                let mut cur = et;
                let mut first = true;
                while self.lx.eat(',') {
                    let (it, iv) = self.ty_konst();
                    let iw = it.scal().0;
                    let i = sext(self.cval(&iv), iw);
                    if first {
                        addr = addr.wrapping_add(i.wrapping_mul(cur.size()));
                        first = false;
                    } else {
                        let (o, nt) = gep_step(&cur, i);
                        addr = addr.wrapping_add(o);
                        cur = nt;
                    }
                }
                self.lx.expect(')');
                Val::C(addr)
            }
            T::W("ptrtoint") | T::W("inttoptr") | T::W("bitcast") | T::W("trunc")
            | T::W("ptrtoaddr") | T::W("addrspacecast") => {
                self.lx.expect('(');
                let (_, v) = self.ty_konst();
                self.lx.eatw("to");
                let t = self.ty();
                self.lx.expect(')');
                let w = t.scal().0;
                expr::kval(w, self.cval(&v) as u128)
            }
            T::W(op @ ("add" | "sub" | "xor" | "mul" | "and" | "or")) => {
                while !self.lx.is('(') {
                    self.lx.next();
                }
                self.lx.expect('(');
                let (t, a) = self.ty_konst();
                self.lx.expect(',');
                let (_, b) = self.ty_konst();
                self.lx.expect(')');
                let (a, b) = (self.cval(&a), self.cval(&b));
                let r = match op {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "xor" => a ^ b,
                    "mul" => a.wrapping_mul(b),
                    "and" => a & b,
                    _ => a | b,
                };
                expr::kval(t.scal().0, r as u128)
            }
            T::W(w) => self.kint(ty, w),
            T::G(n) => match self.m.gaddr.get(&n) {
                Some(a) => Val::C(*a),
                None => panic!("unknown global {}", n),
            },
            T::S(s) => Val::A(Rc::new(s.into_iter().map(|b| Val::C(b as u64)).collect())),
            T::P(open @ ('[' | '{')) => {
                let close = if open == '[' { ']' } else { '}' };
                let mut vs = vec![];
                while !self.lx.eat(close) {
                    let (_, v) = self.ty_konst();
                    vs.push(v);
                    self.lx.eat(',');
                }
                Val::A(Rc::new(vs))
            }
            T::P('<') => {
                let packed = self.lx.eat('{');
                let mut vs = vec![];
                loop {
                    if packed && self.lx.eat('}') {
                        self.lx.expect('>');
                        break;
                    }
                    if !packed && self.lx.eat('>') {
                        break;
                    }
                    let (_, v) = self.ty_konst();
                    vs.push(v);
                    self.lx.eat(',');
                }
                Val::A(Rc::new(vs))
            }
            t => panic!("const {:?} of {:?} near {}", t, ty, self.lx.ctx()),
        }
    }
    fn ty_konst(&mut self) -> (TyR, Val) {
        let t = self.ty();
        let v = self.konst(&t);
        (t, v)
    }
    fn cval(&self, v: &Val) -> u64 {
        match v {
            Val::C(c) => *c,
            Val::E(e) => expr::cx().kval(*e).unwrap() as u64,
            _ => panic!("cval"),
        }
    }
}

pub fn sext(v: u64, w: u32) -> u64 {
    if w >= 64 {
        v
    } else {
        let s = 64 - w;
        (((v << s) as i64) >> s) as u64
    }
}

fn gep_step(cur: &TyR, i: u64) -> (u64, TyR) {
    match &**cur {
        Ty::Array(_, e) => (i.wrapping_mul(e.size()), e.clone()),
        Ty::Vector(_, e) => (i.wrapping_mul(e.bits() / 8), e.clone()),
        Ty::Struct(f, _) => {
            let (offs, _) = cur.struct_layout();
            (offs[i as usize], f[i as usize].clone())
        }
        t => panic!("gep into {:?}", t),
    }
}

impl Module {
    pub fn body(&self, fi: usize) -> &Body {
        self.funcs[fi].body.get_or_init(|| self.parse_body(fi))
    }

    fn parse_body(&self, fi: usize) -> Body {
        let f = &self.funcs[fi];
        let (a, b) = f.text.unwrap();
        let text = &self.src[a..b];
        let at = text.find('@').unwrap();
        let mut lx = Lex::new(&text[at..]);
        lx.next(); // name
        let mut regs =
            Regs { map: HashMap::new(), n: 0, labels: HashMap::new(), order: vec![] };
        let mut params = vec![];
        {
            let mut p = P { m: self, lx: &mut lx, regs: Some(&mut regs) };
            p.lx.expect('(');
            let mut unnamed = 0;
            while !p.lx.eat(')') {
                if p.lx.eatw("...") {
                    continue;
                }
                let _t = p.ty();
                p.skip_attrs();
                if let T::L(_) = p.lx.tok {
                    if let T::L(n) = p.lx.next() {
                        params.push(p.reg(&n));
                    }
                } else {
                    let n = format!("{}", unnamed);
                    params.push(p.reg(&n));
                }
                unnamed += 1;
                p.lx.eat(',');
            }
        }
        while !lx.is('{') {
            if lx.is('(') {
                lx.skip_group();
            } else {
                lx.next();
            }
        }
        lx.next();
        lx.skip_nl();
        let mut blocks: HashMap<u32, Block> = HashMap::new();
        let mut cur: Option<u32> = None;
        loop {
            if lx.is('}') || lx.tok == T::Eof {
                break;
            }
            if let T::Lab(_) = lx.tok {
                if let T::Lab(n) = lx.next() {
                    let mut p = P { m: self, lx: &mut lx, regs: Some(&mut regs) };
                    let l = p.label(&n);
                    blocks.insert(l, Block { phis: vec![], ins: vec![] });
                    regs.order.push(l);
                    cur = Some(l);
                }
                lx.skip_line();
                lx.skip_nl();
                continue;
            }
            if cur.is_none() {
                // unnamed entry block: its label is the next unnamed number
                let n = params.len().to_string();
                let mut p = P { m: self, lx: &mut lx, regs: Some(&mut regs) };
                let l = p.label(&n);
                blocks.insert(l, Block { phis: vec![], ins: vec![] });
                regs.order.push(l);
                cur = Some(l);
            }
            let c = cur.unwrap();
            let mut p = P { m: self, lx: &mut lx, regs: Some(&mut regs) };
            let mut dst = None;
            if let T::L(_) = p.lx.tok {
                if let T::L(n) = p.lx.next() {
                    dst = Some(p.reg(&n));
                }
                p.lx.expect('=');
            }
            if p.lx.word() == "phi" {
                p.lx.next();
                let t = p.ty();
                let mut inc = vec![];
                loop {
                    p.lx.expect('[');
                    let o = p.opnd(&t);
                    p.lx.expect(',');
                    let l = match p.lx.next() {
                        T::L(n) => p.label(&n),
                        t => panic!("phi {:?}", t),
                    };
                    p.lx.expect(']');
                    inc.push((l, o));
                    if !p.lx.eat(',') {
                        break;
                    }
                    if !p.lx.is('[') {
                        break;
                    }
                }
                p.lx.skip_line();
                p.lx.skip_nl();
                blocks.get_mut(&c).unwrap().phis.push((dst.unwrap(), inc));
                continue;
            }
            let ins = p.instr(dst);
            p.lx.skip_nl();
            blocks.get_mut(&c).unwrap().ins.push(ins);
        }
        // renumber labels so that blocks are dense; entry block first
        let n = regs.labels.len();
        let mut out: Vec<Option<Block>> = (0..n).map(|_| None).collect();
        let entry = regs.order[0];
        for (l, b) in blocks {
            out[l as usize] = Some(b);
        }
        let mut bs: Vec<Block> = out
            .into_iter()
            .map(|b| b.unwrap_or(Block { phis: vec![], ins: vec![I::Unreachable] }))
            .collect();
        if entry != 0 {
            // swap labels 0 and entry everywhere
            bs.swap(0, entry as usize);
            let sw = |l: &mut u32| {
                if *l == 0 {
                    *l = entry
                } else if *l == entry {
                    *l = 0
                }
            };
            for b in bs.iter_mut() {
                for (_, inc) in b.phis.iter_mut() {
                    for (l, _) in inc.iter_mut() {
                        sw(l)
                    }
                }
                for i in b.ins.iter_mut() {
                    match i {
                        I::Br(l) => sw(l),
                        I::CondBr(_, a, b) => {
                            sw(a);
                            sw(b)
                        }
                        I::Switch { def, cases, .. } => {
                            sw(def);
                            for (_, l) in cases.iter_mut() {
                                sw(l)
                            }
                        }
                        I::Call { next: Some(l), .. } => sw(l),
                        _ => {}
                    }
                }
            }
        }
        Body { params, nregs: regs.n as usize, blocks: bs }
    }
}

impl<'a, 'b> P<'a, 'b> {
    fn instr(&mut self, dst: Option<u32>) -> I {
        let w = match self.lx.next() {
            T::W(w) => w,
            t => panic!("instr {:?} near {}", t, self.lx.ctx()),
        };
        let d = dst.unwrap_or(u32::MAX);
        let r = match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr"
            | "ashr" | "and" | "or" | "xor" => {
                while matches!(self.lx.word(), "nuw" | "nsw" | "exact" | "disjoint") {
                    self.lx.next();
                }
                let op = match w {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    _ => BinOp::Xor,
                };
                let t = self.ty();
                let a = self.opnd(&t);
                self.lx.expect(',');
                let b = self.opnd(&t);
                let (w, l) = t.scal();
                I::Bin { op, w, l, d, a, b }
            }
            "icmp" => {
                self.lx.eatw("samesign");
                let p = match self.lx.next() {
                    T::W("eq") => Pred::Eq,
                    T::W("ne") => Pred::Ne,
                    T::W("ugt") => Pred::Ugt,
                    T::W("uge") => Pred::Uge,
                    T::W("ult") => Pred::Ult,
                    T::W("ule") => Pred::Ule,
                    T::W("sgt") => Pred::Sgt,
                    T::W("sge") => Pred::Sge,
                    T::W("slt") => Pred::Slt,
                    T::W("sle") => Pred::Sle,
                    t => panic!("icmp {:?}", t),
                };
                let t = self.ty();
                let a = self.opnd(&t);
                self.lx.expect(',');
                let b = self.opnd(&t);
                let (w, l) = t.scal();
                I::Icmp { p, w, l, d, a, b }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                while matches!(self.lx.word(), "nuw" | "nsw" | "nneg") {
                    self.lx.next();
                }
                let (ft, a) = self.ty_opnd();
                self.lx.eatw("to");
                let tt = self.ty();
                let (fw, l) = ft.scal();
                let (tw, _) = tt.scal();
                let op = match w {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    _ => {
                        if fw > tw {
                            CastOp::Trunc
                        } else if fw < tw {
                            CastOp::ZExt
                        } else {
                            CastOp::Same
                        }
                    }
                };
                I::Cast { op, fw, tw, l, d, a }
            }
            "bitcast" => {
                let (f, a) = self.ty_opnd();
                self.lx.eatw("to");
                let t = self.ty();
                I::BitCast { f, t, d, a }
            }
            "select" => {
                let (ct, c) = self.ty_opnd();
                self.lx.expect(',');
                let (t, a) = self.ty_opnd();
                self.lx.expect(',');
                let (_, b) = self.ty_opnd();
                I::Select { d, c, cl: ct.scal().1, t, a, b }
            }
            "load" => {
                self.lx.eatw("atomic");
                self.lx.eatw("volatile");
                let t = self.ty();
                self.lx.expect(',');
                let (_, p) = self.ty_opnd();
                I::Load { d, t, p }
            }
            "store" => {
                self.lx.eatw("atomic");
                self.lx.eatw("volatile");
                let (t, v) = self.ty_opnd();
                self.lx.expect(',');
                let (_, p) = self.ty_opnd();
                I::Store { t, v, p }
            }
            "getelementptr" => {
                while matches!(self.lx.word(), "inbounds" | "nuw" | "nusw" | "inrange") {
                    self.lx.next();
                    if self.lx.is('(') {
                        self.lx.skip_group();
                    }
                }
                let et = self.ty();
                self.lx.expect(',');
                let (_, base) = self.ty_opnd();
                let mut off = 0u64;
                let mut idx = vec![];
                let mut cur = et;
                let mut first = true;
                while self.lx.is(',') {
                    self.lx.next();
                    if self.lx.is('!') {
                        break;
                    }
                    let (it, iv) = self.ty_opnd();
                    let iw = it.scal().0;
                    match (&iv, first) {
                        (Opnd::K(v), true) => {
                            let i = sext(self.cval(v), iw);
                            off = off.wrapping_add(i.wrapping_mul(cur.size()));
                        }
                        (Opnd::K(v), false) => {
                            let i = sext(self.cval(v), iw);
                            let (o, nt) = gep_step(&cur, i);
                            off = off.wrapping_add(o);
                            cur = nt;
                        }
                        (_, true) => idx.push((iv, iw, cur.size())),
                        (_, false) => {
                            let (sz, nt) = match &*cur {
                                Ty::Array(_, e) => (e.size(), e.clone()),
                                Ty::Vector(_, e) => (e.bits() / 8, e.clone()),
                                t => panic!("gep idx into {:?}", t),
                            };
                            idx.push((iv, iw, sz));
                            cur = nt;
                        }
                    }
                    first = false;
                }
                I::Gep { d, base, off, idx }
            }
            "alloca" => {
                self.lx.eatw("inalloca");
                let t = self.ty();
                let mut n = None;
                if self.lx.eat(',') && self.lx.word() != "align" && !self.lx.is('!') {
                    let (_, o) = self.ty_opnd();
                    n = Some(o);
                }
                I::Alloca { d, size: t.size(), n }
            }
            "tail" | "musttail" | "notail" => {
                self.lx.next();
                return self.call(dst, false);
            }
            "call" => return self.call(dst, false),
            "invoke" => return self.call(dst, true),
            "br" => {
                if self.lx.word() == "label" {
                    I::Br(self.label_ref())
                } else {
                    let (_, c) = self.ty_opnd();
                    self.lx.expect(',');
                    let a = self.label_ref();
                    self.lx.expect(',');
                    let b = self.label_ref();
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.ty_opnd();
                self.lx.expect(',');
                let def = self.label_ref();
                self.lx.expect('[');
                let mut cases = vec![];
                loop {
                    self.lx.skip_nl();
                    if self.lx.eat(']') {
                        break;
                    }
                    let (_, k) = self.ty_konst();
                    self.lx.expect(',');
                    let l = self.label_ref();
                    let k = match k {
                        Val::C(c) => c,
                        Val::E(e) => expr::cx().kval(e).unwrap() as u64,
                        _ => panic!(),
                    };
                    cases.push((k, l));
                }
                I::Switch { w: t.scal().0, v, def, cases }
            }
            "ret" => {
                if self.lx.eatw("void") {
                    I::Ret(None)
                } else {
                    let (_, v) = self.ty_opnd();
                    I::Ret(Some(v))
                }
            }
            "unreachable" => I::Unreachable,
            "extractvalue" => {
                let (_, a) = self.ty_opnd();
                let path = self.path();
                I::ExtractValue { d, a, path }
            }
            "insertvalue" => {
                let (_, a) = self.ty_opnd();
                self.lx.expect(',');
                let (_, v) = self.ty_opnd();
                let path = self.path();
                I::InsertValue { d, a, v, path }
            }
            "extractelement" => {
                let (_, a) = self.ty_opnd();
                self.lx.expect(',');
                let (_, i) = self.ty_opnd();
                I::ExtractElem { d, a, i }
            }
            "insertelement" => {
                let (_, a) = self.ty_opnd();
                self.lx.expect(',');
                let (_, v) = self.ty_opnd();
                self.lx.expect(',');
                let (_, i) = self.ty_opnd();
                I::InsertElem { d, a, v, i }
            }
            "shufflevector" => {
                let (t, a) = self.ty_opnd();
                self.lx.expect(',');
                let (_, b) = self.ty_opnd();
                self.lx.expect(',');
                let (_, mk) = self.ty_konst();
                let n = t.scal().1;
                let mask = match mk {
                    Val::A(v) => v
                        .iter()
                        .map(|x| if let Val::C(c) = x { *c as u32 } else { 0 })
                        .collect(),
                    _ => vec![],
                };
                I::Shuffle { d, a, b, n, mask }
            }
            "freeze" => {
                let (_, a) = self.ty_opnd();
                I::Copy { d, a }
            }
            "fence" => I::Nop,
            "atomicrmw" => {
                self.lx.eatw("volatile");
                let op = self.lx.word().to_string();
                self.lx.next();
                let (_, p) = self.ty_opnd();
                self.lx.expect(',');
                let (t, v) = self.ty_opnd();
                I::AtomicRmw { op, t, d, p, v }
            }
            "cmpxchg" => {
                self.lx.eatw("weak");
                self.lx.eatw("volatile");
                let (_, p) = self.ty_opnd();
                self.lx.expect(',');
                let (t, c) = self.ty_opnd();
                self.lx.expect(',');
                let (_, n) = self.ty_opnd();
                I::CmpXchg { t, d, p, c, n }
            }
            "landingpad" => {
                self.lx.skip_line();
                loop {
                    self.lx.skip_nl();
                    if matches!(self.lx.word(), "cleanup" | "catch" | "filter") {
                        self.lx.skip_line();
                    } else {
                        break;
                    }
                }
                return I::Unsupported("landingpad".into());
            }
            "resume" => I::Unsupported("resume".into()),
            other => I::Unsupported(other.to_string()),
        };
        self.lx.skip_line();
        r
    }
    fn path(&mut self) -> Vec<usize> {
        let mut v = vec![];
        while self.lx.is(',') {
            self.lx.next();
            if let Ok(n) = self.lx.word().parse() {
                v.push(n);
                self.lx.next();
            } else {
                break;
            }
        }
        v
    }
    fn call(&mut self, dst: Option<u32>, invoke: bool) -> I {
        // calling convention and return attributes
        loop {
            match self.lx.word() {
                "fastcc" | "coldcc" | "ccc" | "tailcc" | "preserve_mostcc" | "preserve_allcc"
                | "nnan" | "fast" | "ninf" | "nsz" => {
                    self.lx.next();
                }
                _ => break,
            }
        }
        self.skip_attrs();
        let rt = self.ty();
        if self.lx.is('(') {
            self.lx.skip_group();
        }
        if let T::W("asm") = self.lx.tok {
            let txt = self.lx.ctx();
            self.lx.skip_line();
            return I::Unsupported(format!("inline asm {}", txt));
        }
        let callee = match self.lx.tok.clone() {
            T::G(n) => {
                self.lx.next();
                match self.m.fidx.get(&n) {
                    Some(i) => Callee::Direct(*i),
                    None => panic!("unknown function {}", n),
                }
            }
            T::L(n) => {
                self.lx.next();
                let r = self.reg(&n);
                Callee::Indirect(Opnd::R(r))
            }
            _ => {
                let t = Rc::new(Ty::Ptr);
                Callee::Indirect(Opnd::K(self.konst(&t)))
            }
        };
        self.lx.expect('(');
        let mut args = vec![];
        while !self.lx.eat(')') {
            let t = self.ty();
            if *t == Ty::Meta {
                // skip to , or )
                let mut depth = 0;
                loop {
                    match self.lx.tok {
                        T::P('(') | T::P('{') => depth += 1,
                        T::P(')') if depth == 0 => break,
                        T::P(')') | T::P('}') => depth -= 1,
                        T::P(',') if depth == 0 => break,
                        _ => {}
                    }
                    self.lx.next();
                }
                args.push(Opnd::K(Val::C(0)));
            } else {
                self.skip_attrs();
                let o = self.opnd(&t);
                args.push(o);
            }
            self.lx.eat(',');
        }
        let mut next = None;
        if invoke {
            // skip attributes up to "to label"
            loop {
                if self.lx.word() == "to" {
                    self.lx.next();
                    break;
                }
                if self.lx.is('[') || self.lx.is('(') {
                    self.lx.skip_group();
                } else {
                    self.lx.next();
                }
            }
            next = Some(self.label_ref());
            self.lx.eatw("unwind");
            let _ = self.label_ref();
        }
        self.lx.skip_line();
        I::Call { d: dst, callee, args, rt, next }
    }
}
