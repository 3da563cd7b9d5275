//! Path-forking symbolic executor over the parsed IR.
use crate::expr::{cx, mask, Val, E};
use crate::ir::*;
use crate::solver::{Res, Solver};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Stack,
    Heap,
    Global,
    Const,
    Func,
}

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub kind: Kind,
    pub data: Vec<u8>,
    pub sym: Vec<E>, // empty when every byte is concrete; otherwise one entry per byte, 0 = concrete
    pub lim: E,      // symbolic size (0 = none); `size` is then an upper bound and `data` grows on demand
}

const CH: usize = 64;

#[derive(Clone)]
pub struct Mem {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    next: u64,
}

impl Mem {
    fn new() -> Mem {
        Mem { chunks: vec![], next: 0 }
    }
    fn put(&mut self, id: u64, o: Obj) {
        let c = id as usize / CH;
        while self.chunks.len() <= c {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        Rc::make_mut(&mut self.chunks[c])[id as usize % CH] = Some(Rc::new(o));
        if id >= self.next {
            self.next = id + 1;
        }
    }
    fn alloc(&mut self, size: u64, kind: Kind) -> u64 {
        let id = self.next;
        self.put(id, Obj { size, kind, data: vec![0; size as usize], sym: vec![], lim: 0 });
        id << 32
    }
    fn get(&self, id: u64) -> Option<&Rc<Obj>> {
        self.chunks.get(id as usize / CH).and_then(|c| c[id as usize % CH].as_ref())
    }
    fn get_mut(&mut self, id: u64) -> &mut Obj {
        let c = Rc::make_mut(&mut self.chunks[id as usize / CH]);
        Rc::make_mut(c[id as usize % CH].as_mut().unwrap())
    }
    fn free(&mut self, id: u64) {
        let c = Rc::make_mut(&mut self.chunks[id as usize / CH]);
        c[id as usize % CH] = None;
    }
}

#[derive(Clone)]
pub struct Frame {
    func: usize,
    block: u32,
    ip: usize,
    regs: Vec<Val>,
    allocas: Vec<u64>,
    ret: Option<u32>,
    next: Option<u32>,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Rc<Frame>>,
    mem: Mem,
    pc: Vec<E>,
    model: Rc<Vec<u64>>,
    known: HashMap<u32, (u64, u64)>,
    vars: Vec<u32>,
    obs: Vec<(E, u64)>, // (expr, 0) or (0, const)
    steps: u64,
    forks: u64,
    maxd: usize,
    /// variables that are not inputs: hash values
    hidden: Vec<u32>,
    /// bytes fed to the hasher at an address
    fed: BTreeMap<u64, Vec<E>>,
    /// (state of the hasher, bytes, hash value)
    hashes: Vec<(Vec<u8>, Vec<E>, E)>,
    /// inside `fresh`: its maps hash to a constant, so that later ones can differ from them
    fresh: bool,
}

#[derive(Clone, Debug)]
pub enum Stop {
    Kill,
    Done,
    Fail(&'static str, String),
    Unsupported(String),
}

type R<X> = Result<X, Stop>;

#[derive(Clone)]
pub struct Viol {
    pub label: u32,
    pub code: u32,
    pub kind: String,
    pub site: String,
    pub inputs: Vec<u64>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub killed: u64,
    pub steps: u64,
    pub branches: u64,
    pub forks: u64,
    pub asserts: u64,
    pub asserts_proved: u64,
    pub asserts_trivial: u64,
    pub unexplored: u64,
    pub unsupported: BTreeMap<String, u64>,
    pub fork_sites: BTreeMap<String, u64>,
    pub funcs: HashSet<usize>,
    pub covers: HashSet<u32>,
    pub viols: Vec<Viol>,
    pub samples: Vec<(Vec<u64>, Vec<u64>)>,
    pub seen_paths: u64,
    pub max_depth: usize,
    pub max_steps: u64,
    pub nviol: u64,
    pub patched: u64,
}

pub struct Shared {
    pub active: std::sync::atomic::AtomicU32,
    pub viols: std::sync::atomic::AtomicU32,
    pub stop: std::sync::atomic::AtomicU32,
}

pub struct Cfg {
    pub label: u32,
    pub params: Vec<u64>,
    pub workers: u32,
    pub deadline: Instant,
    pub max_steps: u64,
    pub max_depth: usize,
    pub max_viols: u32,
    pub nsamples: usize,
    pub out: String,
    pub seed: u64,
    pub rlimit: u32,
    pub trace: bool,
    pub profile: bool,
    /// hash functions: values of so many bits, for so many keys on a path (0: one constant)
    pub hash: (u32, usize),
}

pub struct Exec {
    pub m: &'static Module,
    pub st: State,
    pub pending: Vec<State>,
    pub s: Solver,
    pub stats: Stats,
    pub cfg: Cfg,
    pub sh: &'static Shared,
    pub root: bool,
    rng: u64,
}

#[derive(Clone, Copy, PartialEq, Debug)]
#[repr(u32)]
enum Sp {
    Unres = 0,
    None,
    Nop,
    Ret0,
    Panic,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Bcmp,
    Memcmp,
    Strlen,
    Memcpy,
    Memset,
    SymVar,
    SymHash,
    SymHashWrite,
    SymAssume,
    SymAssert,
    SymObs,
    SymCover,
    SymConc,
    SymIs,
    SymParam,
    SymDepth,
    RandKeys,
    GetRandom,
    UMin,
    UMax,
    SMin,
    SMax,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    UAddSat,
    USubSat,
    Fshl,
    Fshr,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    Bitrev,
    Abs,
    Ucmp,
    Scmp,
    Expect,
    IsConst,
    Trap,
    Ident0,
    LoadRel,
    RedAdd,
    RedOr,
    RedAnd,
    RedXor,
    RedUMax,
    RedUMin,
    Movmsk,
    ObjSize,
    Zero,
    WriteAll,
    SymReset,
    Abort,
    Unsup,
}

fn special(name: &str, has_body: bool) -> Sp {
    if let Some(n) = name.strip_prefix("llvm.") {
        let pre = |p: &str| n.starts_with(p);
        return if pre("memcpy.") || pre("memmove.") {
            Sp::Memcpy
        } else if pre("memset.") {
            Sp::Memset
        } else if pre("umin.") {
            Sp::UMin
        } else if pre("umax.") {
            Sp::UMax
        } else if pre("smin.") {
            Sp::SMin
        } else if pre("smax.") {
            Sp::SMax
        } else if pre("uadd.with.overflow") {
            Sp::UAddO
        } else if pre("usub.with.overflow") {
            Sp::USubO
        } else if pre("umul.with.overflow") {
            Sp::UMulO
        } else if pre("sadd.with.overflow") {
            Sp::SAddO
        } else if pre("ssub.with.overflow") {
            Sp::SSubO
        } else if pre("smul.with.overflow") {
            Sp::SMulO
        } else if pre("uadd.sat") {
            Sp::UAddSat
        } else if pre("usub.sat") {
            Sp::USubSat
        } else if pre("fshl.") {
            Sp::Fshl
        } else if pre("fshr.") {
            Sp::Fshr
        } else if pre("ctpop.") {
            Sp::Ctpop
        } else if pre("ctlz.") {
            Sp::Ctlz
        } else if pre("cttz.") {
            Sp::Cttz
        } else if pre("bswap.") {
            Sp::Bswap
        } else if pre("bitreverse.") {
            Sp::Bitrev
        } else if pre("abs.") {
            Sp::Abs
        } else if pre("ucmp.") {
            Sp::Ucmp
        } else if pre("scmp.") {
            Sp::Scmp
        } else if pre("expect.") {
            Sp::Expect
        } else if pre("is.constant") {
            Sp::IsConst
        } else if pre("trap") || pre("ubsantrap") || pre("debugtrap") {
            Sp::Trap
        } else if pre("threadlocal.address") || pre("launder.invariant") || pre("strip.invariant")
        {
            Sp::Ident0
        } else if pre("load.relative") {
            Sp::LoadRel
        } else if pre("vector.reduce.add") {
            Sp::RedAdd
        } else if pre("vector.reduce.or") {
            Sp::RedOr
        } else if pre("vector.reduce.and") {
            Sp::RedAnd
        } else if pre("vector.reduce.xor") {
            Sp::RedXor
        } else if pre("vector.reduce.umax") {
            Sp::RedUMax
        } else if pre("vector.reduce.umin") {
            Sp::RedUMin
        } else if pre("x86.sse2.pmovmskb") {
            Sp::Movmsk
        } else if pre("objectsize") {
            Sp::ObjSize
        } else if pre("lifetime")
            || pre("assume")
            || pre("experimental.noalias")
            || pre("x86.sse2.pause")
            || pre("prefetch")
            || pre("dbg.")
            || pre("invariant")
            || pre("donothing")
            || pre("sideeffect")
        {
            Sp::Nop
        } else {
            Sp::Unsup
        };
    }
    match name {
        "sym_var" => return Sp::SymVar,
        "sym_assume" => return Sp::SymAssume,
        "sym_assert" => return Sp::SymAssert,
        "sym_obs" => return Sp::SymObs,
        "sym_cover" => return Sp::SymCover,
        "sym_conc" => return Sp::SymConc,
        "sym_is" => return Sp::SymIs,
        "sym_param" => return Sp::SymParam,
        "sym_depth" => return Sp::SymDepth,
        "sym_reset" => return Sp::SymReset,
        "sym_hash" => return Sp::SymHash,
        "sym_hash_write" => return Sp::SymHashWrite,
        "sym_panic" => return Sp::Panic,
        "bcmp" => return Sp::Bcmp,
        "memcmp" => return Sp::Memcmp,
        "strlen" => return Sp::Strlen,
        "memcpy" | "memmove" => return Sp::Memcpy,
        "memset" => return Sp::Memset,
        "malloc" => return Sp::Alloc,
        "free" => return Sp::Dealloc,
        "getrandom" => return Sp::GetRandom,
        // thread-exit destructors never run before the harness returns; no environment variables
        "__cxa_thread_atexit_impl" | "getenv" => return Sp::Zero,
        "write" => return Sp::WriteAll,
        "abort" | "exit" | "_exit" => return Sp::Abort,
        _ => {}
    }
    if name.contains("12___rust_alloc") && !name.contains("zeroed") {
        return Sp::Alloc;
    }
    if name.contains("___rust_alloc_zeroed") {
        return Sp::AllocZ;
    }
    if name.contains("___rust_dealloc") {
        return Sp::Dealloc;
    }
    if name.contains("___rust_realloc") {
        return Sp::Realloc;
    }
    if name.contains("no_alloc_shim") {
        return Sp::Nop;
    }
    if name.contains("hashmap_random_keys") {
        return Sp::RandKeys;
    }
    if name.contains("4core9panicking")
        || name.contains("rust_begin_unwind")
        || name.contains("rust_start_panic")
        || name.contains("handle_alloc_error")
    {
        return Sp::Panic;
    }
    if has_body {
        Sp::None
    } else {
        Sp::Unsup
    }
}

impl State {
    fn fr(&mut self) -> &mut Frame {
        Rc::make_mut(self.frames.last_mut().unwrap())
    }
}

pub fn e_to_val(e: E) -> Val {
    let n = cx().n(e);
    if n.w <= 64 {
        if let Some(k) = cx().kval(e) {
            return Val::C(k as u64);
        }
    }
    Val::E(e)
}

pub fn to_e(v: &Val, w: u32) -> E {
    match v {
        Val::C(c) => cx().konst(w, *c as u128),
        Val::E(e) => *e,
        Val::A(_) => panic!("to_e of aggregate"),
    }
}

impl Exec {
    pub fn new(m: &'static Module, cfg: Cfg, sh: &'static Shared) -> Exec {
        let mut mem = Mem::new();
        for f in &m.funcs {
            mem.put(f.addr >> 32, Obj { size: 0, kind: Kind::Func, data: vec![], sym: vec![], lim: 0 });
        }
        for g in &m.globals {
            mem.put(
                g.addr >> 32,
                Obj {
                    size: g.size,
                    kind: if g.konst { Kind::Const } else { Kind::Global },
                    data: g.bytes.clone(),
                    sym: vec![],
                    lim: 0,
                },
            );
        }
        let seed = cfg.seed;
        let rl = cfg.rlimit;
        Exec {
            m,
            st: State {
                frames: vec![],
                mem,
                pc: vec![],
                model: Rc::new(vec![]),
                known: HashMap::new(),
                hidden: vec![],
                fed: BTreeMap::new(),
                hashes: vec![],
                fresh: false,
                vars: vec![],
                obs: vec![],
                steps: 0,
                forks: 0,
                maxd: 0,
            },
            pending: vec![],
            s: Solver::new(rl),
            stats: Stats::default(),
            cfg,
            sh,
            root: true,
            rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
        }
    }

    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    // -------------------------------------------------------------- solver glue

    fn slice(&self, e: E) -> (Vec<E>, Vec<(u32, u32)>) {
        let c = cx();
        let mut vs: HashSet<u32> = c.vars(e).iter().cloned().collect();
        let mut used = vec![false; self.st.pc.len()];
        let mut out = vec![e];
        loop {
            let mut ch = false;
            for (i, p) in self.st.pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let pv = c.vars(*p);
                if pv.iter().any(|v| vs.contains(v)) {
                    used[i] = true;
                    out.push(*p);
                    for v in pv.iter() {
                        if vs.insert(*v) {
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut vars: Vec<(u32, u32)> =
            vs.into_iter().map(|v| (v, self.st.vars[v as usize])).collect();
        vars.sort();
        (out, vars)
    }

    /// candidate values that would make a simple condition true: (variable, low bit, width, value)
    fn candidates(&self, e: E) -> Vec<(u32, u32, u32, u64)> {
        use crate::expr::Op;
        let c = cx();
        let mut out = vec![];
        let mut todo = vec![(e, true)];
        let mut n = 0;
        while let Some((e, pos)) = todo.pop() {
            n += 1;
            if n > 12 {
                break;
            }
            let nd = c.n(e);
            match nd.op {
                Op::Xor if nd.w == 1 && c.kval(nd.b) == Some(1) => todo.push((nd.a, !pos)),
                Op::And | Op::Or if nd.w == 1 => {
                    todo.push((nd.a, pos));
                    todo.push((nd.b, pos));
                }
                Op::Var | Op::Extract => {
                    let (v, lo) = if nd.op == Op::Var {
                        (nd.a, 0)
                    } else if c.n(nd.a).op == Op::Var {
                        (c.n(nd.a).a, nd.b)
                    } else {
                        continue;
                    };
                    out.push((v, lo, 1, pos as u64));
                }
                Op::Eq | Op::Ult => {
                    let (x, k, flip) = match (c.kval(nd.a), c.kval(nd.b)) {
                        (None, Some(k)) => (nd.a, k as u64, false),
                        (Some(k), None) => (nd.b, k as u64, true),
                        _ => continue,
                    };
                    let mut xn = c.n(x);
                    let mut add = 0u64;
                    if xn.op == Op::Add {
                        if let Some(a) = c.kval(xn.b) {
                            add = a as u64;
                            xn = c.n(xn.a);
                        }
                    }
                    let (v, lo, w) = if xn.op == Op::Var {
                        (xn.a, 0, xn.w)
                    } else if xn.op == Op::Extract && c.n(xn.a).op == Op::Var {
                        (c.n(xn.a).a, xn.b, xn.w)
                    } else {
                        continue;
                    };
                    let m = mask(w) as u64;
                    let vals: Vec<u64> = if nd.op == Op::Eq {
                        if pos {
                            vec![k]
                        } else {
                            vec![k.wrapping_add(1), k.wrapping_sub(1), 0, m, m >> 1, 0x5a5a]
                        }
                    } else if flip == !pos {
                        // x < k   (or not k < x: x <= k)
                        vec![k.wrapping_sub(1), 0, k >> 1]
                    } else {
                        vec![k, k.wrapping_add(1), m, m - 1]
                    };
                    for q in vals {
                        out.push((v, lo, w, q.wrapping_sub(add) & m));
                    }
                }
                _ => {}
            }
        }
        out
    }

    /// satisfiable together with the path condition? gives a full model
    fn sat(&mut self, e: E) -> Res2 {
        let (cs, vars) = self.slice(e);
        // a witness close to the present model, if one is easy to find
        let cand = self.candidates(e);
        if !cand.is_empty() {
            let mut mm = (*self.st.model).clone();
            mm.resize(self.st.vars.len(), 0);
            for (v, lo, w, q) in cand {
                let old = mm[v as usize];
                let m = (mask(w) as u64) << lo;
                mm[v as usize] = (old & !m) | (q << lo);
                cx().new_gen();
                if cs.iter().all(|c| cx().eval(*c, &mm) == 1) {
                    cx().new_gen();
                    self.stats.patched += 1;
                    return Res2::Yes(mm);
                }
                mm[v as usize] = old;
            }
            cx().new_gen();
        }
        match self.s.check(&cs, &vars) {
            Res::Unsat => Res2::No,
            Res::Unknown => Res2::Unknown,
            Res::Sat(m) => {
                let mut mm = (*self.st.model).clone();
                mm.resize(self.st.vars.len(), 0);
                for (v, x) in m {
                    mm[v as usize] = x;
                }
                Res2::Yes(mm)
            }
        }
    }

    fn learn(st: &mut State, v: u32, lo: u32, w: u32, k: u64) {
        let m = (mask(w) as u64) << lo;
        let e = st.known.entry(v).or_insert((0, 0));
        e.0 |= m;
        e.1 = (e.1 & !m) | (k << lo);
        cx().clear_sub();
    }

    fn add_pc(st: &mut State, e: E) {
        let c = cx();
        let n = c.n(e);
        use crate::expr::Op;
        match n.op {
            Op::Const => return,
            Op::And => {
                Self::add_pc(st, n.a);
                Self::add_pc(st, n.b);
                return;
            }
            Op::Xor if c.kval(n.b).is_some() => {
                let i = c.n(n.a);
                if i.op == Op::Or {
                    let x = c.not(i.a);
                    let y = c.not(i.b);
                    Self::add_pc(st, x);
                    Self::add_pc(st, y);
                    return;
                }
                if i.op == Op::Var {
                    Self::learn(st, i.a, 0, 1, 0);
                }
                if i.op == Op::Extract && c.n(i.a).op == Op::Var {
                    Self::learn(st, c.n(i.a).a, i.b, 1, 0);
                }
            }
            Op::Eq => {
                let a = c.n(n.a);
                if let Some(k) = c.kval(n.b) {
                    if a.op == Op::Var {
                        Self::learn(st, a.a, 0, a.w, k as u64);
                    }
                    if a.op == Op::Extract && c.n(a.a).op == Op::Var {
                        Self::learn(st, c.n(a.a).a, a.b, a.w, k as u64);
                    }
                }
            }
            Op::Var => Self::learn(st, n.a, 0, 1, 1),
            Op::Extract if c.n(n.a).op == Op::Var => {
                Self::learn(st, c.n(n.a).a, n.b, 1, 1);
            }
            _ => {}
        }
        if !st.pc.contains(&e) {
            st.pc.push(e);
        }
    }

    fn set_model(&mut self, m: Vec<u64>) {
        self.st.model = Rc::new(m);
        cx().new_gen();
    }

    fn eval(&mut self, e: E) -> u128 {
        cx().eval(e, &self.st.model)
    }

    fn subst(&mut self, e: E) -> E {
        cx().subst(e, &self.st.known)
    }

    /// Decide a condition on this path, forking if both outcomes are feasible.
    fn branch(&mut self, cond: E) -> R<bool> {
        let c = self.subst(cond);
        if let Some(k) = cx().kval(c) {
            return Ok(k == 1);
        }
        self.stats.branches += 1;
        let nc = cx().not(c);
        if self.st.pc.contains(&c) {
            return Ok(true);
        }
        if self.st.pc.contains(&nc) {
            return Ok(false);
        }
        let mv = self.eval(c) == 1;
        let (mine, other) = if mv { (c, nc) } else { (nc, c) };
        match self.sat(other) {
            Res2::No => {}
            Res2::Unknown => {
                *self.stats.unsupported.entry("solver gave up on a branch".into()).or_default() +=
                    1;
                self.stats.unexplored += 1;
                Self::add_pc(&mut self.st, mine);
            }
            Res2::Yes(m) => {
                let mut o = self.st.clone();
                o.model = Rc::new(m);
                cx().clear_sub();
                Self::add_pc(&mut o, other);
                o.forks += 1;
                cx().clear_sub();
                self.stats.forks += 1;
                if self.cfg.profile {
                    let f = self.site();
                    *self.stats.fork_sites.entry(f).or_default() += 1;
                }
                self.pending.push(o);
                self.maybe_split();
                Self::add_pc(&mut self.st, mine);
                self.st.forks += 1;
            }
        }
        Ok(mv)
    }

    /// Mutually exclusive, exhaustive conditions: follow the one the model satisfies and
    /// queue a state for every other feasible one (they re-execute the instruction).
    fn multiway(&mut self, ts: &[(u32, E)]) -> R<u32> {
        self.stats.branches += 1;
        let mut mine = None;
        let mut alts = vec![];
        for (t, c) in ts {
            let c = self.subst(*c);
            match cx().kval(c) {
                Some(1) => return Ok(*t),
                Some(_) => continue,
                None => {}
            }
            if self.eval(c) == 1 && mine.is_none() {
                mine = Some((*t, c));
            } else {
                alts.push(c);
            }
        }
        let (t, mc) = mine.expect("no switch target under the model");
        if self.st.pc.contains(&mc) {
            return Ok(t);
        }
        let mut forked = false;
        for c in alts {
            match self.sat(c) {
                Res2::No => {}
                Res2::Unknown => {
                    *self
                        .stats
                        .unsupported
                        .entry("solver gave up on a branch".into())
                        .or_default() += 1;
                    self.stats.unexplored += 1;
                    forked = true;
                }
                Res2::Yes(m) => {
                    let mut o = self.st.clone();
                    o.model = Rc::new(m);
                    cx().clear_sub();
                    Self::add_pc(&mut o, c);
                    cx().clear_sub();
                    o.forks += 1;
                    self.stats.forks += 1;
                    if self.cfg.profile {
                        let f = self.site();
                        *self.stats.fork_sites.entry(f).or_default() += 1;
                    }
                    self.pending.push(o);
                    forked = true;
                }
            }
        }
        if forked {
            self.maybe_split();
            Self::add_pc(&mut self.st, mc);
            self.st.forks += 1;
        }
        Ok(t)
    }

    fn concretize(&mut self, e: E) -> R<u128> {
        let e = self.subst(e);
        if let Some(k) = cx().kval(e) {
            return Ok(k);
        }
        let v = self.eval(e);
        let w = cx().w(e);
        let k = cx().konst(w, v);
        let c = cx().eq(e, k);
        self.branch(c)?;
        Ok(v)
    }
    fn conc_val(&mut self, v: &Val) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::E(e) => Ok(self.concretize(*e)? as u64),
            _ => Err(Stop::Unsupported("concretize aggregate".into())),
        }
    }

    // -------------------------------------------------------------- splitting

    fn maybe_split(&mut self) {
        use std::sync::atomic::Ordering::SeqCst;
        if self.pending.len() < 2 {
            return;
        }
        let a = self.sh.active.load(SeqCst);
        if a >= self.cfg.workers {
            return;
        }
        if self.sh.active.compare_exchange(a, a + 1, SeqCst, SeqCst).is_err() {
            return;
        }
        let k = (self.pending.len() / 2).max(1);
        unsafe {
            let pid = libc_fork();
            if pid < 0 {
                self.sh.active.fetch_sub(1, SeqCst);
                return;
            }
            if pid == 0 {
                let p2 = libc_fork();
                if p2 != 0 {
                    _exit(if p2 < 0 { 1 } else { 0 });
                }
                // the worker
                self.pending.truncate(k);
                self.stats = Stats::default();
                self.root = false;
                self.s.queries = 0;
                self.s.sat = 0;
                self.s.unsat = 0;
                self.s.cached = 0;
                self.s.slow = 0;
                self.s.unknown = 0;
                self.s.time_ns = 0;
                self.s.max_ns = 0;
                self.rng ^= (getpid() as u64) << 20;
                self.run_pending();
                self.finish();
                self.sh.active.fetch_sub(1, SeqCst);
                _exit(0);
            }
            let mut status = 0i32;
            waitpid(pid, &mut status, 0);
            if status != 0 {
                self.sh.active.fetch_sub(1, SeqCst);
                return;
            }
            self.pending.drain(..k);
        }
    }

    pub fn finish(&mut self) {
        let pid = unsafe { getpid() };
        let s = crate::report(self);
        std::fs::write(format!("{}/w{}.txt", self.cfg.out, pid), s).expect("write report");
    }

    // -------------------------------------------------------------- main loop

    pub fn start(&mut self, f: usize) {
        let b = self.m.body(f);
        self.st.frames.push(Rc::new(Frame {
            func: f,
            block: 0,
            ip: 0,
            regs: vec![Val::C(0); b.nregs],
            allocas: vec![],
            ret: None,
            next: None,
        }));
        self.stats.funcs.insert(f);
        let s = self.st.clone();
        self.pending.push(s);
        self.run_pending();
    }

    fn timeup(&self) -> bool {
        use std::sync::atomic::Ordering::SeqCst;
        Instant::now() > self.cfg.deadline || self.sh.stop.load(SeqCst) != 0
    }

    fn run_pending(&mut self) {
        while let Some(s) = self.pending.pop() {
            self.st = s;
            cx().new_gen();
            cx().clear_sub();
            if self.timeup() {
                self.stats.unexplored += 1 + self.pending.len() as u64;
                self.pending.clear();
                return;
            }
            let r = loop {
                match self.step() {
                    Ok(()) => {
                        self.st.steps += 1;
                        self.stats.steps += 1;
                        if self.st.steps & 0xffff == 0 && self.timeup() {
                            self.stats.unexplored += 1;
                            break Stop::Kill;
                        }
                        if self.st.steps > self.cfg.max_steps {
                            break Stop::Fail("limit", "step limit".into());
                        }
                    }
                    Err(x) => break x,
                }
            };
            self.stats.max_steps = self.stats.max_steps.max(self.st.steps);
            match r {
                Stop::Kill => self.stats.killed += 1,
                Stop::Done => {
                    self.stats.paths += 1;
                    self.sample();
                }
                Stop::Fail(kind, msg) => {
                    self.stats.paths += 1;
                    let m = self.st.model.clone();
                    self.violation(self.cfg.label, 0, kind, msg, &m);
                }
                Stop::Unsupported(msg) => {
                    let site = self.site();
                    *self
                        .stats
                        .unsupported
                        .entry(format!("{} in {}", msg, site))
                        .or_default() += 1;
                    self.stats.unexplored += 1;
                }
            }
        }
    }

    fn sample(&mut self) {
        self.stats.seen_paths += 1;
        let n = self.stats.seen_paths;
        let cap = self.cfg.nsamples as u64;
        let slot = if (self.stats.samples.len() as u64) < cap {
            None
        } else {
            let r = self.rand() % n;
            if r >= cap {
                return;
            }
            Some(r as usize)
        };
        if cap == 0 {
            return;
        }
        let model = self.st.model.clone();
        let inp: Vec<u64> = self.inputs(&model);
        let obs: Vec<u64> = self
            .st
            .obs
            .clone()
            .iter()
            .map(|(e, c)| if *e == 0 { *c } else { cx().eval(*e, &model) as u64 })
            .collect();
        match slot {
            None => self.stats.samples.push((inp, obs)),
            Some(i) => self.stats.samples[i] = (inp, obs),
        }
    }

    fn inputs(&self, model: &[u64]) -> Vec<u64> {
        (0..self.st.vars.len())
            .filter(|i| !self.st.hidden.contains(&(*i as u32)))
            .map(|i| model.get(i).cloned().unwrap_or(0))
            .collect()
    }

    fn violation(&mut self, label: u32, code: u32, kind: &str, msg: String, model: &[u64]) {
        use std::sync::atomic::Ordering::SeqCst;
        self.stats.nviol += 1;
        let site = format!("{} @ {}", msg, self.stack());
        if self.stats.viols.len() < 8 {
            let inputs = self.inputs(model);
            self.stats.viols.push(Viol { label, code, kind: kind.into(), site, inputs });
        }
        let n = self.sh.viols.fetch_add(1, SeqCst) + 1;
        if n >= self.cfg.max_viols {
            self.sh.stop.store(1, SeqCst);
        }
    }

    fn site(&self) -> String {
        match self.st.frames.last() {
            Some(f) => format!("{}:{}", self.m.funcs[f.func].name, f.block),
            None => "".into(),
        }
    }
    fn stack(&self) -> String {
        let n = self.st.frames.len();
        self.st
            .frames
            .iter()
            .rev()
            .take(12)
            .map(|f| self.m.funcs[f.func].name.clone())
            .collect::<Vec<_>>()
            .join(" < ")
            + &format!(" (depth {})", n)
    }

    // -------------------------------------------------------------- memory

    fn mem_fail<X>(&self, what: &str) -> R<X> {
        Err(Stop::Fail("memory", what.to_string()))
    }

    fn check_obj(&self, addr: u64, n: u64) -> R<(u64, u64)> {
        let id = addr >> 32;
        let off = addr & 0xffff_ffff;
        match self.st.mem.get(id) {
            Some(o) if off + n <= o.size => Ok((id, off)),
            Some(o) => self.mem_fail(&format!(
                "access of {} bytes at offset {} of an object of {} bytes",
                n, off, o.size
            )),
            None => self.mem_fail(&format!("access to invalid address {:#x}", addr)),
        }
    }

    /// Resolve a pointer for an access of n bytes. Err / forks as needed.
    fn resolve(&mut self, p: &Val, n: u64) -> R<(u64, Off)> {
        let (id, mut off) = self.resolve0(p, n)?;
        let lim = self.st.mem.get(id).unwrap().lim;
        if lim != 0 {
            if let Off::E(e) = off {
                off = Off::C(self.concretize(e)? as u64);
            }
            if let Off::C(o) = off {
                let end = cx().konst(64, (o + n) as u128);
                let inb = cx().ult(lim, end);
                if self.branch(inb)? {
                    return self.mem_fail("access behind an allocation of symbolic size");
                }
                let need = (o + n) as usize;
                if self.st.mem.get(id).unwrap().data.len() < need {
                    let ob = self.st.mem.get_mut(id);
                    let k = need.next_power_of_two().max(64);
                    ob.data.resize(k, 0);
                    if !ob.sym.is_empty() {
                        ob.sym.resize(k, 0);
                    }
                }
            }
        }
        Ok((id, off))
    }

    fn resolve0(&mut self, p: &Val, n: u64) -> R<(u64, Off)> {
        match p {
            Val::C(a) => {
                let (id, o) = self.check_obj(*a, n)?;
                Ok((id, Off::C(o)))
            }
            Val::E(e) => {
                let e = self.subst(*e);
                if let Some(k) = cx().kval(e) {
                    let (id, o) = self.check_obj(k as u64, n)?;
                    return Ok((id, Off::C(o)));
                }
                let m = self.eval(e) as u64;
                let (id, _) = self.check_obj(m, n)?;
                let base = cx().konst(64, (id << 32) as u128);
                let size = self.st.mem.get(id).unwrap().size;
                let off = cx().sub(e, base);
                let lim = cx().konst(64, (size - n + 1) as u128);
                let inb = cx().ult(off, lim);
                self.branch(inb)?;
                let off = self.subst(off);
                match cx().kval(off) {
                    Some(k) => Ok((id, Off::C(k as u64))),
                    None => Ok((id, Off::E(off))),
                }
            }
            _ => Err(Stop::Unsupported("pointer aggregate".into())),
        }
    }

    fn rd(o: &Obj, off: u64, w: u32) -> Val {
        let nb = ((w + 7) / 8) as usize;
        let off = off as usize;
        let allc = o.sym.is_empty() || o.sym[off..off + nb].iter().all(|e| *e == 0);
        if allc {
            if w <= 64 {
                let mut b = [0u8; 8];
                b[..nb].copy_from_slice(&o.data[off..off + nb]);
                let v = u64::from_le_bytes(b);
                return Val::C(if w == 64 { v } else { v & ((1u64 << w) - 1) });
            }
            let mut b = [0u8; 16];
            b[..nb].copy_from_slice(&o.data[off..off + nb]);
            return Val::E(cx().konst(w, u128::from_le_bytes(b)));
        }
        let c = cx();
        let mut acc: Option<E> = None;
        for i in 0..nb {
            let b = if o.sym[off + i] != 0 {
                o.sym[off + i]
            } else {
                c.konst(8, o.data[off + i] as u128)
            };
            acc = Some(match acc {
                None => b,
                Some(a) => c.concat(b, a),
            });
        }
        let mut e = acc.unwrap();
        if c.w(e) != w {
            e = c.extract(e, 0, w);
        }
        e_to_val(e)
    }

    fn wr(o: &mut Obj, off: u64, w: u32, v: &Val) {
        let nb = ((w + 7) / 8) as usize;
        let off = off as usize;
        match v {
            Val::C(c) => {
                let b = c.to_le_bytes();
                for i in 0..nb {
                    o.data[off + i] = if i < 8 { b[i] } else { 0 };
                }
                if !o.sym.is_empty() {
                    for i in 0..nb {
                        o.sym[off + i] = 0;
                    }
                }
            }
            Val::E(e) => {
                let c = cx();
                let full = c.zext(*e, nb as u32 * 8);
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                for i in 0..nb {
                    let b = c.extract(full, i as u32 * 8, 8);
                    match c.kval(b) {
                        Some(k) => {
                            o.data[off + i] = k as u8;
                            o.sym[off + i] = 0;
                        }
                        None => o.sym[off + i] = b,
                    }
                }
            }
            Val::A(_) => panic!("wr aggregate"),
        }
    }

    fn load_at(&self, t: &Ty, o: &Obj, off: u64) -> Val {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => Self::rd(o, off, t.scal().0),
            Ty::Array(n, e) => {
                let sz = e.size();
                Val::A(Rc::new((0..*n).map(|i| self.load_at(e, o, off + i * sz)).collect()))
            }
            Ty::Vector(n, e) => {
                let bw = e.bits();
                if bw % 8 != 0 {
                    // packed bits
                    let all = Self::rd(o, off, (bw * n) as u32);
                    let all = to_e(&all, (bw * n) as u32);
                    return Val::A(Rc::new(
                        (0..*n)
                            .map(|i| e_to_val(cx().extract(all, (i * bw) as u32, bw as u32)))
                            .collect(),
                    ));
                }
                Val::A(Rc::new((0..*n).map(|i| self.load_at(e, o, off + i * bw / 8)).collect()))
            }
            Ty::Struct(f, _) => {
                let (offs, _) = t.struct_layout();
                Val::A(Rc::new(
                    f.iter().enumerate().map(|(i, t)| self.load_at(t, o, off + offs[i])).collect(),
                ))
            }
            _ => Val::C(0),
        }
    }

    fn access_size(t: &Ty) -> u64 {
        match t {
            Ty::Int(w) => ((*w + 7) / 8) as u64,
            Ty::Vector(n, e) => (n * e.bits() + 7) / 8,
            _ => t.size(),
        }
    }

    fn load(&mut self, t: &Ty, p: &Val) -> R<Val> {
        let n = Self::access_size(t);
        let (id, off) = self.resolve(p, n)?;
        match off {
            Off::C(o) => {
                let ob = self.st.mem.get(id).unwrap().clone();
                Ok(self.load_at(t, &ob, o))
            }
            Off::E(e) => {
                let w = t.scal().0;
                let scalar = matches!(t, Ty::Int(_) | Ty::Ptr) && w <= 64;
                let ob = self.st.mem.get(id).unwrap().clone();
                let inf = cx().inf(e);
                let tz = inf.kz.trailing_ones().min(31);
                let step = 1u64 << tz;
                let lo = (inf.lo as u64 + step - 1) / step * step;
                let hi = (inf.hi.min((ob.size - n) as u128)) as u64;
                let cnt = if hi >= lo { (hi - lo) / step + 1 } else { 0 };
                if !scalar || cnt > 1024 || cnt == 0 {
                    let k = self.concretize(e)? as u64;
                    return Ok(self.load_at(t, &ob, k));
                }
                let c = cx();
                let mut acc: Option<E> = None;
                let mut o = lo;
                let mut items = vec![];
                while o <= hi {
                    items.push((o, to_e(&Self::rd(&ob, o, w), w)));
                    o += step;
                }
                for (o, v) in items.into_iter().rev() {
                    acc = Some(match acc {
                        None => v,
                        Some(a) => {
                            let k = c.konst(64, o as u128);
                            let q = c.eq(e, k);
                            c.ite(q, v, a)
                        }
                    });
                }
                Ok(e_to_val(acc.unwrap()))
            }
        }
    }

    fn store_at(&mut self, t: &Ty, id: u64, off: u64, v: &Val) {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::Float(_) => {
                let w = t.scal().0;
                Self::wr(self.st.mem.get_mut(id), off, w, v)
            }
            Ty::Array(_, e) => {
                let sz = e.size();
                if let Val::A(vs) = v {
                    for (i, x) in vs.iter().enumerate() {
                        self.store_at(e, id, off + i as u64 * sz, x);
                    }
                }
            }
            Ty::Vector(_, e) => {
                let sz = e.bits() / 8;
                if let Val::A(vs) = v {
                    for (i, x) in vs.iter().enumerate() {
                        self.store_at(e, id, off + i as u64 * sz, x);
                    }
                }
            }
            Ty::Struct(f, _) => {
                let (offs, _) = t.struct_layout();
                if let Val::A(vs) = v {
                    for (i, x) in vs.iter().enumerate() {
                        self.store_at(&f[i], id, off + offs[i], x);
                    }
                }
            }
            _ => {}
        }
    }

    fn store(&mut self, t: &Ty, p: &Val, v: &Val) -> R<()> {
        let n = Self::access_size(t);
        let (id, off) = self.resolve(p, n)?;
        let off = match off {
            Off::C(o) => o,
            Off::E(e) => self.concretize(e)? as u64,
        };
        let k = self.st.mem.get(id).unwrap().kind;
        if k == Kind::Const || k == Kind::Func {
            return self.mem_fail("store to constant memory");
        }
        self.store_at(t, id, off, v);
        Ok(())
    }

    fn conc_ptr(&mut self, p: &Val, n: u64) -> R<(u64, u64)> {
        let (id, off) = self.resolve(p, n)?;
        match off {
            Off::C(o) => Ok((id, o)),
            Off::E(e) => Ok((id, self.concretize(e)? as u64)),
        }
    }

    fn memcpy(&mut self, d: &Val, s: &Val, n: &Val) -> R<()> {
        let n = self.conc_val(n)?;
        if n == 0 {
            return Ok(());
        }
        let (sid, so) = self.conc_ptr(s, n)?;
        let (did, dof) = self.conc_ptr(d, n)?;
        let k = self.st.mem.get(did).unwrap().kind;
        if k == Kind::Const || k == Kind::Func {
            return self.mem_fail("copy to constant memory");
        }
        let src = self.st.mem.get(sid).unwrap().clone();
        let (so, dof, n) = (so as usize, dof as usize, n as usize);
        let o = self.st.mem.get_mut(did);
        o.data[dof..dof + n].copy_from_slice(&src.data[so..so + n]);
        let srcsym = !src.sym.is_empty() && src.sym[so..so + n].iter().any(|e| *e != 0);
        if srcsym {
            if o.sym.is_empty() {
                o.sym = vec![0; o.data.len()];
            }
            o.sym[dof..dof + n].copy_from_slice(&src.sym[so..so + n]);
        } else if !o.sym.is_empty() {
            for x in &mut o.sym[dof..dof + n] {
                *x = 0;
            }
        }
        Ok(())
    }

    // -------------------------------------------------------------- step

    fn get(&self, o: &Opnd) -> Val {
        match o {
            Opnd::K(v) => v.clone(),
            Opnd::R(r) => self.st.frames.last().unwrap().regs[*r as usize].clone(),
        }
    }
    fn set(&mut self, d: u32, v: Val) {
        let f = self.st.fr();
        f.regs[d as usize] = v;
    }
    fn setn(&mut self, d: u32, v: Val) {
        let f = self.st.fr();
        f.regs[d as usize] = v;
        f.ip += 1;
    }
    fn jump(&mut self, to: u32) {
        let from = self.st.frames.last().unwrap().block;
        let b = self.m.body(self.st.frames.last().unwrap().func);
        let blk = &b.blocks[to as usize];
        if !blk.phis.is_empty() {
            let mut vals: Vec<(u32, Val)> = Vec::with_capacity(blk.phis.len());
            for (d, inc) in &blk.phis {
                let (_, o) = inc.iter().find(|(l, _)| *l == from).expect("phi predecessor");
                vals.push((*d, self.get(o)));
            }
            let f = self.st.fr();
            for (d, v) in vals {
                f.regs[d as usize] = v;
            }
        }
        let f = self.st.fr();
        f.block = to;
        f.ip = 0;
    }

    fn lanes(v: &Val) -> &Vec<Val> {
        match v {
            Val::A(x) => x,
            _ => panic!("vector expected"),
        }
    }

    fn binop(op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let m = if w == 64 { u64::MAX } else { (1u64 << w) - 1 };
                let (x, y) = (*x, *y);
                let r = match op {
                    BinOp::Add => x.wrapping_add(y),
                    BinOp::Sub => x.wrapping_sub(y),
                    BinOp::Mul => x.wrapping_mul(y),
                    BinOp::And => x & y,
                    BinOp::Or => x | y,
                    BinOp::Xor => x ^ y,
                    BinOp::Shl => if y >= w as u64 { 0 } else { x << y },
                    BinOp::LShr => if y >= w as u64 { 0 } else { x >> y },
                    BinOp::AShr => {
                        let s = sext(x, w) as i64;
                        (s >> y.min(63)) as u64
                    }
                    BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem if y == 0 => {
                        return Err(Stop::Fail("panic", "division by zero".into()))
                    }
                    BinOp::UDiv => x / y,
                    BinOp::URem => x % y,
                    BinOp::SDiv => (sext(x, w) as i64).wrapping_div(sext(y, w) as i64) as u64,
                    BinOp::SRem => (sext(x, w) as i64).wrapping_rem(sext(y, w) as i64) as u64,
                };
                return Ok(Val::C(r & m));
            }
        }
        let c = cx();
        let (x, y) = (to_e(a, w), to_e(b, w));
        Ok(e_to_val(match op {
            BinOp::Add => c.add(x, y),
            BinOp::Sub => c.sub(x, y),
            BinOp::Mul => c.mul(x, y),
            BinOp::UDiv => c.udiv(x, y),
            BinOp::URem => c.urem(x, y),
            BinOp::SDiv => c.sdiv(x, y),
            BinOp::SRem => c.srem(x, y),
            BinOp::Shl => c.shl(x, y),
            BinOp::LShr => c.lshr(x, y),
            BinOp::AShr => c.ashr(x, y),
            BinOp::And => c.and(x, y),
            BinOp::Or => c.or(x, y),
            BinOp::Xor => c.xor(x, y),
        }))
    }

    fn icmp(p: Pred, w: u32, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let (sx, sy) = (sext(x, w) as i64, sext(y, w) as i64);
                return Val::C(match p {
                    Pred::Eq => x == y,
                    Pred::Ne => x != y,
                    Pred::Ugt => x > y,
                    Pred::Uge => x >= y,
                    Pred::Ult => x < y,
                    Pred::Ule => x <= y,
                    Pred::Sgt => sx > sy,
                    Pred::Sge => sx >= sy,
                    Pred::Slt => sx < sy,
                    Pred::Sle => sx <= sy,
                } as u64);
            }
        }
        let c = cx();
        let (x, y) = (to_e(a, w), to_e(b, w));
        e_to_val(match p {
            Pred::Eq => c.eq(x, y),
            Pred::Ne => {
                let e = c.eq(x, y);
                c.not(e)
            }
            Pred::Ugt => c.ult(y, x),
            Pred::Uge => c.ule(y, x),
            Pred::Ult => c.ult(x, y),
            Pred::Ule => c.ule(x, y),
            Pred::Sgt => c.slt(y, x),
            Pred::Slt => c.slt(x, y),
            Pred::Sge => {
                let e = c.slt(x, y);
                c.not(e)
            }
            Pred::Sle => {
                let e = c.slt(y, x);
                c.not(e)
            }
        })
    }

    fn cast(op: CastOp, fw: u32, tw: u32, a: &Val) -> Val {
        if let Val::C(x) = a {
            if fw <= 64 && tw <= 64 {
                let m = if tw == 64 { u64::MAX } else { (1u64 << tw) - 1 };
                return Val::C(match op {
                    CastOp::SExt => sext(*x, fw) & m,
                    _ => *x & m,
                });
            }
        }
        let c = cx();
        let e = to_e(a, fw);
        e_to_val(match op {
            CastOp::Trunc => c.extract(e, 0, tw),
            CastOp::ZExt => c.zext(e, tw),
            CastOp::SExt => c.sext(e, tw),
            CastOp::Same => e,
        })
    }

    fn select(&self, t: &Ty, c: E, a: &Val, b: &Val) -> Val {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let sub: Vec<Val> = x
                    .iter()
                    .zip(y.iter())
                    .enumerate()
                    .map(|(i, (p, q))| {
                        let et: TyR = match t {
                            Ty::Array(_, e) | Ty::Vector(_, e) => e.clone(),
                            Ty::Struct(f, _) => f[i].clone(),
                            _ => panic!("select"),
                        };
                        self.select(&et, c, p, q)
                    })
                    .collect();
                Val::A(Rc::new(sub))
            }
            _ => {
                let w = t.scal().0;
                let (x, y) = (to_e(a, w), to_e(b, w));
                e_to_val(cx().ite(c, x, y))
            }
        }
    }

    fn step(&mut self) -> R<()> {
        let fr = self.st.frames.last().unwrap();
        let body: &'static Body = self.m.body(fr.func);
        let ins: &'static I = &body.blocks[fr.block as usize].ins[fr.ip];
        if self.cfg.trace {
            eprintln!("[{}] {}:{}:{} {:?}", self.st.frames.len(), self.m.funcs[fr.func].name, fr.block, fr.ip, ins);
        }
        match ins {
            I::Bin { op, w, l, d, a, b } => {
                let (x, y) = (self.get(a), self.get(b));
                let r = if *l == 0 {
                    if matches!(op, BinOp::UDiv | BinOp::URem | BinOp::SDiv | BinOp::SRem) {
                        if let Val::E(e) = &y {
                            // a zero divisor is undefined behaviour: rustc guards it
                            let k = cx().konst(*w, 0);
                            let z = cx().eq(*e, k);
                            if self.branch(z)? {
                                return Err(Stop::Fail("panic", "division by zero".into()));
                            }
                        }
                    }
                    Self::binop(*op, *w, &x, &y)?
                } else {
                    let (p, q) = (Self::lanes(&x), Self::lanes(&y));
                    let mut v = Vec::with_capacity(p.len());
                    for i in 0..p.len() {
                        v.push(Self::binop(*op, *w, &p[i], &q[i])?);
                    }
                    Val::A(Rc::new(v))
                };
                self.setn(*d, r);
            }
            I::Icmp { p, w, l, d, a, b } => {
                let (x, y) = (self.get(a), self.get(b));
                let r = if *l == 0 {
                    Self::icmp(*p, *w, &x, &y)
                } else {
                    let (s, q) = (Self::lanes(&x), Self::lanes(&y));
                    Val::A(Rc::new(
                        (0..s.len()).map(|i| Self::icmp(*p, *w, &s[i], &q[i])).collect(),
                    ))
                };
                self.setn(*d, r);
            }
            I::Cast { op, fw, tw, l, d, a } => {
                let x = self.get(a);
                let r = if *l == 0 {
                    Self::cast(*op, *fw, *tw, &x)
                } else {
                    Val::A(Rc::new(
                        Self::lanes(&x).iter().map(|v| Self::cast(*op, *fw, *tw, v)).collect(),
                    ))
                };
                self.setn(*d, r);
            }
            I::BitCast { f, t, d, a } => {
                let x = self.get(a);
                let r = self.bitcast(f, t, &x);
                self.setn(*d, r);
            }
            I::Select { d, c, cl, t, a, b } => {
                let cv = self.get(c);
                let (x, y) = (self.get(a), self.get(b));
                let r = if *cl == 0 {
                    match cv {
                        Val::C(k) => if k & 1 == 1 { x } else { y },
                        Val::E(e) => {
                            let e = self.subst(e);
                            match cx().kval(e) {
                                Some(k) => if k == 1 { x } else { y },
                                None => self.select(t, e, &x, &y),
                            }
                        }
                        _ => panic!("select"),
                    }
                } else {
                    let et = match &**t {
                        Ty::Vector(_, e) => e.clone(),
                        _ => panic!("select"),
                    };
                    let (cs, xs, ys) = (Self::lanes(&cv), Self::lanes(&x), Self::lanes(&y));
                    Val::A(Rc::new(
                        (0..cs.len())
                            .map(|i| self.select(&et, to_e(&cs[i], 1), &xs[i], &ys[i]))
                            .collect(),
                    ))
                };
                self.setn(*d, r);
            }
            I::Load { d, t, p } => {
                let p = self.get(p);
                let v = self.load(t, &p)?;
                self.setn(*d, v);
            }
            I::Store { t, v, p } => {
                let v = self.get(v);
                let p = self.get(p);
                self.store(t, &p, &v)?;
                self.st.fr().ip += 1;
            }
            I::Gep { d, base, off, idx } => {
                let b = self.get(base);
                let r = match &b {
                    Val::A(_) => return Err(Stop::Unsupported("vector gep".into())),
                    _ => {
                        let mut acc = *off;
                        let mut sym: Option<E> = None;
                        match &b {
                            Val::C(k) => acc = acc.wrapping_add(*k),
                            Val::E(e) => sym = Some(*e),
                            _ => {}
                        }
                        for (o, w, sc) in idx {
                            match self.get(o) {
                                Val::C(k) => {
                                    acc = acc.wrapping_add(sext(k, *w).wrapping_mul(*sc))
                                }
                                Val::E(e) => {
                                    let c = cx();
                                    let x = c.sext(e, 64);
                                    let k = c.konst(64, *sc as u128);
                                    let x = c.mul(x, k);
                                    sym = Some(match sym {
                                        None => x,
                                        Some(s) => c.add(s, x),
                                    });
                                }
                                _ => return Err(Stop::Unsupported("vector gep".into())),
                            }
                        }
                        match sym {
                            None => Val::C(acc),
                            Some(s) => {
                                let k = cx().konst(64, acc as u128);
                                e_to_val(cx().add(s, k))
                            }
                        }
                    }
                };
                self.setn(*d, r);
            }
            I::Alloca { d, size, n } => {
                let cnt = match n {
                    None => 1,
                    Some(o) => {
                        let v = self.get(o);
                        self.conc_val(&v)?
                    }
                };
                let a = self.st.mem.alloc(size * cnt, Kind::Stack);
                self.st.fr().allocas.push(a >> 32);
                self.setn(*d, Val::C(a));
            }
            I::Br(l) => self.jump(*l),
            I::CondBr(c, a, b) => {
                let t = match self.get(c) {
                    Val::C(k) => k & 1 == 1,
                    Val::E(e) => self.branch(e)?,
                    _ => panic!("condbr"),
                };
                self.jump(if t { *a } else { *b });
            }
            I::Switch { w, v, def, cases } => {
                let v = self.get(v);
                let v = match v {
                    Val::E(e) => e_to_val(self.subst(e)),
                    v => v,
                };
                match v {
                    Val::C(k) => {
                        let t = cases.iter().find(|(c, _)| *c == k).map(|x| x.1).unwrap_or(*def);
                        self.jump(t);
                    }
                    Val::E(e) => {
                        // one condition per distinct target
                        let c = cx();
                        let mut targets: Vec<(u32, E)> = vec![];
                        let mut pos: HashMap<u32, usize> = HashMap::new();
                        let mut other = c.f();
                        for (kk, l) in cases {
                            if l == def {
                                continue;
                            }
                            let q = c.konst(*w, *kk as u128);
                            let q = c.eq(e, q);
                            if c.kval(q) == Some(0) {
                                continue;
                            }
                            other = c.or(q, other);
                            let n = targets.len();
                            let p = *pos.entry(*l).or_insert(n);
                            if p == n {
                                targets.push((*l, q));
                            } else {
                                targets[p].1 = c.or(q, targets[p].1);
                            }
                        }
                        let d = c.not(other);
                        targets.push((*def, d));
                        let t = self.multiway(&targets)?;
                        self.jump(t);
                    }
                    _ => panic!("switch"),
                }
            }
            I::Ret(v) => {
                let v = match v {
                    None => Val::C(0),
                    Some(o) => self.get(o),
                };
                let f = self.st.frames.pop().unwrap();
                for a in &f.allocas {
                    self.st.mem.free(*a);
                }
                if self.st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                if let Some(d) = f.ret {
                    self.set(d, v);
                }
                match f.next {
                    None => self.st.fr().ip += 1,
                    Some(l) => self.jump(l),
                }
            }
            I::Unreachable => {
                return Err(Stop::Fail("unreachable", "unreachable instruction reached".into()))
            }
            I::ExtractValue { d, a, path } => {
                let mut v = self.get(a);
                for i in path {
                    v = match v {
                        Val::A(x) => x[*i].clone(),
                        _ => panic!("extractvalue"),
                    };
                }
                self.setn(*d, v);
            }
            I::InsertValue { d, a, v, path } => {
                let x = self.get(a);
                let v = self.get(v);
                fn ins(x: &Val, v: Val, path: &[usize]) -> Val {
                    if path.is_empty() {
                        return v;
                    }
                    match x {
                        Val::A(xs) => {
                            let mut ys = (**xs).clone();
                            ys[path[0]] = ins(&xs[path[0]], v, &path[1..]);
                            Val::A(Rc::new(ys))
                        }
                        _ => panic!("insertvalue"),
                    }
                }
                let r = ins(&x, v, path);
                self.setn(*d, r);
            }
            I::ExtractElem { d, a, i } => {
                let x = self.get(a);
                let i = self.get(i);
                let i = self.conc_val(&i)?;
                let v = Self::lanes(&x)[i as usize].clone();
                self.setn(*d, v);
            }
            I::InsertElem { d, a, v, i } => {
                let x = self.get(a);
                let i = self.get(i);
                let i = self.conc_val(&i)?;
                let mut l = Self::lanes(&x).clone();
                l[i as usize] = self.get(v);
                self.setn(*d, Val::A(Rc::new(l)));
            }
            I::Shuffle { d, a, b, n, mask } => {
                let (x, y) = (self.get(a), self.get(b));
                let (x, y) = (Self::lanes(&x), Self::lanes(&y));
                let r: Vec<Val> = mask
                    .iter()
                    .map(|m| if *m < *n { x[*m as usize].clone() } else { y[(*m - *n) as usize].clone() })
                    .collect();
                self.setn(*d, Val::A(Rc::new(r)));
            }
            I::Copy { d, a } => {
                let v = self.get(a);
                self.setn(*d, v);
            }
            I::AtomicRmw { op, t, d, p, v } => {
                let p = self.get(p);
                let v = self.get(v);
                let old = self.load(t, &p)?;
                let w = t.scal().0;
                let new = match op.as_str() {
                    "xchg" => v,
                    "add" => Self::binop(BinOp::Add, w, &old, &v)?,
                    "sub" => Self::binop(BinOp::Sub, w, &old, &v)?,
                    "and" => Self::binop(BinOp::And, w, &old, &v)?,
                    "or" => Self::binop(BinOp::Or, w, &old, &v)?,
                    "xor" => Self::binop(BinOp::Xor, w, &old, &v)?,
                    "umax" | "umin" | "max" | "min" => {
                        let c = cx();
                        let (x, y) = (to_e(&old, w), to_e(&v, w));
                        let lt = if op.starts_with('u') { c.ult(x, y) } else { c.slt(x, y) };
                        e_to_val(if op.ends_with("min") { c.ite(lt, x, y) } else { c.ite(lt, y, x) })
                    }
                    "nand" => {
                        let a = Self::binop(BinOp::And, w, &old, &v)?;
                        let m = if w >= 64 { u64::MAX } else { (1u64 << w) - 1 };
                        Self::binop(BinOp::Xor, w, &a, &Val::C(m))?
                    }
                    o => return Err(Stop::Unsupported(format!("atomicrmw {}", o))),
                };
                self.store(t, &p, &new)?;
                self.setn(*d, old);
            }
            I::CmpXchg { t, d, p, c, n } => {
                let p = self.get(p);
                let (c, n) = (self.get(c), self.get(n));
                let old = self.load(t, &p)?;
                let w = t.scal().0;
                let eq = match Self::icmp(Pred::Eq, w, &old, &c) {
                    Val::C(k) => k == 1,
                    Val::E(e) => self.branch(e)?,
                    _ => false,
                };
                if eq {
                    self.store(t, &p, &n)?;
                }
                self.setn(*d, Val::A(Rc::new(vec![old, Val::C(eq as u64)])));
            }
            I::Nop => self.st.fr().ip += 1,
            I::Unsupported(s) => return Err(Stop::Unsupported(format!("instruction {}", s))),
            I::Call { d, callee, args, rt, next } => {
                let fi = match callee {
                    Callee::Direct(f) => *f,
                    Callee::Indirect(o) => {
                        let v = self.get(o);
                        let a = self.conc_val(&v)?;
                        match self.m.faddr.get(&a) {
                            Some(f) => *f,
                            None => return self.mem_fail("call through an invalid function pointer"),
                        }
                    }
                };
                let f = &self.m.funcs[fi];
                let mut sp: Sp = unsafe { std::mem::transmute(f.special.get()) };
                if sp == Sp::Unres {
                    sp = special(&f.name, f.text.is_some());
                    f.special.set(sp as u32);
                }
                if sp == Sp::None {
                    let body = self.m.body(fi);
                    let mut regs = vec![Val::C(0); body.nregs];
                    for (i, r) in body.params.iter().enumerate() {
                        if let Some(a) = args.get(i) {
                            regs[*r as usize] = self.get(a);
                        }
                    }
                    self.stats.funcs.insert(fi);
                    if self.st.frames.len() >= self.cfg.max_depth {
                        return Err(Stop::Fail("recursion", "call depth limit".into()));
                    }
                    self.st.frames.push(Rc::new(Frame {
                        func: fi,
                        block: 0,
                        ip: 0,
                        regs,
                        allocas: vec![],
                        ret: *d,
                        next: *next,
                    }));
                    self.st.maxd = self.st.maxd.max(self.st.frames.len());
                    self.stats.max_depth = self.stats.max_depth.max(self.st.frames.len());
                    return Ok(());
                }
                let av: Vec<Val> = args.iter().map(|a| self.get(a)).collect();
                let r = self.builtin(sp, &f.name, &av, rt)?;
                if let Some(d) = d {
                    self.set(*d, r);
                }
                match next {
                    None => self.st.fr().ip += 1,
                    Some(l) => self.jump(*l),
                }
            }
        }
        Ok(())
    }

    fn bitcast(&self, f: &Ty, t: &Ty, x: &Val) -> Val {
        let (fw, fl) = f.scal();
        let (tw, tl) = t.scal();
        if fl == 0 && tl == 0 {
            return x.clone();
        }
        // to one wide integer
        let c = cx();
        let whole = if fl == 0 {
            to_e(x, fw)
        } else {
            let mut acc: Option<E> = None;
            for v in Self::lanes(x) {
                let e = to_e(v, fw);
                acc = Some(match acc {
                    None => e,
                    Some(a) => c.concat(e, a),
                });
            }
            acc.unwrap()
        };
        if tl == 0 {
            e_to_val(whole)
        } else {
            Val::A(Rc::new((0..tl).map(|i| e_to_val(c.extract(whole, i * tw, tw))).collect()))
        }
    }

    fn lanewise(
        &mut self,
        t: &Ty,
        av: &[Val],
        f: &mut dyn FnMut(u32, &[Val]) -> R<Val>,
    ) -> R<Val> {
        let (w, l) = t.scal();
        if l == 0 {
            return f(w, av);
        }
        let mut out = vec![];
        for i in 0..l as usize {
            let xs: Vec<Val> = av
                .iter()
                .map(|v| match v {
                    Val::A(x) => x[i].clone(),
                    v => v.clone(),
                })
                .collect();
            out.push(f(w, &xs)?);
        }
        Ok(Val::A(Rc::new(out)))
    }

    fn builtin(&mut self, sp: Sp, name: &str, av: &[Val], rt: &TyR) -> R<Val> {
        let unit = Ok(Val::C(0));
        let c = cx();
        match sp {
            Sp::Nop => unit,
            Sp::Zero => Ok(Val::C(0)),
            // output to a descriptor is not part of any property: all of it is accepted
            Sp::WriteAll => Ok(av[2].clone()),
            Sp::Ret0 => unit,
            Sp::Panic => Err(Stop::Fail("panic", format!("panic in {}", name))),
            Sp::Trap | Sp::Abort => Err(Stop::Fail("panic", format!("abort in {}", name))),
            Sp::Alloc | Sp::AllocZ => {
                if let Val::E(e) = av[0] {
                    let e = self.subst(e);
                    let hi = c.inf(e).hi;
                    if c.kval(e).is_none() && hi <= 1 << 22 {
                        let p = self.st.mem.alloc(0, Kind::Heap);
                        let o = self.st.mem.get_mut(p >> 32);
                        o.size = hi as u64;
                        o.lim = e;
                        return Ok(Val::C(p));
                    }
                }
                if let Val::E(e) = av[0] {
                    let e = self.subst(e);
                    if c.kval(e).is_none() {
                        // sizes no machine has, then sizes out of proportion
                        for lim in [1u128 << 40, 1 << 30] {
                            let big = c.konst(64, lim);
                            let big = c.ult(big, e);
                            if self.branch(big)? {
                                return Err(Stop::Fail("alloc", format!("allocation of more than {} bytes", lim)));
                            }
                        }
                    }
                }
                let n = self.conc_val(&av[0])?;
                if n > 1 << 30 {
                    return Err(Stop::Fail("alloc", format!("allocation of {} bytes", n)));
                }
                Ok(Val::C(self.st.mem.alloc(n, Kind::Heap)))
            }
            Sp::Dealloc => {
                let a = self.conc_val(&av[0])?;
                let ok = a & 0xffff_ffff == 0
                    && self.st.mem.get(a >> 32).map_or(false, |o| o.kind == Kind::Heap);
                if !ok {
                    return self.mem_fail("invalid free");
                }
                self.st.mem.free(a >> 32);
                unit
            }
            Sp::Realloc => {
                let a = self.conc_val(&av[0])?;
                let n = self.conc_val(&av[3])?;
                let old = match self.st.mem.get(a >> 32) {
                    Some(o) if o.kind == Kind::Heap && a & 0xffff_ffff == 0 => o.clone(),
                    _ => return self.mem_fail("invalid realloc"),
                };
                if n > 1 << 30 {
                    return Err(Stop::Fail("alloc", format!("allocation of {} bytes", n)));
                }
                let p = self.st.mem.alloc(n, Kind::Heap);
                let k = (old.data.len() as u64).min(n) as usize;
                let o = self.st.mem.get_mut(p >> 32);
                o.data[..k].copy_from_slice(&old.data[..k]);
                if !old.sym.is_empty() {
                    o.sym = vec![0; n as usize];
                    o.sym[..k].copy_from_slice(&old.sym[..k]);
                }
                self.st.mem.free(a >> 32);
                Ok(Val::C(p))
            }
            Sp::Memcpy => {
                self.memcpy(&av[0], &av[1], &av[2])?;
                Ok(av[0].clone())
            }
            Sp::Memset => {
                let n = self.conc_val(&av[2])?;
                if n == 0 {
                    return Ok(av[0].clone());
                }
                let (id, off) = self.conc_ptr(&av[0], n)?;
                let v = match &av[1] {
                    Val::C(k) => Val::C(*k & 0xff),
                    Val::E(e) => e_to_val(c.extract(*e, 0, 8)),
                    _ => panic!("memset"),
                };
                let o = self.st.mem.get_mut(id);
                for i in 0..n {
                    Self::wr(o, off + i, 8, &v);
                }
                Ok(av[0].clone())
            }
            Sp::Bcmp | Sp::Memcmp => {
                let n = self.conc_val(&av[2])?;
                if n == 0 {
                    return Ok(Val::C(0));
                }
                let (i1, o1) = self.conc_ptr(&av[0], n)?;
                let (i2, o2) = self.conc_ptr(&av[1], n)?;
                let a = self.st.mem.get(i1).unwrap().clone();
                let b = self.st.mem.get(i2).unwrap().clone();
                let zero = c.konst(32, 0);
                let mut acc = zero;
                // from the last byte backwards
                for i in (0..n).rev() {
                    let x = to_e(&Self::rd(&a, o1 + i, 8), 8);
                    let y = to_e(&Self::rd(&b, o2 + i, 8), 8);
                    if x == y {
                        continue;
                    }
                    let q = c.eq(x, y);
                    if sp == Sp::Bcmp {
                        let one = c.konst(32, 1);
                        acc = c.ite(q, acc, one);
                    } else {
                        let (x32, y32) = (c.zext(x, 32), c.zext(y, 32));
                        let d = c.sub(x32, y32);
                        acc = c.ite(q, acc, d);
                    }
                }
                Ok(e_to_val(acc))
            }
            Sp::Strlen => {
                let (id, off) = self.conc_ptr(&av[0], 1)?;
                let o = self.st.mem.get(id).unwrap().clone();
                let mut i = off;
                loop {
                    if i >= o.size {
                        return self.mem_fail("strlen past the end");
                    }
                    match Self::rd(&o, i, 8) {
                        Val::C(0) => return Ok(Val::C(i - off)),
                        Val::C(_) => {}
                        Val::E(e) => {
                            let z = c.konst(8, 0);
                            let q = c.eq(e, z);
                            if self.branch(q)? {
                                return Ok(Val::C(i - off));
                            }
                        }
                        _ => {}
                    }
                    i += 1;
                }
            }
            Sp::SymVar => {
                let w = self.conc_val(&av[0])? as u32;
                let i = self.st.vars.len() as u32;
                self.st.vars.push(w);
                let mut m = (*self.st.model).clone();
                m.resize(self.st.vars.len(), 0);
                self.st.model = Rc::new(m);
                let v = c.var(i, w);
                Ok(e_to_val(c.zext(v, 64)))
            }
            Sp::SymAssume => {
                let e = to_e(&av[0], 1);
                let e = self.subst(e);
                match c.kval(e) {
                    Some(1) => return unit,
                    Some(_) => return Err(Stop::Kill),
                    None => {}
                }
                if self.eval(e) != 1 {
                    match self.sat(e) {
                        Res2::No => return Err(Stop::Kill),
                        Res2::Unknown => {
                            return Err(Stop::Unsupported("solver gave up on an assumption".into()))
                        }
                        Res2::Yes(m) => self.set_model(m),
                    }
                }
                Self::add_pc(&mut self.st, e);
                unit
            }
            Sp::SymAssert => {
                let label = self.conc_val(&av[0])? as u32;
                let code = self.conc_val(&av[1])? as u32;
                if label != 0 && label != self.cfg.label {
                    return unit;
                }
                let e = to_e(&av[2], 1);
                let e = self.subst(e);
                self.stats.asserts += 1;
                match c.kval(e) {
                    Some(1) => {
                        self.stats.asserts_trivial += 1;
                        return unit;
                    }
                    Some(_) => {
                        let m = self.st.model.clone();
                        self.violation(label, code, "assert", format!("assertion {}", code), &m);
                        return Err(Stop::Kill);
                    }
                    None => {}
                }
                let ne = c.not(e);
                if self.eval(e) != 1 {
                    let m = self.st.model.clone();
                    self.violation(label, code, "assert", format!("assertion {}", code), &m);
                    match self.sat(e) {
                        Res2::Yes(m) => self.set_model(m),
                        _ => return Err(Stop::Kill),
                    }
                    Self::add_pc(&mut self.st, e);
                    return unit;
                }
                match self.sat(ne) {
                    Res2::No => self.stats.asserts_proved += 1,
                    Res2::Unknown => {
                        return Err(Stop::Unsupported("solver gave up on an assertion".into()))
                    }
                    Res2::Yes(m) => {
                        self.violation(label, code, "assert", format!("assertion {}", code), &m);
                        Self::add_pc(&mut self.st, e);
                    }
                }
                unit
            }
            Sp::SymObs => {
                match &av[0] {
                    Val::C(k) => self.st.obs.push((0, *k)),
                    Val::E(e) => self.st.obs.push((*e, 0)),
                    _ => {}
                }
                unit
            }
            Sp::SymCover => {
                let k = self.conc_val(&av[0])? as u32;
                self.stats.covers.insert(k);
                unit
            }
            Sp::SymConc => Ok(Val::C(self.conc_val(&av[0])?)),
            Sp::SymIs => Ok(Val::C(1)),
            Sp::SymParam => {
                let k = self.conc_val(&av[0])? as usize;
                Ok(Val::C(self.cfg.params.get(k).copied().unwrap_or(0)))
            }
            // every static and thread-local variable back to its initial value
            Sp::SymReset => {
                self.st.fresh = !self.st.fresh;
                let m = self.m;
                for g in m.globals.iter().filter(|g| !g.konst) {
                    let id = g.addr >> 32;
                    let o = self.st.mem.get(id).unwrap();
                    if o.data != g.bytes || !o.sym.is_empty() {
                        let o = self.st.mem.get_mut(id);
                        o.data = g.bytes.clone();
                        o.sym = vec![];
                    }
                }
                Ok(Val::C(1))
            }
            Sp::SymHashWrite => {
                if self.cfg.hash.0 == 0 || self.st.fresh {
                    return unit;
                }
                let n = self.conc_val(&av[2])?;
                let (id, off) = self.conc_ptr(&av[0], 1)?;
                let mut b = vec![];
                if n > 0 {
                    let (i1, o1) = self.conc_ptr(&av[1], n)?;
                    let a = self.st.mem.get(i1).unwrap().clone();
                    for i in 0..n {
                        b.push(to_e(&Self::rd(&a, o1 + i, 8), 8));
                    }
                }
                self.st.fed.entry(id << 32 | off).or_default().extend(b);
                unit
            }
            // any hash function: equal keys of one map have equal hashes
            Sp::SymHash => {
                if self.cfg.hash.0 == 0 || self.st.fresh {
                    return Ok(Val::C(0));
                }
                let (id, off) = self.conc_ptr(&av[0], 32)?;
                let o = self.st.mem.get(id).unwrap().clone();
                let of = o.data[off as usize..off as usize + 32].to_vec();
                let key = self.st.fed.get(&(id << 32 | off)).cloned().unwrap_or_default();
                let n = self.st.hashes.len();
                let mut found = None;
                for i in 0..n {
                    let (ref f, ref k, h) = self.st.hashes[i];
                    if *f != of || k.len() != key.len() {
                        continue;
                    }
                    let k = k.clone();
                    let mut q = c.t();
                    for (x, y) in k.iter().zip(key.iter()) {
                        let e = c.eq(*x, *y);
                        q = c.and(q, e);
                    }
                    if self.branch(q)? {
                        found = Some(h);
                        break;
                    }
                }
                self.st.fed.remove(&(id << 32 | off));
                let h = match found {
                    Some(h) => h,
                    None => {
                        let w = self.cfg.hash.0;
                        let h = if self.st.hidden.len() < self.cfg.hash.1 {
                            let i = self.st.vars.len() as u32;
                            self.st.vars.push(w);
                            self.st.hidden.push(i);
                            let mut m = (*self.st.model).clone();
                            m.resize(self.st.vars.len(), 0);
                            self.st.model = Rc::new(m);
                            c.var(i, w)
                        } else {
                            c.konst(w, 0)
                        };
                        self.st.hashes.push((of, key, h));
                        h
                    }
                };
                Ok(e_to_val(c.zext(h, 64)))
            }
            // deepest call stack of this path since the last time it was asked
            Sp::SymDepth => {
                let d = self.st.maxd as u64;
                self.st.maxd = self.st.frames.len();
                Ok(Val::C(d))
            }
            Sp::RandKeys => Ok(Val::A(Rc::new(vec![Val::C(0x0123456789abcdef), Val::C(0x1122334455667788)]))),
            Sp::GetRandom => {
                // contents left at zero: they only seed SipHash, whose result is stubbed
                self.conc_ptr(&av[0], 1)?;
                Ok(av[1].clone())
            }
            Sp::UMin | Sp::UMax | Sp::SMin | Sp::SMax => {
                self.lanewise(rt, av, &mut |w, a| {
                    let (x, y) = (to_e(&a[0], w), to_e(&a[1], w));
                    let c = cx();
                    let lt = match sp {
                        Sp::UMin | Sp::UMax => c.ult(x, y),
                        _ => c.slt(x, y),
                    };
                    Ok(e_to_val(match sp {
                        Sp::UMin | Sp::SMin => c.ite(lt, x, y),
                        _ => c.ite(lt, y, x),
                    }))
                })
            }
            Sp::UAddO | Sp::USubO | Sp::UMulO | Sp::SAddO | Sp::SSubO | Sp::SMulO => {
                let w = match &**rt {
                    Ty::Struct(f, _) => f[0].scal().0,
                    _ => panic!("with.overflow"),
                };
                let (x, y) = (to_e(&av[0], w), to_e(&av[1], w));
                let (ix, iy) = (c.inf(x), c.inf(y));
                let (r, o) = match sp {
                    Sp::UAddO => {
                        let r = c.add(x, y);
                        let safe = ix.hi.checked_add(iy.hi).map_or(false, |h| h <= mask(w));
                        let o = if safe { c.f() } else { c.ult(r, x) };
                        (r, o)
                    }
                    Sp::USubO => (c.sub(x, y), c.ult(x, y)),
                    Sp::UMulO => {
                        let r = c.mul(x, y);
                        let safe = ix.hi.checked_mul(iy.hi).map_or(false, |h| h <= mask(w));
                        let o = if safe {
                            c.f()
                        } else if w <= 64 {
                            let (a, b) = (c.zext(x, 2 * w), c.zext(y, 2 * w));
                            let p = c.mul(a, b);
                            let h = c.extract(p, w, w);
                            let z = c.konst(w, 0);
                            let q = c.eq(h, z);
                            c.not(q)
                        } else {
                            return Err(Stop::Unsupported("128-bit mul overflow".into()));
                        };
                        (r, o)
                    }
                    _ => {
                        if w > 63 {
                            // 64-bit signed: via 128 bits
                            if w > 64 {
                                return Err(Stop::Unsupported("128-bit signed overflow".into()));
                            }
                        }
                        let (a, b) = (c.sext(x, 2 * w), c.sext(y, 2 * w));
                        let p = match sp {
                            Sp::SAddO => c.add(a, b),
                            Sp::SSubO => c.sub(a, b),
                            _ => c.mul(a, b),
                        };
                        let r = c.extract(p, 0, w);
                        let back = c.sext(r, 2 * w);
                        let q = c.eq(back, p);
                        (r, c.not(q))
                    }
                };
                Ok(Val::A(Rc::new(vec![e_to_val(r), e_to_val(o)])))
            }
            Sp::UAddSat | Sp::USubSat => self.lanewise(rt, av, &mut |w, a| {
                let c = cx();
                let (x, y) = (to_e(&a[0], w), to_e(&a[1], w));
                Ok(e_to_val(if sp == Sp::UAddSat {
                    let r = c.add(x, y);
                    let o = c.ult(r, x);
                    let m = c.konst(w, !0);
                    c.ite(o, m, r)
                } else {
                    let r = c.sub(x, y);
                    let o = c.ult(x, y);
                    let m = c.konst(w, 0);
                    c.ite(o, m, r)
                }))
            }),
            Sp::Fshl | Sp::Fshr => self.lanewise(rt, av, &mut |w, a| {
                let c = cx();
                let (x, y, s) = (to_e(&a[0], w), to_e(&a[1], w), to_e(&a[2], w));
                let k = match c.kval(s) {
                    Some(k) => (k % w as u128) as u32,
                    None => return Err(Stop::Unsupported("symbolic funnel shift".into())),
                };
                let k = if sp == Sp::Fshl { k } else { (w - k) % w };
                // fshl by k
                if k == 0 {
                    return Ok(e_to_val(if sp == Sp::Fshl { x } else { y }));
                }
                let hi = c.extract(x, 0, w - k);
                let lo = c.extract(y, w - k, k);
                Ok(e_to_val(c.concat(hi, lo)))
            }),
            Sp::Ctpop => self.lanewise(rt, &av[..1], &mut |w, a| {
                let c = cx();
                let x = to_e(&a[0], w);
                let mut acc = c.konst(w, 0);
                for i in 0..w {
                    let b = c.extract(x, i, 1);
                    let z = c.zext(b, w);
                    acc = c.add(acc, z);
                }
                Ok(e_to_val(acc))
            }),
            Sp::Ctlz | Sp::Cttz => self.lanewise(rt, &av[..1], &mut |w, a| {
                let c = cx();
                let x = to_e(&a[0], w);
                if let Some(k) = c.kval(x) {
                    let r = if sp == Sp::Ctlz {
                        (k << (128 - w)).leading_zeros().min(w)
                    } else {
                        k.trailing_zeros().min(w)
                    };
                    return Ok(crate::expr::kval(w, r as u128));
                }
                let mut acc = c.konst(w, w as u128);
                for i in 0..w {
                    // last processed has priority
                    let bit = if sp == Sp::Ctlz { i } else { w - 1 - i };
                    let n = if sp == Sp::Ctlz { w - 1 - i } else { w - 1 - i };
                    let b = c.extract(x, bit, 1);
                    let k = c.konst(w, n as u128);
                    acc = c.ite(b, k, acc);
                }
                Ok(e_to_val(acc))
            }),
            Sp::Bswap => self.lanewise(rt, av, &mut |w, a| {
                let c = cx();
                let x = to_e(&a[0], w);
                let mut acc: Option<E> = None;
                // least significant output byte = most significant input byte
                for i in 0..w / 8 {
                    let b = c.extract(x, w - 8 * (i + 1), 8);
                    acc = Some(match acc {
                        None => b,
                        Some(p) => c.concat(b, p),
                    });
                }
                Ok(e_to_val(acc.unwrap()))
            }),
            Sp::Bitrev => self.lanewise(rt, av, &mut |w, a| {
                let c = cx();
                let x = to_e(&a[0], w);
                let mut acc: Option<E> = None;
                for i in 0..w {
                    let b = c.extract(x, w - 1 - i, 1);
                    acc = Some(match acc {
                        None => b,
                        Some(p) => c.concat(b, p),
                    });
                }
                Ok(e_to_val(acc.unwrap()))
            }),
            Sp::Abs => self.lanewise(rt, &av[..1], &mut |w, a| {
                let c = cx();
                let x = to_e(&a[0], w);
                let z = c.konst(w, 0);
                let s = c.slt(x, z);
                let n = c.sub(z, x);
                Ok(e_to_val(c.ite(s, n, x)))
            }),
            Sp::Ucmp | Sp::Scmp => {
                // operand width from the intrinsic name: llvm.ucmp.i8.i64
                let ow: u32 = name.rsplit(".i").next().and_then(|s| s.parse().ok()).unwrap_or(64);
                let w = rt.scal().0;
                let (x, y) = (to_e(&av[0], ow), to_e(&av[1], ow));
                let (lt, gt) = if sp == Sp::Ucmp {
                    (c.ult(x, y), c.ult(y, x))
                } else {
                    (c.slt(x, y), c.slt(y, x))
                };
                let (m1, z, p1) = (c.konst(w, !0), c.konst(w, 0), c.konst(w, 1));
                let i = c.ite(gt, p1, z);
                Ok(e_to_val(c.ite(lt, m1, i)))
            }
            Sp::Expect | Sp::Ident0 => Ok(av[0].clone()),
            Sp::IsConst => unit,
            Sp::LoadRel => {
                let off = self.conc_val(&av[1])?;
                let base = self.conc_val(&av[0])?;
                let v = self.load(&Ty::Int(32), &Val::C(base.wrapping_add(off)))?;
                match v {
                    Val::C(k) => Ok(Val::C(base.wrapping_add(sext(k, 32)))),
                    _ => Err(Stop::Unsupported("load.relative".into())),
                }
            }
            Sp::RedAdd | Sp::RedOr | Sp::RedAnd | Sp::RedXor | Sp::RedUMax | Sp::RedUMin => {
                let w = rt.scal().0;
                let mut acc: Option<E> = None;
                for v in Self::lanes(av.last().unwrap()) {
                    let e = to_e(v, w);
                    acc = Some(match acc {
                        None => e,
                        Some(a) => match sp {
                            Sp::RedAdd => c.add(a, e),
                            Sp::RedOr => c.or(a, e),
                            Sp::RedAnd => c.and(a, e),
                            Sp::RedXor => c.xor(a, e),
                            Sp::RedUMax => {
                                let l = c.ult(a, e);
                                c.ite(l, e, a)
                            }
                            _ => {
                                let l = c.ult(a, e);
                                c.ite(l, a, e)
                            }
                        },
                    });
                }
                Ok(e_to_val(acc.unwrap()))
            }
            Sp::Movmsk => {
                let mut acc = c.konst(32, 0);
                for (i, v) in Self::lanes(&av[0]).iter().enumerate() {
                    let e = to_e(v, 8);
                    let b = c.extract(e, 7, 1);
                    let z = c.zext(b, 32);
                    let k = c.konst(32, i as u128);
                    let z = c.shl(z, k);
                    acc = c.or(acc, z);
                }
                Ok(e_to_val(acc))
            }
            Sp::ObjSize => Ok(Val::C(u64::MAX)),
            Sp::None | Sp::Unres | Sp::Unsup => {
                Err(Stop::Unsupported(format!("call to {}", name)))
            }
        }
    }
}

pub enum Off {
    C(u64),
    E(E),
}

enum Res2 {
    No,
    Unknown,
    Yes(Vec<u64>),
}

extern "C" {
    #[link_name = "fork"]
    fn libc_fork() -> i32;
    fn _exit(c: i32) -> !;
    fn getpid() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
}

pub fn deadline(secs: f64) -> Instant {
    Instant::now() + Duration::from_millis((secs * 1000.0) as u64)
}
