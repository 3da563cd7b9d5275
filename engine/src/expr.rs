//! Hash-consed bit-vector expressions with local simplification.
use std::collections::HashMap;
use std::rc::Rc;

pub type E = u32;

#[derive(Clone, Debug)]
pub enum Val {
    C(u64),
    E(E),
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Slt,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u32,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

#[derive(Clone, Copy)]
pub struct Info {
    pub lo: u128,
    pub hi: u128,
    pub kz: u128, // bits known to be zero
    pub vs: u32,  // interned variable set
    pub iteconst: bool,
}

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub info: Vec<Info>,
    map: HashMap<Node, E>,
    pub vsets: Vec<Rc<[u32]>>,
    vmap: HashMap<Rc<[u32]>, u32>,
    vunion: HashMap<(u32, u32), u32>,
    // evaluation memo
    ev: Vec<(u64, u32)>,
    ev128: HashMap<E, u128>,
    gen: u32,
    sub_memo: HashMap<E, E>,
}

static mut CX: *mut Ctx = std::ptr::null_mut();

pub fn init() {
    let mut c = Ctx {
        nodes: vec![],
        info: vec![],
        map: HashMap::new(),
        vsets: vec![],
        vmap: HashMap::new(),
        vunion: HashMap::new(),
        ev: vec![],
        ev128: HashMap::new(),
        gen: 1,
        sub_memo: HashMap::new(),
    };
    c.vset(&[]);
    // node 0 is a dummy
    c.konst(1, 0);
    unsafe {
        CX = Box::into_raw(Box::new(c));
    }
}

pub fn cx() -> &'static mut Ctx {
    unsafe { &mut *CX }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn kval(w: u32, v: u128) -> Val {
    if w <= 64 {
        Val::C((v & mask(w)) as u64)
    } else {
        Val::E(cx().konst(w, v))
    }
}

fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

impl Ctx {
    fn vset(&mut self, v: &[u32]) -> u32 {
        if let Some(i) = self.vmap.get(v) {
            return *i;
        }
        let r: Rc<[u32]> = v.to_vec().into();
        let i = self.vsets.len() as u32;
        self.vsets.push(r.clone());
        self.vmap.insert(r, i);
        i
    }
    fn vuni(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == 0 {
            return a;
        }
        if a == 0 {
            return b;
        }
        let key = if a < b { (a, b) } else { (b, a) };
        if let Some(r) = self.vunion.get(&key) {
            return *r;
        }
        let mut v: Vec<u32> = self.vsets[a as usize].to_vec();
        v.extend_from_slice(&self.vsets[b as usize]);
        v.sort();
        v.dedup();
        let r = self.vset(&v);
        self.vunion.insert(key, r);
        r
    }
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w
    }
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn inf(&self, e: E) -> Info {
        self.info[e as usize]
    }
    pub fn kval(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn vars(&self, e: E) -> Rc<[u32]> {
        self.vsets[self.info[e as usize].vs as usize].clone()
    }

    fn mk(&mut self, n: Node) -> E {
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let inf = self.mkinfo(&n);
        if n.op != Op::Const && n.op != Op::Var && inf.lo == inf.hi {
            let k = self.konst(n.w, inf.lo);
            self.map.insert(n, k);
            return k;
        }
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.info.push(inf);
        self.ev.push((0, 0));
        self.map.insert(n, e);
        e
    }

    fn mkinfo(&mut self, n: &Node) -> Info {
        let m = mask(n.w);
        let mut r = Info { lo: 0, hi: m, kz: !m, vs: 0, iteconst: false };
        let ia = if matches!(n.op, Op::Const | Op::Var) { r } else { self.info[n.a as usize] };
        let two = !matches!(n.op, Op::Const | Op::Var | Op::Extract | Op::ZExt | Op::SExt);
        let ib = if two { self.info[n.b as usize] } else { r };
        match n.op {
            Op::Const => {
                r.lo = n.k;
                r.hi = n.k;
                r.kz = !n.k;
                return r;
            }
            Op::Var => {
                r.vs = self.vset(&[n.a]);
                return r;
            }
            Op::Add => {
                if let Some(h) = ia.hi.checked_add(ib.hi) {
                    if h <= m {
                        r.lo = ia.lo + ib.lo;
                        r.hi = h;
                    } else if ia.lo.checked_add(ib.lo).map_or(true, |l| l > m) && n.w < 128 {
                        // always wraps exactly once
                        r.lo = (ia.lo + ib.lo) & m;
                        r.hi = h & m;
                    }
                }
                let tz = (ia.kz.trailing_ones()).min(ib.kz.trailing_ones());
                r.kz |= if tz >= 128 { !0 } else { (1u128 << tz) - 1 };
            }
            Op::Sub => {
                if ia.lo >= ib.hi {
                    r.lo = ia.lo - ib.hi;
                    r.hi = ia.hi - ib.lo;
                }
            }
            Op::Mul => {
                if let Some(h) = ia.hi.checked_mul(ib.hi) {
                    if h <= m {
                        r.lo = ia.lo * ib.lo;
                        r.hi = h;
                    }
                }
                let tz = (ia.kz.trailing_ones() + ib.kz.trailing_ones()).min(127);
                r.kz |= (1u128 << tz) - 1;
            }
            Op::UDiv => {
                if ib.lo > 0 {
                    r.lo = ia.lo / ib.hi;
                    r.hi = ia.hi / ib.lo;
                }
            }
            Op::URem => {
                if ib.lo > 0 {
                    r.hi = (ib.hi - 1).min(ia.hi);
                }
            }
            Op::And => {
                r.kz |= ia.kz | ib.kz;
                r.hi = ia.hi.min(ib.hi);
            }
            Op::Or => {
                r.kz |= ia.kz & ib.kz;
                r.lo = ia.lo.max(ib.lo);
            }
            Op::Xor => {
                r.kz |= ia.kz & ib.kz;
            }
            Op::Eq | Op::Ult | Op::Slt => {}
            Op::Ite => {
                let ic = self.info[n.c as usize];
                // a = cond, b = then, c = else
                r.lo = ib.lo.min(ic.lo);
                r.hi = ib.hi.max(ic.hi);
                r.kz |= ib.kz & ic.kz;
                let kb = self.nodes[n.b as usize].op == Op::Const || ib.iteconst;
                let kc = self.nodes[n.c as usize].op == Op::Const || ic.iteconst;
                r.iteconst = kb && kc;
            }
            Op::Concat => {
                let wl = self.w(n.b);
                r.lo = (ia.lo << wl) | ib.lo;
                r.hi = (ia.hi << wl) | ib.hi;
                r.kz = (ia.kz << wl) | (ib.kz & mask(wl)) | !m;
            }
            Op::Extract => {
                r.kz |= ia.kz >> n.b;
                if n.b == 0 && ia.hi <= m {
                    r.lo = ia.lo;
                    r.hi = ia.hi;
                }
                if n.b + n.w == self.w(n.a) {
                    r.lo = ia.lo >> n.b;
                    r.hi = ia.hi >> n.b;
                }
            }
            Op::ZExt => {
                r.lo = ia.lo;
                r.hi = ia.hi;
                r.kz |= ia.kz;
            }
            Op::SExt | Op::Shl | Op::AShr => {}
            Op::LShr => {
                r.hi = ia.hi;
            }
            Op::SDiv | Op::SRem => {}
        }
        r.hi = r.hi.min(!r.kz);
        r.vs = ia.vs;
        if two {
            r.vs = self.vuni(r.vs, ib.vs);
        }
        if n.op == Op::Ite {
            let vc = self.info[n.c as usize].vs;
            r.vs = self.vuni(r.vs, vc);
        }
        if r.lo > r.hi {
            r.lo = r.hi;
        }
        r
    }

    pub fn konst(&mut self, w: u32, v: u128) -> E {
        let n = Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: v & mask(w) };
        if let Some(e) = self.map.get(&n) {
            return *e;
        }
        let e = self.nodes.len() as E;
        let k = n.k;
        self.nodes.push(n);
        self.info.push(Info { lo: k, hi: k, kz: !k, vs: 0, iteconst: false });
        self.ev.push((0, 0));
        self.map.insert(n, e);
        e
    }
    pub fn var(&mut self, idx: u32, w: u32) -> E {
        self.mk(Node { op: Op::Var, w, a: idx, b: 0, c: 0, k: 0 })
    }
    fn bin(&mut self, op: Op, w: u32, a: E, b: E) -> E {
        self.mk(Node { op, w, a, b, c: 0, k: 0 })
    }
    pub fn t(&mut self) -> E {
        self.konst(1, 1)
    }
    pub fn f(&mut self) -> E {
        self.konst(1, 0)
    }

    fn map_ite(&mut self, e: E, f: &mut dyn FnMut(&mut Ctx, E) -> E) -> E {
        let n = self.n(e);
        if n.op == Op::Ite {
            let b = self.map_ite(n.b, f);
            let c = self.map_ite(n.c, f);
            self.ite(n.a, b, c)
        } else {
            f(self, e)
        }
    }

    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (ka, kb) = (self.kval(a), self.kval(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.konst(w, x.wrapping_add(y));
        }
        if ka.is_some() {
            return self.add(b, a);
        }
        if let Some(y) = kb {
            if y == 0 {
                return a;
            }
            if w == 1 {
                return self.xor(a, b);
            }
            let na = self.n(a);
            if na.op == Op::Add {
                if let Some(x) = self.kval(na.b) {
                    let k = self.konst(w, x.wrapping_add(y));
                    return self.add(na.a, k);
                }
            }
            if self.inf(a).iteconst {
                return self.map_ite(a, &mut |c, e| c.add(e, b));
            }
            // disjoint bits: an or
            if (!self.inf(a).kz) & y == 0 && na.op != Op::Var {
                return self.or(a, b);
            }
            return self.bin(Op::Add, w, a, b);
        }
        // (x + c) + y -> (x + y) + c
        let na = self.n(a);
        if na.op == Op::Add && self.kval(na.b).is_some() {
            let s = self.add(na.a, b);
            return self.add(s, na.b);
        }
        let nb = self.n(b);
        if nb.op == Op::Add && self.kval(nb.b).is_some() {
            let s = self.add(a, nb.a);
            return self.add(s, nb.b);
        }
        // x + (y - x)
        if nb.op == Op::Sub && nb.b == a {
            return nb.a;
        }
        if na.op == Op::Sub && na.b == b {
            return na.a;
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.bin(Op::Add, w, a, b)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.konst(w, 0);
        }
        if let Some(y) = self.kval(b) {
            let k = self.konst(w, 0u128.wrapping_sub(y));
            return self.add(a, k);
        }
        let (na, nb) = (self.n(a), self.n(b));
        // (x + c1) - (x + c2), (x+c)-x
        let (xa, ca) = if na.op == Op::Add && self.kval(na.b).is_some() {
            (na.a, self.kval(na.b).unwrap())
        } else {
            (a, 0)
        };
        let (xb, cb) = if nb.op == Op::Add && self.kval(nb.b).is_some() {
            (nb.a, self.kval(nb.b).unwrap())
        } else {
            (b, 0)
        };
        if xa == xb {
            return self.konst(w, ca.wrapping_sub(cb));
        }
        if self.inf(b).iteconst && self.kval(a).is_some() {
            return self.map_ite(b, &mut |c, e| c.sub(a, e));
        }
        if ca != 0 || cb != 0 {
            let s = self.sub(xa, xb);
            let k = self.konst(w, ca.wrapping_sub(cb));
            return self.add(s, k);
        }
        let n2 = self.n(a);
        if n2.op == Op::Add {
            if n2.a == b {
                return n2.b;
            }
            if n2.b == b {
                return n2.a;
            }
        }
        self.bin(Op::Sub, w, a, b)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let (ka, kb) = (self.kval(a), self.kval(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.konst(w, x.wrapping_mul(y));
        }
        if ka.is_some() {
            return self.mul(b, a);
        }
        if let Some(y) = kb {
            if y == 0 {
                return b;
            }
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                let k = self.konst(w, y.trailing_zeros() as u128);
                return self.shl(a, k);
            }
            if self.inf(a).iteconst {
                return self.map_ite(a, &mut |c, e| c.mul(e, b));
            }
            let na = self.n(a);
            if na.op == Op::Add {
                if let Some(x) = self.kval(na.b) {
                    let m = self.mul(na.a, b);
                    let k = self.konst(w, x.wrapping_mul(y));
                    return self.add(m, k);
                }
            }
            return self.bin(Op::Mul, w, a, b);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.bin(Op::Mul, w, a, b)
    }
    pub fn udiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.kval(b) {
            if let Some(x) = self.kval(a) {
                return if y == 0 { self.konst(w, !0) } else { self.konst(w, x / y) };
            }
            if y == 1 {
                return a;
            }
            if y != 0 && y.is_power_of_two() {
                let k = self.konst(w, y.trailing_zeros() as u128);
                return self.lshr(a, k);
            }
            if y != 0 {
                let na = self.n(a);
                if na.op == Op::ZExt {
                    let iw = self.w(na.a);
                    if y <= mask(iw) {
                        let k = self.konst(iw, y);
                        let d = self.udiv(na.a, k);
                        return self.zext(d, w);
                    } else {
                        return self.konst(w, 0);
                    }
                }
                // (x / c1) / c2
                if na.op == Op::UDiv {
                    if let Some(c1) = self.kval(na.b) {
                        if let Some(p) = c1.checked_mul(y) {
                            if p <= mask(w) {
                                let k = self.konst(w, p);
                                return self.udiv(na.a, k);
                            }
                        }
                    }
                }
                if self.inf(a).iteconst {
                    return self.map_ite(a, &mut |c, e| c.udiv(e, b));
                }
            }
        }
        self.bin(Op::UDiv, w, a, b)
    }
    pub fn urem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(y) = self.kval(b) {
            if let Some(x) = self.kval(a) {
                return if y == 0 { a } else { self.konst(w, x % y) };
            }
            if y != 0 && y.is_power_of_two() {
                let k = self.konst(w, y - 1);
                return self.and(a, k);
            }
            if y != 0 {
                if self.inf(a).hi < y {
                    return a;
                }
                let na = self.n(a);
                if na.op == Op::ZExt {
                    let iw = self.w(na.a);
                    if y <= mask(iw) {
                        let k = self.konst(iw, y);
                        let d = self.urem(na.a, k);
                        return self.zext(d, w);
                    }
                }
                // a - (a / y) * y, so that division nodes are shared
                let q = self.udiv(a, b);
                let p = self.mul(q, b);
                let _ = p;
            }
        }
        self.bin(Op::URem, w, a, b)
    }
    pub fn sdiv(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.kval(a), self.kval(b)) {
            if y != 0 {
                return self.konst(w, sx(x, w).wrapping_div(sx(y, w)) as u128);
            }
        }
        self.bin(Op::SDiv, w, a, b)
    }
    pub fn srem(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.kval(a), self.kval(b)) {
            if y != 0 {
                return self.konst(w, sx(x, w).wrapping_rem(sx(y, w)) as u128);
            }
        }
        self.bin(Op::SRem, w, a, b)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let k = self.konst(w, !0);
        self.xor(a, k)
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (ka, kb) = (self.kval(a), self.kval(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.konst(w, x & y);
        }
        if ka.is_some() {
            return self.and(b, a);
        }
        if let Some(y) = kb {
            if y == 0 {
                return b;
            }
            if y == mask(w) {
                return a;
            }
            if (!self.inf(a).kz) & !y & mask(w) == 0 {
                return a;
            }
            if self.inf(a).iteconst {
                return self.map_ite(a, &mut |c, e| c.and(e, b));
            }
            // contiguous runs of ones: pieces
            let runs = (y ^ (y << 1)).count_ones();
            if runs <= 4 || self.has_pieces(a) {
                // build from pieces of constant mask
                let mut out: Option<E> = None;
                let mut pos = 0;
                while pos < w {
                    let bit = (y >> pos) & 1;
                    let mut end = pos;
                    while end < w && (y >> end) & 1 == bit {
                        end += 1;
                    }
                    let piece = if bit == 1 {
                        self.extract(a, pos, end - pos)
                    } else {
                        self.konst(end - pos, 0)
                    };
                    out = Some(match out {
                        None => piece,
                        Some(o) => self.concat(piece, o),
                    });
                    pos = end;
                }
                return out.unwrap();
            }
            return self.bin(Op::And, w, a, b);
        }
        if w == 1 {
            let (na, nb) = (self.not(a), self.not(b));
            if na == b || nb == a {
                return self.konst(1, 0);
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        if (!self.inf(a).kz) & (!self.inf(b).kz) & mask(w) == 0 {
            return self.konst(w, 0);
        }
        self.bin(Op::And, w, a, b)
    }
    fn has_pieces(&self, a: E) -> bool {
        matches!(self.n(a).op, Op::Concat | Op::ZExt)
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (ka, kb) = (self.kval(a), self.kval(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.konst(w, x | y);
        }
        if ka.is_some() {
            return self.or(b, a);
        }
        if let Some(y) = kb {
            if y == 0 {
                return a;
            }
            if y == mask(w) {
                return b;
            }
            if self.inf(a).iteconst {
                return self.map_ite(a, &mut |c, e| c.or(e, b));
            }
            if w > 1 {
                // pieces: ones where the mask is one
                let runs = (y ^ (y << 1)).count_ones();
                if runs <= 4 || self.has_pieces(a) {
                    let mut out: Option<E> = None;
                    let mut pos = 0;
                    while pos < w {
                        let bit = (y >> pos) & 1;
                        let mut end = pos;
                        while end < w && (y >> end) & 1 == bit {
                            end += 1;
                        }
                        let piece = if bit == 0 {
                            self.extract(a, pos, end - pos)
                        } else {
                            self.konst(end - pos, !0)
                        };
                        out = Some(match out {
                            None => piece,
                            Some(o) => self.concat(piece, o),
                        });
                        pos = end;
                    }
                    return out.unwrap();
                }
            }
            return self.bin(Op::Or, w, a, b);
        }
        if w == 1 {
            let na = self.not(a);
            if na == b {
                return self.konst(1, 1);
            }
        } else if self.has_pieces(a) || self.has_pieces(b) {
            // split at piece boundaries where one side is zero
            let mut pa = vec![];
            let mut pb = vec![];
            self.pieces(a, &mut pa);
            self.pieces(b, &mut pb);
            // lists from the least significant end: (expr, width)
            let mut cuts: Vec<u32> = vec![];
            let mut p = 0;
            for x in &pa {
                p += self.w(*x);
                cuts.push(p);
            }
            p = 0;
            for x in &pb {
                p += self.w(*x);
                cuts.push(p);
            }
            cuts.sort();
            cuts.dedup();
            let mut worth = false;
            let mut segs = vec![];
            let mut st = 0;
            for c in cuts {
                let sa = self.extract(a, st, c - st);
                let sb = self.extract(b, st, c - st);
                if self.kval(sa) == Some(0) || self.kval(sb) == Some(0) {
                    worth = true;
                }
                segs.push((sa, sb));
                st = c;
            }
            if worth {
                let mut out: Option<E> = None;
                for (sa, sb) in segs {
                    let o = if self.kval(sa) == Some(0) {
                        sb
                    } else if self.kval(sb) == Some(0) {
                        sa
                    } else {
                        self.or(sa, sb)
                    };
                    out = Some(match out {
                        None => o,
                        Some(x) => self.concat(o, x),
                    });
                }
                return out.unwrap();
            }
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.bin(Op::Or, w, a, b)
    }
    fn pieces(&mut self, a: E, out: &mut Vec<E>) {
        let n = self.n(a);
        match n.op {
            Op::Concat => {
                self.pieces(n.b, out);
                self.pieces(n.a, out);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                self.pieces(n.a, out);
                let z = self.konst(n.w - iw, 0);
                out.push(z);
            }
            _ => out.push(a),
        }
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.konst(w, 0);
        }
        let (ka, kb) = (self.kval(a), self.kval(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.konst(w, x ^ y);
        }
        if ka.is_some() {
            return self.xor(b, a);
        }
        if let Some(y) = kb {
            if y == 0 {
                return a;
            }
            let na = self.n(a);
            if na.op == Op::Xor {
                if let Some(x) = self.kval(na.b) {
                    let k = self.konst(w, x ^ y);
                    return self.xor(na.a, k);
                }
            }
            if self.inf(a).iteconst {
                return self.map_ite(a, &mut |c, e| c.xor(e, b));
            }
            if na.op == Op::Concat || na.op == Op::ZExt {
                let wl = if na.op == Op::Concat { self.w(na.b) } else { self.w(na.a) };
                let lo = self.extract(a, 0, wl);
                let hi = self.extract(a, wl, w - wl);
                let klo = self.konst(wl, y);
                let khi = self.konst(w - wl, y >> wl);
                let l = self.xor(lo, klo);
                let h = self.xor(hi, khi);
                return self.concat(h, l);
            }
            return self.bin(Op::Xor, w, a, b);
        }
        // push not outwards
        let (na, nb) = (self.n(a), self.n(b));
        if na.op == Op::Xor && self.kval(na.b).is_some() {
            let x = self.xor(na.a, b);
            return self.xor(x, na.b);
        }
        if nb.op == Op::Xor && self.kval(nb.b).is_some() {
            let x = self.xor(a, nb.a);
            return self.xor(x, nb.b);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.bin(Op::Xor, w, a, b)
    }
    pub fn shl(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.kval(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.konst(w, 0);
            }
            let k = k as u32;
            let hi = self.extract(a, 0, w - k);
            let z = self.konst(k, 0);
            return self.concat(hi, z);
        }
        if self.inf(b).iteconst {
            return self.map_ite(b, &mut |c, e| c.shl(a, e));
        }
        self.bin(Op::Shl, w, a, b)
    }
    pub fn lshr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.kval(b) {
            if k == 0 {
                return a;
            }
            if k >= w as u128 {
                return self.konst(w, 0);
            }
            let k = k as u32;
            let lo = self.extract(a, k, w - k);
            return self.zext(lo, w);
        }
        if self.inf(b).iteconst {
            return self.map_ite(b, &mut |c, e| c.lshr(a, e));
        }
        self.bin(Op::LShr, w, a, b)
    }
    pub fn ashr(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(k) = self.kval(b) {
            if k == 0 {
                return a;
            }
            let k = (k.min((w - 1) as u128)) as u32;
            let lo = self.extract(a, k, w - k);
            return self.sext(lo, w);
        }
        self.bin(Op::AShr, w, a, b)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let iw = self.w(a);
        if iw == w {
            return a;
        }
        if let Some(k) = self.kval(a) {
            return self.konst(w, k);
        }
        let n = self.n(a);
        if n.op == Op::ZExt {
            return self.mk(Node { op: Op::ZExt, w, a: n.a, b: 0, c: 0, k: 0 });
        }
        if self.inf(a).iteconst {
            return self.map_ite(a, &mut |c, e| c.zext(e, w));
        }
        self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let iw = self.w(a);
        if iw == w {
            return a;
        }
        if let Some(k) = self.kval(a) {
            return self.konst(w, sx(k, iw) as u128);
        }
        if (self.inf(a).kz >> (iw - 1)) & 1 == 1 {
            return self.zext(a, w);
        }
        if self.inf(a).iteconst {
            return self.map_ite(a, &mut |c, e| c.sext(e, w));
        }
        if iw == 1 {
            let t = self.konst(w, !0);
            let f = self.konst(w, 0);
            return self.ite(a, t, f);
        }
        self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if w == aw {
            return a;
        }
        if let Some(k) = self.kval(a) {
            return self.konst(w, k >> lo);
        }
        let n = self.n(a);
        // all bits known zero?
        if ((!self.inf(a).kz) >> lo) & mask(w) == 0 {
            return self.konst(w, 0);
        }
        match n.op {
            Op::Extract => return self.extract(n.a, n.b + lo, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo + w <= wl {
                    return self.extract(n.b, lo, w);
                }
                if lo >= wl {
                    return self.extract(n.a, lo - wl, w);
                }
                let l = self.extract(n.b, lo, wl - lo);
                let h = self.extract(n.a, 0, w - (wl - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo < iw {
                    let x = self.extract(n.a, lo, iw - lo);
                    return self.sext(x, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return match n.op {
                    Op::And => self.and(x, y),
                    Op::Or => self.or(x, y),
                    _ => self.xor(x, y),
                };
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return match n.op {
                    Op::Add => self.add(x, y),
                    Op::Sub => self.sub(x, y),
                    _ => self.mul(x, y),
                };
            }
            Op::Ite => {
                let kb = self.kval(n.b).is_some() || self.inf(n.b).iteconst;
                let kc = self.kval(n.c).is_some() || self.inf(n.c).iteconst;
                if kb || kc {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w, a, b: lo, c: 0, k: 0 })
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        let w = wh + wl;
        if let (Some(x), Some(y)) = (self.kval(h), self.kval(l)) {
            return self.konst(w, (x << wl) | y);
        }
        let (nh, nl) = (self.n(h), self.n(l));
        if self.kval(h) == Some(0) {
            return self.zext(l, w);
        }
        if nh.op == Op::ZExt {
            let x = self.concat(nh.a, l);
            return self.zext(x, w);
        }
        if nh.op == Op::Concat {
            let x = self.concat(nh.b, l);
            return self.concat(nh.a, x);
        }
        // adjacent extracts
        let src = |n: &Node, e: E| -> (E, u32) {
            if n.op == Op::Extract {
                (n.a, n.b)
            } else {
                (e, 0)
            }
        };
        let (sh, oh) = src(&nh, h);
        if nl.op == Op::Concat {
            let nx = self.n(nl.a);
            let (sl, ol) = src(&nx, nl.a);
            if nh.op == Op::Extract && sl == sh && oh == ol + nx.w {
                let m = self.extract(sh, ol, nx.w + wh);
                return self.concat(m, nl.b);
            }
            if let (Some(x), Some(y)) = (self.kval(h), self.kval(nl.a)) {
                let m = self.konst(wh + nx.w, (x << nx.w) | y);
                return self.concat(m, nl.b);
            }
        }
        let (sl, ol) = src(&nl, l);
        if nh.op == Op::Extract && sl == sh && oh == ol + wl {
            return self.extract(sh, ol, w);
        }
        self.mk(Node { op: Op::Concat, w, a: h, b: l, c: 0, k: 0 })
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.kval(c) {
            return if k == 1 { a } else { b };
        }
        if a == b {
            return a;
        }
        let nc = self.n(c);
        if nc.op == Op::Xor && self.kval(nc.b).is_some() {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.kval(a), self.kval(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.or(c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (_, Some(0)) => return self.and(c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let na = self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        // ite(x == k, k, x) = x
        if nc.op == Op::Eq && nc.a == b && nc.b == a {
            return b;
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.t();
        }
        let (ka, kb) = (self.kval(a), self.kval(b));
        if let (Some(_), Some(_)) = (ka, kb) {
            return self.f();
        }
        if ka.is_some() {
            return self.eq(b, a);
        }
        let w = self.w(a);
        let (ia, ib) = (self.inf(a), self.inf(b));
        if ia.hi < ib.lo || ib.hi < ia.lo {
            return self.f();
        }
        let na = self.n(a);
        if let Some(k) = kb {
            if k & ia.kz & mask(w) != 0 {
                return self.f();
            }
            if w == 1 {
                return if k == 1 { a } else { self.not(a) };
            }
            match na.op {
                Op::ZExt => {
                    let kk = self.konst(self.w(na.a), k);
                    return self.eq(na.a, kk);
                }
                Op::SExt => {
                    let iw = self.w(na.a);
                    let kk = self.konst(iw, k);
                    if (sx(k, iw) as u128) & mask(w) == k {
                        return self.eq(na.a, kk);
                    }
                    return self.f();
                }
                Op::Concat => {
                    let wl = self.w(na.b);
                    let kl = self.konst(wl, k);
                    let kh = self.konst(w - wl, k >> wl);
                    let x = self.eq(na.a, kh);
                    if self.kval(x) == Some(0) {
                        return x;
                    }
                    let y = self.eq(na.b, kl);
                    return self.and(x, y);
                }
                Op::Add => {
                    if let Some(c) = self.kval(na.b) {
                        let kk = self.konst(w, k.wrapping_sub(c));
                        return self.eq(na.a, kk);
                    }
                }
                Op::Sub => {
                    if k == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Xor => {
                    if let Some(c) = self.kval(na.b) {
                        let kk = self.konst(w, k ^ c);
                        return self.eq(na.a, kk);
                    }
                    if k == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                Op::Or => {
                    if k == 0 {
                        let z = b;
                        let x = self.eq(na.a, z);
                        let y = self.eq(na.b, z);
                        return self.and(x, y);
                    }
                }
                Op::Ite => {
                    let kt = self.kval(na.b).is_some() || self.inf(na.b).iteconst;
                    let ke = self.kval(na.c).is_some() || self.inf(na.c).iteconst;
                    if kt || ke {
                        let x = self.eq(na.b, b);
                        let y = self.eq(na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                _ => {}
            }
            return self.bin(Op::Eq, 1, a, b);
        }
        let nb = self.n(b);
        if w == 1 {
            let x = self.xor(a, b);
            return self.not(x);
        }
        if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
            let x = self.eq(na.a, nb.a);
            let y = self.eq(na.b, nb.b);
            return self.and(x, y);
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let m = self.w(na.a).max(self.w(nb.a));
            let x = self.zext(na.a, m);
            let y = self.zext(nb.a, m);
            return self.eq(x, y);
        }
        if na.op == Op::Ite && self.inf(a).iteconst {
            // only for small chains
            return {
                let (a, b) = if a < b { (a, b) } else { (b, a) };
                self.bin(Op::Eq, 1, a, b)
            };
        }
        if na.op == Op::Add && nb.op == Op::Add {
            if na.a == nb.a {
                return self.eq(na.b, nb.b);
            }
            if na.b == nb.b {
                return self.eq(na.a, nb.a);
            }
        }
        if na.op == Op::Add && na.a == b {
            let z = self.konst(w, 0);
            return self.eq(na.b, z);
        }
        if nb.op == Op::Add && nb.a == a {
            let z = self.konst(w, 0);
            return self.eq(nb.b, z);
        }
        let (a, b) = if a < b { (a, b) } else { (b, a) };
        self.bin(Op::Eq, 1, a, b)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f();
        }
        let (ka, kb) = (self.kval(a), self.kval(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.konst(1, (x < y) as u128);
        }
        let (ia, ib) = (self.inf(a), self.inf(b));
        if ia.hi < ib.lo {
            return self.t();
        }
        if ia.lo >= ib.hi {
            return self.f();
        }
        let w = self.w(a);
        let (na, nb) = (self.n(a), self.n(b));
        if w == 1 {
            let x = self.not(a);
            return self.and(x, b);
        }
        if kb == Some(1) {
            let z = self.konst(w, 0);
            return self.eq(a, z);
        }
        if ka == Some(0) {
            let x = self.eq(b, a);
            return self.not(x);
        }
        if ka == Some(mask(w) - 1) {
            let m = self.konst(w, !0);
            return self.eq(b, m);
        }
        if kb == Some(mask(w)) {
            let x = self.eq(a, b);
            return self.not(x);
        }
        if let Some(k) = kb {
            if na.op == Op::ZExt {
                let iw = self.w(na.a);
                if k > mask(iw) {
                    return self.t();
                }
                let kk = self.konst(iw, k);
                return self.ult(na.a, kk);
            }
            if na.op == Op::UDiv {
                if let Some(c) = self.kval(na.b) {
                    if let Some(p) = c.checked_mul(k) {
                        if p <= mask(w) {
                            let kk = self.konst(w, p);
                            return self.ult(na.a, kk);
                        } else {
                            return self.t();
                        }
                    }
                }
            }
            if na.op == Op::Ite && self.inf(a).iteconst {
                return self.map_ite(a, &mut |c, e| c.ult(e, b));
            }
        }
        if let Some(k) = ka {
            if nb.op == Op::ZExt {
                let iw = self.w(nb.a);
                if k >= mask(iw) {
                    return self.f();
                }
                let kk = self.konst(iw, k);
                return self.ult(kk, nb.a);
            }
            if nb.op == Op::Ite && self.inf(b).iteconst {
                return self.map_ite(b, &mut |c, e| c.ult(a, e));
            }
            // k < x  ==  !(x < k+1)
            if k < mask(w) {
                let kk = self.konst(w, k + 1);
                let x = self.ult(b, kk);
                return self.not(x);
            }
        }
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let m = self.w(na.a).max(self.w(nb.a));
            let x = self.zext(na.a, m);
            let y = self.zext(nb.a, m);
            return self.ult(x, y);
        }
        self.bin(Op::Ult, 1, a, b)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f();
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.kval(a), self.kval(b)) {
            return self.konst(1, (sx(x, w) < sx(y, w)) as u128);
        }
        if self.kval(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        if self.kval(a) == Some(mask(w)) {
            let s = self.extract(b, w - 1, 1);
            return self.not(s);
        }
        let half = 1u128 << (w - 1);
        let (ia, ib) = (self.inf(a), self.inf(b));
        let (pa, pb) = (ia.hi < half, ib.hi < half);
        let (ga, gb) = (ia.lo >= half, ib.lo >= half);
        if (pa && pb) || (ga && gb) {
            return self.ult(a, b);
        }
        if pa && gb {
            return self.f();
        }
        if ga && pb {
            return self.t();
        }
        self.bin(Op::Slt, 1, a, b)
    }

    // ------------------------------------------------------------ evaluation
    pub fn new_gen(&mut self) {
        self.gen += 1;
        self.ev128.clear();
    }
    pub fn eval(&mut self, e: E, m: &[u64]) -> u128 {
        let n = self.nodes[e as usize];
        if n.op == Op::Const {
            return n.k;
        }
        if n.w <= 64 {
            let (v, g) = self.ev[e as usize];
            if g == self.gen {
                return v as u128;
            }
        } else if let Some(v) = self.ev128.get(&e) {
            return *v;
        }
        let mk = mask(n.w);
        let r = match n.op {
            Op::Const => n.k,
            Op::Var => m.get(n.a as usize).cloned().unwrap_or(0) as u128 & mk,
            Op::Ite => {
                if self.eval(n.a, m) == 1 {
                    self.eval(n.b, m)
                } else {
                    self.eval(n.c, m)
                }
            }
            Op::Extract => (self.eval(n.a, m) >> n.b) & mk,
            Op::ZExt => self.eval(n.a, m),
            Op::SExt => {
                let iw = self.w(n.a);
                sx(self.eval(n.a, m), iw) as u128 & mk
            }
            _ => {
                let a = self.eval(n.a, m);
                let b = self.eval(n.b, m);
                let aw = self.w(n.a);
                (match n.op {
                    Op::Add => a.wrapping_add(b),
                    Op::Sub => a.wrapping_sub(b),
                    Op::Mul => a.wrapping_mul(b),
                    Op::UDiv => if b == 0 { !0 } else { a / b },
                    Op::URem => if b == 0 { a } else { a % b },
                    Op::SDiv => {
                        if b == 0 { if sx(a, aw) < 0 { 1 } else { !0 } }
                        else { sx(a, aw).wrapping_div(sx(b, aw)) as u128 }
                    }
                    Op::SRem => {
                        if b == 0 { a } else { sx(a, aw).wrapping_rem(sx(b, aw)) as u128 }
                    }
                    Op::And => a & b,
                    Op::Or => a | b,
                    Op::Xor => a ^ b,
                    Op::Shl => if b >= aw as u128 { 0 } else { a << b },
                    Op::LShr => if b >= aw as u128 { 0 } else { a >> b },
                    Op::AShr => (sx(a, aw) >> b.min(aw as u128 - 1)) as u128,
                    Op::Eq => (a == b) as u128,
                    Op::Ult => (a < b) as u128,
                    Op::Slt => (sx(a, aw) < sx(b, aw)) as u128,
                    Op::Concat => (a << self.w(n.b)) | b,
                    _ => unreachable!(),
                }) & mk
            }
        };
        if n.w <= 64 {
            self.ev[e as usize] = (r as u64, self.gen);
        } else {
            self.ev128.insert(e, r);
        }
        r
    }

    // ---------------------------------------------------------- substitution
    pub fn clear_sub(&mut self) {
        self.sub_memo.clear();
    }
    pub fn subst(&mut self, e: E, known: &HashMap<u32, (u64, u64)>) -> E {
        if known.is_empty() {
            return e;
        }
        let vs = self.vars(e);
        if !vs.iter().any(|v| known.contains_key(v)) {
            return e;
        }
        if let Some(r) = self.sub_memo.get(&e) {
            return *r;
        }
        let n = self.n(e);
        let r = match n.op {
            Op::Const => e,
            Op::Var => match known.get(&n.a) {
                Some((mk, v)) => {
                    // known bits become constants, the others stay extracts
                    let (mk, v) = (*mk, *v);
                    let full = mask(n.w) as u64;
                    if mk & full == full {
                        self.konst(n.w, v as u128)
                    } else {
                        let mut out: Option<E> = None;
                        let mut pos = 0;
                        while pos < n.w {
                            let bit = (mk >> pos) & 1;
                            let mut end = pos;
                            while end < n.w && (mk >> end) & 1 == bit {
                                end += 1;
                            }
                            let p = if bit == 1 {
                                self.konst(end - pos, (v >> pos) as u128)
                            } else {
                                self.mk(Node { op: Op::Extract, w: end - pos, a: e, b: pos, c: 0, k: 0 })
                            };
                            out = Some(match out {
                                None => p,
                                Some(o) => self.concat(p, o),
                            });
                            pos = end;
                        }
                        out.unwrap()
                    }
                }
                None => e,
            },
            Op::Extract => {
                let a = self.subst(n.a, known);
                self.extract(a, n.b, n.w)
            }
            Op::ZExt => {
                let a = self.subst(n.a, known);
                self.zext(a, n.w)
            }
            Op::SExt => {
                let a = self.subst(n.a, known);
                self.sext(a, n.w)
            }
            Op::Ite => {
                let a = self.subst(n.a, known);
                match self.kval(a) {
                    Some(1) => self.subst(n.b, known),
                    Some(_) => self.subst(n.c, known),
                    None => {
                        let b = self.subst(n.b, known);
                        let c = self.subst(n.c, known);
                        self.ite(a, b, c)
                    }
                }
            }
            _ => {
                let a = self.subst(n.a, known);
                let b = self.subst(n.b, known);
                self.apply(n.op, a, b)
            }
        };
        self.sub_memo.insert(e, r);
        r
    }
    pub fn apply(&mut self, op: Op, a: E, b: E) -> E {
        match op {
            Op::Add => self.add(a, b),
            Op::Sub => self.sub(a, b),
            Op::Mul => self.mul(a, b),
            Op::UDiv => self.udiv(a, b),
            Op::URem => self.urem(a, b),
            Op::SDiv => self.sdiv(a, b),
            Op::SRem => self.srem(a, b),
            Op::And => self.and(a, b),
            Op::Or => self.or(a, b),
            Op::Xor => self.xor(a, b),
            Op::Shl => self.shl(a, b),
            Op::LShr => self.lshr(a, b),
            Op::AShr => self.ashr(a, b),
            Op::Eq => self.eq(a, b),
            Op::Ult => self.ult(a, b),
            Op::Slt => self.slt(a, b),
            Op::Concat => self.concat(a, b),
            _ => unreachable!(),
        }
    }
    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n(e);
        if depth == 0 {
            return format!("#{}", e);
        }
        match n.op {
            Op::Const => format!("{:#x}", n.k),
            Op::Var => format!("v{}:{}", n.a, n.w),
            Op::Extract => format!("{}[{}+:{}]", self.show(n.a, depth - 1), n.b, n.w),
            Op::ZExt | Op::SExt => format!("{:?}{}({})", n.op, n.w, self.show(n.a, depth - 1)),
            Op::Ite => format!(
                "ite({}, {}, {})",
                self.show(n.a, depth - 1),
                self.show(n.b, depth - 1),
                self.show(n.c, depth - 1)
            ),
            _ => format!("{:?}({}, {})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}
