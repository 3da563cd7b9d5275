//! C15..C18: control-flow analysis.
use crate::sym::*;
use magmaflow::spv::logical::*;
use magmaflow::spv::op::*;
use magmaflow::spv::types::*;

// ---------------------------------------------------------------- plain functions

#[derive(Clone, Debug, PartialEq)]
pub enum Br {
    Ret,
    Jump(u32),
    /// true target, false target, weights
    Cond(u32, u32, Option<(u32, u32)>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Mg {
    None,
    /// merge block, flatten, dont_flatten
    Sel(u32, bool, bool),
    /// merge block, continue target, unroll, dont_unroll, infinite, length
    Loop(u32, u32, bool, bool, bool, Option<u32>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Blk {
    pub id: u32,
    pub merge: Mg,
    pub br: Br,
}

pub fn selection(f: bool, d: bool) -> SelectionControl {
    SelectionControl { flatten: f, dont_flatten: d }
}
pub fn loop_control(u: bool, d: bool, i: bool, l: Option<u32>) -> LoopControl {
    LoopControl { unroll: u, dont_unroll: d, dependency_infinite: i, dependency_length: l }
}
pub fn weights(w: Option<(u32, u32)>) -> Option<BranchWeights> {
    match w {
        Some((t, f)) => Some(BranchWeights { true_weight: t, false_weight: f }),
        None => None,
    }
}

/// the ids a function really gets when they are arbitrary: number in the description, id
static mut ARBITRARY: Option<Vec<(u32, u32)>> = None;
/// one id is any number: leave it so
static mut AS_IS: bool = false;
/// whatever does not matter to the analysis is any number
static mut FREE: bool = false;
/// what the blocks contain: kind, and the only block that does
static mut CONTENT: (u32, Option<u32>) = (0, None);
/// before each run: as in a new process
pub fn reset() {
    unsafe {
        AS_IS = false;
        FREE = false;
        CONTENT = (0, None);
    }
    *arbitrary() = None;
}
fn arbitrary() -> &'static mut Option<Vec<(u32, u32)>> {
    unsafe { &mut *std::ptr::addr_of_mut!(ARBITRARY) }
}
/// how they are chosen: 4 at will; 8, 9 one after the other, upwards or downwards (code that
/// sorts the ids has one order to look at), otherwise at will
static mut CHOSEN: u32 = 4;
pub fn real(n: u32) -> u32 {
    match *arbitrary() {
        None => n,
        Some(ref mut t) => {
            for e in t.iter() {
                if e.0 == n {
                    return e.1;
                }
            }
            let k = t.len() as u32;
            let w = match unsafe { CHOSEN } {
                8 if k < 256 => k << 24 | var(24) as u32,
                9 if k < 256 => (255 - k) << 24 | var(24) as u32,
                _ => u32v(),
            };
            for e in t.iter() {
                assume(w != e.1);
            }
            t.push((n, w));
            w
        }
    }
}
/// the number of a (symbolic) id in the description
fn described(w: u32) -> Option<u32> {
    match *arbitrary() {
        None => None,
        Some(ref t) => {
            for e in t.iter() {
                if e.1 == w {
                    return Some(e.0);
                }
            }
            Some(0xDEAD_0000)
        }
    }
}

/// any number, or this one where the result shows it
fn any(n: u32) -> u32 {
    if unsafe { FREE } {
        u32v()
    } else {
        n
    }
}
/// kinds of contents
pub const CONTENTS: u32 = 12;
/// p: 0 empty blocks; 1 all blocks hold the same, of any kind; 2 any one of n blocks does
fn set_content(p: u32, n: u32) {
    unsafe {
        FREE = true;
        CONTENT = match p {
            0 => (0, None),
            1 => (choose(CONTENTS), None),
            _ => (choose(CONTENTS), Some(choose(n))),
        }
    }
}
/// the instructions of a block (any operands; where they could name a block, it is one)
fn content(b: &Blk) -> Vec<GroupCode> {
    let (kind, only) = unsafe { CONTENT };
    if let Some(n) = only {
        if n + 1 != b.id {
            return vec![];
        }
    }
    let id = || OpId(any(1));
    let result = || ResultId(any(2));
    let nop = || GroupCode::OpNop(OpNop);
    match kind {
        0 => vec![],
        1 => vec![nop()],
        2 => vec![GroupCode::OpUndef(OpUndef { result_type: id(), result_id: result() })],
        3 => vec![GroupCode::OpVariable(OpVariable {
            result_type: id(),
            result_id: result(),
            storage_class: StorageClass::Function,
            initializer: Some(id()),
        })],
        4 => vec![GroupCode::OpLoad(OpLoad { result_type: id(), result_id: result(), pointer: id(), memory_access: None })],
        5 => vec![GroupCode::OpStore(OpStore { pointer: id(), object: id(), memory_access: None })],
        6 => vec![GroupCode::OpAccessChain(OpAccessChain {
            result_type: id(),
            result_id: result(),
            base: id(),
            indexes: vec![id(), id()],
        })],
        7 => vec![GroupCode::OpBitcast(OpBitcast { result_type: id(), result_id: result(), operand: id() })],
        8 => vec![GroupCode::OpIAdd(OpIAdd { result_type: id(), result_id: result(), operand1: id(), operand2: id() })],
        9 => vec![GroupCode::OpSLessThan(OpSLessThan {
            result_type: id(),
            result_id: result(),
            operand1: id(),
            operand2: id(),
        })],
        10 => vec![
            GroupCode::OpPhi(OpPhi {
                result_type: id(),
                result_id: result(),
                variables: vec![PhiArg { variable: id(), parent: OpId(real(b.id)) }, PhiArg { variable: id(), parent: id() }],
            }),
            nop(),
        ],
        _ => (0..40).map(|_| nop()).collect(),
    }
}

pub fn block(b: &Blk) -> BasicBlock {
    BasicBlock {
        label: OpLabel { result_id: ResultId(real(b.id)) },
        code: content(b),
        merge: match b.merge {
            Mg::None => None,
            Mg::Sel(m, f, d) => Some(GroupMerge::OpSelectionMerge(OpSelectionMerge {
                merge_block: OpId(real(m)),
                selection_control: selection(f, d),
            })),
            Mg::Loop(m, c, u, d, i, l) => Some(GroupMerge::OpLoopMerge(OpLoopMerge {
                merge_block: OpId(real(m)),
                continue_target: OpId(real(c)),
                loop_control: loop_control(u, d, i, l),
            })),
        },
        branch: match b.br {
            Br::Ret => GroupBranch::OpReturn(OpReturn),
            Br::Jump(t) => GroupBranch::OpBranch(OpBranch { target_label: OpId(real(t)) }),
            Br::Cond(t, f, w) => GroupBranch::OpBranchConditional(OpBranchConditional {
                condition: OpId(any(7)),
                true_label: OpId(real(t)),
                false_label: OpId(real(f)),
                weights: weights(w),
            }),
        },
    }
}

pub fn function(f: &[Blk]) -> FunctionDefinition {
    let free = unsafe { FREE };
    let flag = || free && boolv();
    FunctionDefinition {
        function: OpFunction {
            result_type: OpId(any(1)),
            result_id: ResultId(any(2)),
            function_control: FunctionControl {
                inline: flag(),
                dont_inline: flag(),
                pure_function: flag(),
                const_function: flag(),
            },
            function_type: OpId(any(3)),
        },
        parameters: if free {
            vec![OpFunctionParameter { result_type: OpId(any(0)), result_id: ResultId(any(0)) }]
        } else {
            vec![]
        },
        blocks: f.iter().map(block).collect(),
    }
}

/// the number of a block id
pub fn num(b: &BlockId) -> u32 {
    if std::mem::size_of::<BlockId>() == 4 {
        let w = unsafe { std::mem::transmute_copy::<BlockId, u32>(b) };
        described(w).unwrap_or_else(|| if unsafe { AS_IS } { w } else { conc(w) })
    } else {
        let mut n = 0u32;
        for c in b.to_string().bytes() {
            if c >= b'0' && c <= b'9' {
                n = n.wrapping_mul(10).wrapping_add((c - b'0') as u32);
            }
        }
        described(n).unwrap_or_else(|| conc(n))
    }
}

// ---------------------------------------------------------------- what a structure runs

#[derive(Clone, Copy, Debug, PartialEq)]
enum I {
    /// run a block
    Exec(u32),
    /// run a block, go on here when its condition holds, otherwise there
    Cond(u32, usize),
    Jump(usize),
    /// break or continue without a loop
    Bad,
    End,
}
struct Prog {
    code: Vec<I>,
    /// header, where the construct leaves to, whether it is a loop
    exits: Vec<(u32, usize, bool)>,
    /// block, inside a loop
    seen: Vec<(u32, bool)>,
}
/// places that jump to the exit of the innermost loop
struct Ctx {
    head: usize,
    breaks: Vec<usize>,
}

fn compile(c: &ControlFlowChain, p: &mut Prog, ctx: &mut Option<Ctx>) {
    match *c {
        ControlFlowChain::Atom(ref id) => {
            let n = num(id);
            p.seen.push((n, ctx.is_some()));
            p.code.push(I::Exec(n));
        }
        ControlFlowChain::Block(ref v) => {
            for c in v {
                compile(c, p, ctx);
            }
        }
        ControlFlowChain::Selection(ref id, ref t, ref f, _, _) => {
            let n = num(id);
            p.seen.push((n, ctx.is_some()));
            let at = p.code.len();
            p.code.push(I::End);
            compile(t, p, ctx);
            let j = p.code.len();
            p.code.push(I::End);
            p.code[at] = I::Cond(n, p.code.len());
            compile(f, p, ctx);
            p.code[j] = I::Jump(p.code.len());
            p.exits.push((n, p.code.len(), false));
        }
        ControlFlowChain::Loop(ref id, ref inner, _, _) => {
            let n = num(id);
            p.seen.push((n, true));
            let at = p.code.len();
            p.code.push(I::Exec(n));
            let mut own = Some(Ctx { head: at, breaks: vec![] });
            compile(inner, p, &mut own);
            p.code.push(I::Jump(at));
            let end = p.code.len();
            for b in own.unwrap().breaks {
                p.code[b] = I::Jump(end);
            }
            p.exits.push((n, end, true));
        }
        ControlFlowChain::Break => match *ctx {
            Some(ref mut x) => {
                x.breaks.push(p.code.len());
                p.code.push(I::End);
            }
            None => p.code.push(I::Bad),
        },
        ControlFlowChain::Continue => match *ctx {
            Some(ref x) => p.code.push(I::Jump(x.head)),
            None => p.code.push(I::Bad),
        },
    }
}

const END: u32 = 0xFFFF_FFF0;
const BAD: u32 = 0xFFFF_FFF1;

/// the next block run from a place, and where
fn resolve(p: &Prog, mut pc: usize) -> (u32, usize) {
    for _ in 0..p.code.len() + 1 {
        match p.code[pc] {
            I::Exec(n) | I::Cond(n, _) => return (n, pc),
            I::Jump(t) => pc = t,
            I::Bad => return (BAD, pc),
            I::End => return (END, pc),
        }
    }
    (BAD, pc)
}

fn find(f: &[Blk], id: u32) -> Option<&Blk> {
    f.iter().find(|b| b.id == id)
}

/// the structure and the function step through the same blocks
fn bisimulates(f: &[Blk], c: &ControlFlowChain) {
    let mut p = Prog { code: vec![], exits: vec![], seen: vec![] };
    compile(c, &mut p, &mut None);
    p.code.push(I::End);
    let start = resolve(&p, 0);
    check(16, 1, start.0 == f[0].id);
    let mut todo = vec![start.1];
    let mut done = vec![false; p.code.len()];
    while let Some(pc) = todo.pop() {
        if done[pc] {
            continue;
        }
        done[pc] = true;
        let (n, t, e) = match p.code[pc] {
            I::Exec(n) => {
                let s = resolve(&p, pc + 1);
                (n, s, s)
            }
            I::Cond(n, e) => (n, resolve(&p, pc + 1), resolve(&p, e)),
            I::End => continue,
            _ => {
                check(16, 2, false);
                continue;
            }
        };
        let b = match find(f, n) {
            Some(b) => b,
            None => {
                check(16, 3, false);
                continue;
            }
        };
        let (wt, we) = match b.br {
            Br::Ret => (END, END),
            Br::Jump(t) => (t, t),
            Br::Cond(t, e, _) => (t, e),
        };
        check(16, 4, (wt == t.0) & (we == e.0));
        todo.push(t.1);
        todo.push(e.1);
    }
    // every construct leaves to its own merge block
    for (n, pc, is_loop) in p.exits.iter() {
        if let Some(b) = find(f, *n) {
            let to = resolve(&p, *pc).0;
            match b.merge {
                Mg::Sel(m, _, _) => check(18, 1, (to == m) & !*is_loop),
                Mg::Loop(m, _, _, _, _, _) => check(18, 2, (to == m) & *is_loop),
                Mg::None => check(18, 3, !*is_loop),
            }
        }
    }
    for (n, inside) in p.seen.iter() {
        if let Some(b) = find(f, *n) {
            if let (&Br::Cond(..), &Mg::None) = (&b.br, &b.merge) {
                check(18, 4, *inside);
            }
        }
    }
}

// ---------------------------------------------------------------- any function

fn ft() -> u8 {
    1
}
/// some cycle is reachable from the entry, by branches or merges
fn cyclic(f: &[Blk]) -> bool {
    let n = f.len();
    let mut r = vec![vec![0u8; n]; n];
    for i in 0..n {
        let mut out = vec![];
        match f[i].br {
            Br::Ret => {}
            Br::Jump(t) => out.push(t),
            Br::Cond(t, e, _) => {
                out.push(t);
                out.push(e)
            }
        }
        match f[i].merge {
            Mg::None => {}
            Mg::Sel(m, _, _) | Mg::Loop(m, _, _, _, _, _) => out.push(m),
        }
        for j in 0..n {
            for o in out.iter() {
                r[i][j] |= (*o == f[j].id) as u8;
            }
        }
    }
    for k in 0..n {
        for i in 0..n {
            for j in 0..n {
                r[i][j] |= r[i][k] & r[k][j];
            }
        }
    }
    let mut c = 0u8;
    for i in 0..n {
        let from = if i == 0 { ft() } else { r[0][i] };
        c |= from & r[i][i];
    }
    c != 0
}

fn unsupported(f: &[Blk]) -> bool {
    f.iter().any(|b| match (&b.br, &b.merge) {
        (&Br::Jump(_), &Mg::Sel(..)) | (&Br::Cond(..), &Mg::Loop(..)) => true,
        (&Br::Ret, &Mg::Sel(..)) | (&Br::Ret, &Mg::Loop(..)) => true,
        _ => false,
    })
}

pub fn show(f: &[Blk], r: &ControlFlowResult<ControlFlowChain>) {
    dump(|| format!("blocks {:?}\n  result {:?}", f, r));
}

/// an error has a cause in the function
fn justified(f: &[Blk], e: &ControlFlowError) {
    match *e {
        ControlFlowError::NoBlocks => {
            cover(101);
            check(18, 10, f.len() == 0)
        }
        ControlFlowError::DuplicateBlockId(_) => check(18, 11, false),
        ControlFlowError::UnknownBlockId(ref id) => {
            cover(102);
            let n = num_sym(id);
            let mut is = false;
            for b in f {
                is |= b.id == n;
            }
            check(18, 12, !is);
            let mut used = false;
            for b in f {
                match b.br {
                    Br::Ret => {}
                    Br::Jump(t) => used |= t == n,
                    Br::Cond(t, e, _) => used |= (t == n) | (e == n),
                }
                match b.merge {
                    Mg::None => {}
                    Mg::Sel(m, _, _) => used |= m == n,
                    Mg::Loop(m, c, _, _, _, _) => used |= (m == n) | (c == n),
                }
            }
            check(18, 13, used);
        }
        ControlFlowError::CouldNotPredictConverge(ref id) => {
            cover(103);
            let ok = match find(f, num(id)) {
                Some(b) => matches!((&b.br, &b.merge), (&Br::Cond(..), &Mg::None)),
                None => false,
            };
            check(18, 14, ok);
        }
        ControlFlowError::InvalidConvergePrediction(ref kind, ref id) => {
            let b = find(f, num(id));
            let ok = match (b, kind) {
                (Some(b), &ControlType::Selection) => {
                    cover(104);
                    matches!(b.merge, Mg::Sel(..))
                }
                (Some(b), &ControlType::Loop) => {
                    cover(105);
                    matches!((&b.br, &b.merge), (_, &Mg::Loop(..)) | (&Br::Cond(..), &Mg::None))
                }
                _ => false,
            };
            check(18, 15, ok);
        }
        ControlFlowError::Failed => {
            cover(106);
            let ok = if unsupported(f) { true } else { cyclic(f) };
            check(18, 16, ok);
        }
        #[allow(unreachable_patterns)]
        _ => check(18, 17, false),
    }
}

/// p0 blocks with any terminators, merges and targets; p1 = 1: also the combinations
/// no structured function has; p3: contents of the blocks (see `set_content`)
#[no_mangle]
pub fn h_cfg() {
    let n = param(0);
    let kinds = if param(1) == 1 { 9 } else { 5 };
    let mut f: Vec<Blk> = vec![];
    for i in 0..n {
        // p2 = 1: the last block returns
        let k = if param(2) == 1 && i + 1 == n { 0 } else { choose(kinds) };
        // a block or, above n, none
        let t = |n: u32| 1 + var(if n < 2 { 1 } else if n < 4 { 2 } else { 3 }) as u32;
        let (merge, br) = match k {
            0 => (Mg::None, Br::Ret),
            1 => (Mg::None, Br::Jump(t(n))),
            2 => (Mg::None, Br::Cond(t(n), t(n), None)),
            3 => (Mg::Sel(t(n), false, false), Br::Cond(t(n), t(n), None)),
            4 => (Mg::Loop(t(n), t(n), false, false, false, None), Br::Jump(t(n))),
            5 => (Mg::Sel(t(n), false, false), Br::Jump(t(n))),
            6 => (Mg::Loop(t(n), t(n), false, false, false, None), Br::Cond(t(n), t(n), None)),
            7 => (Mg::Sel(t(n), false, false), Br::Ret),
            _ => (Mg::Loop(t(n), t(n), false, false, false, None), Br::Ret),
        };
        f.push(Blk { id: 1 + i, merge, br });
    }
    set_content(param(3), n);
    let r = find_control_flow(function(&f));
    show(&f, &r);
    match r {
        Ok(c) => {
            cover(1);
            obs(1);
            check(18, 5, f.len() > 0);
            if f.len() > 0 {
                bisimulates(&f, &c);
            }
        }
        Err(e) => {
            obs(2);
            justified(&f, &e);
        }
    }
}

/// p0 blocks with any 32-bit ids: duplicates are found wherever they are
#[no_mangle]
pub fn h_cfg_dup() {
    let n = param(0);
    let ids: Vec<u32> = (0..n).map(|_| u32v()).collect();
    let mut f: Vec<Blk> = vec![];
    for k in 0..n as usize {
        let br = match choose(2) {
            0 => Br::Ret,
            _ if param(1) == 1 => Br::Jump(ids[(k + 1) % n as usize]),
            _ => Br::Jump(u32v()),
        };
        f.push(Blk { id: ids[k], merge: Mg::None, br });
    }
    let mut dup = false;
    for i in 0..f.len() {
        for j in 0..i {
            dup |= f[i].id == f[j].id;
        }
    }
    set_content(0, 0);
    let r = find_control_flow(function(&f));
    show(&f, &r);
    match r {
        Err(ControlFlowError::DuplicateBlockId(ref id)) => {
            cover(2);
            let x = num_sym(id);
            check(18, 20, dup);
            let mut twice = false;
            for i in 0..f.len() {
                for j in 0..i {
                    twice |= (f[i].id == x) & (f[j].id == x);
                }
            }
            check(18, 21, twice);
            obs(2);
        }
        Err(ControlFlowError::NoBlocks) => {
            cover(3);
            check(18, 22, n == 0);
        }
        Err(ControlFlowError::UnknownBlockId(ref id)) => {
            cover(4);
            let x = num_sym(id);
            let mut is = false;
            let mut used = false;
            for b in f.iter() {
                is |= b.id == x;
                if let Br::Jump(t) = b.br {
                    used |= t == x;
                }
            }
            check(18, 23, !is & used);
            check(18, 24, !dup);
        }
        _ => {
            cover(1);
            check(18, 25, !dup & (n > 0));
        }
    }
}
fn num_sym(b: &BlockId) -> u32 {
    if std::mem::size_of::<BlockId>() == 4 {
        let w = unsafe { std::mem::transmute_copy::<BlockId, u32>(b) };
        described(w).unwrap_or(w)
    } else {
        num(b)
    }
}

// ---------------------------------------------------------------- structured functions

#[derive(Clone, Debug)]
pub enum Ast {
    Plain,
    If(Vec<Ast>, Vec<Ast>),
    Loop(Vec<Ast>),
    /// leave (true) or repeat (false) the innermost loop when the condition fails
    Test(bool),
}

/// any nesting of at most `budget` statements
pub fn any_ast(budget: &mut u32, depth: u32, in_loop: bool) -> Vec<Ast> {
    let mut v = vec![];
    while *budget > 0 {
        let k = choose(if in_loop { 6 } else { 4 });
        if k == 0 {
            break;
        }
        if k == 2 || k == 3 {
            assume(depth > 0);
        }
        *budget -= 1;
        v.push(match k {
            1 => Ast::Plain,
            2 => {
                let a = any_ast(budget, depth - 1, false);
                let b = any_ast(budget, depth - 1, false);
                Ast::If(a, b)
            }
            3 => Ast::Loop(any_ast(budget, depth - 1, true)),
            4 => Ast::Test(true),
            _ => Ast::Test(false),
        });
    }
    v
}

/// expected structure
#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Atom(u32),
    Sel(u32, Vec<T>, Vec<T>, bool, bool, Option<(u32, u32)>),
    Loop(u32, Vec<T>, bool, bool, bool, Option<u32>),
    Break,
    Continue,
}

/// what the end of a block belongs to
#[derive(Clone, Debug, PartialEq)]
pub enum Role {
    Other,
    /// ends a side of this selection
    SideEnd(u32),
    /// ends the body of this loop (header, tests of the loop)
    BodyEnd(u32, Vec<u32>),
    /// the test of a loop
    Test,
}

pub struct Gen {
    pub f: Vec<Blk>,
    pub roles: Vec<Role>,
    next: u32,
    ids: u32,
    odd: u32,
    /// 0: no hints or weights, 1: any, 2: small ones, 3: small ones but the first any number
    pub extras: u32,
    flip: bool,
}
impl Gen {
    /// ids: how blocks are numbered; 4: any ids at all
    pub fn new(ids: u32, extras: u32) -> Gen {
        unsafe {
            AS_IS = ids == 7;
            CHOSEN = ids;
        }
        *arbitrary() = if ids == 4 || ids == 8 || ids == 9 { Some(vec![]) } else { None };
        Gen { f: vec![], roles: vec![], next: 0, ids, odd: if ids == 7 { choose(5) } else { 0 }, extras, flip: false }
    }
    fn id(&mut self) -> u32 {
        let k = self.next;
        self.next += 1;
        match self.ids {
            0 | 4 | 8 | 9 => k + 1,
            1 => 0xFFFF_FFFF - k,
            2 => (k * 7 + 3) % 64 * 0x0101_0101,
            // alike in their low half, in all but the highest byte
            5 => 1 + (k << 16),
            6 => 5 | k << 24,
            // any one of the first blocks any id
            7 => {
                if k == self.odd {
                    let w = u32v();
                    assume((w == 0) | (w > 200));
                    w
                } else {
                    k + 1
                }
            }
            _ => k.wrapping_mul(2_654_435_761).wrapping_add(77),
        }
    }
    pub fn missing(&self) -> u32 {
        100_000
    }
    fn bool(&mut self) -> bool {
        match self.extras {
            0 => false,
            1 => boolv(),
            _ => choose(2) == 1,
        }
    }
    fn word(&mut self) -> u32 {
        if self.extras == 3 {
            self.extras = 2;
            return u32v();
        }
        if self.extras == 1 {
            u32v()
        } else {
            var(3) as u32
        }
    }
    fn weights(&mut self) -> Option<(u32, u32)> {
        if self.extras == 0 {
            return None;
        }
        self.flip = !self.flip;
        if self.flip {
            Some((self.word(), self.word()))
        } else {
            None
        }
    }
    fn emit(&mut self, id: u32, merge: Mg, br: Br, role: Role) {
        self.f.push(Blk { id, merge, br });
        self.roles.push(role);
    }
    /// lay out a sequence that starts at `start` and goes on to `cont`.
    /// `l`: header, merge and tests of the enclosing loop when directly in its body
    fn seq(&mut self, v: &[Ast], start: u32, cont: u32, end: &Role, l: Option<(u32, u32)>, tests: &[u32]) -> Vec<T> {
        let mut out = vec![];
        let mut here = start;
        let mut tests = tests.to_vec();
        for (i, s) in v.iter().enumerate() {
            let last = i + 1 == v.len();
            let role = if last {
                match *end {
                    Role::BodyEnd(h, _) => Role::BodyEnd(h, tests.clone()),
                    ref r => r.clone(),
                }
            } else {
                Role::Other
            };
            match *s {
                Ast::Plain => {
                    let next = if last { cont } else { self.id() };
                    self.emit(here, Mg::None, Br::Jump(next), role);
                    out.push(T::Atom(here));
                    here = next;
                }
                Ast::If(ref a, ref b) => {
                    let m = self.id();
                    let (ta, tb) = (
                        if a.is_empty() { m } else { self.id() },
                        if b.is_empty() { m } else { self.id() },
                    );
                    let (hf, hd, w) = (self.bool(), self.bool(), self.weights());
                    self.emit(here, Mg::Sel(m, hf, hd), Br::Cond(ta, tb, w), Role::Other);
                    let side = Role::SideEnd(here);
                    let x = self.seq(a, ta, m, &side, None, &[]);
                    let y = self.seq(b, tb, m, &side, None, &[]);
                    out.push(T::Sel(here, x, y, hf, hd, w));
                    here = m;
                    if last {
                        // the merge block itself
                        self.emit(here, Mg::None, Br::Jump(cont), role);
                        out.push(T::Atom(here));
                        here = cont;
                    }
                }
                Ast::Loop(ref body) => {
                    let m = self.id();
                    let t = if body.is_empty() { here } else { self.id() };
                    let (u, d, n) = (self.bool(), self.bool(), self.bool());
                    let len = self.weights().map(|w| w.0);
                    let at = self.f.len();
                    self.emit(here, Mg::Loop(m, here, u, d, n, len), Br::Jump(t), Role::Other);
                    let x = self.seq(body, t, here, &Role::BodyEnd(here, vec![]), Some((here, m)), &[]);
                    // the continue target is the block that branches back
                    let back = self.f.last().unwrap().id;
                    if let Mg::Loop(_, ref mut c, _, _, _, _) = self.f[at].merge {
                        *c = back;
                    }
                    out.push(T::Loop(here, x, u, d, n, len));
                    here = m;
                    if last {
                        self.emit(here, Mg::None, Br::Jump(cont), role);
                        out.push(T::Atom(here));
                        here = cont;
                    }
                }
                Ast::Test(leave) => {
                    let (h, m) = l.unwrap();
                    let w = self.weights();
                    let rest = &v[i + 1..];
                    let t = if rest.is_empty() { cont } else { self.id() };
                    self.emit(here, Mg::None, Br::Cond(t, if leave { m } else { h }, w), Role::Test);
                    tests.push(here);
                    let x = self.seq(rest, t, cont, end, l, &tests);
                    out.push(T::Sel(here, x, vec![if leave { T::Break } else { T::Continue }], false, false, w));
                    return out;
                }
            }
        }
        out
    }
    /// a whole function
    pub fn function(&mut self, v: &[Ast]) -> Vec<T> {
        let start = self.id();
        let end = if v.is_empty() { start } else { self.id() };
        let mut out = self.seq(v, start, end, &Role::Other, None, &[]);
        self.emit(end, Mg::None, Br::Ret, Role::Other);
        out.push(T::Atom(end));
        out
    }
}

/// list the blocks in another order, the entry first
pub fn reorder(f: &[Blk], how: u32) -> Vec<Blk> {
    let mut v = vec![f[0].clone()];
    let n = f.len();
    for k in 1..n {
        v.push(match how {
            0 => f[k].clone(),
            1 => f[n - k].clone(),
            _ => f[1 + k % (n - 1)].clone(),
        });
    }
    v
}

/// sequences without the grouping that does not matter
pub fn normal(c: &ControlFlowChain, out: &mut Vec<T>) {
    match *c {
        ControlFlowChain::Atom(ref id) => out.push(T::Atom(num(id))),
        ControlFlowChain::Block(ref v) => {
            for c in v {
                normal(c, out);
            }
        }
        ControlFlowChain::Selection(ref id, ref t, ref f, ref h, ref w) => {
            let (mut a, mut b) = (vec![], vec![]);
            normal(t, &mut a);
            normal(f, &mut b);
            let w = w.as_ref().map(|w| (w.true_weight, w.false_weight));
            out.push(T::Sel(num(id), a, b, h.flatten, h.dont_flatten, w));
        }
        ControlFlowChain::Loop(ref id, ref i, ref h, _) => {
            let mut a = vec![];
            normal(i, &mut a);
            out.push(T::Loop(num(id), a, h.unroll, h.dont_unroll, h.dependency_infinite, h.dependency_length));
        }
        ControlFlowChain::Break => out.push(T::Break),
        ControlFlowChain::Continue => out.push(T::Continue),
    }
}

fn same_pair(a: Option<(u32, u32)>, b: Option<(u32, u32)>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => (a.0 == b.0) & (a.1 == b.1),
        (None, None) => true,
        _ => false,
    }
}
fn same_opt(a: Option<u32>, b: Option<u32>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => a == b,
        (None, None) => true,
        _ => false,
    }
}
fn same(a: &[T], b: &[T]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for (x, y) in a.iter().zip(b.iter()) {
        let ok = match (x, y) {
            (&T::Atom(p), &T::Atom(q)) => p == q,
            (&T::Sel(p, ref a, ref b, f, d, w), &T::Sel(q, ref e, ref g, h, i, v)) => {
                check(17, 3, (f == h) & (d == i));
                check(17, 4, same_pair(w, v));
                p == q && same(a, e) && same(b, g)
            }
            (&T::Loop(p, ref a, u, d, i, l), &T::Loop(q, ref b, v, e, j, m)) => {
                check(17, 5, (u == v) & (d == e) & (i == j));
                check(17, 6, same_opt(l, m));
                p == q && same(a, b)
            }
            (&T::Break, &T::Break) | (&T::Continue, &T::Continue) => true,
            _ => false,
        };
        if !ok {
            return false;
        }
    }
    true
}

fn features(v: &[T]) {
    for t in v {
        match *t {
            T::Atom(_) => {}
            T::Sel(_, ref a, ref b, _, _, _) => {
                cover(if b.is_empty() { 11 } else { 12 });
                features(a);
                features(b);
            }
            T::Loop(_, ref a, _, _, _, _) => {
                cover(if a.is_empty() { 13 } else { 14 });
                features(a);
            }
            T::Break => cover(15),
            T::Continue => cover(16),
        }
    }
}

/// every structured function of at most p0 statements, p1 deep; p2: numbering of the blocks,
/// p3: order they are listed in; p4: contents of the blocks (see `set_content`)
#[no_mangle]
pub fn h_cfg_structured() {
    let mut budget = param(0);
    let ast = any_ast(&mut budget, param(1), false);
    judge_structured(&ast, param(2), param(3), 1, param(4));
}

/// sequences are flat lists
fn flat(c: &ControlFlowChain, inside: bool) -> bool {
    match *c {
        ControlFlowChain::Block(ref v) => !inside && v.iter().all(|c| flat(c, true)),
        ControlFlowChain::Selection(_, ref a, ref b, _, _) => flat(a, false) && flat(b, false),
        ControlFlowChain::Loop(_, ref a, _, _) => flat(a, false),
        _ => true,
    }
}

/// the analysis finds exactly this nesting
fn judge_structured(ast: &[Ast], ids: u32, order: u32, extras: u32, content: u32) {
    let mut g = Gen::new(ids, extras);
    let want = g.function(ast);
    let f = reorder(&g.f, order);
    set_content(content, f.len() as u32);
    let r = find_control_flow(function(&f));
    show(&f, &r);
    dump(|| format!("expected {:?}", want));
    match r {
        Ok(c) => {
            cover(1);
            features(&want);
            let mut got = vec![];
            normal(&c, &mut got);
            check(17, 1, same(&got, &want));
            check(17, 7, flat(&c, false));
            bisimulates(&f, &c);
            obs(got.len() as u64);
        }
        Err(_) => check(17, 2, false),
    }
}

/// p0 statements in a row, of every kind; p1, p2: numbering and order of the blocks;
/// p4 = 1: one of them, anywhere, of any other kind
#[no_mangle]
pub fn h_cfg_long() {
    let n = param(0);
    let mut ast = in_a_row(choose(9), n);
    if param(4) == 1 {
        odd_one(&mut ast, choose(n), choose(6));
    }
    judge_structured(&ast, param(1), param(2), param(3), param(5));
}

/// constructs nested p0 deep in every way; p1, p2: numbering and order of the blocks;
/// p4 = 1: one level of any other kind
#[no_mangle]
pub fn h_cfg_deep() {
    let n = param(0);
    let (level, odd) = if param(4) == 1 { (choose(n), choose(8)) } else { (n, 0) };
    let ast = nested(choose(NESTED), n, level, odd);
    judge_structured(&ast, param(1), param(2), param(3), param(5));
}

/// one fault in a structured function of at most p0 statements, p1 deep
/// (p3: 1 p0 statements in a row, 2 p0 constructs nested)
#[no_mangle]
pub fn h_cfg_fault() {
    let mut budget = param(0);
    let ast = match param(3) {
        0 => any_ast(&mut budget, param(1), false),
        1 => in_a_row(choose(9), budget),
        _ => nested(choose(NESTED), budget, budget, 0),
    };
    let mut g = Gen::new(param(2), 0);
    g.function(&ast);
    let mut f = g.f.clone();
    let x = g.missing();
    let k = choose(f.len() as u32) as usize;
    let role = g.roles[k].clone();
    let id = f[k].id;
    let in_loop = ast_has_loop(&ast);
    let fault = choose(7);
    // (missing, duplicate, predict, selection, loop): what may be reported
    let mut want: Vec<(u32, u32)> = vec![];
    match fault {
        0 => {
            // a jump or the true side leads nowhere
            match f[k].br {
                Br::Ret => {
                    assume(false);
                }
                Br::Jump(ref mut t) => *t = x,
                Br::Cond(ref mut t, _, _) => *t = x,
            }
            want.push((1, x));
        }
        1 => {
            // the false side leads nowhere
            match f[k].br {
                Br::Cond(_, ref mut e, _) => *e = x,
                _ => assume(false),
            }
            want.push((1, x));
            if role == Role::Test {
                want.push((3, id));
            }
        }
        2 => {
            // the merge leads nowhere
            match f[k].merge {
                Mg::None => assume(false),
                Mg::Sel(ref mut m, _, _) => {
                    *m = x;
                    want.push((4, id));
                }
                Mg::Loop(ref mut m, _, _, _, _, _) => {
                    *m = x;
                    for b in g.f.iter().zip(g.roles.iter()) {
                        if *b.1 == Role::Test {
                            want.push((3, b.0.id));
                        }
                    }
                }
            }
            want.push((1, x));
        }
        3 => {
            // a selection without its merge, outside any loop
            assume(!in_loop);
            match f[k].merge {
                Mg::Sel(..) => {}
                _ => assume(false),
            }
            f[k].merge = Mg::None;
            want.push((3, id));
        }
        4 => {
            // a side or a body that returns
            match role {
                Role::SideEnd(s) => want.push((4, s)),
                Role::BodyEnd(h, ref tests) => {
                    want.push((5, h));
                    for t in tests {
                        want.push((5, *t));
                    }
                }
                _ => assume(false),
            }
            match f[k].br {
                Br::Jump(_) => f[k].br = Br::Ret,
                _ => assume(false),
            }
            assume(f[k].merge == Mg::None);
        }
        5 => {
            // the id of any block used again anywhere
            let at = 1 + choose(f.len() as u32) as usize;
            let b = Blk { id, merge: Mg::None, br: Br::Ret };
            f.insert(at, b);
            want.push((2, id));
        }
        _ => {
            // a side that never meets: it goes on at the entry of the function, or itself
            match role {
                Role::SideEnd(_) => {}
                _ => assume(false),
            }
            match f[k].br {
                Br::Jump(ref mut t) => *t = if choose(2) == 0 { g.f[0].id } else { id },
                _ => assume(false),
            }
            assume(f[k].merge == Mg::None);
            want.push((6, 0));
        }
    }
    set_content(param(4), f.len() as u32);
    let r = find_control_flow(function(&f));
    show(&f, &r);
    dump(|| format!("fault {} at block {}: expected one of {:?}", fault, id, want));
    let got = match r {
        Ok(_) => {
            check(18, 30, false);
            return;
        }
        Err(ControlFlowError::UnknownBlockId(ref b)) => (1, num(b)),
        Err(ControlFlowError::DuplicateBlockId(ref b)) => (2, num(b)),
        Err(ControlFlowError::CouldNotPredictConverge(ref b)) => (3, num(b)),
        Err(ControlFlowError::InvalidConvergePrediction(ControlType::Selection, ref b)) => (4, num(b)),
        Err(ControlFlowError::InvalidConvergePrediction(ControlType::Loop, ref b)) => (5, num(b)),
        Err(ControlFlowError::NoBlocks) => (7, 0),
        Err(ControlFlowError::Failed) => (6, 0),
    };
    cover(20 + fault);
    obs(got.0 as u64);
    if fault == 6 {
        // not accepted is all that is promised
        return;
    }
    check(18, 31 + fault, want.iter().any(|w| *w == got));
}
fn ast_has_loop(v: &[Ast]) -> bool {
    v.iter().any(|a| match *a {
        Ast::If(ref a, ref b) => ast_has_loop(a) || ast_has_loop(b),
        Ast::Loop(_) => true,
        _ => false,
    })
}

// ---------------------------------------------------------------- long functions

fn statement(k: u32) -> Ast {
    match k {
        0 => Ast::Plain,
        1 => Ast::If(vec![], vec![]),
        2 => Ast::If(vec![Ast::Plain], vec![Ast::Plain]),
        3 => Ast::Loop(vec![]),
        4 => Ast::Loop(vec![Ast::Test(true), Ast::Plain]),
        _ => Ast::If(vec![Ast::Loop(vec![Ast::Plain, Ast::Test(false)])], vec![]),
    }
}
/// replace statement `at` of the longest sequence
pub fn odd_one(v: &mut Vec<Ast>, at: u32, k: u32) {
    if v.len() == 1 {
        match v[0] {
            Ast::If(ref mut a, _) if a.len() > 1 => return odd_one(a, at, k),
            Ast::Loop(ref mut a) if a.len() > 1 => return odd_one(a, at, k),
            _ => {}
        }
    }
    if (at as usize) < v.len() {
        v[at as usize] = statement(k);
    }
}
/// a function of n statements in a row
pub fn in_a_row(which: u32, n: u32) -> Vec<Ast> {
    let mut v = vec![];
    for i in 0..n {
        v.push(statement(if which == 6 { i % 6 } else { which }));
    }
    match which {
        7 => vec![Ast::If(v, vec![Ast::Plain])],
        8 => vec![Ast::Loop(v)],
        9 => {
            // a single cycle of n blocks without a loop construct
            v
        }
        _ => v,
    }
}

pub const NESTED: u32 = 9;
/// a function of constructs nested n deep
pub fn nested(which: u32, n: u32, level: u32, odd: u32) -> Vec<Ast> {
    let mut v = vec![Ast::Plain];
    for i in 0..n {
        v = match if i == level { odd } else if which == 8 { i % 8 } else { which } {
            0 => vec![Ast::If(v, vec![])],
            1 => vec![Ast::If(vec![], v)],
            2 => vec![Ast::Loop(v)],
            3 => vec![Ast::If(v, vec![Ast::Plain]), Ast::Plain],
            4 => {
                let mut b = vec![Ast::Test(true)];
                b.append(&mut v);
                vec![Ast::Loop(b)]
            }
            5 => {
                v.push(Ast::Test(false));
                vec![Ast::Plain, Ast::Loop(v)]
            }
            6 => vec![Ast::If(vec![Ast::Plain, Ast::Plain], v)],
            _ => vec![Ast::Loop(vec![Ast::If(v, vec![]), Ast::Test(i % 3 == 0)])],
        };
    }
    v
}

/// more statements in a row need no more stack: p0 against p1 statements
#[no_mangle]
pub fn h_cfg_stack() {
    let which = choose(10);
    let mut need = vec![];
    for k in 0..2 {
        let ast = in_a_row(if which == 9 { 0 } else { which }, param(k));
        let mut g = Gen::new(0, 0);
        g.function(&ast);
        if which == 9 {
            let last = g.f.len() - 1;
            g.f[last].br = Br::Jump(1);
        }
        let d = function(&g.f);
        depth();
        let r = find_control_flow(d);
        need.push(depth());
        if which == 9 {
            check(15, 2, r.is_err());
        }
        obs(r.is_ok() as u64);
    }
    cover(which);
    // natively both are 0: the stack shows the defect itself
    check(15, 1, need[1] <= need[0] + 8 + param(1) as u64 / 8);
}
