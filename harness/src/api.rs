//! C21: equality and cloning of what was read. C22: the operand reading offered to sets.
use crate::enc;
use crate::ext;
use crate::spec::*;
use crate::sym::*;
use crate::util::*;
use magmaflow::glsl450::op::{Cos, Sin};
use magmaflow::glsl450::{Inst as Glsl, InstSet};
use magmaflow::spv::raw::{read_module, MemoryBlock, MemoryBlockRead, MemoryBlockResult, RawModule, ReadError};
use magmaflow::spv::types::*;
use magmaflow::spv::{ExtInst, ExtInstSet, Op};
use std::any::Any;
use std::fmt;

// ---------------------------------------------------------------- C21

/// an instruction of the same shape as `ext::X` but of another kind of set
#[derive(Clone, Debug, PartialEq)]
pub struct Y {
    pub words: Vec<u32>,
}
impl fmt::Display for Y {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("Y")
    }
}
impl Op for Y {
    fn get_name(&self) -> &'static str {
        "Y"
    }
}
impl ExtInst for Y {
    fn get_op(&self) -> &dyn Op {
        self
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn eq(&self, other: &dyn ExtInst) -> bool {
        match other.as_any().downcast_ref::<Y>() {
            Some(o) => self == o,
            None => false,
        }
    }
}
pub struct SetY;
impl ExtInstSet for SetY {
    fn get_name(&self) -> &'static str {
        "Y"
    }
    fn read_instruction<'a, 'b>(
        &'b self,
        _: u32,
        mut block: MemoryBlock<'a>,
    ) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        let mut words = vec![];
        while !block.end() {
            let (b, w) = block.read_word()?;
            block = b;
            words.push(w);
        }
        Ok((block, Box::new(Y { words })))
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> {
        Box::new(SetY)
    }
}

fn all_sets() -> Vec<Box<dyn ExtInstSet>> {
    vec![Box::new(InstSet), Box::new(ext::Set(1)), Box::new(ext::Set(2)), Box::new(SetY)]
}

/// kind of set, instruction number, operand words, and the boxed instruction itself
struct Some1 {
    kind: u32,
    inst: u32,
    words: Vec<u32>,
    boxed: Box<dyn ExtInst>,
}
fn some_inst() -> Some1 {
    let k = choose(6);
    let mut words = vec![];
    for _ in 0..if k < 2 { 1 } else { choose(3) } {
        words.push(u32v());
    }
    let (kind, inst, boxed): (u32, u32, Box<dyn ExtInst>) = match k {
        0 => (0, 13, Box::new(Glsl::Sin(Sin { x: OpId(words[0]) }))),
        1 => (0, 14, Box::new(Glsl::Cos(Cos { x: OpId(words[0]) }))),
        2 => (1, 0, Box::new(ext::X { set: 1, inst: 0, words: words.clone() })),
        3 => (2, 0, Box::new(ext::X { set: 2, inst: 0, words: words.clone() })),
        4 => (1, 1, Box::new(ext::X { set: 1, inst: 1, words: words.clone() })),
        _ => (3, 0, Box::new(Y { words: words.clone() })),
    };
    Some1 { kind, inst, words, boxed }
}
fn same(a: &[u32], b: &[u32]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}

/// any two extended instructions of the built-in set and three others
#[no_mangle]
pub fn h_eq_inst() {
    let (a, b) = (some_inst(), some_inst());
    let want = (a.kind == b.kind && a.inst == b.inst) && same(&a.words, &b.words);
    let ab = ExtInst::eq(a.boxed.as_ref(), b.boxed.as_ref());
    let ba = ExtInst::eq(b.boxed.as_ref(), a.boxed.as_ref());
    dump(|| format!("{:?} == {:?}: {} and {}", a.boxed, b.boxed, ab, ba));
    cover(if ab { 1 } else { 2 });
    cover(10 + a.kind * 4 + b.kind);
    check(21, 1, ab == want);
    check(21, 2, ba == want);
    let c = a.boxed.clone();
    check(21, 3, ExtInst::eq(a.boxed.as_ref(), c.as_ref()));
    check(21, 4, ExtInst::eq(c.as_ref(), a.boxed.as_ref()));
    check(21, 5, ExtInst::eq(c.as_ref(), b.boxed.as_ref()) == want);
    if a.kind == 0 {
        let name = if a.inst == 13 { "Sin" } else { "Cos" };
        check(21, 6, a.boxed.get_op().get_name() == name);
        check(21, 7, c.as_any().downcast_ref::<Glsl>().is_some());
    }
    obs(ab as u64);
}

/// a module that imports a set and uses it once; p0 as the import's and the use's id
fn ext_module() -> (u32, u32, [u32; 3], Vec<u32>, Result<RawModule, ReadError>) {
    let k = choose(4);
    let mut w = HEADER.to_vec();
    match k {
        0 => w.extend_from_slice(&[6 << 16 | 11, 77, 0x4C534C47, 0x6474732E, 0x3035342E, 0]),
        1 => w.extend_from_slice(&[3 << 16 | 11, 77, 0x41]),
        2 => w.extend_from_slice(&[3 << 16 | 11, 77, 0x42]),
        _ => w.extend_from_slice(&[3 << 16 | 11, 77, 0x59]),
    }
    let inst = if k == 0 { 13 + choose(2) } else { 0 };
    let n = if k == 0 { 1 } else { choose(3) };
    let ids = [u32v(), u32v(), inst];
    w.extend_from_slice(&[(5 + n) << 16 | 12, ids[0], ids[1], 77, inst]);
    let mut v = vec![];
    for _ in 0..n {
        let x = u32v();
        v.push(x);
        w.push(x);
    }
    let r = read_module(&bytes_le(&w), all_sets());
    (k, inst, ids, v, r)
}

/// two modules that differ in the set, the instruction or the words
#[no_mangle]
pub fn h_eq_ext() {
    let (k, _, i, v, a) = ext_module();
    let (l, _, j, w, b) = ext_module();
    let (a, b) = match (a, b) {
        (Ok(a), Ok(b)) => (a, b),
        _ => {
            cover(9);
            return;
        }
    };
    if a.instructions.len() != 2 || b.instructions.len() != 2 {
        cover(9);
        return;
    }
    let want = k == l && same(&i, &j) & same(&v, &w);
    let got = a.instructions[1] == b.instructions[1];
    dump(|| format!("{:?}\n  {:?}\n  equal: {}", a.instructions[1], b.instructions[1], got));
    cover(if got { 1 } else { 2 });
    check(21, 10, got == want);
    check(21, 11, (b.instructions[1] == a.instructions[1]) == want);
    check(21, 12, (a == b) == want);
    let c = a.clone();
    check(21, 13, c == a);
    check(21, 14, a == c);
    check(21, 15, (c == b) == want);
    obs(got as u64);
}

fn words_of(m: &RawModule) -> Vec<u32> {
    let mut o = vec![];
    for i in &m.instructions {
        o.extend_from_slice(&enc::encode(i));
    }
    o
}

/// two instructions of p0 operand words, the same but for word p1 (p1 = 99: all words free);
/// p2 = 1: opcodes that take strings
#[no_mangle]
pub fn h_eq_module() {
    let n = param(0);
    let at = param(1);
    let op = if param(2) == 1 {
        [2u32, 3, 4, 5, 6, 7, 10, 15, 31][choose(9) as usize]
    } else {
        let op = var(16) as u32;
        assume((op > 7) & (op != 10) & (op != 11) & (op != 12) & (op != 15) & (op != 31));
        op
    };
    let (mut a, mut b) = (HEADER.to_vec(), HEADER.to_vec());
    a.push((n + 1) << 16 | op);
    b.push((n + 1) << 16 | op);
    for i in 0..n {
        let x = if param(2) == 1 { (var(7) | var(7) << 8 | var(7) << 16 | var(7) << 24) as u32 } else { u32v() };
        a.push(x);
        if i == at || at == 99 {
            b.push(if param(2) == 1 { (var(7) | var(7) << 8 | var(7) << 16 | var(7) << 24) as u32 } else { u32v() });
        } else {
            b.push(x);
        }
    }
    let (p, q) = match (read_module(&bytes_le(&a), sets()), read_module(&bytes_le(&b), sets())) {
        (Ok(p), Ok(q)) => (p, q),
        _ => {
            cover(9);
            return;
        }
    };
    let want = same(&words_of(&p), &words_of(&q));
    let got = p == q;
    dump(|| format!("{:?}\n  {:?}\n  equal: {}", p.instructions, q.instructions, got));
    cover(if got { 1 } else { 2 });
    check(21, 20, got == want);
    check(21, 21, (q == p) == want);
    check(21, 22, p.clone() == p);
    check(21, 23, same(&words_of(&p.clone()), &words_of(&p)));
    obs(got as u64);
}

/// two headers: any generators and bounds; and lists of different lengths
#[no_mangle]
pub fn h_eq_header() {
    let (g, h) = (u32v(), u32v());
    let (b, c) = (u32v(), u32v());
    let mut x = vec![HEADER[0], HEADER[1], g, b, 0];
    let mut y = vec![HEADER[0], HEADER[1], h, c, 0];
    let (i, j) = (choose(3), choose(3));
    for _ in 0..i {
        x.push(1 << 16 | 253);
    }
    for _ in 0..j {
        y.push(1 << 16 | 253);
    }
    let (p, q) = match (read_module(&bytes_le(&x), sets()), read_module(&bytes_le(&y), sets())) {
        (Ok(p), Ok(q)) => (p, q),
        _ => {
            cover(9);
            return;
        }
    };
    let want = (g == h) & (b == c) & (i == j);
    let got = p == q;
    dump(|| format!("{:?}\n  {:?}\n  equal: {}", p, q, got));
    cover(if got { 1 } else { 2 });
    check(21, 30, got == want);
    check(21, 31, (q == p) == want);
    check(21, 32, p.clone() == p);
    obs(got as u64);
}

// ---------------------------------------------------------------- C22

/// one byte, read from one word
#[derive(PartialEq, Debug)]
struct Byte(u8);
impl MemoryBlockRead for Byte {
    fn read(b: MemoryBlock) -> MemoryBlockResult<Byte> {
        let (b, w) = b.read_word()?;
        Ok((b, Byte(w as u8)))
    }
}
/// no bytes at all, read from one word
#[derive(PartialEq, Debug)]
struct Unit;
impl MemoryBlockRead for Unit {
    fn read(b: MemoryBlock) -> MemoryBlockResult<Unit> {
        let (b, _) = b.read_word()?;
        Ok((b, Unit))
    }
}
/// a large value read from one word
#[derive(PartialEq, Debug)]
struct Large([u64; 9]);
impl MemoryBlockRead for Large {
    fn read(b: MemoryBlock) -> MemoryBlockResult<Large> {
        let (b, w) = b.read_word()?;
        Ok((b, Large([w as u64; 9])))
    }
}
/// three words
#[derive(PartialEq, Debug)]
struct Three(u32, OpId, u32);
impl MemoryBlockRead for Three {
    fn read(b: MemoryBlock) -> MemoryBlockResult<Three> {
        let (b, x) = b.read_word()?;
        let (b, y) = b.read_op_id()?;
        let (b, z) = MemoryBlockRead::read(b)?;
        Ok((b, Three(x, y, z)))
    }
}

/// what a read should give: the words it decodes to, or the end of the instruction
fn take(at: &mut usize, all: &[u32], n: usize) -> Option<Vec<u32>> {
    let mut v = vec![];
    for _ in 0..n {
        if *at >= all.len() {
            return None;
        }
        v.push(all[*at]);
        *at += 1;
    }
    Some(v)
}
/// as many groups of n words as there are
fn take_all(at: &mut usize, all: &[u32], n: usize) -> Option<Vec<u32>> {
    let mut v = vec![];
    while *at < all.len() {
        v.extend_from_slice(&take(at, all, n)?);
    }
    Some(v)
}

static mut WORDS: Vec<u32> = vec![];
static mut STEPS: u32 = 0;

pub struct Script;
impl ExtInstSet for Script {
    fn get_name(&self) -> &'static str {
        "S"
    }
    #[allow(static_mut_refs)]
    fn read_instruction<'a, 'b>(
        &'b self,
        inst: u32,
        block: MemoryBlock<'a>,
    ) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        check(22, 1, inst == 5);
        let all = unsafe { WORDS.clone() };
        let mut block = block;
        let mut at = 0;
        for _ in 0..unsafe { STEPS } {
            check(22, 2, block.remaining() == all.len() - at);
            check(22, 3, block.end() == (all.len() == at));
            let kind = choose(23);
            cover(100 + kind);
            dump(|| format!("read kind {} at operand {} of {:08x?}", kind, at, all));
            macro_rules! one {
                ($want:expr, $read:expr, $v:ident => $words:expr) => {{
                    let want: Option<Vec<u32>> = $want;
                    match $read {
                        Ok((b, $v)) => {
                            block = b;
                            match want {
                                Some(w) => check(22, 4, same(&w, &$words)),
                                None => check(22, 5, false),
                            }
                        }
                        Err(e) => {
                            cover(2);
                            check(22, 6, want.is_none());
                            check(22, 7, conv(&e).kind == ek::EndOfInst);
                            return Err(e);
                        }
                    }
                }};
            }
            let a = &mut at;
            match kind {
                0 => one!(take(a, &all, 1), block.read_word(), v => [v]),
                1 => one!(take(a, &all, 1), block.read_op_id(), v => [v.0]),
                2 => one!(take(a, &all, 1), <u32 as MemoryBlockRead>::read(block), v => [v]),
                3 => one!(take(a, &all, 1), <OpId as MemoryBlockRead>::read(block), v => [v.0]),
                4 => one!(take(a, &all, 1), <ResultId as MemoryBlockRead>::read(block), v => [v.0]),
                5 => one!(take(a, &all, 2), <PhiArg as MemoryBlockRead>::read(block), v => [v.variable.0, v.parent.0]),
                6 => one!(take(a, &all, 2), <BranchWeights as MemoryBlockRead>::read(block), v => [v.true_weight, v.false_weight]),
                7 => one!(take(a, &all, 3), <Three as MemoryBlockRead>::read(block), v => [v.0, (v.1).0, v.2]),
                8 => one!(take_all(a, &all, 1), <Vec<u32> as MemoryBlockRead>::read(block), v => v),
                9 => one!(take_all(a, &all, 1), <Vec<OpId> as MemoryBlockRead>::read(block), v => v.iter().map(|x| x.0).collect::<Vec<u32>>()),
                10 => one!(take_all(a, &all, 2), <Vec<PhiArg> as MemoryBlockRead>::read(block), v => v.iter().flat_map(|x| vec![x.variable.0, x.parent.0]).collect::<Vec<u32>>()),
                11 => one!(take_all(a, &all, 3), <Vec<Three> as MemoryBlockRead>::read(block), v => v.iter().flat_map(|x| vec![x.0, (x.1).0, x.2]).collect::<Vec<u32>>()),
                12 => one!(take_all(a, &all, 1).map(|w| w.iter().map(|x| x & 0xFF).collect()),
                    <Vec<Byte> as MemoryBlockRead>::read(block), v => v.iter().map(|x| x.0 as u32).collect::<Vec<u32>>()),
                13 => one!(take_all(a, &all, 1).map(|w| w.iter().map(|_| 1).collect()),
                    <Vec<Unit> as MemoryBlockRead>::read(block), v => v.iter().map(|_| 1).collect::<Vec<u32>>()),
                14 => one!(take_all(a, &all, 1), <Vec<Large> as MemoryBlockRead>::read(block), v => v.iter().map(|x| x.0[8] as u32).collect::<Vec<u32>>()),
                15 => one!(if *a < all.len() { take(a, &all, 1) } else { Some(vec![]) },
                    <Option<u32> as MemoryBlockRead>::read(block), v => v.into_iter().collect::<Vec<u32>>()),
                16 => one!(if *a < all.len() { take(a, &all, 2) } else { Some(vec![]) },
                    <Option<BranchWeights> as MemoryBlockRead>::read(block), v => v.into_iter().flat_map(|v| vec![v.true_weight, v.false_weight]).collect::<Vec<u32>>()),
                17 => one!(if *a < all.len() { take(a, &all, 3) } else { Some(vec![]) },
                    <Option<Three> as MemoryBlockRead>::read(block), v => v.into_iter().flat_map(|v| vec![v.0, (v.1).0, v.2]).collect::<Vec<u32>>()),
                18 => one!(if *a < all.len() { take(a, &all, 1).map(|_| vec![1]) } else { Some(vec![]) },
                    <Option<Unit> as MemoryBlockRead>::read(block), v => v.into_iter().map(|_| 1).collect::<Vec<u32>>()),
                19 => one!(take_all(a, &all, 1), <Vec<Option<u32>> as MemoryBlockRead>::read(block), v => v.into_iter().flat_map(|x| x).collect::<Vec<u32>>()),
                20 => one!(take_all(a, &all, 1), <Option<Vec<u32>> as MemoryBlockRead>::read(block), v => v.into_iter().flat_map(|x| x).collect::<Vec<u32>>()),
                21 => one!(take(a, &all, 1), <SourceVersion as MemoryBlockRead>::read(block), v => [v.0]),
                _ => one!(take(a, &all, 1), <MemberIndex as MemoryBlockRead>::read(block), v => [v.0]),
            }
        }
        check(22, 8, block.remaining() == all.len() - at);
        check(22, 9, block.end() == (all.len() == at));
        unsafe { WORDS.truncate(at) };
        Ok((block, Box::new(Y { words: vec![] })))
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> {
        Box::new(Script)
    }
}

/// an extended instruction of p0 operand words, read by any p1 reads in a row
#[no_mangle]
#[allow(static_mut_refs)]
pub fn h_operands() {
    let n = param(0);
    let mut w = HEADER.to_vec();
    w.extend_from_slice(&[3 << 16 | 11, 77, 0x53]);
    w.extend_from_slice(&[(5 + n) << 16 | 12, 1, 2, 77, 5]);
    let mut all = vec![];
    for _ in 0..n {
        let x = u32v();
        w.push(x);
        all.push(x);
    }
    unsafe {
        WORDS = all;
        STEPS = param(1);
    }
    let r = read_module(&bytes_le(&w), vec![Box::new(Script)]);
    let used = unsafe { WORDS.len() } as u32;
    dump(|| format!("result {:?}", r.as_ref().map(|m| &m.instructions)));
    match r {
        Ok(_) => {
            cover(1);
            // all words were read
            check(22, 10, used == n);
            obs(1);
        }
        Err(e) => {
            let k = conv(&e).kind;
            cover(100 + 50 + k);
            obs(k as u64);
            check(22, 11, (k == ek::Excess) == (used < n));
            check(22, 12, k == ek::Excess || k == ek::EndOfInst);
        }
    }
}

/// strings among the operands, then the words after them
#[no_mangle]
#[allow(static_mut_refs)]
pub fn h_operands_str() {
    let n = param(0);
    let mut w = HEADER.to_vec();
    w.extend_from_slice(&[3 << 16 | 11, 77, 0x54]);
    w.extend_from_slice(&[(5 + n) << 16 | 12, 1, 2, 77, 5]);
    let mut all = vec![];
    for _ in 0..n {
        let x = (var(7) | var(7) << 8 | var(7) << 16 | var(7) << 24) as u32;
        w.push(x);
        all.push(x);
    }
    unsafe { WORDS = all };
    let r = read_module(&bytes_le(&w), vec![Box::new(Strings)]);
    dump(|| format!("words {:08x?} result {:?}", w, r.as_ref().map(|m| &m.instructions)));
    match r {
        Ok(_) => {
            cover(1);
            obs(1)
        }
        Err(e) => {
            cover(100 + conv(&e).kind);
            obs(conv(&e).kind as u64)
        }
    }
}

pub struct Strings;
impl ExtInstSet for Strings {
    fn get_name(&self) -> &'static str {
        "T"
    }
    #[allow(static_mut_refs)]
    fn read_instruction<'a, 'b>(
        &'b self,
        _: u32,
        block: MemoryBlock<'a>,
    ) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        let all = unsafe { WORDS.clone() };
        let mut r = Rd { w: &all, at: 0, canon: vec![] };
        let how = choose(3);
        cover(20 + how);
        if how == 0 {
            // a string, then the words after it
            let want = r.string();
            let got = <String as MemoryBlockRead>::read(block);
            match (got, want) {
                (Ok((b, s)), Ok(x)) => {
                    check(22, 20, same_bytes(s.as_bytes(), &x));
                    check(22, 21, b.remaining() == r.left());
                    let (b, v) = <Vec<u32> as MemoryBlockRead>::read(b)?;
                    check(22, 22, same(&v, &all[r.at..]));
                    Ok((b, Box::new(Y { words: v })))
                }
                (Err(e), Err(x)) => {
                    check(22, 23, conv(&e).kind == x.kind);
                    Err(e)
                }
                (Ok(_), Err(_)) => {
                    check(22, 24, false);
                    Err(ReadError::InvalidString)
                }
                (Err(e), Ok(_)) => {
                    check(22, 25, false);
                    Err(e)
                }
            }
        } else {
            // strings up to the end, or an optional one
            let mut want: Vec<Vec<u8>> = vec![];
            let mut bad = None;
            let mut first = true;
            while r.left() > 0 && (how == 1 || first) {
                first = false;
                match r.string() {
                    Ok(s) => want.push(s),
                    Err(e) => {
                        bad = Some(e);
                        break;
                    }
                }
            }
            let got = if how == 1 {
                <Vec<String> as MemoryBlockRead>::read(block)
            } else {
                <Option<String> as MemoryBlockRead>::read(block).map(|(b, s)| (b, s.into_iter().collect()))
            };
            match (got, bad) {
                (Ok((b, v)), None) => {
                    check(22, 26, v.len() == want.len());
                    for (s, x) in v.iter().zip(want.iter()) {
                        check(22, 27, same_bytes(s.as_bytes(), x));
                    }
                    check(22, 28, b.remaining() == r.left());
                    Ok((b, Box::new(Y { words: vec![] })))
                }
                (Err(e), Some(x)) => {
                    check(22, 29, conv(&e).kind == x.kind);
                    Err(e)
                }
                (Ok(_), Some(_)) => {
                    check(22, 30, false);
                    Err(ReadError::InvalidString)
                }
                (Err(e), None) => {
                    check(22, 31, false);
                    Err(e)
                }
            }
        }
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> {
        Box::new(Strings)
    }
}
fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}
