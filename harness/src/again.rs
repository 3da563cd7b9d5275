//! C23: what was done before does not change a result. Every harness computes the result of x as a
//! process that has done nothing else gives it, then does other things, then x.
use crate::cfa::*;
use crate::display::{all_ops, nth_op, push_bytes};
use crate::enc::encode;
use crate::header::tool_number;
use crate::layout::*;
use crate::multi::{push_inst, shape, shape_of};
use crate::reader::same_words;
use crate::sym::*;
use crate::util::*;
use magmaflow::spv::logical::*;
use magmaflow::spv::raw::{read_module, RawModule, ReadError};

fn import(id: u32) -> Vec<u32> {
    let mut g = vec![id];
    push_bytes(&mut g, b"GLSL.std.450");
    g
}
fn put_text(v: &mut Vec<u32>, s: &str) {
    v.push(s.len() as u32);
    for b in s.as_bytes() {
        v.push(*b as u32);
    }
}

fn read_words(r: &Result<RawModule, ReadError>) -> Vec<u32> {
    let mut v = vec![];
    match r {
        Ok(m) => {
            v.push(0);
            v.push(m.bound);
            v.push(m.generator.version as u32);
            v.push(tool_number(&m.generator.tool));
            v.push(m.version.0 as u32);
            v.push(m.version.1 as u32);
            v.push(m.instructions.len() as u32);
            for i in &m.instructions {
                let w = encode(i);
                v.push(w.len() as u32);
                v.extend_from_slice(&w);
            }
        }
        Err(e) => {
            let e = conv(e);
            v.push(1);
            v.push(e.kind);
            v.push(e.a);
            v.push(e.b);
            put_text(&mut v, &e.s);
        }
    }
    v
}
fn layout_words(r: &Result<LogicalModule, ValidationError>) -> Vec<u32> {
    let mut v = vec![];
    match r {
        Ok(m) => {
            v.push(0);
            v.push(m.function_declarations.len() as u32);
            for w in flatten(m) {
                v.push(w.len() as u32);
                v.extend_from_slice(&w);
            }
        }
        Err(e) => {
            let (k, i) = match verdict(e) {
                Verdict::NoMemoryModel => (1, 0),
                Verdict::WantFunction(i) => (2, i),
                Verdict::WantEnd(i) => (3, i),
                Verdict::WantBranch(i) => (4, i),
                Verdict::Unexpected(i) => (5, i),
                Verdict::Fine => (6, 0),
            };
            v.push(k);
            v.push(i as u32);
        }
    }
    v
}
fn chain_words(t: &[T], v: &mut Vec<u32>) {
    for x in t {
        match x {
            T::Atom(i) => v.extend_from_slice(&[1, *i]),
            T::Sel(i, a, b, f, d, w) => {
                let (w0, w1) = w.unwrap_or((0, 0));
                v.extend_from_slice(&[2, *i, *f as u32, *d as u32, w.is_some() as u32, w0, w1]);
                chain_words(a, v);
                v.push(9);
                chain_words(b, v);
                v.push(9);
            }
            T::Loop(i, a, x, y, z, n) => {
                v.extend_from_slice(&[3, *i, *x as u32, *y as u32, *z as u32, n.is_some() as u32, n.unwrap_or(0)]);
                chain_words(a, v);
                v.push(9);
            }
            T::Break => v.push(4),
            T::Continue => v.push(5),
        }
    }
}
fn error_words(e: &ControlFlowError) -> (u32, u32) {
    match *e {
        ControlFlowError::UnknownBlockId(ref b) => (1, num(b)),
        ControlFlowError::DuplicateBlockId(ref b) => (2, num(b)),
        ControlFlowError::CouldNotPredictConverge(ref b) => (3, num(b)),
        ControlFlowError::InvalidConvergePrediction(ControlType::Selection, ref b) => (4, num(b)),
        ControlFlowError::InvalidConvergePrediction(ControlType::Loop, ref b) => (5, num(b)),
        ControlFlowError::NoBlocks => (7, 0),
        ControlFlowError::Failed => (6, 0),
    }
}
fn cfg_words(d: &FunctionDefinition, r: &ControlFlowResult<ControlFlowChain>) -> Vec<u32> {
    let mut v = vec![];
    match r {
        Ok(c) => {
            v.push(0);
            let mut t = vec![];
            normal(c, &mut t);
            chain_words(&t, &mut v);
            put_text(&mut v, &c.to_string());
            put_text(&mut v, &ControlFlowFunctionPrinter(d, c).to_string());
        }
        Err(e) => {
            let (k, b) = error_words(e);
            v.push(k);
            v.push(b);
        }
    }
    v
}
fn text_words(m: &RawModule) -> Vec<u32> {
    let mut v = vec![];
    put_text(&mut v, &m.to_string());
    v
}

fn compare(code: u32, base: &[u32], again: &[u32]) {
    check(23, code, base.len() == again.len());
    check(23, code + 1, same_words(base, again));
    cover(if base.is_empty() || base[0] == 0 { 1 } else { 2 });
    obs(base.len() as u64);
}

/// how the other input is spoilt
fn spoil(z: &mut Vec<u8>, y: &[u32], how: u32) {
    match how {
        0 => {}
        1 => z.extend_from_slice(&[9, 0, 1, 0]),
        2 => {
            let k = z.len() - 2;
            z.truncate(k);
        }
        3 => z[16] = 1,
        _ => *z = bytes_be(y),
    }
}
fn sets_for(how: u32) -> Vec<Box<dyn magmaflow::spv::ExtInstSet>> {
    if how == 4 { vec![] } else { sets() }
}

/// another module with any one instruction (whole, cut short, with unknown parts, in the other byte
/// order, without sets) is read p1 times before a module with any one instruction
#[no_mangle]
pub fn h_again_read() {
    let (s, t) = (u32v(), u32v());
    let few = param(1) > 1;
    let a = if few { [5, 12, 43, 54][choose(4) as usize] } else { nth_op(choose(all_ops())) };
    let b = nth_op(choose(all_ops()));
    let mut x = HEADER.to_vec();
    if choose(2) == 0 {
        push_inst(&mut x, 11, &import(s));
    }
    push_inst(&mut x, a, &shape(a, true, false, s));
    let mut y = HEADER.to_vec();
    y[3] = u32v();
    push_inst(&mut y, 11, &import(t));
    push_inst(&mut y, b, &shape(b, true, false, t));
    let x = bytes_le(&x);
    let mut z = bytes_le(&y);
    spoil(&mut z, &y, param(0));
    let base = fresh(|| read_words(&read_module(&x, sets())));
    for _ in 0..param(1) {
        obs(read_module(&z, sets_for(param(0))).is_ok() as u64);
    }
    let r = read_module(&x, sets());
    dump(|| format!("bytes {:02x?}\n  alone {:x?}\n  after {:02x?}\n  gives {:?}", x, base, z, r));
    compare(1, &base, &read_words(&r));
}

const STRINGS: [u16; 8] = [3, 4, 5, 6, 7, 10, 15, 31];

/// two modules with names of p0 characters that agree but for one place, or in length
#[no_mangle]
pub fn h_again_name() {
    let n = param(0) as usize;
    let at = choose(param(0)) as usize;
    let op = STRINGS[choose(STRINGS.len() as u32) as usize];
    let shorter = choose(3);
    let mut m = vec![];
    for k in 0..2 {
        let mut s: Vec<u8> = (0..n).map(|i| b'a' + (i % 26) as u8).collect();
        let c = u8v();
        if param(1) == 1 {
            assume((c >= b'A') & (c <= b'Z'));
        } else {
            assume((c > 0) & (c < 0x80));
        }
        s[at] = c;
        match shorter {
            1 if k == 1 => s.truncate(at),
            2 if k == 0 => s.truncate(at + 1),
            _ => {}
        }
        let num = || if param(1) == 1 { var(3) as u32 } else { u32v() };
        let mut w = match op {
            3 => vec![1, num(), 7],
            5 | 7 | 31 => vec![num()],
            6 => vec![num(), num()],
            15 => vec![0, num()],
            _ => vec![],
        };
        push_bytes(&mut w, &s);
        let mut x = HEADER.to_vec();
        push_inst(&mut x, op, &w);
        m.push(bytes_le(&x));
    }
    let base = fresh(|| {
        let r = read_module(&m[0], sets());
        let mut v = read_words(&r);
        if param(1) == 1 {
            v.extend(r.as_ref().map(text_words).unwrap_or_default());
        }
        v
    });
    let other = read_module(&m[1], sets());
    if param(1) == 1 {
        obs(other.as_ref().map(|m| m.to_string().len()).unwrap_or(0) as u64);
    }
    let r = read_module(&m[0], sets());
    dump(|| format!("bytes {:02x?}\n  alone {:x?}\n  after {:?}\n  gives {:?}", m[0], base, other, r));
    let mut v = read_words(&r);
    if param(1) == 1 {
        v.extend(r.as_ref().map(text_words).unwrap_or_default());
    }
    compare(3, &base, &v);
}

/// the same module read and printed p0 times
#[no_mangle]
pub fn h_again_often() {
    let a = nth_op(choose(all_ops()));
    let mut x = HEADER.to_vec();
    push_inst(&mut x, 11, &import(77));
    push_inst(&mut x, a, &shape_of(a, true, false, 77, &mut || var(3) as u32));
    let x = bytes_le(&x);
    let run = || {
        let r = read_module(&x, sets());
        let mut v = read_words(&r);
        v.extend(r.as_ref().map(text_words).unwrap_or_default());
        v
    };
    let base = fresh(run);
    let mut last = vec![];
    for _ in 0..param(0) {
        last = run();
    }
    dump(|| format!("bytes {:02x?}\n  alone {:x?}\n  in the end {:x?}", x, base, last));
    compare(5, &base, &last);
}

/// any two modules (p0 = 1: any two generators) are read and printed before the first is printed
#[no_mangle]
pub fn h_again_text() {
    let gens = param(0) == 1;
    let mut m = vec![];
    for _ in 0..2 {
        let op = if gens { 43 } else { nth_op(choose(all_ops())) };
        let mut x = HEADER.to_vec();
        if gens {
            x[2] = choose(14) << 16 | var(3) as u32;
            x[3] = var(3) as u32;
        }
        push_inst(&mut x, 11, &import(77));
        push_inst(&mut x, op, &shape_of(op, true, false, 77, &mut || var(3) as u32));
        m.push(bytes_le(&x));
    }
    let run = |b: &[u8]| -> Vec<u32> { read_module(b, sets()).as_ref().map(text_words).unwrap_or_default() };
    let base = fresh(|| run(&m[0]));
    let between = run(&m[1]);
    let after = run(&m[0]);
    dump(|| {
        let s = |v: &[u32]| v.iter().skip(1).map(|c| *c as u8 as char).collect::<String>();
        format!("alone\n{}\n  between\n{}\n  again\n{}", s(&base), s(&between), s(&after))
    });
    check(23, 7, base.len() == after.len());
    check(23, 8, same_words(&base, &after));
    cover(if base.is_empty() { 9 } else { 1 });
    obs(between.len() as u64);
}

fn some_list(deep: bool) -> Vec<Cl> {
    let n = FULL.len() as u32;
    let k = choose(REPEATED + if deep { 2 * n } else { 6 });
    if k < REPEATED {
        return repeated(k, 3);
    }
    let mut c = FULL.to_vec();
    let k = k - REPEATED;
    if deep {
        if k < n {
            c.truncate(k as usize);
        } else {
            c.remove((k - n) as usize);
        }
        return c;
    }
    match k {
        0 => {}
        1 => c.truncate(17),
        2 => c.truncate(11),
        3 => c.push(FULL[0]),
        4 => c.insert(9, FULL[0]),
        _ => {
            c.remove(3);
        }
    }
    c
}

/// another list is laid out p0 times before one
#[no_mangle]
pub fn h_again_layout() {
    let mut l = vec![];
    for k in 0..2 {
        let c = some_list(k == 1);
        let mut list = vec![];
        for (i, x) in c.iter().enumerate() {
            list.push(sample(*x, (i as u32 + k) & 1));
        }
        l.push(raw(&list));
    }
    let run = |m: &RawModule| layout_words(&validate(m.clone()));
    let base = fresh(|| run(&l[0]));
    for _ in 0..param(0) {
        obs(validate(l[1].clone()).is_ok() as u64);
    }
    let after = run(&l[0]);
    dump(|| format!("list {:?}\n  alone {:x?}\n  after {:?}\n  gives {:x?}", l[0], base, l[1], after));
    compare(10, &base, &after);
}

/// a function of at most n statements; one block may jump nowhere or return
fn some_function(n: u32, ids: u32, fault: bool, tag: u32) -> FunctionDefinition {
    let mut budget = n;
    let ast = any_ast(&mut budget, 3, false);
    let mut g = Gen::new(ids, 0);
    g.function(&ast);
    let mut f = g.f.clone();
    if fault {
        let k = choose(2 * f.len() as u32 + 1) as usize;
        if k > 0 {
            f[(k - 1) / 2].br = if k % 2 == 0 { Br::Jump(g.missing()) } else { Br::Ret };
        }
    }
    let mut x = function(&f);
    for (i, b) in x.blocks.iter_mut().enumerate() {
        b.code.push(crate::print::code(tag, i as u32));
    }
    x
}

/// another function (at most p1 statements, sound or faulty) is analysed and printed p2 times before
/// one of at most p0 statements
#[no_mangle]
pub fn h_again_cfg() {
    let x = some_function(param(0), param(3), param(2) == 1, 0);
    let y = some_function(param(1), param(3), true, 1);
    let run = |d: &FunctionDefinition| cfg_words(d, &find_control_flow(d.clone()));
    let base = fresh(|| run(&x));
    for _ in 0..param(2) {
        obs(run(&y).len() as u64);
    }
    let after = run(&x);
    dump(|| format!("function {:?}\n  alone {:?}\n  after {:?}\n  gives {:?}", x, base, y, after));
    compare(13, &base, &after);
}

/// one thing a user does with the library
fn act(k: u32, lists: &[RawModule]) -> Vec<u32> {
    let import = import(77);
    let module = |gen: u32, more: &[(u16, &[u32])]| {
        let mut x = HEADER.to_vec();
        x[2] = gen;
        push_inst(&mut x, 11, &import);
        for (op, w) in more {
            push_inst(&mut x, *op, w);
        }
        bytes_le(&x)
    };
    let whole = |gen: u32| {
        module(gen, &[
            (14, &[0, 1]),
            (15, &[0, 20, 0x6E69616D, 0]),
            (5, &[20, 0x6E69616D, 0]),
            (71, &[30, 33, 5]),
            (19, &[2]),
            (21, &[3, 32, 1]),
            (43, &[3, 30, 7]),
            (54, &[2, 20, 0, 4]),
            (248, &[40]),
            (12, &[3, 50, 77, 13, 30]),
            (247, &[42, 0]),
            (250, &[50, 41, 42]),
            (248, &[41]),
            (128, &[3, 51, 30, 50]),
            (249, &[42]),
            (248, &[42]),
            (253, &[]),
            (56, &[]),
        ])
    };
    let flow = |v: &[Ast], bad: usize| {
        let mut g = Gen::new(0, 0);
        g.function(v);
        let mut f = g.f.clone();
        if bad > 0 {
            let at = f.len() - bad;
            f[at].br = Br::Jump(g.missing());
        }
        let d = function(&f);
        cfg_words(&d, &find_control_flow(d.clone()))
    };
    let both = |b: &[u8]| {
        let r = read_module(b, sets());
        let mut v = read_words(&r);
        v.extend(r.as_ref().map(text_words).unwrap_or_default());
        v
    };
    match k {
        0 => both(&whole(0x00080001)),
        1 => both(&whole(0x00010002)),
        2 => {
            let mut v = vec![];
            if let Ok(m) = read_module(&whole(3), sets()) {
                if let Ok(l) = validate(m) {
                    for f in l.function_definitions {
                        v.extend(cfg_words(&f, &find_control_flow(f.clone())));
                    }
                }
            }
            v
        }
        3 => both(&module(1, &[(12, &[3, 50, 76, 13, 30])])),
        4 => both(&module(1, &[(12, &[3, 50, 77, 200, 30])])),
        5 => both(&module(1, &[(9, &[])])),
        6 => both(&module(1, &[(43, &[3, 30, 7]), (43, &[3, 30, 8])])),
        7 => read_words(&read_module(&whole(1), vec![])),
        8 => both(&whole(1)[..99]),
        9 | 10 | 11 => layout_words(&validate(lists[k as usize - 9].clone())),
        12 => flow(&[Ast::If(vec![Ast::Plain], vec![]), Ast::Loop(vec![Ast::Plain, Ast::Test(true), Ast::Plain])], 0),
        13 => flow(&[Ast::If(vec![Ast::Plain], vec![Ast::Plain])], 3),
        14 => flow(&[Ast::Loop(vec![Ast::Test(false), Ast::Plain])], 2),
        _ => both(&[]),
    }
}
const ACTS: u32 = 16;

/// any p0 things done before any one thing, over all stages of the library
#[no_mangle]
pub fn h_again_any() {
    let x = choose(ACTS);
    let mut lists = vec![];
    for k in 0..3 {
        let mut c = FULL.to_vec();
        match k {
            0 => {}
            1 => c.truncate(17),
            _ => c.push(FULL[0]),
        }
        let v: Vec<_> = c.iter().enumerate().map(|(i, x)| sample(*x, i as u32 & 1)).collect();
        lists.push(raw(&v));
    }
    let base = fresh(|| act(x, &lists));
    let mut did = vec![];
    for _ in 0..param(0) {
        let k = choose(ACTS);
        did.push(k);
        act(k, &lists);
    }
    let after = act(x, &lists);
    dump(|| format!("action {}\n  alone {:x?}\n  after {:?}\n  gives {:x?}", x, base, did, after));
    compare(20, &base, &after);
}

/// the same thing done twice, for any hash functions (p0: which thing, p1: size)
#[no_mangle]
pub fn h_again_hash() {
    let twice = |code: u32, run: &dyn Fn() -> Vec<u32>| {
        let base = fresh(|| run());
        let mut after = run();
        for _ in 0..if exploring() { 0 } else { 20 } {
            // natively every map hashes differently
            if after != base {
                break;
            }
            after = run();
        }
        dump(|| format!("first {:?}\n  again {:?}", base, after));
        compare(code, &base, &after);
    };
    match param(0) {
        // a structured function, sound, with a missing target, or with two ids used twice
        0 | 1 => {
            let mut budget = param(1);
            let ast = any_ast(&mut budget, 3, false);
            let mut g = Gen::new(0, 0);
            g.function(&ast);
            let mut f = g.f.clone();
            let n = f.len();
            if param(0) == 1 {
                let (a, b) = (choose(n as u32) as usize, choose(n as u32) as usize);
                f[a].id = f[(a + 1) % n].id;
                f[b].id = f[(b + 1) % n].id;
            } else {
                let k = choose(2 * n as u32 + 1) as usize;
                if k > 0 {
                    f[(k - 1) / 2].br = if k % 2 == 0 { Br::Jump(g.missing()) } else { Br::Ret };
                }
            }
            let mut x = function(&f);
            for (i, b) in x.blocks.iter_mut().enumerate() {
                b.code.push(crate::print::code(0, i as u32));
            }
            dump(|| format!("{:?}", x));
            twice(30, &|| cfg_words(&x, &find_control_flow(x.clone())));
        }
        // imports of up to three sets and uses of them around any instruction; sets registered twice
        2 => {
            let op = nth_op(choose(all_ops()));
            let again = choose(2) == 1;
            let mut x = HEADER.to_vec();
            let mut g = vec![77];
            push_bytes(&mut g, b"GLSL.std.450");
            push_inst(&mut x, 11, &g);
            push_inst(&mut x, 11, &[78, b'A' as u32]);
            push_inst(&mut x, 11, &[79, b'B' as u32]);
            push_inst(&mut x, op, &shape_of(op, true, false, 77, &mut || var(3) as u32));
            push_inst(&mut x, 12, &[1, 2, 78, 0, 5]);
            push_inst(&mut x, 12, &[1, 3, 79, 0, 5]);
            if choose(2) == 1 {
                push_inst(&mut x, 11, &[78, b'B' as u32]);
            }
            let x = bytes_le(&x);
            twice(32, &|| {
                let mut s = sets();
                s.push(Box::new(crate::ext::Set(1)));
                s.push(Box::new(crate::ext::Set(2)));
                if again {
                    s.push(Box::new(crate::ext::Set(1)));
                    s.push(Box::new(magmaflow::glsl450::InstSet));
                }
                let r = read_module(&x, s);
                let mut v = read_words(&r);
                v.extend(r.as_ref().map(text_words).unwrap_or_default());
                v
            });
        }
        // three of any instruction, or any two, read and printed
        3 => {
            let (a, b) = (nth_op(choose(all_ops())), nth_op(choose(all_ops())));
            let mut x = HEADER.to_vec();
            push_inst(&mut x, 11, &import(77));
            assume(a != 11 && b != 11);
            for op in [a, b, a] {
                let mut id = 20;
                push_inst(&mut x, op, &shape_of(op, true, false, 77, &mut || {
                    id += 1;
                    id
                }));
            }
            let x = bytes_le(&x);
            twice(34, &|| {
                let r = read_module(&x, sets());
                let mut v = read_words(&r);
                v.extend(r.as_ref().map(text_words).unwrap_or_default());
                v
            });
        }
        // layout
        _ => {
            let c = some_list(true);
            let v: Vec<_> = c.iter().enumerate().map(|(i, x)| sample(*x, i as u32 & 1)).collect();
            let l = raw(&v);
            dump(|| format!("{:?}", l));
            twice(36, &|| layout_words(&validate(l.clone())));
        }
    }
}
