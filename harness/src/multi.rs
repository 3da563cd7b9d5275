//! C02, C04..C10: several instructions together, modules with a past, long operands.
use crate::display::{nth_op, all_ops, push_bytes};
use crate::reader::*;
use crate::spec::*;
use crate::sym::*;
use crate::tables::*;
use crate::util::*;
use magmaflow::spv::raw::read_module;

fn any_enumerant(e: E, vary: bool) -> u32 {
    if vary {
        let n = below(e.names().len() as u32);
        assume(e.valid(n));
        n
    } else {
        e.names().len() as u32 - 1
    }
}
fn text() -> u32 {
    // three characters that are not the terminator
    (0x40 | var(5) | (0x40 | var(5)) << 8 | (0x40 | var(5)) << 16) as u32
}

/// operand words of a valid instruction: ids and literals arbitrary, the number of operands fixed
/// (`rich`: optional ones there, two elements in lists), enumerants arbitrary if `vary`;
/// `set` is the id a set was imported under
pub fn shape(op: u16, rich: bool, vary: bool, set: u32) -> Vec<u32> {
    shape_of(op, rich, vary, set, &mut u32v)
}
pub fn shape_of(op: u16, rich: bool, vary: bool, set: u32, num: &mut dyn FnMut() -> u32) -> Vec<u32> {
    let mut w = vec![];
    if op == 12 {
        w = vec![num(), num(), set, 13 + (if vary { var(1) as u32 } else { 0 }), num()];
        return w;
    }
    if op == 11 {
        w.push(num());
        push_bytes(&mut w, b"GLSL.std.450");
        return w;
    }
    let image = op == 25;
    let which = if image && vary { choose(7) } else { 0 };
    let mut nth = 0;
    for k in row(op).unwrap().2 {
        match *k {
            K::R | K::Id | K::Lit => w.push(num()),
            K::Str => w.push(text()),
            K::OptId => {
                if rich {
                    w.push(num())
                }
            }
            K::OptStr => {
                if rich {
                    w.push(text())
                }
            }
            K::Ids | K::Lits => {
                for _ in 0..if rich { 3 } else { 1 } {
                    w.push(num())
                }
            }
            K::Enum(e) | K::OptEnum(e) => {
                if matches!(*k, K::OptEnum(_)) && !rich {
                    continue;
                }
                w.push(any_enumerant(e, vary && (!image || nth == which)));
                nth += 1;
            }
            K::Lang => w.push(if vary { below(6) } else { 2 }),
            K::Decoration => {
                let n = if vary {
                    let n = below(N_DECORATION.len() as u32);
                    assume((n != 12) & (n != 27));
                    conc(n)
                } else if rich {
                    41
                } else {
                    33
                };
                w.push(n);
                match n {
                    1 | 6 | 7 | 29..=37 | 43 | 44 => w.push(num()),
                    11 => w.push(any_enumerant(E::BuiltIn, vary)),
                    38 => w.push(any_enumerant(E::FunctionParameterAttribute, vary)),
                    39 => w.push(any_enumerant(E::FpRoundingMode, vary)),
                    40 => w.push(below(32)),
                    41 => {
                        w.push(text());
                        w.push(any_enumerant(E::LinkageType, vary));
                    }
                    _ => {}
                }
            }
            K::Mode => {
                let n = if vary {
                    let n = below(N_EXECUTION_MODE.len() as u32);
                    assume(n != 13);
                    conc(n)
                } else if rich {
                    17
                } else {
                    0
                };
                w.push(n);
                match n {
                    0 | 26 | 30 => w.push(num()),
                    17 | 18 => {
                        for _ in 0..3 {
                            w.push(num())
                        }
                    }
                    _ => {}
                }
            }
            K::OptMemoryAccess => {
                if rich {
                    let n = if vary { choose(8) } else { 2 };
                    w.push(n);
                    if n & 2 != 0 {
                        w.push(num());
                    }
                }
            }
            K::FunctionControl => w.push(if vary { below(16) } else { 5 }),
            K::LoopControl => {
                let n = if vary { choose(16) } else if rich { 8 } else { 0 };
                w.push(n);
                if n & 8 != 0 {
                    w.push(num());
                }
            }
            K::SelectionControl => w.push(if vary { below(4) } else { 2 }),
            K::OptWeights => {
                if rich {
                    w.push(num());
                    w.push(num());
                }
            }
            K::Phi => {
                for _ in 0..if rich { 4 } else { 2 } {
                    w.push(num())
                }
            }
            K::ExtInst => {}
        }
    }
    w
}

pub fn push_inst(all: &mut Vec<u32>, op: u16, w: &[u32]) {
    all.push((w.len() as u32 + 1) << 16 | op as u32);
    all.extend_from_slice(w);
}

fn about(op: u16) -> u32 {
    content(op) & !bit(5)
}

fn run(all: &[u32], about: u32) {
    let r = read_body(all);
    show(all, &r);
    let mut env = Env::new();
    let x = parse_stream(all, 0, &mut env);
    judge(&r, &x, about);
}

/// any two instructions one after the other, after an import of the built-in set;
/// p0: bit 0/1 optional operands of the first/second there, bit 2/3 enumerants of the first/second arbitrary
#[no_mangle]
pub fn h_pair() {
    let p = param(0);
    let set = u32v();
    let (a, b) = (nth_op(choose(all_ops())), nth_op(choose(all_ops())));
    let mut all = vec![];
    let mut g = vec![set];
    push_bytes(&mut g, b"GLSL.std.450");
    push_inst(&mut all, 11, &g);
    push_inst(&mut all, a, &shape(a, p & 1 != 0, p & 4 != 0, set));
    push_inst(&mut all, b, &shape(b, p & 2 != 0, p & 8 != 0, set));
    run(&all, about(a) | about(b));
}

/// one of each family of instructions
pub const FAMILY: [u16; 30] = [
    0, 1, 3, 5, 6, 7, 11, 12, 14, 15, 16, 17, 19, 21, 25, 30, 32, 43, 44, 54, 55, 56, 59, 61, 71, 128, 245, 246, 248, 250,
];

/// any three instructions (p0 = 1), or any three of 30 families, after an import
#[no_mangle]
pub fn h_triple() {
    let set = u32v();
    let mut all = vec![];
    let mut g = vec![set];
    push_bytes(&mut g, b"GLSL.std.450");
    push_inst(&mut all, 11, &g);
    let mut of = 0;
    for k in 0..3 {
        let op = if param(0) == 1 { nth_op(choose(all_ops())) } else { FAMILY[choose(FAMILY.len() as u32) as usize] };
        push_inst(&mut all, op, &shape(op, k != 1, false, set));
        of |= about(op);
    }
    run(&all, of);
}

/// p0 instructions of the same kind in a row, with optional operands (p1 = 1), of every kind or of p2
#[no_mangle]
pub fn h_row() {
    let a = if param(2) == 0 { nth_op(choose(all_ops())) } else { param(2) as u16 };
    let set = u32v();
    let mut all = vec![];
    let mut g = vec![set];
    push_bytes(&mut g, b"GLSL.std.450");
    push_inst(&mut all, 11, &g);
    assume(a != 11);
    for _ in 0..param(0) {
        push_inst(&mut all, a, &shape(a, param(1) == 1, false, set));
    }
    run(&all, about(a));
}

/// one of every instruction
fn everything(all: &mut Vec<u32>, rich: bool, set: u32) {
    for i in 0..all_ops() {
        let op = nth_op(i);
        if op != 11 {
            push_inst(all, op, &shape(op, rich, false, set));
        }
    }
}

/// any instruction with p0 operand words after, and before, one of every other instruction
#[no_mangle]
pub fn h_among() {
    let n = param(0);
    let set = u32v();
    let mut all = vec![];
    let mut g = vec![set];
    push_bytes(&mut g, b"GLSL.std.450");
    push_inst(&mut all, 11, &g);
    let rich = param(1) == 1;
    everything(&mut all, rich, set);
    let op = nth_op(choose(all_ops()));
    assume(!has_string(op));
    let mut w = vec![];
    for _ in 0..n {
        w.push(u32v());
    }
    if op == 71 && n > 1 {
        assume(w[1] != 41);
    }
    if op == 72 && n > 2 {
        assume(w[2] != 41);
    }
    push_inst(&mut all, op, &w);
    everything(&mut all, rich, set);
    run(&all, about(op));
}

/// one of every instruction, one of them with any enumerants, then any instruction
#[no_mangle]
pub fn h_among_enum() {
    let set = u32v();
    let mut all = vec![];
    let mut g = vec![set];
    push_bytes(&mut g, b"GLSL.std.450");
    push_inst(&mut all, 11, &g);
    let (a, b) = (nth_op(choose(all_ops())), nth_op(choose(all_ops())));
    let rich = param(0) == 1;
    for i in 0..all_ops() {
        let op = nth_op(i);
        if op != 11 {
            push_inst(&mut all, op, &shape(op, rich, op == a, set));
        }
    }
    push_inst(&mut all, b, &shape(b, rich, false, set));
    run(&all, about(a) | about(b));
}

// ---------------------------------------------------------------- long operands

/// a string of about `n` words: characters of `per` bytes repeated from byte `phase` on,
/// one word of it (first, middle, last) arbitrary
fn long_string(n: usize, per: usize, phase: usize, window: u32) -> Vec<u32> {
    let ch: &[u8] = [&b"x"[..], "\u{e9}".as_bytes(), "\u{20ac}".as_bytes(), "\u{1f30b}".as_bytes()][per];
    let mut b = vec![];
    for _ in 0..phase {
        b.push(b'a');
    }
    while b.len() + ch.len() < n * 4 {
        b.extend_from_slice(ch);
    }
    let mut w = vec![];
    push_bytes(&mut w, &b);
    let k = match window {
        0 => return w,
        1 => 0,
        2 => w.len() / 2,
        _ => w.len() - 1,
    };
    w[k] = u32v();
    w
}

/// a string of p0 words at every place that takes one, made of characters of any length, one word
/// of it arbitrary (p1: which), followed by what may follow it
#[no_mangle]
pub fn h_string_long() {
    let op = if param(2) == 0 { STRING_FORMS[choose(STRING_FORMS.len() as u32) as usize] } else { param(2) as u16 };
    let p = string_at(op);
    let mut w = vec![];
    for i in 0..p {
        w.push(if i == 0 && (op == 15 || op == 3) { 2 } else { u32v() });
    }
    if op == 71 {
        w[1] = 41;
    }
    if op == 72 {
        w[2] = 41;
    }
    let s = long_string(param(0) as usize, choose(4) as usize, choose(4) as usize, param(1));
    w.extend_from_slice(&s);
    // if the arbitrary word does not end the string, these do
    let after = || if param(1) == 3 { u8v() as u32 } else { u32v() };
    match op {
        71 | 72 => w.push(after()),
        15 => {
            w.push(after());
            w.push(after());
        }
        _ => {}
    }
    let mut all = vec![];
    push_inst(&mut all, op, &w);
    // and another one behind it
    push_inst(&mut all, 5, &[u32v(), text()]);
    run(&all, about(op));
}

/// a list of p0..p1 elements of any value in every instruction that takes one
#[no_mangle]
pub fn h_list() {
    let n = param(0) + choose(param(1) - param(0) + 1);
    let op = [15u16, 30, 33, 43, 44, 65, 245][choose(7) as usize];
    let mut w = vec![];
    match op {
        15 => w.extend_from_slice(&[4, u32v(), text()]),
        30 => w.push(u32v()),
        33 | 43 | 44 | 245 => w.extend_from_slice(&[u32v(), u32v()]),
        _ => w.extend_from_slice(&[u32v(), u32v(), u32v()]),
    }
    for _ in 0..n {
        w.push(u32v());
    }
    let mut all = vec![];
    push_inst(&mut all, op, &w);
    push_inst(&mut all, 62, &[u32v(), u32v()]);
    run(&all, about(op));
}

// ---------------------------------------------------------------- a library that was used before

/// a module is read, whatever it holds; then another: only the second one's bytes count.
/// p0: the first one is 0 whole, 1 cut short, 2 ends in an unknown opcode, 3 has a bad header, 4 another byte order
#[no_mangle]
pub fn h_again() {
    let (s, t) = (u32v(), u32v());
    let mut first = vec![];
    let mut g = vec![s];
    push_bytes(&mut g, b"GLSL.std.450");
    push_inst(&mut first, 11, &g);
    let a = nth_op(choose(all_ops()));
    push_inst(&mut first, a, &shape(a, true, false, s));
    push_inst(&mut first, 12, &[u32v(), u32v(), s, 13, u32v()]);
    let mut all = HEADER.to_vec();
    all.extend_from_slice(&first);
    let mut b = bytes_le(&all);
    match param(0) {
        0 => {}
        1 => {
            let k = b.len() - 6;
            b.truncate(k);
        }
        2 => b.extend_from_slice(&[9, 0, 1, 0]),
        3 => b[16] = 1,
        _ => b = bytes_be(&all),
    }
    let r = read_module(&b, sets());
    obs(r.is_ok() as u64);
    let mut second = vec![];
    if param(1) == 0 {
        push_inst(&mut second, 12, &[u32v(), u32v(), t, 13, u32v()]);
    } else {
        let mut g = vec![t];
        push_bytes(&mut g, b"GLSL.std.450");
        push_inst(&mut second, 11, &g);
        push_inst(&mut second, 12, &[u32v(), u32v(), u32v(), 13, u32v()]);
        push_inst(&mut second, a, &shape(a, false, false, t));
    }
    run(&second, about(a) | bit(9));
}

/// many imports of the registered sets under different ids, any of them used
#[no_mangle]
pub fn h_ext_many() {
    let n = param(0);
    let mut all = vec![];
    for i in 0..n {
        let mut g = vec![3 * i + 1];
        push_bytes(&mut g, b"GLSL.std.450");
        push_inst(&mut all, 11, &g);
    }
    let mut g = vec![u32v()];
    push_bytes(&mut g, b"GLSL.std.450");
    push_inst(&mut all, 11, &g);
    push_inst(&mut all, 12, &[u32v(), u32v(), u32v(), u32v(), u32v()]);
    run(&all, bit(9));
}

// ---------------------------------------------------------------- headers of modules with instructions

/// any header in front of instructions of any kind (p0: 0 one, 1 two of a kind, 2 one of each); p1: byte order
#[no_mangle]
pub fn h_header_body() {
    let mut w = vec![];
    for _ in 0..5 {
        w.push(u32v());
    }
    assume(w[0] != 0x03022307);
    let n = w.len();
    let set = u32v();
    let mut g = vec![set];
    push_bytes(&mut g, b"GLSL.std.450");
    if param(0) == 2 {
        push_inst(&mut w, 11, &g);
        everything(&mut w, true, set);
    } else {
        let a = nth_op(choose(all_ops()));
        if a == 12 {
            push_inst(&mut w, 11, &g);
        }
        push_inst(&mut w, a, &shape(a, true, param(0) == 0, set));
        if param(0) == 1 && a != 11 {
            push_inst(&mut w, a, &shape(a, false, false, set));
        }
    }
    let b = if param(1) == 1 { bytes_be(&w) } else { bytes_le(&w) };
    let r = read_module(&b, sets());
    dump(|| format!("words {:08x?}\n  result {:?}", w, r));
    let mut env = Env::new();
    let whole = parse_stream(&w[n..], 0, &mut env);
    crate::header::judge(&r, &w[..n], whole.is_ok());
}

// ---------------------------------------------------------------- byte order, long instructions

/// lists and strings of p0 operand words in both byte orders
#[no_mangle]
pub fn h_order_long() {
    let n = param(0);
    let op = [43u16, 30, 245, 5, 7, 71][choose(6) as usize];
    let mut v = vec![];
    match op {
        5 | 7 => {
            v.push(u32v());
            v.extend_from_slice(&long_string(n as usize, choose(4) as usize, 1, 0));
        }
        71 => {
            v.push(u32v());
            v.push(41);
            v.extend_from_slice(&long_string(n as usize, choose(4) as usize, 2, 0));
            v.push(u32v());
        }
        _ => {
            for _ in 0..n {
                v.push(u32v());
            }
        }
    }
    let mut w = HEADER.to_vec();
    push_inst(&mut w, op, &v);
    push_inst(&mut w, 62, &[u32v(), u32v()]);
    two(&w);
}
/// any two instructions in both byte orders
#[no_mangle]
pub fn h_order_pair() {
    let set = u32v();
    let (a, b) = (nth_op(choose(all_ops())), nth_op(choose(all_ops())));
    let mut w = HEADER.to_vec();
    let mut g = vec![set];
    push_bytes(&mut g, b"GLSL.std.450");
    push_inst(&mut w, 11, &g);
    let vary = param(0) & 1 == 1;
    push_inst(&mut w, a, &shape(a, true, vary, set));
    push_inst(&mut w, b, &shape(b, true, false, set));
    two(&w);
}
