//! C24: the first problem decides the error, and the error's message is the one of its kind.
use crate::display::{all_ops, nth_op, push_bytes};
use crate::multi::{push_inst, shape, FAMILY};
use crate::reader::{in_list, same_err, show, STRING_OPS};
use crate::spec::*;
use crate::sym::*;
use crate::tables::*;
use crate::util::*;
use magmaflow::spv::raw::{read_module, ReadError};
use magmaflow::spv::types::*;
use std::error::Error;

const PROBLEMS: u32 = 15;

/// one instruction with a problem of kind `k`; `ops`: how many instructions to choose from where any will do
fn problem(all: &mut Vec<u32>, k: u32, set: u32, every: bool) {
    let any_op = || if every { nth_op(choose(all_ops())) } else { FAMILY[choose(FAMILY.len() as u32) as usize] };
    match k {
        0 => {
            let op = var(16) as u16;
            assume(!known(op));
            // one opcode stands for all of them: C06 has all
            assume((op == 9) | (op == 4000) | (op == 65535));
            let op = conc(op as u32) as u16;
            push_inst(all, op, &[u32v()]);
        }
        1 => {
            let n = choose(4);
            let at = [0, UNIMPL.len() / 3, UNIMPL.len() / 2, UNIMPL.len() - 1][n as usize];
            push_inst(all, UNIMPL[at].0, &[u32v(), u32v()]);
        }
        2 => {
            // the last operand is missing
            let op = any_op();
            let mut w = shape(op, false, false, set);
            assume(!w.is_empty());
            w.pop();
            push_inst(all, op, &w);
        }
        3 => {
            // a word too many, after all optional operands
            let op = any_op();
            let mut w = shape(op, true, false, set);
            w.push(u32v());
            push_inst(all, op, &w);
        }
        4 => all.push(var(16) as u32),
        5 => {
            let n = u32v();
            assume(n > 1000);
            push_inst(all, 17, &[n]);
        }
        6 => push_inst(all, 5, &[u32v(), 0x0041FF41]),
        7 => push_inst(all, 5, &[u32v(), 0x41424344]),
        8 => {
            // onto a free id: one problem only
            let id = u32v();
            assume(id != set);
            let mut w = vec![id];
            push_bytes(&mut w, b"GLSL.std.451");
            push_inst(all, 11, &w);
        }
        9 => {
            let mut w = vec![set];
            push_bytes(&mut w, b"GLSL.std.450");
            push_inst(all, 11, &w);
        }
        10 => {
            let other = u32v();
            assume(other != set);
            push_inst(all, 12, &[u32v(), u32v(), other, 13, u32v()]);
        }
        11 => {
            let n = u32v();
            assume(n > 100);
            push_inst(all, 12, &[u32v(), u32v(), set, n, u32v()]);
        }
        12 => {
            // a bad storage class in front of an operand that is missing or not
            let n = u32v();
            assume(n > 1000);
            let mut w = vec![u32v(), n];
            if choose(2) == 1 {
                w.push(u32v());
                w.push(u32v());
            }
            push_inst(all, 32, &w);
        }
        13 => {
            // a mask with bits that have no meaning, and words too many
            let n = var(28) as u32 | 0x8000_0000;
            let mut w = vec![u32v(), u32v(), n, u32v()];
            if choose(2) == 1 {
                w.push(u32v());
            }
            push_inst(all, 54, &w);
        }
        _ => {
            // two bad enumerants
            let (a, b) = (u32v(), u32v());
            assume((a > 1000) & (b > 1000));
            push_inst(all, 14, &[a, b]);
        }
    }
}

fn import(all: &mut Vec<u32>, set: u32) {
    let mut g = vec![set];
    push_bytes(&mut g, b"GLSL.std.450");
    push_inst(all, 11, &g);
}

/// an instruction without a problem, one with a problem, then something else: the outcome is that of the
/// first two. p0 = 0: any family, any problem, four kinds of rest; 1: one instruction, any problem of any
/// instruction, any rest; 2: three problems;
/// 3: p1 instructions before the first problem
#[no_mangle]
pub fn h_first() {
    let p = param(0);
    let set = u32v();
    let mut all = vec![];
    import(&mut all, set);
    if p == 0 {
        let op = FAMILY[choose(FAMILY.len() as u32) as usize];
        assume(op != 11);
        push_inst(&mut all, op, &shape(op, true, false, set));
    }
    if p == 3 {
        for k in 0..param(1) {
            let op = FAMILY[k as usize % FAMILY.len()];
            if op != 11 {
                push_inst(&mut all, op, &shape(op, k % 2 == 0, false, set));
            }
        }
    }
    let k = choose(PROBLEMS);
    problem(&mut all, k, set, p == 1);
    let mut env = Env::new();
    let x = parse_stream(&all, 0, &mut env);
    // lists may be longer or shorter
    assume(x.is_err());
    let alone = read_body(&all);
    let mut extra = 0;
    let rest = match p {
        0 | 3 => [0, 5, 4, 17][choose(4) as usize],
        _ => choose(PROBLEMS + 5),
    };
    if rest < PROBLEMS {
        problem(&mut all, rest, set, false);
        if p == 2 {
            problem(&mut all, (rest + 4) % PROBLEMS, set, false);
        }
    } else {
        match rest - PROBLEMS {
            0 => push_inst(&mut all, 128, &[1, 2, 3, 4]),
            1 => {
                // cut short
                all.push(3 << 16 | 62);
                all.push(u32v());
            }
            2 => {
                extra = 1 + choose(3) as usize;
            }
            3 => {
                push_inst(&mut all, 253, &[]);
                extra = 2;
            }
            _ => {
                for _ in 0..20 {
                    push_inst(&mut all, 0, &[]);
                }
            }
        }
    }
    let mut h = HEADER.to_vec();
    h.extend_from_slice(&all);
    let mut bytes = if p >= 2 { bytes_be(&h) } else { bytes_le(&h) };
    for _ in 0..extra {
        bytes.push(u8v());
    }
    let r = read_module(&bytes, sets());
    show(&all, &r);
    dump(|| format!("without the rest {:?}", alone.as_ref().map(|m| &m.instructions)));
    match (&r, &alone, &x) {
        (Err(e), Err(a), Err(x)) => {
            let (e, a) = (conv(e), conv(a));
            cover(1);
            cover(100 + e.kind);
            obs(e.kind as u64);
            check(24, 1, same_err(&e, &a));
            check(24, 2, same_err(&e, x));
        }
        _ => check(24, 4, false),
    }
    if let Err(ref e) = r {
        message(e);
    }
}

/// any header, then an instruction with any problem: the header's problems come first
#[no_mangle]
pub fn h_first_header() {
    let w = [u32v(), u32v(), u32v(), u32v(), u32v()];
    assume(w[0] != 0x03022307);
    let mut all = vec![];
    import(&mut all, 7);
    problem(&mut all, choose(PROBLEMS), 7, false);
    let mut env = Env::new();
    let x = parse_stream(&all, 0, &mut env);
    assume(x.is_err());
    let mut h = w.to_vec();
    h.extend_from_slice(&all);
    let r = read_module(&bytes_le(&h), sets());
    show(&h, &r);
    match (&r, &x) {
        (Err(e), Err(x)) => {
            message(e);
            let e = conv(e);
            cover(100 + e.kind);
            obs(e.kind as u64);
            if w[0] != 0x07230203 {
                check(24, 10, e.kind == ek::BadMagic);
            } else if w[1] != 0x00010000 {
                check(24, 11, (e.kind == ek::VersionBytes) | (e.kind == ek::Version));
            } else if w[4] != 0 {
                check(24, 12, e.kind == ek::Schema);
            } else {
                check(24, 13, same_err(&e, x));
            }
        }
        _ => check(24, 14, false),
    }
}

const MESSAGES: &[(u32, &str)] = &[
    (ek::EndOfStream, "unexpected end of stream"),
    (ek::Alignment, "stream is not word aligned"),
    (ek::BadMagic, "invalid magic number"),
    (ek::VersionBytes, "unknown version bytes"),
    (ek::Version, "unknown version"),
    (ek::Schema, "unknown reserved schema field"),
    (ek::Op, "unknown op"),
    (ek::Unimpl, "unimplemented op"),
    (ek::WordCount, "op has invalid word count"),
    (ek::InvalidString, "invalid string literal"),
    (ek::EndOfInst, "instruction didn't have enough data"),
    (ek::Excess, "instruction didn't require all data"),
    (ek::InstSet, "unknown instruction set"),
    (ek::InstSetId, "extended instruction referenced unknown instruction set"),
    (ek::ExtInstOp, "unknown op in extended instruction set"),
    (ek::Duplicate, "duplicate result id"),
    (ek::AddressingModel, "unknown addressing model"),
    (ek::MemoryModel, "unknown memory model"),
    (ek::ExecutionModel, "unknown execution model"),
    (ek::ExecutionMode, "unknown execution mode"),
    (ek::Capability, "unknown capability"),
    (ek::Decoration, "unknown decoration"),
    (ek::BuiltIn, "unknown built in"),
    (ek::FpRoundingMode, "unknown fp rounding mode"),
    (ek::FpFastMathMode, "unknown fp fast math mode"),
    (ek::LinkageType, "unknown linkage type"),
    (ek::Signedness, "unknown signedness"),
    (ek::StorageClass, "unknown storage class"),
    (ek::FunctionParameterAttribute, "unknown function parameter attribute"),
    (ek::MemoryAccess, "unknown memory access"),
    (ek::Dim, "unknown image dimension"),
    (ek::DepthStatus, "unknown image depth hint"),
    (ek::Arrayed, "unknown image arrayed status"),
    (ek::MS, "unknown multisampled status"),
    (ek::SampledStatus, "unknown sampled hint"),
    (ek::ImageFormat, "unknown image format"),
    (ek::AccessQualifier, "unknown access qualifier"),
    (ek::FunctionControl, "unknown function control"),
    (ek::LoopControl, "unknown loop control"),
    (ek::SelectionControl, "unknown selection control"),
];

/// the message of an error is the one of its kind
#[allow(deprecated)]
fn message(e: &ReadError) {
    let k = conv(e).kind;
    let text = e.to_string();
    let also = e.description();
    dump(|| format!("message {:?}, description {:?}", text, also));
    let mut found = false;
    for m in MESSAGES {
        if m.0 == k {
            found = true;
            check(24, 20, text.as_bytes() == m.1.as_bytes());
            check(24, 21, also.as_bytes() == m.1.as_bytes());
        }
    }
    check(24, 22, found);
    obs(text.len() as u64);
}

/// every kind of error with any payload
#[no_mangle]
pub fn h_message() {
    use magmaflow::spv::raw::ReadError::*;
    let a = u32v();
    let e = match choose(40) {
        0 => UnexpectedEndOfStream,
        1 => UnexpectedStreamAlignment,
        2 => BadMagic,
        3 => UnknownVersionBytes(a as u8, (a >> 8) as u8, (a >> 16) as u8, (a >> 24) as u8),
        4 => UnknownVersion(Version(a as u8, (a >> 8) as u8)),
        5 => UnknownReservedSchema,
        6 => UnknownOp(a as u16, (a >> 16) as u16),
        7 => UnimplementedOp("OpLine"),
        8 => WrongWordCountForOp,
        9 => InvalidString,
        10 => UnexpectedEndOfInstruction,
        11 => InstructionHadExcessData,
        12 => UnknownInstSet(String::from_utf8((0..choose(6)).map(|_| 0x20 + var(6) as u8).collect()).unwrap()),
        13 => UnknownInstSetId(OpId(a)),
        14 => UnknownExtInstOp("GLSL.std.450", a),
        15 => DuplicateResultId(ResultId(a)),
        16 => UnknownAddressingModel(a),
        17 => UnknownMemoryModel(a),
        18 => UnknownExecutionModel(a),
        19 => UnknownExecutionMode(a),
        20 => UnknownCapability(a),
        21 => UnknownDecoration(a),
        22 => UnknownBuiltIn(a),
        23 => UnknownFpRoundingMode(a),
        24 => UnknownFpFastMathMode(a),
        25 => UnknownLinkageType(a),
        26 => UnknownSignedness(a),
        27 => UnknownStorageClass(a),
        28 => UnknownFunctionParameterAttribute(a),
        29 => UnknownMemoryAccess(a),
        30 => UnknownDim(a),
        31 => UnknownDepthStatus(a),
        32 => UnknownArrayed(a),
        33 => UnknownMS(a),
        34 => UnknownSampledStatus(a),
        35 => UnknownImageFormat(a),
        36 => UnknownAccessQualifier(a),
        37 => UnknownFunctionControl(a),
        38 => UnknownLoopControl(a),
        _ => UnknownSelectionControl(a),
    };
    let k = conv(&e).kind;
    cover(100 + k);
    message(&e);
}

/// any instruction without a string and with p0 operand words of any value, then one with a problem:
/// the problem of the first one if it has one, else that of the second
#[no_mangle]
pub fn h_first_any() {
    let n = param(0);
    let op = var(16) as u16;
    assume(!in_list(op, STRING_OPS));
    let mut w = vec![];
    for _ in 0..n {
        w.push(u32v());
    }
    if n > 1 {
        assume(!((op == 71) & (w[1] == 41)));
    }
    if n > 2 {
        assume(!((op == 72) & (w[2] == 41)));
    }
    let mut all = vec![(n + 1) << 16 | op as u32];
    all.extend_from_slice(&w);
    let rest = choose(3);
    match rest {
        0 => push_inst(&mut all, 17, &[100000]),
        1 => all.push(3 << 16 | 62),
        _ => push_inst(&mut all, 5, &[1, 0x41424344]),
    }
    let r = read_body(&all);
    show(&all, &r);
    let e = match r {
        Err(ref e) => {
            message(e);
            conv(e)
        }
        Ok(_) => {
            check(24, 30, false);
            return;
        }
    };
    cover(100 + e.kind);
    obs(e.kind as u64);
    if e.kind == ek::Op {
        check(24, 31, !known(op) & (e.a == op as u32) & (e.b == n + 1));
        return;
    }
    let op = conc(op as u32) as u16;
    let mut env = Env::new();
    let x = match parse(op, &w, &mut env) {
        Err(x) => x,
        Ok(_) => {
            cover(1);
            match rest {
                0 => err1(ek::Capability, 100000),
                1 => err(ek::EndOfStream),
                _ => err(ek::EndOfInst),
            }
        }
    };
    check(24, 32, same_err(&e, &x));
}
