//! C10, C11: the textual form of instructions and modules.
use crate::spec;
use crate::spec::*;
use crate::sym::*;
use crate::tables::*;
use crate::util::*;
use magmaflow::spv::raw::read_module;

/// a number with a fixed count of digits, so that only its digits are symbolic
pub fn num(class: u32) -> u32 {
    if class == 0 {
        1_000_000_000 + var(31) as u32
    } else if class == 1 {
        var(3) as u32
    } else {
        u32v()
    }
}

fn push_str(w: &mut Vec<u32>) {
    let len = [0u32, 1, 3, 4, 5][choose(5) as usize];
    let mut b = vec![];
    for _ in 0..len {
        let c = var(7) as u8;
        assume(c != 0);
        b.push(c);
    }
    push_bytes(w, &b);
}
pub fn push_bytes(w: &mut Vec<u32>, b: &[u8]) {
    let mut i = 0;
    loop {
        let mut v = 0u32;
        for k in 0..4 {
            if i + k < b.len() {
                v |= (b[i + k] as u32) << (8 * k);
            }
        }
        w.push(v);
        i += 4;
        if i > b.len() {
            break;
        }
    }
}

fn enumerant(e: E) -> u32 {
    let n = below(e.names().len() as u32);
    assume(e.valid(n));
    n
}

/// operand words of the shape the instruction takes; `only` limits the enumerants that vary
pub fn operands(op: u16, class: u32, w: &mut Vec<u32>) {
    let row = row(op).unwrap();
    let image = op == 25;
    let which = if image { choose(7) } else { 0 };
    let mut nth = 0;
    for k in row.2 {
        match *k {
            K::R | K::Id | K::Lit => w.push(num(class)),
            K::Str => push_str(w),
            K::OptId => {
                if choose(2) == 1 {
                    w.push(num(class))
                }
            }
            K::OptStr => {
                // only after the optional id in front of it
                if w.len() == 3 && choose(2) == 1 {
                    push_str(w)
                }
            }
            K::Ids | K::Lits => {
                for _ in 0..choose(4) {
                    w.push(num(class))
                }
            }
            K::Enum(e) | K::OptEnum(e) => {
                if let K::OptEnum(_) = *k {
                    if choose(2) == 0 {
                        continue;
                    }
                }
                if image && nth != which {
                    w.push(if e == E::ImageFormat { 11 } else { e.names().len() as u32 - 1 });
                } else {
                    w.push(enumerant(e));
                }
                nth += 1;
            }
            K::Lang => w.push(if choose(2) == 0 { below(5) } else { 1_000_000_000 + var(31) as u32 }),
            K::Decoration => {
                let n = below(N_DECORATION.len() as u32);
                assume((n != 12) & (n != 27));
                let n = conc(n);
                w.push(n);
                match n {
                    1 | 6 | 7 | 29..=37 | 43 | 44 => w.push(num(class)),
                    11 => w.push(enumerant(E::BuiltIn)),
                    38 => w.push(enumerant(E::FunctionParameterAttribute)),
                    39 => w.push(enumerant(E::FpRoundingMode)),
                    40 => w.push(below(32)),
                    41 => {
                        push_str(w);
                        w.push(enumerant(E::LinkageType));
                    }
                    _ => {}
                }
            }
            K::Mode => {
                let n = below(N_EXECUTION_MODE.len() as u32);
                assume(n != 13);
                let n = conc(n);
                w.push(n);
                match n {
                    0 | 26 | 30 => w.push(num(class)),
                    17 | 18 => {
                        for _ in 0..3 {
                            w.push(num(class))
                        }
                    }
                    _ => {}
                }
            }
            K::OptMemoryAccess => {
                if choose(2) == 1 {
                    let n = choose(8);
                    w.push(n);
                    if n & 2 != 0 {
                        w.push(num(class));
                    }
                }
            }
            K::FunctionControl => w.push(below(16)),
            K::LoopControl => {
                let n = choose(16);
                w.push(n);
                if n & 8 != 0 {
                    w.push(num(class));
                }
            }
            K::SelectionControl => w.push(below(4)),
            K::OptWeights => {
                if choose(2) == 1 {
                    w.push(num(class));
                    w.push(num(class));
                }
            }
            K::Phi => {
                for _ in 0..2 * choose(3) {
                    w.push(num(class))
                }
            }
            K::ExtInst => {
                w.push(13 + choose(2));
                w.push(num(class));
            }
        }
    }
}

pub fn same_text(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}

pub fn all_ops() -> u32 {
    (OPS.len() + BIN.len()) as u32
}
pub fn nth_op(i: u32) -> u16 {
    let i = i as usize;
    if i < OPS.len() {
        OPS[i].0
    } else {
        BIN[i - OPS.len()].0
    }
}

/// every instruction with every shape of operands: its line
#[no_mangle]
pub fn h_text() {
    unsafe { spec::WANT_TEXT = true };
    let class = param(0);
    let op = nth_op(choose(all_ops()));
    let mut w = vec![];
    let mut env = Env::new();
    let mut all = vec![];
    if op == 12 {
        // bind the set first
        all.extend_from_slice(&[6 << 16 | 11, 77, 0x4C534C47, 0x6474732E, 0x3035342E, 0]);
        env.bound.push((77, 0));
    }
    operands(op, class, &mut w);
    if op == 12 {
        w[2] = 77;
    }
    if op == 11 {
        w.truncate(1);
        push_bytes(&mut w, b"GLSL.std.450");
    }
    line(op, &w, &mut env, &all);
}

/// the header lines for every generator word, version and bound, then the lines in order
#[no_mangle]
pub fn h_text_module() {
    unsafe { spec::WANT_TEXT = true };
    let n = param(0);
    let tool = var(16) as u32;
    // the number of digits is settled one class at a time
    let ver = if choose(2) == 0 { 10_000 + var(15) as u32 } else { below(10) };
    let bound = if choose(2) == 0 { 1_000_000_000 + var(31) as u32 } else { below(10) };
    let mut all = vec![0x07230203, 0x00010000, tool << 16 | ver, bound, 0];
    let mut insts = vec![];
    for _ in 0..n {
        let (op, w): (u16, Vec<u32>) = match choose(4) {
            0 => (0, vec![]),
            1 => (248, vec![num(0)]),
            2 => (249, vec![num(1)]),
            _ => (62, vec![num(0), num(1)]),
        };
        all.push((w.len() as u32 + 1) << 16 | op as u32);
        all.extend_from_slice(&w);
        insts.push((op, w));
    }
    let m = match read_module(&bytes_le(&all), sets()) {
        Ok(m) => m,
        Err(_) => {
            cover(9);
            return;
        }
    };
    let text = m.to_string();
    let t = conc(if tool < 12 { tool } else { 12 });
    let gen = [
        "Khronos",
        "LunarG",
        "Valve",
        "Codeplay",
        "NVIDIA",
        "ARM",
        "Khronos LLVM/SPIR-V Translator",
        "Khronos SPIR-V Tools Assembler",
        "Khronos Glslang Reference Front End",
        "Qualcomm",
        "AMD",
        "Intel",
        "Unknown",
    ][t as usize];
    cover(10 + t);
    let mut want = String::from("; SPIR-V\n; Version: 1.0\n; Generator: ");
    want.push_str(gen);
    want.push_str("; ");
    want.push_str(&ver.to_string());
    want.push_str("\n; Bound: ");
    want.push_str(&bound.to_string());
    want.push_str("\n; Schema: 0\n");
    let mut env = Env::new();
    for (op, w) in insts {
        if let Ok(i) = parse(op, &w, &mut env) {
            want.push_str(&render(&i));
            want.push('\n');
        }
    }
    dump(|| format!("printed\n{}\nexpected\n{}", text, want));
    check(10, 2, same_text(&text, &want));
    for b in text.bytes() {
        obs(b as u64);
    }
}

/// independent decimal form
fn decimal(n: u32) -> Vec<u8> {
    n.to_string().into_bytes()
}

/// every 32-bit id and literal: column and digits
#[no_mangle]
pub fn h_column() {
    let n = u32v();
    let kind = param(0);
    let (op, w): (u32, Vec<u32>) = match kind {
        0 => (248, vec![n]),             // result id alone
        1 => (249, vec![n]),             // id operand, no result
        2 => (22, vec![5, n]),           // literal behind a result
        3 => (1, vec![n, 7]),            // type id
        4 => (6, vec![9, n, 0x41]),      // literal member index
        5 => (43, vec![1, 2, n, n]),     // literal list
        6 => (3, vec![2, n]),            // source version
        7 => (71, vec![n, 33, 4]),       // decoration target
        8 => (71, vec![3, 33, n]),       // decoration literal
        9 => (16, vec![4, 17, 1, n, 2]), // mode literal
        10 => (250, vec![1, 2, 3, n, 9]), // branch weight
        11 => (62, vec![1, 2, 2, n]),    // alignment
        12 => (245, vec![1, 2, n, 9]),   // phi
        13 => (3, vec![n, 450]),         // source language number
        _ => (246, vec![1, 2, 8, n]),    // loop control value
    };
    let mut all = vec![(w.len() as u32 + 1) << 16 | op];
    all.extend_from_slice(&w);
    if kind == 13 {
        assume(n >= 5);
    }
    let m = match read_body(&all) {
        Ok(m) => m,
        Err(_) => {
            cover(9);
            return;
        }
    };
    if m.instructions.len() != 1 {
        cover(9);
        return;
    }
    let text = m.instructions[0].to_string();
    let d = decimal(n);
    let mut want: Vec<u8> = vec![];
    let res = |w: &mut Vec<u8>, id: &[u8]| {
        for _ in id.len() + 1..12 {
            w.push(b' ');
        }
        w.push(b'%');
        w.extend_from_slice(id);
        w.extend_from_slice(b" = ");
    };
    let none = |w: &mut Vec<u8>| w.extend_from_slice(b"               ");
    let s = |w: &mut Vec<u8>, t: &str| w.extend_from_slice(t.as_bytes());
    match kind {
        0 => {
            res(&mut want, &d);
            s(&mut want, "OpLabel");
        }
        1 => {
            none(&mut want);
            s(&mut want, "OpBranch %");
            want.extend_from_slice(&d);
        }
        2 => {
            res(&mut want, b"5");
            s(&mut want, "OpTypeFloat ");
            want.extend_from_slice(&d);
        }
        3 => {
            res(&mut want, b"7");
            s(&mut want, "OpUndef %");
            want.extend_from_slice(&d);
        }
        4 => {
            none(&mut want);
            s(&mut want, "OpMemberName %9 ");
            want.extend_from_slice(&d);
            s(&mut want, " \"A\"");
        }
        5 => {
            res(&mut want, b"2");
            s(&mut want, "OpConstant %1 ");
            want.extend_from_slice(&d);
            s(&mut want, " ");
            want.extend_from_slice(&d);
        }
        6 => {
            none(&mut want);
            s(&mut want, "OpSource GLSL ");
            want.extend_from_slice(&d);
        }
        7 => {
            none(&mut want);
            s(&mut want, "OpDecorate %");
            want.extend_from_slice(&d);
            s(&mut want, " Binding 4");
        }
        8 => {
            none(&mut want);
            s(&mut want, "OpDecorate %3 Binding ");
            want.extend_from_slice(&d);
        }
        9 => {
            none(&mut want);
            s(&mut want, "OpExecutionMode %4 LocalSize 1 ");
            want.extend_from_slice(&d);
            s(&mut want, " 2");
        }
        10 => {
            none(&mut want);
            s(&mut want, "OpBranchConditional %1 %2 %3 ");
            want.extend_from_slice(&d);
            s(&mut want, " 9");
        }
        11 => {
            none(&mut want);
            s(&mut want, "OpStore %1 %2 Aligned(");
            want.extend_from_slice(&d);
            s(&mut want, ")");
        }
        12 => {
            res(&mut want, b"2");
            s(&mut want, "OpPhi %1 %");
            want.extend_from_slice(&d);
            s(&mut want, " %9");
        }
        13 => {
            none(&mut want);
            s(&mut want, "OpSource Unknown(");
            want.extend_from_slice(&d);
            s(&mut want, ") 450");
        }
        _ => {
            none(&mut want);
            s(&mut want, "OpLoopMerge %1 %2 DependencyLength(");
            want.extend_from_slice(&d);
            s(&mut want, ")");
        }
    }
    let want = unsafe { String::from_utf8_unchecked(want) };
    dump(|| format!("number {}\n  printed  {}|\n  expected {}|", n, text, want));
    cover(d.len() as u32);
    let same = same_text(&text, &want);
    check(11, 1, same);
    check(25, 3, same);
    for b in text.bytes() {
        obs(b as u64);
    }
}

/// long strings (p0 characters of one to four bytes) and lists (p0 elements)
#[no_mangle]
pub fn h_text_long() {
    unsafe { spec::WANT_TEXT = true };
    let n = param(0);
    let mut w = vec![];
    let op = match choose(2) {
        0 => {
            let ch = ["x", "\u{e9}", "\u{20ac}", "\u{1f30b}"][choose(4) as usize];
            let mut b = vec![];
            for i in 0..n {
                // one arbitrary character at the end of the first and last third
                if i == n / 3 || i + 1 == n {
                    b.push(0x20 | var(4) as u8);
                } else {
                    b.extend_from_slice(ch.as_bytes());
                }
            }
            let op = STRINGS[choose(STRINGS.len() as u32) as usize];
            match op {
                2 | 4 | 10 => {}
                5 | 7 | 31 => w.push(num(1)),
                6 => w.extend_from_slice(&[num(1), num(1)]),
                15 => w.extend_from_slice(&[4, num(1)]),
                3 => w.extend_from_slice(&[2, 450, num(1)]),
                71 => w.extend_from_slice(&[num(1), 41]),
                _ => w.extend_from_slice(&[num(1), num(1), 41]),
            }
            push_bytes(&mut w, &b);
            match op {
                15 => {
                    for _ in 0..n {
                        w.push(num(1))
                    }
                }
                71 | 72 => w.push(below(2)),
                _ => {}
            }
            op
        }
        _ => {
            let op = [30u16, 33, 43, 44, 65, 245][choose(6) as usize];
            for _ in 0..2 * n + if op == 65 { 3 } else { 2 } {
                w.push(num(1));
            }
            op
        }
    };
    line(op, &w, &mut Env::new(), &[]);
}
/// a string with any one character, of one to four bytes, with up to 5 others in front and behind
#[no_mangle]
pub fn h_text_char() {
    unsafe { spec::WANT_TEXT = true };
    let mut b = vec![];
    for _ in 0..choose(6) {
        b.push(b'a');
    }
    let c = var(21) as u32;
    let low = |c: u32| 0x80 | (c & 0x3F) as u8;
    match choose(4) {
        0 => {
            assume((c > 0) & (c < 0x80));
            b.push(c as u8);
        }
        1 => {
            assume((c >= 0x80) & (c < 0x800));
            b.extend_from_slice(&[0xC0 | (c >> 6) as u8, low(c)]);
        }
        2 => {
            assume((c >= 0x800) & (c < 0x1_0000) & !((c >= 0xD800) & (c < 0xE000)));
            b.extend_from_slice(&[0xE0 | (c >> 12) as u8, low(c >> 6), low(c)]);
        }
        _ => {
            assume((c >= 0x1_0000) & (c < 0x11_0000));
            b.extend_from_slice(&[0xF0 | (c >> 18) as u8, low(c >> 12), low(c >> 6), low(c)]);
        }
    }
    for _ in 0..choose(6) {
        b.push(b'z');
    }
    let op = [5u16, 7, 71][if param(0) == 0 { 0 } else { choose(3) as usize }];
    let mut w = match op {
        71 => vec![3, 41],
        _ => vec![3],
    };
    push_bytes(&mut w, &b);
    if op == 71 {
        w.push(0);
    }
    cover(b.len() as u32);
    line(op, &w, &mut Env::new(), &[]);
}
const STRINGS: &[u16] = &[2, 3, 4, 5, 6, 7, 10, 15, 31, 71, 72];

fn line(op: u16, w: &[u32], env: &mut Env, before: &[u32]) {
    let mut all = HEADER.to_vec();
    all.extend_from_slice(before);
    all.push((w.len() as u32 + 1) << 16 | op as u32);
    all.extend_from_slice(w);
    let r = read_module(&bytes_le(&all), sets());
    dump(|| format!("opcode {} operands {:08x?}", op, w));
    let m = match r {
        Ok(m) => m,
        Err(_) => {
            cover(9);
            return;
        }
    };
    let i = match m.instructions.last() {
        Some(i) => i,
        None => {
            cover(9);
            return;
        }
    };
    let text = i.to_string();
    cover(1000 + op as u32);
    let x = match parse(op, w, env) {
        Ok(x) => x,
        Err(_) => {
            check(10, 9, false);
            return;
        }
    };
    let want = render(&x);
    dump(|| format!("printed  {}|\n  expected {}|", text, want));
    let same = same_text(&text, &want);
    check(10, 1, same);
    check(11, 2, same);
    check(25, 2, same);
    for b in text.bytes() {
        obs(b as u64);
    }
}

/// every id and literal of every instruction: any one of them any 32-bit number
#[no_mangle]
pub fn h_number() {
    unsafe { spec::WANT_TEXT = true };
    let op = nth_op(choose(all_ops()));
    let which = choose(9);
    let mut env = Env::new();
    let mut all = vec![];
    if op == 12 {
        all.extend_from_slice(&[6 << 16 | 11, 77, 0x4C534C47, 0x6474732E, 0x3035342E, 0]);
        env.bound.push((77, 0));
    }
    let mut k = 0;
    let n = u32v();
    let w = crate::multi::shape_of(op, true, op == 71 || op == 72 || op == 16, 77, &mut || {
        k += 1;
        if k == which + 1 {
            n
        } else {
            2 + k
        }
    });
    assume(which < k);
    if op == 11 {
        assume(which == 0);
    }
    line(op, &w, &mut env, &all);
}

/// a module of p0 instructions of every kind in turn, starting at any kind, printed twice
#[no_mangle]
pub fn h_text_lines() {
    unsafe { spec::WANT_TEXT = true };
    let n = param(0);
    let mut all = HEADER.to_vec();
    let set = 77;
    let mut g = vec![set];
    push_bytes(&mut g, b"GLSL.std.450");
    let from = choose(all_ops());
    let mut body = vec![6 << 16 | 11];
    body.extend_from_slice(&g);
    for k in 0..n {
        let op = if param(1) == 1 { nth_op(from) } else { nth_op((from + k) % all_ops()) };
        if op == 11 {
            continue;
        }
        let mut w = crate::multi::shape_of(op, k % 2 == 0, false, set, &mut || var(3) as u32);
        body.push((w.len() as u32 + 1) << 16 | op as u32);
        body.append(&mut w);
    }
    all.extend_from_slice(&body);
    let m = match read_module(&bytes_le(&all), sets()) {
        Ok(m) => m,
        Err(_) => {
            cover(9);
            return;
        }
    };
    let text = m.to_string();
    let again = m.to_string();
    let mut want = String::from("; SPIR-V\n; Version: 1.0\n; Generator: Khronos Glslang Reference Front End; 1\n; Bound: 100\n; Schema: 0\n");
    let mut env = Env::new();
    match parse_stream(&body, 0, &mut env) {
        Ok(v) => {
            for i in &v {
                want.push_str(&render(i));
                want.push('\n');
            }
        }
        Err(_) => {
            check(10, 9, false);
            return;
        }
    }
    dump(|| format!("printed\n{}\nexpected\n{}", text, want));
    cover(1);
    check(10, 3, same_text(&text, &want));
    check(10, 4, same_text(&again, &text));
    for b in text.bytes() {
        obs(b as u64);
    }
}
