//! C01, C03..C09: reading modules.
use crate::display::push_bytes;
use crate::enc;
use crate::ext;
use crate::spec::*;
use crate::sym::*;
use crate::util::*;
use magmaflow::spv::raw::{read_module, Core, RawModule, ReadError};

// ---------------------------------------------------------------- judging one outcome

pub fn bit(l: u32) -> u32 {
    1 << l
}
/// the properties that decide when an error of this kind is due
fn owners(kind: u32) -> u32 {
    match kind {
        ek::Op | ek::Unimpl => bit(6),
        ek::EndOfStream | ek::Alignment | ek::WordCount => bit(4),
        ek::EndOfInst | ek::Excess => bit(4) | bit(6),
        ek::InvalidString => bit(8),
        ek::InstSet | ek::InstSetId | ek::ExtInstOp | ek::Duplicate => bit(9),
        20..=43 => bit(7),
        _ => 0xFFFF_FFFE,
    }
}
/// properties that rely on the operands of an instruction being right
pub fn content(op: u16) -> u32 {
    let mut m = bit(5);
    if let Some(r) = row_any(op) {
        for k in r.2 {
            match *k {
                K::Str | K::OptStr => m |= bit(8),
                K::Enum(_) | K::OptEnum(_) | K::Mode | K::Decoration | K::Lang => m |= bit(7),
                K::OptMemoryAccess | K::FunctionControl | K::LoopControl | K::SelectionControl => m |= bit(7),
                K::ExtInst => m |= bit(9),
                _ => {}
            }
        }
    }
    m
}
pub fn fail(owners: u32, code: u32, ok: bool) {
    for l in 1..25 {
        if owners >> l & 1 == 1 {
            check(l, code, ok);
        }
    }
}
pub fn same_words(a: &[u32], b: &[u32]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}
fn same_str(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= a[i] == b[i];
    }
    ok
}
pub fn same_err(e: &Err, x: &Err) -> bool {
    let ok = (e.a == x.a) & (e.b == x.b);
    e.kind == x.kind && same_str(&e.s, &x.s) & ok
}

/// compare what the library made of an instruction stream with the reference reading;
/// `about` are further properties a wrong acceptance or rejection of these instructions breaks
pub fn judge(r: &Result<RawModule, ReadError>, x: &Res<Vec<Inst>>, about: u32) {
    match (r, x) {
        (Ok(m), Ok(v)) => {
            cover(1);
            fail(bit(4), 10, m.instructions.len() == v.len());
            obs(m.instructions.len() as u64);
            for (i, s) in m.instructions.iter().zip(v.iter()) {
                let w = enc::encode(i);
                cover(1000 + s.op as u32);
                fail(bit(6) | bit(4), 11, w[0] & 0xFFFF == s.op as u32);
                fail(content(s.op), 12, same_words(&w, &s.words));
            }
        }
        (Ok(_), Err(e)) => fail(owners(e.kind) | about, 13, false),
        (Err(e), Ok(_)) => fail(owners(conv(e).kind) | about, 14, false),
        (Err(e), Err(y)) => {
            let e = conv(e);
            cover(100 + e.kind);
            obs(e.kind as u64);
            fail(owners(e.kind) | owners(y.kind) | about | bit(24), 15, same_err(&e, y));
        }
    }
}

pub fn show(words: &[u32], r: &Result<RawModule, ReadError>) {
    dump(|| format!("instruction words {:08x?}\n  result {:?}", words, r.as_ref().map(|m| &m.instructions)));
}

// ---------------------------------------------------------------- one instruction

pub fn in_list(op: u16, l: &[u16]) -> bool {
    let mut k = false;
    for o in l {
        k |= op == *o;
    }
    k
}
pub const STRING_OPS: &[u16] = &[2, 3, 4, 5, 6, 7, 10, 11, 15, 31];

fn one(op: u16, words: &[u32]) {
    let mut all = vec![(words.len() as u32 + 1) << 16 | op as u32];
    all.extend_from_slice(words);
    let r = read_body(&all);
    show(&all, &r);
    if let Err(ReadError::UnknownOp(a, b)) = r {
        cover(2);
        // any opcode without a meaning, all at once
        fail(bit(6), 1, !known(op));
        fail(bit(6), 2, (a == op) & (b as usize == words.len() + 1));
        return;
    }
    let op = conc(op as u32) as u16;
    let mut env = Env::new();
    let x = parse(op, words, &mut env).map(|i| vec![i]);
    judge(&r, &x, content(op) & !bit(5));
}

/// every opcode that takes no string, with p0 operand words of any value
#[no_mangle]
pub fn h_inst() {
    let n = param(0);
    let op = var(16) as u16;
    assume(!in_list(op, STRING_OPS));
    let mut w = vec![];
    for _ in 0..n {
        w.push(u32v());
    }
    if n > 1 {
        assume(!((op == 71) & (w[1] == 41)));
    }
    if n > 2 {
        assume(!((op == 72) & (w[2] == 41)));
    }
    one(op, &w);
}

/// 7-bit characters, so that only the terminator decides the path
fn ascii() -> u32 {
    (var(7) | var(7) << 8 | var(7) << 16 | var(7) << 24) as u32
}

/// where the string operand of the instruction starts
pub fn string_at(op: u16) -> u32 {
    match op {
        2 | 4 | 10 => 0,
        5 | 7 | 11 | 31 => 1,
        6 | 15 => 2,
        3 => 3,
        71 => 2,
        72 => 3,
        _ => 0,
    }
}
pub const STRING_FORMS: &[u16] = &[2, 3, 4, 5, 6, 7, 10, 11, 15, 31, 71, 72];

/// every opcode that takes a string, with p0 operand words; the string ends in operand word p1
/// (p1 = p0: anywhere or nowhere)
#[no_mangle]
pub fn h_inst_str() {
    let n = param(0);
    let q = param(1);
    let op = STRING_FORMS[choose(STRING_FORMS.len() as u32) as usize];
    let p = string_at(op);
    assume(q >= p || n <= p);
    let mut w = vec![];
    for i in 0..n {
        if i < p || i > q {
            w.push(u32v());
        } else {
            let v = ascii();
            if i == q {
                let mut z = false;
                for b in 0..4 {
                    z |= v >> (8 * b) & 0xFF == 0;
                }
                assume(z);
            }
            w.push(v);
        }
    }
    if op == 71 && n > 1 {
        w[1] = 41;
    }
    if op == 72 && n > 2 {
        w[2] = 41;
    }
    one(op, &w);
}

/// a string operand of p0 words of any bytes at all, at every place that takes a string,
/// followed by p1 further words
#[no_mangle]
pub fn h_string() {
    let k = param(0);
    let more = param(1);
    let op = if param(2) == 0 { STRING_FORMS[choose(STRING_FORMS.len() as u32) as usize] } else { param(2) as u16 };
    let p = string_at(op);
    let mut w = vec![];
    for i in 0..p {
        w.push(if i == 0 && (op == 15 || op == 3) { below(5) } else { u32v() });
    }
    if op == 71 {
        w[1] = 41;
    }
    if op == 72 {
        w[2] = 41;
    }
    for _ in 0..k {
        w.push(u32v());
    }
    for _ in 0..more {
        w.push(u32v());
    }
    one(op, &w);
}

// ---------------------------------------------------------------- streams

const STREAM_OPS: &[u16] = &[0, 248, 253, 249, 30, 43, 59, 61, 245, 250, 8, 9];

/// p0 words split in any way by their own word counts, followed by 0..3 further bytes
/// (p1 = 1: big-endian)
#[no_mangle]
pub fn h_stream() {
    let n = param(0) as usize;
    let extra = choose(4) as usize;
    let mut w = vec![];
    for _ in 0..n {
        w.push(u32v());
    }
    let mut at = 0;
    while at < n {
        assume(in_list(w[at] as u16, STREAM_OPS));
        let wc = w[at] >> 16;
        if wc == 0 || wc > (n - at) as u32 {
            break;
        }
        at += conc(wc) as usize;
    }
    let mut all = HEADER.to_vec();
    all.extend_from_slice(&w);
    let mut b = if param(1) == 1 { bytes_be(&all) } else { bytes_le(&all) };
    for _ in 0..extra {
        b.push(u8v());
    }
    let r = read_module(&b, sets());
    dump(|| format!("instruction words {:08x?} + {} bytes\n  result {:?}", w, extra, r.as_ref().map(|m| &m.instructions)));
    let mut env = Env::new();
    let x = parse_stream(&w, extra, &mut env);
    judge(&r, &x, 0);
}

/// an instruction with any word count up to 65535, as list operands allow
#[no_mangle]
pub fn h_long() {
    let wc = param(0);
    let op = [30u16, 43, 44, 65, 245, 33, 2, 5][param(1) as usize];
    let cut = param(2);
    let mut w = vec![];
    for i in 1..wc {
        w.push(if i < 6 || i > wc - 3 { if has_string(op) { ascii() | 0x01010101 } else { u32v() } } else { 0x61616100 + i % 16 + 97 });
    }
    if has_string(op) {
        let k = w.len() - 1;
        w[k] = 0x00616161;
    }
    let mut all = vec![wc << 16 | op as u32];
    all.extend_from_slice(&w);
    all.truncate((wc - cut) as usize);
    let r = read_body(&all);
    let mut env = Env::new();
    let x = parse_stream(&all, 0, &mut env);
    judge(&r, &x, content(op) & !bit(5));
}

// ---------------------------------------------------------------- byte order

fn outcome_eq(a: &Result<RawModule, ReadError>, b: &Result<RawModule, ReadError>) {
    match (a, b) {
        (Ok(m), Ok(n)) => {
            cover(1);
            let mut ok = (m.bound == n.bound) & (m.generator.version == n.generator.version);
            ok &= m.generator.tool == n.generator.tool;
            ok &= m.version == n.version;
            check(3, 1, ok);
            check(3, 2, m.instructions.len() == n.instructions.len());
            for (i, j) in m.instructions.iter().zip(n.instructions.iter()) {
                check(3, 3, same_words(&enc::encode(i), &enc::encode(j)));
            }
            obs(m.instructions.len() as u64);
        }
        (Err(e), Err(f)) => {
            let (e, f) = (conv(e), conv(f));
            cover(100 + e.kind);
            check(3, 4, same_err(&e, &f));
            obs(e.kind as u64);
        }
        _ => check(3, 5, false),
    }
}

/// the same words in both byte orders: any header and no instructions
#[no_mangle]
pub fn h_order_header() {
    let mut w = vec![];
    for _ in 0..choose(6) {
        w.push(u32v());
    }
    two(&w);
}
pub fn two(w: &[u32]) {
    let a = read_module(&bytes_le(w), sets());
    let b = read_module(&bytes_be(w), sets());
    dump(|| format!("words {:08x?}\n  little-endian {:?}\n  big-endian {:?}", w, a, b));
    outcome_eq(&a, &b);
}
/// the same words in both byte orders: any one instruction of p0 words
#[no_mangle]
pub fn h_order_inst() {
    let n = param(0);
    let strings = param(1) == 1;
    let mut w = HEADER.to_vec();
    let op = var(16) as u16;
    if strings {
        assume(in_list(op, &[5, 7, 15]));
    } else {
        assume(!in_list(op, STRING_OPS) & (op != 71) & (op != 72));
    }
    w.push(n << 16 | op as u32);
    for _ in 1..n {
        w.push(if strings { ascii() } else { u32v() });
    }
    two(&w);
}
/// the same words in both byte orders: any split of p0 words
#[no_mangle]
pub fn h_order_stream() {
    let n = param(0) as usize;
    let mut w = vec![];
    for _ in 0..n {
        w.push(u32v());
    }
    let mut at = 0;
    while at < n {
        assume(in_list(w[at] as u16, &[0, 248, 30, 245, 9]));
        let wc = w[at] >> 16;
        if wc == 0 || wc > (n - at) as u32 {
            break;
        }
        at += conc(wc) as usize;
    }
    let mut all = HEADER.to_vec();
    all.extend_from_slice(&w);
    two(&all);
}

// ---------------------------------------------------------------- no crash

/// any p0 bytes at all
#[no_mangle]
pub fn h_bytes() {
    let n = param(0);
    let mut b = vec![];
    for _ in 0..n {
        b.push(u8v());
    }
    let r = read_module(&b, sets());
    dump(|| format!("bytes {:02x?}\n  result {:?}", b, r));
    match r {
        Ok(m) => {
            cover(1);
            obs(m.instructions.len() as u64)
        }
        Err(e) => {
            cover(100 + conv(&e).kind);
            obs(conv(&e).kind as u64)
        }
    }
}

/// a valid header (either byte order) and any p0 words, then p1 bytes, with or without sets
#[no_mangle]
pub fn h_words() {
    let n = param(0);
    let mut w = HEADER.to_vec();
    for _ in 0..n {
        w.push(u32v());
    }
    let mut b = bytes_le(&w);
    for _ in 0..param(1) {
        b.push(u8v());
    }
    let r = read_module(&b, if param(2) == 1 { vec![] } else { sets() });
    dump(|| format!("words {:08x?}\n  result {:?}", w, r));
    match r {
        Ok(m) => {
            cover(1);
            obs(m.instructions.len() as u64)
        }
        Err(e) => {
            cover(100 + conv(&e).kind);
            obs(conv(&e).kind as u64)
        }
    }
}

// ---------------------------------------------------------------- extended instruction sets

/// p0 instructions, each an import or a use, over the sets registered as p1 says
#[no_mangle]
pub fn h_ext() {
    let n = param(0);
    use magmaflow::spv::ExtInstSet;
    let order: &[u32] = match param(1) {
        0 => &[0, 1, 2],
        1 => &[2, 1],
        2 => &[1],
        3 => &[],
        4 => &[1, 2, 1],
        _ => &[2, 0, 1],
    };
    let mut sets: Vec<Box<dyn ExtInstSet>> = vec![];
    for s in order {
        if *s == 0 {
            sets.push(Box::new(magmaflow::glsl450::InstSet));
        } else {
            sets.push(Box::new(ext::Set(*s)));
        }
    }
    let mut w = vec![];
    for _ in 0..n {
        match choose(3) {
            0 => {
                w.push(3 << 16 | 11);
                w.push(u32v());
                w.push(ascii());
            }
            1 => {
                w.push(6 << 16 | 11);
                w.push(u32v());
                // "GLSL.std.450" with one changeable character
                w.push(0x4C534C47);
                w.push(0x6474732E);
                w.push(0x3035342E ^ (var(2) as u32) << 24);
                w.push(0);
            }
            _ => {
                let k = choose(3);
                w.push((5 + k) << 16 | 12);
                w.push(u32v());
                w.push(u32v());
                w.push(u32v());
                w.push(u32v());
                for _ in 0..k {
                    w.push(u32v());
                }
            }
        }
    }
    let mut all = HEADER.to_vec();
    all.extend_from_slice(&w);
    let r = read_module(&bytes_le(&all), sets);
    show(&w, &r);
    // names in registration order: the reference finds the first that matches
    let mut env = Env { names: &[], read: ext::read, bound: vec![], avail: None };
    let x = parse_ext(&w, order, &mut env);
    judge(&r, &x, bit(9));
    if let (Ok(m), Ok(v)) = (&r, &x) {
        for (i, s) in m.instructions.iter().zip(v.iter()) {
            if let Core::OpExtInst(ref o) = *i {
                cover(3);
                if let Some(e) = o.instruction.as_ref().as_any().downcast_ref::<ext::X>() {
                    cover(4);
                    check(9, 20, s.toks[2] == Tok::Name(ext::NAMES[e.set as usize]));
                } else {
                    cover(5);
                    // decoded by the built-in set
                    let is = matches!(s.toks[2], Tok::Name("Sin") | Tok::Name("Cos"));
                    check(9, 21, is);
                }
            }
        }
    }
}

/// names close to the registered ones: p0 says how they differ
#[no_mangle]
pub fn h_ext_name() {
    use magmaflow::spv::ExtInstSet;
    let mut name = b"GLSL.std.450".to_vec();
    let mut order: &[u32] = &[1, 0, 2];
    match param(0) {
        // any character at any one place (a zero byte ends the name there)
        0 => {
            let at = choose(12) as usize;
            name[at] = var(7) as u8;
        }
        // the letters in any case
        1 => {
            for at in [0, 1, 2, 3, 5, 6, 7] {
                name[at] ^= (var(1) as u8) << 5;
            }
        }
        // anything behind or in front of it
        2 => {
            let n = 1 + choose(3);
            let back = choose(2) == 1;
            for _ in 0..n {
                let c = var(7) as u8;
                if back {
                    name.push(c)
                } else {
                    name.insert(0, c)
                }
            }
        }
        // names that begin or end like one another, in two orders
        3 => {
            order = if choose(2) == 0 { &[3, 1, 4, 5, 2] } else { &[4, 1, 5, 3] };
            name = vec![];
            for _ in 0..choose(4) {
                name.push(var(7) as u8)
            }
        }
        _ => {
            order = if choose(2) == 0 { &[6, 0, 7] } else { &[7, 6] };
            let n = 10 + choose(3) as usize;
            name.truncate(n);
            for at in [0, 1, 2, 3] {
                name[at] ^= (var(1) as u8) << 5;
            }
        }
    }
    let mut sets: Vec<Box<dyn ExtInstSet>> = vec![];
    for s in order {
        if *s == 0 {
            sets.push(Box::new(magmaflow::glsl450::InstSet));
        } else {
            sets.push(Box::new(ext::Set(*s)));
        }
    }
    let id = u32v();
    let mut w = vec![0, id];
    push_bytes(&mut w, &name);
    w[0] = (w.len() as u32) << 16 | 11;
    let inst = u32v();
    w.extend_from_slice(&[6 << 16 | 12, u32v(), u32v(), id, inst, u32v()]);
    let mut all = HEADER.to_vec();
    all.extend_from_slice(&w);
    let r = read_module(&bytes_le(&all), sets);
    show(&w, &r);
    let mut env = Env { names: &[], read: ext::read, bound: vec![], avail: None };
    let x = parse_ext(&w, order, &mut env);
    judge(&r, &x, bit(9));
}

fn parse_ext(w: &[u32], order: &[u32], env: &mut Env) -> Res<Vec<Inst>> {
    static ALL: &[&str] = ext::NAMES;
    env.names = ALL;
    env.avail = Some(order.to_vec());
    parse_stream(w, 0, env)
}
