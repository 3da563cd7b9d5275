//! C02: the module header.
use crate::sym::*;
use crate::util::*;
use magmaflow::spv::raw::{read_module, RawModule, ReadError};
use magmaflow::spv::types::*;

pub fn tool_number(t: &Tool) -> u32 {
    match *t {
        Tool::KhronosReserved => 0,
        Tool::LunarG => 1,
        Tool::Valve => 2,
        Tool::Codeplay => 3,
        Tool::Nvidia => 4,
        Tool::Arm => 5,
        Tool::KhronosLLvmTranslator => 6,
        Tool::KhronosAssembler => 7,
        Tool::KhronosGlslang => 8,
        Tool::Qualcomm => 9,
        Tool::Amd => 10,
        Tool::Intel => 11,
        // a number that has a tool of its own must not be reported as unnamed
        Tool::Other(n) => n as u32 | if n < 12 { 0x10000 } else { 0 },
    }
}

/// expected outcome for the words available (`n` whole words, `extra` further bytes)
fn expect(w: &[u32], extra: usize) -> Option<Err> {
    let short = |i: usize| -> Option<Err> {
        if i < w.len() {
            None
        } else if extra > 0 {
            Some(err(ek::Alignment))
        } else {
            Some(err(ek::EndOfStream))
        }
    };
    if let Some(e) = short(0) {
        return Some(e);
    }
    if w[0] != 0x07230203 {
        return Some(err(ek::BadMagic));
    }
    if let Some(e) = short(1) {
        return Some(e);
    }
    if w[1] != 0x00010000 {
        return Some(err1(ek::VersionBytes, w[1]));
    }
    for i in 2..5 {
        if let Some(e) = short(i) {
            return Some(e);
        }
    }
    if w[4] != 0 {
        return Some(err(ek::Schema));
    }
    if extra > 0 {
        return Some(err(ek::Alignment));
    }
    None
}

fn run(n: usize, extra: usize, be: bool) {
    let mut w = vec![];
    for _ in 0..n {
        w.push(u32v());
    }
    let mut bytes = if be { bytes_be(&w) } else { bytes_le(&w) };
    for _ in 0..extra {
        bytes.push(u8v());
    }
    // words as the file's own byte order gives them: a swapped magic selects the other order
    if n > 0 && !be {
        assume(w[0] != 0x03022307);
    }
    if n > 0 && be {
        assume(w[0] != 0x03022307);
    }
    dump(|| format!("header words {:08x?} + {} bytes, {}", w, extra, if be { "big-endian" } else { "little-endian" }));
    let r = read_module(&bytes, sets());
    dump(|| format!("result {:?}", r));
    judge_header(&r, &w, extra, true, true);
}

/// the outcome of a module whose header is these five words, followed by instructions that
/// can be read or not
pub fn judge(r: &Result<RawModule, ReadError>, w: &[u32], readable: bool) {
    judge_header(r, w, 0, readable, false)
}
fn judge_header(r: &Result<RawModule, ReadError>, w: &[u32], extra: usize, readable: bool, empty: bool) {
    match (r, expect(w, extra)) {
        (Ok(m), None) => {
            cover(1);
            check(2, 1, m.version.0 == 1 && m.version.1 == 0);
            check(2, 2, tool_number(&m.generator.tool) == w[2] >> 16);
            check(2, 3, m.generator.version as u32 == w[2] & 0xFFFF);
            check(2, 4, m.bound == w[3]);
            if empty {
                check(2, 5, m.instructions.is_empty());
            }
            obs(m.bound as u64);
            obs(m.generator.version as u64);
        }
        (Ok(_), Some(_)) => {
            check(2, 6, false);
        }
        (Err(_), None) => check(2, 7, !readable),
        (Err(e), Some(x)) => {
            let e = conv(e);
            cover(10 + e.kind);
            check(2, 8, same_header_error(&e, &x));
            obs(e.kind as u64);
        }
    }
}

/// a bad version may be reported as version bytes or as a version
fn same_header_error(e: &Err, x: &Err) -> bool {
    if x.kind == ek::VersionBytes && e.kind == ek::Version {
        return x.a == (e.a >> 8) << 16 | (e.a & 0xFF) << 8;
    }
    e.kind == x.kind && e.a == x.a
}

/// every five-word header, in either byte order
#[no_mangle]
pub fn h_header() {
    run(5, 0, param(0) == 1);
}

/// every header cut after any number of bytes, or followed by less than a word
#[no_mangle]
pub fn h_header_cut() {
    let n = choose(6);
    let extra = choose(4);
    run(n as usize, extra as usize, choose(2) == 1);
}
