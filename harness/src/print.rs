//! C19, C20: the printed control-flow structure and the function listing.
use crate::cfa::*;
use crate::display::{operands, same_text};
use crate::layout::{class_of, of_branch, of_code, Cl};
use crate::spec::*;
use crate::sym::*;
use crate::util::*;
use magmaflow::spv::logical::*;
use magmaflow::spv::op::*;
use magmaflow::spv::raw::{read_module, Core};
use magmaflow::spv::types::*;

fn pad(out: &mut String, indent: u32) {
    for _ in 0..indent {
        out.push_str("    ");
    }
}
fn hint_text(names: &[(&str, bool)], len: Option<u32>, out: &mut String) {
    let mut first = true;
    for (n, on) in names {
        if *on {
            out.push_str(if first { " [" } else { " | " });
            out.push_str(n);
            first = false;
        }
    }
    if let Some(l) = len {
        out.push_str(if first { " [" } else { " | " });
        out.push_str("DependencyLength(");
        out.push_str(&l.to_string());
        out.push(')');
        first = false;
    }
    if !first {
        out.push(']');
    }
}
fn weights_text(w: Option<(u32, u32)>, out: &mut String) {
    if let Some((a, b)) = w {
        out.push_str(" [");
        out.push_str(&a.to_string());
        out.push(' ');
        out.push_str(&b.to_string());
        out.push(']');
    }
}

/// how a block is shown
enum Show<'a> {
    Name,
    Code(&'a FunctionDefinition),
}

fn listing(f: &FunctionDefinition, id: u32, indent: u32, out: &mut String) {
    for b in &f.blocks {
        if b.label.result_id.0 == id {
            pad(out, indent);
            out.push_str("> Begin ");
            out.push_str(&id.to_string());
            out.push('\n');
            for c in &b.code {
                pad(out, indent);
                out.push_str(">>> ");
                out.push_str(&of_code(c).to_string());
                out.push('\n');
            }
            pad(out, indent);
            out.push_str(">>> ");
            out.push_str(&of_branch(&b.branch).to_string());
            out.push('\n');
            pad(out, indent);
            out.push_str("> End ");
            out.push_str(&id.to_string());
            out.push('\n');
        }
    }
}

/// reference text of a structure
fn text(v: &[T], indent: u32, show: &Show, out: &mut String) {
    let head = |out: &mut String, word: &str, id: u32| match *show {
        Show::Name => {
            pad(out, indent);
            out.push_str(word);
            out.push('%');
            out.push_str(&id.to_string());
        }
        Show::Code(f) => listing(f, id, indent, out),
    };
    let open = |out: &mut String| match *show {
        Show::Name => out.push_str(" {\n"),
        Show::Code(_) => {
            pad(out, indent);
            out.push_str("{\n");
        }
    };
    for t in v {
        match *t {
            T::Atom(id) => {
                head(out, "", id);
                if let Show::Name = *show {
                    out.push('\n');
                }
            }
            T::Sel(id, ref a, ref b, f, d, w) => {
                head(out, "selection ", id);
                hint_text(&[("Flatten", f), ("DontFlatten", d)], None, out);
                weights_text(w, out);
                open(out);
                text(a, indent + 1, show, out);
                if !b.is_empty() {
                    pad(out, indent);
                    out.push_str("} else {\n");
                    text(b, indent + 1, show, out);
                }
                pad(out, indent);
                out.push_str("}\n");
            }
            T::Loop(id, ref a, u, d, i, l) => {
                head(out, "loop ", id);
                hint_text(&[("Unroll", u), ("DontUnroll", d), ("DependencyInfinite", i)], l, out);
                open(out);
                text(a, indent + 1, show, out);
                pad(out, indent);
                out.push_str("}\n");
            }
            T::Break => {
                pad(out, indent);
                out.push_str("break;\n");
            }
            T::Continue => {
                pad(out, indent);
                out.push_str("continue;\n");
            }
        }
    }
}

fn mint(n: u32) -> Option<BlockId> {
    match find_control_flow(function(&[Blk { id: n, merge: Mg::None, br: Br::Ret }])) {
        Ok(ControlFlowChain::Atom(id)) => Some(id),
        _ => None,
    }
}

/// the numbers of a structure: one digit, ids of ten digits, or any one of them any number
struct Num {
    class: u32,
    which: u32,
    k: u32,
}
impl Num {
    fn one(&mut self) -> bool {
        self.k += 1;
        self.class == 2 && self.k == self.which + 1
    }
    fn id(&mut self) -> u32 {
        if self.one() {
            u32v()
        } else if self.class == 1 {
            1_000_000_000 + var(31) as u32
        } else {
            var(3) as u32
        }
    }
    fn word(&mut self, least: u32) -> u32 {
        if self.one() {
            u32v()
        } else if least == 0 {
            var(3) as u32
        } else {
            least + var(5) as u32
        }
    }
}

/// a structure and its plain form
fn any_chain(depth: u32, budget: &mut u32, n: &mut Num) -> (ControlFlowChain, T) {
    if *budget > 0 {
        *budget -= 1;
    }
    let k = choose(if depth == 0 { 3 } else { 5 });
    let id = if k == 1 || k == 2 {
        0
    } else {
        n.id()
    };
    match k {
        0 => (ControlFlowChain::Atom(mint(id).unwrap()), T::Atom(id)),
        1 => (ControlFlowChain::Break, T::Break),
        2 => (ControlFlowChain::Continue, T::Continue),
        3 => {
            let (f, d) = (choose(2) == 1, choose(2) == 1);
            let w = if choose(2) == 1 { Some((n.word(0), n.word(10))) } else { None };
            let (a, x) = any_side(depth - 1, budget, n);
            let (b, y) = any_side(depth - 1, budget, n);
            (
                ControlFlowChain::Selection(mint(id).unwrap(), Box::new(a), Box::new(b), selection(f, d), weights(w)),
                T::Sel(id, x, y, f, d, w),
            )
        }
        _ => {
            let m = choose(8);
            let (u, d, i) = (m & 1 != 0, m & 2 != 0, m & 4 != 0);
            let l = if choose(2) == 1 { Some(n.word(0)) } else { None };
            let (a, x) = any_side(depth - 1, budget, n);
            (
                ControlFlowChain::Loop(mint(id).unwrap(), Box::new(a), loop_control(u, d, i, l), None),
                T::Loop(id, x, u, d, i, l),
            )
        }
    }
}
/// nothing, one structure or several in a row
fn any_side(depth: u32, budget: &mut u32, n: &mut Num) -> (ControlFlowChain, Vec<T>) {
    let k = choose(1 + if *budget > 2 { 2 } else { *budget });
    let mut v = vec![];
    let mut t = vec![];
    for _ in 0..k {
        let (c, x) = any_chain(depth, budget, n);
        v.push(c);
        t.push(x);
    }
    if k == 1 && choose(2) == 1 {
        return (v.pop().unwrap(), t);
    }
    (ControlFlowChain::Block(v), t)
}

fn observe(s: &str) {
    for b in s.bytes() {
        obs(b as u64);
    }
}

/// any structure of about p0 parts nested p1 deep
#[no_mangle]
pub fn h_chain() {
    if mint(1).is_none() {
        cover(9);
        return;
    }
    let mut budget = param(0);
    let mut n = Num { class: param(2), which: if param(2) == 2 { choose(4) } else { 0 }, k: 0 };
    let (c, t) = any_side(param(1), &mut budget, &mut n);
    assume(param(2) != 2 || n.which < n.k);
    let got = c.to_string();
    let mut want = String::new();
    text(&t, 0, &Show::Name, &mut want);
    dump(|| format!("structure {:?}\nprinted\n{}\nexpected\n{}", c, got, want));
    cover(1);
    kinds(&t, 0);
    check(19, 1, same_text(&got, &want));
    observe(&got);
}
fn kinds(v: &[T], depth: u32) {
    for t in v {
        match *t {
            T::Atom(_) => cover(10 + depth),
            T::Sel(_, ref a, ref b, f, d, w) => {
                cover(if b.is_empty() { 20 } else { 21 });
                if f || d {
                    cover(22);
                }
                if w.is_some() {
                    cover(23);
                }
                kinds(a, depth + 1);
                kinds(b, depth + 1);
            }
            T::Loop(_, ref a, _, _, _, _) => {
                cover(24);
                kinds(a, depth + 1);
            }
            T::Break => cover(25),
            T::Continue => cover(26),
        }
    }
}

/// the structures the analysis itself returns, p0 statements p1 deep: both printed forms
#[no_mangle]
pub fn h_print() {
    let mut budget = param(0);
    let ast = any_ast(&mut budget, param(1), false);
    print_of(&ast, param(2), param(3), param(4), 0);
}

/// p0 statements in a row of every kind, blocks of up to 60 instructions
#[no_mangle]
pub fn h_print_long() {
    let ast = in_a_row(choose(9), param(0));
    print_of(&ast, param(1), param(2), 0, param(3));
}

/// constructs nested p0 deep in every way
#[no_mangle]
pub fn h_print_deep() {
    let ast = nested(choose(NESTED), param(0), param(0), 0);
    print_of(&ast, param(1), param(2), 0, param(3));
}

fn print_of(ast: &[Ast], ids: u32, order: u32, extras: u32, size: u32) {
    let mut g = Gen::new(ids, extras);
    let want = g.function(ast);
    let f = reorder(&g.f, order);
    let mut d = function(&f);
    // code in the blocks, different in every block
    for (i, b) in d.blocks.iter_mut().enumerate() {
        for k in 0..if size > 0 { (i as u32 + 1) * size % 61 } else { (i as u32 + 1) % 3 } {
            b.code.push(code(k, i as u32));
        }
    }
    let c = match find_control_flow(d.clone()) {
        Ok(c) => c,
        Err(_) => {
            cover(9);
            return;
        }
    };
    let mut got = vec![];
    normal(&c, &mut got);
    if !same_shape(&got, &want) {
        // C17 decides whether the structure is right
        cover(8);
    }
    let printed = c.to_string();
    let mut w = String::new();
    text(&got, 0, &Show::Name, &mut w);
    dump(|| format!("blocks {:?}\n  structure {:?}\nprinted\n{}\nexpected\n{}", f, c, printed, w));
    cover(1);
    check(19, 2, same_text(&printed, &w));
    let listed = ControlFlowFunctionPrinter(&d, &c).to_string();
    let mut w = String::new();
    text(&got, 0, &Show::Code(&d), &mut w);
    dump(|| format!("listed\n{}\nexpected\n{}", listed, w));
    kinds(&got, 0);
    check(20, 1, same_text(&listed, &w));
    observe(&listed);
}
fn same_shape(a: &[T], b: &[T]) -> bool {
    a.len() == b.len()
}
pub fn code(k: u32, i: u32) -> GroupCode {
    match (k + i) % 3 {
        0 => GroupCode::OpIAdd(OpIAdd {
            result_type: OpId(1),
            result_id: ResultId(var(3) as u32),
            operand1: OpId(10 + i),
            operand2: OpId(20 + k),
        }),
        1 => GroupCode::OpStore(OpStore { pointer: OpId(30 + i), object: OpId(var(3) as u32), memory_access: None }),
        _ => GroupCode::OpLoad(OpLoad {
            result_type: OpId(1),
            result_id: ResultId(40 + i),
            pointer: OpId(50 + k),
            memory_access: None,
        }),
    }
}

/// every instruction a block can hold, read, laid out and listed: in a block of its own (p1 = 0),
/// in a side of a selection (1, 2), a loop body (3) or a block of several instructions (4)
#[no_mangle]
pub fn h_listing_kind() {
    let n = (OPS.len() + BIN.len()) as u32;
    let k = choose(n);
    let op = if (k as usize) < OPS.len() { OPS[k as usize].0 } else { BIN[k as usize - OPS.len()].0 };
    assume(class_of(op, 7) == Cl::Code);
    let mut all = HEADER.to_vec();
    all.extend_from_slice(&[6 << 16 | 11, 77, 0x4C534C47, 0x6474732E, 0x3035342E, 0]);
    all.extend_from_slice(&[3 << 16 | 14, 0, 1]);
    all.extend_from_slice(&[5 << 16 | 54, 1, 2, 0, 3]);
    let place = param(1);
    let (label, before): (u32, &[u32]) = match place {
        0 | 4 => (5, &[]),
        1 => (6, &[2 << 16 | 248, 5, 3 << 16 | 247, 8, 0, 4 << 16 | 250, 9, 6, 8]),
        2 => (6, &[2 << 16 | 248, 5, 3 << 16 | 247, 8, 0, 4 << 16 | 250, 9, 7, 6, 2 << 16 | 248, 7, 2 << 16 | 249, 8]),
        _ => (
            6,
            &[
                2 << 16 | 248, 5, 4 << 16 | 246, 8, 7, 0, 2 << 16 | 249, 7, 2 << 16 | 248, 7, 4 << 16 | 250, 9, 6, 8,
            ],
        ),
    };
    all.extend_from_slice(before);
    all.extend_from_slice(&[2 << 16 | 248, label]);
    let mut w = vec![];
    operands(op, param(0), &mut w);
    if op == 12 {
        w[2] = 77;
    }
    if op == 59 {
        w[2] = 7;
    }
    let add = [5 << 16 | 128, 1, 2, 3, 4];
    if place == 4 {
        all.extend_from_slice(&add);
    }
    all.push((w.len() as u32 + 1) << 16 | op as u32);
    all.extend_from_slice(&w);
    if place == 4 {
        all.push((w.len() as u32 + 1) << 16 | op as u32);
        all.extend_from_slice(&w);
        all.extend_from_slice(&add);
    }
    match place {
        0 | 4 => {}
        1 | 2 => all.extend_from_slice(&[2 << 16 | 249, 8, 2 << 16 | 248, 8]),
        _ => all.extend_from_slice(&[2 << 16 | 249, 5, 2 << 16 | 248, 8]),
    }
    all.extend_from_slice(&[1 << 16 | 253, 1 << 16 | 56]);
    let m = match read_module(&bytes_le(&all), sets()) {
        Ok(m) => m,
        Err(_) => {
            cover(9);
            return;
        }
    };
    let lines: Vec<String> = m.instructions.iter().map(|i| i.to_string()).collect();
    let l = match validate(m) {
        Ok(l) => l,
        Err(_) => {
            cover(9);
            return;
        }
    };
    let d = match l.function_definitions.first() {
        Some(d) => d,
        None => {
            cover(9);
            return;
        }
    };
    let c = match find_control_flow(d.clone()) {
        Ok(c) => c,
        Err(_) => {
            cover(9);
            return;
        }
    };
    let listed = ControlFlowFunctionPrinter(d, &c).to_string();
    let mut want = String::new();
    // the lines of the disassembly, block by block
    let mut block = |label: u32, at: usize, n: usize, indent: u32| {
        pad(&mut want, indent);
        want.push_str("> Begin ");
        want.push_str(&label.to_string());
        want.push('\n');
        for k in at..at + n {
            pad(&mut want, indent);
            want.push_str(">>> ");
            want.push_str(lines.get(k).map_or("", |x| &x[..]));
            want.push('\n');
        }
        pad(&mut want, indent);
        want.push_str("> End ");
        want.push_str(&label.to_string());
        want.push('\n');
        std::mem::take(&mut want)
    };
    // instruction numbers: 0 import, 1 memory model, 2 function, 3 the first label
    let mut all = String::new();
    match place {
        0 => all.push_str(&block(5, 4, 2, 0)),
        4 => all.push_str(&block(5, 4, 5, 0)),
        1 => {
            all.push_str(&block(5, 5, 1, 0));
            all.push_str("{\n");
            all.push_str(&block(6, 7, 2, 1));
            all.push_str("}\n");
            all.push_str(&block(8, 10, 1, 0));
        }
        2 => {
            all.push_str(&block(5, 5, 1, 0));
            all.push_str("{\n");
            all.push_str(&block(7, 7, 1, 1));
            all.push_str("} else {\n");
            all.push_str(&block(6, 9, 2, 1));
            all.push_str("}\n");
            all.push_str(&block(8, 12, 1, 0));
        }
        _ => {
            all.push_str(&block(5, 5, 1, 0));
            all.push_str("{\n");
            all.push_str(&block(7, 7, 1, 1));
            all.push_str("    {\n");
            all.push_str(&block(6, 9, 2, 2));
            all.push_str("    } else {\n        break;\n    }\n}\n");
            all.push_str(&block(8, 12, 1, 0));
        }
    }
    dump(|| format!("listed\n{}\nexpected\n{}", listed, all));
    cover(1000 + op as u32);
    check(20, 2, same_text(&listed, &all));
    observe(&listed);
}
