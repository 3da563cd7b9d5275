//! C12, C13, C14: the logical layout pass.
use crate::display::operands;
use crate::enc::encode;
use crate::spec::*;
use crate::sym::*;
use crate::util::*;
use magmaflow::spv::logical::*;
use magmaflow::spv::op::*;
use magmaflow::spv::raw::{Core, RawModule};
use magmaflow::spv::types::*;

/// where an instruction belongs
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Cl {
    Capability,
    Extension,
    Import,
    MemoryModel,
    Entry,
    Mode,
    Debug,
    Annotation,
    Global,
    Function,
    Parameter,
    End,
    Label,
    Code,
    Merge,
    Branch,
}
use self::Cl::*;
pub const CLASSES: [Cl; 16] = [
    Capability, Extension, Import, MemoryModel, Entry, Mode, Debug, Annotation, Global, Function, Parameter, End,
    Label, Code, Merge, Branch,
];

/// section 2.4 of the specification: the section of an opcode (storage class for variables)
pub fn class_of(op: u16, storage: u32) -> Cl {
    match op {
        17 => Capability,
        10 => Extension,
        11 => Import,
        14 => MemoryModel,
        15 => Entry,
        16 => Mode,
        2..=7 => Debug,
        71 | 72 => Annotation,
        19..=39 | 43 | 44 => Global,
        59 => {
            if storage == 7 {
                Code
            } else {
                Global
            }
        }
        54 => Function,
        55 => Parameter,
        56 => End,
        248 => Label,
        246 | 247 => Merge,
        249 | 250 | 253 => Branch,
        _ => Code,
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Fine,
    NoMemoryModel,
    WantFunction(usize),
    WantEnd(usize),
    WantBranch(usize),
    Unexpected(usize),
}

/// the layout grammar over classes; also counts the leading functions without blocks
pub fn layout(c: &[Cl]) -> (Verdict, usize) {
    let at = |i: usize| if i < c.len() { Some(c[i]) } else { None };
    let mut i = 0;
    for s in &[Capability, Extension, Import] {
        while at(i) == Some(*s) {
            i += 1;
        }
    }
    if at(i) != Some(MemoryModel) {
        return (Verdict::NoMemoryModel, 0);
    }
    i += 1;
    for s in &[Entry, Mode, Debug, Annotation, Global] {
        while at(i) == Some(*s) {
            i += 1;
        }
    }
    let mut decls = 0;
    let mut body_seen = false;
    while i < c.len() {
        if i + 1 == c.len() {
            // a single leftover cannot begin a function
            return (Verdict::Unexpected(i), 0);
        }
        if c[i] != Function {
            return (Verdict::WantFunction(i), 0);
        }
        i += 1;
        while at(i) == Some(Parameter) {
            i += 1;
        }
        if at(i) == Some(Label) {
            body_seen = true;
        }
        while at(i) == Some(Label) {
            i += 1;
            while at(i) == Some(Code) {
                i += 1;
            }
            if at(i) == Some(Merge) {
                i += 1;
            }
            if at(i) != Some(Branch) {
                return (Verdict::WantBranch(i), 0);
            }
            i += 1;
        }
        if at(i) != Some(End) {
            return (Verdict::WantEnd(i), 0);
        }
        i += 1;
        if !body_seen {
            decls += 1;
        }
    }
    (Verdict::Fine, decls)
}

pub fn verdict(e: &ValidationError) -> Verdict {
    match *e {
        ValidationError::MemoryModelMissing => Verdict::NoMemoryModel,
        ValidationError::ExpectedOpFunction(i) => Verdict::WantFunction(i),
        ValidationError::ExpectedOpFunctionEnd(i) => Verdict::WantEnd(i),
        ValidationError::ExpectedBranch(i) => Verdict::WantBranch(i),
        ValidationError::UnexpectedInstruction(i) => Verdict::Unexpected(i),
        #[allow(unreachable_patterns)]
        _ => Verdict::Unexpected(usize::MAX),
    }
}

macro_rules! wrap {
    ($e:expr, $g:ident: $($v:ident)*) => {
        #[allow(unreachable_patterns)]
        match *$e { $($g::$v(ref o) => Core::$v(o.clone()),)* _ => Core::OpNop(OpNop) }
    };
}

fn of_debug(g: &GroupDebug) -> Core {
    wrap!(g, GroupDebug: OpSourceContinued OpSource OpSourceExtension OpName OpMemberName OpString)
}
fn of_annotation(g: &GroupAnnotation) -> Core {
    wrap!(g, GroupAnnotation: OpDecorate OpMemberDecorate)
}
fn of_type(g: &GroupType) -> Core {
    wrap!(g, GroupType: OpTypeVoid OpTypeBool OpTypeInt OpTypeFloat OpTypeVector OpTypeMatrix OpTypeImage
        OpTypeSampler OpTypeSampledImage OpTypeArray OpTypeRuntimeArray OpTypeStruct OpTypeOpaque OpTypePointer
        OpTypeFunction OpTypeEvent OpTypeDeviceEvent OpTypeQueue OpTypePipe OpTypeForwardPointer)
}
fn of_constant(g: &GroupConstant) -> Core {
    wrap!(g, GroupConstant: OpConstant OpConstantComposite)
}
fn of_global(g: &GroupGlobal) -> Core {
    match *g {
        GroupGlobal::GroupType(ref t) => of_type(t),
        GroupGlobal::GroupConstant(ref t) => of_constant(t),
        GroupGlobal::OpVariable(ref o) => Core::OpVariable(o.clone()),
    }
}
pub fn of_code(g: &GroupCode) -> Core {
    wrap!(g, GroupCode: OpNop OpUndef OpExtInst OpVariable OpLoad OpStore OpAccessChain OpConvertUToF OpBitcast
        OpIAdd OpFAdd OpISub OpFSub OpIMul OpFMul OpUDiv OpSDiv OpFDiv OpUMod OpSRem OpSMod OpFRem OpFMod
        OpIAddCarry OpISubBorrow OpUMulExtended OpSMulExtended OpBitwiseOr OpBitwiseXor OpBitwiseAnd OpIEqual
        OpINotEqual OpUGreaterThan OpSGreaterThan OpUGreaterThanEqual OpSGreaterThanEqual OpULessThan OpSLessThan
        OpULessThanEqual OpSLessThanEqual OpFOrdEqual OpFUnordEqual OpFOrdNotEqual OpFUnordNotEqual OpFOrdLessThan
        OpFUnordLessThan OpFOrdGreaterThan OpFUnordGreaterThan OpFOrdLessThanEqual OpFUnordLessThanEqual
        OpFOrdGreaterThanEqual OpFUnordGreaterThanEqual OpPhi)
}
fn of_merge(g: &GroupMerge) -> Core {
    wrap!(g, GroupMerge: OpLoopMerge OpSelectionMerge)
}
pub fn of_branch(g: &GroupBranch) -> Core {
    wrap!(g, GroupBranch: OpBranch OpBranchConditional OpReturn)
}

/// the instructions of a logical module, in layout order
pub fn flatten(m: &LogicalModule) -> Vec<Vec<u32>> {
    let mut v = vec![];
    for c in &m.capabilities {
        v.push(encode(&Core::OpCapability(OpCapability { capability: c.clone() })));
    }
    for c in &m.extensions {
        v.push(encode(&Core::OpExtension(OpExtension { name: c.clone() })));
    }
    for c in &m.ext_inst_imports {
        v.push(encode(&Core::OpExtInstImport(c.clone())));
    }
    v.push(encode(&Core::OpMemoryModel(m.memory_model.clone())));
    for c in &m.entry_points {
        v.push(encode(&Core::OpEntryPoint(c.clone())));
    }
    for c in &m.execution_modes {
        v.push(encode(&Core::OpExecutionMode(c.clone())));
    }
    for c in &m.debug {
        v.push(encode(&of_debug(c)));
    }
    for c in &m.annotations {
        v.push(encode(&of_annotation(c)));
    }
    for c in &m.globals {
        v.push(encode(&of_global(c)));
    }
    let end = || encode(&Core::OpFunctionEnd(OpFunctionEnd));
    for f in &m.function_declarations {
        v.push(encode(&Core::OpFunction(f.function.clone())));
        for p in &f.parameters {
            v.push(encode(&Core::OpFunctionParameter(p.clone())));
        }
        v.push(end());
    }
    for f in &m.function_definitions {
        v.push(encode(&Core::OpFunction(f.function.clone())));
        for p in &f.parameters {
            v.push(encode(&Core::OpFunctionParameter(p.clone())));
        }
        for b in &f.blocks {
            v.push(encode(&Core::OpLabel(b.label.clone())));
            for c in &b.code {
                v.push(encode(&of_code(c)));
            }
            if let Some(ref g) = b.merge {
                v.push(encode(&of_merge(g)));
            }
            v.push(encode(&of_branch(&b.branch)));
        }
        v.push(end());
    }
    v
}

pub fn raw(list: &[Core]) -> RawModule {
    RawModule {
        version: Version(1, 0),
        generator: Generator { tool: Tool::LunarG, version: 1 },
        bound: 100,
        instructions: list.to_vec(),
    }
}

/// run the pass and compare with the reference
fn judge(list: &[Core], classes: &[Cl]) {
    let r = validate(raw(list));
    let (want, decls) = layout(classes);
    dump(|| format!("instructions {:?}\n  classes {:?}\n  expected {:?}\n  result {:?}", list, classes, want, r.as_ref().err()));
    match r {
        Ok(m) => {
            cover(1);
            check(13, 1, want == Verdict::Fine);
            let got = flatten(&m);
            check(12, 1, got.len() == list.len());
            for (g, i) in got.iter().zip(list.iter()) {
                let w = encode(i);
                let mut ok = g.len() == w.len();
                if ok {
                    for k in 0..w.len() {
                        ok &= g[k] == w[k];
                    }
                }
                check(12, 2, ok);
            }
            check(12, 3, m.function_declarations.len() == decls || want != Verdict::Fine);
            obs(m.function_definitions.len() as u64);
        }
        Err(e) => {
            let e = verdict(&e);
            cover(match e {
                Verdict::NoMemoryModel => 2,
                Verdict::WantFunction(_) => 3,
                Verdict::WantEnd(_) => 4,
                Verdict::WantBranch(_) => 5,
                _ => 6,
            });
            check(13, 2, e == want);
            obs(0x100);
        }
    }
}

fn id() -> OpId {
    OpId(u32v())
}
fn rid() -> ResultId {
    ResultId(u32v())
}

/// one instruction of a class, with arbitrary ids; `alt` picks another kind of the class
pub fn sample(c: Cl, alt: u32) -> Core {
    match c {
        Capability => Core::OpCapability(OpCapability {
            capability: if alt == 0 { magmaflow::spv::types::Capability::Shader } else { magmaflow::spv::types::Capability::Kernel },
        }),
        Extension => Core::OpExtension(OpExtension { name: ["x", "yy"][alt as usize].to_string() }),
        Import => Core::OpExtInstImport(OpExtInstImport { result_id: rid(), name: "set".to_string() }),
        MemoryModel => Core::OpMemoryModel(OpMemoryModel {
            addressing_model: AddressingModel::Logical,
            memory_model: magmaflow::spv::types::MemoryModel::Glsl450,
        }),
        Entry => Core::OpEntryPoint(OpEntryPoint {
            execution_model: ExecutionModel::Vertex,
            entry_point: id(),
            name: "main".to_string(),
            interface: vec![id()],
        }),
        Mode => Core::OpExecutionMode(OpExecutionMode { entry_point: id(), mode: ExecutionMode::Invocations(u32v()) }),
        Debug => {
            if alt == 0 {
                Core::OpName(OpName { target: id(), name: "n".to_string() })
            } else {
                Core::OpString(OpString { result_id: rid(), string: "s".to_string() })
            }
        }
        Annotation => Core::OpDecorate(OpDecorate { target: id(), decoration: Decoration::Location(u32v()) }),
        Global => {
            if alt == 0 {
                Core::OpTypeVoid(OpTypeVoid { result_id: rid() })
            } else {
                Core::OpVariable(OpVariable {
                    result_type: id(),
                    result_id: rid(),
                    storage_class: StorageClass::Uniform,
                    initializer: None,
                })
            }
        }
        Function => Core::OpFunction(OpFunction {
            result_type: id(),
            result_id: rid(),
            function_control: FunctionControl {
                inline: false,
                dont_inline: alt == 1,
                pure_function: false,
                const_function: false,
            },
            function_type: id(),
        }),
        Parameter => Core::OpFunctionParameter(OpFunctionParameter { result_type: id(), result_id: rid() }),
        End => Core::OpFunctionEnd(OpFunctionEnd),
        Label => Core::OpLabel(OpLabel { result_id: rid() }),
        Code => {
            if alt == 0 {
                Core::OpBitcast(OpBitcast { result_type: id(), result_id: rid(), operand: id() })
            } else {
                Core::OpVariable(OpVariable {
                    result_type: id(),
                    result_id: rid(),
                    storage_class: StorageClass::Function,
                    initializer: None,
                })
            }
        }
        Merge => {
            if alt == 0 {
                Core::OpSelectionMerge(OpSelectionMerge {
                    merge_block: id(),
                    selection_control: SelectionControl { flatten: false, dont_flatten: true },
                })
            } else {
                Core::OpLoopMerge(OpLoopMerge {
                    merge_block: id(),
                    continue_target: id(),
                    loop_control: LoopControl {
                        unroll: true,
                        dont_unroll: false,
                        dependency_infinite: false,
                        dependency_length: None,
                    },
                })
            }
        }
        Branch => {
            if alt == 0 {
                Core::OpBranch(OpBranch { target_label: id() })
            } else {
                Core::OpReturn(OpReturn)
            }
        }
    }
}

fn prefixes(k: u32) -> &'static [Cl] {
    match k {
        0 => &[],
        1 => &[MemoryModel],
        2 => &[MemoryModel, Function],
        3 => &[MemoryModel, Function, Parameter],
        4 => &[MemoryModel, Function, Label],
        5 => &[MemoryModel, Function, Label, Code],
        6 => &[MemoryModel, Function, Label, Merge],
        7 => &[MemoryModel, Function, Label, Branch],
        8 => &[MemoryModel, Function, End],
        9 => &[MemoryModel, Function, Label, Branch, End],
        10 => &[Capability, Extension, Import, MemoryModel, Entry, Mode, Debug, Annotation, Global],
        11 => &[MemoryModel, Function, Label, Code, Merge, Branch, Label, Code],
        12 => &[Capability, Extension],
        13 => &[Capability, Extension, Import],
        14 => &[MemoryModel, Entry, Mode],
        15 => &[MemoryModel, Debug, Annotation],
        16 => &[MemoryModel, Function, Parameter, Parameter, Label, Branch],
        _ => &[MemoryModel, Function, Parameter, End, Function, Parameter, Label, Branch, End],
    }
}

/// a fixed beginning (p0) followed by any p1 instructions, then optionally the ends that close it
#[no_mangle]
pub fn h_layout() {
    let mut c = prefixes(param(0)).to_vec();
    for _ in 0..param(1) {
        c.push(CLASSES[choose(16) as usize]);
    }
    match param(2) {
        0 => {}
        1 => c.push(End),
        _ => {
            c.push(Branch);
            c.push(End);
        }
    }
    let mut list = vec![];
    for (i, k) in c.iter().enumerate() {
        list.push(sample(*k, (i as u32 + param(3)) & 1));
    }
    judge(&list, &c);
}

pub const FULL: [Cl; 22] = [
    Capability, Extension, Import, MemoryModel, Entry, Mode, Debug, Annotation, Global, Function, Parameter, End,
    Function, Parameter, Label, Code, Merge, Branch, Label, Code, Branch, End,
];

/// a whole module with any one place edited: an instruction inserted, replaced, removed,
/// exchanged with its neighbour or repeated, or the list cut there
#[no_mangle]
pub fn h_layout_edit() {
    let mut c = FULL.to_vec();
    for _ in 0..param(0) {
        let at = choose(c.len() as u32) as usize;
        match choose(6) {
            0 => c.insert(at, CLASSES[choose(16) as usize]),
            1 => c[at] = CLASSES[choose(16) as usize],
            2 => {
                c.remove(at);
            }
            3 => {
                if at + 1 < c.len() {
                    c.swap(at, at + 1)
                }
            }
            4 => {
                let k = c[at];
                c.insert(at, k)
            }
            _ => c.truncate(at),
        }
    }
    let mut list = vec![];
    for (i, k) in c.iter().enumerate() {
        list.push(sample(*k, i as u32 & 1));
    }
    judge(&list, &c);
}

fn type_only(i: u32) -> (Core, u16) {
    match i {
        0 => (Core::OpTypeEvent(OpTypeEvent { result_id: rid() }), 34),
        1 => (Core::OpTypeDeviceEvent(OpTypeDeviceEvent { result_id: rid() }), 35),
        2 => (Core::OpTypeQueue(OpTypeQueue { result_id: rid() }), 37),
        3 => (
            Core::OpTypePipe(OpTypePipe { result_id: rid(), access_qualifier: AccessQualifier::WriteOnly }),
            38,
        ),
        _ => (
            Core::OpTypeForwardPointer(OpTypeForwardPointer { pointer_type: id(), storage_class: StorageClass::Generic }),
            39,
        ),
    }
}

/// every kind of instruction with any operands, put at any place of a whole module
#[no_mangle]
pub fn h_layout_kind() {
    let n = (OPS.len() + BIN.len()) as u32;
    let k = choose(n + 5);
    let (inst, class) = if k >= n {
        let (i, op) = type_only(k - n);
        (i, class_of(op, 0))
    } else {
        let op = if (k as usize) < OPS.len() { OPS[k as usize].0 } else { BIN[k as usize - OPS.len()].0 };
        let mut all = HEADER.to_vec();
        let mut w = vec![];
        if op == 12 {
            all.extend_from_slice(&[6 << 16 | 11, 77, 0x4C534C47, 0x6474732E, 0x3035342E, 0]);
        }
        operands(op, 2, &mut w);
        if op == 12 {
            w[2] = 77;
        }
        if op == 11 {
            w.truncate(1);
            w.extend_from_slice(&[0x4C534C47, 0x6474732E, 0x3035342E, 0]);
        }
        all.push((w.len() as u32 + 1) << 16 | op as u32);
        all.extend_from_slice(&w);
        let storage = if op == 59 { conc(w[2]) } else { 0 };
        match magmaflow::spv::raw::read_module(&bytes_le(&all), sets()) {
            Ok(m) => match m.instructions.last() {
                Some(i) => (i.clone(), class_of(op, storage)),
                None => {
                    cover(9);
                    return;
                }
            },
            Err(_) => {
                cover(9);
                return;
            }
        }
    };
    cover(100 + k);
    let at = if param(0) == 1 {
        // where it belongs
        let mut p = 0;
        for (i, c) in FULL.iter().enumerate() {
            if *c == class {
                p = i;
            }
        }
        p
    } else {
        choose(FULL.len() as u32 + 1) as usize
    };
    let mut c = FULL.to_vec();
    if param(0) == 1 {
        c.remove(at);
    }
    let mut list = vec![];
    for (i, k) in c.iter().enumerate() {
        list.push(sample(*k, i as u32 & 1));
    }
    c.insert(at, class);
    list.insert(at, inst);
    judge(&list, &c);
}

pub const REPEATED: u32 = 20;
pub fn repeated(which: u32, n: u32) -> Vec<Cl> {
    let mut c = vec![];
    let seg: &[Cl] = match which {
        0 => &[Capability],
        1 => &[Extension],
        2 => &[Import],
        3 => &[Entry],
        4 => &[Mode],
        5 => &[Debug],
        6 => &[Annotation],
        7 => &[Global],
        8 => &[Parameter],
        9 => &[Code],
        10 => &[Label, Code, Branch],
        11 => &[Function, Label, Branch, End],
        12 => &[Function, End],
        13 => &[Function, Parameter],
        14 | 15 => &[Parameter],
        16 => &[Function, Parameter, Parameter, End],
        17 => &[Function, Parameter, Label, Code, Merge, Branch, Label, Branch, End],
        18 => &[Label, Code, Code, Merge, Branch],
        _ => &[],
    };
    let rep = |c: &mut Vec<Cl>| {
        for _ in 0..n {
            c.extend_from_slice(seg);
        }
    };
    if which < 3 {
        rep(&mut c);
    }
    c.push(MemoryModel);
    if which >= 3 && which < 8 {
        rep(&mut c);
    }
    match which {
        8 => {
            c.push(Function);
            rep(&mut c);
            c.push(End);
        }
        9 => {
            c.extend_from_slice(&[Function, Label]);
            rep(&mut c);
            c.extend_from_slice(&[Branch, End]);
        }
        10 => {
            c.push(Function);
            rep(&mut c);
            c.push(End);
        }
        11 | 12 | 13 | 16 | 17 => rep(&mut c),
        14 => {
            c.push(Function);
            rep(&mut c);
            c.extend_from_slice(&[Label, Branch, End]);
        }
        15 => {
            c.extend_from_slice(&[Function, End, Function]);
            rep(&mut c);
            c.extend_from_slice(&[Label, Code, Branch, End, Function]);
            rep(&mut c);
            c.push(End);
        }
        18 => {
            c.extend_from_slice(&[Function, Parameter]);
            rep(&mut c);
            c.push(End);
        }
        19 => {
            // every part several times
            c.clear();
            let n = n as usize;
            for k in &[Capability, Extension, Import] {
                c.resize(c.len() + n, *k);
            }
            c.push(MemoryModel);
            for k in &[Entry, Mode, Debug, Annotation, Global] {
                c.resize(c.len() + n, *k);
            }
            for b in 0..2 {
                c.push(Function);
                c.resize(c.len() + n, Parameter);
                for _ in 0..b * n {
                    c.push(Label);
                    c.resize(c.len() + 2, Code);
                    c.push(Branch);
                }
                c.push(End);
            }
        }
        _ => {}
    }
    c
}

/// every part of a module repeated p0 times, with any one instruction put, or the list cut, anywhere
/// around or inside the repetition
#[no_mangle]
pub fn h_layout_long() {
    let n = param(0);
    let mut c = repeated(choose(REPEATED), n);
    if param(1) == 1 {
        let len = c.len();
        let at = [0, 1, len / 2, len - 2, len - 1, len][choose(6) as usize];
        match choose(17) {
            16 => c.truncate(at),
            k => c.insert(at, CLASSES[k as usize]),
        }
    }
    let mut list = vec![];
    for (i, k) in c.iter().enumerate() {
        list.push(sample(*k, (i as u32 / 3 + param(2)) & 1));
    }
    judge(&list, &c);
}

/// any two kinds of instruction next to each other in any place that takes them
#[no_mangle]
pub fn h_layout_pair() {
    let n = (OPS.len() + BIN.len()) as u32;
    let set = 77;
    let mut all = vec![6 << 16 | 11, set, 0x4C534C47, 0x6474732E, 0x3035342E, 0];
    let mut cl = vec![];
    let mut push = |op: u16| {
        let mut w = crate::multi::shape(op, param(0) == 1, false, set);
        if op == 59 && choose(2) == 1 {
            w[2] = 7;
        }
        cl.push(class_of(op, if op == 59 { w[2] } else { 0 }));
        all.push((w.len() as u32 + 1) << 16 | op as u32);
        all.append(&mut w);
    };
    let (a, b) = (choose(n) as usize, choose(n) as usize);
    let op = |k: usize| if k < OPS.len() { OPS[k].0 } else { BIN[k - OPS.len()].0 };
    push(op(a));
    push(op(b));
    let m = match read_body(&all) {
        Ok(m) => m,
        Err(_) => {
            cover(9);
            return;
        }
    };
    if m.instructions.len() != 3 {
        cover(9);
        return;
    }
    // where the first one belongs in a whole module
    let mut c = FULL.to_vec();
    let mut at = 0;
    for (i, k) in FULL.iter().enumerate() {
        if *k == cl[0] {
            at = i;
        }
    }
    let mut list = vec![];
    for (i, k) in c.iter().enumerate() {
        list.push(sample(*k, i as u32 & 1));
    }
    c[at] = cl[0];
    list[at] = m.instructions[1].clone();
    c.insert(at + 1, cl[1]);
    list.insert(at + 1, m.instructions[2].clone());
    judge(&list, &c);
}

/// the same module shape with p0 and with p1 repetitions of one part needs the same stack
#[no_mangle]
pub fn h_layout_stack() {
    let which = choose(14);
    let mut d = [0u64; 2];
    for k in 0..2 {
        let c = repeated(which, param(k));
        let mut list = vec![];
        for x in c.iter() {
            list.push(concrete(*x));
        }
        let m = raw(&list);
        depth();
        let r = validate(m);
        d[k as usize] = depth();
        check(14, 2, r.is_ok() == (which != 13));
        cover(which);
    }
    check(14, 1, d[1] <= d[0] + 8 + param(1) as u64 / 8);
}
fn concrete(c: Cl) -> Core {
    match c {
        Capability => sample(c, 0),
        Extension => sample(c, 0),
        Import => Core::OpExtInstImport(OpExtInstImport { result_id: ResultId(1), name: "set".to_string() }),
        MemoryModel => sample(c, 0),
        Entry => Core::OpEntryPoint(OpEntryPoint {
            execution_model: ExecutionModel::Vertex,
            entry_point: OpId(1),
            name: "main".to_string(),
            interface: vec![],
        }),
        Mode => Core::OpExecutionMode(OpExecutionMode { entry_point: OpId(1), mode: ExecutionMode::Xfb }),
        Debug => Core::OpName(OpName { target: OpId(1), name: "n".to_string() }),
        Annotation => Core::OpDecorate(OpDecorate { target: OpId(1), decoration: Decoration::Flat }),
        Global => Core::OpTypeVoid(OpTypeVoid { result_id: ResultId(1) }),
        Function => Core::OpFunction(OpFunction {
            result_type: OpId(1),
            result_id: ResultId(1),
            function_control: FunctionControl { inline: false, dont_inline: false, pure_function: false, const_function: false },
            function_type: OpId(1),
        }),
        Parameter => Core::OpFunctionParameter(OpFunctionParameter { result_type: OpId(1), result_id: ResultId(1) }),
        End => Core::OpFunctionEnd(OpFunctionEnd),
        Label => Core::OpLabel(OpLabel { result_id: ResultId(1) }),
        Code => Core::OpNop(OpNop),
        Merge => sample(c, 0),
        Branch => Core::OpReturn(OpReturn),
    }
}
