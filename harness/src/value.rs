//! C25: instructions the library defines but cannot read, built by hand: their line.
use crate::display::{num, same_text};
use crate::spec::{render, Inst, Tok};
use crate::sym::*;
use crate::tables::*;
use crate::util::*;
use magmaflow::spv::op::*;
use magmaflow::spv::raw::{Core, RawModule};
use magmaflow::spv::types::*;

/// what has been put into the instruction so far
struct X {
    class: u32,
    count: u32,
    any: u32,
    result: Option<u32>,
    toks: Vec<Tok>,
}

trait Field {
    type V;
    fn make(x: &mut X) -> Self::V;
}

macro_rules! field {
    ($name:ident, $v:ty, $x:ident => $e:expr) => {
        struct $name;
        impl Field for $name {
            type V = $v;
            fn make($x: &mut X) -> $v {
                $e
            }
        }
    };
}
fn number(x: &mut X) -> u32 {
    x.count += 1;
    if x.count == x.any {
        // all 32-bit values at one place
        u32v()
    } else {
        num(x.class)
    }
}
field!(Id, OpId, x => {
    let n = number(x);
    x.toks.push(Tok::Id(n));
    OpId(n)
});
field!(R, ResultId, x => {
    let n = number(x);
    x.result = Some(n);
    ResultId(n)
});
fn list<T>(x: &mut X, f: fn(&mut X) -> T) -> Vec<T> {
    let mut v = vec![];
    let n = if param(1) > 0 { param(1) } else { choose(4) };
    for _ in 0..n {
        v.push(f(x));
    }
    v
}
field!(Ids, Vec<OpId>, x => list(x, Id::make));
/// ids, whatever type the field has
struct Parts;
trait Part {
    fn part(n: u32) -> Self;
}
impl Part for OpId {
    fn part(n: u32) -> OpId {
        OpId(n)
    }
}
impl Part for MemberIndex {
    fn part(n: u32) -> MemberIndex {
        MemberIndex(n)
    }
}
impl Parts {
    fn make<T: Part>(x: &mut X) -> Vec<T> {
        list(x, |x| T::part(Id::make(x).0))
    }
}
fn lit(x: &mut X) -> u32 {
    let n = number(x);
    x.toks.push(Tok::Lit(n));
    n
}
field!(Index, MemberIndex, x => MemberIndex(lit(x)));
field!(Indexes, Vec<MemberIndex>, x => list(x, Index::make));
field!(LineNo, Line, x => Line(lit(x)));
field!(ColumnNo, Column, x => Column(lit(x)));
field!(Words, LitBytes, x => list(x, lit));
field!(Access, Option<MemoryAccess>, x => {
    if choose(2) == 0 {
        None
    } else {
        let k = choose(8);
        let mut m = vec![];
        let mut a = MemoryAccess { volatile: k & 1 != 0, aligned: None, non_temporal: k & 4 != 0 };
        if k & 1 != 0 {
            m.push(("Volatile", None));
        }
        if k & 2 != 0 {
            let n = number(x);
            a.aligned = Some(n);
            m.push(("Aligned", Some(n)));
        }
        if k & 4 != 0 {
            m.push(("Nontemporal", None));
        }
        x.toks.push(Tok::Mask(m));
        Some(a)
    }
});
fn pick<T: Clone>(x: &mut X, all: &[(T, &'static str)]) -> T {
    let k = choose(all.len() as u32) as usize;
    x.toks.push(Tok::Name(all[k].1));
    all[k].0.clone()
}
field!(Storage, StorageClass, x => {
    use StorageClass::*;
    let all = [UniformConstant, Input, Uniform, Output, Workgroup, CrossWorkgroup, Private, Function, Generic, PushConstant, AtomicCounter, Image];
    let k = choose(12) as usize;
    x.toks.push(Tok::Name(N_STORAGE_CLASS[k]));
    all[k].clone()
});
field!(Qualifier, AccessQualifier, x => pick(x, &[
    (AccessQualifier::ReadOnly, "ReadOnly"), (AccessQualifier::WriteOnly, "WriteOnly"), (AccessQualifier::ReadWrite, "ReadWrite"),
]));
field!(Addressing, SamplerAddressingMode, x => pick(x, &[
    (SamplerAddressingMode::None, "None"), (SamplerAddressingMode::ClampToEdge, "ClampToEdge"),
    (SamplerAddressingMode::Clamp, "Clamp"), (SamplerAddressingMode::Repeat, "Repeat"),
    (SamplerAddressingMode::RepeatMirrored, "RepeatMirrored"),
]));
field!(Param, SamplerParam, x => pick(x, &[(SamplerParam::NonNormalized, "0"), (SamplerParam::Normalized, "1")]));
field!(Filter, SamplerFilterMode, x => pick(x, &[(SamplerFilterMode::Nearest, "Nearest"), (SamplerFilterMode::Linear, "Linear")]));

fn judge(k: u32, name: &'static str, x: X, text: String) {
    let want = render(&Inst { op: 0, name, result: x.result, toks: x.toks, words: vec![] });
    dump(|| format!("printed  {}|\n  expected {}|", text, want));
    check(25, 1, same_text(&text, &want));
    for b in text.bytes() {
        obs(b as u64);
    }
    cover(100 + k);
}

fn module(i: Core) -> RawModule {
    RawModule {
        version: Version(1, 0),
        generator: Generator { tool: Tool::Other(77), version: 5 },
        bound: 9,
        instructions: vec![i],
    }
}

macro_rules! wrapped {
    ($name:ident $v:ident $text:ident core) => {{
        let i = Core::$name($v);
        check(25, 3, i.to_string() == $text);
        let m = module(i);
        let mut want = String::from("; SPIR-V\n; Version: 1.0\n; Generator: Unknown; 5\n; Bound: 9\n; Schema: 0\n");
        want.push_str(&$text);
        want.push('\n');
        check(25, 4, m.to_string() == want);
        check(25, 5, m == m.clone());
    }};
    ($name:ident $v:ident $text:ident) => {};
}

macro_rules! values {
    ($($name:ident {$($f:ident: $t:ident),*} $($core:ident)?;)*) => {
        /// p0: numbers of one digit (0), ten digits (1); p1: the length of lists (0: any up to 3);
        /// p2: how many places can be the one with any number
        #[no_mangle]
        pub fn h_text_value() {
            let names: &[&str] = &[$(stringify!($name)),*];
            let k = choose(names.len() as u32);
            let mut at = 0;
            $(
                if k == at {
                    let mut x = X { class: param(0), count: 0, any: if param(2) > 0 { 1 + choose(param(2)) } else { 0 }, result: None, toks: vec![] };
                    let v = $name { $($f: $t::make(&mut x)),* };
                    check(25, 2, v == v.clone());
                    let text = v.to_string();
                    wrapped!($name v text $($core)?);
                    judge(k, stringify!($name), x, text);
                    return;
                }
                at += 1;
            )*
            let _ = at;
        }
    };
}
values! {
    OpLine {file: Id, line: LineNo, column: ColumnNo};
    OpNoLine {};
    OpDecorationGroup {result_id: R};
    OpGroupDecorate {decoration_group: Id, targets: Ids};
    OpTypeEvent {result_id: R} core;
    OpTypeDeviceEvent {result_id: R} core;
    OpTypeReserveId {result_id: R};
    OpTypeQueue {result_id: R} core;
    OpTypePipe {result_id: R, access_qualifier: Qualifier} core;
    OpTypeForwardPointer {pointer_type: Id, storage_class: Storage} core;
    OpConstantTrue {result_type: Id, result_id: R};
    OpConstantFalse {result_type: Id, result_id: R};
    OpConstantSampler {result_type: Id, result_id: R, addressing_mode: Addressing, param: Param, filter_mode: Filter};
    OpConstantNull {result_type: Id, result_id: R};
    OpSpecConstantTrue {result_type: Id, result_id: R};
    OpSpecConstantFalse {result_type: Id, result_id: R};
    OpSpecConstant {result_type: Id, result_id: R, value: Words};
    OpSpecConstantComposite {result_type: Id, result_id: R, constituents: Ids};
    OpImageTexelPointer {result_type: Id, result_id: R, image: Id, coordinate: Id, sample: Id};
    OpCopyMemory {target: Id, source: Id, memory_access: Access};
    OpCopyMemorySized {target: Id, source: Id, size: Id, memory_access: Access};
    OpInBoundsAccessChain {result_type: Id, result_id: R, base: Id, indexes: Ids};
    OpPtrAccessChain {result_type: Id, result_id: R, base: Id, element: Id, indexes: Ids};
    OpArrayLength {result_type: Id, result_id: R, structure: Id, array_member: Index};
    OpGenericPtrMemSemantics {result_type: Id, result_id: R, pointer: Id};
    OpInBoundsPtrAccessChain {result_type: Id, result_id: R, base: Id, element: Id, indexes: Ids};
    OpFunctionCall {result_type: Id, result_id: R, function: Id, arguments: Ids};
    OpSampledImage {result_type: Id, result_id: R, image: Id, sampler: Id};
    OpConvertFToU {result_type: Id, result_id: R, float_value: Id};
    OpConvertFToS {result_type: Id, result_id: R, float_value: Id};
    OpConvertSToF {result_type: Id, result_id: R, signed_value: Id};
    OpUConvert {result_type: Id, result_id: R, unsigned_value: Id};
    OpSConvert {result_type: Id, result_id: R, signed_value: Id};
    OpFConvert {result_type: Id, result_id: R, float_value: Id};
    OpQuantizeToF16 {result_type: Id, result_id: R, value: Id};
    OpConvertPtrToU {result_type: Id, result_id: R, pointer: Id};
    OpSatConvertSToU {result_type: Id, result_id: R, signed_value: Id};
    OpSatConvertUToS {result_type: Id, result_id: R, unsigned_value: Id};
    OpConvertUToPtr {result_type: Id, result_id: R, integer_value: Id};
    OpPtrCastToGeneric {result_type: Id, result_id: R, pointer: Id};
    OpGenericCastToPtr {result_type: Id, result_id: R, pointer: Id};
    OpGenericCastToPtrExplicit {result_type: Id, result_id: R, pointer: Id, storage_class: Storage};
    OpVectorExtractDynamic {result_type: Id, result_id: R, vector: Id, index: Id};
    OpVectorInsertDynamic {result_type: Id, result_id: R, vector: Id, component: Id, index: Id};
    OpVectorShuffle {result_type: Id, result_id: R, operand1: Id, operand2: Id, components: Indexes};
    OpCompositeConstruct {result_type: Id, result_id: R, constituents: Parts};
    OpCompositeExtract {result_type: Id, result_id: R, composite: Id, indexes: Indexes};
    OpCompositeInsert {result_type: Id, result_id: R, object: Id, composite: Id, indexes: Indexes};
    OpCopyObject {result_type: Id, result_id: R, operand: Id};
    OpTranspose {result_type: Id, result_id: R, matrix: Id};
    OpSNegate {result_type: Id, result_id: R, operand: Id};
    OpFNegate {result_type: Id, result_id: R, operand: Id};
    OpVectorTimesScalar {result_type: Id, result_id: R, vector: Id, scalar: Id};
    OpMatrixTimesScalar {result_type: Id, result_id: R, matrix: Id, scalar: Id};
    OpVectorTimesMatrix {result_type: Id, result_id: R, vector: Id, matrix: Id};
    OpMatrixTimesVector {result_type: Id, result_id: R, matrix: Id, vector: Id};
    OpMatrixTimesMatrix {result_type: Id, result_id: R, left_matrix: Id, right_matrix: Id};
    OpOuterProduct {result_type: Id, result_id: R, vector1: Id, vector2: Id};
    OpDot {result_type: Id, result_id: R, vector1: Id, vector2: Id};
    OpShiftRightLogical {result_type: Id, result_id: R, base: Id, shift: Id};
    OpShiftRightArithmetic {result_type: Id, result_id: R, base: Id, shift: Id};
    OpShiftLeftLogical {result_type: Id, result_id: R, base: Id, shift: Id};
    OpNot {result_type: Id, result_id: R, operand: Id};
}
