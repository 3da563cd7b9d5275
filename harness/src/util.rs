use magmaflow::spv::raw::{read_module, RawModule, ReadError};
use magmaflow::spv::types::OpId;
use magmaflow::spv::ExtInstSet;

pub fn sets() -> Vec<Box<dyn ExtInstSet>> {
    vec![Box::new(magmaflow::glsl450::InstSet)]
}

pub const HEADER: [u32; 5] = [0x07230203, 0x00010000, 0x00080001, 100, 0];

pub fn bytes_le(words: &[u32]) -> Vec<u8> {
    let mut b = Vec::with_capacity(words.len() * 4);
    for w in words {
        b.extend_from_slice(&w.to_le_bytes());
    }
    b
}
pub fn bytes_be(words: &[u32]) -> Vec<u8> {
    let mut b = Vec::with_capacity(words.len() * 4);
    for w in words {
        b.extend_from_slice(&w.to_be_bytes());
    }
    b
}

/// read a module made of a valid header and the given instruction words
pub fn read_body(words: &[u32]) -> Result<RawModule, ReadError> {
    let mut all = HEADER.to_vec();
    all.extend_from_slice(words);
    read_module(&bytes_le(&all), sets())
}

/// error kind and payload, independent of the error type's own equality
#[derive(Debug, Clone, PartialEq)]
pub struct Err {
    pub kind: u32,
    pub a: u32,
    pub b: u32,
    pub s: String,
}

pub fn err(kind: u32) -> Err {
    Err { kind, a: 0, b: 0, s: String::new() }
}
pub fn err1(kind: u32, a: u32) -> Err {
    Err { kind, a, b: 0, s: String::new() }
}
pub fn errs(kind: u32, s: &str) -> Err {
    Err { kind, a: 0, b: 0, s: s.to_string() }
}

macro_rules! kinds {
    ($($n:ident = $v:expr;)*) => { pub mod ek { $(#[allow(non_upper_case_globals, dead_code)] pub const $n: u32 = $v;)* } };
}
kinds! {
    EndOfStream = 1; Alignment = 2; BadMagic = 3; VersionBytes = 4; Version = 5; Schema = 6;
    Op = 7; Unimpl = 8; WordCount = 9; InvalidString = 10; EndOfInst = 11; Excess = 12;
    InstSet = 13; InstSetId = 14; ExtInstOp = 15; Duplicate = 16;
    AddressingModel = 20; MemoryModel = 21; ExecutionModel = 22; ExecutionMode = 23; Capability = 24;
    Decoration = 25; BuiltIn = 26; FpRoundingMode = 27; FpFastMathMode = 28; LinkageType = 29;
    Signedness = 30; StorageClass = 31; FunctionParameterAttribute = 32; MemoryAccess = 33; Dim = 34;
    DepthStatus = 35; Arrayed = 36; MS = 37; SampledStatus = 38; ImageFormat = 39; AccessQualifier = 40;
    LoopControl = 41; SelectionControl = 42; FunctionControl = 43;
}

pub fn conv(e: &ReadError) -> Err {
    use magmaflow::spv::raw::ReadError::*;
    match *e {
        UnexpectedEndOfStream => err(ek::EndOfStream),
        UnexpectedStreamAlignment => err(ek::Alignment),
        BadMagic => err(ek::BadMagic),
        UnknownVersionBytes(a, b, c, d) => {
            err1(ek::VersionBytes, (a as u32) << 24 | (b as u32) << 16 | (c as u32) << 8 | d as u32)
        }
        UnknownVersion(ref v) => err1(ek::Version, (v.0 as u32) << 8 | v.1 as u32),
        UnknownReservedSchema => err(ek::Schema),
        UnknownOp(a, b) => Err { kind: ek::Op, a: a as u32, b: b as u32, s: String::new() },
        UnimplementedOp(s) => errs(ek::Unimpl, s),
        WrongWordCountForOp => err(ek::WordCount),
        InvalidString => err(ek::InvalidString),
        UnexpectedEndOfInstruction => err(ek::EndOfInst),
        InstructionHadExcessData => err(ek::Excess),
        UnknownInstSet(ref s) => errs(ek::InstSet, s),
        UnknownInstSetId(OpId(i)) => err1(ek::InstSetId, i),
        UnknownExtInstOp(s, n) => Err { kind: ek::ExtInstOp, a: n, b: 0, s: s.to_string() },
        DuplicateResultId(ref r) => err1(ek::Duplicate, r.0),
        UnknownAddressingModel(n) => err1(ek::AddressingModel, n),
        UnknownMemoryModel(n) => err1(ek::MemoryModel, n),
        UnknownExecutionModel(n) => err1(ek::ExecutionModel, n),
        UnknownExecutionMode(n) => err1(ek::ExecutionMode, n),
        UnknownCapability(n) => err1(ek::Capability, n),
        UnknownDecoration(n) => err1(ek::Decoration, n),
        UnknownBuiltIn(n) => err1(ek::BuiltIn, n),
        UnknownFpRoundingMode(n) => err1(ek::FpRoundingMode, n),
        UnknownFpFastMathMode(n) => err1(ek::FpFastMathMode, n),
        UnknownLinkageType(n) => err1(ek::LinkageType, n),
        UnknownSignedness(n) => err1(ek::Signedness, n),
        UnknownStorageClass(n) => err1(ek::StorageClass, n),
        UnknownFunctionParameterAttribute(n) => err1(ek::FunctionParameterAttribute, n),
        UnknownMemoryAccess(n) => err1(ek::MemoryAccess, n),
        UnknownDim(n) => err1(ek::Dim, n),
        UnknownDepthStatus(n) => err1(ek::DepthStatus, n),
        UnknownArrayed(n) => err1(ek::Arrayed, n),
        UnknownMS(n) => err1(ek::MS, n),
        UnknownSampledStatus(n) => err1(ek::SampledStatus, n),
        UnknownImageFormat(n) => err1(ek::ImageFormat, n),
        UnknownAccessQualifier(n) => err1(ek::AccessQualifier, n),
        UnknownFunctionControl(n) => err1(ek::FunctionControl, n),
        UnknownLoopControl(n) => err1(ek::LoopControl, n),
        UnknownSelectionControl(n) => err1(ek::SelectionControl, n),
        #[allow(unreachable_patterns)]
        _ => err(99),
    }
}
