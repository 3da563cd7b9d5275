//! Reference reading of SPIR-V instructions, written from the specification:
//! which operands each instruction has, what they look like in words and in text.
use crate::tables::*;
use crate::util::*;

/// enumerants without parameters
#[derive(Clone, Copy, PartialEq)]
pub enum E {
    AddressingModel,
    MemoryModel,
    ExecutionModel,
    Capability,
    Signedness,
    Dim,
    DepthStatus,
    Arrayed,
    MS,
    SampledStatus,
    ImageFormat,
    AccessQualifier,
    StorageClass,
    BuiltIn,
    FunctionParameterAttribute,
    FpRoundingMode,
    LinkageType,
}

impl E {
    pub fn names(self) -> &'static [&'static str] {
        match self {
            E::AddressingModel => N_ADDRESSING_MODEL,
            E::MemoryModel => N_MEMORY_MODEL,
            E::ExecutionModel => N_EXECUTION_MODEL,
            E::Capability => N_CAPABILITY,
            E::Signedness => N_SIGNEDNESS,
            E::Dim => N_DIM,
            E::DepthStatus => N_DEPTH_STATUS,
            E::Arrayed => N_ARRAYED,
            E::MS => N_MS,
            E::SampledStatus => N_SAMPLED_STATUS,
            E::ImageFormat => N_IMAGE_FORMAT,
            E::AccessQualifier => N_ACCESS_QUALIFIER,
            E::StorageClass => N_STORAGE_CLASS,
            E::BuiltIn => N_BUILT_IN,
            E::FunctionParameterAttribute => N_FUNCTION_PARAMETER_ATTRIBUTE,
            E::FpRoundingMode => N_FP_ROUNDING_MODE,
            E::LinkageType => N_LINKAGE_TYPE,
        }
    }
    /// numbers below the largest one that have no meaning
    fn gaps(self) -> &'static [u32] {
        match self {
            E::Capability => &[16, 26],
            E::BuiltIn => &[2, 21, 35],
            _ => &[],
        }
    }
    pub fn valid(self, n: u32) -> bool {
        let mut ok = n < self.names().len() as u32;
        for g in self.gaps() {
            ok &= n != *g;
        }
        ok
    }
    pub fn err(self) -> u32 {
        match self {
            E::AddressingModel => ek::AddressingModel,
            E::MemoryModel => ek::MemoryModel,
            E::ExecutionModel => ek::ExecutionModel,
            E::Capability => ek::Capability,
            E::Signedness => ek::Signedness,
            E::Dim => ek::Dim,
            E::DepthStatus => ek::DepthStatus,
            E::Arrayed => ek::Arrayed,
            E::MS => ek::MS,
            E::SampledStatus => ek::SampledStatus,
            E::ImageFormat => ek::ImageFormat,
            E::AccessQualifier => ek::AccessQualifier,
            E::StorageClass => ek::StorageClass,
            E::BuiltIn => ek::BuiltIn,
            E::FunctionParameterAttribute => ek::FunctionParameterAttribute,
            E::FpRoundingMode => ek::FpRoundingMode,
            E::LinkageType => ek::LinkageType,
        }
    }
}

/// operand kinds
#[derive(Clone, Copy, PartialEq)]
pub enum K {
    /// result id (printed in front)
    R,
    Id,
    Lit,
    Str,
    OptId,
    OptStr,
    Ids,
    Lits,
    Enum(E),
    OptEnum(E),
    Lang,
    Decoration,
    Mode,
    OptMemoryAccess,
    FunctionControl,
    LoopControl,
    SelectionControl,
    OptWeights,
    Phi,
    ExtInst,
}
use self::K::*;

pub type OpRow = (u16, &'static str, &'static [K]);

macro_rules! bin {
    ($($n:expr, $s:expr;)*) => { &[$(($n, $s, &[Id, R, Id, Id])),*] };
}

pub static OPS: &[OpRow] = &[
    (0, "OpNop", &[]),
    (1, "OpUndef", &[Id, R]),
    (2, "OpSourceContinued", &[Str]),
    (3, "OpSource", &[Lang, Lit, OptId, OptStr]),
    (4, "OpSourceExtension", &[Str]),
    (5, "OpName", &[Id, Str]),
    (6, "OpMemberName", &[Id, Lit, Str]),
    (7, "OpString", &[R, Str]),
    (10, "OpExtension", &[Str]),
    (11, "OpExtInstImport", &[R, Str]),
    (12, "OpExtInst", &[Id, R, Id, ExtInst]),
    (14, "OpMemoryModel", &[Enum(E::AddressingModel), Enum(E::MemoryModel)]),
    (15, "OpEntryPoint", &[Enum(E::ExecutionModel), Id, Str, Ids]),
    (16, "OpExecutionMode", &[Id, Mode]),
    (17, "OpCapability", &[Enum(E::Capability)]),
    (19, "OpTypeVoid", &[R]),
    (20, "OpTypeBool", &[R]),
    (21, "OpTypeInt", &[R, Lit, Enum(E::Signedness)]),
    (22, "OpTypeFloat", &[R, Lit]),
    (23, "OpTypeVector", &[R, Id, Lit]),
    (24, "OpTypeMatrix", &[R, Id, Lit]),
    (
        25,
        "OpTypeImage",
        &[
            R,
            Id,
            Enum(E::Dim),
            Enum(E::DepthStatus),
            Enum(E::Arrayed),
            Enum(E::MS),
            Enum(E::SampledStatus),
            Enum(E::ImageFormat),
            OptEnum(E::AccessQualifier),
        ],
    ),
    (26, "OpTypeSampler", &[R]),
    (27, "OpTypeSampledImage", &[R, Id]),
    (28, "OpTypeArray", &[R, Id, Id]),
    (29, "OpTypeRuntimeArray", &[R, Id]),
    (30, "OpTypeStruct", &[R, Ids]),
    (31, "OpTypeOpaque", &[R, Str]),
    (32, "OpTypePointer", &[R, Enum(E::StorageClass), Id]),
    (33, "OpTypeFunction", &[R, Id, Ids]),
    (43, "OpConstant", &[Id, R, Lits]),
    (44, "OpConstantComposite", &[Id, R, Ids]),
    (54, "OpFunction", &[Id, R, FunctionControl, Id]),
    (55, "OpFunctionParameter", &[Id, R]),
    (56, "OpFunctionEnd", &[]),
    (59, "OpVariable", &[Id, R, Enum(E::StorageClass), OptId]),
    (61, "OpLoad", &[Id, R, Id, OptMemoryAccess]),
    (62, "OpStore", &[Id, Id, OptMemoryAccess]),
    (65, "OpAccessChain", &[Id, R, Id, Ids]),
    (71, "OpDecorate", &[Id, Decoration]),
    (72, "OpMemberDecorate", &[Id, Lit, Decoration]),
    (112, "OpConvertUToF", &[Id, R, Id]),
    (124, "OpBitcast", &[Id, R, Id]),
    (245, "OpPhi", &[Id, R, Phi]),
    (246, "OpLoopMerge", &[Id, Id, LoopControl]),
    (247, "OpSelectionMerge", &[Id, SelectionControl]),
    (248, "OpLabel", &[R]),
    (249, "OpBranch", &[Id]),
    (250, "OpBranchConditional", &[Id, Id, Id, OptWeights]),
    (253, "OpReturn", &[]),
];

pub static BIN: &[OpRow] = bin! {
    128, "OpIAdd"; 129, "OpFAdd"; 130, "OpISub"; 131, "OpFSub"; 132, "OpIMul"; 133, "OpFMul";
    134, "OpUDiv"; 135, "OpSDiv"; 136, "OpFDiv"; 137, "OpUMod"; 138, "OpSRem"; 139, "OpSMod";
    140, "OpFRem"; 141, "OpFMod";
    149, "OpIAddCarry"; 150, "OpISubBorrow"; 151, "OpUMulExtended"; 152, "OpSMulExtended";
    170, "OpIEqual"; 171, "OpINotEqual"; 172, "OpUGreaterThan"; 173, "OpSGreaterThan";
    174, "OpUGreaterThanEqual"; 175, "OpSGreaterThanEqual"; 176, "OpULessThan"; 177, "OpSLessThan";
    178, "OpULessThanEqual"; 179, "OpSLessThanEqual"; 180, "OpFOrdEqual"; 181, "OpFUnordEqual";
    182, "OpFOrdNotEqual"; 183, "OpFUnordNotEqual"; 184, "OpFOrdLessThan"; 185, "OpFUnordLessThan";
    186, "OpFOrdGreaterThan"; 187, "OpFUnordGreaterThan"; 188, "OpFOrdLessThanEqual";
    189, "OpFUnordLessThanEqual"; 190, "OpFOrdGreaterThanEqual"; 191, "OpFUnordGreaterThanEqual";
    197, "OpBitwiseOr"; 198, "OpBitwiseXor"; 199, "OpBitwiseAnd";
};

/// instructions that only exist in the library's types, never in a module that was read
pub static TYPE_ONLY: &[OpRow] = &[
    (34, "OpTypeEvent", &[R]),
    (35, "OpTypeDeviceEvent", &[R]),
    (37, "OpTypeQueue", &[R]),
    (38, "OpTypePipe", &[R, Enum(E::AccessQualifier)]),
    (39, "OpTypeForwardPointer", &[Id, Enum(E::StorageClass)]),
];

/// the row of a (concrete) opcode
pub fn row(op: u16) -> Option<&'static OpRow> {
    for r in OPS.iter().chain(BIN.iter()) {
        if r.0 == op {
            return Some(r);
        }
    }
    None
}
pub fn row_any(op: u16) -> Option<&'static OpRow> {
    for r in TYPE_ONLY.iter() {
        if r.0 == op {
            return Some(r);
        }
    }
    row(op)
}
pub fn unimpl(op: u16) -> Option<&'static str> {
    for r in UNIMPL.iter() {
        if r.0 == op {
            return Some(r.1);
        }
    }
    None
}
/// is this (symbolic) opcode one of those with a row or a name; no branching on it
pub fn known(op: u16) -> bool {
    let mut k = false;
    for r in OPS.iter() {
        k |= r.0 == op;
    }
    for r in BIN.iter() {
        k |= r.0 == op;
    }
    for r in UNIMPL.iter() {
        k |= r.0 == op;
    }
    k
}
/// the name the disassembly uses, for supported and unsupported instructions
pub fn has_string(op: u16) -> bool {
    matches!(op, 2 | 3 | 4 | 5 | 6 | 7 | 10 | 11 | 15 | 31)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Id(u32),
    Lit(u32),
    Str(Vec<u8>),
    Name(&'static str),
    /// unnamed source language
    Other(u32),
    /// mask: names of the bits that are set, with the value one of them carries
    Mask(Vec<(&'static str, Option<u32>)>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Inst {
    pub op: u16,
    pub name: &'static str,
    pub result: Option<u32>,
    pub toks: Vec<Tok>,
    /// the words with the padding behind strings cleared
    pub words: Vec<u32>,
}

pub struct Rd<'a> {
    pub w: &'a [u32],
    pub at: usize,
    pub canon: Vec<u32>,
}

pub type Res<T> = Result<T, Err>;

impl<'a> Rd<'a> {
    pub fn left(&self) -> usize {
        self.w.len() - self.at
    }
    pub fn word(&mut self) -> Res<u32> {
        if self.at < self.w.len() {
            let v = self.w[self.at];
            self.at += 1;
            self.canon.push(v);
            Ok(v)
        } else {
            Err(err(ek::EndOfInst))
        }
    }
    pub fn string(&mut self) -> Res<Vec<u8>> {
        let mut s = vec![];
        loop {
            if self.at >= self.w.len() {
                return Err(err(ek::EndOfInst));
            }
            let v = self.w[self.at];
            self.at += 1;
            let mut keep = 0u32;
            let mut done = false;
            for b in 0..4 {
                let c = (v >> (8 * b)) as u8;
                if c == 0 {
                    done = true;
                    break;
                }
                keep |= (c as u32) << (8 * b);
                s.push(c);
            }
            self.canon.push(keep);
            if done {
                break;
            }
        }
        if !utf8(&s) {
            return Err(err(ek::InvalidString));
        }
        Ok(s)
    }
    fn enumerant(&mut self, e: E) -> Res<Tok> {
        let n = self.word()?;
        if e.valid(n) {
            Ok(Tok::Name(name_of(e, n)))
        } else {
            Err(err1(e.err(), n))
        }
    }
    fn mask(&mut self, names: &'static [&'static str], kind: u32, valued: Option<usize>) -> Res<Tok> {
        let n = self.word()?;
        if n >> names.len() != 0 {
            return Err(err1(kind, n));
        }
        let mut v = vec![];
        for (i, s) in names.iter().enumerate() {
            if n >> i & 1 == 1 {
                let val = if valued == Some(i) { Some(self.word()?) } else { None };
                v.push((*s, val));
            }
        }
        Ok(Tok::Mask(v))
    }
}

/// names are looked up only when text is wanted: the enumerant then has one value
fn name_of(e: E, n: u32) -> &'static str {
    if unsafe { !WANT_TEXT } {
        return "";
    }
    e.names()[crate::sym::conc(n) as usize]
}
pub static mut WANT_TEXT: bool = false;

/// RFC 3629, written from its table
pub fn utf8(s: &[u8]) -> bool {
    let mut i = 0;
    while i < s.len() {
        let a = s[i];
        if a < 0x80 {
            i += 1;
            continue;
        }
        let at = |k: usize| if i + k < s.len() { s[i + k] } else { 0 };
        let cont = |b: u8| b & 0xC0 == 0x80;
        let n = if a >= 0xC2 && a <= 0xDF {
            1
        } else if a >= 0xE0 && a <= 0xEF {
            let b = at(1);
            if a == 0xE0 && b < 0xA0 || a == 0xED && b > 0x9F {
                return false;
            }
            2
        } else if a >= 0xF0 && a <= 0xF4 {
            let b = at(1);
            if a == 0xF0 && b < 0x90 || a == 0xF4 && b > 0x8F {
                return false;
            }
            3
        } else {
            return false;
        };
        for k in 1..n + 1 {
            if !cont(at(k)) {
                return false;
            }
        }
        i += n + 1;
    }
    true
}

/// parameters of the decorations that have any
fn decoration(r: &mut Rd, t: &mut Vec<Tok>) -> Res<()> {
    let n = r.word()?;
    let mut ok = n < N_DECORATION.len() as u32;
    ok &= n != 12;
    ok &= n != 27;
    if !ok {
        return Err(err1(ek::Decoration, n));
    }
    let lit = n == 1 || n == 6 || n == 7 || (n >= 29 && n <= 37) || n == 43 || n == 44;
    t.push(Tok::Name(if unsafe { WANT_TEXT } { N_DECORATION[crate::sym::conc(n) as usize] } else { "" }));
    if lit {
        let v = r.word()?;
        t.push(Tok::Lit(v));
    } else if n == 11 {
        let e = r.enumerant(E::BuiltIn)?;
        t.push(e);
    } else if n == 38 {
        let e = r.enumerant(E::FunctionParameterAttribute)?;
        t.push(e);
    } else if n == 39 {
        let e = r.enumerant(E::FpRoundingMode)?;
        t.push(e);
    } else if n == 40 {
        let e = r.mask(&["NotNaN", "NotInf", "NSZ", "AllowRecip", "Fast"], ek::FpFastMathMode, None)?;
        t.push(e);
    } else if n == 41 {
        let s = r.string()?;
        t.push(Tok::Str(s));
        let e = r.enumerant(E::LinkageType)?;
        t.push(e);
    }
    Ok(())
}

fn mode(r: &mut Rd, t: &mut Vec<Tok>) -> Res<()> {
    let n = r.word()?;
    let mut ok = n < N_EXECUTION_MODE.len() as u32;
    ok &= n != 13;
    if !ok {
        return Err(err1(ek::ExecutionMode, n));
    }
    t.push(Tok::Name(if unsafe { WANT_TEXT } { N_EXECUTION_MODE[crate::sym::conc(n) as usize] } else { "" }));
    if n == 0 || n == 26 {
        let v = r.word()?;
        t.push(Tok::Lit(v));
    } else if n == 17 || n == 18 {
        for _ in 0..3 {
            let v = r.word()?;
            t.push(Tok::Lit(v));
        }
    } else if n == 30 {
        let v = r.word()?;
        t.push(Tok::Id(v));
    }
    Ok(())
}

/// how the extended instruction sets of a harness read their instructions
pub type ExtRead = fn(set: u32, inst: u32, r: &mut Rd, t: &mut Vec<Tok>) -> Res<()>;

pub fn glsl(_set: u32, inst: u32, r: &mut Rd, t: &mut Vec<Tok>) -> Res<()> {
    if inst == 13 {
        t.push(Tok::Name("Sin"));
    } else if inst == 14 {
        t.push(Tok::Name("Cos"));
    } else {
        return Err(Err { kind: ek::ExtInstOp, a: inst, b: 0, s: "GLSL.std.450".to_string() });
    }
    let v = r.word()?;
    t.push(Tok::Id(v));
    Ok(())
}

/// state of a module being read
pub struct Env {
    pub names: &'static [&'static str],
    pub read: ExtRead,
    pub bound: Vec<(u32, u32)>,
    /// the registered sets (indices of `names`), all when not given
    pub avail: Option<Vec<u32>>,
}

impl Env {
    pub fn new() -> Env {
        Env { names: &["GLSL.std.450"], read: glsl, bound: vec![], avail: None }
    }
}

/// read the operands (without the first word) of one instruction with a concrete opcode
pub fn parse(op: u16, operands: &[u32], env: &mut Env) -> Res<Inst> {
    let row = match row_any(op) {
        Some(r) => r,
        None => {
            return Err(match unimpl(op) {
                Some(n) => errs(ek::Unimpl, n),
                None => Err { kind: ek::Op, a: op as u32, b: operands.len() as u32 + 1, s: String::new() },
            })
        }
    };
    let mut r = Rd { w: operands, at: 0, canon: vec![] };
    let mut t = vec![];
    let mut result = None;
    for k in row.2 {
        match *k {
            R => result = Some(r.word()?),
            Id => t.push(Tok::Id(r.word()?)),
            Lit => t.push(Tok::Lit(r.word()?)),
            Str => t.push(Tok::Str(r.string()?)),
            OptId => {
                if r.left() > 0 {
                    t.push(Tok::Id(r.word()?));
                }
            }
            OptStr => {
                if r.left() > 0 {
                    t.push(Tok::Str(r.string()?));
                }
            }
            Ids => {
                while r.left() > 0 {
                    t.push(Tok::Id(r.word()?));
                }
            }
            Lits => {
                while r.left() > 0 {
                    t.push(Tok::Lit(r.word()?));
                }
            }
            Enum(e) => t.push(r.enumerant(e)?),
            OptEnum(e) => {
                if r.left() > 0 {
                    t.push(r.enumerant(e)?);
                }
            }
            Lang => {
                let n = r.word()?;
                if n < 5 {
                    t.push(Tok::Name(if unsafe { WANT_TEXT } {
                        N_SOURCE_LANGUAGE[crate::sym::conc(n) as usize]
                    } else {
                        ""
                    }));
                } else {
                    t.push(Tok::Other(n));
                }
            }
            Decoration => decoration(&mut r, &mut t)?,
            Mode => mode(&mut r, &mut t)?,
            OptMemoryAccess => {
                if r.left() > 0 {
                    t.push(r.mask(&["Volatile", "Aligned", "Nontemporal"], ek::MemoryAccess, Some(1))?);
                }
            }
            FunctionControl => {
                t.push(r.mask(&["Inline", "DontInline", "Pure", "Const"], ek::FunctionControl, None)?)
            }
            LoopControl => t.push(r.mask(
                &["Unroll", "DontUnroll", "DependencyInfinite", "DependencyLength"],
                ek::LoopControl,
                Some(3),
            )?),
            SelectionControl => t.push(r.mask(&["Flatten", "DontFlatten"], ek::SelectionControl, None)?),
            OptWeights => {
                if r.left() > 0 {
                    t.push(Tok::Lit(r.word()?));
                    t.push(Tok::Lit(r.word()?));
                }
            }
            Phi => {
                while r.left() > 0 {
                    t.push(Tok::Id(r.word()?));
                    t.push(Tok::Id(r.word()?));
                }
            }
            ExtInst => {
                let set = match t[1] {
                    Tok::Id(i) => i,
                    _ => 0,
                };
                let inst = r.word()?;
                let mut found = None;
                for (id, s) in env.bound.iter() {
                    if *id == set {
                        found = Some(*s);
                    }
                }
                match found {
                    Some(s) => (env.read)(s, inst, &mut r, &mut t)?,
                    None => return Err(err1(ek::InstSetId, set)),
                }
            }
        }
    }
    if op == 11 {
        let id = result.unwrap_or(0);
        let s = match t[0] {
            Tok::Str(ref s) => s.clone(),
            _ => vec![],
        };
        let mut which = None;
        for (i, n) in env.names.iter().enumerate() {
            let there = match env.avail {
                Some(ref a) => a.contains(&(i as u32)),
                None => true,
            };
            if there && which.is_none() && n.as_bytes() == &s[..] {
                which = Some(i as u32);
            }
        }
        match which {
            Some(i) => {
                for (b, _) in env.bound.iter() {
                    if *b == id {
                        return Err(err1(ek::Duplicate, id));
                    }
                }
                env.bound.push((id, i));
            }
            None => {
                let e = unsafe { String::from_utf8_unchecked(s) };
                return Err(Err { kind: ek::InstSet, a: 0, b: 0, s: e });
            }
        }
    }
    if r.left() > 0 {
        return Err(err(ek::Excess));
    }
    let mut words = vec![(operands.len() as u32 + 1) << 16 | op as u32];
    words.extend_from_slice(&r.canon);
    Ok(Inst { op, name: row.1, result, toks: t, words })
}

/// read a whole stream of instruction words (every opcode concrete) followed by `extra` bytes
pub fn parse_stream(words: &[u32], extra: usize, env: &mut Env) -> Res<Vec<Inst>> {
    let mut out = vec![];
    let mut at = 0;
    let cut = if extra > 0 { ek::Alignment } else { ek::EndOfStream };
    loop {
        if at == words.len() {
            if extra > 0 {
                return Err(err(ek::Alignment));
            }
            return Ok(out);
        }
        let head = words[at];
        let wc = head >> 16;
        if wc == 0 {
            return Err(err(ek::WordCount));
        }
        if wc > (words.len() - at) as u32 {
            return Err(err(cut));
        }
        let wc = crate::sym::conc(wc) as usize;
        let op = crate::sym::conc(head & 0xFFFF) as u16;
        out.push(parse(op, &words[at + 1..at + wc], env)?);
        at += wc;
    }
}

/// the text of one instruction
pub fn render(i: &Inst) -> String {
    let mut s = match i.result {
        Some(r) => {
            let id = format!("%{}", r);
            let mut p = String::new();
            for _ in id.len()..12 {
                p.push(' ');
            }
            p.push_str(&id);
            p.push_str(" = ");
            p
        }
        None => "               ".to_string(),
    };
    s.push_str(i.name);
    for t in &i.toks {
        s.push(' ');
        match t {
            Tok::Id(n) => {
                s.push('%');
                s.push_str(&n.to_string());
            }
            Tok::Lit(n) => s.push_str(&n.to_string()),
            Tok::Str(b) => {
                s.push('"');
                s.push_str(unsafe { std::str::from_utf8_unchecked(b) });
                s.push('"');
            }
            Tok::Name(n) => s.push_str(n),
            Tok::Other(n) => {
                s.push_str("Unknown(");
                s.push_str(&n.to_string());
                s.push(')');
            }
            Tok::Mask(m) => s.push_str(&mask_text(m)),
        }
    }
    s
}

pub fn mask_text(m: &[(&'static str, Option<u32>)]) -> String {
    if m.is_empty() {
        return "None".to_string();
    }
    let mut s = String::new();
    for (k, (n, v)) in m.iter().enumerate() {
        if k > 0 {
            s.push_str(" | ");
        }
        s.push_str(n);
        if let Some(v) = v {
            s.push('(');
            s.push_str(&v.to_string());
            s.push(')');
        }
    }
    s
}
