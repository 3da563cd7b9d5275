//! Writes a decoded instruction back as words, field by field, in the order of the specification.
use magmaflow::glsl450;
use magmaflow::spv::op::*;
use magmaflow::spv::raw::Core;
use magmaflow::spv::types::*;
use magmaflow::spv::ExtInstBox;

pub trait W {
    fn w(&self, o: &mut Vec<u32>);
}
impl W for OpId {
    fn w(&self, o: &mut Vec<u32>) {
        o.push(self.0)
    }
}
impl W for ResultId {
    fn w(&self, o: &mut Vec<u32>) {
        o.push(self.0)
    }
}
impl W for u32 {
    fn w(&self, o: &mut Vec<u32>) {
        o.push(*self)
    }
}
impl W for MemberIndex {
    fn w(&self, o: &mut Vec<u32>) {
        o.push(self.0)
    }
}
impl W for SourceVersion {
    fn w(&self, o: &mut Vec<u32>) {
        o.push(self.0)
    }
}
impl W for String {
    fn w(&self, o: &mut Vec<u32>) {
        let b = self.as_bytes();
        let mut i = 0;
        loop {
            let mut v = 0u32;
            for k in 0..4 {
                if i + k < b.len() {
                    v |= (b[i + k] as u32) << (8 * k);
                }
            }
            o.push(v);
            if i + 4 > b.len() {
                break;
            }
            i += 4;
        }
    }
}
impl<T: W> W for Vec<T> {
    fn w(&self, o: &mut Vec<u32>) {
        for x in self {
            x.w(o)
        }
    }
}
impl<T: W> W for Option<T> {
    fn w(&self, o: &mut Vec<u32>) {
        if let Some(x) = self {
            x.w(o)
        }
    }
}
macro_rules! num {
    ($t:ident: $($v:ident = $n:expr),*) => {
        impl W for $t {
            fn w(&self, o: &mut Vec<u32>) {
                #[allow(unreachable_patterns)]
                o.push(match *self { $($t::$v => $n,)* _ => 0xBAD0 });
            }
        }
    };
}
num!(AddressingModel: Logical = 0, Physical32 = 1, Physical64 = 2);
num!(MemoryModel: Simple = 0, Glsl450 = 1, OpenCL = 2);
num!(ExecutionModel: Vertex = 0, TesselationControl = 1, TesselationEvaluation = 2, Geometry = 3, Fragment = 4, GlCompute = 5, Kernel = 6);
num!(Capability: Matrix = 0, Shader = 1, Geometry = 2, Tessellation = 3, Addresses = 4, Linkage = 5, Kernel = 6, Vector16 = 7, Float16Buffer = 8, Float16 = 9, Float64 = 10, Int64 = 11, Int64Atomics = 12, ImageBasic = 13, ImageReadWrite = 14, ImageMipmap = 15, Pipes = 17, Groups = 18, DeviceEnqueue = 19, LiteralSampler = 20, AtomicStorage = 21, Int16 = 22, TessellationPointSize = 23, GeometryPointSize = 24, ImageGatherExtended = 25, StorageImageMultisample = 27, UniformBufferArrayDynamicIndexing = 28, SampledImageArrayDynamicIndexing = 29, StorageBufferArrayDynamicIndexing = 30, StorageImageArrayDynamicIndexing = 31, ClipDistance = 32, CullDistance = 33, ImageCubeArray = 34, SampleRateShading = 35, ImageRect = 36, SampledRect = 37, GenericPointer = 38, Int8 = 39, InputAttachment = 40, SparseResidency = 41, MinLod = 42, Sampled1D = 43, Image1D = 44, SampledCubeArray = 45, SampledBuffer = 46, ImageBuffer = 47, ImageMSArray = 48, StorageImageExtendedFormats = 49, ImageQuery = 50, DerivativeControl = 51, InterpolationFunction = 52, TransformFeedback = 53, GeometryStreams = 54, StorageImageReadWithoutFormat = 55, StorageImageWriteWithoutFormat = 56, MultiViewport = 57);
num!(Signedness: UnsignedOrNone = 0, Signed = 1);
num!(Dim: Tex1D = 0, Tex2D = 1, Tex3D = 2, Cube = 3, Rect = 4, Buffer = 5, SubpassData = 6);
num!(DepthStatus: NotDepth = 0, Depth = 1, NoIndication = 2);
num!(Arrayed: False = 0, True = 1);
num!(MS: Single = 0, Multi = 1);
num!(SampledStatus: RuntimeChoice = 0, WithSampler = 1, WithoutSampler = 2);
num!(ImageFormat: Unknown = 0, Rgba32f = 1, Rgba16f = 2, R32f = 3, Rgba8 = 4, Rgba8Snorm = 5, Rg32f = 6, Rg16f = 7, R11fG11fB10f = 8, R16f = 9, Rgba16 = 10, Rgb10A2 = 11, Rg16 = 12, Rg8 = 13, R16 = 14, R8 = 15, Rgba16Snorm = 16, Rg16Snorm = 17, Rg8Snorm = 18, R16Snorm = 19, R8Snorm = 20, Rgba32i = 21, Rgba16i = 22, Rgba8i = 23, R32i = 24, Rg32i = 25, Rg16i = 26, Rg8i = 27, R16i = 28, R8i = 29, Rgba32ui = 30, Rgba16ui = 31, Rgba8ui = 32, R32ui = 33, Rgb10a2ui = 34, Rg32ui = 35, Rg16ui = 36, Rg8ui = 37, R16ui = 38, R8ui = 39);
num!(AccessQualifier: ReadOnly = 0, WriteOnly = 1, ReadWrite = 2);
num!(StorageClass: UniformConstant = 0, Input = 1, Uniform = 2, Output = 3, Workgroup = 4, CrossWorkgroup = 5, Private = 6, Function = 7, Generic = 8, PushConstant = 9, AtomicCounter = 10, Image = 11);
num!(BuiltIn: Position = 0, PointSize = 1, ClipDistance = 3, CullDistance = 4, VertexId = 5, InstanceId = 6, PrimitiveId = 7, InvocationId = 8, Layer = 9, ViewportIndex = 10, TessLevelOuter = 11, TessLevelInner = 12, TessCoord = 13, PatchVerticies = 14, FragCoord = 15, PointCoord = 16, FrontFacing = 17, SampleId = 18, SamplePosition = 19, SampleMask = 20, FragDepth = 22, HelperInvocation = 23, NumWorkgroups = 24, WorkgroupSize = 25, WorkgroupId = 26, LocalInvocationId = 27, GlobalInvocationId = 28, LocalInvocationIndex = 29, WorkDim = 30, GlobalSize = 31, EnqueuedWorkgroupSize = 32, GlobalOffset = 33, GlobalLinearId = 34, SubgroupSize = 36, SubgroupMaxSize = 37, NumSubgroups = 38, NumEnqueuedSubgroups = 39, SubgroupId = 40, SubgroupLocalInvocationId = 41, VertexIndex = 42, InstanceIndex = 43);
num!(FunctionParameterAttribute: Zext = 0, Sext = 1, ByVal = 2, Sret = 3, NoAlias = 4, NoCapture = 5, NoWrite = 6, NoReadWrite = 7);
num!(FpRoundingMode: Rte = 0, Rtz = 1, Rtp = 2, Rtn = 3);
num!(LinkageType: Export = 0, Import = 1);
impl W for SourceLanguage {
    fn w(&self, o: &mut Vec<u32>) {
        o.push(match *self {
            SourceLanguage::Unknown => 0,
            SourceLanguage::Essl => 1,
            SourceLanguage::Glsl => 2,
            SourceLanguage::OpenCL_C => 3,
            SourceLanguage::OpenCL_Cpp => 4,
            // a language that has a name must not be decoded as unnamed
            SourceLanguage::Other(n) => {
                if n < 5 {
                    0xBAD
                } else {
                    n
                }
            }
        })
    }
}
macro_rules! par {
    ($o:ident, $n:expr, $($p:expr),*) => {{ $o.push($n); $($p.w($o);)* }};
}
impl W for Decoration {
    fn w(&self, o: &mut Vec<u32>) {
        use magmaflow::spv::types::Decoration::*;
        match *self {
            RelaxedPrecision => o.push(0),
            SpecId(ref n) => par!(o, 1, n),
            Block => o.push(2),
            BufferBlock => o.push(3),
            RowMajor => o.push(4),
            ColMajor => o.push(5),
            ArrayStride(ref n) => par!(o, 6, n),
            MatrixStride(ref n) => par!(o, 7, n),
            GlslShared => o.push(8),
            GlslPacked => o.push(9),
            CPacked => o.push(10),
            BuiltIn(ref n) => par!(o, 11, n),
            NoPerspective => o.push(13),
            Flat => o.push(14),
            Patch => o.push(15),
            Centroid => o.push(16),
            Sample => o.push(17),
            Invariant => o.push(18),
            Restrict => o.push(19),
            Aliased => o.push(20),
            Volatile => o.push(21),
            Constant => o.push(22),
            Coherent => o.push(23),
            NonWritable => o.push(24),
            NonReadable => o.push(25),
            Uniform => o.push(26),
            SaturatedConversion => o.push(28),
            Stream(ref n) => par!(o, 29, n),
            Location(ref n) => par!(o, 30, n),
            Component(ref n) => par!(o, 31, n),
            Index(ref n) => par!(o, 32, n),
            Binding(ref n) => par!(o, 33, n),
            DescriptorSet(ref n) => par!(o, 34, n),
            Offset(ref n) => par!(o, 35, n),
            XfbBuffer(ref n) => par!(o, 36, n),
            XfbStride(ref n) => par!(o, 37, n),
            FuncParamAttr(ref n) => par!(o, 38, n),
            FpRoundingMode(ref n) => par!(o, 39, n),
            FpFastMathMode(ref n) => par!(o, 40, n),
            LinkageAttributes(ref s, ref t) => par!(o, 41, s, t),
            NoContraction => o.push(42),
            InputAttachmentIndex(ref n) => par!(o, 43, n),
            Alignment(ref n) => par!(o, 44, n),
            #[allow(unreachable_patterns)]
            _ => o.push(0xBAD0),
        }
    }
}
impl W for ExecutionMode {
    fn w(&self, o: &mut Vec<u32>) {
        use magmaflow::spv::types::ExecutionMode::*;
        match *self {
            Invocations(ref n) => par!(o, 0, n),
            SpacingEqual => o.push(1),
            SpacingFractionalEven => o.push(2),
            SpacingFractionalOdd => o.push(3),
            VertexOrderCw => o.push(4),
            VertexOrderCcw => o.push(5),
            PixelCenterInteger => o.push(6),
            OriginUpperLeft => o.push(7),
            OriginLowerLeft => o.push(8),
            EarlyFragmentTests => o.push(9),
            PointMode => o.push(10),
            Xfb => o.push(11),
            DepthReplacing => o.push(12),
            DepthGreater => o.push(14),
            DepthLess => o.push(15),
            DepthUnchanged => o.push(16),
            LocalSize(ref x, ref y, ref z) => par!(o, 17, x, y, z),
            LocalSizeHint(ref x, ref y, ref z) => par!(o, 18, x, y, z),
            InputPoints => o.push(19),
            InputLines => o.push(20),
            InputLinesAdjacency => o.push(21),
            Triangles => o.push(22),
            InputTrianglesAdjacency => o.push(23),
            Quads => o.push(24),
            Isolines => o.push(25),
            OutputVerticies(ref n) => par!(o, 26, n),
            OutputPoints => o.push(27),
            OutputLineStrip => o.push(28),
            OutputTriangleStrip => o.push(29),
            VecTypeHint(ref i) => par!(o, 30, i),
            ContractionOff => o.push(31),
            #[allow(unreachable_patterns)]
            _ => o.push(0xBAD0),
        }
    }
}
fn bits(b: &[bool]) -> u32 {
    let mut v = 0;
    for (i, x) in b.iter().enumerate() {
        v |= (*x as u32) << i;
    }
    v
}
impl W for FpFastMathMode {
    fn w(&self, o: &mut Vec<u32>) {
        o.push(bits(&[self.not_nan, self.not_inf, self.nsz, self.allow_recip, self.fast]));
    }
}
impl W for MemoryAccess {
    fn w(&self, o: &mut Vec<u32>) {
        o.push(bits(&[self.volatile, self.aligned.is_some(), self.non_temporal]));
        self.aligned.w(o);
    }
}
impl W for FunctionControl {
    fn w(&self, o: &mut Vec<u32>) {
        o.push(bits(&[self.inline, self.dont_inline, self.pure_function, self.const_function]));
    }
}
impl W for LoopControl {
    fn w(&self, o: &mut Vec<u32>) {
        o.push(bits(&[self.unroll, self.dont_unroll, self.dependency_infinite, self.dependency_length.is_some()]));
        self.dependency_length.w(o);
    }
}
impl W for SelectionControl {
    fn w(&self, o: &mut Vec<u32>) {
        o.push(bits(&[self.flatten, self.dont_flatten]));
    }
}
impl W for BranchWeights {
    fn w(&self, o: &mut Vec<u32>) {
        o.push(self.true_weight);
        o.push(self.false_weight);
    }
}
impl W for PhiArg {
    fn w(&self, o: &mut Vec<u32>) {
        self.variable.w(o);
        self.parent.w(o);
    }
}
impl W for ExtInstBox {
    fn w(&self, o: &mut Vec<u32>) {
        let e = self.as_ref();
        match e.as_any().downcast_ref::<glsl450::Inst>() {
            Some(glsl450::Inst::Sin(s)) => par!(o, 13, s.x),
            Some(glsl450::Inst::Cos(s)) => par!(o, 14, s.x),
            #[allow(unreachable_patterns)]
            Some(_) => o.push(0xBAD0),
            None => crate::ext::write(e, o),
        }
    }
}

macro_rules! ops {
    ($($n:ident $c:expr, $($f:ident)*;)*) => {
        $(impl W for $n {
            #[allow(unused_variables)]
            fn w(&self, o: &mut Vec<u32>) { $(self.$f.w(o);)* }
        })*
        fn core(c: &Core, o: &mut Vec<u32>) -> u32 {
            match *c {
                $(Core::$n(ref op) => { op.w(o); $c })*
                #[allow(unreachable_patterns)]
                _ => 0xBAD,
            }
        }
    };
}
ops! {
    OpNop 0, ;
    OpUndef 1, result_type result_id;
    OpSourceContinued 2, continued_source;
    OpSource 3, language version file source;
    OpSourceExtension 4, extension;
    OpName 5, target name;
    OpMemberName 6, struct_type member name;
    OpString 7, result_id string;
    OpExtension 10, name;
    OpExtInstImport 11, result_id name;
    OpExtInst 12, result_type result_id set instruction;
    OpMemoryModel 14, addressing_model memory_model;
    OpEntryPoint 15, execution_model entry_point name interface;
    OpExecutionMode 16, entry_point mode;
    OpCapability 17, capability;
    OpTypeVoid 19, result_id;
    OpTypeBool 20, result_id;
    OpTypeInt 21, result_id width signedness;
    OpTypeFloat 22, result_id width;
    OpTypeVector 23, result_id component_type component_count;
    OpTypeMatrix 24, result_id column_type column_count;
    OpTypeImage 25, result_id sampled_type dim depth arrayed ms sampled format access_qualifier;
    OpTypeSampler 26, result_id;
    OpTypeSampledImage 27, result_id image_type;
    OpTypeArray 28, result_id element_type length;
    OpTypeRuntimeArray 29, result_id element_type;
    OpTypeStruct 30, result_id member_types;
    OpTypeOpaque 31, result_id name;
    OpTypePointer 32, result_id storage_class pointed_type;
    OpTypeFunction 33, result_id return_type parameter_types;
    OpTypeEvent 34, result_id;
    OpTypeDeviceEvent 35, result_id;
    OpTypeQueue 37, result_id;
    OpTypePipe 38, result_id access_qualifier;
    OpTypeForwardPointer 39, pointer_type storage_class;
    OpConstant 43, result_type result_id value;
    OpConstantComposite 44, result_type result_id constituents;
    OpFunction 54, result_type result_id function_control function_type;
    OpFunctionParameter 55, result_type result_id;
    OpFunctionEnd 56, ;
    OpVariable 59, result_type result_id storage_class initializer;
    OpLoad 61, result_type result_id pointer memory_access;
    OpStore 62, pointer object memory_access;
    OpAccessChain 65, result_type result_id base indexes;
    OpDecorate 71, target decoration;
    OpMemberDecorate 72, structure_type member decoration;
    OpConvertUToF 112, result_type result_id unsigned_value;
    OpBitcast 124, result_type result_id operand;
    OpIAdd 128, result_type result_id operand1 operand2;
    OpFAdd 129, result_type result_id operand1 operand2;
    OpISub 130, result_type result_id operand1 operand2;
    OpFSub 131, result_type result_id operand1 operand2;
    OpIMul 132, result_type result_id operand1 operand2;
    OpFMul 133, result_type result_id operand1 operand2;
    OpUDiv 134, result_type result_id operand1 operand2;
    OpSDiv 135, result_type result_id operand1 operand2;
    OpFDiv 136, result_type result_id operand1 operand2;
    OpUMod 137, result_type result_id operand1 operand2;
    OpSRem 138, result_type result_id operand1 operand2;
    OpSMod 139, result_type result_id operand1 operand2;
    OpFRem 140, result_type result_id operand1 operand2;
    OpFMod 141, result_type result_id operand1 operand2;
    OpIAddCarry 149, result_type result_id operand1 operand2;
    OpISubBorrow 150, result_type result_id operand1 operand2;
    OpUMulExtended 151, result_type result_id operand1 operand2;
    OpSMulExtended 152, result_type result_id operand1 operand2;
    OpIEqual 170, result_type result_id operand1 operand2;
    OpINotEqual 171, result_type result_id operand1 operand2;
    OpUGreaterThan 172, result_type result_id operand1 operand2;
    OpSGreaterThan 173, result_type result_id operand1 operand2;
    OpUGreaterThanEqual 174, result_type result_id operand1 operand2;
    OpSGreaterThanEqual 175, result_type result_id operand1 operand2;
    OpULessThan 176, result_type result_id operand1 operand2;
    OpSLessThan 177, result_type result_id operand1 operand2;
    OpULessThanEqual 178, result_type result_id operand1 operand2;
    OpSLessThanEqual 179, result_type result_id operand1 operand2;
    OpFOrdEqual 180, result_type result_id operand1 operand2;
    OpFUnordEqual 181, result_type result_id operand1 operand2;
    OpFOrdNotEqual 182, result_type result_id operand1 operand2;
    OpFUnordNotEqual 183, result_type result_id operand1 operand2;
    OpFOrdLessThan 184, result_type result_id operand1 operand2;
    OpFUnordLessThan 185, result_type result_id operand1 operand2;
    OpFOrdGreaterThan 186, result_type result_id operand1 operand2;
    OpFUnordGreaterThan 187, result_type result_id operand1 operand2;
    OpFOrdLessThanEqual 188, result_type result_id operand1 operand2;
    OpFUnordLessThanEqual 189, result_type result_id operand1 operand2;
    OpFOrdGreaterThanEqual 190, result_type result_id operand1 operand2;
    OpFUnordGreaterThanEqual 191, result_type result_id operand1 operand2;
    OpBitwiseOr 197, result_type result_id operand1 operand2;
    OpBitwiseXor 198, result_type result_id operand1 operand2;
    OpBitwiseAnd 199, result_type result_id operand1 operand2;
    OpPhi 245, result_type result_id variables;
    OpLoopMerge 246, merge_block continue_target loop_control;
    OpSelectionMerge 247, merge_block selection_control;
    OpLabel 248, result_id;
    OpBranch 249, target_label;
    OpBranchConditional 250, condition true_label false_label weights;
    OpReturn 253, ;
}

/// the words of an instruction, first word included
pub fn encode(c: &Core) -> Vec<u32> {
    let mut o = vec![0];
    let code = core(c, &mut o);
    o[0] = (o.len() as u32) << 16 | code;
    o
}
