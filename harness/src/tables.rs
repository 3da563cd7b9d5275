// Numbers and names of the SPIR-V specification (as the library spells the names).
pub static UNIMPL: &[(u16, &str)] = &[
    (8, "OpLine"),
    (41, "OpConstantTrue"),
    (42, "OpConstantFalse"),
    (45, "OpConstantSampler"),
    (46, "OpConstantNull"),
    (48, "OpSpecConstantTrue"),
    (49, "OpSpecConstantFalse"),
    (50, "OpSpecConstant"),
    (51, "OpSpecConstantComposite"),
    (52, "OpSpecConstantOp"),
    (57, "OpFunctionCall"),
    (60, "OpImageTexelPointer"),
    (63, "OpCopyMemory"),
    (64, "OpCopyMemorySized"),
    (66, "OpInBoundsAccessChain"),
    (67, "OpPtrAccessChain"),
    (68, "OpArrayLength"),
    (69, "OpGenericPtrMemSemantics"),
    (70, "OpInBoundsPtrAccessChain"),
    (77, "OpVectorExtractDynamic"),
    (78, "OpVectorInsertDynamic"),
    (79, "OpVectorShuffle"),
    (80, "OpCompositeConstruct"),
    (81, "OpCompositeExtract"),
    (82, "OpCompositeInsert"),
    (83, "OpCopyObject"),
    (84, "OpTranspose"),
    (86, "OpSampledImage"),
    (87, "OpImageSampleImplicitLod"),
    (88, "OpImageSampleExplicitLod"),
    (89, "OpImageSampleDrefImplicitLod"),
    (90, "OpImageSampleDrefExplicitLod"),
    (91, "OpImageSampleProjImplicitLod"),
    (92, "OpImageSampleProjExplicitLod"),
    (93, "OpImageSampleProjDrefImplicitLod"),
    (94, "OpImageSampleProjDrefExplicitLod"),
    (95, "OpImageFetch"),
    (96, "OpImageGather"),
    (97, "OpImageDrefGather"),
    (98, "OpImageRead"),
    (99, "OpImageWrite"),
    (100, "OpImage"),
    (101, "OpImageQueryFormat"),
    (102, "OpImageQueryOrder"),
    (103, "OpImageQuerySizeLod"),
    (104, "OpImageQuerySize"),
    (105, "OpImageQueryLod"),
    (106, "OpImageQueryLevels"),
    (107, "OpImageQuerySamples"),
    (109, "OpConvertFToU"),
    (110, "OpConvertFToS"),
    (111, "OpConvertSToF"),
    (113, "OpUConvert"),
    (114, "OpSConvert"),
    (115, "OpFConvert"),
    (116, "OpQuantizeToF16"),
    (117, "OpConvertPtrToU"),
    (118, "OpSatConvertSToU"),
    (119, "OpSatConvertUToS"),
    (120, "OpConvertUToPtr"),
    (121, "OpPtrCastToGeneric"),
    (122, "OpGenericCastToPtr"),
    (123, "OpGenericCastToPtrExplicit"),
    (126, "OpSNegate"),
    (127, "OpFNegate"),
    (142, "OpVectorTimesScalar"),
    (143, "OpMatrixTimesScalar"),
    (144, "OpVectorTimesMatrix"),
    (145, "OpMatrixTimesVector"),
    (146, "OpMatrixTimesMatrix"),
    (147, "OpOuterProduct"),
    (148, "OpDot"),
    (154, "OpAny"),
    (155, "OpAll"),
    (156, "OpIsNan"),
    (157, "OpIsInf"),
    (158, "OpIsFinite"),
    (159, "OpIsNormal"),
    (160, "OpSignBitSet"),
    (161, "OpLessOrGreater"),
    (162, "OpOrdered"),
    (163, "OpUnordered"),
    (164, "OpLogicalEqual"),
    (165, "OpLogicalNotEqual"),
    (166, "OpLogicalOr"),
    (167, "OpLogicalAnd"),
    (168, "OpLogicalNot"),
    (169, "OpSelect"),
    (194, "OpShiftRightLogical"),
    (195, "OpShiftRightArithmetic"),
    (196, "OpShiftLeftLogical"),
    (200, "OpNot"),
    (201, "OpBitFieldInsert"),
    (202, "OpBitFieldSExtract"),
    (203, "OpBitFieldUExtract"),
    (204, "OpBitReverse"),
    (205, "OpBitCount"),
    (207, "OpDPdx"),
    (208, "OpDPdy"),
    (209, "OpFwidth"),
    (210, "OpDPdxFine"),
    (211, "OpDPdyFine"),
    (212, "OpFwidthFine"),
    (213, "OpDPdxCoarse"),
    (214, "OpDPdyCoarse"),
    (215, "OpFwidthCoarse"),
    (218, "OpEmitVertex"),
    (219, "OpEndPrimitive"),
    (220, "OpEmitStreamVertex"),
    (221, "OpEndStreamPrimitive"),
    (224, "OpControlBarrier"),
    (225, "OpMemoryBarrier"),
    (227, "OpAtomicLoad"),
    (228, "OpAtomicStore"),
    (229, "OpAtomicExchange"),
    (230, "OpAtomicCompareExchange"),
    (231, "OpAtomicCompareExchangeWeak"),
    (232, "OpAtomicIIncrement"),
    (233, "OpAtomicIDecrement"),
    (234, "OpAtomicIAdd"),
    (235, "OpAtomicISub"),
    (236, "OpAtomicSMin"),
    (237, "OpAtomicUMin"),
    (238, "OpAtomicSMax"),
    (239, "OpAtomicUMax"),
    (240, "OpAtomicAnd"),
    (241, "OpAtomicOr"),
    (242, "OpAtomicXor"),
    (251, "OpSwitch"),
    (252, "OpKill"),
    (254, "OpReturnValue"),
    (255, "OpUnreachable"),
    (256, "OpLifetimeStart"),
    (257, "OpLifetimeStop"),
    (259, "OpGroupAsyncCopy"),
    (260, "OpGroupWaitEvents"),
    (261, "OpGroupAll"),
    (262, "OpGroupAny"),
    (263, "OpGroupBroadcast"),
    (264, "OpGroupIAdd"),
    (265, "OpGroupFAdd"),
    (266, "OpGroupFMin"),
    (267, "OpGroupUMin"),
    (268, "OpGroupSMin"),
    (269, "OpGroupFMax"),
    (270, "OpGroupUMax"),
    (271, "OpGroupSMax"),
    (274, "OpReadPipe"),
    (275, "OpWritePipe"),
    (276, "OpReservedReadPipe"),
    (277, "OpReservedWritePipe"),
    (278, "OpReserveReadPipePackets"),
    (279, "OpReserveWritePipePackets"),
    (280, "OpCommitReadPipe"),
    (281, "OpCommitWritePipe"),
    (282, "OpIsValidReserveId"),
    (283, "OpGetNumPipePackets"),
    (284, "OpGetMaxPipePackets"),
    (285, "OpGroupReserveReadPipePackets"),
    (286, "OpGroupReserveWritePipePackets"),
    (287, "OpGroupCommitReadPipe"),
    (288, "OpGroupCommitWritePipe"),
    (291, "OpEnqueueMarker"),
    (292, "OpEnqueueKernel"),
    (293, "OpGetKernelNDrangeSubGroupCount"),
    (294, "OpGetKernelNDrangeMaxSubGroupSize"),
    (295, "OpGetKernelWorkGroupSize"),
    (296, "OpGetKernelPreferredWorkGroupSizeMultiple"),
    (297, "OpRetainEvent"),
    (298, "OpReleaseEvent"),
    (299, "OpCreateUserEvent"),
    (300, "OpIsValidEvent"),
    (301, "OpSetUserEventStatus"),
    (302, "OpCaptureEventProfilingInfo"),
    (303, "OpGetDefaultQueue"),
    (304, "OpBuildNDRange"),
    (305, "OpImageSparseSampleImplicitLod"),
    (306, "OpImageSparseSampleExplicitLod"),
    (307, "OpImageSparseSampleDrefImplicitLod"),
    (308, "OpImageSparseSampleDrefExplicitLod"),
    (309, "OpImageSparseSampleProjImplicitLod"),
    (310, "OpImageSparseSampleProjExplicitLod"),
    (311, "OpImageSparseSampleProjDrefImplicitLod"),
    (312, "OpImageSparseSampleProjDrefExplicitLod"),
    (313, "OpImageSparseFetch"),
    (314, "OpImageSparseGather"),
    (315, "OpImageSparseDrefGather"),
    (316, "OpImageSparseTexelsResident"),
    (317, "OpNoLine"),
    (318, "OpAtomicFlagTestAndSet"),
    (319, "OpAtomicFlagClear"),
    (320, "OpImageSparseRead"),
];
pub static N_SOURCE_LANGUAGE: &[&str] = &[
    "Unknown",
    "ESSL",
    "GLSL",
    "OpenCL_C",
    "OpenCL_CPP",
];
pub static N_ADDRESSING_MODEL: &[&str] = &[
    "Logical",
    "Physical32",
    "Physical64",
];
pub static N_MEMORY_MODEL: &[&str] = &[
    "Simple",
    "GLSL450",
    "OpenCL",
];
pub static N_EXECUTION_MODEL: &[&str] = &[
    "Vertex",
    "TessellationControl",
    "TessellationEvaluation",
    "Geometry",
    "Fragment",
    "GLCompute",
    "Kernel",
];
pub static N_EXECUTION_MODE: &[&str] = &[
    "Invocations",
    "SpacingEqual",
    "SpacingFractionalEven",
    "SpacingFractionalOdd",
    "VertexOrderCw",
    "VertexOrderCcw",
    "PixelCenterInteger",
    "OriginUpperLeft",
    "OriginLowerLeft",
    "EarlyFragmentTests",
    "PointMode",
    "Xfb",
    "DepthReplacing",
    "",
    "DepthGreater",
    "DepthLess",
    "DepthUnchanged",
    "LocalSize",
    "LocalSizeHint",
    "InputPoints",
    "InputLines",
    "InputLinesAdjacency",
    "Triangles",
    "InputTrianglesAdjacency",
    "Quads",
    "Isolines",
    "OutputVertices",
    "OutputPoints",
    "OutputLineStrip",
    "OutputTriangleStrip",
    "VecTypeHint",
    "ContractionOff",
];
pub static N_CAPABILITY: &[&str] = &[
    "Matrix",
    "Shader",
    "Geometry",
    "Tessellation",
    "Addresses",
    "Linkage",
    "Kernel",
    "Vector16",
    "Float16Buffer",
    "Float16",
    "Float64",
    "Int64",
    "Int64Atomics",
    "ImageBasic",
    "ImageReadWrite",
    "ImageMipmap",
    "",
    "Pipes",
    "Groups",
    "DeviceEnqueue",
    "LiteralSampler",
    "AtomicStorage",
    "Int16",
    "TessellationPointSize",
    "GeometryPointSize",
    "ImageGatherExtended",
    "",
    "StorageImageMultisample",
    "UniformBufferArrayDynamicIndexing",
    "SampledImageArrayDynamicIndexing",
    "StorageBufferArrayDynamicIndexing",
    "StorageImageArrayDynamicIndexing",
    "ClipDistance",
    "CullDistance",
    "ImageCubeArray",
    "SampleRateShading",
    "ImageRect",
    "SampledRect",
    "GenericPointer",
    "Int8",
    "InputAttachment",
    "SparseResidency",
    "MinLod",
    "Sampled1D",
    "Image1D",
    "SampledCubeArray",
    "SampledBuffer",
    "ImageBuffer",
    "ImageMSArray",
    "StorageImageExtendedFormats",
    "ImageQuery",
    "DerivativeControl",
    "InterpolationFunction",
    "TransformFeedback",
    "GeometryStreams",
    "StorageImageReadWithoutFormat",
    "StorageImageWriteWithoutFormat",
    "MultiViewport",
];
pub static N_SIGNEDNESS: &[&str] = &[
    "0",
    "1",
];
pub static N_DIM: &[&str] = &[
    "1D",
    "2D",
    "3D",
    "Cube",
    "Rect",
    "Buffer",
    "SubpassData",
];
pub static N_DEPTH_STATUS: &[&str] = &["0", "1", "2"];
pub static N_ARRAYED: &[&str] = &["0", "1"];
pub static N_MS: &[&str] = &["0", "1"];
pub static N_SAMPLED_STATUS: &[&str] = &["0", "1", "2"];
pub static N_IMAGE_FORMAT: &[&str] = &[
    "Unknown",
    "Rgba32f",
    "Rgba16f",
    "R32f",
    "Rgba8",
    "Rgba8Snorm",
    "Rg32f",
    "Rg16f",
    "R11fG11fB10f",
    "R16f",
    "Rgba16",
    "Rgb10A2",
    "Rg16",
    "Rg8",
    "R16",
    "R8",
    "Rgba16Snorm",
    "Rg16Snorm",
    "Rg8Snorm",
    "R16Snorm",
    "R8Snorm",
    "Rgba32i",
    "Rgba16i",
    "Rgba8i",
    "R32i",
    "Rg32i",
    "Rg16i",
    "Rg8i",
    "R16i",
    "R8i",
    "Rgba32ui",
    "Rgba16ui",
    "Rgba8ui",
    "R32ui",
    "Rgb10a2ui",
    "Rg32ui",
    "Rg16ui",
    "Rg8ui",
    "R16ui",
    "R8ui",
];
pub static N_ACCESS_QUALIFIER: &[&str] = &[
    "ReadOnly",
    "WriteOnly",
    "ReadWrite",
];
pub static N_STORAGE_CLASS: &[&str] = &[
    "UniformConstant",
    "Input",
    "Uniform",
    "Output",
    "Workgroup",
    "CrossWorkgroup",
    "Private",
    "Function",
    "Generic",
    "PushConstant",
    "AtomicCounter",
    "Image",
];
pub static N_BUILT_IN: &[&str] = &[
    "Position",
    "PointSize",
    "",
    "ClipDistance",
    "CullDistance",
    "VertexId",
    "InstanceId",
    "PrimitiveId",
    "InvocationId",
    "Layer",
    "ViewportIndex",
    "TessLevelOuter",
    "TessLevelInner",
    "TessCoord",
    "PatchVertices",
    "FragCoord",
    "PointCoord",
    "FrontFacing",
    "SampleId",
    "SamplePosition",
    "SampleMask",
    "",
    "FragDepth",
    "HelperInvocation",
    "NumWorkgroups",
    "WorkgroupSize",
    "WorkgroupId",
    "LocalInvocationId",
    "GlobalInvocationId",
    "LocalInvocationIndex",
    "WorkDim",
    "GlobalSize",
    "EnqueuedWorkgroupSize",
    "GlobalOffset",
    "GlobalLinearId",
    "",
    "SubgroupSize",
    "SubgroupMaxSize",
    "NumSubgroups",
    "NumEnqueuedSubgroups",
    "SubgroupId",
    "SubgroupLocalInvocationId",
    "VertexIndex",
    "InstanceIndex",
];
pub static N_FUNCTION_PARAMETER_ATTRIBUTE: &[&str] = &[
    "Zext",
    "Sext",
    "ByVal",
    "Sret",
    "NoAlias",
    "NoCapture",
    "NoWrite",
    "NoReadWrite",
];
pub static N_FP_ROUNDING_MODE: &[&str] = &[
    "RTE",
    "RTZ",
    "RTP",
    "RTN",
];
pub static N_LINKAGE_TYPE: &[&str] = &[
    "Export",
    "Import",
];
pub static N_DECORATION: &[&str] = &[
    "RelaxedPrecision",
    "SpecId",
    "Block",
    "BufferBlock",
    "RowMajor",
    "ColMajor",
    "ArrayStride",
    "MatrixStride",
    "GLSLShared",
    "GLSLPacked",
    "CPacked",
    "BuiltIn",
    "",
    "NoPerspective",
    "Flat",
    "Patch",
    "Centroid",
    "Sample",
    "Invariant",
    "Restrict",
    "Aliased",
    "Volatile",
    "Constant",
    "Coherent",
    "NonWritable",
    "NonReadable",
    "Uniform",
    "",
    "SaturatedConversion",
    "Stream",
    "Location",
    "Component",
    "Index",
    "Binding",
    "DescriptorSet",
    "Offset",
    "XfbBuffer",
    "XfbStride",
    "FuncParamAttr",
    "FPRoundingMode",
    "FPFastMathMode",
    "LinkageAttributes",
    "NoContraction",
    "InputAttachmentIndex",
    "Alignment",
];
