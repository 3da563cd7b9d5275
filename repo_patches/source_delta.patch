From c90392cd9d644f113489b71a63db32673b509422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:56 +0000
Subject: [PATCH 01/13] fix: compare all bits of the version word

The version bytes were masked with 0xF, so a version word such as 0x00010010
was accepted as version 1.0 and errors reported the wrong bytes.
---
 src/spv/raw/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/spv/raw/reader.rs b/src/spv/raw/reader.rs
index 994a45b..794008a 100644
--- a/src/spv/raw/reader.rs
+++ b/src/spv/raw/reader.rs
@@ -26,9 +26,9 @@ pub fn read_module<'a>(data: &'a [u8],
 
     let ver_word = try!(stream.read_word());
     let ver_high = (ver_word >> 24) as u8;
-    let ver_major = ((ver_word >> 16) & 0xF) as u8;
-    let ver_minor = ((ver_word >> 8) & 0xF) as u8;
-    let ver_low = (ver_word & 0xF) as u8;
+    let ver_major = ((ver_word >> 16) & 0xFF) as u8;
+    let ver_minor = ((ver_word >> 8) & 0xFF) as u8;
+    let ver_low = (ver_word & 0xFF) as u8;
     let version = match (ver_high, ver_major, ver_minor, ver_low) {
         (0, 1, 0, 0) => Version(ver_major, ver_minor),
         (v3, v2, v1, v0) => return Err(ReadError::UnknownVersionBytes(v3, v2, v1, v0)),
-- 
2.43.0


From c2aac9bd233bb9ca9776b2c16420d7f8102e9e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:56 +0000
Subject: [PATCH 02/13] fix: reject instructions that declare a word count of
 zero

An instruction takes at least the word that holds its opcode; a count of zero
was treated like a count of one.
---
 src/spv/raw/reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/spv/raw/reader.rs b/src/spv/raw/reader.rs
index 794008a..f1c0cd6 100644
--- a/src/spv/raw/reader.rs
+++ b/src/spv/raw/reader.rs
@@ -129,6 +129,9 @@ fn read_instruction(stream: &mut Stream,
     let head = try!(stream.read_word());
     let id = (head & 0xFFFF) as u16;
     let wc = (head >> 16) as u16;
+    if wc == 0 {
+        return Err(ReadError::WrongWordCountForOp);
+    }
     let mut words = Vec::with_capacity(wc as usize);
     words.push(head);
     for _ in 1..wc {
-- 
2.43.0


From 725dd0a9abaad7a6c84f639502e64d63808dcb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:56 +0000
Subject: [PATCH 03/13] fix: reject every unknown bit of a mask operand

The checks ignored the upper 16 bits (and bit 5 of the fast math mode), so
unknown bits there were silently dropped.
---
 src/spv/raw/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/spv/raw/mod.rs b/src/spv/raw/mod.rs
index 21a6f01..625278b 100644
--- a/src/spv/raw/mod.rs
+++ b/src/spv/raw/mod.rs
@@ -841,7 +841,7 @@ impl MemoryBlockRead for FunctionControl {
 impl MemoryBlockRead for MemoryAccess {
     fn read(block: MemoryBlock) -> MemoryBlockResult<MemoryAccess> {
         let (block, memory_access_word) = try!(block.read_word());
-        if (memory_access_word & 0xFFF8) != 0 {
+        if (memory_access_word & !0x7) != 0 {
             return Err(ReadError::UnknownMemoryAccess(memory_access_word));
         }
         let memory_access = MemoryAccess {
@@ -939,7 +939,7 @@ impl MemoryBlockRead for FpRoundingMode {
 impl MemoryBlockRead for FpFastMathMode {
     fn read(block: MemoryBlock) -> MemoryBlockResult<FpFastMathMode> {
         let (block, id) = try!(block.read_word());
-        if (id & 0xFFC0) != 0 {
+        if (id & !0x1F) != 0 {
             return Err(ReadError::UnknownFpFastMathMode(id));
         }
         let fast_math_mode = FpFastMathMode {
@@ -1079,7 +1079,7 @@ impl MemoryBlockRead for Decoration {
 impl MemoryBlockRead for LoopControl {
     fn read(block: MemoryBlock) -> MemoryBlockResult<LoopControl> {
         let (block, word) = try!(block.read_word());
-        if word & 0xFFF0 != 0 {
+        if word & !0xF != 0 {
             return Err(ReadError::UnknownLoopControl(word));
         }
         let dependency_length_val = (word & 0x8) != 0;
@@ -1102,7 +1102,7 @@ impl MemoryBlockRead for LoopControl {
 impl MemoryBlockRead for SelectionControl {
     fn read(block: MemoryBlock) -> MemoryBlockResult<SelectionControl> {
         let (block, word) = try!(block.read_word());
-        if word & 0xFFFC != 0 {
+        if word & !0x3 != 0 {
             return Err(ReadError::UnknownSelectionControl(word));
         }
         let selection_control = SelectionControl {
-- 
2.43.0


From b618bbcab3066f7b759843a7454347893ea16332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:56 +0000
Subject: [PATCH 04/13] fix: reject unknown bits of the function control mask

Unlike the other masks it was not checked at all and dropped them silently.
---
 src/spv/raw/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/spv/raw/mod.rs b/src/spv/raw/mod.rs
index 625278b..8d8dd2c 100644
--- a/src/spv/raw/mod.rs
+++ b/src/spv/raw/mod.rs
@@ -297,6 +297,7 @@ pub enum ReadError {
     UnknownSampledStatus(u32),
     UnknownImageFormat(u32),
     UnknownAccessQualifier(u32),
+    UnknownFunctionControl(u32),
     UnknownLoopControl(u32),
     UnknownSelectionControl(u32),
 }
@@ -348,6 +349,7 @@ impl Error for ReadError {
             UnknownSampledStatus(_) => "unknown sampled hint",
             UnknownImageFormat(_) => "unknown image format",
             UnknownAccessQualifier(_) => "unknown access qualifier",
+            UnknownFunctionControl(_) => "unknown function control",
             UnknownLoopControl(_) => "unknown loop control",
             UnknownSelectionControl(_) => "unknown selection control",
         }
@@ -828,6 +830,9 @@ impl MemoryBlockRead for StorageClass {
 impl MemoryBlockRead for FunctionControl {
     fn read(block: MemoryBlock) -> MemoryBlockResult<FunctionControl> {
         let (block, value) = try!(block.read_word());
+        if value & !0xF != 0 {
+            return Err(ReadError::UnknownFunctionControl(value));
+        }
         let function_control = FunctionControl {
             inline: (value & 0x1) != 0,
             dont_inline: (value & 0x2) != 0,
-- 
2.43.0


From cddbf3c088e8f86f9647bb80b12b3aa83db454ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:56 +0000
Subject: [PATCH 05/13] fix: do not divide by zero reading a list of small
 elements

min(1, size / 4) is 0 for element types smaller than a word, such as the
enumerants, so reading a Vec of them panicked.
---
 src/spv/raw/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spv/raw/mod.rs b/src/spv/raw/mod.rs
index 8d8dd2c..1849175 100644
--- a/src/spv/raw/mod.rs
+++ b/src/spv/raw/mod.rs
@@ -411,7 +411,7 @@ impl MemoryBlockRead for ResultId {
 
 impl<T: MemoryBlockRead> MemoryBlockRead for Vec<T> {
     fn read(mut block: MemoryBlock) -> MemoryBlockResult<Vec<T>> {
-        let item_word_size = std::cmp::min(1, std::mem::size_of::<T>() / 4);
+        let item_word_size = std::cmp::max(1, std::mem::size_of::<T>() / 4);
         let assumed_size = block.remaining() / item_word_size;
         let mut items = Vec::with_capacity(assumed_size);
         while block.remaining() > 0 {
-- 
2.43.0


From c1bbc1f035f33a14ceaafde1d35223fe124fb8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:56 +0000
Subject: [PATCH 06/13] fix: do not recurse once per instruction in the layout
 pass

A long section (tens of thousands of instructions) overflowed the stack.
---
 src/spv/logical/parser/parser.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/spv/logical/parser/parser.rs b/src/spv/logical/parser/parser.rs
index 64ef29e..c2623a5 100644
--- a/src/spv/logical/parser/parser.rs
+++ b/src/spv/logical/parser/parser.rs
@@ -96,20 +96,18 @@ enum PhaseResult<'a, T> {
 fn read_many<T>(insts: OpSlice,
                 f: fn(OpSlice) -> PhaseResult<T>)
                 -> ValidationResult<(Vec<T>, OpSlice)> {
-    fn read_rest<T>(insts: OpSlice,
-                    f: fn(OpSlice) -> PhaseResult<T>,
-                    mut output: Vec<T>)
-                    -> ValidationResult<(Vec<T>, OpSlice)> {
+    let mut insts = insts;
+    let mut output = Vec::new();
+    loop {
         match f(insts) {
             PhaseResult::Ok(item, next) => {
                 output.push(item);
-                read_rest(next, f, output)
+                insts = next;
             }
-            PhaseResult::Next(next) => Ok((output, next)),
-            PhaseResult::Err(err) => Err(err),
+            PhaseResult::Next(next) => return Ok((output, next)),
+            PhaseResult::Err(err) => return Err(err),
         }
     }
-    read_rest(insts, f, Vec::new())
 }
 
 fn read_capability(insts: OpSlice) -> PhaseResult<Capability> {
-- 
2.43.0


From efa9bf5574d5c9dda04af2b003863019bd3753ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:56 +0000
Subject: [PATCH 07/13] fix: print the linkage name in quotes

Like every other string operand; a name with a space was ambiguous.
---
 src/spv/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spv/types.rs b/src/spv/types.rs
index 6723cdf..a86ed9e 100644
--- a/src/spv/types.rs
+++ b/src/spv/types.rs
@@ -242,7 +242,7 @@ impl Display for Decoration {
                 return write!(f, "FpFastMathMode {}", fast_math_mode)
             }
             Decoration::LinkageAttributes(ref name, ref lt) => {
-                return write!(f, "LinkageAttributes {} {}", name, lt)
+                return write!(f, "LinkageAttributes \"{}\" {}", name, lt)
             }
             Decoration::NoContraction => "NoContraction",
             Decoration::InputAttachmentIndex(ref n) => {
-- 
2.43.0


From 49070a64c5829a83643ceabfce2dfdad62000b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:56 +0000
Subject: [PATCH 08/13] fix: read the alignment of an aligned memory access

The Aligned bit is followed by a literal; it was not read, so every valid
aligned load or store was rejected for excess data.
---
 src/spv/raw/mod.rs |  8 +++++++-
 src/spv/types.rs   | 11 ++++++-----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/spv/raw/mod.rs b/src/spv/raw/mod.rs
index 1849175..37bf1a3 100644
--- a/src/spv/raw/mod.rs
+++ b/src/spv/raw/mod.rs
@@ -849,9 +849,15 @@ impl MemoryBlockRead for MemoryAccess {
         if (memory_access_word & !0x7) != 0 {
             return Err(ReadError::UnknownMemoryAccess(memory_access_word));
         }
+        let (block, aligned) = if (memory_access_word & 0x2) != 0 {
+            let (block, alignment) = try!(block.read_word());
+            (block, Some(alignment))
+        } else {
+            (block, None)
+        };
         let memory_access = MemoryAccess {
             volatile: (memory_access_word & 0x1) != 0,
-            aligned: (memory_access_word & 0x2) != 0,
+            aligned: aligned,
             non_temporal: (memory_access_word & 0x4) != 0,
         };
         Ok((block, memory_access))
diff --git a/src/spv/types.rs b/src/spv/types.rs
index a86ed9e..0efe2c2 100644
--- a/src/spv/types.rs
+++ b/src/spv/types.rs
@@ -1106,7 +1106,8 @@ pub struct ImageOperands {
 #[derive(Clone, Debug, Default, PartialEq)]
 pub struct MemoryAccess {
     pub volatile: bool,
-    pub aligned: bool,
+    /// Alignment in bytes, if the access is aligned
+    pub aligned: Option<u32>,
     pub non_temporal: bool,
 }
 
@@ -1114,13 +1115,13 @@ impl Display for MemoryAccess {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         let mut parts = Vec::new();
         if self.volatile {
-            parts.push("Volatile");
+            parts.push("Volatile".to_string());
         }
-        if self.aligned {
-            parts.push("Aligned");
+        if let Some(alignment) = self.aligned {
+            parts.push(format!("Aligned({})", alignment));
         }
         if self.non_temporal {
-            parts.push("Nontemporal");
+            parts.push("Nontemporal".to_string());
         }
         if parts.len() == 0 {
             write!(f, "None")
-- 
2.43.0


From 3dc3a34bebd99bd9cbd199be5d7db120151d9687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:56 +0000
Subject: [PATCH 09/13] fix: report unsupported merge instructions as an error

A selection merge before an unconditional branch, or a loop merge before a
conditional one, made the control flow analysis panic.
---
 src/spv/logical/control_flow.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spv/logical/control_flow.rs b/src/spv/logical/control_flow.rs
index af7fe16..2c4edc8 100644
--- a/src/spv/logical/control_flow.rs
+++ b/src/spv/logical/control_flow.rs
@@ -326,7 +326,7 @@ fn search_block(id: BlockId,
 
                     Ok((chain, next_next))
                 }
-                _ => unimplemented!(),
+                _ => Err(ControlFlowError::Failed),
             }
         }
         GroupBranch::OpBranchConditional(ref op) => {
@@ -368,7 +368,7 @@ fn search_block(id: BlockId,
                     }
                 }
                 // Loop construct
-                Some(GroupMerge::OpLoopMerge(_)) => unimplemented!(),
+                Some(GroupMerge::OpLoopMerge(_)) => Err(ControlFlowError::Failed),
                 None => {
                     let (head, merge) = match flow_list.innermost_loop() {
                         Some(l) => l,
-- 
2.43.0


From 21bef67aafeb4270f4c1601326aa011fe2c878d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:44 +0000
Subject: [PATCH 10/13] fix: report cycles without a loop construct as an error

Following the branches of such a cycle recursed until the stack overflowed.
Keep the blocks passed through since the set of merge blocks last grew and
fail when one of them is met again.
---
 src/spv/logical/control_flow.rs | 70 ++++++++++++++++++++++++++++-----
 1 file changed, 61 insertions(+), 9 deletions(-)

diff --git a/src/spv/logical/control_flow.rs b/src/spv/logical/control_flow.rs
index 2c4edc8..f19492a 100644
--- a/src/spv/logical/control_flow.rs
+++ b/src/spv/logical/control_flow.rs
@@ -176,7 +176,7 @@ pub fn find_control_flow(decl: FunctionDefinition) -> ControlFlowResult<ControlF
         None => return Err(ControlFlowError::NoBlocks),
     };
 
-    let (chain, next) = try!(search_block(start, &FlowList::new(), &block_map));
+    let (chain, next) = try!(search_block(start, &FlowList::new(), &block_map, None));
 
     match next {
         Continue::Return => Ok(chain),
@@ -260,6 +260,14 @@ impl FlowList {
         }
     }
 
+    /// Check if a converge would stop the search at a block this flow list does not stop at yet
+    fn grows(&self, converge: &Converge) -> bool {
+        match *converge {
+            Converge::If(ref join, _) |
+            Converge::Loop(ref join, _, _) => !self.merges(join),
+        }
+    }
+
     /// Find the merge block for the innermost loop
     fn innermost_loop(&self) -> Option<(BlockId, BlockId)> {
         match self.head {
@@ -269,9 +277,33 @@ impl FlowList {
     }
 }
 
+/// Links back to the blocks passed through since the flow list last grew
+struct Path<'a> {
+    id: BlockId,
+    parent: Option<&'a Path<'a>>,
+}
+
+impl<'a> Path<'a> {
+    fn contains(&self, id: BlockId) -> bool {
+        let mut current = Some(self);
+        while let Some(path) = current {
+            if path.id == id {
+                return true;
+            }
+            current = path.parent;
+        }
+        false
+    }
+}
+
+/// Search from a block to the end of the construct it is in
+///
+/// Meeting a block of the path again means the blocks form a cycle without a loop construct, which
+/// would be followed without end.
 fn search_block(id: BlockId,
                 flow_list: &FlowList,
-                block_map: &BlockMap)
+                block_map: &BlockMap,
+                parent: Option<&Path>)
                 -> ControlFlowResult<(ControlFlowChain, Continue)> {
 
     if flow_list.merges(&id) {
@@ -283,6 +315,14 @@ fn search_block(id: BlockId,
         None => return Err(ControlFlowError::UnknownBlockId(id)),
     };
 
+    if parent.map_or(false, |path| path.contains(id)) {
+        return Err(ControlFlowError::Failed);
+    }
+    let path = Path {
+        id: id,
+        parent: parent,
+    };
+
     match block.branch {
         GroupBranch::OpBranch(ref op) => {
             let current = ControlFlowChain::Atom(id);
@@ -299,10 +339,15 @@ fn search_block(id: BlockId,
 
                     // Set up inner flow list
                     let inner_fl = flow_list.extend(converge.clone());
+                    let inner_path = if flow_list.grows(&converge) {
+                        None
+                    } else {
+                        Some(&path)
+                    };
 
                     // Recursive parse branches
                     let (inner_chain, inner_next) =
-                        try!(search_block(next_id, &inner_fl, block_map));
+                        try!(search_block(next_id, &inner_fl, block_map, inner_path));
 
                     if inner_next == Continue::Next(head) {
                         let inner_box = Box::new(inner_chain);
@@ -310,7 +355,7 @@ fn search_block(id: BlockId,
                         let ctc = ControlFlowChain::Loop(id, inner_box, hints, None);
 
                         let (after_chain, after_next) =
-                            try!(search_block(after, flow_list, block_map));
+                            try!(search_block(after, flow_list, block_map, Some(&path)));
 
                         let chain = ControlFlowChain::block(vec![ctc, after_chain]);
 
@@ -320,7 +365,8 @@ fn search_block(id: BlockId,
                     }
                 }
                 None => {
-                    let (next_chain, next_next) = try!(search_block(next_id, flow_list, block_map));
+                    let (next_chain, next_next) =
+                        try!(search_block(next_id, flow_list, block_map, Some(&path)));
 
                     let chain = ControlFlowChain::block(vec![current, next_chain]);
 
@@ -343,12 +389,17 @@ fn search_block(id: BlockId,
 
                     // Set up inner flow list
                     let inner_fl = flow_list.extend(converge.clone());
+                    let inner_path = if flow_list.grows(&converge) {
+                        None
+                    } else {
+                        Some(&path)
+                    };
 
                     // Recursive parse branches
                     let (true_chain, true_next) =
-                        try!(search_block(true_block, &inner_fl, block_map));
+                        try!(search_block(true_block, &inner_fl, block_map, inner_path));
                     let (false_chain, false_next) =
-                        try!(search_block(false_block, &inner_fl, block_map));
+                        try!(search_block(false_block, &inner_fl, block_map, inner_path));
 
                     if true_next == false_next && true_next == Continue::Next(merge) {
 
@@ -358,7 +409,7 @@ fn search_block(id: BlockId,
                         let ctc = ControlFlowChain::Selection(id, true_b, false_b, hints, weights);
 
                         let (next_chain, next_next) =
-                            try!(search_block(merge, flow_list, block_map));
+                            try!(search_block(merge, flow_list, block_map, Some(&path)));
 
                         let chain = ControlFlowChain::block(vec![ctc, next_chain]);
 
@@ -379,7 +430,8 @@ fn search_block(id: BlockId,
                     if is_break || is_continue {
                         // Break block or Continue block
 
-                        let inner = try!(search_block(true_block, &flow_list, block_map));
+                        let inner =
+                            try!(search_block(true_block, &flow_list, block_map, Some(&path)));
                         let (inner_chain, inner_next) = inner;
 
                         if inner_next == Continue::Next(head) {
-- 
2.43.0


From a106ec2e91d65b0d5bc36d0daf588a768bfbc785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:00 +0000
Subject: [PATCH 11/13] fix: print enumerant names as the specification spells
 them

---
 src/spv/types.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/spv/types.rs b/src/spv/types.rs
index 0efe2c2..59e94d7 100644
--- a/src/spv/types.rs
+++ b/src/spv/types.rs
@@ -236,10 +236,10 @@ impl Display for Decoration {
             Decoration::XfbStride(ref n) => return write!(f, "XfbStride {}", n),
             Decoration::FuncParamAttr(ref foa) => return write!(f, "FuncParamAttr {}", foa),
             Decoration::FpRoundingMode(ref rounding_mode) => {
-                return write!(f, "FpRoundingMode {}", rounding_mode)
+                return write!(f, "FPRoundingMode {}", rounding_mode)
             }
             Decoration::FpFastMathMode(ref fast_math_mode) => {
-                return write!(f, "FpFastMathMode {}", fast_math_mode)
+                return write!(f, "FPFastMathMode {}", fast_math_mode)
             }
             Decoration::LinkageAttributes(ref name, ref lt) => {
                 return write!(f, "LinkageAttributes \"{}\" {}", name, lt)
@@ -318,7 +318,7 @@ impl Display for BuiltIn {
             BuiltIn::TessLevelOuter => "TessLevelOuter",
             BuiltIn::TessLevelInner => "TessLevelInner",
             BuiltIn::TessCoord => "TessCoord",
-            BuiltIn::PatchVerticies => "PatchVerticies",
+            BuiltIn::PatchVerticies => "PatchVertices",
             BuiltIn::FragCoord => "FragCoord",
             BuiltIn::PointCoord => "PointCoord",
             BuiltIn::FrontFacing => "FrontFacing",
@@ -423,8 +423,8 @@ impl Display for ExecutionModel {
     fn fmt(&self, f: &mut Formatter) -> fmt::Result {
         let name = match *self {
             ExecutionModel::Vertex => "Vertex",
-            ExecutionModel::TesselationControl => "TesselationControl",
-            ExecutionModel::TesselationEvaluation => "TesselationEvaluation",
+            ExecutionModel::TesselationControl => "TessellationControl",
+            ExecutionModel::TesselationEvaluation => "TessellationEvaluation",
             ExecutionModel::Geometry => "Geometry",
             ExecutionModel::Fragment => "Fragment",
             ExecutionModel::GlCompute => "GLCompute",
@@ -503,7 +503,7 @@ impl Display for ExecutionMode {
             ExecutionMode::InputTrianglesAdjacency => "InputTrianglesAdjacency",
             ExecutionMode::Quads => "Quads",
             ExecutionMode::Isolines => "Isolines",
-            ExecutionMode::OutputVerticies(ref n) => return write!(f, "OutputVerticies {}", n),
+            ExecutionMode::OutputVerticies(ref n) => return write!(f, "OutputVertices {}", n),
             ExecutionMode::OutputPoints => "OutputPoints",
             ExecutionMode::OutputLineStrip => "OutputLineStrip",
             ExecutionMode::OutputTriangleStrip => "OutputTriangleStrip",
-- 
2.43.0


From bf3c85d18ef9000ef4cf1c975e6750f804e9e58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:48 +0000
Subject: [PATCH 12/13] fix: do not recurse once per block in control-flow
 analysis

---
 src/spv/logical/control_flow.rs | 89 +++++++++++++++++++--------------
 1 file changed, 51 insertions(+), 38 deletions(-)

diff --git a/src/spv/logical/control_flow.rs b/src/spv/logical/control_flow.rs
index f19492a..ae356a0 100644
--- a/src/spv/logical/control_flow.rs
+++ b/src/spv/logical/control_flow.rs
@@ -1,5 +1,5 @@
 
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::fmt;
 use std::rc::Rc;
 
@@ -279,7 +279,7 @@ impl FlowList {
 
 /// Links back to the blocks passed through since the flow list last grew
 struct Path<'a> {
-    id: BlockId,
+    ids: HashSet<BlockId>,
     parent: Option<&'a Path<'a>>,
 }
 
@@ -287,7 +287,7 @@ impl<'a> Path<'a> {
     fn contains(&self, id: BlockId) -> bool {
         let mut current = Some(self);
         while let Some(path) = current {
-            if path.id == id {
+            if path.ids.contains(&id) {
                 return true;
             }
             current = path.parent;
@@ -296,6 +296,12 @@ impl<'a> Path<'a> {
     }
 }
 
+/// What to do after a construct
+enum Step {
+    Next(ControlFlowChain, BlockId),
+    End(ControlFlowChain, Continue),
+}
+
 /// Search from a block to the end of the construct it is in
 ///
 /// Meeting a block of the path again means the blocks form a cycle without a loop construct, which
@@ -306,23 +312,47 @@ fn search_block(id: BlockId,
                 parent: Option<&Path>)
                 -> ControlFlowResult<(ControlFlowChain, Continue)> {
 
-    if flow_list.merges(&id) {
-        return Ok((ControlFlowChain::block(vec![]), Continue::Next(id)));
+    let mut chains = Vec::new();
+    let mut path = Path {
+        ids: HashSet::new(),
+        parent: parent,
+    };
+    let mut id = id;
+
+    loop {
+        if flow_list.merges(&id) {
+            return Ok((ControlFlowChain::Block(chains), Continue::Next(id)));
+        }
+        if path.contains(id) {
+            return Err(ControlFlowError::Failed);
+        }
+        path.ids.insert(id);
+
+        match try!(search_construct(id, flow_list, block_map, &path)) {
+            Step::Next(chain, next) => {
+                chains.push(chain);
+                id = next;
+            }
+            Step::End(chain, next) => {
+                chains.push(chain);
+                return Ok((ControlFlowChain::block(chains), next));
+            }
+        }
     }
+}
+
+/// Search the construct that starts at a block
+fn search_construct(id: BlockId,
+                    flow_list: &FlowList,
+                    block_map: &BlockMap,
+                    path: &Path)
+                    -> ControlFlowResult<Step> {
 
     let block = match block_map.get(&id) {
         Some(block) => block,
         None => return Err(ControlFlowError::UnknownBlockId(id)),
     };
 
-    if parent.map_or(false, |path| path.contains(id)) {
-        return Err(ControlFlowError::Failed);
-    }
-    let path = Path {
-        id: id,
-        parent: parent,
-    };
-
     match block.branch {
         GroupBranch::OpBranch(ref op) => {
             let current = ControlFlowChain::Atom(id);
@@ -342,7 +372,7 @@ fn search_block(id: BlockId,
                     let inner_path = if flow_list.grows(&converge) {
                         None
                     } else {
-                        Some(&path)
+                        Some(path)
                     };
 
                     // Recursive parse branches
@@ -354,24 +384,12 @@ fn search_block(id: BlockId,
 
                         let ctc = ControlFlowChain::Loop(id, inner_box, hints, None);
 
-                        let (after_chain, after_next) =
-                            try!(search_block(after, flow_list, block_map, Some(&path)));
-
-                        let chain = ControlFlowChain::block(vec![ctc, after_chain]);
-
-                        Ok((chain, after_next))
+                        Ok(Step::Next(ctc, after))
                     } else {
                         Err(ControlFlowError::InvalidConvergePrediction(ControlType::Loop, id))
                     }
                 }
-                None => {
-                    let (next_chain, next_next) =
-                        try!(search_block(next_id, flow_list, block_map, Some(&path)));
-
-                    let chain = ControlFlowChain::block(vec![current, next_chain]);
-
-                    Ok((chain, next_next))
-                }
+                None => Ok(Step::Next(current, next_id)),
                 _ => Err(ControlFlowError::Failed),
             }
         }
@@ -392,7 +410,7 @@ fn search_block(id: BlockId,
                     let inner_path = if flow_list.grows(&converge) {
                         None
                     } else {
-                        Some(&path)
+                        Some(path)
                     };
 
                     // Recursive parse branches
@@ -408,12 +426,7 @@ fn search_block(id: BlockId,
                         let weights = op.weights.clone();
                         let ctc = ControlFlowChain::Selection(id, true_b, false_b, hints, weights);
 
-                        let (next_chain, next_next) =
-                            try!(search_block(merge, flow_list, block_map, Some(&path)));
-
-                        let chain = ControlFlowChain::block(vec![ctc, next_chain]);
-
-                        Ok((chain, next_next))
+                        Ok(Step::Next(ctc, merge))
                     } else {
                         Err(ControlFlowError::InvalidConvergePrediction(ControlType::Selection, id))
                     }
@@ -431,7 +444,7 @@ fn search_block(id: BlockId,
                         // Break block or Continue block
 
                         let inner =
-                            try!(search_block(true_block, &flow_list, block_map, Some(&path)));
+                            try!(search_block(true_block, &flow_list, block_map, Some(path)));
                         let (inner_chain, inner_next) = inner;
 
                         if inner_next == Continue::Next(head) {
@@ -448,7 +461,7 @@ fn search_block(id: BlockId,
                                                                   SelectionControl::default(),
                                                                   weights);
 
-                            Ok((ctc, inner_next))
+                            Ok(Step::End(ctc, inner_next))
                         } else {
                             Err(ControlFlowError::InvalidConvergePrediction(ControlType::Loop, id))
                         }
@@ -460,7 +473,7 @@ fn search_block(id: BlockId,
         }
         GroupBranch::OpReturn(_) => {
             // Return block
-            Ok((ControlFlowChain::Atom(id), Continue::Return))
+            Ok(Step::End(ControlFlowChain::Atom(id), Continue::Return))
         }
     }
 }
-- 
2.43.0


From fad0e871dc65425b616c1829bdc36346da13fa3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:53 +0000
Subject: [PATCH 13/13] fix: the constituents of OpCompositeConstruct are ids

---
 src/spv/op.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spv/op.rs b/src/spv/op.rs
index d7ca114..8b341cc 100644
--- a/src/spv/op.rs
+++ b/src/spv/op.rs
@@ -1011,7 +1011,7 @@ def_op_display!(OpVectorShuffle; result_id = result_type | operand1 | operand2 |
 pub struct OpCompositeConstruct {
     pub result_type: OpId,
     pub result_id: ResultId,
-    pub constituents: Vec<MemberIndex>,
+    pub constituents: Vec<OpId>,
 }
 
 def_op_display!(OpCompositeConstruct; result_id = result_type | constituents);
-- 
2.43.0

