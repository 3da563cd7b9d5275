#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
RD="src/spv/raw/reader.rs"; RM="src/spv/raw/mod.rs"; OP="src/spv/op.rs"; TY="src/spv/types.rs"
DI="src/spv/dis.rs"; LM="src/spv/logical/mod.rs"; LP="src/spv/logical/parser/parser.rs"; LPM="src/spv/logical/parser/mod.rs"
CF="src/spv/logical/control_flow.rs"; GL="src/glsl450/mod.rs"; GO="src/glsl450/op.rs"; SM="src/spv/mod.rs"
T="The 16 existing tests load, disassemble, validate and analyse five fixed shaders emitted by one compiler"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Reading any byte sequence returns a module or an error, never crashes",
  "For every byte sequence and every set of registered extended instruction sets, reading a module returns either a module or an error. It never panics, overflows, reads out of range or runs without end, whatever lengths, opcodes, counts or operand values the bytes claim.",
  ["inputs"],"all byte sequences (untrusted input) and registered instruction sets",
  T+"; no malformed byte is ever fed to the reader.",
  [RD,RM],[("read_module / read_instruction loops and slicing",RD),("MemoryBlock::read_word bounds test",RM)],
  ["read_module returning at all"],[("Stream.source","bytes not yet consumed",RD)])
p("C02","The module header is checked and reported exactly",
  "A module is accepted only when its first five words are the SPIR-V magic number, a version word that is exactly version 1.0, a generator word, the id bound and a reserved word of zero; any other magic, version or reserved word is rejected with the error for that field. The accepted module reports exactly the version, the generating tool registered under that vendor number, the tool version and the bound that the header words carry, and a header cut short is rejected as an unexpected end (on a word boundary) or a misaligned stream (inside a word).",
  ["inputs"],"all 2^160 headers, in both byte orders, and all truncations of them",
  T+", all with the same version, generator and schema words.",
  [RD,TY],[("header parsing in read_module",RD)],["RawModule.version/generator/bound","ReadError"])
p("C03","Byte order does not change what is read",
  "Serialising the same sequence of 32-bit words little-endian or big-endian gives the same outcome: the same module or the same error. Nothing in a module, including packed strings, depends on the byte order of the file.",
  ["inputs"],"all word sequences, both serialisations",
  T+", every one of them little-endian.",
  [RD,RM],[("Stream::invert_endianness and read_word",RD)],["read_module on the two serialisations"])
p("C04","Instruction framing is exact",
  "Every instruction occupies exactly the number of words its first word declares, and an accepted module lists one instruction per such unit, in stream order, until the bytes are exhausted. A declared count of zero, a stream that ends inside an instruction or inside a word, operands missing from the declared words and declared words no operand uses are each rejected with the error that says so.",
  ["inputs"],"all splits of a word stream into instructions, all declared counts, all truncation points",
  T+"; no test has a wrong count, a truncation or trailing data.",
  [RD,RM],[("read_instruction word collection and the block.end() test",RD),("MemoryBlock::read_word",RM)],
  ["RawModule.instructions length and order","ReadError variant"])
p("C05","Decoding loses nothing",
  "Every instruction of an accepted module still holds all the information of its input words: writing its opcode and operands back in the order of the SPIR-V specification gives exactly the words that were read, apart from the padding after a string's terminator. In particular no operand is dropped, swapped, truncated or given to a neighbouring field.",
  ["inputs"],"all accepted instructions: every supported opcode, every operand value, every legal operand count",
  T+"; about half of the supported opcodes and most operand values never occur in them.",
  [RD,RM,OP,TY],[("def_op_read! operand order",RD),("MemoryBlockRead implementations",RM)],["fields of the instructions in RawModule"])
p("C06","Opcodes are recognised exactly",
  "Each supported opcode number is decoded as the instruction the SPIR-V specification assigns to it, with the operands that instruction has. Every other opcode is rejected: with the instruction's specification name when the library knows but does not implement it, otherwise as an unknown opcode that reports the opcode and the declared word count.",
  ["inputs"],"all 65536 opcodes with all word counts and operand words",
  T+", which use about 45 of the 65536 opcodes and never an unsupported one.",
  [RD,RM],[("opcode dispatch in read_instruction",RD)],["variant of the decoded instruction","ReadError::UnknownOp / UnimplementedOp"])
p("C07","Enumerants and bit masks decode to their specified meaning",
  "Every enumerant operand (capabilities, storage classes, decorations, built-ins, execution modes and models, image properties and so on) decodes to the case the SPIR-V specification assigns to that number, followed by exactly the parameters that case takes. Every bit of a mask operand is either represented in the decoded value or makes the instruction rejected; a number or mask bit without a meaning is rejected with the error for that operand carrying the offending word.",
  ["inputs"],"all 2^32 values of every enumerant and mask operand and of their parameters",
  T+", which exercise a handful of the roughly 300 enumerants and no unknown value.",
  [RM,TY],[("MemoryBlockRead for the enumerant and mask types",RM)],["enumerant fields","ReadError::Unknown* payload"])
p("C08","String literals decode exactly",
  "A string operand is the bytes up to the first zero byte, taken from the lowest-order byte of each word upwards, whatever their number or position within the word, and the operands after it start at the word following the terminator. Bytes that are not valid UTF-8 are rejected as an invalid string, and a string without a terminator inside its instruction is rejected as missing data.",
  ["inputs"],"all string contents and lengths, at every operand position that takes a string",
  T+", with short ASCII names only.",
  [RM],[("MemoryBlockRead for LitString",RM)],["string fields","ReadError::InvalidString / UnexpectedEndOfInstruction"])
p("C09","Extended instruction sets are bound and dispatched by id",
  "Importing a set succeeds only for a registered name and binds the import's result id to that set; importing onto an id already bound, importing an unregistered name, or using an id no earlier import bound is rejected with the error naming that id or name. Each extended instruction is decoded by exactly the set its set operand is bound to, receiving its instruction number and the remaining operand words, and a number the set does not define is rejected with the set's name and that number.",
  ["inputs","configurations","histories"],"all interleavings of imports and uses, all ids and instruction numbers, all registered set lists",
  T+"; at most one import, one registered set, and two different extended instructions.",
  [RD,GL,SM],[("CoreRead for OpExtInstImport / OpExtInst",RD),("InstSet::read_instruction",GL)],
  ["OpExtInst.instruction","ReadError::UnknownInstSet / UnknownInstSetId / DuplicateResultId / UnknownExtInstOp"],
  [("bound_inst_sets","result id -> instruction set bound so far",RD)])
p("C10","Disassembly states the header and every instruction faithfully",
  "The textual form of a module is a comment header giving version, generator, bound and schema followed by one line per instruction, in module order. Each line gives the result id (when the instruction has one), the instruction's name and all of its operands in specification order, each enumerant by its specification name with its parameters, each set mask bit by its name, each id as %n, each literal in decimal and each string in double quotes; absent optional operands print nothing.",
  ["inputs","programs"],"all modules that can be read: every instruction, enumerant, operand value and operand count",
  T+"; most enumerant names, optional operands and instructions are never printed.",
  [RM,OP,TY,DI,GO],[("Display for RawModule / Core",RM),("def_op_display! operand order",OP),("Display for operand types",TY)],["Display output of a module"])
p("C11","Ids and numbers print exactly and columns line up",
  "For every 32-bit id the disassembly of an instruction with a result starts with %n right-aligned to twelve columns, then ' = ' and the name, and an instruction without a result is indented by the same fifteen columns; ids too wide for the field are printed in full. Every id and literal operand is printed as the decimal form of its exact 32-bit value.",
  ["inputs"],"all 2^32 ids and literal values",
  T+", with ids below 100.",
  [DI,TY],[("Result / NoResult helpers",DI),("Display for OpId (pad)",TY)],["Display output of an instruction"])
p("C12","Logical layout keeps every instruction, in order and in its section",
  "When a module passes the logical layout pass, reading its sections back in layout order (capabilities, extensions, imports, memory model, entry points, execution modes, debug, annotations, types/constants/globals, function declarations, function definitions with parameters and blocks) gives exactly the original instruction list. No instruction is lost, duplicated, reordered, altered or moved to another section, and each block holds its own label, code, merge and branch.",
  ["inputs","programs"],"all instruction lists that pass, of any section sizes and contents",
  "logical_pass only checks that five fixed modules are accepted; nothing in the result is compared.",
  [LP,LPM,LM],[("From<Core> for OpByBlock",LPM),("validate and the read_* phases",LP)],["LogicalModule fields"])
p("C13","Logical layout accepts exactly the specified section order",
  "A module passes the layout pass if and only if its instructions follow the section order, with exactly one memory model, global variables outside and function-storage variables inside blocks, every function closed, and every block a label, code, at most one merge and one branch. A function without blocks is a declaration when it comes before the first function with blocks, and counts as a definition with no blocks after it. Any other module is rejected, and the error says what was expected (a single instruction left over is simply unexpected) and, except for a missing memory model, gives the index of the first instruction that does not fit.",
  ["inputs","programs"],"all instruction lists, valid or not",
  "All five test modules are valid; no rejection is tested.",
  [LP,LPM],[("validate phases and OpSlice index",LP),("From<OpVariable> for OpByBlock",LPM)],["validate returning Ok or the ValidationError with its slot"])
p("C14","Layout pass never crashes",
  "For every list of instructions, in any order and including empty and truncated functions, the logical layout pass returns a module or an error. It never panics and never loops without end, and it needs no more stack for a longer list.",
  ["inputs","programs"],"all instruction lists",
  "Only five valid modules are ever validated.",
  [LP],[("OpSlice::first/advance bounds, remaining counts",LP)],["validate returning at all"])
p("C15","Control-flow analysis always returns",
  "For every function, however its blocks branch (self-loops, cycles without a loop construct, branches to missing blocks, merge instructions before any kind of branch), control-flow analysis returns a structure or an error. It never panics, never recurses without end, and needs no more stack for more blocks or constructs in a row (only for deeper nesting).",
  ["programs","inputs"],"all functions: any number of blocks, any branch and merge targets",
  "cfa runs on five well-structured functions.",
  [CF],[("search_block recursion and FlowList",CF)],["find_control_flow returning at all"])
p("C16","The structured control flow means the same as the blocks",
  "Whenever control-flow analysis succeeds, running the structure visits exactly the same sequence of blocks as following the branches of the function, for every sequence of branch outcomes. Sequences run in order, a selection runs its block and then the side its condition picks, a loop runs its header and body again until a break, and a continue goes back to the header.",
  ["programs","histories"],"all functions the analysis accepts and all sequences of branch outcomes",
  "cfa only checks that five functions are accepted; the structure is never compared with the function.",
  [CF],[("search_block chain construction",CF),("ControlFlowChain::block flattening",CF)],["ControlFlowChain returned by find_control_flow"])
p("C17","Structured functions are recognised with their exact structure",
  "A function that is a nesting of straight-line code, if and if-else constructs, and loops whose exit and continue tests branch to the loop's merge or header on the false side, laid out with their merge instructions, is accepted. The structure returned is that nesting: the same blocks in the same construct, true side before false side, sequences as one flat list, with each construct's control hints and branch weights.",
  ["programs","inputs"],"all such nestings, all block ids, hints and weights",
  "cfa accepts five fixed functions and checks nothing about the result.",
  [CF],[("search_block cases",CF),("FlowNode::innermost_loop / merges",CF)],["ControlFlowChain returned by find_control_flow"])
p("C18","Control-flow errors name the real cause",
  "A function without blocks is reported as having none, two blocks with the same id are reported with that id wherever they are, and reaching a branch or merge target that is not a block of the function is reported with that target. A conditional branch without a merge instruction outside any loop is reported with its own block, and a construct whose sides do not meet at its merge block is reported with its kind and header; none of these is ever accepted.",
  ["programs","inputs"],"all functions with such a fault, wherever it lies",
  "No test analyses a faulty function.",
  [CF],[("find_control_flow block map",CF),("search_block error returns",CF)],["ControlFlowError returned"])
p("C19","Printed control-flow structure matches the structure",
  "Printing a control-flow structure shows every block, selection, loop, break and continue once, in order, nested and indented by its depth, with the hints and weights that are set and an else part exactly when the false side is not empty.",
  ["inputs","programs"],"all structures the analysis returns",
  "Nothing prints a control-flow structure in the tests.",
  [CF],[("ControlFlowChain::fmt_indent",CF)],["Display output of ControlFlowChain"])
p("C20","The function listing prints the code of the right blocks",
  "Printing a function along with its control-flow structure lists, for every block of the structure in order, the block's id, all of its instructions and its branch, exactly as the disassembly of that block prints them. Nesting, break and continue are shown at their place and the listing never mixes up or omits blocks.",
  ["inputs","programs"],"all functions the analysis accepts, with all block contents",
  "Nothing prints a function listing in the tests.",
  [CF,LM],[("ControlFlowFunctionPrinter",CF),("Display for GroupCode / GroupBranch",LM)],["Display output of ControlFlowFunctionPrinter"])
p("C21","Extended instructions compare and clone by value",
  "Two decoded extended instructions are equal exactly when they come from the same kind of instruction set and are the same instruction with the same operands; equality is symmetric and a clone always equals its original. Consequently two modules compare equal exactly when their header fields and all their instructions are equal.",
  ["inputs"],"all pairs of extended instructions from any instruction sets, all operand values",
  "load_noop compares one module with one expected value and contains no extended instruction.",
  [SM,GL],[("PartialEq / Clone for ExtInstBox",SM),("Inst::eq downcast",GL)],["== and clone on instructions and modules"])
p("C22","Operand reading offered to instruction sets is exact",
  "An instruction set reading its operands gets the instruction's remaining words one by one in order, with the remaining count and end test exact at every step, and an error once they are used up. Sequence and optional operands of any readable element type that takes at least one word consume exactly the words they decode and never panic.",
  ["inputs","configurations"],"all operand word counts and values, all read sequences, all element types",
  "Only one-operand reads by the built-in set are exercised.",
  [RM],[("MemoryBlock API",RM),("MemoryBlockRead for Vec<T> / Option<T>",RM)],["values returned to an ExtInstSet implementation"])
p("C23","Results depend only on the input, not on what was done before",
  "Reading a byte sequence with the same registered sets, printing a module, laying it out, analysing a function and printing its structure or listing give the same result every time, whatever other modules and functions were read, printed, laid out or analysed before, accepted or rejected. Nothing is carried over from one call to another, and using a value never changes it.",
  ["histories","inputs"],"all sequences of calls on all inputs",
  "Every test makes one call on one input and never repeats it.",
  [RD,LP,CF],[("read_module state (imported sets)",RD),("validate",LP),("find_control_flow and the printers",CF)],["results of repeated calls"])
p("C24","A rejected module reports its first problem",
  "When a byte sequence has several problems, reading reports the first one: magic number, version and reserved word in this order before any instruction, instructions in stream order, and within an instruction its declared words first, then the opcode, then the operands in order, then words left over. What follows the first problem never changes the error, and the error's message is the fixed text for its kind whatever values it carries.",
  ["inputs"],"all modules with any number of problems of any kind at any place",
  "No test reads a module with a problem at all.",
  [RD,RM],[("read_module, read_instruction",RD),("ReadError and its Display / description",RM)],["ReadError returned, its message"])
p("C25","Every instruction the library defines prints its specified line",
  "Every value of a printable instruction type prints as one line in the specification's form, also for instructions the reader cannot decode yet and values built by hand. That line has the result id (or blanks of the same width), the instruction's name, and its operands in the order the specification gives: ids as %n, literals in decimal, enumerants and mask bits by name, absent optional operands as nothing, lists element by element.",
  ["inputs"],"all printable instruction types, all operand values, list lengths and presence of optional operands",
  "No test builds and prints an instruction that the reader does not decode.",
  [OP,DI],[("def_op_display! uses",OP),("Display for the operand types",DI)],["Display output of Core and op::Op* values"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
