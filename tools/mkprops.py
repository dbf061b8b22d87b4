# writes properties.jsonl (kept as the readable source of that file)
import json, os
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
L='lib/include/spvgentwo/'; S='lib/source/'; C='common/include/common/'; CS='common/source/'
p('C01','Linked lists are exact sequences under every operation',
  'After any list operation (append, prepend, insert before/after, erase, pop, clear, copy, move, assign) the list contains exactly the elements the operation prescribes, in order; forward and backward traversal, first/last and size agree; and removed elements are released exactly once. Comparison and search agree with the element sequence, and a failed allocation leaves the list unchanged.',
  ['inputs','histories'],'all list contents and lengths, all positions, all allocation outcomes; every public operation from every well-formed state, hence every history of operations',
  'Tests never traverse lists backwards, never assign over a longer list and never let an allocation fail; instructions, operands and blocks are all stored in these lists.',
  [L+'List.h',L+'Entry.h',L+'EntryIterator.h'],[('doubly linked entries',L+'Entry.h'),('begin/last/size bookkeeping',L+'List.h')],
  [('list','sequence of entries linked both ways',L+'List.h')],['size, empty, begin, last, iteration in both directions, ==, find'])
p('C02','Vectors are exact sequences under every operation',
  'After any vector operation (append, insert, resize, reserve, assign, copy, move, clear, pop, data-level append) the vector holds exactly the prescribed elements in order, its size never exceeds its capacity, growing preserves existing elements, and nothing is read or written outside its storage. A failed allocation leaves the contents unchanged.',
  ['inputs','histories'],'all contents, lengths, capacities, positions and counts; every operation from every well-formed state',
  'Tests use a handful of small vectors and never insert in the middle, shrink, or grow across every capacity boundary.',
  [L+'Vector.h'],[('size/capacity bookkeeping and reallocation',L+'Vector.h')],[('vector','contiguous elements, size and capacity',L+'Vector.h')],['size, capacity, data, iteration, ==, failed operations'])
p('C03','Strings are NUL-terminated text and every edit does what it says',
  'A string is always NUL-terminated, its length is the number of characters before the terminator, and construction, append, insert, substring, comparison and number-to-text conversion yield exactly the corresponding character sequence, without reading or writing outside the storage. Equality and hashing of strings depend only on the characters.',
  ['inputs','histories'],'all character sequences and lengths including empty ones, all positions and counts, all 64-bit numbers',
  'Tests only pass short non-empty literal names; empty strings, substrings at the end and large numbers are never exercised.',
  [L+'String.h',S+'String.cpp'],[('terminator stored as the last element',L+'String.h')],[('string','characters plus terminator',L+'String.h')],['c_str, size, length, ==, hash'])
p('C04','Hash maps behave as multimaps keyed by hash',
  'Looking up a key finds an inserted, not yet erased entry with that key if and only if one exists; unique insertion never creates a second entry for a key and reports whether it was new; erasing one key leaves every other key alone; count, size and iteration report exactly the live entries. Nothing is accessed outside the buckets, whatever the number of buckets.',
  ['inputs','histories'],'all map contents, bucket counts, keys and collision patterns; every operation from every well-formed state',
  'Tests use maps only indirectly with few keys, so bucket chains with several keys and erasure in the middle of a chain are not exercised.',
  [L+'HashMap.h',L+'HashMapIterator.h'],[('bucket = hash modulo bucket count, chained lists',L+'HashMap.h')],[('map','buckets of entry lists',L+'HashMap.h')],['get, find, emplace, emplaceUnique, count, erase, iteration'])
p('C05','Allocators hand out aligned, disjoint, in-bounds storage',
  'Every block handed out lies inside the allocator\'s memory, does not overlap a live block, and respects the requested alignment where the allocator promises it; an allocation that does not fit returns null and leaves the allocator usable, and scoped allocations are released exactly once.',
  ['inputs','histories','fault_sequences'],'all buffer addresses, sizes and alignments, all allocation/deallocation sequences',
  'Tests check a few fixed sizes and never exhaust an allocator or start from an unaligned buffer.',
  [L+'Allocator.h',S+'Allocator.cpp',C+'ExternalMemoryAllocator.h',CS+'ExternalMemoryAllocator.cpp',C+'HeapAllocator.h',CS+'HeapAllocator.cpp'],
  [('bump pointer with alignment',CS+'ExternalMemoryAllocator.cpp'),('pointer alignment',L+'Allocator.h')],[],['returned pointers, capacity left, release counts'])
p('C06','Hashing is a function of the value, split-independent and FNV-1a',
  'The hash of data is the 64-bit FNV-1a of its bytes, does not depend on how the data is split over several calls, and values that compare equal (strings, string literals, operand and type values) hash equally.',
  ['inputs'],'all byte sequences, lengths and ways to split them; all pairs of equal values',
  'Tests never look at hash values; type and constant deduplication silently depends on them.',
  [L+'FNV1aHasher.h'],[('byte-wise xor and multiply',L+'FNV1aHasher.h')],[],['hash values'])
p('C07','Operands are faithful tagged values',
  'An operand holds exactly the one value it was made from: its kind and value are preserved by copy, move and assignment, each accessor yields the value when the kind matches and nothing otherwise, two operands are equal exactly when kind and value agree, and releasing happens only for owned data. The word an operand stands for is the id of the referenced object or the literal itself.',
  ['inputs'],'all operand kinds and payloads, all pairs',
  'Tests only build operands through high-level calls and never compare or reassign operands of different kinds.',
  [L+'Operand.h',S+'Operand.cpp'],[('type tag and union',L+'Operand.h')],[('operand','kind and payload',L+'Operand.h')],['accessors, ==, hash, emitted word'])
p('C08','Numbers are encoded as SPIR-V literal words and decode back',
  'A numeric value of any supported width is encoded into the number of 32-bit words SPIR-V prescribes, low-order word first and sign- or zero-extended for narrow types, and decoding those words yields the value again.',
  ['inputs'],'all values of all supported integer, floating-point and boolean types',
  'Tests only emit a few small constants and never check the words.',
  [L+'Operand.h',L+'Instruction.h',L+'InstructionTemplate.inl',S+'Constant.cpp',L+'Constant.h'],[('literal splitting',L+'Operand.h')],[],['operand words, constant data'])
p('C09','Literal strings are encoded as NUL-terminated words and decode back',
  'A string of n bytes becomes n/4+1 literal words holding the bytes in order, first byte in the lowest-order byte, NUL-terminated and zero padded; decoding yields exactly the string, and comparing an encoded string with text holds exactly when they are equal.',
  ['inputs'],'all NUL-free byte strings of all lengths, in particular around multiples of four; all pairs for comparison',
  'Tests emit a few names and never check the encoding of lengths divisible by four or near-equal names.',
  [L+'Operand.h',L+'Instruction.h',S+'Instruction.cpp',C+'ReflectionHelper.h'],[('packing of characters into words',L+'Operand.h')],[],['operand words, decoded names'])
p('C10','Instructions are framed exactly: word count, opcode, operands in order',
  'Writing an instruction emits a first word made of the total word count and opcode, then one word per operand in order, so that the declared count equals the number of words emitted. Result and result-type ids are found exactly for the opcodes that have them, and the accessors return the operand at the position SPIR-V prescribes.',
  ['inputs'],'all opcodes, all operand lists (kinds, values, lengths)',
  'Tests compare text produced for a few opcodes; a wrong count for other operand shapes would corrupt the rest of the module.',
  [L+'Instruction.h',S+'Instruction.cpp',L+'InstructionTemplate.inl',L+'Spv.h'],[('word counting and emission',S+'Instruction.cpp'),('result/type tables',L+'Spv.h')],[('instruction','opcode and operand list',L+'Instruction.h')],['emitted words'])
p('C11','Opcode classification tables agree with each other and with the grammar',
  'For every opcode the library knows, whether it has a result id and a result type is answered identically by all tables in the library and by the grammar, as SPIR-V prescribes; the opcode predicates (terminator, type, constant, specialisation constant, execution mode with ids, operand type of arithmetic) accept exactly the opcodes of that class, and every known opcode has a grammar entry with the prescribed operands.',
  ['inputs'],'all 2^32 opcode values for the predicates, all known opcodes for results and grammar entries',
  'Tests touch a few dozen of about 710 opcodes.',
  [L+'SpvDefines.h',L+'Spv.h',S+'Grammar.cpp',L+'Grammar.h'],[('generated tables',L+'Spv.h'),('predicates',L+'SpvDefines.h')],[],['predicates'])
p('C12','Result ids are unique, dense and below the declared bound',
  'When a module is finalised every result-producing instruction gets its own id, ids are consecutive from one with the bound one larger than the largest, instructions without a result get none, and every operand reference is emitted as the id of the instruction it refers to. Re-assigning ids is idempotent.',
  ['programs','histories'],'all modules that can be built through the API, in any order of construction and finalisation',
  'Tests check text of fixed modules, not the id discipline for arbitrary construction orders.',
  [S+'Module.cpp',L+'Module.h',L+'ModuleTemplate.inl',S+'Instruction.cpp'],[('id assignment walk',S+'Module.cpp')],[('bound','largest id plus one',L+'Module.h')],['ids and bound in the emitted words'])
p('C13','Modules are emitted with a correct header and in the required section order',
  'The emitted module starts with the five header words (magic, version, its generator id, bound, schema), followed by the instructions in the logical layout SPIR-V requires, each exactly once; function declarations precede definitions, and blocks and terminators keep program order.',
  ['programs'],'all modules that can be built through the API',
  'Tests emit fixed modules that rarely use all sections.',
  [S+'Module.cpp',L+'Module.h',L+'ModuleTemplate.inl',S+'Function.cpp',S+'BasicBlock.cpp'],[('section iteration order',L+'ModuleTemplate.inl')],[],['emitted words'])
p('C14','Reading arbitrary bytes never misbehaves and never reads past its input',
  'Reading a module from any sequence of words ends with success or a reported failure, without touching memory outside the module and without reading beyond the supplied data; each instruction consumes exactly its declared word count, and instructions that are truncated or whose operands do not fit that count are rejected.',
  ['inputs','fault_sequences'],'all word sequences of all lengths, all points where the reader can fail',
  'Tests only read well-formed modules produced by the library itself or glslang.',
  [S+'Module.cpp',S+'Instruction.cpp',S+'Function.cpp',S+'BasicBlock.cpp',C+'BinaryFileReader.h'],[('operand parsing against the grammar',S+'Instruction.cpp')],[],['return values, sanitizer'])
p('C15','Writing, reading and writing again reproduces the module',
  'A module built through the API and written to words can be read back, and writing the read module yields the same words again; ids, operands, literals and strings survive unchanged.',
  ['programs'],'all modules that can be built through the API and all valid modules accepted by the reader',
  'Tests round-trip six fixed files.',
  [S+'Module.cpp',S+'Instruction.cpp',S+'Operand.cpp'],[('writer and reader',S+'Module.cpp')],[],['words'])
p('C16','Types are compared, hashed and described structurally',
  'Two types are equal exactly when they are built the same way, equal types hash equally, copying preserves equality, and every shape query (scalar, vector, matrix, pointer, image, size and component queries) answers according to how the type was built.',
  ['inputs'],'all type trees, all pairs',
  'Tests build a dozen types; they never compare near-equal ones.',
  [L+'Type.h',S+'Type.cpp'],[('recursive comparison',S+'Type.cpp')],[('type','base, parameters and member list',L+'Type.h')],['==, hash, predicates'])
p('C17','Equal types and constants share one id, different ones never do',
  'Adding a type or constant equal to one already in the module returns the existing instruction; a different one gets its own, so that no duplicate non-aggregate type declaration is ever emitted and two different constants never alias.',
  ['programs','inputs'],'all sequences of type and constant additions',
  'Tests add few types, rarely twice, and never near-equal ones.',
  [S+'Module.cpp',S+'Constant.cpp',S+'Type.cpp'],[('lookup by structural hash',S+'Module.cpp')],[('type/constant tables','type or constant to instruction',L+'Module.h')],['returned instructions'])
p('C18','Replacing or removing an instruction leaves no dangling use',
  'Replacing or gathering the uses of an instruction finds every operand that refers to it, result types included, and only those; removing an instruction, basic block or function removes exactly it, leaves the other instructions and their order unchanged, and drops what the type, constant and name tables recorded about a removed instruction.',
  ['programs','histories'],'all modules, all instructions, any sequence of edits',
  'Tests do not edit finished modules.',
  [S+'Module.cpp',S+'Function.cpp',S+'BasicBlock.cpp',L+'Instruction.h'],[('use traversal',L+'ModuleTemplate.inl')],[],['operands after the edit'])
p('C19','Required capabilities and extensions are declared',
  'Finalising with a grammar (or adding the required capabilities and extensions) declares every capability and extension the grammar lists for an opcode used in the module, each exactly once, and raises the version to the one required; adding a capability with its dependencies adds those it implies.',
  ['programs'],'all modules that can be built through the API',
  'Tests use few capabilities.',
  [S+'Module.cpp',L+'Grammar.h',S+'Grammar.cpp'],[('capability lookup in the grammar',S+'Module.cpp')],[],['declared capabilities'])
p('C20','Graphs keep both edge directions consistent',
  'After any sequence of adding, connecting, disconnecting, erasing or moving nodes, an edge leaves one node exactly when it enters the other, carrying the same data, no edge refers to an erased or moved-from node, and iteration visits every node once, in order of creation. Evaluating an (acyclic) expression graph evaluates every expression the exit needs exactly once, after its inputs. The control-flow graph of a function has one node per block and one edge per branch target; the call graph has one node per function reachable from its root and one edge per call.',
  ['histories'],'all graphs and all sequences of operations',
  'Tests build tiny graphs and never erase, move or iterate them.',
  [C+'Graph.h',C+'Node.h',C+'ExprGraph.h',C+'ControlFlowGraph.h',C+'FunctionCallGraph.h'],[('input and output edge lists',C+'Node.h')],[('node','inputs, outputs, data',C+'Node.h')],['inputs(), outputs(), iteration, evaluateRecursive'])
p('C21','Word streams deliver exactly the words written, in order',
  'A word writer stores the words put into it in order and reports failure when it could not; a word reader delivers exactly the words of its source in order and reports the end; unreadable or short sources are reported as failures.',
  ['inputs','fault_sequences'],'all word sequences, all offsets and lengths, all storage failures',
  'Tests use one writer without failures.',
  [C+'BinaryVectorWriter.h',C+'BinaryFileWriter.h',C+'BinaryFileReader.h',CS+'BinaryFileReader.cpp',CS+'BinaryFileWriter.cpp',L+'Reader.h',L+'Writer.h'],[('vector/file backed streams',C)],[],['words'])
p('C22','Flag sets obey set algebra',
  'Union, intersection, symmetric difference, construction from members, setting a member and the any/all/none/empty tests on flag sets behave as the corresponding set operations on bits, for the flag sets used for memory semantics, image operands and the like.',
  ['inputs'],'all pairs of flag values',
  'Tests use single flags.',
  [L+'Flag.h'],[('bit operations',L+'Flag.h')],[],['flag values'])
p('C23','Linking merges modules without changing meaning',
  'Linking a library into a consumer resolves every matching import to the exported symbol, transfers everything the export depends on exactly once, keeps unrelated code unchanged and reports unmatched or mismatching symbols.',
  ['programs'],'all pairs of modules with linkage decorations',
  'Two fixed modules are linked in the tests.',
  [C+'LinkerHelper.h',CS+'LinkerHelper.cpp','link/source/link.cpp'],[('symbol matching and transfer',CS+'LinkerHelper.cpp')],[],['linked module'])
p('C24','Entry points list exactly the global variables they use',
  'On finalisation each entry point\'s interface lists the global variables its call tree uses (input/output only before SPIR-V 1.4), each once.',
  ['programs'],'all call graphs and variable uses',
  'Tests have one entry point with direct uses.',
  [S+'EntryPoint.cpp',S+'Function.cpp',S+'Module.cpp'],[('use collection',S+'EntryPoint.cpp')],[],['interface operands'])
p('C25','Disassembly and reflection report what the module contains',
  'The textual form shows every instruction of the module with its operands in order, and reflection reports the names, decorations, types and interface variables the module declares.',
  ['programs'],'all modules',
  'Tests disassemble fixed files and check only success.',
  [CS+'ModulePrinter.cpp',CS+'ReflectionHelper.cpp'],[('grammar-driven printing',CS+'ModulePrinter.cpp')],[],['text'])
p('C26','Type-erased callables invoke the stored target',
  'A callable invokes exactly the function, member function or functor it was made from with the given arguments, a copy invokes an equal target of its own, moving transfers the target, and the stored functor is destroyed exactly once and released with its own size.',
  ['inputs','histories'],'all kinds of targets, all arguments, all copy/move/assign histories',
  'Tests do not copy or reassign callables.',
  [C+'Callable.h'],[('base class with virtual invoke',C+'Callable.h')],[],['call results, destruction counts'])
p('C27','Instruction builders emit the requested operation or the error instruction',
  'A builder given operands SPIR-V allows emits exactly the operation it is named after (the generic operators: the one fitting the operand types and signs), with its arguments as operands in SPIR-V order after result type and result id, and an inferred result type that is the one SPIR-V prescribes; given operands whose types the operation does not allow it emits nothing, reports an error and returns the error instruction.',
  ['inputs'],'all builders, all operand types (scalar, vector, matrix, image, pointer; every width, sign, component count) and operand combinations',
  'Tests build a few hand-picked expressions with 32-bit operands and never look at the operands or inferred types.',
  [L+'Instruction.h',S+'Instruction.cpp',S+'TypeInferenceAndValiation.cpp',L+'SpvDefines.h'],[('operand type check and emission',S+'Instruction.cpp'),('result type inference',S+'TypeInferenceAndValiation.cpp')],[],['emitted instruction, its operands, its result type'])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80
        f.write(json.dumps(x)+'\n')
