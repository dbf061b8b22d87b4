"""Which contract suites decide which property."""
ASSUMPTIONS = [
    "the IR that is verified is clang-18's -O0 output of the unmodified sources after SROA and early-CSE; the shipped build compiles the same sources with another compiler/optimisation level",
    "container lengths < 2^32 and loop counts < 2^48 (address space)",
    "allocators obey their contract: fresh, disjoint, suitably aligned storage of the requested size",
    "pointers to distinct objects compare unequal; machine arithmetic is modelled exactly (bit vectors)",
    "termination is not proved",
]
TRUSTED = ["clang-18 front end and opt-18 SROA/early-CSE", "lvc (this repository's IR verification-condition generator)", "z3 5.3 (SMT)",
           "harness contracts in /verif/harness"]
LIB = ['lib/source/*.cpp']
LIT = ['lib/source/Operand.cpp', 'lib/source/Constant.cpp', 'lib/source/Type.cpp', 'lib/source/Instruction.cpp', 'lib/source/String.cpp']
# logging and names for log messages have no effect on the program's state
LOG = {'~_ZNK?9spvgentwo6Module(8logError|10logWarning|7logInfo|8logDebug|8logFatal|3log).*': '', '~_ZNK9spvgentwo11Instruction7getNameEj': ''}
TECHNIQUE = "contract-based deductive verification: VCs generated from the clang IR of the real sources, discharged by z3"
NOTE = ("All-input proof per contract; loops cut by checked inductive invariants. Trusts clang's front end, the VC generator and z3; "
        "assumes the allocator contract. A refuted obligation is replayed natively; bounded native runs accompany every contract and are never counted as proved.")
BTECH = "contract-based verification, bounded stand-in: executable contracts on the real code over generated modules (ASan/UBSan); not proved"
BNOTE = ("BOUNDED, never counted as proved: the functions involved walk module-wide heap structures that are not (yet) within the verifier's reach, so their contracts are "
         "executed natively on the real code over randomly generated modules, edits and word streams; the stated bound is the number of runs in the evidence.")
PTECH = "contract-based deductive verification of the functions in reach (VCs from the clang IR of the real sources, z3), bounded stand-in for the rest: executable contracts on the real code over generated modules (ASan/UBSan)"
def pnote(proved, bounded):
    return ("PARTLY PROVED, labelled exploration because the rest is bounded. Proved for all inputs: %s. Bounded, never counted as proved (executed natively on the real code; the bound is the number of runs in the evidence): %s. "
            "Callees at the division points are used by contract (recorded calls), so a refutation counts only when an execution of the real code confirms it." % (proved, bounded))
WNOTE = NOTE + (" The module-wide walk, each pass's effect on an arbitrary instruction and the writing are proved; callees at the division points are used by contract (recorded calls), so a refutation "
                "counts only when an execution of the real code confirms it. End-to-end runs over generated modules are bounded extras.")
WALK = ['lib/source/Module.cpp', 'lib/source/Function.cpp', 'lib/source/Instruction.cpp', 'lib/source/Operand.cpp', 'lib/source/BasicBlock.cpp']
_IT = '~_ZNK?9spvgentwo6Module19iterateInstructionsIZN'  # K?: const overload
PASSES = {**LOG, _IT + 'S0_11replaceUses.*': 'ct_replace', _IT + 'S0_10gatherUses.*': 'ct_gather',
          '~_ZN9spvgentwo4ListIPNS_11InstructionEE12emplace_back.*': 'ct_note',
          '~_ZN9spvgentwo6Module19iterateInstructionsIZNS0_23addRequiredCapabilities.*': 'ct_reqcap', '~_ZN9spvgentwo6Module19iterateInstructionsIZNS0_21addRequiredExtensions.*': 'ct_reqext', '~_ZNK9spvgentwo6Module19iterateInstructionsIZNKS0_18getRequiredVersion.*': 'ct_reqver',
          '_ZNK9spvgentwo7Grammar7getInfoEjNS0_9ExtensionE': 'ct_info', '_ZN9spvgentwo6Module13addCapabilityENS_3spv10CapabilityEb': 'ct_addcap', '_ZN9spvgentwo6Module12addExtensionENS_3spv9ExtensionE': 'ct_addext'}
ORDER = {**LOG, '~_ZN9spvgentwo27iterateInstructionContainerI5VisitNS_4ListINS_11InstructionEEEEEbT_RT0_': 'ct_container', '~_ZZN9spvgentwo25iterateModuleInstructionsINS_6ModuleE5VisitEEbRT_T0_ENKUlS4_E0_clINS_8FunctionEEEbS4_': 'ct_function',
         '~_ZZN9spvgentwo25iterateModuleInstructionsINS_6ModuleE5VisitEEbRT_T0_ENKUlS4_E0_clINS_10EntryPointEEEbS4_': 'ct_entry',
         '_ZNK9spvgentwo7HashMapINS_3spv10CapabilityENS_11InstructionEE5beginEv': 'ct_caps_begin', '_ZNK9spvgentwo7HashMapINS_6StringENS_11InstructionEE5beginEv': 'ct_str_begin'}
_ORDER_FN = ('~_ZZN9spvgentwo25iterateModuleInstructionsINS_6ModuleE5VisitEEbRT_T0_ENKUlS4_E0_clINS_8FunctionEEEbS4_', '~_ZZN9spvgentwo25iterateModuleInstructionsINS_6ModuleE5VisitEEbRT_T0_ENKUlS4_E0_clINS_10EntryPointEEEbS4_')
ORDER_BODY = {**{k: v for k, v in ORDER.items() if k not in _ORDER_FN}, '~_ZN9spvgentwo27iterateInstructionContainerI5VisitNS_10BasicBlockEEEbT_RT0_': 'ct_block',
              '_ZNK9spvgentwo10BasicBlock13getTerminatorEv': 'ct_terminator', '_ZNK9spvgentwo10BasicBlock7getNameEv': 'ct_name'}
IDS = {'~_ZN9spvgentwo6Module19iterateInstructionsIZNS0_9assignIDs.*': 'ct_assign', '_ZNK9spvgentwo11Instruction18getResultIdOperandEv': 'ct_result'}
RMFN = {**PASSES, '_ZN9spvgentwo6Module20removeFromLookupMapsEPKNS_11InstructionE': 'ct_fn_drop', '~_ZN9spvgentwo6Module19iterateInstructionsIZNS0_6removeEPKNS_8FunctionE.*': 'ct_rmpass',
        '~_ZZN9spvgentwo6Module6removeEPKNS_8FunctionE.*clERS2_': 'ct_fn_info', '_ZN9spvgentwo4ListINS_8FunctionEE5eraseENS_13EntryIteratorIS1_EEb': 'ct_fn_erase', '_ZN9spvgentwo4ListINS_10EntryPointEE5eraseENS_13EntryIteratorIS1_EEb': 'ct_ep_erase',
        '_ZNK9spvgentwo8Function11getFunctionEv': 'ct_fn_instr_c', '_ZN9spvgentwo8Function11getFunctionEv': 'ct_fn_instr'}
_RMP = '~_ZN9spvgentwo6Module19iterateInstructionsIZNS0_6removeEPKNS_8FunctionE.*'
RMUSE = {**RMFN, _RMP: 'ct_rmvisit', '_ZNK9spvgentwo11Instruction21getFirstActualOperandEv': 'ct_first_actual'}
_HOD = '~_ZN9spvgentwo11FNV1aHasher15hasherOrDefaultI'
HASH = {_HOD + '(j|i|NS_3spv.*|NS_18SamplerImageAccessE)EENS_6Hash64ERKT_S._': 'ct_hash4', _HOD + '(b|h)EENS_6Hash64ERKT_S._': 'ct_hash1', _HOD + '[ymlx]EENS_6Hash64ERKT_S._': 'ct_hash8', '@_ZNK9spvgentwo6HasherINS_4TypeEEclERKS1_RNS_11FNV1aHasherE': 'ct_hash_sub'}
_LO = '_ZN9spvgentwo4ListINS_7OperandEE12emplace_back'
TABLE = {**LOG, '~' + _LO + 'IJRKNS_3spv2IdEEEERS1_DpOT_': 'ct_op_id', '~' + _LO + 'IJ(R?K?j|R?K?NS_9literal_tE)EEERS1_DpOT_': 'ct_op_lit', '~' + _LO + 'IJR?K?PNS_11InstructionEEEERS1_DpOT_': 'ct_op_instr',
         '~_ZN9spvgentwo7HashMapINS_4TypeEPNS_11InstructionEE13emplaceUnique.*': 'ct_type_node', '~_ZN9spvgentwo7HashMapIPKNS_11InstructionEPKNS_4TypeEE13emplaceUnique.*': 'ct_type_info',
         '~_ZN9spvgentwo7HashMapINS_8ConstantEPNS_11InstructionEE13emplaceUnique.*': 'ct_const_node', '~_ZN9spvgentwo7HashMapIPKNS_11InstructionEPKNS_8ConstantEE13emplaceUnique.*': 'ct_const_info',
         '_ZN9spvgentwo6Module8constantIjEEPNS_11InstructionERKT_bPKc': 'ct_length', '~_ZNK9spvgentwo11Instruction16validateOperandsEv': '', '_ZN9spvgentwo4ListINS_11InstructionEE12append_entryEPNS_5EntryIS1_EE': 'ct_append',
         '_ZN9spvgentwo6Module7addNameEPNS_11InstructionEPKc': 'ct_name'}
_AT, _AC = '_ZN9spvgentwo6Module7addTypeERKNS_4TypeEPKc', '_ZN9spvgentwo6Module11addConstantERKNS_8ConstantEPKc'
CHASH = {**{k: 'ct_c' + v[3:] for k, v in HASH.items() if k[0] == '~'}, '_ZNK9spvgentwo6HasherINS_4TypeEEclERKS1_RNS_11FNV1aHasherE': 'ct_chash_type', '@_ZNK9spvgentwo6HasherINS_8ConstantEEclERKS1_RNS_11FNV1aHasherE': 'ct_chash_sub'}
ENTRY = {**LOG, '_ZN9spvgentwo10EntryPoint23finalizeGlobalInterfaceENS_22GlobalInterfaceVersionE': 'ct_finalize_interface'}
REBUILD = {**LOG, '_ZNK9spvgentwo10EntryPoint21getInterfaceVariablesEv': 'ct_interface', '~_ZN9spvgentwo4ListINS_7OperandEE5eraseE.*': 'ct_drop_operand', '~_ZN9spvgentwo26collectReferencedVariables.*': 'ct_collect'}
READOP = {**LOG, '_ZNK9spvgentwo7Grammar7getInfoEjNS0_9ExtensionE': 'ct_entry', '_ZN9spvgentwo11Instruction5resetEv': 'ct_reset_instr', '_ZN9spvgentwo7Grammar20hasOperandParametersENS0_11OperandKindE': 'ct_has_params', '_ZNK9spvgentwo7Grammar20getOperandParametersENS0_11OperandKindEj': 'ct_params',
          '~' + _LO + 'IJR?K?NS_9literal_tEEEERS1_DpOT_': 'ct_take_lit', '~' + _LO + 'IJR?K?NS_3spv2IdEEEERS1_DpOT_': 'ct_take_id'}
COLLECT = {**LOG, '_ZNK9spvgentwo7Operand14getInstructionEv': 'ct_operand_instr', '_ZNK9spvgentwo11Instruction12getOperationEv': 'ct_operation', '_ZNK9spvgentwo11Instruction15getStorageClassEv': 'ct_storage',
           '~_ZNK9spvgentwo4ListINS_7OperandEE8containsI.*': 'ct_listed', '~' + _LO + 'IJR?K?PNS_11InstructionEEEERS1_DpOT_': 'ct_list_var'}
BUILD = {**LOG, '_ZNK9spvgentwo11Instruction7getTypeEv': 'ct_type', '_ZNK9spvgentwo11Instruction5errorEv': 'ct_error', '_ZNK9spvgentwo11Instruction18getResultTypeInstrEv': 'ct_result_type', '_ZNK9spvgentwo6Module13getErrorInstrEv': 'ct_error', '_ZN9spvgentwo6Module13getErrorInstrEv': 'ct_error', '_ZN9spvgentwo6Module16ensureSpvVersionEhh': 'ct_version', '_ZNK9spvgentwo4TypeeqERKS0_': 'ct_equal', '_ZN9spvgentwo6Module7addTypeERKNS_4TypeEPKc': 'ct_addtype', '_ZNK9spvgentwo6Module7newTypeEv': 'ct_new_type', '_ZN9spvgentwo11Instruction22inferResultTypeOperandEv': 'ct_infer', '~_ZNK9spvgentwo11Instruction16validateOperandsEv': ''}
_T, _CL, _WV = '_ZN9spvgentwo4Type', '_ZN9spvgentwo4ListINS_8ConstantEE', '_ZN9spvgentwo6VectorIjE'
CONST = {**LOG, **{_T + c + 'ERKS0_': 'ct_type_copy' for c in ('C1', 'C2')}, **{_T + c + 'EOS0_': 'ct_type_move' for c in ('C1', 'C2')}, _T + 'aSERKS0_': 'ct_type_assign', _T + 'aSEOS0_': 'ct_type_moveassign', _T + '5resetEv': 'ct_type_reset', _T + 'D1Ev': 'ct_nothing', _T + 'D2Ev': 'ct_nothing',
         _CL + 'C2ERKS2_': 'ct_list_copy', _CL + 'C2EOS2_': 'ct_list_move', _CL + 'aSERKS2_': 'ct_list_assign', _CL + 'aSEOS2_': 'ct_list_moveassign', _CL + '5clearEv': 'ct_list_clear', _CL + 'D2Ev': 'ct_nothing',
         _WV + 'C2ERKS1_': 'ct_words_copy', _WV + 'C2EOS1_': 'ct_words_move', _WV + 'aSERKS1_': 'ct_words_assign', _WV + 'aSEOS1_': 'ct_words_moveassign', _WV + '5clearEv': 'ct_words_clear', _WV + 'D2Ev': 'ct_nothing'}
PROPS = {
    'C01': dict(level='proof', suites=[dict(src='list.cpp')]),
    'C02': dict(level='proof', suites=[dict(src='vector.cpp')]),
    'C03': dict(level='proof', suites=[dict(src='string.cpp', link=['lib/source/String.cpp'], opts={'str_insert_cstr': dict(use_redirect={'_ZN9spvgentwo12stringLengthEPKc': 'ct_length'})})]),
    'C04': dict(level='proof', suites=[dict(src='hashmap.cpp', opts={'*': dict(use_lw=True, use_starts=True, use_narrow=True, use_bulk=True, use_abs=True)})]),
    'C05': dict(level='proof', suites=[dict(src='alloc.cpp', link=['lib/source/Allocator.cpp', 'common/source/ExternalMemoryAllocator.cpp', 'common/source/HeapAllocator.cpp'])]),
    'C06': dict(level='proof', suites=[dict(src='hash.cpp', link=['lib/source/String.cpp'], opts={'*': dict(use_abs=True)})]),
    'C07': dict(level='proof', suites=[dict(src='operand.cpp', link=['lib/source/Operand.cpp', 'lib/source/Instruction.cpp', 'lib/source/BasicBlock.cpp'], nlink=LIB)]),
    'C08': dict(level='proof', suites=[dict(src='literal.cpp', link=LIT, nlink=LIB, only='num_.*')]),
    'C09': dict(level='proof', suites=[dict(src='literal.cpp', link=LIT, nlink=LIB, only='str_.*', opts={'str_decode': dict(use_redirect={'_ZN9spvgentwo6String12emplace_backIRKcEEPcOT_': 'ct_string_emplace_back'})})]),
    'C10': dict(level='proof', suites=[dict(src='instr.cpp', link=['lib/source/Instruction.cpp', 'lib/source/Operand.cpp', 'lib/source/BasicBlock.cpp'], nlink=LIB, opts={'*': dict(use_redirect={**LOG, '~_ZNK9spvgentwo11Instruction16validateOperandsEv': '', '_ZNK9spvgentwo7Operand5writeERNS_7IWriterE': 'ct_operand_write'})})]),
    'C11': dict(level='proof', suites=[dict(src='opcode.cpp', nlink=LIB, opts={'*': dict(use_switch=True)})]),
    'C12': dict(level='proof', note=WNOTE, suites=[
        dict(src='walk.cpp', link=WALK, nlink=LIB, only='ids_.*', opts={'*': dict(confirm=True, use_redirect=PASSES), 'ids_assign': dict(use_redirect={**PASSES, **IDS})}), dict(src='module.cpp', nlink=LIB, only='mod_ids.*')]),
    'C13': dict(level='proof', note=WNOTE, suites=[
        dict(src='order.cpp', nlink=LIB, opts={'*': dict(confirm=True, use_redirect=LOG), 'order_sections': dict(use_redirect=ORDER, use_lw=True), 'order_functions': dict(use_redirect=ORDER, use_lw=True), 'order_entries': dict(use_redirect=ORDER, use_lw=True), 'order_body': dict(use_redirect=ORDER_BODY, use_lw=True, unroll_fallback=3)}), dict(src='walk.cpp', link=WALK, nlink=LIB, only='write_.*', opts={'*': dict(confirm=True, use_redirect={**LOG, '~_ZNK9spvgentwo6Module19iterateInstructionsIZNKS0_5write.*': 'ct_writepass', '_ZNK9spvgentwo11Instruction5writeERNS_7IWriterE': 'ct_instr_write'}), 'write_finalize': dict(use_redirect={**LOG, '_ZN9spvgentwo6Module9assignIDsEPKNS_7GrammarE': 'ct_fin_ids', '_ZN9spvgentwo6Module19finalizeEntryPointsEv': 'ct_fin_eps', '_ZNK9spvgentwo6Module5writeERNS_7IWriterE': 'ct_fin_write'})}),
        dict(src='module.cpp', nlink=LIB, only='mod_layout')]),
    'C14': dict(level='exploration', technique=PTECH, note=pnote("reading one instruction (Instruction::readOperands) against any grammar entry of one operand, any list of mandatory operands, enumerants with any number of parameters, for any declared word count and any reader", "the module-level dispatch, function and block parsing, composite operands and bit-mask parameters"), suites=[
        dict(src='readop.cpp', link=['lib/source/Instruction.cpp'], nlink=LIB, opts={'*': dict(confirm=True, use_redirect=READOP, unroll_fallback=3)}),
        dict(src='module2.cpp', nlink=LIB, only='read_.*')]),
    'C17': dict(level='proof', note=WNOTE, suites=[
        dict(src='table.cpp', link=['lib/source/Module.cpp', 'lib/source/Instruction.cpp', 'lib/source/Constant.cpp', 'lib/source/Type.cpp'], nlink=LIB, opts={'*': dict(confirm=True, use_redirect=LOG), 'table_add_type': dict(use_redirect={**TABLE, '@' + _AT: 'ct_sub_type'}), 'table_add_constant': dict(use_redirect={**TABLE, _AT: 'ct_type_of', '@' + _AC: 'ct_sub_const'}), 'table_constant_hash': dict(use_redirect=CHASH)}),
        dict(src='constant.cpp', link=['lib/source/Constant.cpp', 'lib/source/Type.cpp'], nlink=LIB, opts={'*': dict(confirm=True, use_redirect=CONST)}),
        dict(src='module2.cpp', nlink=LIB, only='table_.*')]),
    'C18': dict(level='proof', note=WNOTE, suites=[
        dict(src='walk.cpp', link=WALK, nlink=LIB, only='edit_.*', opts={'*': dict(confirm=True, use_redirect={**PASSES, '_ZN9spvgentwo6Module20removeFromLookupMapsEPKNS_11InstructionE': 'ct_drop', '_ZN9spvgentwo4ListINS_11InstructionEE5eraseENS_13EntryIteratorIS1_EEb': 'ct_erase', '~_ZNK9spvgentwo4ListINS_11InstructionEE7find_ifIZZNS_6Module6remove.*': 'ct_find'}), 'edit_remove_fn': dict(use_redirect=RMFN), 'edit_remove_entry': dict(use_redirect=RMFN), 'edit_remove_fn_uses': dict(use_redirect=RMUSE)}),
        dict(src='module2.cpp', nlink=LIB, only='edit_.*')]),
    'C19': dict(level='proof', note=WNOTE, suites=[
        dict(src='walk.cpp', link=WALK, nlink=LIB, only='req_.*', opts={'*': dict(confirm=True, use_redirect=PASSES), 'req_table': dict(use_switch=True), 'req_add': dict(use_redirect={**LOG, '@_ZN9spvgentwo6Module13addCapabilityENS_3spv10CapabilityEb': 'ct_addcap_rec', '~_ZN9spvgentwo7HashMapINS_3spv10CapabilityENS_11InstructionEE13emplaceUnique.*': 'ct_emplace_cap'}), 'req_extension': dict(use_redirect={**LOG, '_ZN9spvgentwo6Module12addExtensionEPKc': 'ct_addextname'}), 'req_finalize': dict(use_redirect={**PASSES, **IDS, '~_ZN9spvgentwo6Module19iterateInstructionsIZNS0_9assignIDs.*': 'ct_reqall'})}), dict(src='module2.cpp', nlink=LIB, only='req_.*')]),
    'C24': dict(level='exploration', technique=PTECH, note=pnote("which variables of an instruction are collected, how an entry point's interface is rebuilt from the collected list", "the traversal of the call tree"), suites=[
        dict(src='entry.cpp', link=['lib/source/Module.cpp', 'lib/source/EntryPoint.cpp', 'lib/source/Function.cpp', 'lib/source/Instruction.cpp', 'lib/source/BasicBlock.cpp'], nlink=LIB, opts={'*': dict(confirm=True, use_redirect=ENTRY), 'entry_rebuild': dict(use_redirect=REBUILD), 'entry_collect': dict(use_redirect=COLLECT)}),
        dict(src='module2.cpp', nlink=LIB, only='entry_.*')]),
    'C15': dict(level='exploration', technique=BTECH, note=BNOTE, suites=[dict(src='module.cpp', nlink=LIB, only='mod_roundtrip.*')]),
    'C16': dict(level='proof', suites=[dict(src='type.cpp', link=['lib/source/Type.cpp'], opts={'type_hash': dict(confirm=True, use_redirect=HASH), '*': dict(use_redirect={
        '_ZNK9spvgentwo4ListINS_4TypeEEeqERKS2_': 'ct_list_eq', '_ZN9spvgentwo4ListINS_4TypeEEC2ERKS2_': 'ct_list_copy', '_ZN9spvgentwo4ListINS_4TypeEEC2EOS2_': 'ct_list_move',
        '_ZN9spvgentwo4ListINS_4TypeEEaSERKS2_': 'ct_list_assign', '_ZN9spvgentwo4ListINS_4TypeEEaSEOS2_': 'ct_list_moveassign', '_ZN9spvgentwo4ListINS_4TypeEE5clearEv': 'ct_list_clear', '_ZN9spvgentwo4ListINS_4TypeEED2Ev': 'ct_list_destroy',
        '@_ZNK9spvgentwo4Type12containsTypeENS_3spv2OpE': 'ct_contains_op', '@_ZNK9spvgentwo4Type12containsTypeERKS0_': 'ct_contains'})})]),
    'C20': dict(level='proof', suites=[dict(src='graph.cpp', nlink=LIB + ['common/source/FunctionCallGraph.cpp'], opts={'node_disconnect': dict(use_redirect={
        '_ZN9spvgentwo4NodeIjjE13remove_outputEPKS1_': 'ct_rec_output', '_ZN9spvgentwo4NodeIjjE12remove_inputEPKS1_': 'ct_rec_input'}), 'graph_erase': dict(use_redirect={
        '_ZN9spvgentwo4NodeIjjE13remove_outputEPKS1_': 'ct_remove_output', '_ZN9spvgentwo4NodeIjjE12remove_inputEPKS1_': 'ct_remove_input'})})]),
    'C21': dict(level='proof', suites=[dict(src='stream.cpp', link=['common/source/BinaryFileReader.cpp', 'common/source/BinaryFileWriter.cpp'], opts={'*': dict(use_redirect={f: 'ct_' + f for f in ('fopen', 'fclose', 'fseek', 'ftell', 'fread', 'fwrite')})})]),
    'C26': dict(level='proof', suites=[dict(src='callable.cpp')]),
    'C22': dict(level='proof', suites=[dict(src='flag.cpp')]),
    'C27': dict(level='exploration', technique=PTECH, note=pnote("every unary and binary arithmetic, comparison, logical, bit and derivative builder and the generic operators Add, Sub, Equal, Greater etc., for operands of any type (any width, component count, sign; scalars, vectors, matrices, untyped); matrix, bit field, select, pointer comparison, store, vector insert, bitcast, image query and control flow builders; result type inference of all of these", "width conversions, composites, loads and access chains, image sampling, reading and writing, phi and calls"), suites=[dict(src='builder.cpp', link=['lib/source/Instruction.cpp', 'lib/source/Operand.cpp', 'lib/source/BasicBlock.cpp', 'lib/source/Type.cpp', 'lib/source/TypeInferenceAndValiation.cpp'], nlink=LIB, opts={'*': dict(confirm=True, use_redirect=BUILD)})]),
}
NOT_APPLICABLE = {
    'C23': "the linker's result is a relation between three whole modules (two inputs and one output): transfer runs through three pointer-keyed hash maps, recursive transfer of types, constants, functions and blocks, and its meaning-preservation needs an "
           "isomorphism of instruction graphs as ghost state; the verification-condition generator used here has no recursive heap predicates over such graphs, so no contract within its reach states the property for all modules (the containers, ids, tables and edits it is built from are under contract in C01-C04, C12, C17, C18)",
    'C25': "the property fixes no textual format to prove against (the printer's output is its own definition), and the printer and the reflection templates build on std-like string growth per operand kind through virtual printers and grammar tables; "
           "what they read (operands, order, names, literals) is under contract in C07-C10, C13, C17",
}
