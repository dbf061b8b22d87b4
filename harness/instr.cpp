// Contracts of Instruction: framing (word count, opcode, operands in order), result operands, accessors.
#include "vc_instr.h"
struct Sink : IWriter {
	unsigned* w; uint64_t n = 0, cap, failAt;
	Sink(uint64_t c) : w((unsigned*)vc_array("out", c, 4)), cap(c), failAt(vc_u64("failAt")) {}
	bool put(unsigned x) override { if (n == failAt) return false; vc_assert(n < cap, "no more words than declared"); w[n++] = x; return true; }
};
VC_HARNESS(instr_framing)
{
	VC_INSTR(I); Ops o(I); unsigned op = (unsigned)I.m_Operation; vc_assume(o.n < 0xffffffff);
	vc_assert(I.getWordCount() == o.n + 1, "one word for the opcode and one per operand");
	vc_assert(I.getOpCode() == ((op & 0xffff) | (unsigned)((o.n + 1) << 16)), "word count in the high half, opcode in the low half");
	vc_assert(I.getOperation() == (spv::Op)op && (I == (spv::Op)op) && !(I != (spv::Op)op), "operation");
	unsigned w = I.getOpCode();
	if (o.n + 1 <= 0xffff && op <= 0xffff) vc_assert(getOperation(w) == (spv::Op)op && getOperandCount(w) == o.n + 1 && makeOpCode((spv::Op)op, (unsigned)(o.n + 1)) == w, "first word decodes");
	vc_cover("end");
}
template<class F> void write(F pre)
{
	VC_INSTR(I); Ops o(I); pre(o); unsigned op = (unsigned)I.m_Operation;
	Sink s(o.n + 1);
	bool r = I.write(s);
	if (r)
	{
		vc_assert(o.n + 1 <= 0xffff, "an instruction whose count does not fit is not written");
		vc_assert(s.n == o.n + 1, "the declared count equals the number of words written");
		vc_assert(s.w[0] == ((op & 0xffff) | (unsigned)((o.n + 1) << 16)), "first word");
		VC_FORALL(i, o.n) vc_assert(s.w[1 + i] == o.word(i), "operands in order");
	}
	vc_cover("end");
}
VC_HARNESS(instr_write) { write([](Ops&) {}); }
VC_HARNESS(instr_write_succeeds)
{
	VC_INSTR(I); Ops o(I); vc_assume(o.n + 1 <= 0xffff);
	Sink s(o.n + 1); vc_assume(s.failAt > o.n);
	bool r = I.write(s);
	if (!r) { uint64_t i = s.n - 1; vc_assert(s.n > 0 && i < o.n && o.bad(i), "writing fails only for an operand without a word"); }
	vc_cover("end");
}
VC_HARNESS(instr_write_fails)
{
	VC_INSTR(I); Ops o(I);
	Sink s(o.n + 1); vc_assume(s.failAt <= o.n);
	vc_assert(!I.write(s), "a failing writer fails the instruction");
	vc_assert(s.n <= s.failAt, "nothing is written after the failure");
	vc_cover("end");
}
#ifndef VC_SYMBOLIC
VC_BOUNDED(instr_write_long)
{
	VC_INSTR(I); uint64_t k = vc_below("k", 5); Ops o(I, 65532 + k);
	Sink s(o.n + 1); vc_assume(s.failAt > o.n);
	bool r = I.write(s);
	bool bad = false; for (uint64_t i = 0; i < o.n; ++i) bad |= o.bad(i);
	vc_assert(r == (o.n + 1 <= 0xffff && !bad), "written exactly when the word count fits");
	if (r) vc_assert(s.n == o.n + 1 && (s.w[0] >> 16) == s.n, "the declared count equals the number of words written");
	vc_cover("end");
}
#endif
// result and result type
static void known(unsigned op, const Ops& o) { unsigned s = specShape(op); vc_assume(s != 4); vc_assume(o.n >= (s & 1) + ((s >> 1) & 1)); }
VC_HARNESS(instr_result_operands)
{
	VC_INSTR(I); Ops o(I); unsigned op = (unsigned)I.m_Operation, s = specShape(op); known(op, o);
	bool res = (s & 1) != 0, type = (s & 2) != 0;
	vc_assert(I.getResultTypeOperand().entry() == (type ? o.node(0) : nullptr), "the result type is the first operand, of exactly the opcodes with a result type");
	vc_assert(I.getResultIdOperand().entry() == (res ? o.node(type ? 1 : 0) : nullptr), "the result id follows the result type, of exactly the opcodes with a result");
	uint64_t k = (res ? 1 : 0) + (type ? 1 : 0);
	vc_assert(I.getFirstActualOperand().entry() == o.node(k), "the first actual operand follows the result");
	vc_assert(I.hasResult() == res && I.hasResultType() == type && I.hasResultAndType() == (res && type), "queries");
	uint64_t at = type ? 1 : 0;
	vc_assert((unsigned)I.getResultId() == (res && o.kind(at) == 3 ? o.value(at) : 0u), "result id");
	if (type) vc_assert(I.getResultTypeInstr() == (o.kind(0) == 0 ? (Instruction*)o.payload(0) : nullptr), "result type instruction");
	vc_cover("end");
}
VC_HARNESS(instr_classes)
{
	VC_INSTR(I); unsigned op = (unsigned)I.m_Operation; unsigned c = specClass(op);
	vc_assert(I.isType() == ((c & 1) != 0) && I.isConstant() == ((c & 2) != 0) && I.isSpecConstant() == ((c & 4) != 0) && I.isSpecOrConstant() == ((c & 6) != 0) && I.isTerminator() == ((c & 8) != 0), "class queries");
	vc_cover("end");
}
// exactly the operand at position k was replaced by id
static void only_id_changed(const Instruction& I, const Ops& o, bool changed, uint64_t k, unsigned id)
{
	vc_assert(I.size() == o.n, "number of operands");
	VC_FORALL(i, o.n)
	{
		const Operand& x = o.node(i)->inner();
		if (changed && i == k) vc_assert(x.isId() && (unsigned)x.getId() == id, "the result operand is the id");
		else vc_assert((unsigned)x.type == o.kind(i) && (o.kind(i) < 2 ? (uint64_t)x.instruction == o.payload(i) : (unsigned)x.id == o.value(i)), "other operands are kept");
		vc_assert(o.node(i)->next() == o.node(i + 1), "operand order is kept");
	}
}
VC_HARNESS(instr_assign_id)
{
	VC_INSTR(I); Ops o(I); unsigned op = (unsigned)I.m_Operation, s = specShape(op); known(op, o);
	unsigned id = vc_u32("id");
	I.assignResultId((spv::Id)id);
	only_id_changed(I, o, (s & 1) != 0, s == 3 ? 1 : 0, id);
	vc_cover("end");
}
VC_HARNESS(instr_assign_next_id)
{
	VC_INSTR(I); Ops o(I); unsigned op = (unsigned)I.m_Operation, s = specShape(op); known(op, o);
	bool over = vc_bool("overwrite"); unsigned bound = vc_u32("bound");
#ifdef VC_SYMBOLIC
	alignas(Module) static char raw[sizeof(Module)]; Module& m = *(Module*)raw;
#else
	Module& m = *someModule();
#endif
	m.m_spvBound = bound; I.m_parent.pModule = &m;
	uint64_t at = s == 3 ? 1 : 0; unsigned old = s & 1 ? (o.kind(at) == 3 ? o.value(at) : 0u) : 0u;
	spv::Id r = I.assignResultId(over);
	bool now = (s & 1) && (over || old == 0);
	only_id_changed(I, o, now, at, bound);
	vc_assert((unsigned)r == (now ? bound : 0u), "the assigned id is returned");
	vc_assert(m.m_spvBound == (now ? bound + 1 : bound), "the module's next id moves on exactly when one was used");
	vc_cover("end");
}
VC_HARNESS(instr_storage_class)
{
	VC_INSTR(I); Ops o(I); unsigned op = (unsigned)I.m_Operation;
	bool ptr = op == 32, var = op == 59; vc_assume((!ptr || o.n >= 2) && (!var || o.n >= 3));
	uint64_t k = ptr ? 1 : 2;
	unsigned want = ptr || var ? (o.kind(k) == 2 ? o.value(k) : 0u) : (unsigned)spv::StorageClass::Max;
	vc_assert((unsigned)I.getStorageClass() == want, "storage class of OpTypePointer and OpVariable");
	vc_cover("end");
}
VC_HARNESS(instr_reset)
{
	VC_INSTR(I); Ops o(I);
	I.reset();
	vc_assert(I.getOperation() == spv::Op::OpNop && I.empty() && I.size() == 0 && I.begin() == nullptr, "an empty OpNop");
	VC_FORALL(i, o.n) vc_assert(!vc_live(o.node(i)), "operands are released");
	vc_cover("end");
}
static void has_operands(const Instruction& I, const Ops& o)
{
	vc_assert(I.size() == o.n && I.begin().entry() == o.node(0) && (o.n == 0 || I.last().entry() == o.node(o.n - 1)), "the operands are taken over");
	VC_FORALL(i, o.n) { vc_assert(vc_live(o.node(i)), "operands are kept"); vc_assert((unsigned)o.node(i)->inner().type == o.kind(i) && o.node(i)->next() == o.node(i + 1), "operands in order"); }
}
VC_HARNESS(instr_move)
{
	VC_INSTR(I); Ops o(I); unsigned op = (unsigned)I.m_Operation; Module* m = I.m_parent.pModule;
	VcBox<Instruction> b(stdrep::move(I)); Instruction& J = b.x;
	vc_assert(J.getOperation() == (spv::Op)op && J.getParentType() == Instruction::ParentType::Module && J.getModule() == m, "operation and parent");
	has_operands(J, o);
	vc_assert(I.size() == 0 && I.begin() == nullptr, "the source is empty");
	vc_cover("end");
}
VC_HARNESS(instr_move_to)
{
	VC_INSTR(I); Ops o(I); unsigned op = (unsigned)I.m_Operation;
	Module* m = (Module*)vc_opaque("other");
	VcBox<Instruction> b(m, stdrep::move(I)); Instruction& J = b.x;
	vc_assert(J.getOperation() == (spv::Op)op && J.getParentType() == Instruction::ParentType::Module && J.getModule() == m, "operation and new parent");
	has_operands(J, o);
	vc_cover("end");
}
VC_HARNESS(instr_move_assign)
{
	VC_INSTR(I); Ops o(I); unsigned op = (unsigned)I.m_Operation;
	VcBox<Instruction> b; Instruction& J = b.x; J.m_pAllocator = &alloc; J.m_Operation = (spv::Op)vc_u32("op2");
	unsigned k = (unsigned)vc_below("k", 3); for (unsigned i = 0; i < k; ++i) J.addOperand(literal_t(i));
	J = stdrep::move(I);
	vc_assert(J.getOperation() == (spv::Op)op, "operation");
	has_operands(J, o);
	vc_cover("end");
}
VC_HARNESS(instr_add_operand)
{
	VC_INSTR(I); Ops o(I); unsigned k = (unsigned)vc_below("k", 4); uint64_t p = vc_u64("p"); unsigned op = (unsigned)I.m_Operation;
	Operand& r = k == 0 ? I.addOperand((Instruction*)p) : k == 1 ? I.addOperand((BasicBlock*)p) : k == 2 ? I.addOperand(literal_t((unsigned)p)) : I.addOperand((spv::Id)(unsigned)p);
	vc_assert(I.size() == o.n + 1 && &r == &I.back() && (unsigned)I.getOperation() == op, "one more operand, at the end");
	vc_assert((unsigned)r.type == k && (k < 2 ? (uint64_t)r.instruction == p : (unsigned)r.id == (unsigned)p), "the operand is the value");
	VC_FORALL(i, o.n) { vc_assert((unsigned)o.node(i)->inner().type == o.kind(i), "other operands are kept"); vc_assert(o.node(i)->next() == (i + 1 < o.n ? o.node(i + 1) : I.lastEntry()), "operand order"); }
	vc_cover("end");
}
// makeOp: the arguments become the operands, in order (opcodes without result type: nothing is inferred)
#ifdef VC_SYMBOLIC
#define PARENT(I) // (validating the operands is dropped from the extraction: it only logs and makes no change)
#else
#define PARENT(I) static PlainAllocator plain; static Module owner(&plain); owner.setITypeInferenceAndVailation(nullptr); I.m_parentType = Instruction::ParentType::Module; I.m_parent.pModule = &owner
#endif
VC_HARNESS(instr_make_op)
{
	VC_INSTR(I); Ops o(I); PARENT(I); unsigned op = vc_u32("newop"); vc_assume((specShape(op) & 6) == 0);
	Instruction* a = (Instruction*)vc_u64("a"); BasicBlock* b = (BasicBlock*)vc_u64("b"); unsigned c = vc_u32("c"), d = vc_u32("d"), f = vc_u32("f"); int e = (int)vc_u32("e"); uint64_t g = vc_u64("g");
	Instruction* r = I.makeOp((spv::Op)op, a, (spv::Id)d, b, literal_t(c), e, f, (sgt_uint64_t)g);
	vc_assert(r == &I && I.getOperation() == (spv::Op)op && I.size() == 8, "operation and number of operands");
	auto it = I.begin();
	vc_assert(it->isInstruction() && it->getInstruction() == a, "1st operand"); ++it;
	vc_assert(it->isId() && (unsigned)it->getId() == d, "2nd operand"); ++it;
	vc_assert(it->isBranchTarget() && it->getBranchTarget() == b, "3rd operand"); ++it;
	vc_assert(it->isLiteral() && it->getLiteral().value == c, "4th operand"); ++it;
	vc_assert(it->isLiteral() && it->getLiteral().value == (unsigned)e, "5th operand"); ++it;
	vc_assert(it->isLiteral() && it->getLiteral().value == f, "6th operand"); ++it;
	vc_assert(it->isLiteral() && it->getLiteral().value == (unsigned)g, "7th operand"); ++it;
	vc_assert(it->isLiteral() && it->getLiteral().value == (unsigned)(g >> 32), "8th operand");
	vc_cover("end");
}
VC_HARNESS(instr_make_op_empty)
{
	VC_INSTR(I); Ops o(I); unsigned op = vc_u32("newop"); vc_assume((specShape(op) & 6) == 0);
	I.makeOp((spv::Op)op);
	vc_assert(I.getOperation() == (spv::Op)op && I.empty(), "no operands");
	vc_cover("end");
}
// parents
VC_HARNESS(instr_parent)
{
	VC_INSTR(I); Module* m = (Module*)vc_opaque("m"); I.m_parentType = Instruction::ParentType::Module; I.m_parent.pModule = m;
	vc_assert(I.getModule() == m && I.getFunction() == nullptr && I.getBasicBlock() == nullptr, "an instruction of a module");
	BasicBlock* b = (BasicBlock*)vc_opaque("b"); I.m_parentType = Instruction::ParentType::BasicBlock; I.m_parent.pBasicBlock = b;
	vc_assert(I.getBasicBlock() == b, "an instruction of a block");
	vc_cover("end");
}
#ifndef VC_SYMBOLIC
VC_BOUNDED(instr_branch_targets)
{
	VC_INSTR(I); unsigned op = (unsigned)I.m_Operation; I.m_Operation = (spv::Op)(vc_bool("branch") ? 249 + op % 8 : op % 400); op = (unsigned)I.m_Operation;
	I.m_parentType = Instruction::ParentType::Module; I.m_parent.pModule = someModule();
	static BasicBlock* bb[2]; static Instruction* ins; static Function* fn;
	if (!ins) { fn = &someModule()->addFunction(); for (auto& b : bb) b = new BasicBlock(fn); ins = new Instruction(); ins->m_parent.pModule = someModule(); ins->m_parentType = Instruction::ParentType::Module; ins->setOperation(spv::Op::OpConstantTrue); }
	std::vector<BasicBlock*> want; uint64_t n = vc_len("n");
	for (uint64_t i = 0; i < n; ++i) { unsigned k = (unsigned)vc_below("k", 5);
		if (k < 2) { I.addOperand(bb[k]); want.push_back(bb[k]); }
		else if (k == 2) { Instruction* l = bb[0]->getLabel(); l->setOperation(spv::Op::OpLabel); I.addOperand(l); want.push_back(bb[0]); }
		else if (k == 3) I.addOperand(ins);
		else I.addOperand(literal_t(3u)); }
	List<BasicBlock*> out(&alloc);
	bool r = I.getBranchTargets(out);
	bool term = (specClass(op) & 8) != 0;
	vc_assert(r == term, "terminators only");
	vc_assert(out.size() == (term ? want.size() : 0), "number of targets");
	uint64_t j = 0; if (term) for (BasicBlock* b : out) { vc_assert(b == want[j], "targets in order"); ++j; }
	vc_cover("end");
}
#endif
