// Contracts of Operand: a tagged value (instruction, branch target, literal or id).
#include "vc.h"
#include "spvgentwo/Instruction.h"
#include "spvgentwo/BasicBlock.h"
#include "spvgentwo/Writer.h"
using namespace spvgentwo;
using OT = Operand::Type;
// an arbitrary operand: kind k, payload p
struct AnyOp { unsigned k; uint64_t p; Instruction* i; BasicBlock* b; unsigned l;
	AnyOp(const char* kn, const char* pn) { k = (unsigned)vc_below(kn, 4); p = vc_u64(pn); i = (Instruction*)p; b = (BasicBlock*)p; l = (unsigned)p; }
	Operand make() const { return k == 0 ? Operand(i) : k == 1 ? Operand(b) : k == 2 ? Operand(literal_t(l)) : Operand((spv::Id)l); }
};
static void is_exactly(const Operand& o, const AnyOp& a)
{
	vc_assert((unsigned)o.type == a.k, "kind");
	vc_assert(o.isInstruction() == (a.k == 0) && o.isBranchTarget() == (a.k == 1) && o.isLiteral() == (a.k == 2) && o.isId() == (a.k == 3), "exactly the kind's query holds");
	vc_assert(o.getInstruction() == (a.k == 0 ? a.i : nullptr), "getInstruction");
	vc_assert(o.getBranchTarget() == (a.k == 1 ? a.b : nullptr), "getBranchTarget");
	vc_assert(o.getLiteral().value == (a.k == 2 ? a.l : 0u), "getLiteral");
	vc_assert((unsigned)o.getId() == (a.k == 3 ? a.l : 0u), "getId");
	vc_assert(static_cast<Instruction*>(o) == (a.k == 0 ? a.i : nullptr), "conversion to instruction");
	vc_assert(static_cast<BasicBlock*>(o) == (a.k == 1 ? a.b : nullptr), "conversion to block");
	vc_assert(static_cast<spv::Id>(o) == (spv::Id)(a.k == 3 ? a.l : 0u), "conversion to id");
	vc_assert(o.operator literal_t().value == (a.k == 2 ? a.l : 0u), "conversion to literal");
}
VC_HARNESS(operand_make) { AnyOp a("k", "p"); Operand o(a.make()); is_exactly(o, a); vc_cover("end"); }
VC_HARNESS(operand_copy) { AnyOp a("k", "p"); Operand o(a.make()), c(o); is_exactly(c, a); is_exactly(o, a); vc_cover("end"); }
VC_HARNESS(operand_move) { AnyOp a("k", "p"); Operand o(a.make()), c(stdrep::move(o)); is_exactly(c, a); vc_cover("end"); }
VC_HARNESS(operand_assign)
{
	AnyOp a("k", "p"), b("k2", "p2"); Operand o(a.make()), c(b.make());
	Operand& r = (c = o);
	vc_assert(&r == &c, "assignment returns its target"); is_exactly(c, a); is_exactly(o, a); vc_cover("end");
}
VC_HARNESS(operand_move_assign)
{
	AnyOp a("k", "p"), b("k2", "p2"); Operand o(a.make()), c(b.make());
	Operand& r = (c = stdrep::move(o));
	vc_assert(&r == &c, "assignment returns its target"); is_exactly(c, a); vc_cover("end");
}
VC_HARNESS(operand_self_assign)
{
	AnyOp a("k", "p"); Operand o(a.make()); Operand& r = o;
	o = r; is_exactly(o, a); o = stdrep::move(r); is_exactly(o, a); vc_cover("end");
}
VC_HARNESS(operand_equal)
{
	AnyOp a("k", "p"), b("k2", "p2"); Operand o(a.make()), c(b.make());
	bool same = a.k == b.k && (a.k < 2 ? a.p == b.p : a.l == b.l);
	vc_assert((o == c) == same, "operands are equal exactly when kind and value agree");
	vc_assert((c == o) == same, "symmetric");
	vc_assert(o == o, "reflexive");
	vc_cover("end");
}
VC_HARNESS(operand_equal_value)
{
	AnyOp a("k", "p"); Operand o(a.make()); uint64_t q = vc_u64("q"); const Instruction* i = (const Instruction*)q; const BasicBlock* b = (const BasicBlock*)q; unsigned l = (unsigned)q;
	vc_assert((o == i) == (a.k == 0 && a.p == q) && (o != i) == !(a.k == 0 && a.p == q), "comparison with an instruction");
	vc_assert((o == b) == (a.k == 1 && a.p == q) && (o != b) == !(a.k == 1 && a.p == q), "comparison with a block");
	vc_assert((o == literal_t(l)) == (a.k == 2 && a.l == l) && (o != literal_t(l)) == !(a.k == 2 && a.l == l), "comparison with a literal");
	vc_assert((o == (spv::Id)l) == (a.k == 3 && a.l == l) && (o != (spv::Id)l) == !(a.k == 3 && a.l == l), "comparison with an id");
	vc_cover("end");
}
// a sink with an arbitrary answer
struct VcSink : IWriter { unsigned calls = 0, last = 0; bool ok; bool put(unsigned w) override { ++calls; last = w; return ok; } };
VC_HARNESS(operand_write)
{
	AnyOp a("k", "p"); vc_assume(a.k >= 2);
	VcSink w; w.ok = vc_bool("ok");
	Operand o(a.make());
	bool r = o.write(w);
	bool valid = a.k == 2 || a.l != 0;
	vc_assert(w.calls == (valid ? 1u : 0u), "one word is written, none for the invalid id");
	if (valid) vc_assert(w.last == a.l, "the word is the value");
	vc_assert(r == (valid && w.ok), "success exactly when the word was accepted");
	vc_cover("end");
}
VC_HARNESS(operand_write_reference)
{
	// an instruction with a result id and, by choice, a result type in front of it
	unsigned id = vc_u32("id"); bool typed = vc_bool("typed"); bool viaBlock = vc_bool("block");
	VcSink w; w.ok = vc_bool("ok");
	Entry<Operand> e0(literal_t(0u)), e1((spv::Id)id), e2(literal_t(7u));
	Entry<Operand>* first = typed ? &e0 : &e1;
	e0.m_pNext = &e1; e1.m_pPrev = typed ? &e0 : nullptr; e1.m_pNext = &e2; e2.m_pPrev = &e1;
	VcBox<Instruction> box; Instruction& i = box.x;
	VcBox<BasicBlock> bb;
	Instruction& target = viaBlock ? *bb.x.getLabel() : i;
	vc_assume(!(viaBlock && typed));
	target.m_Operation = viaBlock ? spv::Op::OpLabel : typed ? spv::Op::OpIAdd : spv::Op::OpTypeFloat;
	target.m_pBegin = first; target.m_pLast = &e2; target.m_Elements = typed ? 3 : 2;
	Operand o = viaBlock ? Operand(&bb.x) : Operand(&i);
	bool r = o.write(w);
	vc_assert(w.calls == 1 && w.last == id, "the word of a reference is the id of the referenced instruction or label");
	vc_assert(r == w.ok, "success exactly when the word was accepted");
	vc_cover("end");
}
