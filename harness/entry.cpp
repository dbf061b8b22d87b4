// Contracts of entry point interfaces: every entry point is finalised for the module's version, its old interface is dropped and
// collected anew, and from an arbitrary instruction of its code exactly the variables that belong there are taken, each once.
#include "vc_instr.h"
#include "spvgentwo/Function.h"
#include "spvgentwo/EntryPoint.h"
#include "spvgentwo/ModuleTemplate.inl"
#ifdef VC_SYMBOLIC
template<class T> union RawOf { char c; T x; RawOf() {} ~RawOf() {} };
#define VC_FAM(name, T, n) familyOf(name, n, sizeof(Entry<T>), __builtin_offsetof(Entry<T>, m_pPrev), __builtin_offsetof(Entry<T>, m_pNext))
#define VC_HEADS(L, T, fam, n) (L).m_pBegin = (n) > 0 ? (Entry<T>*)vc_node(fam, 0) : nullptr; (L).m_pLast = (n) > 0 ? (Entry<T>*)vc_node(fam, (n) - 1) : nullptr; (L).m_Elements = (n)
static uint64_t familyOf(const char* name, uint64_t n, uint64_t es, uint64_t prev, uint64_t next) { uint64_t f = vc_family(name, n, es); vc_link(f, prev, next); return f; }
static uint64_t fam, n, at; static bool newer;
extern "C" void ct_finalize_interface(EntryPoint* e, unsigned v) { vc_assert(at < n && e == &((Entry<EntryPoint>*)vc_node(fam, at))->inner(), "every entry point"); vc_assert(v == (unsigned)(newer ? GlobalInterfaceVersion::SpirV14_x : GlobalInterfaceVersion::SpirV1_3), "for the version of the module"); ++at; }
VC_HARNESS(entry_versions)
{
	RawOf<Module> mr; Module& m = mr.x; n = vc_len("entries"); fam = VC_FAM("eps", EntryPoint, n); VC_HEADS(m.m_EntryPoints, EntryPoint, fam, n); at = 0; unsigned v = vc_u32("version"); m.m_spvVersion = v; newer = v >= 0x10400;
	m.finalizeEntryPoints(); vc_assert(at == n && m.m_spvVersion == v, "each of them, once"); vc_cover("end");
}
static EntryPoint* E; static bool collected; static uint64_t first;
extern "C" Range<Instruction::Iterator> ct_interface(const EntryPoint* e) { vc_assert(e == E && at == first, "the interface"); return { Instruction::Iterator(first < n ? (OE*)vc_node(fam, first) : nullptr), Instruction::Iterator(nullptr) }; }
extern "C" OE* ct_drop_operand(List<Operand>* l, List<Operand>::Iterator i, bool destruct) { vc_assert(l == &E->m_EntryPoint && at < n && i.entry() == (OE*)vc_node(fam, at) && destruct && !collected, "the old interface is dropped"); ++at; return at < n ? (OE*)vc_node(fam, at) : nullptr; }
extern "C" void ct_collect(const Function* f, List<Operand>* l, unsigned v, IAllocator*) { vc_assert(f == E && l == &E->m_EntryPoint && v == (unsigned)newer && at == n && !collected, "then the new one is collected, for this version"); collected = true; }
VC_HARNESS(entry_rebuild)
{
	RawOf<EntryPoint> er; E = &er.x; n = vc_len("operands"); fam = VC_FAM("ops", Operand, n); VC_HEADS(E->m_EntryPoint, Operand, fam, n); first = vc_bool("some") ? vc_below("first", n) : n; at = first; collected = false; newer = vc_bool("newer");
	E->finalizeGlobalInterface((GlobalInterfaceVersion)newer); vc_assert(collected, "the interface is rebuilt"); vc_cover("end");
}
// one instruction, any number of operands; what operand i refers to, and whether that is listed already, is arbitrary
static Ops* O; static Instruction *I0, *target; static uint8_t *refs, *isVar, *listed; static uint64_t added, cur; static List<Operand>* out; static unsigned* storage;
static bool bit(uint8_t* a, uint64_t i) { return (vc_inita8(a, i, 0) & 1) != 0; }
static bool belongs(uint64_t i) { unsigned s = vc_inita32(storage, i, 0); return bit(refs, i) && bit(isVar, i) && (newer ? s != 7 : s == 1 || s == 3); }
extern "C" Instruction* ct_operand_instr(const Operand* o) { cur = vc_pos(O->fam, (const OE*)((const char*)o - __builtin_offsetof(OE, m_data))); return bit(refs, cur) ? target + cur : nullptr; }
extern "C" unsigned ct_operation(const Instruction* i) { if (i == I0) return 1; vc_assert(i == target + cur, "the operand's instruction is asked"); return bit(isVar, cur) ? (unsigned)spv::Op::OpVariable : 1u; }
extern "C" unsigned ct_storage(const Instruction* i) { vc_assert(i == target + cur && bit(isVar, cur), "the variable is asked"); return vc_inita32(storage, cur, 0); }
extern "C" bool ct_listed(const List<Operand>* l, Instruction* const* p) { vc_assert(l == out && *p == target + cur, "is this variable listed"); return bit(listed, cur); }
extern "C" Operand* ct_list_var(List<Operand>* l, Instruction** p) { vc_assert(l == out && *p == target + cur && belongs(cur) && !bit(listed, cur), "only variables that belong to the interface are listed, once"); ++added; return nullptr; }
VC_HARNESS(entry_collect)
{
	VcAllocator alloc; RawOf<Function> fr; Function& F = fr.x; RawOf<Entry<BasicBlock>> br; RawOf<Entry<Instruction>> ir; RawOf<List<Operand>> lr; BasicBlock& B = br.x.m_data; Instruction& I = ir.x.m_data; I0 = &I; out = &lr.x; newer = vc_bool("newer");
	List<BasicBlock>& bl = F; bl.m_pBegin = bl.m_pLast = &br.x; bl.m_Elements = 1; br.x.m_pPrev = br.x.m_pNext = nullptr; List<Instruction>& il = B; il.m_pBegin = il.m_pLast = &ir.x; il.m_Elements = 1; ir.x.m_pPrev = ir.x.m_pNext = nullptr; Ops o(I); O = &o;
	target = (Instruction*)vc_array("targets", o.n, sizeof(Instruction)); refs = (uint8_t*)vc_array("refs", o.n, 1); isVar = (uint8_t*)vc_array("isvar", o.n, 1); listed = (uint8_t*)vc_array("listed", o.n, 1); storage = (unsigned*)vc_array("storage", o.n, 4); added = 0;
	collectReferencedVariables(F, *out, newer ? GlobalInterfaceVersion::SpirV14_x : GlobalInterfaceVersion::SpirV1_3, &alloc);
	uint64_t c = 0; for (uint64_t i = 0; i < o.n; ++i) if (belongs(i) && !bit(listed, i)) ++c;
	vc_assert(added == c, "every variable that belongs to the interface is listed"); vc_cover("end");
}
#else
#include <set>
#include <string>
static PlainAllocator malloc_;
struct Code { Module m{ &malloc_ }; std::vector<Instruction*> vars; std::vector<Function*> fns; std::vector<EntryPoint*> eps; };
static void build(Code& c)
{
	static const unsigned classes[] = { 1, 3, 2, 7, 9, 12, 6 }; unsigned n = (unsigned)vc_len("vars");
	for (unsigned i = 0; i < n; ++i) { Instruction& v = c.m.m_GlobalVariables.emplace_back(&c.m, spv::Op::OpVariable); v.emplace_back((Instruction*)nullptr); v.emplace_back(spv::Id(10 + i)); v.emplace_back(literal_t{ classes[vc_below("class", 7)] }); c.vars.push_back(&v); }
	for (uint64_t i = vc_below("functions", 4); i > 0; --i) c.fns.push_back(&c.m.m_Functions.emplace_back(&c.m));
	for (uint64_t i = 1 + vc_below("entries", 2); i > 0; --i) { EntryPoint& e = c.m.m_EntryPoints.emplace_back(&c.m); c.eps.push_back(&e); c.fns.push_back(&e); }
	for (auto* f : c.fns) { f->m_Function.setOperation(spv::Op::OpFunction); for (uint64_t b = vc_below("blocks", 4); b > 0; --b) { BasicBlock& B = f->addBasicBlock(); for (uint64_t k = vc_below("instrs", 4); k > 0; --k) {
		if (vc_below("call", 4) == 0) { Instruction& I = B.List<Instruction>::emplace_back(&B, spv::Op::OpFunctionCall); I.emplace_back((Instruction*)nullptr); I.emplace_back(spv::Id(5)); I.emplace_back(c.fns[vc_below("callee", c.fns.size())]->getFunction()); for (uint64_t j = vc_below("args", 3); j > 0 && n; --j) I.emplace_back(c.vars[vc_below("var", n)]); }
		else { Instruction& I = B.List<Instruction>::emplace_back(&B, spv::Op::OpCopyMemory); for (uint64_t j = vc_below("args", 4); j > 0; --j) { if (n && vc_bool("ref")) I.emplace_back(c.vars[vc_below("var", n)]); else if (vc_bool("other")) I.emplace_back(c.fns[0]->getFunction()); else I.emplace_back(literal_t{ 3u }); } } } } }
	for (auto* e : c.eps) { e->m_EntryPoint.setOperation(spv::Op::OpEntryPoint); e->m_EntryPoint.emplace_back(literal_t{ 0u }); e->m_EntryPoint.emplace_back(e->getFunction()); std::string name = std::string("abcdefgh").substr(0, vc_below("name", 8)); e->m_EntryPoint.appendLiterals(name.c_str()); if (n) for (uint64_t k = vc_below("old", 3); k > 0; --k) e->m_EntryPoint.emplace_back(c.vars[vc_below("oldvar", n)]); }
}
static void finalised(unsigned how)
{
	Code c; build(c); unsigned v = vc_bool("old version") ? 0x10000 + (unsigned)vc_below("minor", 4) * 0x100 : 0x10400 + (unsigned)vc_below("minor", 3) * 0x100; c.m.m_spvVersion = v; bool newer = v >= 0x10400; std::vector<std::vector<unsigned>> head;
	for (auto* e : c.eps) { std::vector<unsigned> h; for (auto& o : e->m_EntryPoint) if (o.isLiteral()) h.push_back(o.getLiteral().value); head.push_back(h); }
	if (how == 0) c.m.finalizeEntryPoints(); else for (auto* e : c.eps) e->finalizeGlobalInterface(newer ? GlobalInterfaceVersion::SpirV14_x : GlobalInterfaceVersion::SpirV1_3);
	for (size_t k = 0; k < c.eps.size(); ++k) {
		std::set<Function*> seen; std::vector<Function*> todo{ c.eps[k] }; std::multiset<Instruction*> want, got; while (!todo.empty()) { Function* f = todo.back(); todo.pop_back(); if (!seen.insert(f).second) continue; for (auto& b : *f) for (auto& i : b) { if (i.getOperation() == spv::Op::OpFunctionCall) todo.push_back((i.begin() + 2u)->getInstruction()->getFunction());
			for (auto& o : i) for (auto* x : c.vars) if (o.getInstruction() == x) { unsigned s = (x->begin() + 2u)->getLiteral().value; if ((newer ? s != 7 : s == 1 || s == 3) && !want.count(x)) want.insert(x); } } }
		std::vector<unsigned> h; unsigned refs = 0; for (auto& o : c.eps[k]->m_EntryPoint) { if (o.isLiteral()) h.push_back(o.getLiteral().value); else if (refs++ > 0) got.insert(o.getInstruction()); else vc_assert(o.getInstruction() == c.eps[k]->getFunction(), "the function is kept"); }
		vc_assert(h == head[k], "execution model and name are kept"); vc_assert(got == want, "the variables used by the call tree, each once");
	}
	vc_cover("end");
}
VC_HARNESS(entry_versions) { finalised(0); }
VC_HARNESS(entry_rebuild) { finalised(1); }
VC_HARNESS(entry_collect)
{
	Code c; build(c); bool newer = vc_bool("newer"); List<Operand> out(&malloc_); std::multiset<Instruction*> want, got; if (!c.vars.empty() && vc_bool("listed")) { out.emplace_back(c.vars[0]); want.insert(c.vars[0]); } Function* F = c.fns[vc_below("of", c.fns.size())];
	std::set<Function*> seen; std::vector<Function*> todo{ F }; while (!todo.empty()) { Function* f = todo.back(); todo.pop_back(); if (!seen.insert(f).second) continue; for (auto& b : *f) for (auto& i : b) { if (i.getOperation() == spv::Op::OpFunctionCall) todo.push_back((i.begin() + 2u)->getInstruction()->getFunction());
		for (auto& o : i) for (auto* x : c.vars) if (o.getInstruction() == x) { unsigned s = (x->begin() + 2u)->getLiteral().value; if ((newer ? s != 7 : s == 1 || s == 3) && !want.count(x)) want.insert(x); } } }
	collectReferencedVariables(*F, out, newer ? GlobalInterfaceVersion::SpirV14_x : GlobalInterfaceVersion::SpirV1_3, &malloc_);
	for (auto& o : out) got.insert(o.getInstruction()); vc_assert(got == want, "the variables used by the call tree, each once"); vc_cover("end");
}
#endif
