// Contracts of the module level: ids (C12), emission (C13), round trip (C15).
#ifndef VC_SYMBOLIC
#include "modgen.h"
struct Snap { unsigned kind; const void* p; unsigned lit; };
static vector<Snap> snap(const Instruction& I)
{
	vector<Snap> s; for (auto& o : I) s.push_back({ (unsigned)o.type, o.isInstruction() ? (const void*)o.getInstruction() : o.isBranchTarget() ? (const void*)o.getBranchTarget()->getLabel() : nullptr, o.isLiteral() ? o.getLiteral().value : 0u }); return s;
}
// the words of the module are its instructions, each once, with the ids found in the words themselves
static void check_ids(const Gen& g, const vector<const Instruction*>& seq, const vector<vector<Snap>>& ops, const vector<unsigned>& w)
{
	vector<Parsed> ps; vc_assert(parse(w, ps), "the words are a sequence of instructions");
	vc_assert(ps.size() == seq.size(), "every instruction is emitted exactly once");
	std::map<const void*, unsigned> id; unsigned next = 1; vector<unsigned> rid(seq.size());
	for (size_t i = 0; i < seq.size(); ++i)
	{
		vc_assert(ps[i].op == (unsigned)seq[i]->getOperation(), "instructions are emitted in the layout order"); vc_assert(ps[i].n == ops[i].size() + 1, "all operands are emitted");
		unsigned s = specShape(ps[i].op); if (!(s & 1)) continue;
		unsigned x = w[ps[i].at + (s & 2 ? 2 : 1)];
		vc_assert(x == next, "ids are consecutive from one, in the order of emission"); ++next; id[seq[i]] = x;
	}
	vc_assert(w[3] == next, "the bound is one larger than the largest id");
	for (size_t i = 0; i < seq.size(); ++i) for (size_t k = 0; k < ops[i].size(); ++k)
	{
		const Snap& o = ops[i][k]; unsigned x = w[ps[i].at + 1 + k];
		if (o.p) { auto it = id.find(o.p); vc_assert(it != id.end() && it->second == x, "a reference is emitted as the id of the instruction it refers to"); }
		else if (o.kind == (unsigned)Operand::Type::Literal) vc_assert(x == o.lit, "literals are emitted unchanged");
	}
}
static vector<vector<Snap>> snaps(const vector<const Instruction*>& seq) { vector<vector<Snap>> o; for (auto* i : seq) o.push_back(snap(*i)); return o; }
VC_BOUNDED(mod_ids)
{
	VcAllocator A; Gen g(&A);
	g.m.finalizeEntryPoints(); auto seq = g.sequence(); auto ops = snaps(seq);
	spv::Id last = g.m.assignIDs(); vc_assert((unsigned)last + 1 == g.m.getSpvBound(), "the largest id is returned");
	Words w; vc_assert(g.m.write(w), "writing succeeds"); check_ids(g, seq, ops, w.w);
	// changed modules get new ids
	unsigned n = 1 + pick(3);
	for (unsigned i = 0; i < n; ++i) switch (pick(5))
	{
	case 0: { Type t = g.randomType(); g.m.addType(t); break; }
	case 1: g.m.constant(100 + pick(5)); break;
	case 2: g.gen(g.m.addUndefInstr(), Op::OpUndef); break;
	case 3: { auto q = g.sequence(); const Instruction* x = q[pick((unsigned)q.size())]; bool used = false; for (auto* y : q) for (auto& o : *y) used |= o.isInstruction() && o.getInstruction() == x; if (!used && !x->isTerminator() && x != g.types[0] && g.m.remove(x)) for (auto* l : { &g.results, &g.types, &g.consts, &g.globals }) l->erase(std::remove(l->begin(), l->end(), x), l->end()); break; }
	default: { vector<Function*> fs = g.fns; for (auto* e : g.eps) fs.push_back(e); if (!fs.empty()) { Function* f = fs[pick((unsigned)fs.size())]; auto& p = f->getParameters().emplace_back(f, Op::OpFunctionParameter); p.addOperand(g.anyType()); p.addOperand(InvalidId); } }
	}
	seq = g.sequence(); ops = snaps(seq); last = g.m.assignIDs(); vc_assert((unsigned)last + 1 == g.m.getSpvBound(), "the largest id is returned");
	Words w2; vc_assert(g.m.write(w2), "writing succeeds"); check_ids(g, seq, ops, w2.w);
	vc_cover("end");
}
VC_BOUNDED(mod_ids_again)
{
	VcAllocator A; Gen g(&A); const Grammar* gr = chance(2) ? &grammar() : nullptr;
	Words w, x; vc_assert(g.m.finalizeAndWrite(w, gr), "writing succeeds"); g.m.assignIDs(gr); vc_assert(g.m.write(x), "writing succeeds");
	vc_assert(w.w == x.w, "assigning ids again changes nothing");
	Words y; vc_assert(g.m.finalizeAndWrite(y, gr) && y.w == w.w, "finalising again changes nothing");
	vc_cover("end");
}
VC_BOUNDED(mod_layout)
{
	VcAllocator A; Gen g(&A); Words w; bool r = g.m.finalizeAndWrite(w); vc_assert(r, "writing succeeds");
	vc_assert(w.w.size() >= 5 && w.w[0] == 0x07230203 && w.w[1] == g.m.getSpvVersion() && w.w[2] == (30u << 16) && w.w[3] == g.m.getSpvBound() && w.w[4] == g.m.getSpvSchema(), "header");
	vector<Parsed> ps; vc_assert(parse(w.w, ps), "the words are a sequence of instructions");
	int at = 0; bool fn = false, block = false, defs = false, hasBlock = false; unsigned models = 0;
	for (auto& p : ps)
	{
		if (!fn)
		{
			int s = section(p.op); vc_assert(s >= 0, "only module level instructions outside functions"); vc_assert(s >= at, "sections in the order of the logical layout"); at = s;
			models += s == 3; if (s == 11) { fn = true; block = hasBlock = false; }
			continue;
		}
		switch ((Op)p.op)
		{
		case Op::OpFunctionParameter: vc_assert(!hasBlock, "parameters precede the blocks"); break;
		case Op::OpLabel: vc_assert(!block, "a block starts after the previous one ended"); block = hasBlock = true; break;
		case Op::OpFunctionEnd: vc_assert(!block, "a function ends after its last block"); vc_assert(hasBlock || !defs, "declarations precede definitions"); defs |= hasBlock; fn = false; break;
		default: vc_assert(block, "instructions are in a block"); if (specClass(p.op) & 8) block = false;
		}
	}
	vc_assert(!fn && models == 1, "complete functions, one memory model");
	// module level lists keep program order
	const List<Instruction>* lists[] = { &g.m.getExecutionModes(), &g.m.getSourceStrings(), &g.m.getNames(), &g.m.getModulesProcessed(), &g.m.getDecorations(), &g.m.getTypesAndConstants(), &g.m.getGlobalVariables(), &g.m.getUndefs(), &g.m.getLines() };
	for (int l = 0; l < 9; ++l) { size_t k = 0; for (auto& i : *lists[l]) { vc_assert(k < g.order[l].size() && g.order[l][k] == &i, "program order"); ++k; } vc_assert(k == g.order[l].size(), "each instruction once"); }
	vc_cover("end");
}
VC_BOUNDED(mod_roundtrip)
{
	VcAllocator A; Gen g(&A); Words w; bool r = g.m.finalizeAndWrite(w); vc_assert(r, "writing succeeds");
	Module m2(&A, logger()); WordReader rd(w.w); vc_assert(m2.read(rd, grammar()), "a written module can be read"); vc_assert(rd.p == w.w.size(), "all words are read");
	Words x; vc_assert(m2.write(x), "a read module can be written"); vc_assert(x.w == w.w, "and writing it yields the same words");
	vc_cover("end");
}
VC_BOUNDED(mod_roundtrip_init)
{
	VcAllocator A; Gen g(&A); Words w; bool r = g.m.finalizeAndWrite(w); vc_assert(r, "writing succeeds");
	Module m2(&A, logger()); WordReader rd(w.w); vc_assert(m2.readAndInit(rd, grammar()), "a written module can be read");
	Words x; vc_assert(m2.finalizeAndWrite(x), "a read module can be written"); vc_assert(x.w == w.w, "and writing it yields the same words");
	vc_cover("end");
}
#endif
