// Contracts of reading one instruction (C14): whatever the declared word count, the words and the point where the source ends, the
// instruction takes its words one by one and never more than declared, refuses what does not fit its grammar entry exactly, and on
// success holds one operand per word, in order and of the prescribed kind. The grammar entry has one operand of any kind and quantifier.
#include "vc_instr.h"
#include "spvgentwo/Grammar.h"
#include "spvgentwo/Reader.h"
using GO = Grammar::Operand; using GC = Grammar::OperandCategory; using GK = Grammar::OperandKind; using GQ = Grammar::Quantifier;
enum Shape { IDS, WORDS, NUMBER, SPEC, STRING, LIST, PARAMS };
#ifdef VC_SYMBOLIC
template<class T> union RawOf { char c; T x; RawOf() {} ~RawOf() {} };
struct Words { uint32_t* a; uint64_t n; unsigned at(uint64_t i) const { return vc_inita32(a, i, 0); } };
#else
struct Words { std::vector<unsigned> a; uint64_t n; unsigned at(uint64_t i) const { return a[i]; } };
#endif
static Words W; static uint64_t N, pos, failAt, added; static bool failed, resets; static Instruction* I0; static Shape shape;
struct Source : IReader {
	bool get(unsigned& w) override
	{
		vc_assert(!failed, "nothing is read after the source has ended"); vc_assert(pos < N, "never more words than the instruction declares");
		vc_assert(added == pos, "every word read so far is an operand");
		if (pos == failAt) { failed = true; return false; }
		w = W.at(pos); ++pos; return true;
	}
};
static Words cat; static uint64_t M; static bool hasParams; // LIST: M operands, PARAMS: the enumerant has M parameters; odd: an id
static bool isId(uint64_t i) { if (shape == LIST) return (cat.at(i) & 1) != 0; if (shape == PARAMS) return i > 0 && (cat.at(i - 1) & 1) != 0; return shape == IDS || (shape == SPEC && i > 0); }
static bool terminates(unsigned w) { return (w & 0xffu) == 0 || (w & 0xff00u) == 0 || (w & 0xff0000u) == 0 || (w & 0xff000000u) == 0; }
static GO entry(Shape s, GQ q)
{
	shape = s; GO o; o.name = ""; o.quantifier = q; unsigned k = (unsigned)vc_below("kind", 61);
	if (s == IDS) { o.category = GC::Id; vc_assume(k != 53 && k != 57); }
	else if (s == WORDS) { unsigned c = (unsigned)vc_below("category", 3); o.category = c == 0 ? GC::Literal : c == 1 ? GC::ValueEnum : GC::BitEnum; vc_assume(k != 53 && k != 55 && k != 57); if (c > 0) vc_assume(!Grammar::hasOperandParameters((GK)k)); }
	else if (s == PARAMS) { o.category = GC::ValueEnum; vc_assume(k != 53 && k != 55 && k != 57); }
	else { o.category = GC::Literal; k = s == NUMBER ? 55 : s == SPEC ? 57 : 53; }
	o.kind = (GK)k; return o;
}
// what must happen
static bool fits(GQ q)
{
	if (shape == LIST) return N == M && failAt >= N;
	if (N == 0) return q != GQ::One;
	if (shape == STRING) { uint64_t c = 0; bool end = false; while (c < N) { if (c == failAt) return false; ++c; if (terminates(W.at(c - 1))) { end = true; break; } } return end && c == N; }
	if (failAt < N) return false;
	if (shape == PARAMS) return N == 1 + (hasParams ? M : 0);
	if (shape == NUMBER || shape == SPEC) return true;
	return N == 1 || q == GQ::ZeroOrAny;
}
#ifdef VC_SYMBOLIC
static RawOf<Grammar> gr; static RawOf<Grammar::Instruction> info; static RawOf<GO> op; static GO* gops; static bool known; static unsigned op0;
extern "C" const Grammar::Instruction* ct_entry(const Grammar* g, unsigned o, unsigned short e) { vc_assert(g == &gr.x && o == op0 && e == 0, "the entry of the opcode read is used"); return known ? &info.x : nullptr; }
extern "C" void ct_reset_instr(Instruction* i) { vc_assert(i == I0 && !resets && pos == 0 && added == 0, "what was there before is dropped first"); resets = true; }
extern "C" bool ct_has_params(unsigned short) { return shape == PARAMS; }
static RawOf<Vector<GO>> params; static RawOf<OE> lastE;
extern "C" const Vector<GO>* ct_params(const Grammar* g, unsigned short k, unsigned v) { vc_assert(g == &gr.x && shape == PARAMS && k == (unsigned)op.x.kind && pos == 1 && v == W.at(0), "the parameters of the enumerant read"); return hasParams ? &params.x : nullptr; }
extern "C" Operand* ct_take_lit(List<Operand>* l, literal_t* v) { vc_assert(l == I0 && added + 1 == pos && v->value == W.at(added) && !isId(added), "the word read becomes a literal operand"); ++added; lastE.x.m_data.literal = *v; lastE.x.m_data.type = Operand::Type::Literal; l->m_pLast = &lastE.x; return nullptr; }
extern "C" Operand* ct_take_id(List<Operand>* l, spv::Id* v) { vc_assert(l == I0 && added + 1 == pos && (unsigned)*v == W.at(added) && isId(added), "the word read becomes an id operand"); ++added; return nullptr; }
static void run(Shape s, GQ q, bool k = true)
{
	RawOf<Instruction> ir; Instruction& I = ir.x; I0 = &I; I.m_parentType = Instruction::ParentType::Module; I.m_parent.pModule = (Module*)vc_opaque("module");
	uint64_t n = vc_u32("count"); N = n; W.n = n; W.a = (uint32_t*)vc_array("words", n, 4); failAt = vc_u64("failAt"); pos = added = 0; failed = resets = false; known = k; op0 = vc_u32("op");
	M = 0; hasParams = false;
	if (s == LIST || s == PARAMS) { M = vc_len("operands"); cat.n = M; cat.a = (uint32_t*)vc_array("ids", M, 4); gops = (GO*)vc_array("entry", M, sizeof(GO)); hasParams = s == PARAMS && vc_bool("hasParams");
		unsigned k = (unsigned)vc_below("kinds", 61); vc_assume(k != 53 && k != 55 && k != 57); for (uint64_t i = 0; i < M; ++i) { GO& g = gops[i]; g.kind = (GK)k; g.category = (GC)(3 - (cat.at(i) & 1)); g.quantifier = GQ::One; } }
	if (s == LIST) { shape = s; info.x.operands.m_pData = gops; info.x.operands.m_elements = info.x.operands.m_capacity = M; }
	else { op.x = entry(s, q); info.x.operands.m_pData = &op.x; info.x.operands.m_elements = info.x.operands.m_capacity = 1; params.x.m_pData = gops; params.x.m_elements = params.x.m_capacity = M; }
	Source src; bool ok = I.readOperands(src, gr.x, (spv::Op)op0, (unsigned)n);
	vc_assert(pos <= n && added == pos, "each word taken is one operand");
	if (!k) { vc_assert(!ok && pos == 0 && !failed, "an unknown opcode is refused before anything is read"); vc_cover("end"); return; }
	vc_assert(resets && (unsigned)I.m_Operation == op0, "the opcode is taken over");
	if (ok) vc_assert(pos == n && !failed, "success means exactly the declared words were taken");
	vc_assert(ok == fits(op.x.quantifier), "accepted exactly when the words fit the grammar entry"); vc_cover("end");
}
#else
static void run(Shape s, GQ q, bool k = true)
{
	static PlainAllocator A; static Grammar* g = new Grammar(&A); static Instruction* I = new Instruction(someModule(), spv::Op::OpNop); I0 = I;
	uint64_t n = vc_len("count"); N = n; W.n = n; W.a.clear(); for (uint64_t i = 0; i < n; ++i) W.a.push_back(vc_bool("some") ? vc_u32("word") : 0x41424344u); failAt = vc_below("failAt", 2 * n + 3); pos = 0; failed = false;
	struct Plain : Source { bool get(unsigned& w) override { added = pos; return Source::get(w); } } src;
	GO e; shape = s; e.quantifier = q; Vector<GO> list(&A); unsigned value = 0; M = 0; hasParams = false; cat.a.clear(); if (s == LIST || s == PARAMS) { M = vc_below("operands", 6); unsigned k = (unsigned)vc_below("kinds", 61); vc_assume(k != 53 && k != 55 && k != 57); hasParams = s == PARAMS && vc_bool("hasParams"); for (uint64_t i = 0; i < M; ++i) { cat.a.push_back(vc_u32("id")); GO x; x.kind = (GK)k; x.category = (GC)(3 - (cat.a[i] & 1)); x.quantifier = GQ::One; list.emplace_back(x); } }
	if (s != LIST) e = entry(s, q);
	if (s == PARAMS) { vc_assume(Grammar::hasOperandParameters(e.kind)); value = hasParams ? 0x70000000u : 0x70000001u; if (n) W.a[0] = value; if (hasParams) { Hash64 h((unsigned)e.kind, value); if (auto* v = g->m_operandParameters.get(h)) *v = list; else g->m_operandParameters.emplaceUnique(h, list); } }
	unsigned o = k ? (unsigned)spv::Op::OpNop : 0x7654u; auto* inf = const_cast<Grammar::Instruction*>(g->getInfo((unsigned)spv::Op::OpNop)); inf->operands.clear(); if (s == LIST) inf->operands = list; else inf->operands.emplace_back(e);
	for (uint64_t b = vc_below("before", 3); b > 0; --b) I->emplace_back(literal_t{ 7u });
	bool ok = I->readOperands(src, *g, (spv::Op)o, (unsigned)n); inf->operands.clear(); vc_assert(pos <= n, "never more words than declared");
	if (!k) { vc_assert(!ok && pos == 0 && !failed, "an unknown opcode is refused before anything is read"); vc_cover("end"); return; }
	uint64_t i = 0; for (auto& x : *I) { vc_assert(i < pos && x.isId() == isId(i) && x.isLiteral() == !isId(i) && (isId(i) ? (unsigned)x.getId() : x.getLiteral().value) == W.at(i), "one operand per word, in order"); ++i; } vc_assert(i == pos && (unsigned)I->getOperation() == o, "one operand per word");
	if (ok) vc_assert(pos == n && !failed, "success means exactly the declared words were taken");
	vc_assert(ok == fits(e.quantifier), "accepted exactly when the words fit the grammar entry"); vc_cover("end");
}
#endif
VC_HARNESS(readop_ids) { run(IDS, GQ::One); }
VC_HARNESS(readop_ids_optional) { run(IDS, GQ::ZeroOrOne); }
VC_HARNESS(readop_ids_any) { run(IDS, GQ::ZeroOrAny); }
VC_HARNESS(readop_words) { run(WORDS, GQ::One); }
VC_HARNESS(readop_words_optional) { run(WORDS, GQ::ZeroOrOne); }
VC_HARNESS(readop_words_any) { run(WORDS, GQ::ZeroOrAny); }
VC_HARNESS(readop_number) { run(NUMBER, GQ::One); }
VC_HARNESS(readop_number_optional) { run(NUMBER, GQ::ZeroOrOne); }
VC_HARNESS(readop_number_any) { run(NUMBER, GQ::ZeroOrAny); }
VC_HARNESS(readop_spec) { run(SPEC, GQ::One); }
VC_HARNESS(readop_string) { run(STRING, GQ::One); }
VC_HARNESS(readop_string_optional) { run(STRING, GQ::ZeroOrOne); }
VC_HARNESS(readop_string_any) { run(STRING, GQ::ZeroOrAny); }
VC_HARNESS(readop_list) { run(LIST, GQ::One); }
VC_HARNESS(readop_params) { run(PARAMS, GQ::One); }
VC_HARNESS(readop_unknown) { run(IDS, GQ::One, false); }
