// Contracts of the module-wide passes, visitor by visitor: what a pass does to an arbitrary instruction.  That every instruction
// is visited once and in order is the contract of iterateInstructions (order.cpp).
#include "vc_instr.h"
#include "spvgentwo/Function.h"
#include "spvgentwo/ModuleTemplate.inl"
#include "spvgentwo/Grammar.h"
#ifndef VC_SYMBOLIC
#include <set>
#include <string>
#endif
#ifdef VC_SYMBOLIC
static Instruction* visited;
union Raw { char c; Module m; Raw() {} ~Raw() {} };
template<class T> union RawOf { char c; T x; RawOf() {} ~RawOf() {} };
#define VC_MODULE(m) Raw m##raw; Module& m = m##raw.m
#define VC_VISITED(I) VC_INSTR(I); visited = &I
#define VC_INSTRUCTION(p) Instruction* p = (Instruction*)vc_opaque(#p)
#define VC_PASS2(name, rx) extern "C" bool name(Module*, void* a, void* b) { void* cl[2] = { a, b }; return vc_call(rx, cl, visited); }
#define VC_PASSN(name, rx) extern "C" bool name(Module*, void* cl) { return vc_call(rx, cl, visited); }
static uint64_t noted; static bool noteok;   // uses recorded in the list of uses
extern "C" Instruction*& ct_note(List<Instruction*>*, Instruction** p) { ++noted; noteok = noteok && *p == visited; return *p; }
VC_PASSN(ct_gather, "_ZZN9spvgentwo6Module10gatherUsesEPKNS_11InstructionERNS_4ListIPS1_EES5_ENK3\\$_0clERS1_")
VC_PASS2(ct_replace, "_ZZN9spvgentwo6Module11replaceUsesEPKNS_11InstructionEPS1_ENK3\\$_0clERS1_")
#else
static PlainAllocator malloc_;
#define VC_MODULE(m) PlainAllocator m##alloc; Module m(&m##alloc)
#define VC_VISITED(I) Instruction& I = m.m_Undefs.emplace_back(&m, (spv::Op)anyOp())
#define VC_INSTRUCTION(p) Instruction* p = targets().in[vc_below(#p, 3)]
#endif
// every operand is as before, except that references to P are references to R
static void replaced(const Instruction& I, const Ops& o, const Instruction* P, const Instruction* R)
{
	vc_assert(I.size() == o.n, "no operand is added or removed");
	VC_FORALL(i, o.n) {
		OE* e = o.node(i); const Operand& x = e->inner();
		if (o.kind(i) == (unsigned)Operand::Type::Instruction && o.payload(i) == (uint64_t)P) vc_assert(x.type == Operand::Type::Instruction && x.instruction == R, "a reference to the old instruction refers to the new one");
		else vc_assert((unsigned)x.type == o.kind(i) && (o.kind(i) >= 2 ? x.literal.value == o.value(i) : (uint64_t)x.instruction == o.payload(i)), "other operands are kept");
		vc_assert(e->next() == (i + 1 < o.n ? o.node(i + 1) : nullptr), "operands stay in order");
	}
}
static bool refers(const Ops& o, uint64_t i, const Instruction* P) { return o.kind(i) == (unsigned)Operand::Type::Instruction && o.payload(i) == (uint64_t)P; }
static void gather(bool repl)
{
	VC_MODULE(m); VC_VISITED(I); Ops o(I); VC_INSTRUCTION(P); VC_INSTRUCTION(R);
#ifdef VC_SYMBOLIC
	noted = 0; noteok = true;
	Raw ulist; List<Instruction*>& uses = *(List<Instruction*>*)&ulist;
	m.gatherUses(P, uses, repl ? R : nullptr);
#else
	List<Instruction*> uses(&malloc_); m.gatherUses(P, uses, repl ? R : nullptr);
	uint64_t noted = uses.size(); bool noteok = true; for (Instruction* u : uses) noteok = noteok && u == &I;
#endif
	replaced(I, o, P, repl ? R : P);
	uint64_t c = 0; for (uint64_t i = 0; i < o.n; ++i) if (refers(o, i, P)) ++c;
	vc_assert(noted == c, "one use is recorded for each reference");
	vc_assert(noteok, "the user is recorded");
	vc_cover("end");
}
VC_HARNESS(edit_gather_uses) { gather(false); }
VC_HARNESS(edit_gather_replace) { gather(true); }
VC_HARNESS(edit_replace_uses)
{
	VC_MODULE(m); VC_VISITED(I); Ops o(I); VC_INSTRUCTION(P); VC_INSTRUCTION(R);
	m.replaceUses(P, R);
	replaced(I, o, P, R);
	vc_cover("end");
}
// ------------------------------------------------------------------ C12: ids
#include "spvgentwo/Grammar.h"
// an arbitrary sequence of instructions, some of which have a result; what a pass does over all of them, in order
#ifdef VC_SYMBOLIC
static uint64_t seqN, seqSlots; static Instruction* seqI; static uint8_t* seqHas;
static uint64_t seqCur; static uint64_t seqAt(const Instruction* I) { vc_assert(I == seqI + seqCur, "the visited instruction is asked"); return seqCur; }
static bool hasRes(uint64_t j) { return (vc_inita8(seqHas, j, 0) & 1) != 0; }
extern "C" Instruction::Iterator ct_result(const Instruction* I) { uint64_t j = seqAt(I); return Instruction::Iterator(hasRes(j) ? (OE*)vc_node(seqSlots, j) : nullptr); }
extern "C" bool ct_assign(Module*, void* cl) { for (uint64_t j = 0; j < seqN; ++j) { seqCur = j; vc_callv("_ZZN9spvgentwo6Module9assignIDsEPKNS_7GrammarEENK3\\$_0clERNS_11InstructionE", cl, seqI + j); } return false; }
VC_HARNESS(ids_assign)
{
	VC_MODULE(m); seqN = vc_len("instructions"); vc_assume(seqN < 0xffffffff); seqI = (Instruction*)vc_array("instrs", seqN, sizeof(Instruction)); seqHas = (uint8_t*)vc_array("has", seqN, 1);
	seqSlots = vc_family("slots", seqN, sizeof(OE)); vc_link(seqSlots, __builtin_offsetof(OE, m_pPrev), __builtin_offsetof(OE, m_pNext));
	unsigned v = vc_u32("version"); m.m_spvVersion = v; m.m_spvBound = vc_u32("bound");
	spv::Id id = m.assignIDs(nullptr);
	unsigned all = 0; for (uint64_t i = 0; i < seqN; ++i) if (hasRes(i)) ++all;
	vc_assert((unsigned)id == all && m.m_spvBound == all + 1 && m.m_spvVersion == v, "the bound is one larger than the number of results");
	VC_FORALL(j, seqN) {
		unsigned c = 0; for (uint64_t i = 0; i < j; ++i) if (hasRes(i)) ++c;
		const Operand& x = ((OE*)vc_node(seqSlots, j))->inner();
		if (hasRes(j)) vc_assert(x.type == Operand::Type::Id && (unsigned)x.id == c + 1, "ids are consecutive in the order of the module");
		else vc_assert((unsigned)x.type == vc_init32(seqSlots, j, __builtin_offsetof(OE, m_data.type)) && (unsigned)x.literal.value == vc_init32(seqSlots, j, __builtin_offsetof(OE, m_data.literal)), "instructions without a result get none");
	}
	vc_cover("end");
}
#else
static std::vector<Instruction*> sequenceAll(Module& m) { std::vector<Instruction*> s; for (auto* l : { &m.m_ExecutionModes, &m.m_SourceStrings, &m.m_Names, &m.m_ModuleProccessed, &m.m_Decorations, &m.m_TypesAndConstants, &m.m_GlobalVariables, &m.m_Undefs, &m.m_Lines }) for (auto& i : *l) s.push_back(&i); for (auto& f : m.m_Functions) { for (auto& i : f.m_Parameters) s.push_back(&i); for (auto& b : f) for (auto& i : b) s.push_back(&i); } return s; }
static std::vector<Instruction*> sequence(Module& m) { std::vector<Instruction*> s; m.iterateInstructions([&](Instruction& i) { s.push_back(&i); }); return s; }
VC_HARNESS(ids_assign)
{
	VC_MODULE(m); Function& f = m.addFunction(); (void)f; uint64_t n = vc_len("instructions"); static const spv::Op ops[] = { spv::Op::OpUndef, spv::Op::OpName, spv::Op::OpTypeVoid, spv::Op::OpDecorate, spv::Op::OpConstant, spv::Op::OpLine, spv::Op::OpString };
	for (uint64_t i = 0; i < n; ++i) {
		spv::Op op = ops[vc_u8("op") % 7]; Instruction& I = vc_u8("where") % 2 ? m.m_Undefs.emplace_back(&m, op) : m.m_TypesAndConstants.emplace_back(&m, op); bool r = false, t = false; spv::HasResultAndType(op, &r, &t);
		if (t) I.emplace_back((Instruction*)nullptr); if (r) I.emplace_back(spv::Id(vc_u8("old"))); I.emplace_back(literal_t(7u));
	}
	auto seq = sequence(m); unsigned v = m.m_spvVersion, c = 0; spv::Id id = m.assignIDs(nullptr);
	for (auto* I : seq) { if (auto it = I->getResultIdOperand(); it != nullptr) vc_assert(it->isId() && (unsigned)it->id == ++c, "ids are consecutive in the order of the module"); else for (auto& o : *I) vc_assert(!o.isId() || (unsigned)o.id == 0, "instructions without a result get none"); }
	vc_assert((unsigned)id == c && m.m_spvBound == c + 1 && m.m_spvVersion == v, "the bound is one larger than the number of results");
	vc_cover("end");
}
#endif
// ------------------------------------------------------------------ C19: what one instruction requires
#ifdef VC_SYMBOLIC
static constexpr unsigned NEXT = sizeof(spv::ExtensionNames) / sizeof(spv::ExtensionNames[0]);
static const Grammar::Instruction* info; static unsigned infoFor; static uint64_t ncap, next_; static unsigned* caps; static uint64_t nexts, nextx; static unsigned* exts;
extern "C" const Grammar::Instruction* ct_info(const Grammar*, unsigned op, Grammar::Extension e) { vc_assert(op == infoFor && e == Grammar::Extension::Core, "the entry of the instruction is consulted"); return info; }
extern "C" void ct_addcap(Module*, spv::Capability c, bool) { vc_assert(next_ < ncap && (unsigned)c == vc_inita32(caps, next_, 0), "every capability of the entry is added"); ++next_; }
extern "C" void ct_addext(Module*, spv::Extension e) { vc_assert(nextx < nexts && (unsigned)e == vc_inita32(exts, nextx, 0) % NEXT, "every extension of the entry is added"); ++nextx; }
VC_PASS2(ct_reqcap, "_ZZN9spvgentwo6Module23addRequiredCapabilitiesERKNS_7GrammarEENK3\\$_0clERKNS_11InstructionE")
VC_PASS2(ct_reqext, "_ZZN9spvgentwo6Module21addRequiredExtensionsERKNS_7GrammarEENK3\\$_0clERKNS_11InstructionE")
VC_PASS2(ct_reqver, "_ZZNK9spvgentwo6Module18getRequiredVersionERKNS_7GrammarEENK3\\$_0clERKNS_11InstructionE")
extern "C" bool ct_reqall(Module*, void* cl) { return vc_call("_ZZN9spvgentwo6Module9assignIDsEPKNS_7GrammarEENK3\\$_0clERNS_11InstructionE", cl, visited); }
union RawInfo { char c; Grammar::Instruction i; RawInfo() {} ~RawInfo() {} };
#define VC_INFO RawInfo raw; bool known = vc_bool("known"); ncap = vc_len("caps"); nexts = vc_len("exts"); caps = (unsigned*)vc_array("capv", ncap, 4); exts = (unsigned*)vc_array("extv", nexts, 4); vc_array_below(exts, 0, NEXT); \
	raw.i.name = (const char*)vc_opaque("name"); raw.i.capabilities.m_pData = ncap ? (spv::Capability*)caps : nullptr; raw.i.capabilities.m_elements = ncap; raw.i.capabilities.m_capacity = ncap; raw.i.extensions.m_pData = nexts ? (spv::Extension*)exts : nullptr; \
	raw.i.extensions.m_elements = nexts; raw.i.extensions.m_capacity = nexts; raw.i.version = vc_u32("requires"); info = known ? &raw.i : nullptr; infoFor = (unsigned)I.m_Operation; next_ = nextx = 0; const Grammar& G = *(const Grammar*)vc_opaque("grammar")
VC_HARNESS(req_capabilities) { VC_MODULE(m); VC_VISITED(I); VC_INFO; m.addRequiredCapabilities(G); vc_assert(next_ == (known ? ncap : 0) && nextx == 0, "all capabilities and nothing else"); vc_cover("end"); }
VC_HARNESS(req_extensions) { VC_MODULE(m); VC_VISITED(I); VC_INFO; m.addRequiredExtensions(G); vc_assert(nextx == (known ? nexts : 0) && next_ == 0, "all extensions and nothing else"); vc_cover("end"); }
VC_HARNESS(req_version) { VC_MODULE(m); VC_VISITED(I); VC_INFO; unsigned r = m.getRequiredVersion(G); unsigned base = 0x10000; vc_assert(r == (known && raw.i.version > base ? raw.i.version : base), "at least the version of the entry"); vc_cover("end"); }
VC_HARNESS(req_finalize)
{
	VC_MODULE(m); VC_VISITED(I); VC_INFO; unsigned v = vc_u32("version"); m.m_spvVersion = v; m.m_pLogger = nullptr; uint64_t one = vc_family("slot", 1, sizeof(OE)); vc_link(one, __builtin_offsetof(OE, m_pPrev), __builtin_offsetof(OE, m_pNext)); seqSlots = one; seqI = &I; seqHas = (uint8_t*)vc_array("has", 1, 1); seqCur = 0;
	m.assignIDs(&G); vc_assert(next_ == (known ? ncap : 0) && nextx == (known ? nexts : 0), "all capabilities and extensions, nothing else"); vc_assert(m.m_spvVersion == (known && raw.i.version > v ? raw.i.version : v), "the version is raised to the one required"); vc_cover("end");
}
#else
static const Grammar& grammar() { static PlainAllocator a; static Grammar* g = new Grammar(&a); return *g; }
static void required(unsigned how)
{
	VC_MODULE(m); VC_VISITED(I); (void)I; const Grammar& G = grammar(); const Grammar::Instruction* info = G.getInfo((unsigned)I.getOperation()); unsigned v = m.m_spvVersion;
	std::set<unsigned> caps, gotc; std::set<std::string> exts, gote; unsigned ver = how == 2 ? 0x10000 : v;
	for (auto& e : m.m_Capabilities) caps.insert((unsigned)e.key);
	if (info != nullptr) { if (how == 0 || how == 3) for (auto c : info->capabilities) caps.insert((unsigned)c); if (how == 1 || how == 3) for (auto x : info->extensions) exts.insert(spv::ExtensionNames[(unsigned)x]); if (info->version > ver) ver = info->version; }
	if (how == 0) m.addRequiredCapabilities(G); else if (how == 1) m.addRequiredExtensions(G); else if (how == 3) m.assignIDs(&G);
	for (auto& e : m.m_Capabilities) gotc.insert((unsigned)e.key);
	for (auto& e : m.m_Extensions) gote.insert(e.key.c_str());
	vc_assert(gotc == caps, "all capabilities and nothing else"); vc_assert(gote == exts, "all extensions and nothing else");
	if (how == 2) vc_assert(m.getRequiredVersion(G) == ver, "at least the version of the entry");
	vc_assert(m.m_spvVersion == (how == 3 ? ver : v), "the version is raised to the one required");
	vc_cover("end");
}
VC_HARNESS(req_capabilities) { required(0); }
VC_HARNESS(req_extensions) { required(1); }
VC_HARNESS(req_version) { required(2); }
VC_HARNESS(req_finalize) { required(3); }
#endif
// ------------------------------------------------------------------ C13: the header, and every instruction is written until the writer refuses
#ifdef VC_SYMBOLIC
struct HeadWriter : IWriter { unsigned w[5]; unsigned n, room; bool put(unsigned x) override { vc_assert(n < 5 && room > 0, "nothing is put after a refusal, and only the header by the module itself"); if (n + 1 == room) { ++n; room = 0; return false; } w[n++] = x; return true; } };
static HeadWriter* hw; static bool wrote, refused; static uint8_t* accepts;
extern "C" bool ct_instr_write(const Instruction* I, IWriter* w) { vc_assert(I == seqI + seqCur && w == hw && !refused, "the visited instruction is written"); ++wrote; bool r = (vc_inita8(accepts, seqCur, 0) & 1) != 0; refused = !r; return r; }
extern "C" bool ct_writepass(Module*, void* cl)
{
	vc_assert(hw->n == 5 && !wrote, "the header comes first"); uint64_t j = 0;
	for (; j < seqN; ++j) { seqCur = j; wrote = false; bool stop = vc_call("_ZZNK9spvgentwo6Module5writeERNS_7IWriterEENK3\\$_0clERKNS_11InstructionE", &cl, seqI + j); vc_assert(wrote, "every instruction is written"); if (stop) { vc_assert(refused, "writing goes on while the writer accepts"); return true; } vc_assert(!refused, "writing stops when the writer refuses"); }
	return false;
}
static bool header(const HeadWriter& w, const Module& m) { return w.w[0] == 0x07230203 && w.w[1] == m.m_spvVersion && w.w[3] == m.m_spvBound && w.w[4] == m.m_spvSchema; }
VC_HARNESS(write_module)
{
	VC_MODULE(m); HeadWriter W; hw = &W; W.n = 0; unsigned room = vc_u32("room"); vc_assume(room >= 1); W.room = room; wrote = refused = false;   // the room-th word is refused
	unsigned v = vc_u32("version"), b = vc_u32("bound"), sch = vc_u32("schema"); m.m_spvVersion = v; m.m_spvBound = b; m.m_spvSchema = sch;
	seqN = vc_len("instructions"); seqI = (Instruction*)vc_array("instrs", seqN, sizeof(Instruction)); accepts = (uint8_t*)vc_array("accepts", seqN, 1);
	bool r = m.write(W);
	if (room <= 5) vc_assert(!r && W.n == room, "a refused header word is reported");
	else { vc_assert(header(W, m) && m.m_spvVersion == v && m.m_spvBound == b && m.m_spvSchema == sch, "magic, version, generator, bound, schema"); vc_assert(W.w[2] == (30u << 16), "the generator id"); vc_assert(r == !refused, "success means every word was accepted"); }
	vc_cover("end");
}
static unsigned order_; static bool wres;
extern "C" spv::Id ct_fin_ids(Module*, const Grammar*) { vc_assert(order_ == 0, "ids are assigned first"); order_ = 1; return spv::Id(7); }
extern "C" void ct_fin_eps(Module*) { vc_assert(order_ == 1, "then the interfaces are collected"); order_ = 2; }
extern "C" bool ct_fin_write(const Module*, IWriter* w) { vc_assert(order_ == 2 && w == hw, "then the module is written"); order_ = 3; return wres; }
VC_HARNESS(write_finalize) { VC_MODULE(m); HeadWriter W; hw = &W; order_ = 0; wres = vc_bool("ok"); bool r = m.finalizeAndWrite(W, (const Grammar*)vc_opaque("grammar")); vc_assert(order_ == 3 && r == wres, "the module is finalised and written"); vc_cover("end"); }
#else
struct AWriter : IWriter { std::vector<unsigned> w; size_t room; bool put(unsigned x) override { vc_assert(w.size() < room, "nothing is put after a refusal"); if (w.size() + 1 == room) { room = 0; return false; } w.push_back(x); return true; } };
static void writes(bool fin)
{
	VC_MODULE(m); uint64_t n = vc_len("instructions"); unsigned room = vc_bool("all") ? ~0u : vc_u32("room") % 60 + 1;
	for (uint64_t i = 0; i < n; ++i) { Instruction& I = vc_u8("where") % 2 ? m.m_Undefs.emplace_back(&m, spv::Op::OpUndef) : m.m_SourceStrings.emplace_back(&m, spv::Op::OpNop); if (I.getOperation() == spv::Op::OpUndef) { I.emplace_back(spv::Id(3)); I.emplace_back(spv::Id(4)); } }
	AWriter W; W.room = room; m.m_spvSchema = vc_u32("schema"); if (!fin) m.assignIDs(nullptr);
	std::vector<unsigned> want = { 0x07230203, m.m_spvVersion, 30u << 16, 0, m.m_spvSchema };
	bool r = fin ? m.finalizeAndWrite(W) : m.write(W); want[3] = m.m_spvBound;
	struct All : IWriter { std::vector<unsigned> w; bool put(unsigned x) override { w.push_back(x); return true; } } all; for (auto* I : sequence(m)) I->write(all);
	want.insert(want.end(), all.w.begin(), all.w.end());
	if (want.size() < room) vc_assert(r && W.w == want, "header and instructions"); else { vc_assert(!r, "a refused word is reported"); want.resize(room - 1); vc_assert(W.w == want, "the words up to the refused one"); }
	vc_cover("end");
}
VC_HARNESS(write_module) { writes(false); }
VC_HARNESS(write_finalize) { writes(true); }
#endif
// ------------------------------------------------------------------ C19: implied capabilities
VC_HARNESS(req_table)
{
#ifdef VC_SYMBOLIC
	unsigned c = vc_u32("capability");
#else
	unsigned c = vc_bool("low") ? vc_u32("capability") % 80 : vc_bool("mid") ? 4400 + vc_u32("capability") % 2000 : vc_u32("capability");
#endif
	auto b = getBaseCapability((spv::Capability)c); unsigned none = 0x7fffffff, p = (unsigned)b.primary, s = (unsigned)b.secondary, x = specImplied0(c), y = specImplied1(c);
	vc_assert(x == none || p == x || s == x, "the first implied capability"); vc_assert(y == none || p == y || s == y, "the second implied capability");
	// capabilities whose implication was dropped from later revisions of the grammar may still imply Shader
	bool older = c == 5055 || c == 6033 || c == 6034;
	vc_assert(p == none || p == x || p == y || (older && p == 1), "only what the grammar lists"); vc_assert(s == none || s == x || s == y, "only what the grammar lists");
	vc_cover("end");
}
#ifdef VC_SYMBOLIC
static Module* capM; static unsigned capC, capP, capS; static bool capDep, gotP, gotS, gotC;
extern "C" void ct_addcap_rec(Module* m, unsigned c, bool dep) { vc_assert(m == capM && capDep && dep && !gotC, "implied capabilities are added with those they imply"); vc_assert(c != 0x7fffffff && (c == capP || c == capS), "an implied capability"); if (c == capP) gotP = true; else gotS = true; }
extern "C" void* ct_emplace_cap(void* map, const unsigned* key, Module** m, const unsigned* op, const unsigned* c) { vc_assert(map == &capM->m_Capabilities && *m == capM && !gotC, "declared once"); vc_assert(*key == capC && *c == capC && *op == (unsigned)spv::Op::OpCapability, "an OpCapability instruction with the capability"); gotC = true; return vc_opaque("node"); }
VC_HARNESS(req_add)
{
	VC_MODULE(m); capM = &m; capC = vc_u32("capability"); capDep = vc_bool("dependent"); auto b = getBaseCapability((spv::Capability)capC); capP = (unsigned)b.primary; capS = (unsigned)b.secondary; gotP = gotS = gotC = false;
	m.addCapability((spv::Capability)capC, capDep);
	vc_assert(gotC, "the capability is declared"); vc_assert(!capDep || capP == 0x7fffffff || gotP, "and the first one it implies"); vc_assert(!capDep || capS == 0x7fffffff || capS == capP || gotS, "and the second one it implies"); vc_cover("end");
}
static bool gotE; extern "C" void ct_addextname(Module* m, const char* n) { vc_assert(m == capM && !gotE && n == spv::ExtensionNames[capC], "the name of the extension"); gotE = true; }
VC_HARNESS(req_extension) { VC_MODULE(m); capM = &m; for (unsigned e = 0; e < NEXT; ++e) { capC = e; gotE = false; m.addExtension((spv::Extension)e); vc_assert(gotE, "declared by its name"); } vc_cover("end"); }
#else
VC_HARNESS(req_add)
{
	VC_MODULE(m); std::set<unsigned> want, got; for (auto& e : m.m_Capabilities) want.insert((unsigned)e.key);
	auto close = [&](auto&& self, spv::Capability c) -> void { want.insert((unsigned)c); for (unsigned x : { specImplied0((unsigned)c), specImplied1((unsigned)c) }) if (x != 0x7fffffff) self(self, (spv::Capability)x); };
	auto c = (spv::Capability)(vc_bool("low") ? vc_u32("capability") % 80 : 4400 + vc_u32("capability") % 2000); bool older = (unsigned)c == 5055 || (unsigned)c == 6033 || (unsigned)c == 6034; vc_assume(!older);
	bool dep = vc_bool("dependent"); if (dep) close(close, c); else want.insert((unsigned)c); m.addCapability(c, dep);
	for (auto& e : m.m_Capabilities) { got.insert((unsigned)e.key); vc_assert(e.value.getOperation() == spv::Op::OpCapability && e.value.front().getLiteral().value == (unsigned)e.key, "an OpCapability instruction with the capability"); }
	vc_assert(got == want && m.m_Capabilities.elements() == want.size(), "the capability and those it implies"); vc_cover("end");
}
VC_HARNESS(req_extension)
{
	VC_MODULE(m); unsigned e = vc_u32("extension") % (sizeof(spv::ExtensionNames) / sizeof(spv::ExtensionNames[0])); for (int i = 0; i < 2; ++i) m.addExtension((spv::Extension)e);
	vc_assert(m.m_Extensions.elements() == 1 && std::string((*m.m_Extensions.begin()).key.c_str()) == spv::ExtensionNames[e], "declared once by its name"); vc_cover("end");
}
#endif
// ------------------------------------------------------------------ C18: removal
#ifdef VC_SYMBOLIC
#include "spvgentwo/EntryPoint.h"
#define VC_FAM(name, T, n) familyOf(name, n, sizeof(Entry<T>), __builtin_offsetof(Entry<T>, m_pPrev), __builtin_offsetof(Entry<T>, m_pNext))
#define VC_HEADS(L, T, fam, n) (L).m_pBegin = (n) > 0 ? (Entry<T>*)vc_node(fam, 0) : nullptr; (L).m_pLast = (n) > 0 ? (Entry<T>*)vc_node(fam, (n) - 1) : nullptr; (L).m_Elements = (n)
static uint64_t familyOf(const char* name, uint64_t n, uint64_t es, uint64_t prev, uint64_t next) { uint64_t f = vc_family(name, n, es); vc_link(f, prev, next); return f; }
static const Instruction* gone; static List<Instruction>* goneFrom; static unsigned erased, dropped; static Module* inM;
extern "C" Entry<Instruction>* ct_erase(List<Instruction>* L, List<Instruction>::Iterator e, bool destruct) { vc_assert(L == goneFrom && e.operator->() == gone && destruct, "exactly this instruction leaves its list"); vc_assert(dropped == 1, "what is recorded about it is dropped while it is alive"); ++erased; return nullptr; }
extern "C" void ct_drop(Module* m, const Instruction* i) { vc_assert(m == inM && i == gone && erased == 0, "what is recorded about this instruction is dropped"); ++dropped; }
static List<Instruction>* secs[9]; static unsigned nextSec; static Entry<Instruction>* goneEntry;
// List::find_if by its contract: the first element the predicate accepts (which accepts the instruction and no other)
#define FIND_PRED "_ZZZN9spvgentwo6Module6removeEPKNS_11InstructionEENK3\\$_0clERNS_4ListIS1_EEENKUlRS2_E_clES8_"
extern "C" List<Instruction>::Iterator ct_find(List<Instruction>* L, void* pred)
{
	vc_assert(nextSec < 9 && L == secs[nextSec], "every section is searched"); ++nextSec; Instruction* x = (Instruction*)vc_opaque("another");
	vc_assert(vc_call(FIND_PRED, pred, (Instruction*)gone) && !vc_call(FIND_PRED, pred, x), "the predicate accepts exactly this instruction");
	return List<Instruction>::Iterator(L == goneFrom ? goneEntry : nullptr);
}
VC_HARNESS(edit_remove_module)
{
	VC_MODULE(m); inM = &m; m.m_pLogger = nullptr; erased = dropped = nextSec = 0; uint64_t other = VC_FAM("instr", Instruction, 1);
	List<Instruction>* ls[9] = { &m.m_ExecutionModes, &m.m_SourceStrings, &m.m_Names, &m.m_ModuleProccessed, &m.m_Decorations, &m.m_TypesAndConstants, &m.m_GlobalVariables, &m.m_Undefs, &m.m_Lines };
	m.m_Capabilities.m_pBuckets = nullptr; m.m_Capabilities.m_Buckets = 0; m.m_Extensions.m_pBuckets = nullptr; m.m_Extensions.m_Buckets = 0; m.m_ExtInstrImport.m_pBuckets = nullptr; m.m_ExtInstrImport.m_Buckets = 0;
	unsigned which = vc_u32("section"); vc_assume(which <= 9); goneFrom = nullptr; for (unsigned s = 0; s < 9; ++s) secs[s] = ls[s];
#define PICK(s) if (which == s) goneFrom = ls[s]
	PICK(0); PICK(1); PICK(2); PICK(3); PICK(4); PICK(5); PICK(6); PICK(7); PICK(8);
	goneEntry = (Entry<Instruction>*)vc_node(other, 0); Instruction* I = &goneEntry->inner(); gone = I; I->m_parentType = Instruction::ParentType::Module; I->m_parent.pModule = &m;
	bool r = m.remove(I);
	vc_assert(r == (which < 9), "removed exactly if it is in one of the module's sections"); vc_assert(erased == (r ? 1u : 0u) && dropped == erased, "exactly once"); vc_cover("end");
}
union RawB { char c; BasicBlock b; RawB() {} ~RawB() {} };
union RawF { char c; Function f; RawF() {} ~RawF() {} };
static void removeLocal(bool par)   // an instruction of a block, or a parameter
{
	VC_MODULE(m); inM = &m; m.m_pLogger = nullptr; erased = dropped = 0; RawB rb; RawF rf; BasicBlock& B = rb.b; Function& F = rf.f; bool param = par; bool member = vc_bool("member"); goneEntry = nullptr; nextSec = 0; F.m_pModule = &m; B.m_pFunction = &F;
	uint64_t n = vc_len("instrs"), fam = VC_FAM("instrs", Instruction, n), other = VC_FAM("other", Instruction, 1); List<Instruction>& L = param ? F.m_Parameters : (List<Instruction>&)B; VC_HEADS(L, Instruction, fam, n); goneFrom = secs[0] = &L; 
	Instruction* I; if (member) { uint64_t p = vc_below("position", n); I = &((Entry<Instruction>*)vc_node(fam, p))->inner(); } else I = &((Entry<Instruction>*)vc_node(other, 0))->inner();
	if (param) { I->m_parentType = Instruction::ParentType::Function; I->m_parent.pFunction = &F; } else { I->m_parentType = Instruction::ParentType::BasicBlock; I->m_parent.pBasicBlock = &B; } gone = I; if (member) goneEntry = (Entry<Instruction>*)((char*)I - __builtin_offsetof(Entry<Instruction>, m_data));
	if (!member) secs[0] = &L;
	unsigned op = vc_u32("op"); I->m_Operation = (spv::Op)op; bool can = member && (param ? op == (unsigned)spv::Op::OpFunctionParameter : op != (unsigned)spv::Op::OpLabel);
	bool r = m.remove(I);
	vc_assert(r == can, "instructions of blocks and parameters are removed, labels and functions are not"); vc_assert(erased == (r ? 1u : 0u) && dropped == erased, "exactly once"); vc_cover("end");
}
VC_HARNESS(edit_remove_instr) { removeLocal(false); }
VC_HARNESS(edit_remove_param) { removeLocal(true); }
#else
#include "spvgentwo/EntryPoint.h"
static void removes(unsigned how)   // 0: module level, 1: block, 2: parameter
{
	VC_MODULE(m); Function& F = m.addFunction(); BasicBlock& B = F.addBasicBlock(); unsigned n = (unsigned)vc_len("instrs"); std::vector<Instruction*> all;
	List<Instruction>* ls[9] = { &m.m_ExecutionModes, &m.m_SourceStrings, &m.m_Names, &m.m_ModuleProccessed, &m.m_Decorations, &m.m_TypesAndConstants, &m.m_GlobalVariables, &m.m_Undefs, &m.m_Lines };
	unsigned sec = vc_u8("section") % 9; List<Instruction>& L = how == 0 ? *ls[sec] : how == 1 ? (List<Instruction>&)B : F.m_Parameters;
	for (unsigned i = 0; i < n; ++i) all.push_back(how == 0 ? &L.emplace_back(&m, spv::Op::OpUndef) : how == 1 ? &L.emplace_back(&B, vc_u8("label") == 1 ? spv::Op::OpLabel : spv::Op::OpNop) : &L.emplace_back(&F, spv::Op::OpFunctionParameter));
	for (auto* i : all) m.m_NameLookup.emplace(i, Module::MemberName{ String(&malloc_, "n"), 0u });
	Instruction* x = all.empty() || vc_u8("none") == 1 ? F.getFunction() : all[vc_below("which", n)]; bool can = x != F.getFunction() && x->getOperation() != spv::Op::OpLabel;
	auto seq = sequenceAll(m); std::vector<Instruction*> want; for (auto* i : seq) if (!can || i != x) want.push_back(i); uint64_t names = m.m_NameLookup.elements();
	bool r = m.remove(x); vc_assert(r == can, "removed exactly if it can be"); vc_assert(sequenceAll(m) == want, "exactly this instruction is removed"); vc_assert(m.m_NameLookup.elements() == names - (can ? 1 : 0) && (!can || m.m_NameLookup.count(x) == 0), "what is recorded about it is dropped"); vc_cover("end");
}
VC_HARNESS(edit_remove_module) { removes(0); }
VC_HARNESS(edit_remove_instr) { removes(1); }
VC_HARNESS(edit_remove_param) { removes(2); }
#endif
#ifdef VC_SYMBOLIC
static Function *rmF, *rmR; static Instruction *rmFI, *rmRI; static unsigned rmErased, rmInfo, rmPass, rmEp; static uint64_t rmAct; static bool rmEntry;
extern "C" const Instruction* ct_fn_instr_c(const Function* f) { vc_assert(f == rmF || (rmR != nullptr && f == rmR), "the functions involved"); return f == rmF ? rmFI : rmRI; }
extern "C" Instruction* ct_fn_instr(Function* f) { return (Instruction*)ct_fn_instr_c(f); }
extern "C" void ct_fn_info(void*, const Function* f) { vc_assert(f == rmF && rmErased == 0, "what is recorded about the function is dropped while it is alive"); ++rmInfo; }
extern "C" Entry<Function>* ct_fn_erase(List<Function>* l, List<Function>::Iterator e, bool destruct) { vc_assert(l == &inM->m_Functions && !rmEntry && e.operator->() == rmF && destruct && rmInfo == 1, "exactly this function is removed"); ++rmErased; return nullptr; }
extern "C" Entry<EntryPoint>* ct_ep_erase(List<EntryPoint>* l, List<EntryPoint>::Iterator e, bool destruct) { vc_assert(l == &inM->m_EntryPoints && rmEntry && (Function*)e.operator->() == rmF && destruct && rmInfo == 1 && rmEp == 1, "exactly this entry point is removed"); ++rmErased; return nullptr; }
extern "C" void ct_fn_drop(Module*, const Instruction* i) { vc_assert(rmErased == 0 && rmEntry, "while it is alive"); if (i == ((EntryPoint*)rmF)->getEntryPoint()) ++rmEp; }
extern "C" bool ct_rmpass(Module*, void* cl) { vc_assert(rmErased == 1 && rmPass == 0, "the uses are looked for once, after the removal"); ++rmPass; return false; }
static void removeFn(bool entry)
{
	VC_MODULE(m); inM = &m; m.m_pLogger = nullptr; rmErased = rmInfo = rmPass = rmEp = 0; rmEntry = entry; rmR = nullptr; rmFI = (Instruction*)vc_opaque("function"); rmRI = nullptr;
	uint64_t n = vc_len("functions"), fo = entry ? VC_FAM("other", EntryPoint, 1) : VC_FAM("other", Function, 1);
	if (entry) { uint64_t f = VC_FAM("eps", EntryPoint, n); VC_HEADS(m.m_EntryPoints, EntryPoint, f, n); m.m_Functions.m_pBegin = m.m_Functions.m_pLast = nullptr; m.m_Functions.m_Elements = 0; uint64_t p = vc_bool("member") ? vc_below("position", n) : n; rmF = p < n ? (Function*)&((Entry<EntryPoint>*)vc_node(f, p))->inner() : (Function*)&((Entry<EntryPoint>*)vc_node(fo, 0))->inner();
		{ RawOf<List<Instruction*>> uses; new (&uses.x) List<Instruction*>(m.remove(rmF, nullptr)); } vc_assert(rmErased == (p < n ? 1u : 0u) && rmPass == rmErased && rmInfo == rmErased, "it is removed exactly if the module contains it"); }
	else { uint64_t f = VC_FAM("fns", Function, n); VC_HEADS(m.m_Functions, Function, f, n); m.m_EntryPoints.m_pBegin = m.m_EntryPoints.m_pLast = nullptr; m.m_EntryPoints.m_Elements = 0; uint64_t p = vc_bool("member") ? vc_below("position", n) : n; rmF = p < n ? &((Entry<Function>*)vc_node(f, p))->inner() : &((Entry<Function>*)vc_node(fo, 0))->inner();
		{ RawOf<List<Instruction*>> uses; new (&uses.x) List<Instruction*>(m.remove(rmF, nullptr)); } vc_assert(rmErased == (p < n ? 1u : 0u) && rmPass == rmErased && rmInfo == rmErased, "it is removed exactly if the module contains it"); }
	vc_cover("end");
}
VC_HARNESS(edit_remove_fn) { removeFn(false); }
VC_HARNESS(edit_remove_entry) { removeFn(true); }
// what the pass after the removal does to an arbitrary instruction, whose operands from rmAct on are not its result or type
static const Ops* rmOps;
extern "C" Instruction::Iterator ct_first_actual(const Instruction* i) { vc_assert(i == visited, "of the visited instruction"); return Instruction::Iterator(rmAct < rmOps->n ? rmOps->node(rmAct) : nullptr); }
extern "C" bool ct_rmvisit(Module*, void* cl) { return vc_call("_ZZN9spvgentwo6Module6removeEPKNS_8FunctionEPS1_PNS_10IAllocatorEENK3\\$_[0-9]clERNS_11InstructionE", cl, visited); }
VC_HARNESS(edit_remove_fn_uses)
{
	VC_MODULE(m); inM = &m; m.m_pLogger = nullptr; VC_VISITED(I); Ops o(I); rmOps = &o; rmAct = vc_u64("first"); vc_assume(rmAct <= o.n && rmAct <= 2); noted = 0; noteok = true; rmErased = rmInfo = rmPass = rmEp = 0; rmEntry = false;
	uint64_t f = VC_FAM("fns", Function, 2); VC_HEADS(m.m_Functions, Function, f, 1); rmF = &((Entry<Function>*)vc_node(f, 0))->inner(); bool repl = vc_bool("replace"); rmR = (Function*)vc_opaque("other"); rmFI = (Instruction*)vc_opaque("function"); rmRI = repl ? (Instruction*)vc_opaque("replacement") : nullptr;
	{ RawOf<List<Instruction*>> uses; new (&uses.x) List<Instruction*>(m.remove(rmF, rmR)); }
	bool any = false; for (uint64_t i = rmAct; i < o.n; ++i) if (refers(o, i, rmFI)) any = true;
	vc_assert(I.size() == o.n, "no operand is added or removed");
	VC_FORALL(i, o.n) {
		OE* e = o.node(i); const Operand& x = e->inner();
		if (i >= rmAct && refers(o, i, rmFI)) vc_assert(x.type == Operand::Type::Instruction && x.instruction == rmRI, "a reference to the function refers to the replacement");
		else vc_assert((unsigned)x.type == o.kind(i) && (o.kind(i) >= 2 ? x.literal.value == o.value(i) : (uint64_t)x.instruction == o.payload(i)), "other operands are kept");
		vc_assert(e->next() == (i + 1 < o.n ? o.node(i + 1) : nullptr), "operands stay in order");
	}
	vc_assert(noteok && noted == (any ? 1u : 0u), "the user is recorded once"); vc_cover("end");
}
#else
static void removeFnN(bool entry, bool repl)
{
	VC_MODULE(m); unsigned n = 1 + (unsigned)vc_len("functions"); std::vector<Function*> fs; for (unsigned i = 0; i < n; ++i) fs.push_back(entry ? &m.m_EntryPoints.emplace_back(&m) : &m.m_Functions.emplace_back(&m));
	for (auto* f : fs) { f->m_Function.setOperation(spv::Op::OpFunction); for (int i = 0; i < 4; ++i) f->m_Function.emplace_back(0u); m.m_NameLookup.emplace(&f->m_Function, Module::MemberName{ String(&malloc_, "f"), 0u }); }
	PlainAllocator other; Module m2(&other); Function& alien = m2.addFunction(); bool in = !vc_bool("alien"); unsigned p = (unsigned)vc_below("position", n); Function* x = in ? fs[p] : &alien; Function& R = m.m_Functions.emplace_back(&m);
	struct U { Instruction* i; std::vector<Instruction*> ops; }; std::vector<U> us; unsigned k = (unsigned)vc_len("users");
	for (unsigned i = 0; i < k; ++i) { Instruction& I = m.m_Names.emplace_back(&m, spv::Op::OpName); us.push_back({ &I, {} }); for (unsigned j = vc_u8("ops") % 4; j > 0; --j) { Instruction* t = vc_u8("to") % 2 ? x->getFunction() : fs[vc_u8("tofn") % n]->getFunction(); I.emplace_back(t); us.back().ops.push_back(t); } }
	Instruction* FI = x->getFunction(); Instruction* to = repl ? R.getFunction() : nullptr; std::vector<Instruction*> want, got; for (auto& u : us) { bool h = false; for (auto*& t : u.ops) if (in && t == FI) { t = to; h = true; } if (h) want.push_back(u.i); }
	auto r = m.remove(x, repl ? &R : nullptr); for (auto* i : r) got.push_back(i); vc_assert(got == want, "the users");
	for (auto& u : us) { unsigned j = 0; for (auto& o : *u.i) vc_assert(o.isInstruction() && o.getInstruction() == u.ops[j++], "references"); vc_assert(j == u.ops.size(), "operands"); }
	std::vector<Function*> left; if (entry) { for (auto& e : m.m_EntryPoints) left.push_back(&e); } else for (auto& e : m.m_Functions) if (&e != &R) left.push_back(&e);
	if (in) fs.erase(fs.begin() + p); vc_assert(left == fs, "exactly this function is removed"); vc_assert(m.m_NameLookup.count(FI) == (in ? 0u : 0u) && m.m_NameLookup.elements() == fs.size(), "names"); vc_cover("end");
}
VC_HARNESS(edit_remove_fn) { removeFnN(false, false); }
VC_HARNESS(edit_remove_entry) { removeFnN(true, false); }
VC_HARNESS(edit_remove_fn_uses) { removeFnN(vc_bool("entry"), vc_bool("replace")); }
#endif
