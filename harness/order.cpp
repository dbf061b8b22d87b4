// The order in which the instructions of a module are visited: every instruction once, section by section, until the visitor stops
#ifdef VC_SYMBOLIC
#include "vc_instr.h"
#else
#include "modgen.h"
#endif
#include "spvgentwo/Function.h"
#include "spvgentwo/EntryPoint.h"
#include "spvgentwo/ModuleTemplate.inl"
#ifdef VC_SYMBOLIC
union Raw { char c; Module m; Raw() {} ~Raw() {} };
static bool stopped; static uint64_t idx, fam0; static uint8_t* stops;
using IE = Entry<Instruction>;
static uint64_t family(const char* name, uint64_t n, uint64_t es, uint64_t prev, uint64_t next) { uint64_t f = vc_family(name, n, es); vc_link(f, prev, next); return f; }
#define VC_FAM(name, T, n) family(name, n, sizeof(Entry<T>), __builtin_offsetof(Entry<T>, m_pPrev), __builtin_offsetof(Entry<T>, m_pNext))
#define VC_HEADS(L, T, fam, n) (L).m_pBegin = (n) > 0 ? (Entry<T>*)vc_node(fam, 0) : nullptr; (L).m_pLast = (n) > 0 ? (Entry<T>*)vc_node(fam, (n) - 1) : nullptr; (L).m_Elements = (n)
struct Visit { char* g; bool operator()(Instruction& i) const; };
// ---- one list
struct Walk { char* g; bool operator()(Instruction& i) const { vc_assert(!stopped, "nothing is visited after the visitor stopped"); vc_assert(&i == &((IE*)vc_node(fam0, idx))->inner(), "the next instruction is visited"); bool s = (vc_inita8(stops, idx, 0) & 1) != 0; ++idx; stopped = s; return s; } };
struct WalkAll { char* g; void operator()(Instruction& i) const { vc_assert(&i == &((IE*)vc_node(fam0, idx))->inner(), "the next instruction is visited"); ++idx; } };
VC_HARNESS(order_list)
{
	union RL { char c; List<Instruction> l; RL() {} ~RL() {} } r; uint64_t n = vc_len("n"); fam0 = VC_FAM("instrs", Instruction, n); VC_HEADS(r.l, Instruction, fam0, n); stops = (uint8_t*)vc_array("stops", n, 1); stopped = false; idx = 0; char g;
	bool b = iterateInstructionContainer(Walk{ &g }, r.l); vc_assert(b == stopped, "whether the visitor stopped"); vc_assert(stopped || idx == n, "all are visited"); vc_cover("end");
}
VC_HARNESS(order_list_all)
{
	union RL { char c; List<Instruction> l; RL() {} ~RL() {} } r; uint64_t n = vc_len("n"); fam0 = VC_FAM("instrs", Instruction, n); VC_HEADS(r.l, Instruction, fam0, n); idx = 0; char g;
	bool b = iterateInstructionContainer(WalkAll{ &g }, r.l); vc_assert(!b && idx == n, "all are visited"); vc_cover("end");
}
// ---- the module
static Module* M; static uint64_t sec, cnt[5], famOf[5]; static uint8_t* stopAt[5];   // capabilities, extensions, imports, (memory model), entry points
static uint64_t nf, ff, ne, nextD, nextB, nextE; static uint8_t* seenF; static uint8_t* seenE; static bool bodies, eps;
static bool sections, body; static bool bodyVisit(Instruction& i), bodyList(List<Instruction>* L);   // the sections before the functions, or the functions (which are contracts of their own)
using CapN = NodeT<spv::Capability, Instruction>; using StrN = NodeT<String, Instruction>;
bool Visit::operator()(Instruction& i) const
{
	vc_assert(!stopped, "nothing is visited after the visitor stopped");
	if (body) return bodyVisit(i);
	if (!sections) { if (sec != 4) { vc_assert(&i == &M->m_MemoryModel, "the memory model"); sec = 4; idx = 0; } else ++idx; return false; }
	bool s = (vc_inita8(stopAt[sec], idx, 0) & 1) != 0;
	if (sec == 0) vc_assert(&i == &((Entry<CapN>*)vc_node(famOf[0], idx))->inner().kv.value, "the capabilities");
	else if (sec == 1 || sec == 2) { if (idx == cnt[2] && sec == 2) { vc_assert(&i == &M->m_MemoryModel, "the memory model follows the imports"); sec = 4; idx = 0; stopped = s; return s; } vc_assert(&i == &((Entry<StrN>*)vc_node(famOf[sec], idx))->inner().kv.value, "extensions, imports"); }
	else { vc_assert(sec == 4, "entry points"); vc_assert(&i == &((Entry<EntryPoint>*)vc_node(famOf[4], idx))->inner().m_EntryPoint, "the entry points"); }
	++idx; stopped = s; return s;
}
extern "C" bool ct_container(Visit, List<Instruction>* L)
{
	vc_assert(!stopped, "nothing is visited after the visitor stopped");
	if (body && sec == 14) return bodyList(L);
	if (sec == 4) { vc_assert(idx == cnt[4], "all entry points are visited"); sec = 5; }
	const List<Instruction>* e = sec == 5 ? &M->m_ExecutionModes : sec == 6 ? &M->m_SourceStrings : sec == 7 ? &M->m_Names : sec == 8 ? &M->m_ModuleProccessed : sec == 9 ? &M->m_Decorations : sec == 10 ? &M->m_TypesAndConstants : sec == 11 ? &M->m_GlobalVariables : sec == 12 ? &M->m_Undefs : sec == 13 ? &M->m_Lines : nullptr;
	vc_assert(L == e, "the sections follow in the logical layout"); ++sec; if (!sections) return false; stopped = vc_bool("stopc") || sec == 14; return stopped;
}
extern "C" bool ct_function(void*, Function* f)
{
	vc_assert(!stopped && sec == 14, "functions follow the global sections"); vc_assert(!eps, "functions precede the entry points' bodies");
	uint64_t p = vc_pos(ff, (Entry<Function>*)((char*)f - __builtin_offsetof(Entry<Function>, m_data))); vc_assert(p < nf && f == &((Entry<Function>*)vc_node(ff, p))->inner(), "a function of the module");
	if (f->empty()) { vc_assert(!bodies, "declarations precede definitions"); vc_assert(p >= nextD, "in order"); nextD = p + 1; }
	else { bodies = true; vc_assert(p >= nextB, "in order"); nextB = p + 1; }
	seenF[p] = 1; stopped = (vc_inita8(seenF, p, 0) & 1) != 0; return stopped;
}
extern "C" bool ct_entry(void*, EntryPoint* f)
{
	vc_assert(!stopped && sec == 14, "functions follow the global sections"); eps = true;
	uint64_t p = vc_pos(famOf[4], (Entry<EntryPoint>*)((char*)f - __builtin_offsetof(Entry<EntryPoint>, m_data))); vc_assert(p < ne && f == &((Entry<EntryPoint>*)vc_node(famOf[4], p))->inner(), "an entry point of the module");
	vc_assert(p >= nextE, "in order"); nextE = p + 1; seenE[p] = 1; stopped = (vc_inita8(seenE, p, 0) & 1) != 0; return stopped;
}
// map iteration yields the entries one after the other (C04)
template<class N> static void oneBucket(List<N>& b, unsigned s) { VC_HEADS(b, N, famOf[s], cnt[s]); }
extern "C" HashMap<spv::Capability, Instruction>::Iterator ct_caps_begin(const HashMap<spv::Capability, Instruction>* m)
{
	vc_assert(m == &M->m_Capabilities && sec == 99 && !stopped, "capabilities come first"); sec = 0; idx = 0;
	auto* b = m->m_pBuckets; return cnt[0] > 0 ? HashMap<spv::Capability, Instruction>::Iterator(b, b + 1, b->begin()) : HashMap<spv::Capability, Instruction>::Iterator(b + 1, b + 1);
}
extern "C" HashMap<String, Instruction>::Iterator ct_str_begin(const HashMap<String, Instruction>* m)
{
	vc_assert(sec < 2 && !stopped && idx == cnt[sec], "the previous section is complete"); ++sec; idx = 0; vc_assert(m == (sec == 1 ? &M->m_Extensions : &M->m_ExtInstrImport), "extensions, then imports");
	auto* b = m->m_pBuckets; return cnt[sec] > 0 ? HashMap<String, Instruction>::Iterator(b, b + 1, b->begin()) : HashMap<String, Instruction>::Iterator(b + 1, b + 1);
}
template<class T> union RawOf { char c; T x; RawOf() {} ~RawOf() {} };
static void module_order(int what)   // 0: the sections (the visitor stops at the last one at the latest), 1: functions, 2: entry points' bodies
{
	Raw r; Module& m = r.m; M = &m; sections = what == 0; body = false; sec = 99; stopped = bodies = eps = false; nextD = nextB = nextE = idx = 0;
	for (int i = 0; i < 5; ++i) cnt[i] = 0;
	if (sections) { cnt[0] = vc_len("caps"); cnt[1] = vc_len("exts"); cnt[2] = vc_len("imports"); } ne = cnt[4] = what != 1 ? vc_len("entries") : 0; nf = what == 1 ? vc_len("functions") : 0;
	famOf[0] = VC_FAM("caps", CapN, cnt[0]); famOf[1] = VC_FAM("exts", StrN, cnt[1]); famOf[2] = VC_FAM("imps", StrN, cnt[2]); famOf[4] = VC_FAM("eps", EntryPoint, ne); ff = VC_FAM("fns", Function, nf);
	for (int i = 0; i < 5; ++i) stopAt[i] = (uint8_t*)vc_array("stop", cnt[i] + 1, 1);
	RawOf<List<CapN>> b0; RawOf<List<StrN>> b1, b2; oneBucket(b0.x, 0); oneBucket(b1.x, 1); oneBucket(b2.x, 2);
	m.m_Capabilities.m_pBuckets = &b0.x; m.m_Capabilities.m_Buckets = 1; m.m_Extensions.m_pBuckets = &b1.x; m.m_Extensions.m_Buckets = 1; m.m_ExtInstrImport.m_pBuckets = &b2.x; m.m_ExtInstrImport.m_Buckets = 1;
	VC_HEADS(m.m_EntryPoints, EntryPoint, famOf[4], ne); VC_HEADS(m.m_Functions, Function, ff, nf);
	seenF = (uint8_t*)vc_array("seenf", nf + 1, 1); seenE = (uint8_t*)vc_array("seene", ne + 1, 1);
	char g; bool b = m.iterateInstructions(Visit{ &g });
	vc_assert(b == stopped, "whether the visitor stopped");
	if (what == 0) { vc_assert(stopped, "the visitor stops the walk"); }
	else if (!stopped) {
		vc_assert(sec == 14, "every section is visited");
		if (what == 1) { VC_FORALL(j, nf) vc_assert(seenF[j] == 1, "every function is visited"); }
		else { VC_FORALL(j, ne) vc_assert(((Entry<EntryPoint>*)vc_node(famOf[4], j))->inner().empty() || seenE[j] == 1, "every entry point with a body is visited"); }
	}
	vc_cover("end");
}
VC_HARNESS(order_sections) { module_order(0); }
VC_HARNESS(order_functions) { module_order(1); }
VC_HARNESS(order_entries) { module_order(2); }
// ---- one function: OpFunction, its parameters, its blocks (label, instructions, and only when it is terminated on to the next), OpFunctionEnd
static uint64_t nb, fb, cur; static unsigned phase; static Function* F; static uint8_t* stopL; static uint8_t* stopB; static uint8_t* ends; static bool anyStop[3];
static bool bodyVisit(Instruction& i)
{
	if (sec == 99 || sec != 14) { if (sec != 4) { vc_assert(&i == &M->m_MemoryModel, "the memory model"); sec = 4; idx = 0; } return false; }
	if (phase == 0) { vc_assert(&i == &F->m_Function, "OpFunction comes first"); phase = 1; return stopped = anyStop[0]; }
	vc_assert(phase == 2, "labels and the end follow a complete block");
	if (cur == nb) { vc_assert(&i == &F->m_FunctionEnd, "OpFunctionEnd comes last"); phase = 5; return stopped = anyStop[2]; }
	vc_assert(&i == &((Entry<BasicBlock>*)vc_node(fb, cur))->inner().m_Label, "the label of the next block"); phase = 3; stopped = (vc_inita8(stopL, cur, 0) & 1) != 0; return stopped;
}
static bool bodyList(List<Instruction>* L) { vc_assert(phase == 1 && L == &F->m_Parameters, "parameters follow OpFunction"); phase = 2; return stopped = anyStop[1]; }
extern "C" bool ct_block(Visit, BasicBlock* b)
{
	vc_assert(!stopped && phase == 3 && b == &((Entry<BasicBlock>*)vc_node(fb, cur))->inner(), "the instructions of a block follow its label"); phase = 4; stopped = (vc_inita8(stopB, cur, 0) & 1) != 0; return stopped;
}
extern "C" Instruction* ct_terminator(const BasicBlock* b)
{
	vc_assert(!stopped && phase == 4 && b == &((Entry<BasicBlock>*)vc_node(fb, cur))->inner(), "the block is checked"); bool t = (vc_inita8(ends, cur, 0) & 1) != 0; phase = 2; ++cur; stopped = !t; return t ? &F->m_Function : nullptr;
}
extern "C" const char* ct_name(const BasicBlock*) { return nullptr; }
VC_HARNESS(order_body)
{
	Raw r; Module& m = r.m; M = &m; sections = false; body = true; sec = 99; stopped = bodies = eps = false; idx = cur = 0; phase = 0;
	for (int i = 0; i < 5; ++i) { cnt[i] = 0; famOf[i] = 0; }
	famOf[0] = VC_FAM("caps", CapN, 0); famOf[1] = VC_FAM("exts", StrN, 0); famOf[2] = VC_FAM("imps", StrN, 0);
	RawOf<List<CapN>> b0; RawOf<List<StrN>> b1, b2; oneBucket(b0.x, 0); oneBucket(b1.x, 1); oneBucket(b2.x, 2);
	m.m_Capabilities.m_pBuckets = &b0.x; m.m_Capabilities.m_Buckets = 1; m.m_Extensions.m_pBuckets = &b1.x; m.m_Extensions.m_Buckets = 1; m.m_ExtInstrImport.m_pBuckets = &b2.x; m.m_ExtInstrImport.m_Buckets = 1;
	nb = vc_len("blocks"); RawOf<Entry<Function>> fn; fn.x.m_pPrev = fn.x.m_pNext = nullptr; F = &fn.x.inner(); fb = VC_FAM("blocks", BasicBlock, nb); VC_HEADS(*F, BasicBlock, fb, nb);
	m.m_EntryPoints.m_pBegin = m.m_EntryPoints.m_pLast = nullptr; m.m_EntryPoints.m_Elements = 0; m.m_Functions.m_pBegin = m.m_Functions.m_pLast = &fn.x; m.m_Functions.m_Elements = 1;
	stopL = (uint8_t*)vc_array("stopl", nb, 1); stopB = (uint8_t*)vc_array("stopb", nb, 1); ends = (uint8_t*)vc_array("ends", nb, 1); for (int i = 0; i < 3; ++i) anyStop[i] = vc_bool("stop");
	char g; bool b = m.iterateInstructions(Visit{ &g });
	vc_assert(b == stopped, "the walk is cut short by the visitor or by a block without a terminator");
	if (!stopped) vc_assert(phase == 5 && cur == nb, "every block is visited");
	vc_cover("end");
}
#else
static void walks(bool all)
{
	VcAllocator A; Gen g(&A); auto want = g.sequence(); size_t stop = all || chance(2) ? ~(size_t)0 : pick((unsigned)want.size()); vector<const Instruction*> got;
	bool r = all ? g.m.iterateInstructions([&](Instruction& i) { got.push_back(&i); }) : g.m.iterateInstructions([&](Instruction& i) { got.push_back(&i); return got.size() > stop; });
	if (stop < want.size()) { want.resize(stop + 1); vc_assert(r, "whether the visitor stopped"); } else vc_assert(!r, "whether the visitor stopped");
	vc_assert(got == want, "every instruction once, in the order of the layout, until the visitor stops"); vc_cover("end");
}
VC_HARNESS(order_list) { walks(false); }
VC_HARNESS(order_list_all) { walks(true); }
VC_HARNESS(order_sections) { walks(false); }
VC_HARNESS(order_functions) { walks(false); }
VC_HARNESS(order_entries) { walks(true); }
VC_HARNESS(order_body) { walks(false); }
#endif
