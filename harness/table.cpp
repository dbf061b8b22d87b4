// Contracts of the type and constant tables: an equal type or constant is the existing declaration, a new one is declared with
// exactly its operands, entered in both tables, after everything it refers to.  The hash maps are used by contract (C04), types
// and their hashes by contract (C16); recursion into subtypes and components by the contract being shown.
#include <vector>
#include <string>
#include "vc_list.h"
#include "spvgentwo/Module.h"
#include "spvgentwo/ModuleTemplate.inl"
#include "spvgentwo/Function.h"
#include "spvgentwo/EntryPoint.h"
using Op = spv::Op; using TE = Entry<Type>; using CE = Entry<Constant>;
static bool plainType(unsigned op) { return op == 19 || op == 20 || op == 26 || (op >= 34 && op <= 37) || op == 322 || op == 327 || op == 4472 || op == 5341 || (op >= 5704 && op <= 5713); }
static bool oneType(unsigned op) { return op == 29 || op == 27 || op == 5700; }   // runtime array, sampled image
static bool declarable(unsigned op) { return plainType(op) || oneType(op) || (op >= 21 && op <= 25) || op == 28 || op == 30 || op == 32 || op == 33 || op == 39; }
static bool plainConst(unsigned op) { return op == 41 || op == 42 || op == 46 || op == 48 || op == 49; }
static bool dataConst(unsigned op) { return op == 43 || op == 50 || op == 45; }
static bool compConst(unsigned op) { return op == 44 || op == 51; }
#ifdef VC_SYMBOLIC
template<class T> union RawOf { char c; T x; RawOf() {} ~RawOf() {} };
static Module* M; static uint64_t fam, n, subs, nOps, nodes, infos, appended, ids; static Instruction *subI, *lenI, *declared, *existing, *typeI; static List<Operand>* declL; static const Type* T0; static const Constant* C0;
static unsigned f_op, f_w, f_st, f_dim, f_acc, f_fmt, f_smp; static bool f_sg, f_arr, f_ms; static uint64_t dataN; static unsigned* data;
static void anyType(Type& t)
{
	f_op = vc_u32("op"); f_w = vc_u32("w"); f_sg = vc_bool("sign"); f_st = vc_u32("storage"); f_dim = vc_u32("dim"); f_arr = vc_bool("array"); f_ms = vc_bool("ms"); f_smp = vc_u32("sampled"); f_fmt = vc_u32("format"); f_acc = vc_u32("access");
	t.m_Type = (Op)f_op; t.m_IntWidth = f_w; t.m_IntSign = f_sg; t.m_StorageClass = (spv::StorageClass)f_st; t.m_ImgDimension = (spv::Dim)f_dim; t.m_ImgArray = f_arr; t.m_ImgMultiSampled = f_ms; t.m_ImgSamplerAccess = (SamplerImageAccess)f_smp; t.m_ImgFormat = (spv::ImageFormat)f_fmt; t.m_AccessQualifier = (spv::AccessQualifier)f_acc;
	n = vc_len("subs"); fam = vc_family("sub", n, sizeof(TE)); vc_link(fam, __builtin_offsetof(TE, m_pPrev), __builtin_offsetof(TE, m_pNext)); List<Type>& l = t.m_subTypes; l.m_pBegin = n ? (TE*)vc_node(fam, 0) : nullptr; l.m_pLast = n ? (TE*)vc_node(fam, n - 1) : nullptr; l.m_Elements = n;
}
static bool many() { return f_op == 30 || f_op == 33; }
enum { LIT, REF, ID };
// the i-th operand of the declaration
static void wantOperand(uint64_t i, unsigned kind, uint64_t v)
{
	if (C0) {
		if (i == 0) vc_assert(kind == REF && v == (uint64_t)typeI, "the first operand is the type"); else if (i == 1) vc_assert(kind == ID, "the second is the result");
		else if (dataConst(f_op)) vc_assert(kind == LIT && i - 2 < dataN && v == vc_inita32(data, i - 2, 0), "then the words of the value"); else vc_assert(compConst(f_op) && kind == REF && i - 2 < n && v == (uint64_t)(subI + (i - 2)), "then the components");
		return;
	}
	if (f_op != 39) { if (i == 0) { vc_assert(kind == ID, "the first operand is the result"); return; } --i; }
	if (many()) { vc_assert(kind == REF && i < n && v == (uint64_t)(subI + i), "then the member types in order"); return; }
	unsigned k = 99; uint64_t w = 0;
	if (f_op == 21) { k = LIT; w = i == 0 ? f_w : (unsigned)f_sg; if (i > 1) k = 99; }
	else if (f_op == 22) { k = i == 0 ? LIT : 99; w = f_w; }
	else if (f_op == 23 || f_op == 24) { k = i == 0 ? REF : i == 1 ? LIT : 99; w = i == 0 ? (uint64_t)subI : f_w; }
	else if (f_op == 32) { k = i == 0 ? LIT : i == 1 ? REF : 99; w = i == 0 ? f_st : (uint64_t)subI; }
	else if (f_op == 39) { k = i == 0 ? REF : i == 1 ? LIT : 99; w = i == 0 ? (uint64_t)subI : f_st; }
	else if (oneType(f_op)) { k = i == 0 ? REF : 99; w = (uint64_t)subI; }
	else if (f_op == 28) { k = i <= 1 ? REF : 99; w = i == 0 ? (uint64_t)subI : (uint64_t)lenI; }
	else if (f_op == 25) { k = i == 0 ? REF : i <= 6 || (i == 7 && f_acc != 0x7fffffff) ? LIT : 99; w = i == 0 ? (uint64_t)subI : i == 1 ? f_dim : i == 2 ? f_w : i == 3 ? (unsigned)f_arr : i == 4 ? (unsigned)f_ms : i == 5 ? f_smp : i == 6 ? f_fmt : f_acc; }
	vc_assert(k == kind && w == v, "then the properties of the type");
}
static uint64_t operandCount()
{
	if (C0) return 2 + (dataConst(f_op) ? dataN : compConst(f_op) ? n : 0);
	if (many()) return 1 + n; if (plainType(f_op)) return 1; if (f_op == 22 || oneType(f_op)) return 2; if (f_op == 39) return 2; if (f_op == 25) return f_acc != 0x7fffffff ? 9 : 8; return 3;
}
static RawOf<Operand> someOperand;
static Operand& appendOperand(List<Operand>* l, unsigned kind, uint64_t v) { vc_assert(nOps == 0 || l == declL, "all operands are the declaration's"); declL = l; wantOperand(nOps, kind, v); ++nOps; return someOperand.x; }
extern "C" Operand& ct_op_id(List<Operand>* l, const spv::Id* p) { vc_assert(*p == InvalidId, "no id yet"); return appendOperand(l, ID, 0); }
extern "C" Operand& ct_op_lit(List<Operand>* l, const unsigned* p) { return appendOperand(l, LIT, *p); }
extern "C" Operand& ct_op_instr(List<Operand>* l, Instruction** p) { return appendOperand(l, REF, (uint64_t)*p); }
static RawOf<NodeT<Type, Instruction*>> typeNode; static RawOf<NodeT<Constant, Instruction*>> constNode;
extern "C" NodeT<Type, Instruction*>& ct_type_node(HashMap<Type, Instruction*>* map, const Type* key, void**) { vc_assert(map == &M->m_TypeToInstr && key == T0 && nodes == 0 && !appended, "the type is looked up once"); ++nodes; return typeNode.x; }
extern "C" void* ct_type_info(HashMap<const Instruction*, const Type*>* map, const Instruction** i, const Type* const* t) { vc_assert(map == &M->m_InstrToType && *t == &typeNode.x.kv.key, "the declaration is known as this type"); declared = (Instruction*)*i; ++infos; return nullptr; }
extern "C" NodeT<Constant, Instruction*>& ct_const_node(HashMap<Constant, Instruction*>* map, const Constant* key, void**) { vc_assert(map == &M->m_ConstantToInstr && key == C0 && nodes == 0 && !appended, "the constant is looked up once"); ++nodes; return constNode.x; }
extern "C" void* ct_const_info(HashMap<const Instruction*, const Constant*>* map, const Instruction** i, const Constant* const* t) { vc_assert(map == &M->m_InstrToConstant && *t == &constNode.x.kv.key, "the declaration is known as this constant"); declared = (Instruction*)*i; ++infos; return nullptr; }
extern "C" Instruction* ct_sub_type(Module* m, const Type* t, const char*) { vc_assert(m == M && !appended && subs < n && t == &((TE*)vc_node(fam, subs))->inner(), "subtypes are declared before, in order"); return subI + subs++; }
extern "C" Instruction* ct_sub_const(Module* m, const Constant* t, const char*) { vc_assert(m == M && !appended && subs < n && t == &((CE*)vc_node(fam, subs))->inner(), "components are declared before, in order"); return subI + subs++; }
extern "C" Instruction* ct_type_of(Module* m, const Type* t, const char*) { vc_assert(m == M && t == &C0->m_Type && !appended, "the type is declared before the constant"); return typeI; }
extern "C" Instruction* ct_length(Module* m, const unsigned* v, bool spec, const char*) { vc_assert(m == M && *v == f_w && !spec && !appended, "the length is declared before, as a constant"); return lenI; }
static Entry<Instruction>* entry; static const char* name; static unsigned named;
extern "C" void ct_append(List<Instruction>* l, Entry<Instruction>* e) { vc_assert(l == &M->m_TypesAndConstants && nOps == operandCount(), "the finished declaration is added to the types and constants"); ++appended; entry = e; }
extern "C" void ct_name(Module*, Instruction* i, const char* s) { vc_assert(i == declared && s == name, "the name is that of the declaration"); ++named; }
static void start(Module& m, IAllocator* a) { M = &m; m.m_pAllocator = a; m.m_pLogger = nullptr; nOps = subs = nodes = infos = appended = named = 0; declared = nullptr; declL = nullptr; T0 = nullptr; C0 = nullptr; lenI = (Instruction*)vc_opaque("length"); typeI = (Instruction*)vc_opaque("type"); existing = vc_bool("known") ? (Instruction*)vc_opaque("existing") : nullptr; name = vc_bool("name") ? (const char*)vc_opaque("text") : nullptr; }
static void declaredAs(Module& m, Instruction* r)
{
	vc_assert(r == declared && infos == 1 && appended == 1 && &entry->inner() == r && declL == (List<Operand>*)r, "one declaration is added, the one returned"); vc_assert((unsigned)r->m_Operation == f_op && r->m_parentType == Instruction::ParentType::Module && r->m_parent.pModule == &m, "it is a declaration of this kind in this module");
	vc_assert(subs == (many() || (C0 && compConst(f_op)) ? n : C0 || plainType(f_op) || f_op == 21 || f_op == 22 ? 0 : 1), "with everything it refers to"); vc_assert(named == (name ? 1u : 0u), "and its name");
}
VC_HARNESS(table_add_type)
{
	VcAllocator alloc; RawOf<Module> mr; Module& m = mr.x; VcBox<Type> tb((IAllocator*)&alloc); Type& t = tb.x; start(m, &alloc); anyType(t); subI = (Instruction*)vc_array("subinstr", n, sizeof(Instruction)); T0 = &t; vc_assume(declarable(f_op) && (plainType(f_op) || many() || f_op == 21 || f_op == 22 || n >= 1)); typeNode.x.kv.value = existing;
	Instruction* r = m.addType(t, name);
	if (existing) vc_assert(r == existing && !appended && !infos && nOps == 0 && typeNode.x.kv.value == existing, "an equal type is the existing declaration");
	else { declaredAs(m, r); vc_assert(typeNode.x.kv.value == r, "the type is known by its declaration"); }
	vc_cover("end");
}
VC_HARNESS(table_add_constant)
{
	VcAllocator alloc; RawOf<Module> mr; Module& m = mr.x; RawOf<Constant> cb; Constant& c = cb.x; start(m, &alloc); n = vc_len("components"); fam = vc_family("comp", n, sizeof(CE)); vc_link(fam, __builtin_offsetof(CE, m_pPrev), __builtin_offsetof(CE, m_pNext)); subI = (Instruction*)vc_array("subinstr", n, sizeof(Instruction)); C0 = &c;
	List<Constant>& l = c.m_Components; l.m_pBegin = n ? (CE*)vc_node(fam, 0) : nullptr; l.m_pLast = n ? (CE*)vc_node(fam, n - 1) : nullptr; l.m_Elements = n; dataN = vc_len("words"); data = (unsigned*)vc_array("data", dataN, 4); c.m_literalData.m_pData = dataN ? data : nullptr; c.m_literalData.m_elements = dataN; c.m_literalData.m_capacity = dataN;
	f_op = vc_u32("op"); c.m_Operation = (Op)f_op; vc_assume(plainConst(f_op) || dataConst(f_op) || compConst(f_op)); constNode.x.kv.value = existing; bool spec = f_op >= 48;
	Instruction* r = m.addConstant(c, name);
	if (existing && !spec) vc_assert(r == existing && !appended && !infos && nOps == 0 && constNode.x.kv.value == existing, "an equal constant is the existing declaration");
	else { declaredAs(m, r); vc_assert(r != existing, "a declaration of its own"); vc_assert(constNode.x.kv.value == (existing ? existing : r), "the constant is known by its first declaration"); }
	vc_cover("end");
}
// the hash of a constant is computed from a sequence of values that determines the constant
static uint64_t feed[2][8], feeds[2], seed_, subAt[2], dataAt[2], typeAt[2], dataPos[2], subPos[2], subFam[2], subN[2], datN[2]; static unsigned run_; static unsigned* dat[2]; static const Constant* hashed[2];
static uint64_t advance(uint64_t s) { vc_assert(s == seed_, "hashing goes on where it was"); return ++seed_; }
static Hash64 fed(uint64_t v, Hash64 s) { vc_assert(subAt[run_] == 0 && (dataAt[run_] == 0 || dataAt[run_] == datN[run_]), "values are not mixed"); if (feeds[run_] < 8) feed[run_][feeds[run_]] = v; ++feeds[run_]; return Hash64(advance(s.value)); }
extern "C" Hash64 ct_chash4(const unsigned* p, Hash64 s) { if (datN[run_] > 0 && vc_same_object(p, dat[run_])) { vc_assert(dataAt[run_] < datN[run_] && p == dat[run_] + dataAt[run_], "every word is hashed, in order"); if (dataAt[run_] == 0) dataPos[run_] = feeds[run_]; vc_assert(feeds[run_] == dataPos[run_] && subAt[run_] == 0, "words are hashed in one run"); ++dataAt[run_]; return Hash64(advance(s.value)); } return fed(*p, s); }
extern "C" Hash64 ct_chash1(const uint8_t* p, Hash64 s) { return fed(*p, s); }
extern "C" Hash64 ct_chash8(const uint64_t* p, Hash64 s) { return fed(*p, s); }
extern "C" Hash64 ct_chash_type(const void*, const Type* t, FNV1aHasher* h) { vc_assert(t == &hashed[run_]->m_Type && subAt[run_] == 0 && typeAt[run_] == 0, "the type is hashed"); typeAt[run_] = feeds[run_] + 1; h->m_Hash = Hash64(advance(h->m_Hash.value)); return h->m_Hash; }
extern "C" Hash64 ct_chash_sub(const void*, const Constant* t, FNV1aHasher* h) { vc_assert(subAt[run_] < subN[run_] && t == &((CE*)vc_node(subFam[run_], subAt[run_]))->inner(), "every component is hashed, in order"); if (subAt[run_] == 0) subPos[run_] = feeds[run_]; ++subAt[run_]; h->m_Hash = Hash64(advance(h->m_Hash.value)); return h->m_Hash; }
static void anyConst(Constant& c, unsigned r)
{
	subN[r] = vc_len("components"); subFam[r] = vc_family("comp", subN[r], sizeof(CE)); vc_link(subFam[r], __builtin_offsetof(CE, m_pPrev), __builtin_offsetof(CE, m_pNext)); List<Constant>& l = c.m_Components; l.m_pBegin = subN[r] ? (CE*)vc_node(subFam[r], 0) : nullptr; l.m_pLast = subN[r] ? (CE*)vc_node(subFam[r], subN[r] - 1) : nullptr; l.m_Elements = subN[r];
	datN[r] = vc_len("words"); dat[r] = (unsigned*)vc_array("data", datN[r], 4); c.m_literalData.m_pData = datN[r] ? dat[r] : nullptr; c.m_literalData.m_elements = datN[r]; c.m_literalData.m_capacity = datN[r]; c.m_Operation = (Op)vc_u32("op");
}
static void hashOf(const Constant& c, unsigned r) { run_ = r; hashed[r] = &c; feeds[r] = subAt[r] = dataAt[r] = typeAt[r] = 0; dataPos[r] = subPos[r] = 99; seed_ = detail::Offset.value; Hash64 h = hash(c); vc_assert(h.value == seed_, "the hash is that of the whole sequence"); vc_assert(subAt[r] == subN[r] && dataAt[r] == datN[r] && typeAt[r] > 0 && feeds[r] <= 8, "everything is hashed"); }
VC_HARNESS(table_constant_hash)
{
	RawOf<Constant> ar, br; Constant &a = ar.x, &b = br.x; anyConst(a, 0); anyConst(b, 1); hashOf(a, 0); hashOf(b, 1);
	uint64_t k = feeds[0] < feeds[1] ? feeds[0] : feeds[1]; bool eq = true; for (unsigned i = 0; i < 8; ++i) eq &= i >= k || feed[0][i] == feed[1][i];
	// words and components may only be hashed once their number is determined, so that the rest of the sequence is read the same way
	bool pre = true; for (unsigned i = 0; i < 8; ++i) pre &= i >= dataPos[0] || i >= dataPos[1] || feed[0][i] == feed[1][i];
	vc_assert(typeAt[0] == typeAt[1], "the type is at the same place"); vc_assert(!pre || datN[0] == datN[1] || (dataPos[0] == 99 && dataPos[1] == 99), "the number of words is known before the words");
	vc_assert(!eq || (a.m_Operation == b.m_Operation && datN[0] == datN[1] && subN[0] == subN[1] && feeds[0] == feeds[1]), "the values hashed determine the constant");
	vc_assert(!(a.m_Operation == b.m_Operation && datN[0] == datN[1] && subN[0] == subN[1]) || eq, "equal constants are hashed equally"); vc_cover("end");
}
#else
#include <stdlib.h>
struct TAlloc : IAllocator { void* allocate(sgt_size_t n, unsigned) override { return malloc(n); } void deallocate(void* p, sgt_size_t) override { free(p); } };
static Type anyT(IAllocator* a, unsigned depth)
{
	static const unsigned leaf[] = { 19, 20, 21, 22, 26, 34, 322, 4472 }, comp[] = { 23, 24, 25, 27, 28, 29, 30, 32, 33, 30 }; Type t(a); unsigned op = depth > 2 || vc_bool("leaf") ? leaf[vc_below("op", 8)] : comp[vc_below("cop", 10)]; t.m_Type = (Op)op;
	auto in = [&](Type s) { t.m_subTypes.emplace_back(s); }; auto scalar = [&] { Type s(a); if (vc_bool("f")) s.Float(32); else s.Int(32, vc_bool("s")); return s; };
	switch (op) { case 21: t.m_IntWidth = 8u << vc_below("w", 4); t.m_IntSign = vc_bool("sign"); break; case 22: t.m_FloatWidth = 16u << vc_below("w", 3); break; case 23: in(scalar()); t.m_VecComponentCount = 2 + (unsigned)vc_below("n", 3); break; case 24: { Type v(a); v.m_Type = Op::OpTypeVector; v.m_VecComponentCount = 3; Type f(a); f.Float(32); v.m_subTypes.emplace_back(f); in(v); t.m_MatColumnCount = 2 + (unsigned)vc_below("n", 3); break; }
	case 25: in(scalar()); t.m_ImgDimension = (spv::Dim)vc_below("dim", 4); t.m_ImgDepth = (unsigned)vc_below("depth", 3); t.m_ImgArray = vc_bool("arr"); t.m_ImgMultiSampled = vc_bool("ms"); t.m_ImgSamplerAccess = (SamplerImageAccess)vc_below("smp", 3); t.m_ImgFormat = (spv::ImageFormat)vc_below("fmt", 4); t.m_AccessQualifier = vc_bool("acc") ? (spv::AccessQualifier)vc_below("aq", 3) : spv::AccessQualifier::Max; break;
	case 27: case 29: in(anyT(a, depth + 1)); break; case 28: in(anyT(a, depth + 1)); t.m_ArrayLength = 1 + (unsigned)vc_below("len", 4); break; case 32: in(anyT(a, depth + 1)); t.m_StorageClass = (spv::StorageClass)vc_below("sc", 8); break; case 30: case 33: for (uint64_t i = vc_below("members", 4) + (op == 33); i > 0; --i) in(anyT(a, depth + 1)); break; }
	return t;
}
static std::string opsOf(Instruction* i) { std::string s; for (auto& o : *i) s += (o.isInstruction() ? "i" + std::to_string((uint64_t)o.getInstruction()) : o.isLiteral() ? "l" + std::to_string(o.getLiteral().value) : o.isId() ? std::string("r") : std::string("?")) + " "; return s; }
static std::string I_(Instruction* i) { return "i" + std::to_string((uint64_t)i) + " "; }
static std::string L_(uint64_t v) { return "l" + std::to_string(v) + " "; }
static std::string wantType(Module& m, const Type& t)
{
	unsigned op = (unsigned)t.m_Type; std::string s = "r "; auto sub = [&] { Instruction* i = m.getTypeInstr(t.m_subTypes.front()); vc_assert(i != nullptr, "subtypes are declared"); return I_(i); };
	switch (op) { case 21: return s + L_(t.m_IntWidth) + L_(t.m_IntSign); case 22: return s + L_(t.m_IntWidth); case 23: case 24: return s + sub() + L_(t.m_IntWidth); case 32: return s + L_((unsigned)t.m_StorageClass) + sub(); case 27: case 29: return s + sub(); case 28: return s + sub() + I_(m.constant(t.m_ArrayLength));
	case 25: s += sub() + L_((unsigned)t.m_ImgDimension) + L_(t.m_ImgDepth) + L_(t.m_ImgArray) + L_(t.m_ImgMultiSampled) + L_((unsigned)t.m_ImgSamplerAccess) + L_((unsigned)t.m_ImgFormat); if (t.m_AccessQualifier != spv::AccessQualifier::Max) s += L_((unsigned)t.m_AccessQualifier); return s;
	case 30: case 33: for (auto& x : t.m_subTypes) { Instruction* i = m.getTypeInstr(x); vc_assert(i != nullptr, "subtypes are declared"); s += I_(i); } return s; }
	return s;
}
static void order(Module& m) { std::vector<Instruction*> seen; for (auto& i : m.m_TypesAndConstants) { for (auto& o : i) if (o.isInstruction()) { bool k = false; for (auto* x : seen) k |= x == o.getInstruction(); vc_assert(k, "everything it refers to is declared before"); } seen.push_back(&i); } }
VC_HARNESS(table_add_type)
{
	TAlloc al; Module m(&al); for (unsigned k = 0, e = 1 + (unsigned)vc_below("types", 4); k < e; ++k) {
		Type t = anyT(&al, 0); Instruction* old = m.getTypeInstr(t); uint64_t before = m.m_TypesAndConstants.size(); bool nm = vc_bool("name"); Instruction* r = m.addType(t, nm ? "n" : nullptr);
		if (old) vc_assert(r == old && m.m_TypesAndConstants.size() == before, "an equal type is the existing declaration");
		else { vc_assert(r == &m.m_TypesAndConstants.back() && r->getOperation() == t.m_Type && r->getModule() == &m, "it is a declaration of this kind"); vc_assert(opsOf(r) == wantType(m, t), "its operands"); vc_assert((std::string(m.getName(r) ? m.getName(r) : "") == "n") == nm, "and its name"); }
		vc_assert(m.getTypeInstr(t) == r && m.getTypeInfo(r) != nullptr && *m.getTypeInfo(r) == t, "the type is known by its declaration"); vc_assert(m.addType(t) == r, "an equal type is the existing declaration"); order(m);
	}
	vc_cover("end");
}
static Constant anyC(IAllocator* a, unsigned depth, bool spec)
{
	Constant c(a); switch (vc_below("kind", depth > 2 ? 6 : 8)) { case 0: c.make((int)vc_below("v", 3), spec); break; case 1: c.make((unsigned)vc_below("v", 3), spec); break; case 2: c.make(vc_bool("b"), spec); break; case 3: c.make((double)vc_below("v", 3), spec); break; case 4: c.make((unsigned long long)vc_below("v", 3) << 32, spec); break;
	case 5: c.m_Operation = Op::OpConstantNull; c.m_Type = anyT(a, 1); break; default: { c.m_Operation = spec ? Op::OpSpecConstantComposite : Op::OpConstantComposite; c.m_Type.m_Type = Op::OpTypeStruct; for (uint64_t i = 1 + vc_below("n", 3); i > 0; --i) { Constant k = anyC(a, depth + 1, false); c.m_Type.m_subTypes.emplace_back(k.m_Type); c.m_Components.emplace_back(k); } break; } }
	return c;
}
static std::string textC(const Constant& c) { std::string s = std::to_string((unsigned)c.m_Operation) + ":" + std::to_string(hash(c.m_Type).value) + "["; for (unsigned w : c.m_literalData) s += std::to_string(w) + ","; s += "]("; for (auto& x : c.m_Components) s += textC(x); return s + ")"; }
VC_HARNESS(table_add_constant)
{
	TAlloc al; Module m(&al); std::vector<std::pair<std::string, Instruction*>> known; for (unsigned k = 0, e = 1 + (unsigned)vc_below("constants", 4); k < e; ++k) {
		bool spec = vc_below("spec", 4) == 0; Constant c = anyC(&al, 0, spec); unsigned op = (unsigned)c.m_Operation; spec = op >= 48; uint64_t before = m.m_TypesAndConstants.size(); Instruction** had = m.m_ConstantToInstr.get(c); Instruction* old = had ? *had : nullptr; Instruction* r = m.addConstant(c);
		if (old && !spec) { vc_assert(r == old && m.m_TypesAndConstants.size() == before, "an equal constant is the existing declaration"); }
		else {
			vc_assert(r != old && r == &m.m_TypesAndConstants.back() && r->getOperation() == c.m_Operation && r->getModule() == &m, "it is a declaration of this kind"); std::string w = I_(m.getTypeInstr(c.m_Type)) + "r "; if (dataConst(op)) for (unsigned x : c.m_literalData) w += L_(x); if (compConst(op)) for (auto& x : c.m_Components) w += I_(*m.m_ConstantToInstr.get(x));
			vc_assert(opsOf(r) == w, "its operands"); vc_assert(*m.m_ConstantToInstr.get(c) == (old ? old : r), "the constant is known by its first declaration");
		}
		vc_assert(m.getConstantInfo(r) != nullptr && textC(*m.getConstantInfo(r)) == textC(c), "the declaration is known as this constant"); order(m);
	}
	vc_cover("end");
}
VC_HARNESS(table_constant_hash)
{
	TAlloc al; Constant a = anyC(&al, 0, vc_bool("spec")), b = anyC(&al, 0, vc_bool("spec"));
	if (!vc_bool("other")) { b = a; Constant* p = &b; while (!p->m_Components.empty() && vc_bool("deeper")) p = &p->m_Components.front(); switch (vc_below("field", 6)) { case 0: if (p->m_literalData.size()) p->m_literalData[0] ^= 1; break; case 1: p->m_literalData.emplace_back(0u); break; case 2: p->m_Operation = Op::OpConstantNull; break; case 3: p->m_Type.m_IntWidth ^= 8; break;
		case 4: if (b.m_Components.size() > 1) { auto second = b.m_Components.begin() + 1u; Constant t(*second); b.m_Components.erase(second); b.m_Components.front().m_Components.emplace_back(t); } break; } }
	vc_assert((textC(a) == textC(b)) == (hash(a) == hash(b)), "constants are equal exactly if their hashes are"); vc_cover("end");
}
#endif
