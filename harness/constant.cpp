// Contracts of Constant objects: a copy or moved-to constant has the value (operation, type, components, words) of its source, and
// a reset constant is as good as new.  Types, lists and vectors are used by contract (C16, C01, C02).
#include <vector>
#include <string>
#include "vc_list.h"
#include "spvgentwo/Constant.h"
using Op = spv::Op; using CL = List<Constant>; using WV = Vector<unsigned>;
#ifdef VC_SYMBOLIC
// a value's identity: one word in the type, the number of elements in the list and the vector (the null value is 0)
static void copyType(Type* d, const Type* s) { d->m_IntWidth = s->m_IntWidth; }
static void copyList(CL* d, const CL* s) { d->m_Elements = s->m_Elements; }
static void copyWords(WV* d, const WV* s) { d->m_elements = s->m_elements; }
extern "C" void ct_type_copy(Type* d, const Type* s) { copyType(d, s); }
extern "C" void ct_type_move(Type* d, Type* s) { copyType(d, s); s->m_IntWidth = vc_u32("moved"); }
extern "C" Type* ct_type_assign(Type* d, const Type* s) { copyType(d, s); return d; }
extern "C" Type* ct_type_moveassign(Type* d, Type* s) { if (d != s) ct_type_move(d, s); return d; }
extern "C" void ct_type_reset(Type* d) { d->m_IntWidth = 0; }
extern "C" void ct_list_copy(CL* d, const CL* s) { copyList(d, s); }
extern "C" void ct_list_move(CL* d, CL* s) { copyList(d, s); s->m_Elements = vc_u64("moved"); }
extern "C" CL* ct_list_assign(CL* d, const CL* s) { copyList(d, s); return d; }
extern "C" CL* ct_list_moveassign(CL* d, CL* s) { if (d != s) ct_list_move(d, s); return d; }
extern "C" void ct_list_clear(CL* d) { d->m_Elements = 0; }
extern "C" void ct_words_copy(WV* d, const WV* s) { copyWords(d, s); }
extern "C" void ct_words_move(WV* d, WV* s) { copyWords(d, s); s->m_elements = vc_u64("moved"); }
extern "C" WV* ct_words_assign(WV* d, const WV* s) { copyWords(d, s); return d; }
extern "C" WV* ct_words_moveassign(WV* d, WV* s) { if (d != s) ct_words_move(d, s); return d; }
extern "C" void ct_words_clear(WV* d) { d->m_elements = 0; }
extern "C" void ct_nothing(void*) {}
template<class T> union RawOf { char c; T x; RawOf() {} ~RawOf() {} };
struct Value { unsigned op, type; uint64_t list, words; bool operator==(const Value& o) const { return (op == o.op) & (type == o.type) & (list == o.list) & (words == o.words); } };
static Value value(const Constant& c) { return { (unsigned)c.m_Operation, c.m_Type.m_IntWidth, c.m_Components.m_Elements, c.m_literalData.m_elements }; }
static Value fresh() { return { (unsigned)Op::OpConstantNull, 0, 0, 0 }; }
static RawOf<Constant> ra, rb;
#define ANY(c, raw) Constant& c = raw.x; c.m_Operation = (Op)vc_u32("op"); c.m_Type.m_IntWidth = vc_u32("type"); c.m_Components.m_Elements = vc_u64("components"); c.m_literalData.m_elements = vc_u64("words")
#define BLANK(c, raw, init) new ((void*)&raw) Constant init; Constant& c = raw.x
#else
static std::string typeText(const Type& t)
{
	std::string s = std::to_string((unsigned)t.m_Type); for (unsigned x : { t.m_IntWidth, (unsigned)t.m_IntSign, (unsigned)t.m_StorageClass, (unsigned)t.m_ImgDimension, (unsigned)t.m_ImgArray, (unsigned)t.m_ImgMultiSampled, (unsigned)t.m_ImgSamplerAccess, (unsigned)t.m_ImgFormat, (unsigned)t.m_AccessQualifier }) s += "," + std::to_string(x);
	s += "("; for (auto& x : t.m_subTypes) s += typeText(x); return s + ")";
}
static std::string value(const Constant& c) { std::string s = std::to_string((unsigned)c.m_Operation) + typeText(c.m_Type) + "["; for (unsigned w : c.m_literalData) s += std::to_string(w) + " "; s += "]{"; for (auto& x : c.m_Components) s += value(x) + ";"; return s + "}"; }
static void anyConstant(Constant& c)
{
	bool spec = vc_bool("spec"); int i = (int)vc_u32("i");
	switch (vc_below("kind", 9)) { case 0: c.make(vc_bool("b"), spec); break; case 1: c.make(i, spec); break; case 2: c.make(1.5 + i, spec); break; case 3: c.make((unsigned)i, spec); break; case 4: c.make(const_vector_t<int, 3>{ { i, 2, i } }, spec); break; case 5: c.make(const_matrix_t<float, 2, 2>{ { 1.f, (float)i, 0.f, 3.f } }, spec); break;
	case 6: c.make(const_null_t<float>{}, spec); break; case 7: c.make(const_array_t<unsigned, 2>{ { (unsigned)i, 5u } }, spec); break; default: break; }
}
#define fresh() value(Constant((IAllocator*)&alloc))
#define ANY(c, raw) Constant c((IAllocator*)&alloc); anyConstant(c)
#define BLANK(c, raw, init) Constant c init
#endif
VC_HARNESS(const_copy) { VcAllocator alloc; ANY(a, ra); auto v = value(a); BLANK(b, rb, (static_cast<const Constant&>(a))); vc_assert(value(b) == v, "a copy has the value of its source"); vc_assert(value(a) == v, "the source is unchanged"); vc_cover("end"); }
VC_HARNESS(const_move) { VcAllocator alloc; ANY(a, ra); auto v = value(a); BLANK(b, rb, (stdrep::move(a))); vc_assert(value(b) == v, "the moved-to constant has the value"); vc_cover("end"); }
VC_HARNESS(const_assign) { VcAllocator alloc; ANY(a, ra); ANY(b, rb); auto v = value(a); Constant* r = &(b = static_cast<const Constant&>(a)); vc_assert(r == &b && value(b) == v, "a copy has the value of its source"); vc_assert(value(a) == v, "the source is unchanged"); const Constant& s = a; a = s; vc_assert(value(a) == v, "self assignment"); vc_cover("end"); }
VC_HARNESS(const_move_assign) { VcAllocator alloc; ANY(a, ra); ANY(b, rb); auto v = value(a); Constant* r = &(b = stdrep::move(a)); vc_assert(r == &b && value(b) == v, "the moved-to constant has the value"); Constant& s = b; b = stdrep::move(s); vc_assert(value(b) == v, "self assignment"); vc_cover("end"); }
VC_HARNESS(const_reset) { VcAllocator alloc; ANY(a, ra); a.reset(); vc_assert(value(a) == fresh(), "a reset constant is as good as new"); vc_cover("end"); }
