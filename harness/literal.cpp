// Contracts of literal encoding: numbers (num_*, C08) and strings (str_*, C09).
#include <vector>
#include "vc_str.h"
#include "spvgentwo/Instruction.h"
#include "spvgentwo/Constant.h"
// a container of words with room for what is written
struct Words {
	using ValueType = unsigned;
	unsigned* w = nullptr; uint64_t n = 0, cap;
	Words(uint64_t c) : w((unsigned*)vc_array("words", c, 4)), cap(c) {}
	void emplace_back(unsigned x) { vc_assert(n < cap, "no more words than prescribed"); w[n++] = x; }
};
// the words SPIR-V prescribes for a value: low-order word first, narrow values sign- or zero-extended
struct Spec { unsigned n, lo, hi; };
template<class T> T any(const char* name)
{
	T v;
	if constexpr (sizeof(T) == 8) { uint64_t b = vc_u64(name); __builtin_memcpy(&v, &b, 8); }
	else if constexpr (sizeof(T) == 4) { uint32_t b = vc_u32(name); __builtin_memcpy(&v, &b, 4); }
	else if constexpr (sizeof(T) == 2) { uint16_t b = vc_u16(name); __builtin_memcpy(&v, &b, 2); }
	else v = (T)vc_u8(name);
	return v;
}
template<> bool any<bool>(const char* name) { return vc_bool(name); }
template<class T> uint64_t bits(const T& v)
{
	if constexpr (sizeof(T) == 8) { uint64_t b; __builtin_memcpy(&b, &v, 8); return b; }
	else if constexpr (sizeof(T) == 4) { uint32_t b; __builtin_memcpy(&b, &v, 4); return b; }
	else return (uint32_t)(int32_t)v;       // the conversion extends according to signedness
}
template<class T> Spec spec(const T& v) { uint64_t b = bits(v); return Spec{sizeof(T) == 8 ? 2u : 1u, (unsigned)b, (unsigned)(b >> 32)}; }
template<class T> void number()
{
	T v = any<T>("v"); Spec s = spec(v);
	Words o(4); o.n = vc_below("at", 2); uint64_t k = o.n;
	appendLiteralsToContainer(o, v);
	vc_assert(o.n == k + s.n, "number of words");
	vc_assert(o.w[k] == s.lo, "low-order word first");
	if (s.n == 2) vc_assert(o.w[k + 1] == s.hi, "high-order word second");
	vc_assert(wordCount<T>() == s.n, "wordCount agrees");
	vc_cover("end");
}
enum class E32 : unsigned {}; enum class I32 : int {};
VC_HARNESS(num_bool) { number<bool>(); }
VC_HARNESS(num_char) { number<char>(); }
VC_HARNESS(num_schar) { number<signed char>(); }
VC_HARNESS(num_uchar) { number<unsigned char>(); }
VC_HARNESS(num_short) { number<short>(); }
VC_HARNESS(num_ushort) { number<unsigned short>(); }
VC_HARNESS(num_int) { number<int>(); }
VC_HARNESS(num_uint) { number<unsigned>(); }
VC_HARNESS(num_int64) { number<sgt_int64_t>(); }
VC_HARNESS(num_uint64) { number<sgt_uint64_t>(); }
VC_HARNESS(num_float) { number<float>(); }
VC_HARNESS(num_double) { number<double>(); }
VC_HARNESS(num_enum) { number<spv::StorageClass>(); }
// several values: in order, each with its own words
VC_HARNESS(num_sequence)
{
	short a = any<short>("a"); double b = any<double>("b"); unsigned c = any<unsigned>("c"); sgt_int64_t d = any<sgt_int64_t>("d"); char e = any<char>("e");
	Spec sa = spec(a), sb = spec(b), sc = spec(c), sd = spec(d), se = spec(e);
	Words o(7);
	appendLiteralsToContainer(o, a, b, c, d, e);
	vc_assert(o.n == 7, "number of words");
	vc_assert(o.w[0] == sa.lo && o.w[1] == sb.lo && o.w[2] == sb.hi && o.w[3] == sc.lo && o.w[4] == sd.lo && o.w[5] == sd.hi && o.w[6] == se.lo, "values in order");
	vc_cover("end");
}
// into an instruction's operand list
template<class T> void operands()
{
	VcAllocator a; List<Operand> l(&a);
	unsigned f = vc_u32("first"); l.emplace_back((spv::Id)f);
	T v = any<T>("v"); Spec s = spec(v);
	appendLiteralsToContainer(l, v);
	vc_assert(l.size() == 1 + s.n, "number of operands");
	auto it = l.begin();
	vc_assert(it->isId() && (unsigned)it->getId() == f, "operands before are kept");
	++it; vc_assert(it->isLiteral() && it->getLiteral().value == s.lo, "low-order word first");
	if (s.n == 2) { ++it; vc_assert(it->isLiteral() && it->getLiteral().value == s.hi, "high-order word second"); }
	vc_cover("end");
}
VC_HARNESS(num_operand_short) { operands<short>(); }
VC_HARNESS(num_operand_uint) { operands<unsigned>(); }
VC_HARNESS(num_operand_double) { operands<double>(); }
VC_HARNESS(num_operand_int64) { operands<sgt_int64_t>(); }
// constants: encode and decode
template<class T> void constant()
{
	VcAllocator a; T v = any<T>("v"); Spec s = spec(v);
	VcBox<Constant> box(&a); Constant& c = box.x;
	c.addData(v);
	const Vector<unsigned>& d = c.getData();
	vc_assert(d.size() == s.n, "number of words");
	vc_assert(d[0] == s.lo, "low-order word first");
	if (s.n == 2) vc_assert(d[1] == s.hi, "high-order word second");
	const T* p = c.getDataAs<T>(false);
	vc_assert(p != nullptr, "decodable");
	vc_assert(bits(*p) == bits(v), "decoding yields the value");
	vc_assert((c.getDataAs<sgt_uint64_t>(false) != nullptr) == (s.n == 2), "no value wider than the data");
	vc_cover("end");
}
VC_HARNESS(num_constant_bool) { constant<bool>(); }
VC_HARNESS(num_constant_char) { constant<char>(); }
VC_HARNESS(num_constant_short) { constant<short>(); }
VC_HARNESS(num_constant_ushort) { constant<unsigned short>(); }
VC_HARNESS(num_constant_int) { constant<int>(); }
VC_HARNESS(num_constant_uint64) { constant<sgt_uint64_t>(); }
VC_HARNESS(num_constant_int64) { constant<sgt_int64_t>(); }
VC_HARNESS(num_constant_float) { constant<float>(); }
VC_HARNESS(num_constant_double) { constant<double>(); }
VC_HARNESS(num_constant_components)
{
	VcAllocator a; VcBox<Constant> box(&a); Constant& c = box.x;
	short x = any<short>("x"); double y = any<double>("y");
	c.addData(x); c.addData(y);
	Spec s = spec(x), t = spec(y);
	vc_assert(c.getData().size() == 3 && c.getData()[0] == s.lo && c.getData()[1] == t.lo && c.getData()[2] == t.hi, "data accumulates in order");
	vc_cover("end");
}
// typed constants: the value comes back for its own type only
template<class T, class Other> void typed()
{
	VcAllocator a; T v = any<T>("v"); bool specc = vc_bool("spec");
	VcBox<Constant> box(&a); Constant& c = box.x;
	Constant& r = c.make(v, specc);
	vc_assert(&r == &c, "make returns its constant");
	vc_assert(c.getOperation() == (specc ? spv::Op::OpSpecConstant : spv::Op::OpConstant), "operation");
	Spec s = spec(v);
	vc_assert(c.getData().size() == s.n && c.getData()[0] == s.lo && (s.n == 1 || c.getData()[1] == s.hi), "words");
	const T* p = c.getDataAs<T>();
	vc_assert(p != nullptr && bits(*p) == bits(v), "decoding with the type yields the value");
	vc_assert(c.getDataAs<Other>() == nullptr, "another type yields nothing");
	vc_cover("end");
}
VC_HARNESS(num_typed_short) { typed<short, unsigned short>(); }
VC_HARNESS(num_typed_uint) { typed<unsigned, int>(); }
VC_HARNESS(num_typed_int) { typed<int, float>(); }
VC_HARNESS(num_typed_int64) { typed<sgt_int64_t, double>(); }
VC_HARNESS(num_typed_float) { typed<float, unsigned>(); }
VC_HARNESS(num_typed_double) { typed<double, float>(); }
VC_HARNESS(num_typed_bool)
{
	VcAllocator a; bool v = vc_bool("v"), specc = vc_bool("spec");
	VcBox<Constant> box(&a); Constant& c = box.x; c.make(v, specc);
	vc_assert(c.getOperation() == (v ? (specc ? spv::Op::OpSpecConstantTrue : spv::Op::OpConstantTrue) : (specc ? spv::Op::OpSpecConstantFalse : spv::Op::OpConstantFalse)), "operation");
	const bool* p = c.getDataAs<bool>();
	vc_assert(p != nullptr && *p == v, "decoding with the type yields the value");
	vc_cover("end");
}
// strings ------------------------------------------------------------------------------------------------
static unsigned byteOf(const CStr& s, uint64_t i) { return i < s.n ? (unsigned char)s.at(i) : 0u; }
static unsigned wordOf(const CStr& s, uint64_t j) { return byteOf(s, 4 * j) | byteOf(s, 4 * j + 1) << 8 | byteOf(s, 4 * j + 2) << 16 | byteOf(s, 4 * j + 3) << 24; }
VC_HARNESS(str_encode)
{
	CStr s("n", "text");
	Words o(s.n / 4 + 1);
	appendLiteralsToContainer(o, s.p);
	vc_assert(o.n == s.n / 4 + 1, "n/4+1 words");
	VC_FORALL(j, s.n / 4 + 1) { vc_assert(o.w[j] == wordOf(s, j), "bytes in order, zero padded"); }
	vc_cover("end");
}
// a list of operands starting with the encoding of an arbitrary text, with arbitrary operands behind
struct Encoded {
	CStr s; uint64_t n, words, behind;
#ifdef VC_SYMBOLIC
	uint64_t fam;
	Encoded(List<Operand>& L) : s("n", "text") {
		n = s.n; words = n / 4 + 1; behind = vc_len("behind");
		fam = vc_family("operands", words + behind, sizeof(Entry<Operand>));
		vc_link(fam, __builtin_offsetof(Entry<Operand>, m_pPrev), __builtin_offsetof(Entry<Operand>, m_pNext));
		vc_fam_text(fam, __builtin_offsetof(Entry<Operand>, m_data.type), __builtin_offsetof(Entry<Operand>, m_data.literal), s.p, n);
		L.m_pBegin = (Entry<Operand>*)vc_node(fam, 0); L.m_pLast = (Entry<Operand>*)vc_node(fam, words + behind - 1); L.m_Elements = words + behind;
	}
	Entry<Operand>* node(uint64_t j) const { return j < words + behind ? (Entry<Operand>*)vc_node(fam, j) : nullptr; }
#else
	std::vector<Entry<Operand>*> e;
	Encoded(List<Operand>& L) : s("n", "text") {
		n = s.n; words = n / 4 + 1; behind = vc_len("behind");
		for (uint64_t j = 0; j < words; ++j) { L.emplace_back(literal_t(wordOf(s, j))); e.push_back(L.lastEntry()); }
		for (uint64_t j = 0; j < behind; ++j) { unsigned x = vc_u32("w"); if (vc_bool("lit")) L.emplace_back(literal_t(x)); else L.emplace_back((spv::Id)x); e.push_back(L.lastEntry()); }
	}
	Entry<Operand>* node(uint64_t j) const { return j < words + behind ? e[j] : nullptr; }
#endif
};
#ifdef VC_SYMBOLIC
// String::emplace_back(c) by its contract (C03, str_emplace_back): the text grows by c
struct Text { char* w; uint64_t n, cap; String* s; } text;
extern "C" char* ct_string_emplace_back(String* s, const char* c)
{
	vc_assert(s == text.s, "the given string is written");
	vc_assert(text.n < text.cap, "no more characters than the text has");
	text.w[text.n++] = *c;
	return text.w + (text.n - 1);
}
#endif
VC_HARNESS(str_decode)
{
	VcAllocator a; VcBox<List<Operand>> box(&a); List<Operand>& l = box.x; Encoded e(l);
	VcBox<String> sb(&a); String& out = sb.x;
#ifdef VC_SYMBOLIC
	text.w = (char*)vc_array("decoded", e.n, 1); text.n = 0; text.cap = e.n; text.s = &out;
#endif
	auto it = getLiteralString(out, l.begin(), l.end());
	vc_assert(it.entry() == e.node(e.words), "the first operand behind the literal is returned");
#ifdef VC_SYMBOLIC
	vc_assert(text.n == e.n, "length of the decoded text");
	VC_FORALL(j, e.words) for (uint64_t c = 0; c < 4; ++c) if (4 * j + c < e.n) vc_assert(text.w[4 * j + c] == e.s.at(4 * j + c), "character of the decoded text");
#else
	check_str(out, e.n, [&](uint64_t i) { return e.s.at(i); });
#endif
	vc_cover("end");
}
VC_HARNESS(str_skip)
{
	VcAllocator a; VcBox<List<Operand>> box(&a); List<Operand>& l = box.x; Encoded e(l);
	auto it = skipLiteralString(l.begin());
	vc_assert(it.entry() == e.node(e.words), "the first operand behind the literal is returned");
	vc_cover("end");
}
VC_HARNESS(str_compare_true)
{
	VcAllocator a; VcBox<List<Operand>> box(&a); List<Operand>& l = box.x; Encoded e(l);
	CStr t("m", "other");
	vc_assume(compareLiteralString(t.p, l.begin(), l.end()));
	vc_assert(t.n == e.n, "equal texts have the same length");
	VC_FORALL(j, e.words) { vc_term(j); for (uint64_t i = 4 * j; i < 4 * j + 4; ++i) { if (i < e.n) vc_assert(t.at(i) == e.s.at(i), "equal texts have the same characters"); } }
	vc_cover("end");
}
VC_HARNESS(str_compare_equal)
{
	VcAllocator a; VcBox<List<Operand>> box(&a); List<Operand>& l = box.x; Encoded e(l);
	vc_assert(compareLiteralString(e.s.p, l.begin(), l.end()), "an encoded text equals the text");
	vc_cover("end");
}
