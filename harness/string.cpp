// Contracts of String and of the text helpers.
#include "vc_str.h"

VC_HARNESS(str_length)
{
	CStr c("n", "text");
	vc_assert(stringLength(c.p) == c.n + 1, "stringLength counts the characters and the terminator");
	vc_assert(stringLength(nullptr) == 0, "no text");
	vc_cover("end");
}
VC_HARNESS(str_from_cstr)
{
	VcAllocator A; CStr c("n", "text");
	VcBox<String> b(&A, c.p); String& s = b.x;
	check_str(s, c.n, [&](uint64_t i) { return c.at(i); });
	vc_assert(s.m_elements == c.n + 1, "terminated");
	vc_cover("end");
}
VC_HARNESS(str_from_part)
{
	VcAllocator A; CStr c("n", "text"); uint64_t k = vc_u64("k"); vc_assume(k > 0 && k <= c.n);
	VcBox<String> b(&A, c.p, k); String& s = b.x;
	check_str(s, k, [&](uint64_t i) { return c.at(i); });
	vc_cover("end");
}
VC_HARNESS(str_assign_cstr)
{
	VcAllocator A; VcBox<String> b(&A); String& s = b.x; OldStr o(s, "m"); CStr c("n", "text");
	s = c.p;
	check_str(s, c.n, [&](uint64_t i) { return c.at(i); });
	vc_cover("end");
}
VC_HARNESS(str_copy)
{
	VcAllocator A; VcBox<String> b(&A); String& s = b.x; OldStr o(s, "m");
	VcBox<String> c((const String&)s);
	vc_assert(c.x.data() != s.data() || o.m == 0, "a copy has its own storage");
	check_str(c.x, o.n, [&](uint64_t i) { return o.at(i); });
	check_str(s, o.n, [&](uint64_t i) { return o.at(i); });
	vc_assert(c.x == s && s == c.x, "a copy is equal");
	vc_cover("end");
}
VC_HARNESS(str_copy_assign)
{
	VcAllocator A; VcBox<String> b(&A); String& s = b.x; OldStr o(s, "m");
	VcBox<String> d(&A); OldStr p(d.x, "m2");
	d.x = (const String&)s;
	check_str(d.x, o.n, [&](uint64_t i) { return o.at(i); });
	vc_cover("end");
}
VC_HARNESS(str_move)
{
	VcAllocator A; VcBox<String> b(&A); String& s = b.x; OldStr o(s, "m");
	VcBox<String> c((String&&)s);
	check_str(c.x, o.n, [&](uint64_t i) { return o.at(i); });
	check_str(s, 0, [&](uint64_t i) { return 'x'; });
	VcBox<String> d(&A); OldStr p(d.x, "m2");
	d.x = (String&&)c.x;
	check_str(d.x, o.n, [&](uint64_t i) { return o.at(i); });
	check_str(c.x, 0, [&](uint64_t i) { return 'x'; });
	vc_cover("end");
}
VC_HARNESS(str_emplace_back)
{
	VcAllocator A; VcBox<String> b(&A); String& s = b.x; OldStr o(s, "m");
	char x = (char)vc_u8("x"); vc_assume(x != 0);
	char* r = vc_bool("const") ? s.emplace_back(static_cast<const char&>(x)) : s.emplace_back(x);
	vc_assert(r == s.data() + o.n, "returns the new character");
	vc_assert(s.back() == x, "back is the last character");
	check_str(s, o.n + 1, [&](uint64_t i) { return i < o.n ? o.at(i) : x; });
	vc_cover("end");
}
VC_HARNESS(str_append_cstr)
{
	VcAllocator A; VcBox<String> b(&A); String& s = b.x; OldStr o(s, "m"); CStr c("n", "text");
	String& r = vc_bool("op") ? (s += c.p) : s.append(c.p);
	vc_assert(&r == &s, "returns the string");
	check_str(s, o.n + c.n, [&](uint64_t i) { return i < o.n ? o.at(i) : c.at(i - o.n); });
	vc_cover("end");
}
VC_HARNESS(str_append_part)
{
	VcAllocator A; VcBox<String> b(&A); String& s = b.x; OldStr o(s, "m"); CStr c("n", "text");
	uint64_t k = vc_u64("k"); vc_assume(k > 0 && k <= c.n);
	s.append(c.p, k);
	check_str(s, o.n + k, [&](uint64_t i) { return i < o.n ? o.at(i) : c.at(i - o.n); });
	vc_cover("end");
}
VC_HARNESS(str_append_null)
{
	VcAllocator A; VcBox<String> b(&A); String& s = b.x; OldStr o(s, "m");
	s.append(nullptr);
	check_str(s, o.n, [&](uint64_t i) { return o.at(i); });
	vc_cover("end");
}
VC_HARNESS(str_append_string)
{
	VcAllocator A; VcBox<String> b(&A); String& s = b.x; OldStr o(s, "m");
	VcBox<String> c(&A); OldStr p(c.x, "m2");
	s += (const String&)c.x;
	check_str(s, o.n + p.n, [&](uint64_t i) { return i < o.n ? o.at(i) : p.at(i - o.n); });
	check_str(c.x, p.n, [&](uint64_t i) { return p.at(i); });
	vc_cover("end");
}
VC_HARNESS(str_append_self)
{
	VcAllocator A; VcBox<String> b(&A); String& s = b.x; OldStr o(s, "m");
	s += (const String&)s;
	check_str(s, o.n + o.n, [&](uint64_t i) { return i < o.n ? o.at(i) : o.at(i - o.n); });
	vc_cover("end");
}
VC_HARNESS(str_plus_cstr)
{
	VcAllocator A; VcBox<String> b(&A); String& s = b.x; OldStr o(s, "m"); CStr c("n", "text");
	String r = (const String&)s + c.p;
	check_str(r, o.n + c.n, [&](uint64_t i) { return i < o.n ? o.at(i) : c.at(i - o.n); });
	check_str(s, o.n, [&](uint64_t i) { return o.at(i); });
	vc_cover("end");
}
VC_HARNESS(str_plus_string)
{
	VcAllocator A; VcBox<String> b(&A); String& s = b.x; OldStr o(s, "m");
	VcBox<String> c(&A); OldStr p(c.x, "m2");
	String r = (const String&)s + (const String&)c.x;
	check_str(r, o.n + p.n, [&](uint64_t i) { return i < o.n ? o.at(i) : p.at(i - o.n); });
	vc_cover("end");
}
#ifdef VC_SYMBOLIC
// stringLength by its contract (str_length)
static CStr* given;
extern "C" uint64_t ct_length(const char* p) { if (p == nullptr) return 0; vc_assert(p == given->p, "the length asked for is that of the text"); return given->n + 1; }
#define GIVEN(c) given = &c
#else
#define GIVEN(c)
#endif
VC_HARNESS(str_insert_cstr)
{
	VcAllocator A; VcBox<String> b(&A); String& s = b.x; OldStr o(s, "m"); CStr c("n", "text"); GIVEN(c);
	uint64_t p = vc_u64("p"); vc_assume(p <= o.n);
	char* r = s.insert(p, c.p);
	vc_assert(r == s.data() + p, "returns the first inserted character");
	check_str(s, o.n + c.n, [&](uint64_t i) { return i < p ? o.at(i) : i - p < c.n ? c.at(i - p) : o.at(i - c.n); });
	vc_cover("end");
}
VC_HARNESS(str_insert_string)
{
	VcAllocator A; VcBox<String> b(&A); String& s = b.x; OldStr o(s, "m");
	VcBox<String> c(&A); OldStr q(c.x, "m2");
	uint64_t p = vc_u64("p"); vc_assume(p <= o.n);
	if (q.n > 0) vc_assume(q.at(q.n - 1) != 0);   // does not end in an embedded NUL
	s.insert(p, (const String&)c.x);
	check_str(s, o.n + q.n, [&](uint64_t i) { return i < p ? o.at(i) : i - p < q.n ? q.at(i - p) : o.at(i - q.n); });
	vc_cover("end");
}
VC_HARNESS(str_insert_out_of_range)
{
	VcAllocator A; VcBox<String> b(&A); String& s = b.x; OldStr o(s, "m"); CStr c("n", "text");
	uint64_t p = vc_u64("p"); vc_assume(p > o.n && o.n > 0);
	vc_assert(s.insert(p, c.p) == nullptr, "inserting behind the terminator is refused");
	check_str(s, o.n, [&](uint64_t i) { return o.at(i); });
	vc_cover("end");
}
VC_HARNESS(str_substr)
{
	VcAllocator A; VcBox<String> b(&A); String& s = b.x; OldStr o(s, "m");
	uint64_t p = vc_u64("p"), k = vc_u64("k");
	const uint64_t avail = p < o.n ? o.n - p : 0, len = k < avail ? k : avail;
	if (len > 0) vc_assume(o.at(p + len - 1) != 0);   // the part does not end in an embedded NUL
	String r = s.substr(p, k);
	check_str(r, len, [&](uint64_t i) { return o.at(p + i); });
	check_str(s, o.n, [&](uint64_t i) { return o.at(i); });
	vc_cover("end");
}
VC_HARNESS(str_equal)
{
	VcAllocator A; VcBox<String> b(&A); String& s = b.x; OldStr o(s, "m");
	VcBox<String> c(&A); OldStr p(c.x, "m2");
	bool e = (const String&)s == (const String&)c.x;
	if (e) {
		vc_assert(o.n == p.n, "equal strings have equal length");
		VC_FORALL(i, o.n) { vc_assert(o.at(i) == p.at(i), "equal strings have equal characters"); }
		vc_cover("equal");
	} else if (o.n == p.n) {
		uint64_t w = 0; while (w < o.n && o.at(w) == p.at(w)) ++w;
		vc_assert(w < o.n, "strings of the same characters are equal");
		vc_cover("different");
	}
	vc_cover("end");
}
VC_HARNESS(str_equal_cstr)
{
	VcAllocator A; VcBox<String> b(&A); String& s = b.x; OldStr o(s, "m"); CStr c("n", "text");
	bool e = (const String&)s == c.p;
	if (e) {
		vc_assert(o.n == c.n, "equal strings have equal length");
		VC_FORALL(i, o.n) { vc_assert(o.at(i) == c.at(i), "equal strings have equal characters"); }
		vc_cover("equal");
	} else if (o.n == c.n) {
		uint64_t w = 0; while (w < o.n && o.at(w) == c.at(w)) ++w;
		vc_assert(w < o.n, "strings of the same characters are equal");
	}
	vc_cover("end");
}
// number to text: the digits, most significant first, without leading zeros
static void digits(unsigned base, unsigned maxd)
{
	unsigned v = vc_u32("v"); char buf[33];
	for (unsigned i = 0; i < 33; ++i) buf[i] = 0;
	vc_unroll(40);
	uintToString(v, buf, 32, base);
	unsigned n = 0, r = v;
	while (buf[n] != 0) ++n;
	vc_assert(n >= 1 && n <= maxd, "number of digits");
	for (unsigned i = n; i > 0; --i) {      // the i-th digit is (v / base^(n-i)) mod base
		unsigned d = r % base;
		vc_assert(buf[i - 1] == (char)(d < 10 ? '0' + d : 'A' + (d - 10)), "digit");
		r /= base;
	}
	vc_assert(r == 0, "all digits are written");
	vc_assert(n == 1 || buf[0] != '0', "no leading zeros");
	vc_cover("end");
}
VC_HARNESS(num_decimal) { digits(10, 10); }
VC_HARNESS(num_hex) { digits(16, 8); }
VC_HARNESS(num_binary) { digits(2, 32); }
