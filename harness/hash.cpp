// Contracts of the FNV-1a hasher: oracle = the byte-wise definition of 64-bit FNV-1a written here from its specification
#include "vc_str.h"
#include "spvgentwo/FNV1aHasher.h"
static const uint64_t OFFSET = 0xcbf29ce484222325ull, PRIME = 0x100000001b3ull;
static uint64_t step(uint64_t h, uint8_t b) { return (h ^ b) * PRIME; }
// specification: fold over bytes [0,n) of an array
static uint64_t spec(const void* a, uint64_t n, uint64_t h) { for (uint64_t i = 0; i < n; ++i) h = step(h, vc_inita8(a, i, 0)); return h; }
// specification for the bytes of a scalar, lowest byte first (little endian target)
static uint64_t spec_le(uint64_t v, unsigned bytes, uint64_t h) { for (unsigned i = 0; i < bytes; ++i) h = step(h, (uint8_t)(v >> (8 * i))); return h; }

VC_HARNESS(hash_default)
{
	FNV1aHasher h;
	vc_assert(h.get() == Hash64(OFFSET) && (Hash64)h == Hash64(OFFSET), "the empty hash is the FNV offset basis");
	uint64_t s = vc_u64("seed"); FNV1aHasher g{Hash64(s)};
	vc_assert(g.get().value == s, "a seeded hasher starts from the seed");
	vc_assert(g.add(nullptr, 0).value == s && g.get().value == s, "adding nothing changes nothing");
	vc_assert(detail::Offset.value == OFFSET && detail::Prime.value == PRIME, "FNV-1a 64 constants");
	vc_cover("end");
}
VC_HARNESS(hash_add)
{
	uint64_t n = vc_len("n"), s = vc_u64("seed"); const void* a = vc_array("data", n, 1);
	uint64_t want = spec(a, n, s);
	FNV1aHasher h{Hash64(s)};
	uint64_t r = h.add(a, n).value;
	vc_assert(r == want, "add is FNV-1a over the bytes");
	vc_assert(h.get().value == want, "the hasher keeps the result");
	vc_cover("end");
}
VC_HARNESS(hash_split)
{
	uint64_t n = vc_len("n"), s = vc_u64("seed"), k = vc_below("split", n + 1); const uint8_t* a = (const uint8_t*)vc_array("data", n, 1);
	uint64_t want = spec(a, n, s);
	FNV1aHasher h{Hash64(s)};
	h.add(a, k);
	h.add(a + k, n - k);
	vc_assert(h.get().value == want, "the hash does not depend on how the data is split");
	vc_cover("end");
}
VC_HARNESS(hash_cstr)
{
	uint64_t s = vc_u64("seed"); CStr t("n", "text");
	uint64_t want = spec(t.p, t.n, s);
	FNV1aHasher h{Hash64(s)};
	vc_assert(h(t.p).value == want && h.get().value == want, "hashing text is FNV-1a over its characters");
	vc_cover("end");
}
VC_HARNESS(hash_string)
{
	uint64_t s = vc_u64("seed"); VcAllocator A; VcBox<String> bx(&A); String& x = bx.x; OldStr o(x, "m");
	uint64_t want = s;
	for (uint64_t i = 0; i < o.n; ++i) want = step(want, (uint8_t)o.at(i));
	FNV1aHasher h{Hash64(s)};
	vc_assert(h(x).value == want, "hashing a string is FNV-1a over its characters");
	vc_assert(Hasher<String>()(x, Hash64(s)).value == want, "the string hasher as well");
	vc_cover("end");
}
VC_HARNESS(hash_string_default_seed)
{
	VcAllocator A; VcBox<String> bx(&A); String& x = bx.x; OldStr o(x, "m");
	uint64_t want = OFFSET;
	for (uint64_t i = 0; i < o.n; ++i) want = step(want, (uint8_t)o.at(i));
	vc_assert(hash(x).value == want, "hash of a string");
	vc_assert(Hasher<String>()(x).value == want, "default seed");
	vc_cover("end");
}
VC_HARNESS(hash_text_default_seed)
{
	CStr t("n", "text");
	uint64_t want = spec(t.p, t.n, OFFSET);
	vc_assert(hash(t.p).value == want, "hash of text");
	vc_cover("end");
}
VC_HARNESS(hash_literal)
{
	uint64_t want = step(step(step(OFFSET, 'a'), 'b'), 'c');
	vc_assert(hash("abc").value == want, "a string literal hashes like its characters");
	FNV1aHasher h; h << "abc";
	vc_assert(h.get().value == want, "streamed literal");
	FNV1aHasher g; g << "a" << "bc";
	vc_assert(g.get().value == want, "streamed in pieces");
	vc_cover("end");
}
template<class T> static void scalar(T v, uint64_t raw, unsigned bytes)
{
	uint64_t s = vc_u64("seed");
	FNV1aHasher h{Hash64(s)};
	uint64_t want = spec_le(raw, bytes, s);
	vc_assert(h(v).value == want && h.get().value == want, "a scalar hashes like its bytes");
	FNV1aHasher g{Hash64(s)}; g << v;
	vc_assert(g.get().value == want, "streaming");
	vc_assert(hash(v).value == spec_le(raw, bytes, OFFSET), "hash() starts at the offset basis");
	FNV1aHasher f{Hash64(s)};
	vc_assert(f.add(&v, sizeof v).value == want, "same as adding the memory");
	vc_cover("end");
}
VC_HARNESS(hash_u8) { uint8_t v = vc_u8("v"); scalar(v, v, 1); }
VC_HARNESS(hash_bool) { bool v = vc_bool("v"); scalar(v, v, 1); }
VC_HARNESS(hash_u16) { uint16_t v = vc_u16("v"); scalar(v, v, 2); }
VC_HARNESS(hash_u32) { uint32_t v = vc_u32("v"); scalar(v, v, 4); }
VC_HARNESS(hash_i32) { int32_t v = (int32_t)vc_u32("v"); scalar(v, (uint32_t)v, 4); }
VC_HARNESS(hash_u64) { uint64_t v = vc_u64("v"); scalar(v, v, 8); }
VC_HARNESS(hash_variadic)
{
	uint32_t a = vc_u32("a"); uint8_t b = vc_u8("b"); uint16_t c = vc_u16("c");
	uint64_t want = spec_le(c, 2, spec_le(b, 1, spec_le(a, 4, OFFSET)));
	vc_assert(hash(a, b, c).value == want, "several values hash like their bytes in order");
	FNV1aHasher h; h << a << b << c;
	vc_assert(h.get().value == want, "streamed");
	FNV1aHasher g; g(a, b, c);
	vc_assert(g.get().value == want, "called");
	FNV1aHasher f; f(a); f(b, c);
	vc_assert(f.get().value == want, "called in pieces");
	vc_cover("end");
}
VC_HARNESS(hash_mixed)
{
	CStr t("n", "text"); uint32_t a = vc_u32("a");
	uint64_t want = spec_le(a, 4, OFFSET);
	want = spec(t.p, t.n, want);
	FNV1aHasher h; h << a << t.p;
	vc_assert(h.get().value == want, "text after a number");
	vc_cover("end");
}
VC_HARNESS(hash_value)
{
	uint64_t v = vc_u64("v"), p = vc_u64("p"); uint8_t b = vc_u8("b"); uint32_t lo = vc_u32("lo"), hi = vc_u32("hi");
	Hash64 h(v);
	vc_assert((uint64_t)h == v, "conversion");
	vc_assert((h ^= b).value == (v ^ b) && h.value == (v ^ b), "xor");
	Hash64 g(v);
	vc_assert((g *= Hash64(p)).value == v * p && g.value == v * p, "multiply");
	vc_assert(Hash64(lo, hi).value == (((uint64_t)hi << 32) | lo), "from two words");
	vc_cover("end");
}
