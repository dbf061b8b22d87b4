// Contracts of Flag<Enum>: a set of bits.
#include "vc.h"
#include "spvgentwo/Spv.h"
#include "spvgentwo/Flag.h"
using namespace spvgentwo;
using E = spv::ImageOperandsMask;
using F = Flag<E>;
static F mk(unsigned m) { return F(m); }
static unsigned bits(const F& f) { return f.mask; }

VC_HARNESS(flag_construct)
{
	unsigned a = vc_u32("a"), b = vc_u32("b"), c = vc_u32("c");
	vc_assert(bits(F()) == 0, "default is the empty set");
	vc_assert(bits(F(a)) == a, "from a mask");
	vc_assert(bits(F((E)a)) == a, "from one enumerator");
	vc_assert(bits(F((E)a, (E)b)) == (a | b) && bits(F((E)a, (E)b, (E)c)) == (a | b | c), "from enumerators: union");
	vc_assert((unsigned)F(a) == a && (E)F(a) == (E)a, "converts back to mask and enumerator");
	vc_assert((bool)F(a) == (a != 0) && F(a).empty() == (a == 0), "true iff not empty");
	F f(a); F g(f); F h; h = f;
	vc_assert(bits(g) == a && bits(h) == a && bits(f) == a, "copies are equal");
	vc_assert(bits(F::OR((E)a, (E)b, (E)c)) == (a | b | c), "OR");
	vc_assert(bits(F::AND((E)a, (E)b, (E)c)) == (a & b & c), "AND");
	vc_assert(bits(F::XOR((E)a, (E)b, (E)c)) == (a ^ b ^ c), "XOR");
	vc_cover("end");
}

VC_HARNESS(flag_operators)
{
	unsigned a = vc_u32("a"), b = vc_u32("b");
	const F x = mk(a), y = mk(b); E e = (E)b;
	vc_assert(bits(x | y) == (a | b) && bits(x & y) == (a & b) && bits(x ^ y) == (a ^ b), "flag op flag");
	vc_assert(bits(x | e) == (a | b) && bits(x & e) == (a & b) && bits(x ^ e) == (a ^ b), "flag op enumerator");
	vc_assert(bits(e | x) == (a | b) && bits(e & x) == (a & b) && bits(e ^ x) == (a ^ b), "enumerator op flag");
	vc_assert(bits(x) == a && bits(y) == b, "operands are not modified");
	F p(a), q(a), r(a);
	vc_assert(&(p |= y) == &p && bits(p) == (a | b), "|= flag");
	vc_assert(&(q &= y) == &q && bits(q) == (a & b), "&= flag");
	vc_assert(&(r ^= y) == &r && bits(r) == (a ^ b), "^= flag");
	F s(a), t(a), u(a);
	vc_assert(&(s |= e) == &s && bits(s) == (a | b), "|= enumerator");
	vc_assert(&(t &= e) == &t && bits(t) == (a & b), "&= enumerator");
	vc_assert(&(u ^= e) == &u && bits(u) == (a ^ b), "^= enumerator");
	vc_cover("end");
}

VC_HARNESS(flag_queries)
{
	unsigned a = vc_u32("a"), b = vc_u32("b"), c = vc_u32("c");
	const F x = mk(a);
	vc_assert(x.any((E)b) == ((a & b) != 0) && x.any((E)b, (E)c) == ((a & (b | c)) != 0), "any");
	vc_assert(x.none((E)b) == ((a & b) == 0) && x.none((E)b, (E)c) == ((a & (b | c)) == 0), "none");
	vc_assert(x.all((E)b) == ((a & b) == b) && x.all((E)b, (E)c) == ((a & (b | c)) == (b | c)), "all");
	F s(a); s.set((E)b); vc_assert(bits(s) == (a | b), "set adds"); s.set((E)b, (E)c); vc_assert(bits(s) == (a | b | c), "set adds all");
	vc_cover("end");
}

// set algebra laws over the real operators
VC_HARNESS(flag_laws)
{
	const F x(vc_u32("a")), y(vc_u32("b")), z(vc_u32("c"));
	vc_assert(bits(x | y) == bits(y | x) && bits(x & y) == bits(y & x) && bits(x ^ y) == bits(y ^ x), "commutative");
	vc_assert(bits((x | y) | z) == bits(x | (y | z)) && bits((x & y) & z) == bits(x & (y & z)), "associative");
	vc_assert(bits(x & (y | z)) == bits((x & y) | (x & z)), "distributive");
	vc_assert(bits((x ^ y) ^ y) == bits(x), "symmetric difference is an involution");
	vc_assert((x & y).none((E)~bits(y)) && (x | y).all((E)bits(x)), "bounds");
	vc_cover("end");
}
