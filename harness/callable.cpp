// Contracts of Callable: the stored target is invoked with the given arguments, copied, moved, and destroyed once.
#include <vector>
#include "vc_list.h"
#include "common/Callable.h"
using C = Callable<unsigned(unsigned, unsigned&)>;
static unsigned calls, argA; static const unsigned* argB; static unsigned live;
static unsigned fn(unsigned a, unsigned& b) { ++calls; argA = a; argB = &b; unsigned r = a * 3 + b; b = a; return r; }
struct Obj { unsigned base; unsigned mem(unsigned a, unsigned& b) { ++calls; argA = a; argB = &b; unsigned r = base + a; b = base; return r; } };
// a functor with state of its own that counts its live copies
struct Fun {
	unsigned v; unsigned pad[5];
	Fun(unsigned x) : v(x) { ++live; } Fun(const Fun& o) : v(o.v) { ++live; } Fun(Fun&& o) : v(o.v) { ++live; o.v = 0; } ~Fun() { --live; }
	unsigned operator()(unsigned a, unsigned& b) { ++calls; argA = a; argB = &b; unsigned r = v ^ a; b = v; return r; }
};
#define VC_START calls = 0; argB = nullptr; live = 0; VcAllocator alloc; unsigned x = vc_u32("x"), y = vc_u32("y"), y0 = y
static void once(unsigned x, const unsigned& y) { vc_assert(calls == 1, "the target is invoked once"); vc_assert(argA == x && argB == &y, "with the arguments given, references included"); calls = 0; }
VC_HARNESS(call_function)
{
	VC_START; VcBox<C> b(&alloc, fn); C& c = b.x;
	vc_assert(c, "a callable with a target");
	unsigned r = c(x, y); once(x, y); vc_assert(r == x * 3 + y0 && y == x, "result and effect are the function's");
	c.reset(); vc_assert(!c, "no target any more"); c.reset();
	vc_cover("end");
}
VC_HARNESS(call_member)
{
	VC_START; Obj o{ vc_u32("o") }; VcBox<C> b(&alloc, &o, &Obj::mem); C& c = b.x;
	unsigned r = c(x, y); once(x, y); vc_assert(r == o.base + x && y == o.base, "result and effect are the member function's");
	c.reset(); vc_assert(!c, "no target any more");
	vc_cover("end");
}
VC_HARNESS(call_functor)
{
	VC_START; unsigned v = vc_u32("v"); Fun f(v); vc_assert(live == 1, "start");
	{
		C c(&alloc, static_cast<const Fun&>(f)); vc_assert(live == 2 && f.v == v, "the callable has a copy");
		unsigned r = c(x, y); once(x, y); vc_assert(r == (v ^ x) && y == v, "result and effect are the functor's");
		C d(&alloc, f); vc_assert(live == 3 && f.v == v, "an object that is not given away is copied"); y = 0; r = d(x, y); once(x, y); vc_assert(r == (v ^ x) && y == v, "result");
		C e(&alloc, stdrep::move(f)); vc_assert(live == 4, "a functor is moved"); y = 0; r = e(x, y); once(x, y); vc_assert(r == (v ^ x) && y == v, "result");
	}
	vc_assert(live == 1, "stored functors are destroyed exactly once");
	vc_cover("end");
}
VC_HARNESS(call_copy)
{
	VC_START; unsigned v = vc_u32("v");
	{
		C c(&alloc, Fun(v)); vc_assert(live == 1, "one functor");
		{ C d(static_cast<const C&>(c)); vc_assert(c && d && live == 2, "a copy has a target of its own"); unsigned r = d(x, y); once(x, y); vc_assert(r == (v ^ x) && y == v, "that does the same"); }
		vc_assert(live == 1, "destroying the copy leaves the original"); unsigned r = c(x, y); once(x, y); vc_assert(r == (v ^ x), "and the original works");
		C e(c); vc_assert(live == 2 && e, "copy of an object that is not const"); r = e(x, y); once(x, y); vc_assert(r == (v ^ x), "copy");
	}
	vc_assert(live == 0, "destroyed exactly once");
	C n(&alloc); C m(static_cast<const C&>(n)); vc_assert(!n && !m, "a copy of an empty callable is empty");
	vc_cover("end");
}
VC_HARNESS(call_move)
{
	VC_START; unsigned v = vc_u32("v");
	{
		C c(&alloc, Fun(v)); C d(stdrep::move(c));
		vc_assert(live == 1 && !c && d, "the target is transferred"); unsigned r = d(x, y); once(x, y); vc_assert(r == (v ^ x) && y == v, "and still works");
	}
	vc_assert(live == 0, "destroyed exactly once");
	vc_cover("end");
}
VC_HARNESS(call_assign)
{
	VC_START; unsigned v = vc_u32("v"), w = vc_u32("w");
	{
		C c(&alloc, Fun(v)), d(&alloc, Fun(w)), e(&alloc); C* p;
		p = &(d = static_cast<const C&>(c)); vc_assert(p == &d && live == 2 && c && d, "the old target is destroyed, the new one copied"); unsigned r = d(x, y); once(x, y); vc_assert(r == (v ^ x) && y == v, "the new target is invoked");
		e = static_cast<const C&>(c); vc_assert(live == 3 && e, "assigned to an empty callable"); r = e(x, y); once(x, y); vc_assert(r == (v ^ x), "invoked");
		const C& s = c; c = s; vc_assert(live == 3 && c, "self assignment"); r = c(x, y); once(x, y); vc_assert(r == (v ^ x), "keeps the target");
		C n(&alloc); c = static_cast<const C&>(n); vc_assert(live == 2 && !c, "assigning an empty callable empties"); 
		C q(&alloc, Fun(w)); q = d; vc_assert(live == 3, "assigning an object that is not const copies"); r = q(x, y); once(x, y); vc_assert(r == (v ^ x), "invoked"); r = d(x, y); once(x, y); vc_assert(r == (v ^ x), "source is kept");
	}
	vc_assert(live == 0, "destroyed exactly once");
	vc_cover("end");
}
VC_HARNESS(call_move_assign)
{
	VC_START; unsigned v = vc_u32("v"), w = vc_u32("w");
	{
		C c(&alloc, Fun(v)), d(&alloc, Fun(w)); C* p = &(d = stdrep::move(c)); vc_assert(p == &d && live == 1 && !c && d, "the old target is destroyed, the new one transferred"); unsigned r = d(x, y); once(x, y); vc_assert(r == (v ^ x) && y == v, "the new target is invoked");
		C& s = d; d = stdrep::move(s); vc_assert(live == 1 && d, "self assignment"); r = d(x, y); once(x, y); vc_assert(r == (v ^ x), "keeps the target");
	}
	vc_assert(live == 0, "destroyed exactly once");
	vc_cover("end");
}
VC_HARNESS(call_assign_functor)
{
	VC_START; unsigned v = vc_u32("v"), w = vc_u32("w");
	{
		C c(&alloc, Fun(v)); Fun f(w); const Fun& k = f;
		c = k; vc_assert(live == 2 && c, "the old target is destroyed, the functor copied"); unsigned r = c(x, y); once(x, y); vc_assert(r == (w ^ x) && y == w, "the functor is invoked");
		c = f; vc_assert(live == 2 && f.v == w, "an object that is not given away is copied"); r = c(x, y); once(x, y); vc_assert(r == (w ^ x), "invoked");
		c = stdrep::move(f); vc_assert(live == 2, "a functor is moved"); r = c(x, y); once(x, y); vc_assert(r == (w ^ x), "invoked");
		C e(&alloc); e = Fun(v); vc_assert(live == 3 && e, "assigned to an empty callable"); r = e(x, y); once(x, y); vc_assert(r == (v ^ x), "invoked");
	}
	vc_assert(live == 0, "destroyed exactly once");
	vc_cover("end");
}
VC_HARNESS(call_failed_allocation)
{
	calls = 0; live = 0; VcFailAllocator alloc; unsigned v = vc_u32("v"), x = vc_u32("x"), y = 0;
	{
		C c(&alloc, Fun(v)); bool ok = c; vc_assert(ok == (alloc.failed == 0) && live == (ok ? 1u : 0u), "a failed allocation leaves an empty callable");
		if (ok) { c(x, y); once(x, y); unsigned f = alloc.failed; C d(static_cast<const C&>(c)); vc_assert((bool)d == (alloc.failed == f), "a failed copy is empty"); c = Fun(x); }
	}
	vc_assert(live == 0, "destroyed exactly once");
	vc_cover("end");
}
VC_HARNESS(call_make)
{
	VC_START; Obj o{ vc_u32("o") };
	auto f = maker_func(fn); vc_assert(f, "a target"); unsigned r = f(x, y); once(x, y); vc_assert(r == x * 3 + y0 && y == x, "result and effect are the function's");
	y = y0; auto m = make_memeber_func(&o, &Obj::mem); vc_assert(m, "a target"); r = m(x, y); once(x, y); vc_assert(r == o.base + x && y == o.base, "result and effect are the member function's");
	y = y0; { auto c = make_callable(&alloc, fn); r = c(x, y); once(x, y); vc_assert(r == x * 3 + y0 && y == x, "result and effect are the function's"); }
	y = y0; { auto c = make_callable(&alloc, &o, &Obj::mem); r = c(x, y); once(x, y); vc_assert(r == o.base + x && y == o.base, "result and effect are the member function's"); }
	vc_cover("end");
}
