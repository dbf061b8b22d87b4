// Contracts of List<T>/Entry<T>/EntryIterator<T> (T = unsigned): a list is a finite sequence of entries.
#include "vc.h"
#include "vc_list.h"



VC_HARNESS(list_append)
{
	VcAllocator A; VcBox<L> b(&A); L& l = b.x; Old o(l, "l");
	unsigned v = vc_u32("v");
	unsigned& r = l.emplace_back(v);
	Entry<T>* e = l.m_pLast;
	vc_assert(&r == &e->inner(), "emplace_back returns the new element");
	check_list(l, o.n + 1, [&](uint64_t i) { return i < o.n ? o.node(i) : e; }, [&](uint64_t i) { return i < o.n ? o.val(i) : v; });
	vc_cover("end");
}

VC_HARNESS(list_prepend)
{
	VcAllocator A; VcBox<L> b(&A); L& l = b.x; Old o(l, "l");
	unsigned v = vc_u32("v");
	unsigned& r = l.emplace_front(v);
	Entry<T>* e = l.m_pBegin;
	vc_assert(&r == &e->inner(), "emplace_front returns the new element");
	check_list(l, o.n + 1, [&](uint64_t i) { return i == 0 ? e : o.node(i - 1); }, [&](uint64_t i) { return i == 0 ? v : o.val(i - 1); });
	vc_cover("end");
}

VC_HARNESS(list_insert_before)
{
	VcAllocator A; VcBox<L> b(&A); L& l = b.x; Old o(l, "l");
	vc_assume(o.n > 0);
	uint64_t p = vc_below("p", o.n);
	unsigned v = vc_u32("v");
	Entry<T>* e = l.insert_before(L::Iterator(o.node(p)), v);
	check_list(l, o.n + 1, [&](uint64_t i) { return i < p ? o.node(i) : i == p ? e : o.node(i - 1); },
		[&](uint64_t i) { return i < p ? o.val(i) : i == p ? v : o.val(i - 1); });
	vc_cover("end");
}

VC_HARNESS(list_insert_after)
{
	VcAllocator A; VcBox<L> b(&A); L& l = b.x; Old o(l, "l");
	vc_assume(o.n > 0);
	uint64_t p = vc_below("p", o.n);
	unsigned v = vc_u32("v");
	Entry<T>* e = l.insert_after(L::Iterator(o.node(p)), v);
	check_list(l, o.n + 1, [&](uint64_t i) { return i <= p ? o.node(i) : i == p + 1 ? e : o.node(i - 1); },
		[&](uint64_t i) { return i <= p ? o.val(i) : i == p + 1 ? v : o.val(i - 1); });
	vc_cover("end");
}

VC_HARNESS(list_erase)
{
	VcAllocator A; VcBox<L> b(&A); L& l = b.x; Old o(l, "l");
	vc_assume(o.n > 0);
	uint64_t p = vc_below("p", o.n);
	Entry<T>* r = l.erase(L::Iterator(o.node(p)));
	vc_assert(r == (p + 1 < o.n ? o.node(p + 1) : nullptr), "erase returns the next entry");
	vc_assert(!vc_live(o.node(p)), "erased entry is released");
	check_list(l, o.n - 1, [&](uint64_t i) { return i < p ? o.node(i) : o.node(i + 1); }, [&](uint64_t i) { return i < p ? o.val(i) : o.val(i + 1); });
	vc_cover("end");
}

VC_HARNESS(list_pop_back)
{
	VcAllocator A; VcBox<L> b(&A); L& l = b.x; Old o(l, "l");
	vc_assume(o.n > 0);
	unsigned r = l.pop_back();
	vc_assert(r == o.val(o.n - 1), "pop_back returns the last element");
	vc_assert(!vc_live(o.node(o.n - 1)), "popped entry is released");
	check_list(l, o.n - 1, [&](uint64_t i) { return o.node(i); }, [&](uint64_t i) { return o.val(i); });
	vc_cover("end");
}

VC_HARNESS(list_pop_front)
{
	VcAllocator A; VcBox<L> b(&A); L& l = b.x; Old o(l, "l");
	vc_assume(o.n > 0);
	unsigned r = l.pop_front();
	vc_assert(r == o.val(0), "pop_front returns the first element");
	vc_assert(!vc_live(o.node(0)), "popped entry is released");
	check_list(l, o.n - 1, [&](uint64_t i) { return o.node(i + 1); }, [&](uint64_t i) { return o.val(i + 1); });
	vc_cover("end");
}

VC_HARNESS(list_clear)
{
	VcAllocator A; VcBox<L> b(&A); L& l = b.x; Old o(l, "l");
	l.clear();
	vc_assert(l.empty() && l.size() == 0 && l.begin() == nullptr && l.last() == nullptr, "clear empties the list");
	VC_FORALL(i, o.n) { vc_assert(!vc_live(o.node(i)), "clear releases every entry"); }
	vc_cover("end");
}

VC_HARNESS(list_find)
{
	VcAllocator A; VcBox<L> b(&A); L& l = b.x; Old o(l, "l");
	unsigned v = vc_u32("v");
	auto it = l.find(v);
	bool c = l.contains(v);
	if (it == nullptr) {
		VC_FORALL(i, o.n) { vc_assert(o.val(i) != v, "find misses nothing"); }
		vc_assert(!c, "contains agrees with find");
	} else {
		vc_assert(c, "contains agrees with find");
		vc_assert(*it == v, "find returns a match");
	}
	check_list(l, o.n, [&](uint64_t i) { return o.node(i); }, [&](uint64_t i) { return o.val(i); });
	vc_cover("end");
}

VC_HARNESS(list_equal)
{
	VcAllocator A; VcBox<L> b(&A); L& l = b.x; Old o(l, "l");
	VcBox<L> b2(&A); L& l2 = b2.x; Old o2(l2, "l2");
	bool eq = l == l2;
	vc_assert(eq == !(l != l2), "!= is the negation of ==");
	if (eq) {
		vc_assert(o.n == o2.n, "equal lists have equal length");
		VC_FORALL(i, o.n) { vc_assert(o.val(i) == o2.val(i), "equal lists have equal elements"); }
	}
	vc_cover("end");
}

VC_HARNESS(list_equal_complete)
{
	VcAllocator A; VcBox<L> b(&A); L& l = b.x; Old o(l, "l");
	bool eq = l == l;
	vc_assert(eq, "a list equals itself");
	vc_cover("end");
}

VC_HARNESS(list_copy_construct)
{
	VcAllocator A; VcBox<L> b(&A); L& l = b.x; Old o(l, "l");
	VcBox<L> c(l); L& l2 = c.x;
	vc_assert(l2.getAllocator() == l.getAllocator(), "copy uses the same allocator");
	vc_assert(l2.size() == o.n, "copy has the same size");
	vc_assert(l2.empty() == (o.n == 0), "copy is empty iff source is");
	check_list(l, o.n, [&](uint64_t i) { return o.node(i); }, [&](uint64_t i) { return o.val(i); });
	vc_assert(l == l2, "copy compares equal");
	vc_cover("end");
}

VC_HARNESS(list_move_construct)
{
	VcAllocator A; VcBox<L> b(&A); L& l = b.x; Old o(l, "l");
	VcBox<L> c(static_cast<L&&>(l)); L& l2 = c.x;
	vc_assert(l2.getAllocator() == &A, "move transfers the allocator");
	check_list(l2, o.n, [&](uint64_t i) { return o.node(i); }, [&](uint64_t i) { return o.val(i); });
	vc_assert(l.empty() && l.size() == 0 && l.begin() == nullptr && l.last() == nullptr, "moved-from list is empty");
	vc_cover("end");
}

VC_HARNESS(list_move_assign)
{
	VcAllocator A; VcBox<L> b(&A); L& l = b.x; Old o(l, "l");
	VcBox<L> b2(&A); L& l2 = b2.x; Old o2(l2, "l2");
	l2 = static_cast<L&&>(l);
	check_list(l2, o.n, [&](uint64_t i) { return o.node(i); }, [&](uint64_t i) { return o.val(i); });
	vc_assert(l.empty() && l.size() == 0, "moved-from list is empty");
	VC_FORALL(i, o2.n) { vc_assert(!vc_live(o2.node(i)), "old elements are released"); }
	vc_cover("end");
}

// target at least as long as the source: the values are copied, the surplus entries are released and unlinked
VC_HARNESS(list_copy_assign_shrink)
{
	VcAllocator A; VcBox<L> b(&A); L& l = b.x; Old o(l, "l");
	VcBox<L> b2(&A); L& l2 = b2.x; Old o2(l2, "l2");
	vc_assume(o2.n >= o.n);
	l2 = l;
	check_list(l, o.n, [&](uint64_t i) { return o.node(i); }, [&](uint64_t i) { return o.val(i); });
	check_list(l2, o.n, [&](uint64_t i) { return o2.node(i); }, [&](uint64_t i) { return o.val(i); });
	VC_FORALL(i, o2.n) { if (i >= o.n) vc_assert(!vc_live(o2.node(i)), "surplus entry is released"); }
	vc_cover("end");
}

// target shorter than the source: kept entries get the values, the missing ones are appended
VC_HARNESS(list_copy_assign_grow)
{
	VcAllocator A; VcBox<L> b(&A); L& l = b.x; Old o(l, "l");
	VcBox<L> b2(&A); L& l2 = b2.x; Old o2(l2, "l2");
	vc_assume(o2.n < o.n);
	l2 = l;
	vc_assert(l2.size() == o.n, "copy has the same size");
	check_list(l, o.n, [&](uint64_t i) { return o.node(i); }, [&](uint64_t i) { return o.val(i); });
	VC_FORALL(i, o2.n) {
		Entry<T>* e = o2.node(i);
		vc_assert(vc_live(e), "kept entry is live");
		vc_assert(e->inner() == o.val(i), "kept entry has the copied value");
		vc_assert(e->prev() == (i > 0 ? o2.node(i - 1) : nullptr), "backward link of kept entry");
		if (i + 1 < o2.n) vc_assert(e->next() == o2.node(i + 1), "forward link of kept entry");
	}
	vc_assert(o2.n == 0 || l2.begin().entry() == o2.node(0), "first entry is kept");
	vc_cover("end");
}

VC_HARNESS(list_copy_assign_grow_tail)
{
	VcAllocator A; VcBox<L> b(&A); L& l = b.x; Old o(l, "l");
	VcBox<L> b2(&A); L& l2 = b2.x; Old o2(l2, "l2");
	vc_assume(o2.n < o.n);
	l2 = l;
	Entry<T>* e = o2.n > 0 ? o2.node(o2.n - 1)->next() : l2.begin().entry();
	Entry<T>* before = o2.n > 0 ? o2.node(o2.n - 1) : nullptr;
	vc_assert(e != nullptr && e->prev() == before, "backward link of first new entry");
	uint64_t i = o2.n;
	for (; e != nullptr; e = e->next(), ++i) {
		vc_assert(i < o.n, "not longer than the source");
		vc_assert(e->inner() == o.val(i), "appended value");
		vc_assert((e->next() == nullptr) == (e == l2.last().entry()), "last entry ends the chain");
		if (e->next()) vc_assert(e->next()->prev() == e, "backward link of new entry");
	}
	vc_assert(i == o.n, "as long as the source");
	vc_cover("end");
}

// a failed allocation leaves the list exactly as it was
VC_HARNESS(list_alloc_failure)
{
	VcFailAllocator A; VcBox<L> b(&A); L& l = b.x; Old o(l, "l");
	unsigned v = vc_u32("v"), op = vc_u32("op");
	vc_assume(op < 4 && (op < 2 || o.n > 0));
	uint64_t p = o.n > 0 ? vc_below("p", o.n) : 0;
	Entry<T>* e = nullptr;
	if (op == 0) e = l.emplace_back_entry(v);
	else if (op == 1) e = l.emplace_front_entry(v);
	else if (op == 2) e = l.insert_before(L::Iterator(o.node(p)), v);
	else e = l.insert_after(L::Iterator(o.node(p)), v);
	vc_assert((e == nullptr) == (A.failed != 0), "null result iff the allocation failed");
	if (e == nullptr) { vc_cover("failed"); check_list(l, o.n, [&](uint64_t i) { return o.node(i); }, [&](uint64_t i) { return o.val(i); }); }
	else vc_assert(l.size() == o.n + 1 && e->inner() == v, "one more element");
	vc_cover("end");
}
