// Contracts of Vector<T> (T = unsigned): a vector is a finite sequence of elements.
#include "vc_vec.h"

VC_HARNESS(vec_emplace_back)
{
	VcAllocator A; VcBox<V> b(&A); V& v = b.x; OldVec o(v, "n");
	unsigned x = vc_u32("x");
	unsigned* r = v.emplace_back(x);
	vc_assert(r == v.data() + o.n, "emplace_back returns the new element");
	check_vec(v, o.n + 1, [&](uint64_t i) { return i < o.n ? o.val(i) : x; });
	if (o.cap > 0 && v.data() != o.data) vc_assert(!vc_live(o.data), "the old storage is released");
	vc_assert(v.back() == x, "back is the last element");
	vc_assert(v.front() == (o.n > 0 ? o.val(0) : x), "front is the first element");
	vc_cover("end");
}

VC_HARNESS(vec_reserve)
{
	VcAllocator A; VcBox<V> b(&A); V& v = b.x; OldVec o(v, "n");
	uint64_t s = vc_len("s");
	bool r = v.reserve(s);
	vc_assert(r, "reserve succeeds when the allocator does");
	vc_assert(v.capacity() >= s && v.capacity() >= o.cap, "reserve only grows");
	vc_assert(s > o.cap || v.data() == o.data, "no reallocation when it fits");
	if (o.cap > 0 && v.data() != o.data) vc_assert(!vc_live(o.data), "the old storage is released");
	check_vec(v, o.n, [&](uint64_t i) { return o.val(i); });
	vc_cover("end");
}

VC_HARNESS(vec_resize)
{
	VcAllocator A; VcBox<V> b(&A); V& v = b.x; OldVec o(v, "n");
	uint64_t s = vc_len("s");
	bool r = v.resize(s);
	vc_assert(r, "resize succeeds when the allocator does");
	check_vec(v, s, [&](uint64_t i) { return i < o.n ? o.val(i) : 0u; });
	vc_cover("end");
}

VC_HARNESS(vec_resize_init)
{
	VcAllocator A; VcBox<V> b(&A); V& v = b.x; OldVec o(v, "n");
	uint64_t s = vc_len("s");
	unsigned init = vc_u32("init");
	bool r = v.resize(s, &init);
	vc_assert(r, "resize succeeds when the allocator does");
	check_vec(v, s, [&](uint64_t i) { return i < o.n ? o.val(i) : init; });
	vc_cover("end");
}

VC_HARNESS(vec_clear)
{
	VcAllocator A; VcBox<V> b(&A); V& v = b.x; OldVec o(v, "n");
	v.clear();
	vc_assert(v.data() == o.data && v.capacity() == o.cap, "clear keeps the storage");
	check_vec(v, 0, [&](uint64_t i) { return 0u; });
	vc_cover("end");
}

VC_HARNESS(vec_destroy)
{
	VcAllocator A; VcBox<V> b(&A); V& v = b.x; OldVec o(v, "n");
	v.~V();
	vc_assert(o.cap == 0 || !vc_live(o.data), "the destructor releases the storage");
	vc_cover("end");
}

VC_HARNESS(vec_from_data)
{
	VcAllocator A;
	uint64_t n = vc_len("n");
	unsigned* d = (unsigned*)vc_array("src", n, 4);
	VcBox<V> b(&A, (const unsigned*)d, n); V& v = b.x;
	check_vec(v, n, [&](uint64_t i) { return vc_inita32(d, i, 0); });
	VC_FORALL(j, n) { vc_assert(d[j] == vc_inita32(d, j, 0), "the source is not modified"); }
	vc_cover("end");
}

VC_HARNESS(vec_from_args)
{
	VcAllocator A;
	unsigned x = vc_u32("x"), y = vc_u32("y"), z = vc_u32("z");
	VcBox<V> b(&A, x, y, z); V& v = b.x;
	vc_assert(v.size() == 3 && v.capacity() >= 3, "one element per argument");
	vc_assert(v[0] == x && v[1] == y && v[2] == z, "elements in argument order");
	unsigned a[2] = {y, x};
	v = a;
	vc_assert(v.size() == 2 && v[0] == y && v[1] == x, "array assignment");
	VcBox<V> c(&A, a);
	vc_assert(c.x.size() == 2 && c.x[0] == y && c.x[1] == x, "array construction");
	vc_cover("end");
}

VC_HARNESS(vec_capacity_ctor)
{
	VcAllocator A; uint64_t s = vc_len("s");
	VcBox<V> b(&A, (sgt_size_t)s);
	vc_assert(b.x.capacity() == s, "constructed with the requested capacity");
	check_vec(b.x, 0, [&](uint64_t i) { return 0u; });
	vc_cover("end");
}

VC_HARNESS(vec_copy)
{
	VcAllocator A; VcBox<V> b(&A); V& v = b.x; OldVec o(v, "n");
	VcBox<V> c((const V&)v); V& w = c.x;
	vc_assert(w.data() != v.data() || o.n == 0, "a copy has its own storage");
	check_vec(w, o.n, [&](uint64_t i) { return o.val(i); });
	check_vec(v, o.n, [&](uint64_t i) { return o.val(i); });
	vc_cover("end");
}

VC_HARNESS(vec_move)
{
	VcAllocator A; VcBox<V> b(&A); V& v = b.x; OldVec o(v, "n");
	VcBox<V> c((V&&)v); V& w = c.x;
	check_vec(w, o.n, [&](uint64_t i) { return o.val(i); });
	check_vec(v, 0, [&](uint64_t i) { return 0u; });
	vc_cover("end");
}

VC_HARNESS(vec_move_assign)
{
	VcAllocator A; VcBox<V> b(&A); V& v = b.x; OldVec o(v, "n");
	VcBox<V> c(&A); V& w = c.x; OldVec p(w, "m");
	w = (V&&)v;
	vc_assert(p.cap == 0 || !vc_live(p.data), "the overwritten storage is released");
	check_vec(w, o.n, [&](uint64_t i) { return o.val(i); });
	check_vec(v, 0, [&](uint64_t i) { return 0u; });
	w = (V&&)w;
	check_vec(w, o.n, [&](uint64_t i) { return o.val(i); });
	vc_cover("end");
}

VC_HARNESS(vec_copy_assign)
{
	VcAllocator A; VcBox<V> b(&A); V& v = b.x; OldVec o(v, "n");
	VcBox<V> c(&A); V& w = c.x; OldVec p(w, "m");
	w = (const V&)v;
	check_vec(w, o.n, [&](uint64_t i) { return o.val(i); });
	check_vec(v, o.n, [&](uint64_t i) { return o.val(i); });
	w = (const V&)w;
	check_vec(w, o.n, [&](uint64_t i) { return o.val(i); });
	vc_cover("end");
}

VC_HARNESS(vec_assign)
{
	VcAllocator A; VcBox<V> b(&A); V& v = b.x; OldVec o(v, "n");
	unsigned x = vc_u32("x");
	uint64_t p = vc_u64("p"), c = vc_u64("c");
	vc_assume(p <= o.n);
	v.assign(x, p, c);
	check_vec(v, o.n, [&](uint64_t i) { return i >= p && i - p < c ? x : o.val(i); });
	vc_cover("end");
}

VC_HARNESS(vec_insert)
{
	VcAllocator A; VcBox<V> b(&A); V& v = b.x; OldVec o(v, "n");
	uint64_t p = vc_u64("p"), c = vc_len("c");
	vc_assume(p <= o.n);
	unsigned* d = (unsigned*)vc_array("src", c, 4);
	unsigned* r = v.insert(p, d, c);
	vc_assert(r == v.data() + p, "insert returns the first inserted element");
	if (o.cap > 0 && v.data() != o.data) vc_assert(!vc_live(o.data), "the old storage is released");
	check_vec(v, o.n + c, [&](uint64_t i) { return i < p ? o.val(i) : i - p < c ? vc_inita32(d, i - p, 0) : o.val(i - c); });
	vc_cover("end");
}

VC_HARNESS(vec_insert_out_of_range)
{
	VcAllocator A; VcBox<V> b(&A); V& v = b.x; OldVec o(v, "n");
	uint64_t p = vc_u64("p"); unsigned x = vc_u32("x");
	vc_assume(p > o.n && o.n > 0);
	vc_assert(v.insert(p, x) == nullptr, "inserting behind the end is refused");
	check_vec(v, o.n, [&](uint64_t i) { return o.val(i); });
	vc_cover("end");
}

// a failed allocation leaves the contents unchanged
VC_HARNESS(vec_alloc_failure)
{
	VcFailAllocator A; VcBox<V> b(&A); V& v = b.x; OldVec o(v, "n");
	uint8_t op = vc_u8("op"); vc_assume(op < 6);
	uint64_t s = vc_len("s"); vc_assume(s > 0);
	unsigned x = vc_u32("x"); bool ok = true;
	if (op == 0) ok = v.emplace_back(x) != nullptr;
	else if (op == 1) ok = v.reserve(s);
	else if (op == 2) ok = v.resize(s);
	else if (op == 3) ok = v.insert(0, x) != nullptr;
	else if (op == 4) { v.m_pAllocator = nullptr; ok = v.emplace_back(x) != nullptr; if (!ok) A.failed = 1; }
	else { v.m_pAllocator = nullptr; ok = v.insert(0, x) != nullptr; if (!ok) A.failed = 1; }
	if (A.failed) {
		vc_assert(!ok, "failure is reported");
		vc_assert(v.data() == o.data && v.capacity() == o.cap, "storage kept");
		check_vec(v, o.n, [&](uint64_t i) { return o.val(i); });
		vc_cover("failure");
	} else vc_assert(ok, "success is reported");
	vc_cover("end");
}
