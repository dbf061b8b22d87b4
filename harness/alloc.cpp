// Contracts of the allocators.
#include "vc_vec.h"
#include "common/HeapAllocator.h"
#include "common/ExternalMemoryAllocator.h"

// an arbitrary state of a bump allocator over n bytes of memory: the first c bytes are taken
struct Mem {
	uint64_t n, c; char* p;
	Mem() { n = vc_len("n"); c = vc_len("c"); vc_assume(c <= n); p = (char*)vc_array("mem", n, 1); }
};
static uint64_t adr(const void* p) { return (uint64_t)p; }

VC_HARNESS(alloc_align)
{
	Mem m; uint64_t space = m.n - m.c, size = vc_u64("size"); uint8_t e = vc_u8("e"); vc_assume(e < 13);
	uint64_t a = 1ull << e;
	void* p = m.p + m.c;
	const uint64_t pad = (0 - adr(p)) & (a - 1);
	const bool fits = pad <= space && space - pad >= size;
	void* q = p;
	void* r = IAllocator::alignPowerOf2(a, size, q, space);
	vc_assert((r != nullptr) == fits, "a block is found iff an aligned one fits");
	if (r) {
		vc_assert(r == m.p + (m.c + pad) && q == r, "the first aligned address");
		vc_assert((adr(r) & (a - 1)) == 0, "aligned");
		vc_cover("fits");
	} else { vc_assert(q == p, "the position is kept on failure"); vc_cover("full"); }
	vc_cover("end");
}

VC_HARNESS(ext_allocate)
{
	Mem m; ExternalMemoryAllocator A(m.p, m.n); A.m_pCurrent = m.p + m.c;
	uint64_t size = vc_u64("size"); uint8_t e = vc_u8("e"); vc_assume(e < 13); unsigned a = 1u << e;
	const uint64_t pad = (0 - adr(m.p + m.c)) & (a - 1), space = m.n - m.c;
	const bool fits = pad <= space && space - pad >= size;
	char* r = (char*)A.allocate(size, a);
	vc_assert((r != nullptr) == fits, "null iff it does not fit");
	if (r) {
		vc_assert(r == m.p + (m.c + pad), "behind everything handed out before");
		vc_assert((adr(r) & (a - 1)) == 0, "aligned as requested");
		vc_assert(A.m_pCurrent == r + size, "the block is taken");
		vc_assert(m.c + pad + size <= m.n, "inside the memory");
		vc_cover("fits");
	} else { vc_assert(A.m_pCurrent == m.p + m.c, "a failed allocation changes nothing"); vc_cover("full"); }
	// whatever is asked next does not overlap it
	uint64_t size2 = vc_u64("size2"); uint8_t e2 = vc_u8("e2"); vc_assume(e2 < 13);
	char* t = (char*)A.allocate(size2, 1u << e2);
	if (t && r) vc_assert((uint64_t)(t - m.p) >= (uint64_t)(r - m.p) + size, "disjoint from the block before");
	if (t) vc_assert((uint64_t)(t - m.p) + size2 <= m.n, "inside the memory");
	vc_assert(t != nullptr || e2 > 0 || size2 > m.n - (m.c + (r ? pad + size : 0)), "still usable after a failure");
	vc_cover("end");
}

VC_HARNESS(ext_deallocate)
{
	Mem m; ExternalMemoryAllocator A(m.p, m.n); A.m_pCurrent = m.p + m.c;
	uint64_t size = vc_u64("size"), size2 = vc_u64("size2"); vc_assume(size > 0 && size2 > 0);
	char* r = (char*)A.allocate(size, 4);
	vc_assume(r != nullptr);
	if (vc_bool("second")) {
		char* t = (char*)A.allocate(size2, 4);
		vc_assume(t != nullptr);
		A.deallocate(r, size);
		vc_assert(A.m_pCurrent == t + size2, "releasing an earlier block keeps the later one");
		A.deallocate(t, size2);
		vc_assert(A.m_pCurrent == t, "releasing the last block returns its memory");
		vc_cover("second");
	} else {
		A.deallocate(r, size);
		vc_assert(A.m_pCurrent == r, "releasing the last block returns its memory");
		char* t = (char*)A.allocate(size, 4);
		vc_assert(t == r, "the memory is reused");
	}
	vc_cover("end");
}

VC_HARNESS(stack_allocator)
{
	VcBox<StackAllocator<64>> b; StackAllocator<64>& A = b.x;
	uint64_t s1 = vc_u64("s1"), s2 = vc_u64("s2");
	char* p = (char*)A.allocate(s1, 1);
	vc_assert((p != nullptr) == (s1 <= 64), "capacity");
	if (p) {
		vc_assert(p == A.m_storage, "starts at the storage");
		char* q = (char*)A.allocate(s2, 1);
		vc_assert((q != nullptr) == (s2 <= 64 - s1), "remaining capacity");
		if (q) vc_assert(q == p + s1, "next block");
	}
	vc_cover("end");
}

struct Pod { unsigned a; uint64_t b; ~Pod() { a = 0; } };
VC_HARNESS(alloc_construct)
{
	VcFailAllocator A; unsigned x = vc_u32("x"); uint64_t y = vc_u64("y");
	Pod* p = A.construct<Pod>(x, y);
	vc_assert((p == nullptr) == (A.failed > 0), "null iff the allocation failed");
	if (p) {
		vc_assert(vc_live(p) && p->a == x && p->b == y, "constructed from the arguments");
		A.destruct(p);
		vc_assert(!vc_live(p), "released");
		vc_cover("ok");
	}
	vc_cover("end");
}

struct CountAllocator : VcFailAllocator {
	unsigned frees = 0; void* last = nullptr; uint64_t bytes = 0;
	void deallocate(void* p, sgt_size_t n) override { ++frees; last = p; bytes = n; vc_free(p, n); }
};
VC_HARNESS(alloc_scoped)
{
	CountAllocator A; uint64_t n = vc_len("n"); vc_assume(n > 0);
	bool mv = vc_bool("move");
	void* p = nullptr;
	{
		ScopedAllocation s = A.allocateScoped(n, 8);
		p = s.ptr;
		vc_assert((bool)s == (A.failed == 0) && (p != nullptr) == (A.failed == 0) && s.size == n, "true iff allocated");
		if (mv) {
			{ ScopedAllocation t((ScopedAllocation&&)s);
			vc_assert(t.ptr == p && t.size == n && (bool)t == (p != nullptr) && !(bool)s, "a move transfers the block"); }
			vc_assert(A.frees == (p ? 1u : 0u), "released by the new owner");
			vc_cover("moved");
		} else vc_assert(A.frees == 0, "not released early");
	}
	vc_assert(A.frees == (p ? 1u : 0u), "released exactly once");
	if (p) vc_assert(A.last == p && A.bytes == n && !vc_live(p), "released with its own address and size");
	vc_cover("end");
}

VC_HARNESS(heap_allocator)
{
	VcBox<HeapAllocator> b; HeapAllocator& A = b.x;
	uint64_t n = vc_len("n"), m = vc_len("m"); vc_assume(n > 0 && m > 0);
#ifndef VC_SYMBOLIC
	vc_assume(n < 10000 && m < 10000);
#endif
	char* p = (char*)A.allocate(n, 8); char* q = (char*)A.allocate(m, 8);
	vc_assert(p != nullptr && q != nullptr && p != q, "blocks are distinct");
	p[0] = 1; p[n - 1] = 2; q[0] = 3; q[m - 1] = 4;
	vc_assert(p[n - 1] == 2 && q[m - 1] == 4 && (n == 1 || p[0] == 1) && (m == 1 || q[0] == 3), "disjoint and large enough");
	A.deallocate(p, n); A.deallocate(q, m);
	vc_assert(A.m_Allocated == n + m && A.m_Deallocated == n + m, "statistics");
	vc_cover("end");
}
