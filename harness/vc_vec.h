#pragma once
#include "vc.h"
#include "spvgentwo/Vector.h"
#ifndef VC_ALLOCATORS
#define VC_ALLOCATORS
using namespace spvgentwo;
// the assumed contract of IAllocator: allocate returns fresh storage of the requested size
struct VcAllocator : IAllocator {
	void* allocate(sgt_size_t n, unsigned int a) override { return vc_alloc(n, a); }
	void deallocate(void* p, sgt_size_t n) override { vc_free(p, n); }
};
// allocation may fail at any call
struct VcFailAllocator : VcAllocator {
	unsigned failed = 0;
	void* allocate(sgt_size_t n, unsigned int a) override { if (vc_bool("fail")) { ++failed; return nullptr; } return vc_alloc(n, a); }
};
#endif
using V = Vector<unsigned>;

// an arbitrary well formed vector (size <= capacity, storage present iff capacity > 0) and its old value
struct OldVec {
	uint64_t n, cap; void* arr; unsigned* data;
	OldVec(V& v, const char* name, bool nonempty = false) {
		cap = vc_len("cap"); n = vc_len(name);
		vc_assume(n <= cap);
		arr = vc_array("elems", cap, sizeof(unsigned));
		data = cap > 0 ? (unsigned*)arr : nullptr;
		v.m_pData = data; v.m_elements = n; v.m_capacity = cap;
	}
	unsigned val(uint64_t i) const { return vc_inita32(arr, i, 0); }
};

// the vector is exactly the sequence val(0..n-1), stored in live storage of its capacity
template<class W> void check_vec(const V& v, uint64_t n, W val)
{
	vc_assert(v.size() == n, "size");
	vc_assert(v.empty() == (n == 0), "empty iff no elements");
	vc_assert(v.size() <= v.capacity(), "size never exceeds capacity");
	vc_assert((v.data() == nullptr) == (v.capacity() == 0), "storage present iff capacity > 0");
	vc_assert(v.begin() == v.data() && v.end() == v.data() + n, "iterator range is the element range");
	if (v.capacity() > 0) {
		vc_assert(vc_live(v.data()), "storage is live");
		vc_assert(vc_size(v.data()) >= v.capacity() * sizeof(unsigned), "storage holds the capacity");
	}
	VC_FORALL(i, n) { vc_assert(v[i] == val(i), "element value"); }
}
