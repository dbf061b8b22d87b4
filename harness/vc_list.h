#pragma once
#include "vc.h"
#include "spvgentwo/List.h"
using namespace spvgentwo;
using T = unsigned;
using L = List<T>;

// the assumed contract of IAllocator: allocate returns fresh storage of the requested size
struct VcAllocator : IAllocator {
	void* allocate(sgt_size_t n, unsigned int a) override { return vc_alloc(n, a); }
	void deallocate(void* p, sgt_size_t n) override { vc_free(p, n); }
};

// allocation may fail at any call
struct VcFailAllocator : VcAllocator {
	unsigned failed = 0;
	void* allocate(sgt_size_t n, unsigned int a) override { if (vc_bool("fail")) { ++failed; return nullptr; } return vc_alloc(n, a); }
};

// an arbitrary well formed list and its old value
#ifdef VC_SYMBOLIC
struct Old {
	uint64_t n, fam;
	Old(L& l, const char* name) {
		n = vc_len(name);
		fam = vc_family(name, n, sizeof(Entry<T>));
		vc_link(fam, __builtin_offsetof(Entry<T>, m_pPrev), __builtin_offsetof(Entry<T>, m_pNext));
		l.m_pBegin = n > 0 ? (Entry<T>*)vc_node(fam, 0) : nullptr;
		l.m_pLast = n > 0 ? (Entry<T>*)vc_node(fam, n - 1) : nullptr;
		l.m_Elements = n;
	}
	~Old() {}
	Entry<T>* node(uint64_t i) const { return (Entry<T>*)vc_node(fam, i); }
	T val(uint64_t i) const { return vc_init32(fam, i, __builtin_offsetof(Entry<T>, m_data)); }
};
#else
#include <vector>
struct Old {
	uint64_t n;
	std::vector<Entry<T>*> e; std::vector<T> v;
	Old(L& l, const char* name) {
		n = vc_len(name);
		for (uint64_t i = 0; i < n; ++i) { T x = vc_u32("elem"); IAllocator* keep = l.m_pAllocator; static VcAllocator ok; l.m_pAllocator = &ok; l.emplace_back(x); l.m_pAllocator = keep; e.push_back(l.lastEntry()); v.push_back(x); }
	}
	Entry<T>* node(uint64_t i) const { return i < n ? e[i] : (Entry<T>*)(~0ull); }
	T val(uint64_t i) const { return i < n ? v[i] : 0xdeadbeef; }
};
#endif

// the list is exactly the sequence of n entries node(0..n-1) with values val(0..n-1), linked both ways
template<class N, class V> void check_list(const L& l, uint64_t n, N node, V val)
{
	vc_assert(l.size() == n, "size equals number of entries");
	vc_assert(l.empty() == (n == 0), "empty iff no entries");
	vc_assert(l.begin().entry() == (n > 0 ? node(0) : nullptr), "first entry");
	vc_assert(l.last().entry() == (n > 0 ? node(n - 1) : nullptr), "last entry");
	VC_FORALL(i, n) {
		Entry<T>* e = node(i);
		vc_assert(vc_live(e), "entry is live");
		vc_assert(e->next() == (i + 1 < n ? node(i + 1) : nullptr), "forward link");
		vc_assert(e->prev() == (i > 0 ? node(i - 1) : nullptr), "backward link");
		vc_assert(e->inner() == val(i), "element value");
	}
}
