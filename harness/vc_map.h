#pragma once
#include "vc_list.h"
#include "spvgentwo/HashMap.h"
using V = unsigned;
// hash functions of the contracts: the key itself / a bijection of the key
template<class K> struct Hf;
template<> struct Hf<Hash64> { static Hash64 h(const Hash64& k) { return k; } static Hash64 key(uint64_t h) { return Hash64(h); } };
template<> struct Hf<unsigned> { static Hash64 h(const unsigned& k) { return Hash64((uint64_t)(k ^ 5u)); } static unsigned key(uint64_t h) { return (unsigned)h ^ 5u; } };

// an arbitrary well formed map: nb buckets, bucket b is a list of cnt(b) nodes
template<class K> struct OldMap {
	using M = HashMap<K, V>; using N = typename M::Node; using B = typename M::Bucket; using E = Entry<N>;
	uint64_t nb; unsigned total; B* arr;
	static constexpr uint64_t KOFF = 0, VOFF = __builtin_offsetof(typename N::KV, value), HOFF = __builtin_offsetof(N, hash);
#ifdef VC_SYMBOLIC
	uint64_t fam;
	OldMap(M& m, IAllocator& A, const char* name) {
		nb = vc_u32("nb"); vc_assume(nb > 0); vc_assume(nb < (1ull << 31));
		total = vc_u32("total");
		fam = vc_family2(name, nb, sizeof(E), __builtin_offsetof(E, m_pPrev), __builtin_offsetof(E, m_pNext));
		arr = (B*)vc_array("buckets", nb, sizeof(B));
		VcBox<B> proto(&A);
		vc_bucket_heads(arr, fam, __builtin_offsetof(B, m_pBegin), __builtin_offsetof(B, m_pLast), __builtin_offsetof(B, m_Elements));
		vc_array_constp(arr, 0, *(void**)&proto.x);
		vc_array_constp(arr, __builtin_offsetof(B, m_pAllocator), &A);
		m.m_pAllocator = &A; m.m_pBuckets = arr; m.m_Buckets = (unsigned)nb; m.m_Elements = total; m.m_pHashFunc = &Hf<K>::h;
	}
	~OldMap() {}
	E* node(uint64_t b, uint64_t i) const { return (E*)vc_node2(fam, b, i); }
	uint64_t pos(const E* e) const { return vc_pos(fam, e); }
	uint64_t cnt(uint64_t b) const { return vc_count2(fam, b); }
	uint64_t hash(uint64_t b, uint64_t i) const { return vc_initb64(fam, b, i, HOFF); }
	K key(uint64_t b, uint64_t i) const { if constexpr (sizeof(K) == 8) return K(vc_initb64(fam, b, i, KOFF)); else return K(vc_initb32(fam, b, i, KOFF)); }
	V val(uint64_t b, uint64_t i) const { return vc_initb32(fam, b, i, VOFF); }
#else
	struct Nd { E* e; uint64_t h; K k; V v; };
	std::vector<std::vector<Nd>> bs;
	OldMap(M& m, IAllocator& A, const char* name) {
		nb = vc_len("nb"); vc_assume(nb > 0 && nb < 9);
		arr = (B*)vc_alloc(nb * sizeof(B), alignof(B));
		bs.resize(nb); total = 0;
		for (uint64_t b = 0; b < nb; ++b) {
			new(arr + b) B(&A);
			uint64_t n = vc_len("cnt"); total += (unsigned)n;
			for (uint64_t i = 0; i < n; ++i) {
				uint64_t h = vc_below("q", 4) * nb + b; V v = vc_u32("val");
				// nodes of equal hash are adjacent
				uint64_t p = i; for (uint64_t j = 0; j < i; ++j) if (bs[b][j].h == h) p = j + 1;
				Nd x{nullptr, h, Hf<K>::key(h), v}; bs[b].insert(bs[b].begin() + p, x);
			}
			for (auto& x : bs[b]) { arr[b].emplace_back(x.k, x.v).hash = Hash64(x.h); x.e = arr[b].lastEntry(); }
		}
		m.m_pAllocator = &A; m.m_pBuckets = arr; m.m_Buckets = (unsigned)nb; m.m_Elements = total; m.m_pHashFunc = &Hf<K>::h;
	}
	const Nd* at(uint64_t b, uint64_t i) const { return b < nb && i < bs[b].size() ? &bs[b][i] : nullptr; }
	E* node(uint64_t b, uint64_t i) const { return at(b, i) ? at(b, i)->e : (E*)~0ull; }
	uint64_t pos(const E* e) const { for (auto& b : bs) for (uint64_t i = 0; i < b.size(); ++i) if (b[i].e == e) return i; return ~0ull; }
	uint64_t cnt(uint64_t b) const { return b < nb ? bs[b].size() : 0; }
	uint64_t hash(uint64_t b, uint64_t i) const { return at(b, i) ? at(b, i)->h : 0; }
	K key(uint64_t b, uint64_t i) const { return at(b, i) ? at(b, i)->k : K(0); }
	V val(uint64_t b, uint64_t i) const { return at(b, i) ? at(b, i)->v : 0; }
#endif
	E* node_of(V* v) const { return (E*)((char*)v - VOFF); }
	// the data invariant at one node: it carries the hash of its key and sits in the bucket of its hash
	void inv(uint64_t b, uint64_t i) const {
		vc_assume(hash(b, i) % nb == b); vc_assume(hash(b, i) == Hf<K>::h(key(b, i)).value);
	}
	// equal hashes are adjacent
	void adj(uint64_t b, uint64_t i, uint64_t j, uint64_t k) const { if (i < j && j < k && k < cnt(b)) vc_assume(hash(b, i) != hash(b, k) || hash(b, j) == hash(b, i)); }
};
// the map is: nb buckets, bucket b holds exactly the nodes node(b, 0..cnt(b)-1) in this order
template<class K, class C, class N, class H, class X, class W>
void check_map(const HashMap<K, V>& m, uint64_t nb, unsigned total, C cnt, N node, H hash, X key, W val)
{
	using B = typename HashMap<K, V>::Bucket; using E = Entry<typename HashMap<K, V>::Node>;
	vc_assert(m.getBucketCount() == nb, "number of buckets");
	vc_assert(m.elements() == total, "number of elements");
	VC_FORALL(b, nb) {
		const B& l = m.getBucket((unsigned)b);
		uint64_t n = cnt(b);
		vc_assert(l.size() == n, "bucket size");
		vc_assert(l.m_pBegin == (n > 0 ? node(b, 0) : nullptr), "first node of the bucket");
		vc_assert(l.m_pLast == (n > 0 ? node(b, n - 1) : nullptr), "last node of the bucket");
		VC_FORALL(i, n) {
			E* e = node(b, i);
			vc_assert(vc_live(e), "node is live");
			vc_assert(e->next() == (i + 1 < n ? node(b, i + 1) : nullptr), "forward link");
			vc_assert(e->prev() == (i > 0 ? node(b, i - 1) : nullptr), "backward link");
			vc_assert(e->inner().hash == Hash64(hash(b, i)), "node carries its hash");
			vc_assert(e->inner().kv.key == key(b, i), "key");
			vc_assert(e->inner().kv.value == val(b, i), "value");
		}
	}
}
template<class K> void check_same(const HashMap<K, V>& m, const OldMap<K>& o)
{
	check_map<K>(m, o.nb, o.total, [&](uint64_t b) { return o.cnt(b); }, [&](uint64_t b, uint64_t i) { return o.node(b, i); },
		[&](uint64_t b, uint64_t i) { return o.hash(b, i); }, [&](uint64_t b, uint64_t i) { return o.key(b, i); }, [&](uint64_t b, uint64_t i) { return o.val(b, i); });
}
// old map with one node e inserted at position p of bucket x
template<class K> void check_inserted(const HashMap<K, V>& m, const OldMap<K>& o, uint64_t x, uint64_t p, typename OldMap<K>::E* e, uint64_t h, K k, V v)
{
	auto in = [&](uint64_t b, uint64_t i) { return b == x && i == p; };
	auto ix = [&](uint64_t b, uint64_t i) { return b == x && i > p ? i - 1 : i; };
	check_map<K>(m, o.nb, o.total + 1, [&](uint64_t b) { return o.cnt(b) + (b == x); }, [&](uint64_t b, uint64_t i) { return in(b, i) ? e : o.node(b, ix(b, i)); },
		[&](uint64_t b, uint64_t i) { return in(b, i) ? h : o.hash(b, ix(b, i)); }, [&](uint64_t b, uint64_t i) { return in(b, i) ? k : o.key(b, ix(b, i)); },
		[&](uint64_t b, uint64_t i) { return in(b, i) ? v : o.val(b, ix(b, i)); });
}
