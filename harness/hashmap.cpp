// Contracts of HashMap<Key,Value>: a multimap ordered per bucket; keyed by the hash of the key.
#include "vc_map.h"
#define MAP(K) VcAllocator A; VcBox<HashMap<K, V>> bx; HashMap<K, V>& m = bx.x; OldMap<K> o(m, A, "m");

template<class K> void get_()
{
	MAP(K) K k = Hf<K>::key(vc_u64("k")); uint64_t h = Hf<K>::h(k).value;
	V* r = vc_bool("op") ? m[k] : m.get(k);
	if (r == nullptr) {
		VC_FORALL(b, o.nb) { VC_FORALL(i, o.cnt(b)) { o.inv(b, i); vc_assert(o.hash(b, i) != h, "get misses nothing"); } }
		vc_cover("absent");
	} else {
		uint64_t b = h % o.nb, i = o.pos(o.node_of(r));
		vc_assert(i < o.cnt(b) && r == &o.node(b, i)->inner().kv.value, "the result is a value of the map");
		vc_assert(o.hash(b, i) == h, "get returns a value of this key");
		VC_FORALL(j, i) { vc_assert(o.hash(b, j) != h, "get returns the first value of this key"); }
		vc_cover("present");
	}
	check_same(m, o);
	vc_cover("end");
}
VC_HARNESS(map_get_hash) { get_<Hash64>(); }
VC_HARNESS(map_get_key) { get_<unsigned>(); }

template<class K> void find_()
{
	MAP(K) K k = Hf<K>::key(vc_u64("k")); uint64_t h = Hf<K>::h(k).value;
	auto r = m.find(k);
	if (r == m.end()) {
		VC_FORALL(b, o.nb) { VC_FORALL(i, o.cnt(b)) { o.inv(b, i); vc_assert(o.hash(b, i) != h, "find misses nothing"); } }
		vc_cover("absent");
	} else {
		uint64_t b = h % o.nb, i = o.pos(r.m_element.entry());
		vc_assert(r.m_pBucket == m.m_pBuckets + b && r.m_pEnd == m.m_pBuckets + o.nb, "find returns an iterator into the bucket");
		vc_assert(i < o.cnt(b) && r.m_element.entry() == o.node(b, i), "find returns an entry of the bucket");
		vc_assert(o.hash(b, i) == h, "find returns an entry of this key");
		vc_assert(&r->value == &o.node(b, i)->inner().kv.value && &(*r).key == &o.node(b, i)->inner().kv.key, "dereferencing");
		vc_cover("present");
	}
	vc_cover("end");
}
VC_HARNESS(map_find_hash) { find_<Hash64>(); }
VC_HARNESS(map_find_key) { find_<unsigned>(); }

template<class K> void count_()
{
	MAP(K) K k = Hf<K>::key(vc_u64("k")); uint64_t h = Hf<K>::h(k).value, b = h % o.nb;
	unsigned r = 0;
	for (uint64_t i = 0; i < o.cnt(b); ++i) if (o.hash(b, i) == h) ++r;
	unsigned c = vc_bool("byhash") ? m.count(Hash64(h)) : m.count(k);
	vc_assert(c == r, "count is the number of entries of this key");
	check_same(m, o);
	vc_cover("end");
}
VC_HARNESS(map_count_key) { count_<unsigned>(); }

template<class K> void range_()
{
	MAP(K) K k = Hf<K>::key(vc_u64("k")); uint64_t h = Hf<K>::h(k).value, b = h % o.nb, n = o.cnt(b);
	auto r = m.getRange(k);
	if (r.empty()) {
		VC_FORALL(i, n) { vc_assert(o.hash(b, i) != h, "the range of a present key is not empty"); }
		vc_cover("absent");
	} else {
		uint64_t f = o.pos(r.begin().entry()), l = r.end() == nullptr ? n : o.pos(r.end().entry());
		vc_assert(f < l && l <= n && r.begin().entry() == o.node(b, f) && (l == n || r.end().entry() == o.node(b, l)), "the range is a part of the bucket");
		vc_assert(o.hash(b, f) == h && o.hash(b, l - 1) == h, "the range starts and ends with the key");
		VC_FORALL(i, n) {
			o.adj(b, f, i, l - 1);
			vc_assert((o.hash(b, i) == h) == (i >= f && i < l), "the range holds exactly the entries of the key");
		}
		vc_cover("present");
	}
	check_same(m, o);
	vc_cover("end");
}
VC_BOUNDED(map_range_hash) { range_<Hash64>(); }
VC_BOUNDED(map_range_key) { range_<unsigned>(); }

template<class K> void emplace_(bool order)
{
	MAP(K) K k = Hf<K>::key(vc_u64("k")); uint64_t h = Hf<K>::h(k).value, x = h % o.nb, n = o.cnt(x); V v = vc_u32("v");
	auto& nd = m.emplace(k, v);
	auto* e = (typename OldMap<K>::E*)&nd;
	vc_assert(nd.kv.key == k && nd.kv.value == v, "emplace returns the new node");
	uint64_t p = e->prev() == nullptr ? 0 : o.pos(e->prev()) + 1;
	vc_assert(p <= n, "position of the new node");
	if (!order) check_inserted<K>(m, o, x, p, e, h, k, v);
	if (order) VC_FORALL(i, n) {
		if (p > 0 && i < p) o.adj(x, i, p - 1, p);
		vc_assert(o.hash(x, i) != h || (p > 0 && o.hash(x, p - 1) == h), "the new node follows the nodes of its key");
		vc_assert(i < p || o.hash(x, i) != h, "no node of the key behind the new one");
		if (p < n && p > 0) { o.adj(x, i, p - 1, p); vc_assert(!(i < p && o.hash(x, p - 1) != h), "the new node separates no equal keys"); }
	}
	vc_cover("end");
}
VC_HARNESS(map_emplace_hash) { emplace_<Hash64>(false); }
VC_HARNESS(map_emplace_key) { emplace_<unsigned>(false); }
VC_HARNESS(map_emplace_order_hash) { emplace_<Hash64>(true); }
VC_HARNESS(map_emplace_order_key) { emplace_<unsigned>(true); }

template<class K> void unique_()
{
	MAP(K) K k = Hf<K>::key(vc_u64("k")); uint64_t h = Hf<K>::h(k).value, x = h % o.nb, n = o.cnt(x); V v = vc_u32("v");
	auto& nd = m.emplaceUnique(k, v);
	auto* e = (typename OldMap<K>::E*)&nd;
	if (m.elements() == o.total) {
		uint64_t i = o.pos(e);
		vc_assert(i < n && e == o.node(x, i) && o.hash(x, i) == h, "the entry already present is returned");
		check_same(m, o);
		vc_cover("present");
	} else {
		check_inserted<K>(m, o, x, n, e, h, k, v);
		VC_FORALL(b, o.nb) { VC_FORALL(i, o.cnt(b)) { o.inv(b, i); vc_assert(o.hash(b, i) != h, "inserts only absent keys"); } }
		vc_cover("absent");
	}
	vc_cover("end");
}
VC_HARNESS(map_unique_hash) { unique_<Hash64>(); }
VC_HARNESS(map_unique_key) { unique_<unsigned>(); }

// the position behind (b,i) in iteration order
template<class K, class I> void check_next(OldMap<K>& o, HashMap<K, V>& m, const I& r, uint64_t b, bool more, typename OldMap<K>::E* nx)
{
	if (more) { vc_assert(r.m_pBucket == m.m_pBuckets + b && r.m_element.entry() == nx && r.m_pEnd == m.m_pBuckets + o.nb, "next entry of the bucket"); vc_cover("inside"); }
	else if (r == m.end()) {
		VC_FORALL(c, o.nb) { vc_assert(c <= b || o.cnt(c) == 0, "iteration ends only behind the last entry"); }
		vc_cover("end reached");
	} else {
		uint64_t d = r.m_pBucket - m.m_pBuckets;
		vc_assert(d > b && d < o.nb && o.cnt(d) > 0 && r.m_element.entry() == o.node(d, 0) && r.m_pEnd == m.m_pBuckets + o.nb, "first entry of a later bucket");
		VC_FORALL(c, o.nb) { vc_assert(c <= b || c >= d || o.cnt(c) == 0, "no entry is skipped"); }
		vc_cover("next bucket");
	}
}
static void erase_(bool order)
{
	using K = Hash64; MAP(K)
	uint64_t b = vc_below("b", o.nb), n = o.cnt(b); vc_assume(n > 0); uint64_t i = vc_below("i", n); vc_assume(o.total > 0);
	HashMap<K, V>::Iterator it(m.m_pBuckets + b, m.m_pBuckets + o.nb, o.node(b, i));
	auto nx = i + 1 < n ? o.node(b, i + 1) : nullptr;
	auto r = m.erase(it);
	if (order || i + 1 < n) check_next<K>(o, m, r, b, i + 1 < n, nx);
	vc_assert(!vc_live(o.node(b, i)), "the erased node is released");
	auto ix = [&](uint64_t c, uint64_t j) { return c == b && j >= i ? j + 1 : j; };
	check_map<K>(m, o.nb, o.total - 1, [&](uint64_t c) { return o.cnt(c) - (c == b); }, [&](uint64_t c, uint64_t j) { return o.node(c, ix(c, j)); },
		[&](uint64_t c, uint64_t j) { return o.hash(c, ix(c, j)); }, [&](uint64_t c, uint64_t j) { return o.key(c, ix(c, j)); },
		[&](uint64_t c, uint64_t j) { return o.val(c, ix(c, j)); });
	vc_cover("end");
}
VC_HARNESS(map_erase) { erase_(false); }
VC_BOUNDED(map_erase_next) { erase_(true); }
VC_HARNESS(map_erase_end)
{
	using K = Hash64; MAP(K)
	auto r = m.erase(m.end());
	vc_assert(r == m.end(), "erasing the end is no operation");
	check_same(m, o);
	vc_cover("end");
}
VC_BOUNDED(map_iterate)
{
	using K = Hash64; MAP(K)
	uint64_t b = vc_below("b", o.nb), n = o.cnt(b); vc_assume(n > 0); uint64_t i = vc_below("i", n);
	HashMap<K, V>::Iterator it(m.m_pBuckets + b, m.m_pBuckets + o.nb, o.node(b, i));
	HashMap<K, V>::Iterator r = it;
	if (vc_bool("post")) { auto old = r++; vc_assert(old == it, "postfix increment returns the old position"); } else { r = it.next(); ++it; vc_assert(it == r, "next is the incremented position"); }
	check_next<K>(o, m, r, b, i + 1 < n, i + 1 < n ? o.node(b, i + 1) : nullptr);
	vc_cover("end");
}
VC_HARNESS(map_begin)
{
	using K = Hash64; MAP(K)
	auto r = m.begin();
	if (r == m.end()) { VC_FORALL(c, o.nb) { vc_assert(o.cnt(c) == 0, "begin is the end only for an empty map"); } vc_cover("empty"); }
	else {
		uint64_t d = r.m_pBucket - m.m_pBuckets;
		vc_assert(d < o.nb && o.cnt(d) > 0 && r.m_element.entry() == o.node(d, 0) && r.m_pEnd == m.m_pBuckets + o.nb, "begin is the first entry of a bucket");
		VC_FORALL(c, o.nb) { vc_assert(c >= d || o.cnt(c) == 0, "no entry before begin"); }
		vc_cover("first");
	}
	vc_cover("end");
}
VC_HARNESS(map_construct)
{
	using K = Hash64; VcAllocator A; uint64_t nb = vc_len("nb"); vc_assume(nb > 0 && nb < (1ull << 31));
	VcBox<HashMap<K, V>> bx(&A, (unsigned)nb, &Hf<K>::h); auto& m = bx.x;
	vc_assert(m.elements() == 0 && m.getBucketCount() == nb, "a new map is empty");
	VC_FORALL(b, nb) {
		const auto& l = m.getBucket((unsigned)b);
		vc_assert(l.size() == 0 && l.m_pBegin == nullptr && l.m_pLast == nullptr, "empty bucket");
		vc_assert(l.getAllocator() == &A, "the bucket allocates from the allocator of the map");
	}
	vc_cover("end");
}
VC_HARNESS(map_move)
{
	using K = Hash64; MAP(K)
	VcBox<HashMap<K, V>> by((HashMap<K, V>&&)m);
	check_same(by.x, o);
	vc_assert(m.elements() == 0 && m.getBucketCount() == 0 && m.begin() == m.end(), "the source is empty");
	VcBox<HashMap<K, V>> bz; 
	bz.x = (HashMap<K, V>&&)by.x;
	check_same(bz.x, o);
	vc_assert(by.x.elements() == 0 && by.x.begin() == by.x.end(), "the source is empty");
	bz.x = (HashMap<K, V>&&)bz.x;
	check_same(bz.x, o);
	vc_cover("end");
}
// a map without buckets behaves like an empty map
VC_HARNESS(map_empty)
{
	using K = unsigned; VcBox<HashMap<K, V>> bx; auto& m = bx.x; K k = vc_u32("k"); uint64_t h = vc_u64("h");
	vc_assert(m.get(Hash64(h)) == nullptr && m.count(Hash64(h)) == 0 && m.getRange(Hash64(h)).empty() && m.begin() == m.end(), "nothing is found");
	m.clear();
	vc_assert(m.elements() == 0, "empty");
	vc_cover("end");
}
VC_BOUNDED(map_clear)
{
	using K = Hash64; MAP(K)
	m.clear();
	vc_assert(m.elements() == 0, "no elements");
	VC_FORALL(b, o.nb) {
		vc_assert(m.getBucket((unsigned)b).empty() && m.getBucket((unsigned)b).begin().entry() == nullptr, "empty bucket");
		VC_FORALL(i, o.cnt(b)) { vc_assert(!vc_live(o.node(b, i)), "every node is released"); }
	}
	vc_cover("end");
}
VC_BOUNDED(map_destroy)
{
	using K = Hash64; MAP(K)
	m.destroy();
	vc_assert(!vc_live(o.arr), "the buckets are released");
	VC_FORALL(b, o.nb) { VC_FORALL(i, o.cnt(b)) { vc_assert(!vc_live(o.node(b, i)), "every node is released"); } }
	vc_cover("end");
}
VC_BOUNDED(map_find_value)
{
	using K = Hash64; MAP(K) V v = vc_u32("v");
	K* r = m.findKey(v);
	if (r == nullptr) { VC_FORALL(b, o.nb) { VC_FORALL(i, o.cnt(b)) { vc_assert(o.val(b, i) != v, "findKey misses nothing"); } } vc_cover("absent"); }
	else {
		auto* e = (OldMap<K>::E*)r;
		vc_assert(e->inner().kv.value == v, "findKey returns a key of the value");
		vc_cover("present");
	}
	vc_cover("end");
}
// removing all entries of a key: the remaining entries keep their order
template<class K> void erase_range()
{
	MAP(K) K k = Hf<K>::key(vc_u64("k")); uint64_t h = Hf<K>::h(k).value, x = h % o.nb;
	unsigned r = m.eraseRange(k);
	uint64_t keep[64], n = 0; unsigned gone = 0;
	for (uint64_t i = 0; i < o.cnt(x); ++i) { if (o.hash(x, i) == h) { ++gone; vc_assert(!vc_live(o.node(x, i)), "erased nodes are released"); } else keep[n++] = i; }
	vc_assert(r == gone, "returns the number of erased entries");
	auto ix = [&](uint64_t b, uint64_t i) { return b == x ? keep[i] : i; };
	check_map<K>(m, o.nb, o.total - gone, [&](uint64_t b) { return b == x ? n : o.cnt(b); }, [&](uint64_t b, uint64_t i) { return o.node(b, ix(b, i)); },
		[&](uint64_t b, uint64_t i) { return o.hash(b, ix(b, i)); }, [&](uint64_t b, uint64_t i) { return o.key(b, ix(b, i)); },
		[&](uint64_t b, uint64_t i) { return o.val(b, ix(b, i)); });
	vc_cover("end");
}
VC_BOUNDED(map_erase_range_hash) { erase_range<Hash64>(); }
VC_BOUNDED(map_erase_range_key) { erase_range<unsigned>(); }
