// Contracts of Node and Graph: both edge directions stay consistent; control-flow and call graphs mirror the code.
#include <vector>
#include "vc_list.h"
#include "common/Graph.h"
using N = Node<unsigned, unsigned>; using G = Graph<unsigned, unsigned>;
using ED = N::EdgeType; using EE = Entry<ED>; using EL = List<ED>; using NE = Entry<N>; using NL = List<N>;
#ifndef VC_SYMBOLIC
#include <stdlib.h>
#include <map>
#include "common/ControlFlowGraph.h"
#include "common/FunctionCallGraph.h"
#include "common/ExprGraph.h"
#include "spvgentwo/Module.h"
#include "spvgentwo/Templates.h"
struct GAlloc : IAllocator { void* allocate(sgt_size_t n, unsigned) override { return malloc(n); } void deallocate(void* p, sgt_size_t) override { free(p); } };
#endif
// an arbitrary edge list and its old value; the targets are arbitrary, the nodes of the contract among them
#ifdef VC_SYMBOLIC
struct Edges {
	uint64_t n, fam;
	Edges(EL& l, const char* name) {
		n = vc_len(name); fam = vc_family(name, n, sizeof(EE)); vc_link(fam, __builtin_offsetof(EE, m_pPrev), __builtin_offsetof(EE, m_pNext));
		(void)vc_init64(fam, 0, __builtin_offsetof(EE, m_data.pTarget)); (void)vc_init32(fam, 0, __builtin_offsetof(EE, m_data.data));
		l.m_pBegin = n > 0 ? (EE*)vc_node(fam, 0) : nullptr; l.m_pLast = n > 0 ? (EE*)vc_node(fam, n - 1) : nullptr; l.m_Elements = n;
	}
	EE* node(uint64_t i) const { return (EE*)vc_node(fam, i); }
	uint64_t tgt(uint64_t i) const { return vc_init64(fam, i, __builtin_offsetof(EE, m_data.pTarget)); }
	unsigned dat(uint64_t i) const { return vc_init32(fam, i, __builtin_offsetof(EE, m_data.data)); }
	uint64_t pos(const EE* e) const { return vc_pos(fam, e); }
};
#else
static N* somenode[3];
struct Edges {
	uint64_t n; std::vector<EE*> e; std::vector<uint64_t> t; std::vector<unsigned> d;
	Edges(EL& l, const char* name) {
		n = vc_len(name); IAllocator* keep = l.m_pAllocator; static VcAllocator ok; l.m_pAllocator = &ok;
		for (uint64_t i = 0; i < n; ++i) { N* p = somenode[vc_below("tgt", 3)]; unsigned x = vc_u32("dat"); l.emplace_back(p, x); e.push_back(l.lastEntry()); t.push_back((uint64_t)p); d.push_back(x); }
		l.m_pAllocator = keep;
	}
	EE* node(uint64_t i) const { return i < n ? e[i] : (EE*)(~0ull); }
	uint64_t tgt(uint64_t i) const { return i < n ? t[i] : 0; }
	unsigned dat(uint64_t i) const { return i < n ? d[i] : 0; }
	uint64_t pos(const EE* x) const { uint64_t i = 0; while (i < n && e[i] != x) ++i; return i; }
};
#endif
template<class A, class B, class C> void check_edges(const EL& l, uint64_t n, A node, B tgt, C dat)
{
	vc_assert(l.size() == n, "number of edges");
	vc_assert(l.begin().entry() == (n > 0 ? node(0) : nullptr), "first edge");
	vc_assert(l.last().entry() == (n > 0 ? node(n - 1) : nullptr), "last edge");
	VC_FORALL(i, n) {
		EE* e = node(i);
		vc_assert(vc_live(e), "edge is live");
		vc_assert(e->next() == (i + 1 < n ? node(i + 1) : nullptr), "forward link");
		vc_assert(e->prev() == (i > 0 ? node(i - 1) : nullptr), "backward link");
		vc_assert((uint64_t)e->inner().pTarget == tgt(i), "edge target");
		vc_assert(e->inner().data == dat(i), "edge data");
	}
}
static void same_edges(const EL& l, const Edges& o) { check_edges(l, o.n, [&](uint64_t i) { return o.node(i); }, [&](uint64_t i) { return o.tgt(i); }, [&](uint64_t i) { return o.dat(i); }); }
static void appended(const EL& l, const Edges& o, const void* t, unsigned d)
{
	EE* e = l.lastEntry();
	check_edges(l, o.n + 1, [&](uint64_t i) { return i < o.n ? o.node(i) : e; }, [&](uint64_t i) { return i < o.n ? o.tgt(i) : (uint64_t)t; }, [&](uint64_t i) { return i < o.n ? o.dat(i) : d; });
}
static void removed(const EL& l, const Edges& o, uint64_t k)
{
	check_edges(l, o.n - 1, [&](uint64_t i) { return i < k ? o.node(i) : o.node(i + 1); }, [&](uint64_t i) { return i < k ? o.tgt(i) : o.tgt(i + 1); }, [&](uint64_t i) { return i < k ? o.dat(i) : o.dat(i + 1); });
}
#ifdef VC_SYMBOLIC
#define VC_NODE(a) VcBox<N> a##box(&alloc); N& a = a##box.x; Edges a##i(a.m_inputs, #a "in"), a##o(a.m_outputs, #a "out")
#define VC_NODES(a, b) VcBox<N> a##box(&alloc), b##box(&alloc); N& a = a##box.x; N& b = b##box.x; Edges a##i(a.m_inputs, #a "in"), a##o(a.m_outputs, #a "out"), b##i(b.m_inputs, #b "in"), b##o(b.m_outputs, #b "out")
#else
#define VC_NODE(a) static VcBox<N> third((IAllocator*)nullptr); VcBox<N> a##box(&alloc); N& a = a##box.x; somenode[0] = &a; somenode[1] = somenode[2] = &third.x; Edges a##i(a.m_inputs, #a "in"), a##o(a.m_outputs, #a "out")
#define VC_NODES(a, b) static VcBox<N> third((IAllocator*)nullptr); VcBox<N> a##box(&alloc), b##box(&alloc); N& a = a##box.x; N& b = b##box.x; somenode[0] = &a; somenode[1] = &b; somenode[2] = &third.x; Edges a##i(a.m_inputs, #a "in"), a##o(a.m_outputs, #a "out"), b##i(b.m_inputs, #b "in"), b##o(b.m_outputs, #b "out")
#endif
// one arbitrary case stands for all of them
#ifdef VC_SYMBOLIC
#define VC_CASES(k, n) for (uint64_t k = vc_below("case", n), k##_once = 0; k##_once == 0; ++k##_once)
#else
#define VC_CASES(k, n) for (uint64_t k = 0; k < (n); ++k)
#endif
VC_HARNESS(node_connect)
{
	VcAllocator alloc; VC_NODES(a, b); unsigned d = vc_u32("d");
	a.connect(&b, d);
	VC_CASES(k, 4) {
		if (k == 0) appended(a.outputs(), ao, &b, d);
		else if (k == 1) appended(b.inputs(), bi, &a, d);
		else if (k == 2) same_edges(a.inputs(), ai);
		else same_edges(b.outputs(), bo);
		vc_cover("end");
	}
}
VC_HARNESS(node_connect_self)
{
	VcAllocator alloc; VC_NODE(a); unsigned d = vc_u32("d");
	a.connect(&a, d);
	VC_CASES(k, 2) {
		if (k == 0) appended(a.outputs(), ao, &a, d);
		else appended(a.inputs(), ai, &a, d);
		vc_cover("end");
	}
}
// removing an edge removes the first one that matches, or nothing; returns the edge behind it
template<class F> static void check_removed(const EL& l, const Edges& o, const void* t, F ret)
{
	if (l.size() == o.n) {
		VC_FORALL(i, o.n) vc_assert(o.tgt(i) != (uint64_t)t, "an existing edge is removed");
		same_edges(l, o); vc_assert(ret == nullptr, "nothing removed"); vc_cover("none");
	} else {
		uint64_t k = ret != nullptr ? o.pos(ret) - 1 : o.n - 1;
		vc_assert(o.n > 0 && k < o.n, "removed edge existed");
		vc_assert(o.tgt(k) == (uint64_t)t, "removed edge leads to the node");
		VC_FORALL(i, k) vc_assert(o.tgt(i) != (uint64_t)t, "the first such edge is removed");
		vc_assert(!vc_live(o.node(k)), "removed edge is released");
		removed(l, o, k); vc_cover("found");
	}
}
#ifdef VC_SYMBOLIC
#define VC_OTHER(p) const N* p = (const N*)vc_opaque("other")
#else
#define VC_OTHER(p) const N* p = somenode[vc_below("other", 3)]
#endif
VC_HARNESS(node_remove_output)
{
	VcAllocator alloc; VC_NODE(a); VC_OTHER(p);
	EE* r = a.remove_output(p).entry();
	VC_CASES(k, 2) if (k == 0) check_removed(a.outputs(), ao, p, r); else same_edges(a.inputs(), ai);
}
VC_HARNESS(node_remove_input)
{
	VcAllocator alloc; VC_NODE(a); VC_OTHER(p);
	EE* r = a.remove_input(p).entry();
	VC_CASES(k, 2) if (k == 0) check_removed(a.inputs(), ai, p, r); else same_edges(a.outputs(), ao);
}
// disconnect by the contracts of remove_output and remove_input
#ifdef VC_SYMBOLIC
static unsigned nout, nin; static const N* outself; static const N* outarg; static const N* inself; static const N* inarg;
extern "C" EL::Iterator ct_rec_output(N* self, const N* arg) { ++nout; outself = self; outarg = arg; return nullptr; }
extern "C" EL::Iterator ct_rec_input(N* self, const N* arg) { ++nin; inself = self; inarg = arg; return nullptr; }
#endif
VC_HARNESS(node_disconnect)
{
	VcAllocator alloc; bool self = vc_bool("self");
#ifdef VC_SYMBOLIC
	VcBox<N> abox(&alloc), bbox(&alloc); N& a = abox.x; N* b = self ? &a : &bbox.x; nout = nin = 0;
	a.disconnect(b);
	vc_assert(nout == 1 && outself == &a && outarg == b, "an edge to the node is removed from the outputs");
	vc_assert(nin == 1 && inself == b && inarg == &a, "the edge is removed from the inputs of the node");
#else
	VcBox<N> abox(&alloc), bbox(&alloc); N& a = abox.x; N* b = self ? &a : &bbox.x; unsigned k = (unsigned)vc_below("k", 4);
	for (unsigned i = 0; i < k; ++i) a.connect(b, i);
	a.disconnect(b);
	vc_assert(a.outputs().size() == (k ? k - 1 : 0) && b->inputs().size() == (k ? k - 1 : 0), "one edge is removed in both directions");
	unsigned i = 1; for (auto& e : a.outputs()) vc_assert(e.pTarget == b && e.data == i++, "the first edge is removed");
	i = 1; for (auto& e : b->inputs()) vc_assert(e.pTarget == &a && e.data == i++, "the first edge is removed");
#endif
	vc_cover("end");
}
VC_HARNESS(node_access)
{
	VcAllocator alloc; unsigned d = vc_u32("data"); VcBox<N> box(&alloc, d); N& a = box.x; const N& c = a;
	vc_assert(a.data() == d && &a.data() == &c.data(), "node data");
	vc_assert(a.inputs().empty() && a.outputs().empty() && a.inputs().getAllocator() == &alloc && a.outputs().getAllocator() == &alloc, "a new node has no edges");
	vc_assert(&c.inputs() == &a.inputs() && &c.outputs() == &a.outputs() && (const void*)&a.inputs() != (const void*)&a.outputs(), "inputs and outputs are different lists");
	vc_cover("end");
}
// the nodes of a graph
#ifdef VC_SYMBOLIC
struct Nodes {
	uint64_t n, fam;
	Nodes(NL& l, const char* name) {
		n = vc_len(name); fam = vc_family(name, n, sizeof(NE)); vc_link(fam, __builtin_offsetof(NE, m_pPrev), __builtin_offsetof(NE, m_pNext));
		(void)vc_init32(fam, 0, __builtin_offsetof(NE, m_data.m_data));
		l.m_pBegin = n > 0 ? (NE*)vc_node(fam, 0) : nullptr; l.m_pLast = n > 0 ? (NE*)vc_node(fam, n - 1) : nullptr; l.m_Elements = n;
	}
	NE* node(uint64_t i) const { return (NE*)vc_node(fam, i); }
	unsigned dat(uint64_t i) const { return vc_init32(fam, i, __builtin_offsetof(NE, m_data.m_data)); }
};
#else
struct Nodes {
	uint64_t n; std::vector<NE*> e; std::vector<unsigned> d;
	Nodes(NL& l, const char* name) { n = vc_len(name); for (uint64_t i = 0; i < n; ++i) { unsigned x = vc_u32("data"); l.emplace_back(l.getAllocator(), x); e.push_back(l.lastEntry()); d.push_back(x); } }
	NE* node(uint64_t i) const { return i < n ? e[i] : (NE*)(~0ull); }
	unsigned dat(uint64_t i) const { return i < n ? d[i] : 0; }
};
#endif
template<class A, class B> void check_nodes(const G& g, uint64_t n, A node, B dat)
{
	vc_assert(g.size() == n && g.empty() == (n == 0), "number of nodes");
	vc_assert(g.begin().entry() == (n > 0 ? node(0) : nullptr) && g.end() == nullptr, "iteration starts at the first node");
	VC_FORALL(i, n) {
		NE* e = node(i);
		vc_assert(vc_live(e), "node is live");
		vc_assert(e->next() == (i + 1 < n ? node(i + 1) : nullptr) && e->prev() == (i > 0 ? node(i - 1) : nullptr), "iteration visits every node once");
		vc_assert(e->inner().data() == dat(i), "node data");
	}
}
VC_HARNESS(graph_emplace)
{
	VcAllocator alloc; VcBox<G> box(&alloc); G& g = box.x; Nodes o(g.m_nodes, "nodes"); unsigned d = vc_u32("d");
	N* r = g.emplace(d); NE* e = g.m_nodes.lastEntry();
	vc_assert(r == &e->inner(), "emplace returns the new node");
	check_nodes(g, o.n + 1, [&](uint64_t i) { return i < o.n ? o.node(i) : e; }, [&](uint64_t i) { return i < o.n ? o.dat(i) : d; });
	vc_assert(r->inputs().empty() && r->outputs().empty() && r->inputs().getAllocator() == &alloc && r->outputs().getAllocator() == &alloc, "new node has no edges");
	vc_assert(&g.back() == r && g.getAllocator() == &alloc, "the new node is the last");
	vc_cover("end");
}
VC_HARNESS(graph_access)
{
	VcAllocator alloc; VcBox<G> box(&alloc); G& g = box.x; const G& c = g; Nodes o(g.m_nodes, "nodes");
	check_nodes(g, o.n, [&](uint64_t i) { return o.node(i); }, [&](uint64_t i) { return o.dat(i); });
	if (o.n > 0) {
		vc_assert(&g.front() == &o.node(0)->inner() && &c.front() == &o.node(0)->inner(), "front");
		vc_assert(&g.back() == &o.node(o.n - 1)->inner() && &c.back() == &o.node(o.n - 1)->inner(), "back");
		vc_cover("some");
	}
	vc_cover("end");
}
VC_HARNESS(graph_move)
{
	VcAllocator alloc; VcBox<G> box(&alloc); G& g = box.x; Nodes o(g.m_nodes, "nodes");
	VcBox<G> box2(static_cast<G&&>(g)); G& h = box2.x;
	check_nodes(h, o.n, [&](uint64_t i) { return o.node(i); }, [&](uint64_t i) { return o.dat(i); });
	vc_assert(g.empty() && g.size() == 0 && g.begin() == nullptr && h.getAllocator() == &alloc, "moved-from graph is empty");
	VcBox<G> box3(&alloc); G& k = box3.x; G& r = (k = static_cast<G&&>(h));
	vc_assert(&r == &k, "assignment returns the graph");
	check_nodes(k, o.n, [&](uint64_t i) { return o.node(i); }, [&](uint64_t i) { return o.dat(i); });
	vc_assert(h.empty() && h.size() == 0 && k.getAllocator() == &alloc, "moved-from graph is empty");
	vc_cover("end");
}
// Graph::erase by the contract of remove_input/remove_output: for each incoming edge one outgoing edge of its source is
// removed, for each outgoing edge one incoming edge of its target (edges of the node to itself: bounded check below)
#ifdef VC_SYMBOLIC
static const N* victim; static Edges* vin; static Edges* vout; static uint64_t kin, kout;
extern "C" EL::Iterator ct_remove_output(N* self, const N* arg)
{
	vc_assert(arg == victim, "the erased node's edges are removed"); vc_assert(kin < vin->n && (uint64_t)self == vin->tgt(kin), "each source loses its outgoing edge, once"); ++kin; return nullptr;
}
extern "C" EL::Iterator ct_remove_input(N* self, const N* arg)
{
	vc_assert(arg == victim, "the erased node's edges are removed"); vc_assert(kout < vout->n && (uint64_t)self == vout->tgt(kout), "each target loses its incoming edge, once"); ++kout; return nullptr;
}
#endif
VC_HARNESS(graph_erase)
{
#ifdef VC_SYMBOLIC
	VcAllocator alloc; VcBox<G> box(&alloc); G& g = box.x; Nodes o(g.m_nodes, "nodes");
	vc_assume(o.n > 0); uint64_t p = vc_below("p", o.n); NE* e = o.node(p);
	VcBox<N> tmp(&alloc); N& t = tmp.x; Edges in(t.m_inputs, "in"), out(t.m_outputs, "out");
	new (&e->m_data.m_inputs) EL(static_cast<EL&&>(t.m_inputs)); new (&e->m_data.m_outputs) EL(static_cast<EL&&>(t.m_outputs));
	victim = &e->m_data; vin = &in; vout = &out; kin = kout = 0;
	auto r = g.erase(G::Iterator(e));
	vc_assert(kin == in.n && kout == out.n, "all edges of the node are removed from its neighbours");
	vc_assert(r.entry() == (p + 1 < o.n ? o.node(p + 1) : nullptr), "erase returns the next node");
	vc_assert(!vc_live(e), "the node is released");
	VC_FORALL(i, in.n) vc_assert(!vc_live(in.node(i)), "its edges are released");
	VC_FORALL(i, out.n) vc_assert(!vc_live(out.node(i)), "its edges are released");
	check_nodes(g, o.n - 1, [&](uint64_t i) { return i < p ? o.node(i) : o.node(i + 1); }, [&](uint64_t i) { return i < p ? o.dat(i) : o.dat(i + 1); });
#endif
	vc_cover("end");
}
VC_HARNESS(graph_erase_none)
{
	VcAllocator alloc; VcBox<G> box(&alloc); G& g = box.x; Nodes o(g.m_nodes, "nodes");
	auto r = g.erase(g.end()); vc_assert(r == nullptr, "erasing nothing");
	check_nodes(g, o.n, [&](uint64_t i) { return o.node(i); }, [&](uint64_t i) { return o.dat(i); });
	vc_cover("end");
}
#ifndef VC_SYMBOLIC
// ---- bounded: histories of operations on whole graphs ----
struct Cnt { unsigned v = 0; bool moved = false; Cnt() = default; Cnt(unsigned x) : v(x) {} Cnt(const Cnt&) = default; Cnt(Cnt&& o) noexcept : v(o.v) { o.v = 0xdead; o.moved = true; }
	Cnt& operator=(const Cnt&) = default; Cnt& operator=(Cnt&& o) noexcept { v = o.v; o.v = 0xdead; o.moved = true; return *this; } };
using GN = Node<unsigned, Cnt>; using GG = Graph<unsigned, Cnt>;
struct Ref { unsigned from, to, d; };
// the graph holds exactly the nodes and edges of the reference, in both directions, in the order they were made
template<class NODES> static void check_graph(NODES& nodes, const std::map<unsigned, GN*>& at, const std::vector<Ref>& edges)
{
	std::map<const GN*, unsigned> key; for (auto& p : at) key[p.second] = p.first;
	for (GN* n : nodes) {
		vc_assert(key.count(n) == 1 && n->data() == key[n], "node data");
		std::vector<Ref> in, out; for (const Ref& e : edges) { if (e.from == key[n]) out.push_back(e); if (e.to == key[n]) in.push_back(e); }
		vc_assert(n->inputs().size() == in.size() && n->outputs().size() == out.size(), "number of edges");
		uint64_t k = 0;
		for (const auto& e : n->outputs()) { vc_assert(k < out.size() && key.count(e.pTarget) && key[e.pTarget] == out[k].to, "outgoing edge leads to the connected node"); vc_assert(e.data.v == out[k].d, "outgoing edge data"); ++k; }
		k = 0;
		for (const auto& e : n->inputs()) { vc_assert(k < in.size() && key.count(e.pTarget) && key[e.pTarget] == in[k].from, "incoming edge comes from the connected node"); vc_assert(e.data.v == in[k].d, "incoming edge data"); ++k; }
	}
}
static void eraseFirst(std::vector<Ref>& es, unsigned f, unsigned t) { for (size_t i = 0; i < es.size(); ++i) if (es[i].from == f && es[i].to == t) { es.erase(es.begin() + i); return; } }
VC_BOUNDED(graph_history)
{
	GAlloc A; VcBox<GG> b1(&A), b2(&A); GG* g = &b1.x; GG* spare = &b2.x;
	std::map<unsigned, GN*> at; std::vector<unsigned> order; std::vector<Ref> edges; unsigned next = 1;
	unsigned steps = 5 + (unsigned)vc_below("steps", 40);
	for (unsigned s = 0; s < steps; ++s) {
		uint64_t k = vc_below("what", 12); auto pick = [&]() { return order[vc_below("pick", order.size())]; };
		if (k < 3 || order.empty()) { unsigned id = next++; at[id] = g->emplace(id); order.push_back(id); }
		else if (k < 8) { unsigned f = pick(), t = pick(), d = (unsigned)vc_below("d", 1000);
			if (vc_bool("rv")) at[f]->connect(at[t], Cnt(d)); else { Cnt c(d); at[f]->connect(at[t], c); vc_assert(c.v == d, "an lvalue argument is kept"); }
			edges.push_back({f, t, d}); }
		else if (k == 8) { unsigned f = pick(), t = pick(); at[f]->disconnect(at[t]); eraseFirst(edges, f, t); }
		else if (k == 9 || k == 10) { unsigned id = pick(); size_t pos = 0; while (order[pos] != id) ++pos;
			auto it = g->begin(); for (size_t i = 0; i < pos; ++i) ++it;
			auto r = g->erase(it); vc_assert(pos + 1 < order.size() ? (r != g->end() && &*r == at[order[pos + 1]]) : r == g->end(), "erase returns the next node");
			order.erase(order.begin() + pos); at.erase(id); std::vector<Ref> keep; for (auto& e : edges) if (e.from != id && e.to != id) keep.push_back(e); edges = keep; }
		else { GG* o = g; *spare = static_cast<GG&&>(*g); g = spare; spare = o; vc_assert(spare->empty(), "moved-from graph is empty"); }
		std::vector<GN*> seen; for (auto& n : *g) seen.push_back(&n);
		vc_assert(seen.size() == order.size() && g->size() == order.size() && g->empty() == order.empty(), "iteration visits every node once");
		for (size_t i = 0; i < seen.size(); ++i) vc_assert(seen[i] == at[order[i]], "iteration in order of creation");
		if (!order.empty()) vc_assert(&g->front() == at[order.front()] && &g->back() == at[order.back()], "front and back");
		check_graph(seen, at, edges);
	}
	g->clear(); spare->clear(); vc_assert(g->empty() && g->size() == 0, "clear removes every node");
	vc_cover("end");
}
// nodes outside a graph may be moved: their neighbours follow
VC_BOUNDED(node_move)
{
	GAlloc A; std::map<unsigned, GN*> at; std::vector<Ref> edges; unsigned cnt = 1 + (unsigned)vc_below("n", 4);
	for (unsigned i = 0; i < cnt; ++i) at[i] = new GN(&A, i);
	unsigned steps = (unsigned)vc_below("steps", 20);
	for (unsigned s = 0; s < steps; ++s) {
		unsigned f = (unsigned)vc_below("f", cnt), t = (unsigned)vc_below("t", cnt); uint64_t k = vc_below("what", 6);
		if (k < 3) { unsigned d = (unsigned)vc_below("d", 1000); at[f]->connect(at[t], Cnt(d)); edges.push_back({f, t, d}); }
		else if (k == 3) { GN* n = new GN(static_cast<GN&&>(*at[f])); vc_assert(at[f]->inputs().empty() && at[f]->outputs().empty(), "moved-from node has no edges"); delete at[f]; at[f] = n; }
		else if (k == 4) { at[f]->disconnect(at[t]); eraseFirst(edges, f, t); }
		else { // f replaces t: t's edges vanish, its key is retired
			if (f == t) { GN& x = *at[f]; GN& y = (x = static_cast<GN&&>(*at[t])); vc_assert(&y == &x, "assignment returns the node"); }
			else { std::vector<Ref> keep; for (auto& e : edges) if (e.from != t && e.to != t) keep.push_back(e); edges = keep;
				GN& y = (*at[t] = static_cast<GN&&>(*at[f])); vc_assert(&y == at[t], "assignment returns the node");
				delete at[f]; at[f] = at[t]; at[t] = new GN(&A, t); }
		}
		std::vector<GN*> all; for (auto& p : at) all.push_back(p.second);
		check_graph(all, at, edges);
	}
	for (auto& p : at) delete p.second;
	vc_cover("end");
}
// ---- bounded: graphs built from code ----
VC_BOUNDED(graph_cfg)
{
	GAlloc A; Module m(&A); Function& f = m.addFunction<void>("f", spv::FunctionControlMask::MaskNone, false); unsigned nb = 1 + (unsigned)vc_below("blocks", 6);
	std::vector<BasicBlock*> bb; for (unsigned i = 0; i < nb; ++i) bb.push_back(&f.addBasicBlock(nullptr));
	std::map<std::pair<unsigned, unsigned>, unsigned> want; Instruction* c = m.constant(true); Instruction* sel = m.constant(3u);
	for (unsigned i = 0; i < nb; ++i) {
		auto to = [&]() { unsigned t = (unsigned)vc_below("t", nb); want[{i, t}]++; return bb[t]; };
		if (vc_bool("body")) (*bb[i])->opNop();
		switch (vc_below("term", 6)) {
		case 0: (*bb[i])->opReturn(); break;
		case 1: (*bb[i])->opBranch(to()); break;
		case 2: { BasicBlock* x = to(); BasicBlock* y = to(); (*bb[i])->opBranchConditional(c, x, y); break; }
		case 3: (*bb[i])->opUnreachable(); break;
		case 4: { BasicBlock* x = to(); BasicBlock* y = to(); BasicBlock* z = to(); (*bb[i])->makeOp(spv::Op::OpSwitch, sel, x, literal_t{1u}, y, literal_t{5u}, z); break; }
		default: break; // not terminated
		}
	}
	ControlFlowGraph<> cfg(f, vc_bool("own") ? &A : nullptr);
	vc_assert(cfg.size() == nb, "one node per block");
	std::map<const void*, unsigned> idx; for (unsigned i = 0; i < nb; ++i) idx[bb[i]] = i;
	std::map<const void*, const ControlFlowGraph<>::NodeType*> node;
	for (auto& n : cfg) { vc_assert(idx.count(n.data()) == 1 && node.count(n.data()) == 0, "each block has one node"); node[n.data()] = &n; }
	std::map<std::pair<unsigned, unsigned>, unsigned> out, in;
	for (auto& n : cfg) {
		unsigned i = idx[n.data()];
		for (const auto& e : n.outputs()) { vc_assert(node.count(e.pTarget->data()) && node[e.pTarget->data()] == e.pTarget, "edge leads to a node of the graph"); out[{i, idx[e.pTarget->data()]}]++; }
		for (const auto& e : n.inputs()) { vc_assert(node.count(e.pTarget->data()) && node[e.pTarget->data()] == e.pTarget, "edge comes from a node of the graph"); in[{idx[e.pTarget->data()], i}]++; }
	}
	vc_assert(out == want, "an outgoing edge per branch target"); vc_assert(in == want, "an incoming edge per branch");
	vc_cover("end");
}
VC_BOUNDED(graph_calls)
{
	GAlloc A; Module m(&A); unsigned nf = 1 + (unsigned)vc_below("functions", 5); std::vector<Function*> fs; std::map<const void*, unsigned> idx;
	for (unsigned i = 0; i < nf; ++i) { fs.push_back(&m.addFunction<void>("f", spv::FunctionControlMask::MaskNone, false)); idx[fs[i]] = i; }
	std::map<const Instruction*, std::pair<unsigned, unsigned>> calls;
	for (unsigned i = 0; i < nf; ++i) {
		unsigned nb = (unsigned)vc_below("blocks", 3);
		for (unsigned b = 0; b < nb; ++b) { BasicBlock& bb = fs[i]->addBasicBlock(nullptr); unsigned nc = (unsigned)vc_below("calls", 3);
			for (unsigned k = 0; k < nc; ++k) { unsigned t = (unsigned)vc_below("t", nf); Instruction* c = bb->call(fs[t]); calls[c] = {i, t}; if (vc_bool("nop")) bb->opNop(); }
			bb.returnValue(); }
	}
	unsigned root = (unsigned)vc_below("root", nf); FunctionCallGraph g(*fs[root], vc_bool("own") ? &A : nullptr);
	std::vector<bool> reach(nf, false); reach[root] = true; for (unsigned k = 0; k < nf; ++k) for (auto& c : calls) if (reach[c.second.first]) reach[c.second.second] = true;
	std::map<const void*, const FunctionCallGraph::NodeType*> node; unsigned cnt = 0; for (bool r : reach) cnt += r;
	for (auto& n : g) { vc_assert(idx.count(n.data()) && reach[idx[n.data()]] && node.count(n.data()) == 0, "one node per reachable function"); node[n.data()] = &n; }
	vc_assert(g.size() == cnt && node.size() == cnt, "every reachable function has a node");
	std::map<const Instruction*, unsigned> out, in;
	for (auto& n : g) {
		for (const auto& e : n.outputs()) { auto it = calls.find(e.data); vc_assert(it != calls.end() && fs[it->second.first] == n.data() && fs[it->second.second] == e.pTarget->data() && node[e.pTarget->data()] == e.pTarget, "an outgoing edge is a call"); out[e.data]++; }
		for (const auto& e : n.inputs()) { auto it = calls.find(e.data); vc_assert(it != calls.end() && fs[it->second.second] == n.data() && fs[it->second.first] == e.pTarget->data() && node[e.pTarget->data()] == e.pTarget, "an incoming edge is a call"); in[e.data]++; }
	}
	for (auto& c : calls) { unsigned w = reach[c.second.first] ? 1 : 0; vc_assert(out[c.first] == w && in[c.first] == w, "each call of a reachable function is one edge, in both directions"); }
	vc_cover("end");
}
// ---- bounded: evaluation of expression graphs (acyclic) ----
template<ExprArgs args> struct Fn {
	unsigned id; std::vector<unsigned>* log; void** self;
	template<class X> void operator()(const List<X>& in, const List<X>& out) {
		using NT = Node<Expression<Fn>, EmptyEdge>; NT* n = (NT*)self[id];
		if constexpr (args == ExprArgs::FunctionPtrLists) {
			vc_assert(in.size() == n->inputs().size() && out.size() == n->outputs().size(), "expression receives its inputs and outputs");
			auto a = in.begin(); for (auto& e : n->inputs()) { vc_assert(*a == &e.pTarget->data().get(), "inputs in order"); ++a; }
			auto b = out.begin(); for (auto& e : n->outputs()) { vc_assert(*b == &e.pTarget->data().get(), "outputs in order"); ++b; }
		} else vc_assert(&in == &n->inputs() && &out == &n->outputs(), "expression receives its edges");
		log->push_back(id);
	}
};
template<ExprArgs args> static void evalGraph()
{
	using F = Fn<args>; using EG = ExprGraph<F>; GAlloc A; EG g(&A); unsigned n = 1 + (unsigned)vc_below("n", 7);
	std::vector<unsigned> log; using NT = typename EG::NodeType; NT* at[8]; void* raw[8]; std::vector<std::pair<unsigned, unsigned>> es;
	for (unsigned i = 0; i < n; ++i) { at[i] = g.emplace(F{i, &log, raw}); raw[i] = at[i]; }
	unsigned ne = (unsigned)vc_below("edges", 12);
	for (unsigned k = 0; k < ne && n > 1; ++k) { unsigned f = (unsigned)vc_below("f", n - 1), t = f + 1 + (unsigned)vc_below("t", n - 1 - f); at[f]->connect(at[t]); es.push_back({f, t}); }
	for (unsigned round = 0; round < 2; ++round) {
		std::vector<bool> need(n, false), done(n, false); log.clear();
		unsigned calls = 1 + (unsigned)vc_below("calls", 3);
		for (unsigned c = 0; c < calls; ++c) {
			unsigned x = (unsigned)vc_below("exit", n); need[x] = true;
			for (unsigned i = n; i-- > 0;) for (auto& e : es) if (e.second == i && need[i]) need[e.first] = true;
			EG::template evaluateRecursive<args>(at[x]);
			unsigned cnt = 0; for (unsigned i = 0; i < n; ++i) { cnt += need[i]; vc_assert(at[i]->data().evaluated() == need[i], "exactly the nodes the exit depends on are evaluated"); }
			vc_assert(log.size() == cnt, "each node is evaluated exactly once");
		}
		for (unsigned k : log) { vc_assert(!done[k], "each node is evaluated exactly once"); for (auto& e : es) if (e.second == k) vc_assert(done[e.first], "inputs are evaluated first"); done[k] = true; }
		g.resetEvaluationState(); for (unsigned i = 0; i < n; ++i) vc_assert(!at[i]->data().evaluated(), "reset");
		// explicit order: every node of the list once, up to a repeated one
		log.clear(); List<NT*> order(&A); std::vector<unsigned> want; bool dup = false; unsigned len = (unsigned)vc_below("len", n + 2);
		for (unsigned k = 0; k < len; ++k) { unsigned x = (unsigned)vc_below("x", n); order.emplace_back(at[x]); if (!dup) { for (unsigned y : want) dup |= y == x; if (!dup) want.push_back(x); } }
		bool r = g.template evaluateExplicit<args>(order);
		vc_assert(r == !dup && log == want, "explicit evaluation follows the given order and reports a repeated node");
		g.resetEvaluationState();
	}
	vc_cover("end");
}
VC_BOUNDED(graph_eval_ptrs) { evalGraph<ExprArgs::FunctionPtrLists>(); }
VC_BOUNDED(graph_eval_edges) { evalGraph<ExprArgs::EdgeLists>(); }
#endif
