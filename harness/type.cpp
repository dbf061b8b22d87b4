// Contracts of Type: structural equality, copies, builders and the shape queries.
// List<Type> (copy, assignment, comparison, clear) is used by its contract (C01); recursion into subtypes by the contract being shown.
#include <vector>
#include <string>
#include "vc_list.h"
#include "spvgentwo/Type.h"
using Op = spv::Op; using TL = List<Type>; using TE = Entry<Type>;
#ifdef VC_SYMBOLIC
static unsigned typeOp() { return vc_u32("op"); }
static unsigned width() { return vc_u32("w"); }
static unsigned en(const char* n, unsigned) { return vc_u32(n); }
#else
static const unsigned typeOps[] = { 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 322, 327, 4472, 5341 };
static unsigned typeOp() { unsigned k = (unsigned)vc_below("op", 40); return k < 25 ? typeOps[k] : typeOps[1 + k % 5]; }
static unsigned width() { static const unsigned w[] = { 0, 2, 3, 4, 8, 16, 32, 64 }; return w[vc_below("w", 8)]; }
static unsigned en(const char* n, unsigned m) { return (unsigned)vc_below(n, m); }
#endif
// everything a type is made of, except its subtypes
struct Flat {
	unsigned op, w, storage, dim, access, fmt, sampled; bool sign, arr, ms;
	static Flat of(const Type& t) { return { (unsigned)t.m_Type, t.m_IntWidth, (unsigned)t.m_StorageClass, (unsigned)t.m_ImgDimension, (unsigned)t.m_AccessQualifier, (unsigned)t.m_ImgFormat, (unsigned)t.m_ImgSamplerAccess, t.m_IntSign, t.m_ImgArray, t.m_ImgMultiSampled }; }
	bool operator==(const Flat& o) const { return op == o.op && w == o.w && storage == o.storage && dim == o.dim && access == o.access && fmt == o.fmt && sampled == o.sampled && sign == o.sign && arr == o.arr && ms == o.ms; }
};
static void any(Type& t)
{
	t.m_Type = (Op)typeOp(); t.m_IntWidth = width(); t.m_IntSign = vc_bool("sign"); t.m_StorageClass = (spv::StorageClass)en("storage", 4); t.m_ImgDimension = (spv::Dim)en("dim", 3);
	t.m_ImgArray = vc_bool("array"); t.m_ImgMultiSampled = vc_bool("ms"); t.m_ImgSamplerAccess = (SamplerImageAccess)en("sampled", 3); t.m_ImgFormat = (spv::ImageFormat)en("format", 3); t.m_AccessQualifier = (spv::AccessQualifier)en("access", 3);
}
// the subtypes of a type as a value: symbolically the list contracts carry one identity per list value
#ifdef VC_SYMBOLIC
static unsigned eqCalls; static bool eqResult; static const TL* eqA; static const TL* eqB;
extern "C" bool ct_list_eq(const TL* a, const TL* b) { ++eqCalls; eqA = a; eqB = b; return eqResult; }
extern "C" void ct_list_copy(TL* d, const TL* s) { d->m_pAllocator = s->m_pAllocator; d->m_pBegin = s->m_pBegin; d->m_pLast = s->m_pLast; d->m_Elements = s->m_Elements; }
extern "C" void ct_list_move(TL* d, TL* s) { ct_list_copy(d, s); s->m_pBegin = nullptr; s->m_pLast = nullptr; s->m_Elements = 0; }
extern "C" TL* ct_list_assign(TL* d, const TL* s) { d->m_pBegin = s->m_pBegin; d->m_pLast = s->m_pLast; d->m_Elements = s->m_Elements; return d; }
extern "C" TL* ct_list_moveassign(TL* d, TL* s) { ct_list_move(d, s); return d; }
extern "C" void ct_list_clear(TL* d) { d->m_pBegin = nullptr; d->m_pLast = nullptr; d->m_Elements = 0; }
extern "C" void ct_list_destroy(TL*) {}
struct Subs { TE* b; TE* l; uint64_t n; };
static Subs subs(const Type& t) { return { t.m_subTypes.m_pBegin, t.m_subTypes.m_pLast, t.m_subTypes.m_Elements }; }
static bool same(const Subs& a, const Subs& b) { return a.b == b.b && a.l == b.l && a.n == b.n; }
static bool none(const Subs& a) { return a.b == nullptr && a.l == nullptr && a.n == 0; }
static void anySubs(Type& t, IAllocator* a) { t.m_subTypes.m_pAllocator = a; t.m_subTypes.m_pBegin = (TE*)vc_opaque("first"); t.m_subTypes.m_pLast = (TE*)vc_opaque("last"); t.m_subTypes.m_Elements = vc_u64("n"); }
#else
static std::string text(const Type& t)
{
	Flat f = Flat::of(t); std::string s = std::to_string(f.op);
	for (unsigned x : { f.w, f.storage, f.dim, f.access, f.fmt, f.sampled, (unsigned)f.sign, (unsigned)f.arr, (unsigned)f.ms }) s += "," + std::to_string(x);
	s += "("; for (auto& x : t.m_subTypes) s += text(x); return s + ")";
}
using Subs = std::vector<std::string>;
static Subs subs(const Type& t) { Subs s; for (auto& x : t.m_subTypes) s.push_back(text(x)); return s; }
static bool same(const Subs& a, const Subs& b) { return a == b; }
static bool none(const Subs& a) { return a.empty(); }
static void anySubs(Type& t, IAllocator* a, unsigned depth = 0) { t.m_subTypes.m_pAllocator = a; uint64_t n = depth > 2 ? 0 : vc_below("subs", 4); for (uint64_t i = 0; i < n; ++i) { Type& s = t.m_subTypes.emplace_back(a); any(s); anySubs(s, a, depth + 1); } }
#endif
#define VC_TYPE(t) VcBox<Type> t##box((IAllocator*)&alloc); Type& t = t##box.x; any(t); anySubs(t, &alloc)
VC_HARNESS(type_equal)
{
	VcAllocator alloc; VC_TYPE(a); VC_TYPE(b); Flat x = Flat::of(a), y = Flat::of(b);
#ifdef VC_SYMBOLIC
	eqResult = vc_bool("equal lists"); eqCalls = 0;
	bool r = a == b, s = a != b;
	vc_assert(r == (x == y && eqResult), "equal exactly when all fields and the subtypes are");
	vc_assert(s == !r, "unequal is the negation");
	if (eqCalls) vc_assert((eqA == &a.m_subTypes && eqB == &b.m_subTypes) || (eqA == &b.m_subTypes && eqB == &a.m_subTypes), "the subtypes of the two are compared");
	if (x == y) vc_assert(eqCalls == 2, "the subtypes are compared");
#else
	if (vc_bool("almost")) { b = a; switch (vc_below("field", 13)) { case 0: b.m_IntWidth ^= 1; break; case 1: b.m_IntSign ^= 1; break; case 2: b.m_StorageClass = (spv::StorageClass)9; break; case 3: b.m_ImgDimension = (spv::Dim)5; break; case 4: b.m_ImgArray ^= 1; break; case 5: b.m_ImgMultiSampled ^= 1; break; case 6: b.m_ImgSamplerAccess = (SamplerImageAccess)7; break; case 7: b.m_ImgFormat = (spv::ImageFormat)8; break; case 8: b.m_AccessQualifier = (spv::AccessQualifier)7; break; case 9: b.Member().Void(); break; case 10: b.m_Type = Op::OpTypeOpaque; default: break; } }
	bool want = text(a) == text(b);
	vc_assert((a == b) == want && (a != b) == !want, "equal exactly when all fields and the subtypes are");
	if (want) vc_assert(Hasher<Type>()(a, detail::Offset) == Hasher<Type>()(b, detail::Offset), "equal types hash equally");
	else vc_assert(Hasher<Type>()(a, detail::Offset) != Hasher<Type>()(b, detail::Offset), "different types do not");
	(void)x; (void)y;
#endif
	vc_cover("end");
}
VC_HARNESS(type_op_compare)
{
	VcAllocator alloc; VC_TYPE(a); unsigned o = typeOp();
	vc_assert((a == (Op)o) == ((unsigned)a.m_Type == o) && (a != (Op)o) == ((unsigned)a.m_Type != o) && (unsigned)a.getType() == (unsigned)a.m_Type, "opcode");
	vc_cover("end");
}
VC_HARNESS(type_copy)
{
	VcAllocator alloc; VC_TYPE(a); Flat x = Flat::of(a); Subs s = subs(a);
	VcBox<Type> bb(static_cast<const Type&>(a)); Type& b = bb.x;
	vc_assert(Flat::of(b) == x && same(subs(b), s), "a copy is built the same way");
	vc_assert(Flat::of(a) == x && same(subs(a), s), "the source is unchanged");
	vc_cover("end");
}
VC_HARNESS(type_move)
{
	VcAllocator alloc; VC_TYPE(a); Flat x = Flat::of(a); Subs s = subs(a);
	VcBox<Type> bb(stdrep::move(a)); Type& b = bb.x;
	vc_assert(Flat::of(b) == x && same(subs(b), s), "the moved type is built the same way");
	vc_assert(none(subs(a)), "the source gave its subtypes away");
	vc_cover("end");
}
VC_HARNESS(type_assign)
{
	VcAllocator alloc; VC_TYPE(a); VC_TYPE(b); Flat x = Flat::of(a); Subs s = subs(a);
	Type* r = &(b = static_cast<const Type&>(a));
	vc_assert(r == &b && Flat::of(b) == x && same(subs(b), s), "a copy is built the same way");
	vc_assert(Flat::of(a) == x && same(subs(a), s), "the source is unchanged");
	Type& c = a; a = static_cast<const Type&>(c); vc_assert(Flat::of(a) == x && same(subs(a), s), "self assignment");
	vc_cover("end");
}
VC_HARNESS(type_move_assign)
{
	VcAllocator alloc; VC_TYPE(a); VC_TYPE(b); Flat x = Flat::of(a); Subs s = subs(a);
	Type* r = &(b = stdrep::move(a));
	vc_assert(r == &b && Flat::of(b) == x && same(subs(b), s), "the moved type is built the same way");
	Type& c = b; b = stdrep::move(c); vc_assert(Flat::of(b) == x && same(subs(b), s), "self assignment");
	vc_cover("end");
}
// builders: whatever the type was before, it is now exactly what was asked for
static const Flat plain(unsigned op, unsigned w = 0) { return { op, w, (unsigned)spv::StorageClass::Generic, (unsigned)spv::Dim::Max, (unsigned)spv::AccessQualifier::Max, (unsigned)spv::ImageFormat::Unknown, (unsigned)SamplerImageAccess::Unknown, false, false, false }; }
VC_HARNESS(type_build_simple)
{
	VcAllocator alloc; VC_TYPE(a); unsigned k = (unsigned)vc_below("k", 17); unsigned w = vc_u32("bits"), st = vc_u32("sc"); bool sg = vc_bool("sg"); Flat f = plain(19); Type* r = nullptr;
	switch (k)
	{
	case 0: r = &a.Void(); break;
	case 1: r = &a.Bool(); f.op = 20; break;
	case 2: r = &a.Int(w, sg); f.op = 21; f.w = w; f.sign = sg; break;
	case 3: r = &a.UInt(w); f.op = 21; f.w = w; break;
	case 4: r = &a.Float(w); f.op = 22; f.w = w; break;
	case 5: r = &a.Double(); f.op = 22; f.w = 64; break;
	case 6: r = &a.Struct(); f.op = 30; break;
	case 7: r = &a.Function(); f.op = 33; break;
	case 8: r = &a.Sampler(); f.op = 26; break;
	case 9: r = &a.Event(); f.op = 34; break;
	case 10: r = &a.DeviceEvent(); f.op = 35; break;
	case 11: r = &a.ReserveId(); f.op = 36; break;
	case 12: r = &a.Queue(); f.op = 37; break;
	case 13: r = &a.Pipe(); f.op = 38; break;
	case 14: r = &a.PipeStorage(); f.op = 322; break;
	case 15: r = &a.RayQueryKHR(); f.op = 4472; break;
	default: r = &a.AccelerationStructureKHR(); f.op = 5341; break;
	}
	vc_assert(r == &a && Flat::of(a) == f && none(subs(a)), "the type is exactly what was asked for"); (void)st;
	vc_cover("end");
}
static void oneSub(const Type& a, const Flat& f, const Subs& s, const Flat& want, bool has)
{
	vc_assert(Flat::of(a) == want, "the type is what was asked for");
	if (has) { vc_assert(a.m_subTypes.size() == 1 && Flat::of(a.front()) == f && same(subs(a.front()), s), "its only subtype is a copy"); vc_assert(&a.front() == &a.back(), "one subtype"); }
	else vc_assert(none(subs(a)), "no subtype");
}
VC_HARNESS(type_build_compound)
{
	VcAllocator alloc; VC_TYPE(a); VC_TYPE(e); unsigned k = (unsigned)vc_below("k", 9); unsigned n = vc_u32("count"), st = vc_u32("sc"); bool has = vc_bool("has"); Flat f = plain(19), x = Flat::of(e); Subs s = subs(e); Type* r = nullptr; const Type* p = has ? &e : nullptr;
	switch (k)
	{
	case 0: r = &a.Struct(p); f.op = 30; break;
	case 1: r = &a.Array(n, p); f.op = 28; f.w = n; break;
	case 2: r = &a.RuntimeArray(p); f.op = 29; break;
	case 3: r = &a.Pointer((spv::StorageClass)st, p); f.op = 32; f.storage = st; break;
	case 4: r = &a.ForwardPointer((spv::StorageClass)st, p); f.op = 39; f.storage = st; break;
	case 5: r = &a.SampledImage(p); f.op = 27; break;
	case 6: r = &a.Vector(n, p); f.op = 23; f.w = n; break;
	case 7: r = &a.Matrix(n, p); f.op = 24; f.w = n; break;
	default: r = &a.NamedBarrier(); f.op = 327; has = false; break;
	}
	vc_assert(r == &a, "the type itself is returned"); oneSub(a, x, s, f, has);
	vc_assert(Flat::of(e) == x && same(subs(e), s), "the element type is unchanged");
	vc_cover("end");
}
VC_HARNESS(type_wrap)
{
	VcAllocator alloc; VC_TYPE(e); unsigned k = (unsigned)vc_below("k", 7); unsigned n = vc_u32("count"), st = vc_u32("sc"); Flat f = plain(19), x = Flat::of(e); Subs s = subs(e); bool has = true;
	auto go = [&](Type&& made) { VcBox<Type> m(stdrep::move(made)); oneSub(m.x, x, s, f, has); vc_assert(m.x.m_subTypes.getAllocator() == (IAllocator*)&alloc, "same allocator"); };
	switch (k)
	{
	case 0: f.op = 32; f.storage = st; go(e.wrapPointer((spv::StorageClass)st)); break;
	case 1: f.op = 23; f.w = n; go(e.wrapVector(n)); break;
	case 2: f.op = 24; f.w = n; go(e.wrapMatrix(n)); break;
	case 3: f.op = 28; f.w = n; go(e.wrapArray(n)); break;
	case 4: f.op = 30; go(e.wrapStruct()); break;
	case 5: f.op = st; go(e.wrap((Op)st)); break;
	default: f.op = 19; has = false; go(e.New()); break;
	}
	vc_assert(Flat::of(e) == x && same(subs(e), s), "the wrapped type is unchanged");
	vc_cover("end");
}
VC_HARNESS(type_build_matrix)
{
	VcAllocator alloc; VC_TYPE(a); VC_TYPE(e); unsigned c = vc_u32("cols"), r = vc_u32("rows"); Flat x = Flat::of(e); Subs s = subs(e);
	a.Matrix(c, r, &e);
	vc_assert(Flat::of(a) == plain(24, c) && a.m_subTypes.size() == 1, "a matrix of columns");
	vc_assert(Flat::of(a.front()) == plain(23, r) && a.front().m_subTypes.size() == 1, "of vectors as long as a column");
	vc_assert(Flat::of(a.front().front()) == x && same(subs(a.front().front()), s), "of components");
	vc_assert(a.isMatrix() && a.getMatrixColumnCount() == c && a.getMatrixRowCount() == r, "shape");
	vc_cover("end");
}
VC_HARNESS(type_build_image)
{
	VcAllocator alloc; VC_TYPE(a); dyn_image_t d; unsigned bop = vc_bool("f") ? 22u : 21u;
	d.sampledType = dyn_scalar_t{ (Op)bop, width(), vc_bool("s") }; d.dimension = (spv::Dim)en("dim2", 7); d.depth = en("depth", 3); d.array = vc_bool("a2"); d.multiSampled = vc_bool("m2"); d.samplerAccess = (SamplerImageAccess)en("sa2", 3); d.format = (spv::ImageFormat)en("f2", 40); d.accessQualifier = (spv::AccessQualifier)en("q2", 4);
	bool sampled = vc_bool("sampledImage"); if (sampled) a.SampledImage(d); else a.Image(d);
	const Type& i = sampled ? a.front() : a; if (sampled) vc_assert(Flat::of(a) == plain(27) && a.m_subTypes.size() == 1, "a sampled image of one image");
	Flat f = plain(25, d.depth); f.dim = (unsigned)d.dimension; f.arr = d.array; f.ms = d.multiSampled; f.sampled = (unsigned)d.samplerAccess; f.fmt = (unsigned)d.format; f.access = (unsigned)d.accessQualifier;
	vc_assert(Flat::of(i) == f && i.m_subTypes.size() == 1, "the image is what was asked for");
	Flat c = plain(bop, d.sampledType.bits); c.sign = bop == 21 && d.sampledType.sign;   // only integers have a sign
	vc_assert(Flat::of(i.front()) == c && none(subs(i.front())), "of the sampled type");
	vc_assert(i.isImage() && i.getImageDimension() == d.dimension && i.getImageDepth() == d.depth && i.getImageArray() == d.array && i.getImageMultiSampled() == d.multiSampled && i.getImageSamplerAccess() == d.samplerAccess && i.getImageFormat() == d.format && i.getAccessQualifier() == d.accessQualifier, "image queries");
	vc_cover("end");
}
VC_HARNESS(type_build_dyn)
{
	VcAllocator alloc; VC_TYPE(a); dyn_vector_t v; v.elements = vc_u32("n"); v.elementType = dyn_scalar_t{ (Op)(20 + vc_below("b", 3)), width(), vc_bool("s") }; unsigned cols = vc_u32("cols"); bool mat = vc_bool("mat");
	if (mat) { dyn_matrix_t m; m.columnType = v; m.columns = cols; a.Matrix(m); vc_assert(Flat::of(a) == plain(24, cols) && a.m_subTypes.size() == 1, "a matrix"); } else a.Vector(v);
	const Type& w = mat ? a.front() : a; unsigned eb = (unsigned)v.elementType.baseType; Flat c = plain(eb, eb == 20 ? 0 : v.elementType.bits); c.sign = eb == 21 && v.elementType.sign;   // a bool has no width
	vc_assert(Flat::of(w) == plain(23, v.elements) && w.m_subTypes.size() == 1 && Flat::of(w.front()) == c && none(subs(w.front())), "a vector");
	vc_cover("end");
}
static void members(Type& a, const Flat* f, uint64_t n) { auto it = a.begin(); for (uint64_t i = 0; i < n; ++i, ++it) vc_assert(it != nullptr && Flat::of(*it) == f[i], "members in order"); vc_assert(it == nullptr, "no more members"); }
VC_HARNESS(type_members)
{
	VcAllocator alloc; VC_TYPE(a); VC_TYPE(e); VC_TYPE(g); VC_TYPE(h); Flat f[4] = { Flat::of(e), Flat::of(g), Flat::of(h), plain(22, 32) };
	a.Struct(e, g, h); vc_assert(Flat::of(a) == plain(30) && a.m_subTypes.size() == 3, "a structure"); members(a, f, 3);
	a.Member().Float(); vc_assert(a.m_subTypes.size() == 4, "one more member"); members(a, f, 4);
	Type* r = &a.MemberM(&e); vc_assert(r == &a && a.m_subTypes.size() == 5 && Flat::of(a.back()) == f[0], "a member is appended");
	a.IntM(16, false); vc_assert(Flat::of(a.back()) == plain(21, 16) && a.m_subTypes.size() == 6, "member"); a.DoubleM(); vc_assert(Flat::of(a.back()) == plain(22, 64), "member"); a.BoolM(); vc_assert(Flat::of(a.back()) == plain(20), "member"); a.VoidM(); vc_assert(Flat::of(a.back()) == plain(19) && a.m_subTypes.size() == 9, "member");
	vc_cover("end");
}
template<class X> static void fund(Flat f) { VcAllocator alloc; VC_TYPE(a); a.make<X>(); vc_assert(Flat::of(a) == f && none(subs(a)), "fundamental type"); }
static Flat in(unsigned w, bool s) { Flat f = plain(21, w); f.sign = s; return f; }
VC_HARNESS(type_fundamental)
{
	fund<void>(plain(19)); fund<bool>(plain(20)); fund<char>(in(8, true)); fund<unsigned char>(in(8, false)); fund<short>(in(16, true)); fund<unsigned short>(in(16, false)); fund<int>(in(32, true)); fund<unsigned>(in(32, false));
	fund<long long>(in(64, true)); fund<unsigned long long>(in(64, false)); fund<float>(plain(22, 32)); fund<double>(plain(22, 64));
	fund<sampler_t>(plain(26)); fund<event_t>(plain(34)); fund<device_event_t>(plain(35)); fund<reserve_id_t>(plain(36)); fund<queue_t>(plain(37)); fund<pipe_t>(plain(38)); fund<pipe_storage_t>(plain(322)); fund<named_barrier_t>(plain(327)); fund<ray_query_khr_t>(plain(4472)); fund<acceleration_structure_khr_t>(plain(5341));
	vc_cover("end");
}
VC_HARNESS(type_composite)
{
	VcAllocator alloc; VC_TYPE(a);
	a.make<vector_t<int, 3>>(); vc_assert(Flat::of(a) == plain(23, 3) && a.m_subTypes.size() == 1 && Flat::of(a.front()) == in(32, true) && none(subs(a.front())), "vector");
	a.make<matrix_t<float, 4, 2>>(); vc_assert(Flat::of(a) == plain(24, 4) && Flat::of(a.front()) == plain(23, 2) && Flat::of(a.front().front()) == plain(22, 32), "matrix of 4 columns of 2 rows");
	a.make<array_t<unsigned char, 7>>(); vc_assert(Flat::of(a) == plain(28, 7) && a.m_subTypes.size() == 1 && Flat::of(a.front()) == in(8, false), "array");
	unsigned st = vc_u32("sc"); a.make<array_t<bool, 2>*>((spv::StorageClass)st); Flat p = plain(32); p.storage = st;
	vc_assert(Flat::of(a) == p && a.m_subTypes.size() == 1 && Flat::of(a.front()) == plain(28, 2) && Flat::of(a.front().front()) == plain(20), "pointer");
	vc_cover("end");
}
// queries on types as the builders make them: scalars have no subtypes, vectors have one scalar, matrices one vector
struct Shape { unsigned op, w, sub, subw, bop, bw; bool sign, bsign, subsign; unsigned storage; };
static Shape shape(Type& a, IAllocator* al)
{
	any(a); a.m_subTypes.m_pAllocator = al; Shape s{}; Flat f = Flat::of(a);
	if (f.op == 23 || f.op == 24 || (f.op != 20 && f.op != 21 && f.op != 22 && f.op != 19 && vc_bool("subtype")))
	{
		Type& b = a.m_subTypes.emplace_back(al); any(b); Flat g = Flat::of(b); if (f.op == 23) vc_assume(g.op >= 20 && g.op <= 22); if (f.op == 24) vc_assume(g.op == 23); s.sub = g.op; s.subw = g.w; s.subsign = g.sign;
		if (g.op == 23 || (g.op != 20 && g.op != 21 && g.op != 22 && g.op != 19 && g.op != 24 && vc_bool("subsub")))
		{
			Type& c = b.m_subTypes.emplace_back(al); any(c); Flat h = Flat::of(c); if (g.op == 23) vc_assume(h.op >= 20 && h.op <= 22); s.bop = h.op; s.bw = h.w; s.bsign = h.sign;
			vc_assume(h.op != 23 && h.op != 24);
		}
		else { vc_assume(g.op != 23 && g.op != 24); s.bop = g.op; s.bw = g.w; s.bsign = g.sign; }
	}
	else { s.bop = f.op; s.bw = f.w; s.bsign = f.sign; }
	s.op = f.op; s.w = f.w; s.sign = f.sign; s.storage = f.storage; return s;
}
static unsigned baseOp() { return 20 + (unsigned)vc_below("base", 3); }
static Sign anySign(const Shape& s) { unsigned k = (unsigned)vc_below("signq", 3); if (k) vc_assume(s.bop == 21); return k == 0 ? Sign::Any : k == 1 ? Sign::Signed : Sign::Unsigned; }
static bool sg(const Shape& s, Sign q) { return q == Sign::Any || (q == Sign::Signed) == s.bsign; }
#define VC_SHAPE(a, s) VcBox<Type> a##box((IAllocator*)&alloc); Type& a = a##box.x; Shape s = shape(a, &alloc)
VC_HARNESS(type_query_kind)
{
	VcAllocator alloc; VC_TYPE(a); unsigned o = (unsigned)a.m_Type, st = en("sc", 4);
	vc_assert(a.isVoid() == (o == 19) && a.isBool() == (o == 20) && a.isFloat() == (o == 22) && a.isVector() == (o == 23) && a.isMatrix() == (o == 24) && a.isImage() == (o == 25) && a.isSampler() == (o == 26) && a.isSampledImage() == (o == 27), "kind");
	vc_assert(a.isArray() == (o == 28) && a.isRuntimeArray() == (o == 29) && a.isStruct() == (o == 30) && a.isOpaque() == (o == 31) && a.isPointer() == (o == 32) && a.isFunction() == (o == 33) && a.isEvent() == (o == 34) && a.isDeviceEvent() == (o == 35) && a.isReservedId() == (o == 36), "kind");
	vc_assert(a.isQueue() == (o == 37) && a.isPipe() == (o == 38) && a.isForwardPointer() == (o == 39) && a.isPipeStorage() == (o == 322) && a.isRayQueryKHR() == (o == 4472) && a.isAccelerationStructure() == (o == 5341), "kind");
	vc_assert(a.isPointer((spv::StorageClass)st) == (o == 32 && (unsigned)a.m_StorageClass == st) && a.isForwardPointer((spv::StorageClass)st) == (o == 39 && (unsigned)a.m_StorageClass == st), "pointers with a storage class");
	vc_assert(a.isAggregate() == (o == 30 || o == 28) && a.isComposite() == (o == 30 || o == 28 || o == 24 || o == 23), "aggregates are structures and arrays; vectors and matrices are composite");
	vc_cover("end");
}
VC_HARNESS(type_query_scalar)
{
	VcAllocator alloc; VC_SHAPE(a, s); unsigned w = width(); Sign q = anySign(s);
	vc_assert(a.isInt(w, q) == (s.op == 21 && (w == 0 || s.w == w) && sg(s, q)), "integers of a width and sign");
	vc_assert(a.isInt() == (s.op == 21) && a.isUInt(w) == (s.op == 21 && (w == 0 || s.w == w) && !s.sign) && a.isSInt(w) == (s.op == 21 && (w == 0 || s.w == w) && s.sign), "integers of a width and sign");
	vc_assert(a.isFloat(w) == (s.op == 22 && (w == 0 || s.w == w)) && a.isF16() == (s.op == 22 && s.w == 16) && a.isF32() == (s.op == 22 && s.w == 32) && a.isF64() == (s.op == 22 && s.w == 64), "floats of a width");
	bool i = s.op == 21; unsigned k = s.w;
	vc_assert(a.isI8() == (i && k == 8) && a.isI16() == (i && k == 16) && a.isI32() == (i && k == 32) && a.isI64() == (i && k == 64), "integers");
	vc_assert(a.isU8() == (i && k == 8 && !s.sign) && a.isU16() == (i && k == 16 && !s.sign) && a.isU32() == (i && k == 32 && !s.sign) && a.isU64() == (i && k == 64 && !s.sign), "unsigned integers");
	vc_assert(a.isS8() == (i && k == 8 && s.sign) && a.isS16() == (i && k == 16 && s.sign) && a.isS32() == (i && k == 32 && s.sign) && a.isS64() == (i && k == 64 && s.sign), "signed integers");
	vc_assert(a.isNumerial() == (s.op == 21 || s.op == 22) && a.isScalar() == (s.op >= 20 && s.op <= 22), "scalars");
	vc_assert(a.isSigned() == (s.bop == 21 && s.bsign) && a.isUnsigned() == (s.bop == 21 && !s.bsign), "sign of the component");
	vc_assert((unsigned)a.getBaseTypeOp() == s.bop && a.getBaseType().getIntWidth() == s.bw && a.isBaseTypeOf((Op)s.bop), "component type");
	vc_assert(a.getScalarOrVectorLength() == (s.op >= 20 && s.op <= 22 ? 1u : s.op == 23 ? s.w : 0u), "number of components");
	vc_assert(a.getMatrixRowCount() == (s.op == 24 ? s.subw : 0u), "number of rows");
	vc_cover("end");
}
VC_HARNESS(type_query_vector)
{
	VcAllocator alloc; VC_SHAPE(a, s); unsigned n = width(), w = width(), b = baseOp(); Sign q = anySign(s);
	bool v = s.op == 23, len = n == 0 || s.w == n, cw = w == 0 || s.subw == w;
	vc_assert(a.isVectorOf((Op)b, n, w, q) == (v && s.sub == b && len && cw && sg(s, q)), "vector of components, length and width");
	vc_assert(a.isVectorOfLength(n, w, q) == (v && len && cw && sg(s, q)), "vector of length");
	vc_assert(a.isVectorOfInt(n, w, q) == (v && s.sub == 21 && len && cw && sg(s, q)) && a.isVectorOfSInt(n, w) == (v && s.sub == 21 && len && cw && s.subsign) && a.isVectorOfUInt(n, w) == (v && s.sub == 21 && len && cw && !s.subsign), "vector of integers");
	vc_assert(a.isVectorOfFloat(n, w) == (v && s.sub == 22 && len && cw) && a.isVectorOfBool(n) == (v && s.sub == 20 && len), "vector of floats, of booleans");
	bool sc = s.op == b && (w == 0 || s.w == w) && sg(s, q);
	vc_assert(a.isScalarOrVectorOf((Op)b, n, w, q) == (sc || (v && s.sub == b && len && cw && sg(s, q))), "scalar or vector");
	bool nu = (s.op == 21 || s.op == 22) && (w == 0 || s.w == w) && sg(s, q);
	vc_assert(a.isNumericalScalarOrVector(n, w, q) == (nu || (v && (s.sub == 21 || s.sub == 22) && len && cw && sg(s, q))), "numerical scalar or vector");
	vc_cover("end");
}
VC_HARNESS(type_query_matrix)
{
	VcAllocator alloc; VC_SHAPE(a, s); unsigned c = width(), r = width(), w = width(), b = baseOp(); Sign q = anySign(s);
	bool m = s.op == 24, dim = (c == 0 || s.w == c) && (r == 0 || s.subw == r) && (w == 0 || s.bw == w);
	vc_assert(a.isMatrixOf((Op)b, c, r, w, q) == (m && s.bop == b && dim && sg(s, q)), "matrix of components, columns, rows, width");
	vc_assert(a.isMatrixOfFloat(c, r, w) == (m && s.bop == 22 && dim) && a.isMatrixOfInt(c, r, w, q) == (m && s.bop == 21 && dim && sg(s, q)), "matrix of floats, of integers");
	vc_assert(a.isSqareMatrix() == (m && s.w == s.subw) && a.isSqareMatrixOf((Op)b) == (m && s.w == s.subw && s.bop == b), "square matrices");
	vc_cover("end");
}
VC_HARNESS(type_query_pair)
{
	VcAllocator alloc; VC_SHAPE(a, s); VC_SHAPE(b, t); unsigned o = baseOp(); bool sw = vc_bool("sameWidth");
	bool vv = s.op == 23 && t.op == 23 && s.w == t.w, ss = s.op >= 20 && s.op <= 22 && t.op >= 20 && t.op <= 22, w = !sw || s.bw == t.bw;
	vc_assert(a.hasSameVectorLength(b) == vv && a.hasSameVectorLength(b, (Op)o) == (vv && s.sub == o && t.sub == o), "vectors of the same length");
	vc_assert(a.isScalarOrVectorOfSameLength(b, sw) == (w && (vv || ss)), "scalars, or vectors of the same length");
	vc_assert(a.isScalarOrVectorOfSameLength((Op)o, b, sw) == (w && ((vv && s.sub == o && t.sub == o) || (s.op == o && t.op == o))), "scalars, or vectors of the same length, of one type");
	bool n1 = s.bop == 21 || s.bop == 22, n2 = t.bop == 21 || t.bop == 22;
	vc_assert(a.hasSameComponentWidth(b) == (n1 && n2 && s.bw == t.bw), "components of the same width");
	vc_assert(a.hasSameBase(b, true) == (s.bop == t.bop), "the same component opcode");
	vc_cover("end");
}
#ifdef VC_SYMBOLIC
// a type with any number of subtypes; each of them contains what is looked for, or not, by its own contract
struct Members {
	uint64_t n, fam; uint8_t* has; static Members* cur;
	Members(Type& t) { n = vc_len("subs"); fam = vc_family("subs", n, sizeof(TE)); vc_link(fam, __builtin_offsetof(TE, m_pPrev), __builtin_offsetof(TE, m_pNext)); has = (uint8_t*)vc_array("has", n, 1); TL& l = t.m_subTypes; l.m_pBegin = n ? (TE*)vc_node(fam, 0) : nullptr; l.m_pLast = n ? (TE*)vc_node(fam, n - 1) : nullptr; l.m_Elements = n; cur = this; }
	bool bit(uint64_t i) const { return (vc_inita8(has, i, 0) & 1) != 0; }
	const Type* at(uint64_t i) const { return &((TE*)vc_node(fam, i))->inner(); }
	uint64_t pos(const Type* t) const { return vc_pos(fam, (const TE*)((const char*)t - __builtin_offsetof(TE, m_data))); }
};
Members* Members::cur; static uint64_t found;
extern "C" bool ct_contains_op(const Type* t, unsigned) { uint64_t i = Members::cur->pos(t); bool r = Members::cur->bit(i); if (r) found = i; return r; }
extern "C" bool ct_contains(const Type* t, const Type*) { uint64_t i = Members::cur->pos(t); bool r = Members::cur->bit(i); if (r) found = i; return r; }
#else
static bool containsText(const Type& t, const std::string& s) { if (text(t) == s) return true; for (auto& x : t.m_subTypes) if (containsText(x, s)) return true; return false; }
static bool containsOp(const Type& t, unsigned o) { if ((unsigned)t.m_Type == o) return true; for (auto& x : t.m_subTypes) if (containsOp(x, o)) return true; return false; }
#endif
VC_HARNESS(type_contains_op)
{
	VcAllocator alloc; VcBox<Type> ab((IAllocator*)&alloc); Type& a = ab.x; any(a); unsigned o = typeOp();
#ifdef VC_SYMBOLIC
	Members m(a); found = ~0ull;
	bool r = a.containsType((Op)o);
	if (r) vc_assert((unsigned)a.m_Type == o || (found < m.n && m.bit(found)), "it, or a subtype, is of the kind");
	else { vc_assert((unsigned)a.m_Type != o, "it is not of the kind"); VC_FORALL(i, m.n) vc_assert(!m.bit(i), "no subtype contains the kind"); }
#else
	anySubs(a, &alloc); vc_assert(a.containsType((Op)o) == containsOp(a, o), "it, or a subtype, is of the kind");
#endif
	vc_cover("end");
}
VC_HARNESS(type_contains)
{
	VcAllocator alloc; VcBox<Type> ab((IAllocator*)&alloc); Type& a = ab.x; any(a); VC_TYPE(b);
#ifdef VC_SYMBOLIC
	Members m(a); found = ~0ull; eqResult = vc_bool("equal lists"); bool eq = Flat::of(a) == Flat::of(b) && eqResult;
	bool r = a.containsType(b);
	if (r) vc_assert(eq || (found < m.n && m.bit(found)), "it, or a subtype, is the type");
	else { vc_assert(!eq, "it is not the type"); VC_FORALL(i, m.n) vc_assert(!m.bit(i), "no subtype contains the type"); }
#else
	anySubs(a, &alloc); if (vc_bool("sub") && !a.m_subTypes.empty()) b = static_cast<const Type&>(a.back()); vc_assert(a.containsType(b) == containsText(a, text(b)), "it, or a subtype, is the type");
#endif
	vc_cover("end");
}
// the hash (which identifies a type in the tables) is computed from a sequence of values that determines the type; by induction
// over the nesting, types with equal sequences are equal
#ifdef VC_SYMBOLIC
static uint64_t feed[2][24], feeds[2], seed_, subAt[2]; static unsigned run_; static const Type* hashed[2]; static uint64_t subFam[2], subN[2];
static Hash64 fed(uint64_t v, Hash64 s) { vc_assert(s.value == seed_, "hashing goes on where it was"); vc_assert(subAt[run_] == 0, "fields come before the subtypes"); if (feeds[run_] < 24) feed[run_][feeds[run_]] = v; ++feeds[run_]; return Hash64(++seed_); }
extern "C" Hash64 ct_hash4(const unsigned* p, Hash64 s) { return fed(*p, s); }
extern "C" Hash64 ct_hash1(const uint8_t* p, Hash64 s) { return fed(*p, s); }
extern "C" Hash64 ct_hash8(const uint64_t* p, Hash64 s) { return fed(*p, s); }
extern "C" Hash64 ct_hash_sub(const void*, const Type* t, FNV1aHasher* h) { vc_assert(h->m_Hash.value == seed_, "hashing goes on where it was"); vc_assert(subAt[run_] < subN[run_] && t == &((TE*)vc_node(subFam[run_], subAt[run_]))->inner(), "every subtype is hashed, in order"); ++subAt[run_]; h->m_Hash = Hash64(++seed_); return h->m_Hash; }
static void hashOf(const Type& t, unsigned r) { run_ = r; feeds[r] = subAt[r] = 0; seed_ = detail::Offset.value; Hash64 h = hash(t); vc_assert(h.value == seed_, "the hash is that of the whole sequence"); vc_assert(subAt[r] == subN[r], "every subtype is hashed"); }
static void famSubs(Type& t, unsigned r) { subN[r] = vc_len("subs"); subFam[r] = vc_family("sub", subN[r], sizeof(TE)); vc_link(subFam[r], __builtin_offsetof(TE, m_pPrev), __builtin_offsetof(TE, m_pNext)); t.m_subTypes.m_pBegin = subN[r] ? (TE*)vc_node(subFam[r], 0) : nullptr; t.m_subTypes.m_pLast = subN[r] ? (TE*)vc_node(subFam[r], subN[r] - 1) : nullptr; t.m_subTypes.m_Elements = subN[r]; }
VC_HARNESS(type_hash)
{
	VcAllocator alloc; VcBox<Type> ab((IAllocator*)&alloc), bb((IAllocator*)&alloc); Type &a = ab.x, &b = bb.x; any(a); any(b); famSubs(a, 0); famSubs(b, 1); Flat x = Flat::of(a), y = Flat::of(b);
	hashOf(a, 0); hashOf(b, 1); uint64_t n = feeds[0] < feeds[1] ? feeds[0] : feeds[1]; vc_assert(n <= 24, "bookkeeping");
	bool eq = true; for (unsigned i = 0; i < 24; ++i) eq &= i >= n || feed[0][i] == feed[1][i];
	vc_assert(!eq || (x == y && subN[0] == subN[1] && feeds[0] == feeds[1]), "the values hashed determine the type");
	vc_assert(!(x == y && subN[0] == subN[1]) || eq, "equal types are hashed equally");
	vc_assert(Flat::of(a) == x && Flat::of(b) == y, "hashing changes nothing"); vc_cover("end");
}
#else
VC_HARNESS(type_hash)
{
	VcAllocator alloc; VC_TYPE(a); VC_TYPE(b);
	if (!vc_bool("other")) { b = a; Type* p = &b; while (!p->m_subTypes.empty() && vc_bool("deeper")) p = &p->front(); switch (vc_below("field", 14)) { case 0: p->m_IntWidth ^= 1; break; case 1: p->m_IntSign ^= 1; break; case 2: p->m_StorageClass = (spv::StorageClass)9; break; case 3: p->m_ImgDimension = (spv::Dim)5; break; case 4: p->m_ImgArray ^= 1; break; case 5: p->m_ImgMultiSampled ^= 1; break;
		case 6: p->m_ImgSamplerAccess = (SamplerImageAccess)2; break; case 7: p->m_ImgFormat = (spv::ImageFormat)9; break; case 8: p->m_AccessQualifier = (spv::AccessQualifier)1; break; case 9: p->m_Type = (Op)typeOp(); break; case 10: p->m_subTypes.emplace_back((IAllocator*)&alloc); break; case 11: if (!p->m_subTypes.empty()) { Type& f = p->m_subTypes.emplace_back((IAllocator*)&alloc); f.m_Type = Op::OpTypeVoid; } break; case 12: case 13: if (b.m_subTypes.size() > 1) { auto second = b.m_subTypes.begin() + 1u; Type t(*second); b.m_subTypes.erase(second); b.front().m_subTypes.emplace_back(t); } break; } }
	bool same = text(a) == text(b); vc_assert(same == (hash(a) == hash(b)), "types are equal exactly if their hashes are"); vc_cover("end");
}
#endif
#ifndef VC_SYMBOLIC
static const Type* walk(const Type& t, const std::vector<unsigned>& ix) { const Type* p = &t; for (unsigned i : ix) { if (i >= p->m_subTypes.size()) return nullptr; uint64_t k = 0; for (auto& s : p->m_subTypes) if (k++ == i) { p = &s; break; } } return p; }
VC_BOUNDED(type_subtype)
{
	VcAllocator alloc; VC_TYPE(a); std::vector<unsigned> ix; uint64_t n = 1 + vc_below("n", 3); for (uint64_t i = 0; i < n; ++i) ix.push_back((unsigned)vc_below("ix", 3));
	const Type* want = walk(a, ix); if (!want) return;
	auto it = n == 1 ? a.getSubType(ix[0]) : n == 2 ? a.getSubType(ix[0], ix[1]) : a.getSubType(ix[0], ix[1], ix[2]);
	vc_assert(it != nullptr && &*it == want, "the subtype reached by the indices");
	List<unsigned> l(&alloc); for (unsigned i : ix) l.emplace_back(i);
	auto jt = a.getSubType(l); vc_assert(jt != nullptr && &*jt == want, "the subtype reached by the indices");
	vc_cover("end");
}
#endif
