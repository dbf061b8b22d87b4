// Contracts of the module level: reading anything (C14), tables of types and constants (C17), edits (C18),
// requirements (C19), entry point interfaces (C24).
#ifndef VC_SYMBOLIC
#include "modgen.h"
struct Snap { unsigned kind; const void* p; unsigned lit; bool operator==(const Snap& o) const { return kind == o.kind && p == o.p && lit == o.lit; } };
static Snap snap(const Operand& o) { return { (unsigned)o.type, o.isInstruction() ? (const void*)o.instruction : o.isBranchTarget() ? (const void*)o.branchTarget : nullptr, o.isLiteral() ? o.literal.value : o.isId() ? (unsigned)o.id : 0u }; }
static vector<Snap> snap(const Instruction& I) { vector<Snap> s; for (auto& o : I) s.push_back(snap(o)); return s; }
static vector<vector<Snap>> snaps(const vector<const Instruction*>& seq) { vector<vector<Snap>> o; for (auto* i : seq) o.push_back(snap(*i)); return o; }
// ---------------------------------------------------------------- C14
// a reader that must only be asked for words it has not refused; it ends (or fails) after `limit` words
static vector<unsigned> anyWords(IAllocator* A)
{
	vector<unsigned> w;
	if (chance(8)) { unsigned n = pick(12); for (unsigned i = 0; i < n; ++i) w.push_back(vc_u32("word")); if (n && chance(2)) w[0] = spv::MagicNumber; }
	else { Gen g(A); Words x; if (chance(2)) g.m.finalizeAndWrite(x); else { g.m.assignIDs(); g.m.write(x); } w = x.w; }
	vector<Parsed> ps; parse(w, ps);
	auto instr = [&]() -> Parsed { return ps.empty() ? Parsed{ 0, 0, 0 } : ps[pick((unsigned)ps.size())]; };
	unsigned edits = pick(4);
	for (unsigned e = 0; e < edits && !w.empty(); ++e)
	{
		unsigned at = pick((unsigned)w.size()); Parsed p = instr(); if (p.at >= w.size()) p = { 0, 0, 0 };
		switch (pick(9))
		{
		case 0: w[at] = vc_u32("word"); break;
		case 1: w[at] = pick(64); break;
		case 2: w.resize(at); break;
		case 3: w.erase(w.begin() + at); break;
		case 4: w.insert(w.begin() + at, pick(40)); break;
		case 5: if (p.n) w[p.at] = (w[p.at] & 0xffff) | ((unsigned)(p.n + pick(5) - 2) << 16); break;          // another word count
		case 6: if (p.n) w[p.at] = (w[p.at] & 0xffff0000) | pick(500); break;                                     // another opcode
		case 7: if (p.n && p.n > 1) w[p.at + 1 + pick((unsigned)p.n - 1) < w.size() ? p.at + 1 : p.at] ^= 1u << pick(32); break;
		default: if (p.n) { unsigned n = pick((unsigned)p.n + 1); w[p.at] = (w[p.at] & 0xffff) | (n << 16); if (p.at + n < w.size()) w.erase(w.begin() + p.at + n, w.begin() + std::min(w.size(), p.at + p.n)); }   // fewer operands, consistently
		}
	}
	return w;
}
// a successful read means the words are a module: complete instructions, each of exactly its declared length
static void check_read(Gen& g2, const vector<unsigned>& w, size_t used)
{
	vector<Parsed> ps; vc_assert(parse(w, ps) && used == w.size(), "a module that is accepted consists of complete instructions");
	std::multiset<std::pair<unsigned, size_t>> in, out; Module& m = g2.m;
	auto once = [](unsigned op) { return op == (unsigned)Op::OpCapability || op == (unsigned)Op::OpExtension || op == (unsigned)Op::OpExtInstImport || op == (unsigned)Op::OpMemoryModel; };
	for (auto& p : ps) if (!once(p.op)) in.insert({ p.op, p.n });
	for (auto* i : g2.sequence()) if (!once((unsigned)i->getOperation())) out.insert({ (unsigned)i->getOperation(), i->size() + 1 });
	vc_assert(in == out, "each instruction is read with exactly the words it declares"); (void)m;
}
VC_BOUNDED(read_any)
{
	VcAllocator A; vector<unsigned> w = anyWords(&A);
	Gen g2(&A, false); WordReader rd(w); bool r = g2.m.read(rd, grammar());
	if (r) { vc_cover("accepted"); check_read(g2, w, rd.p); Words x; g2.m.write(x); } else vc_cover("rejected");
}
VC_BOUNDED(read_any_init)
{
	VcAllocator A; vector<unsigned> w = anyWords(&A);
	Module m(&A, logger()); WordReader rd(w); bool r = m.readAndInit(rd, grammar());
	if (r) vc_cover("accepted"); else vc_cover("rejected");
}
// the reader fails (or the data ends) after any number of words
VC_BOUNDED(read_truncated)
{
	VcAllocator A; Gen g(&A); Words x; g.m.finalizeAndWrite(x); vector<unsigned> w = x.w; vector<Parsed> ps; parse(w, ps);
	size_t cut = pick((unsigned)w.size()); w.resize(cut);
	Gen g2(&A, false); WordReader rd(w); bool r = g2.m.read(rd, grammar());
	bool inside = cut < 5, fn = false; if (!inside) for (auto& p : ps) { if (p.at >= cut) break; if (p.at + p.n > cut) inside = true; if ((Op)p.op == Op::OpFunction) fn = true; if ((Op)p.op == Op::OpFunctionEnd && p.at + p.n <= cut) fn = false; }
	if (inside || fn) vc_assert(!r, "a truncated instruction or function is rejected"); 
	if (r) check_read(g2, w, rd.p);
	vc_cover("end");
}
// ---------------------------------------------------------------- C17
static string textOf(const Type& t)
{
	string s = "(" + std::to_string((unsigned)t.getType());
	for (unsigned x : { t.getIntWidth(), (unsigned)t.getIntSign(), (unsigned)t.getStorageClass(), (unsigned)t.getImageDimension(), (unsigned)t.getImageArray(), (unsigned)t.getImageMultiSampled(), (unsigned)t.getImageSamplerAccess(), (unsigned)t.getImageFormat(), (unsigned)t.getAccessQualifier() }) s += "," + std::to_string(x);
	for (auto& u : t.getSubTypes()) s += textOf(u);
	return s + ")";
}
static string textOf(const Constant& c)
{
	string s = "[" + std::to_string((unsigned)c.getOperation()) + textOf(c.getType());
	for (unsigned x : c.getData()) s += "," + std::to_string(x);
	for (auto& u : c.getComponents()) s += textOf(u);
	return s + "]";
}
static void mutate(Type& t, unsigned depth = 0)
{
	if (!t.getSubTypes().empty() && chance(2)) { auto it = t.getSubTypes().begin(); unsigned n = pick((unsigned)t.getSubTypes().size()); while (n--) ++it; mutate(*it, depth + 1); return; }
	switch (t.getType())
	{
	case Op::OpTypeInt: if (chance(2)) t.setIntSign(!t.getIntSign()); else t.setIntWidth(8u << pick(4)); break;
	case Op::OpTypeFloat: t.setFloatWidth(16u << pick(3)); break;
	case Op::OpTypePointer: t.setStorageClass((spv::StorageClass)pick(13)); break;
	case Op::OpTypeArray: t.setArrayLength(1 + pick(5)); break;
	case Op::OpTypeVector: t.setVectorComponentCount(2 + pick(3)); break;
	case Op::OpTypeStruct: { Type s(t.getSubTypes().getAllocator()); s.Int(32, chance(2)); t.Member(&s); break; }
	case Op::OpTypeImage: switch (pick(6)) { case 0: t.setImageDimension((spv::Dim)pick(7)); break; case 1: t.setImageDepth(pick(3)); break; case 2: t.setImageArray(chance(2)); break; case 3: t.setImageFormat((spv::ImageFormat)pick(40)); break; case 4: t.setImageMultiSampled(chance(2)); break; default: t.setImageSamplerAccess((SamplerImageAccess)pick(3)); } break;
	default: break;
	}
}
static bool aggregate(Op o) { return o == Op::OpTypeStruct || o == Op::OpTypeArray || o == Op::OpTypeRuntimeArray; }
static void check_decls(Module& m)
{
	std::set<std::pair<unsigned, vector<std::pair<const void*, unsigned>>>> seen;
	for (auto& i : m.getTypesAndConstants())
	{
		if (!i.isType() || aggregate(i.getOperation())) continue;
		vector<std::pair<const void*, unsigned>> ops; for (auto& o : snap(i)) ops.push_back({ o.p, o.lit });
		vc_assert(seen.insert({ (unsigned)i.getOperation(), ops }).second, "no type is declared twice");
	}
}
VC_BOUNDED(table_types)
{
	VcAllocator A; Gen g(&A, false); std::map<string, Instruction*> seen; std::set<Instruction*> all; vector<Type> pool; unsigned n = 2 + pick(20);
	for (unsigned i = 0; i < n; ++i)
	{
		Type t = !pool.empty() && chance(2) ? pool[pick((unsigned)pool.size())] : g.randomType(); if (chance(2)) mutate(t);
		if (chance(6)) { static const Op so[] = { Op::OpTypeInt, Op::OpTypeFloat, Op::OpTypeBool }; dyn_scalar_t d{ so[pick(3)] }; d.bits = 8u << pick(4); d.sign = chance(2); if (chance(2)) t.Scalar(d); else t.Scalar(d.baseType, d.bits, d.sign); }
		pool.push_back(t); string s = textOf(t); size_t before = g.m.getTypesAndConstants().size();
		Instruction* I = g.m.addType(t); vc_assert(I != nullptr && I->getOperation() == t.getType(), "the type's declaration");
		auto it = seen.find(s); if (it != seen.end()) { vc_assert(it->second == I, "an equal type is the existing declaration"); vc_assert(g.m.getTypesAndConstants().size() == before, "nothing is declared again"); vc_cover("again"); }
		else { for (auto& e : seen) vc_assert(e.second != I, "a different type has a declaration of its own"); seen[s] = I; }
		const Type* info = g.m.getTypeInfo(I); vc_assert(info != nullptr && textOf(*info) == s, "the declaration is known as this type"); vc_assert(g.m.getTypeInstr(t) == I, "the type is found");
	}
	check_decls(g.m); vc_cover("end");
}
static Constant randomConst(Gen& g, unsigned depth = 0)
{
	Constant c(g.m.getAllocator()); bool spec = depth == 0 && chance(4);
	switch (pick(depth > 1 ? 6 : 9))
	{
	case 0: c.make(pick(3), spec); break; case 1: c.make((int)pick(3), spec); break; case 2: c.make((float)pick(3), spec); break; case 3: c.make(chance(2), spec); break;
	case 4: c.make((unsigned long long)pick(3) << (32 * pick(2)), spec); break; case 5: c.make((double)pick(3), spec); break;
	case 6: { c.setOperation(Op::OpConstantComposite); unsigned n = pick(4); c.getType().Struct(); for (unsigned i = 0; i < n; ++i) { Constant k = randomConst(g, depth + 1); c.getType().Member(&k.getType()); c.getComponents().emplace_back(k); } break; }
	case 7: { c.setOperation(Op::OpConstantComposite); Constant k(g.m.getAllocator()); unsigned n = 2 + pick(3); for (unsigned i = 0; i < n; ++i) { Constant& q = c.Component(); q.make((float)pick(2)); if (i == 0) { c.getType().Vector(n, &q.getType()); } } break; }
	default: { c.setOperation(Op::OpConstantNull); c.getType() = g.randomType(1); if (c.getType().getType() == Op::OpTypeVoid) c.getType().Bool(); }
	}
	return c;
}
VC_BOUNDED(table_constants)
{
	VcAllocator A; Gen g(&A, false); std::map<string, Instruction*> seen; std::set<Instruction*> all; vector<Constant> pool; unsigned n = 2 + pick(20);
	for (unsigned i = 0; i < n; ++i)
	{
		Constant c = !pool.empty() && chance(3) ? pool[pick((unsigned)pool.size())] : randomConst(g); pool.push_back(c); string s = textOf(c); size_t before = g.m.getTypesAndConstants().size();
		Instruction* I = g.m.addConstant(c); vc_assert(I != nullptr && I->getOperation() == c.getOperation(), "the constant's declaration");
		bool spec = spv::IsSpecConstantOp(c.getOperation()); if (spec) { vc_assert(all.insert(I).second && g.m.getTypesAndConstants().size() > before, "a specialisation constant has a declaration of its own"); vc_cover("spec"); continue; }
		vc_assert(all.count(I) == 0, "an ordinary constant is no specialisation constant");
		auto it = seen.find(s); if (it != seen.end()) { vc_assert(it->second == I && g.m.getTypesAndConstants().size() == before, "an equal constant is the existing declaration"); vc_cover("again"); }
		else { for (auto& e : seen) vc_assert(e.second != I, "a different constant has a declaration of its own"); seen[s] = I; }
		const Constant* info = g.m.getConstantInfo(I); vc_assert(info != nullptr && textOf(*info) == s, "the declaration is known as this constant");
		// the declaration is the constant: its type, its words, its components
		auto o = snap(*I); vc_assert(o.size() == 2 + (c.getOperation() == Op::OpConstant ? c.getData().size() : c.getComponents().size()) && o[0].p == g.m.getTypeInstr(c.getType()), "type and number of operands");
		size_t k = 2; if (c.getOperation() == Op::OpConstant) for (unsigned x : c.getData()) vc_assert(o[k++].lit == x, "the constant's words"); else for (auto& u : c.getComponents()) { auto f = g.m.addConstant(u); vc_assert(o[k++].p == f, "the components' declarations"); seen[textOf(u)] = f; }
	}
	check_decls(g.m); vc_cover("end");
}
// ---------------------------------------------------------------- C18
static const vector<const Instruction*> without(vector<const Instruction*> v, const Instruction* x) { v.erase(std::remove(v.begin(), v.end(), x), v.end()); return v; }
VC_BOUNDED(edit_replace)
{
	VcAllocator A; Gen g(&A); auto seq = g.sequence(); auto before = snaps(seq);
	const Instruction* x = seq[pick((unsigned)seq.size())]; if (chance(2)) x = g.anyResult(); Instruction* y = g.anyResult(); bool gather = chance(2), only = gather && chance(3);
	List<Instruction*> uses(&A); if (gather) g.m.gatherUses(x, uses, only ? nullptr : y); else g.m.replaceUses(x, y);
	vc_assert(g.sequence() == seq, "the instructions stay"); auto after = snaps(seq); vector<const Instruction*> want;
	for (size_t i = 0; i < seq.size(); ++i)
	{
		vc_assert(after[i].size() == before[i].size(), "operands are kept");
		for (size_t k = 0; k < before[i].size(); ++k)
		{
			bool use = before[i][k].kind == (unsigned)Operand::Type::Instruction && before[i][k].p == x; if (use) want.push_back(seq[i]);
			Snap s = before[i][k]; if (use && !only) s.p = y; vc_assert(after[i][k] == s, use ? "every use is redirected" : "nothing else is changed");
		}
	}
	if (gather) { vector<const Instruction*> got; for (auto* u : uses) got.push_back(u); vc_assert(got == want, "every use is reported, in order"); }
	if (!want.empty()) vc_cover("used"); vc_cover("end");
}
static bool removable(const Instruction* x) { switch (x->getOperation()) { case Op::OpMemoryModel: case Op::OpFunction: case Op::OpFunctionEnd: case Op::OpLabel: case Op::OpEntryPoint: return false; default: return true; } }
// what the tables say about the remaining instructions
struct Tables {
	std::map<const Instruction*, string> types, consts; std::map<string, int> names;
	Tables(const Module& m, const std::set<const Instruction*>& gone) {
		for (auto& e : m.m_InstrToType) if (!gone.count(e.key)) types[e.key] = textOf(*e.value);
		for (auto& e : m.m_InstrToConstant) if (!gone.count(e.key)) consts[e.key] = textOf(*e.value);
		for (auto& e : m.m_NameLookup) if (!gone.count(e.key)) ++names[std::to_string((uint64_t)e.key) + ":" + std::to_string(e.value.member) + ":" + e.value.name.c_str()];
	}
	bool operator==(const Tables& o) const { return types == o.types && consts == o.consts && names == o.names; }
};
static bool live(const Module& m) { std::set<const Instruction*> s; for (auto& i : m.m_TypesAndConstants) s.insert(&i); for (auto& e : m.m_TypeToInstr) if (!s.count(e.value)) return false; for (auto& e : m.m_ConstantToInstr) if (!s.count(e.value)) return false; return true; }
VC_BOUNDED(edit_remove)
{
	VcAllocator A; Gen g(&A); unsigned nn = pick(6); for (unsigned i = 0; i < nn; ++i) g.m.addName(g.anyResult(), "name");
	unsigned ns = chance(2) ? pick(4) : 0; vector<const Instruction*> specs; for (unsigned i = 0; i < ns; ++i) specs.push_back(g.m.constant(7u + pick(2), true));
	unsigned n = 1 + pick(3);
	for (unsigned r = 0; r < n; ++r)
	{
		auto seq = g.sequence(); const Instruction* x = seq[pick((unsigned)seq.size())]; if (r == 0 && nn && chance(2)) x = g.m.getNames().back().front().getInstruction(); if (r == 0 && ns && chance(2)) x = specs[pick(ns)]; auto rest = without(seq, x); auto before = snaps(rest); bool can = removable(x); std::set<const Instruction*> gone; if (can) gone.insert(x); Tables tables(g.m, gone);
		const char* name = g.m.getName(x); Op op = x->getOperation(); size_t names = g.m.getNameLookupMap().count(x);
		bool ok = g.m.remove(x); vc_assert(ok == can, "instructions that can be removed are removed");
		vc_assert(g.sequence() == (can ? rest : seq), "exactly this instruction is removed"); vc_assert(snaps(rest) == before, "the others are unchanged"); (void)name; (void)op;
		vc_assert(g.m.getNameLookupMap().count(x) == (can ? 0 : names), "its names go with it"); vc_assert(Tables(g.m, {}) == tables, "what is recorded about other instructions is kept");
		if (can) { vc_assert(g.m.m_InstrToType.get(x) == nullptr && g.m.m_InstrToConstant.get(x) == nullptr, "it is no longer looked up"); for (auto& e : g.m.m_TypeToInstr) vc_assert(e.value != x, "its type is no longer declared"); for (auto& e : g.m.m_ConstantToInstr) vc_assert(e.value != x, "its constant is no longer declared"); vc_cover("removed"); }
	}
	vc_cover("end");
}
VC_BOUNDED(edit_remove_block)
{
	VcAllocator A; Gen g(&A); vector<Function*> fs = g.fns; for (auto* e : g.eps) fs.push_back(e); vector<BasicBlock*> bs; for (auto* f : fs) for (auto& b : *f) bs.push_back(&b);
	if (bs.empty()) { vc_cover("end"); return; }
	BasicBlock* x = bs[pick((unsigned)bs.size())], *y = chance(3) ? nullptr : bs[pick((unsigned)bs.size())]; if (y == x) y = nullptr; Function* f = x->getFunction(); const Instruction* label = x->getLabel();
	auto seq = g.sequence(); vector<const Instruction*> rest; for (auto* i : seq) if (i->getBasicBlock() != x) rest.push_back(i); auto before = snaps(rest); if (f->m_isEntryPoint && f->size() == 1) { vc_cover("end"); return; }
	for (unsigned nn = pick(3); nn; --nn) if (!x->empty()) g.m.m_NameLookup.emplace(chance(2) ? label : &x->back(), Module::MemberName{ String(&A, "n"), 0u }); std::set<const Instruction*> gone; for (auto* i : seq) if (i->getBasicBlock() == x) gone.insert(i); Tables tables(g.m, gone);   // an entry point without blocks is no part of the module
	auto uses = f->remove(x, y); vector<const Instruction*> got, want; for (auto* u : uses) got.push_back(u);
	vc_assert(Tables(g.m, {}) == tables, "what is recorded about the removed instructions is dropped, and nothing else");
	// a function without blocks is a declaration and is visited among those
	std::multiset<const Instruction*> a, b; for (auto* i : g.sequence()) a.insert(i); for (auto* i : rest) b.insert(i); vc_assert(a == b, "exactly the block and its instructions are removed");
	auto after = snaps(rest);
	for (size_t i = 0; i < rest.size(); ++i) for (size_t k = 0; k < before[i].size(); ++k)
	{
		Snap s = before[i][k]; bool use = (s.kind == (unsigned)Operand::Type::BranchTarget && s.p == x) || (s.kind == (unsigned)Operand::Type::Instruction && s.p == label);
		if (use) { want.push_back(rest[i]); s.kind = (unsigned)Operand::Type::BranchTarget; s.p = y; } vc_assert(after[i][k] == s, use ? "every use is redirected" : "nothing else is changed");
	}
	std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); vc_assert(got == want, "every use is reported");
	vc_cover("end");
}
VC_BOUNDED(edit_remove_function)
{
	VcAllocator A; Gen g(&A); vector<Function*> fs = g.fns; for (auto* e : g.eps) fs.push_back(e); if (fs.empty()) { vc_cover("end"); return; }
	Function* x = fs[pick((unsigned)fs.size())], *y = chance(3) ? nullptr : fs[pick((unsigned)fs.size())]; if (y == x) y = nullptr; const Instruction* fi = x->getFunction();
	auto seq = g.sequence(); vector<const Instruction*> rest; EntryPoint* e = nullptr; for (auto* p : g.eps) if (p == x) e = p;
	for (auto* i : seq) if (i->getFunction() != x && i != (e ? e->getEntryPoint() : nullptr)) rest.push_back(i);
	for (unsigned nn = pick(3); nn; --nn) g.m.m_NameLookup.emplace(chance(2) ? fi : seq[pick((unsigned)seq.size())], Module::MemberName{ String(&A, "n"), 0u }); std::set<const Instruction*> gone; for (auto* i : seq) if (i->getFunction() == x) gone.insert(i); Tables tables(g.m, gone);
	auto before = snaps(rest); auto uses = g.m.remove(x, y); vc_assert(Tables(g.m, {}) == tables, "what is recorded about the removed instructions is dropped, and nothing else"); vc_assert(g.sequence() == rest, "exactly the function is removed"); auto after = snaps(rest);
	std::set<const Instruction*> got, want; for (auto* u : uses) got.insert(u);
	for (size_t i = 0; i < rest.size(); ++i) { size_t n = 0; for (size_t k = 0; k < before[i].size(); ++k)
	{
		Snap s = before[i][k]; bool use = s.kind == (unsigned)Operand::Type::Instruction && s.p == fi; if (use) { want.insert(rest[i]); s.p = y ? y->getFunction() : nullptr; } (void)n; vc_assert(after[i][k] == s, use ? "every use is redirected" : "nothing else is changed");
	} }
	vc_assert(got == want, "every use is reported"); vc_cover("end");
}
// ---------------------------------------------------------------- C19
VC_BOUNDED(req_grammar)
{
	VcAllocator A; Gen g(&A); std::set<unsigned> caps; std::set<string> exts; unsigned v = g.m.getSpvVersion();
	for (auto& e : g.m.getCapabilities()) caps.insert((unsigned)e.key); for (auto& e : g.m.getExtensions()) exts.insert(e.key.c_str());
	for (auto* i : g.sequence()) if (auto* info = grammar().getInfo((unsigned)i->getOperation())) { for (auto c : info->capabilities) caps.insert((unsigned)c); for (auto x : info->extensions) exts.insert(spv::ExtensionNames[(unsigned)x]); v = std::max(v, info->version); }
	unsigned how = pick(2); if (how == 0) { Words w; vc_assert(g.m.finalizeAndWrite(w, &grammar()), "written"); } else { g.m.addRequiredCapabilities(grammar()); g.m.addRequiredExtensions(grammar()); }
	std::multiset<unsigned> c2; std::multiset<string> e2; for (auto& e : g.m.getCapabilities()) { c2.insert((unsigned)e.key); vc_assert(e.value.getOperation() == Op::OpCapability && e.value.front().getLiteral().value == (unsigned)e.key, "declared by an instruction"); }
	for (auto& e : g.m.getExtensions()) { e2.insert(e.key.c_str()); string s; for (auto& o : e.value) for (int k = 0; k < 4; ++k) { char ch = (char)(o.getLiteral().value >> (8 * k)); if (!ch) break; s.push_back(ch); } vc_assert(e.value.getOperation() == Op::OpExtension && s == e.key.c_str(), "declared by an instruction"); }
	vc_assert(c2 == std::multiset<unsigned>(caps.begin(), caps.end()), "every required capability is declared once"); vc_assert(e2 == std::multiset<string>(exts.begin(), exts.end()), "every required extension is declared once");
	if (how == 0) vc_assert(g.m.getSpvVersion() == v, "the version is at least the one required"); vc_cover("end");
}
VC_BOUNDED(req_implied)
{
	VcAllocator A; Module m(&A, logger()); std::set<unsigned> want; unsigned n = 1 + pick(3);
	auto close = [&](auto&& self, spv::Capability c) -> void { want.insert((unsigned)c); auto b = getBaseCapability(c); if (b.primary != spv::Capability::Max) self(self, b.primary); if (b.secondary != spv::Capability::Max) self(self, b.secondary); };
	for (unsigned i = 0; i < n; ++i) { auto c = (spv::Capability)(chance(3) ? 4400 + pick(2000) : pick(80)); bool dep = !chance(4); m.addCapability(c, dep); if (dep) close(close, c); else want.insert((unsigned)c); vc_assert(m.checkCapability(c), "declared"); }
	std::multiset<unsigned> got; for (auto& e : m.getCapabilities()) got.insert((unsigned)e.key); vc_assert(got == std::multiset<unsigned>(want.begin(), want.end()), "a capability and those it implies, each once");
	auto c = (spv::Capability)*want.begin(); vc_assert(m.removeCapability(c) && !m.checkCapability(c) && !m.removeCapability(c) && m.getCapabilities().elements() == want.size() - 1, "exactly this capability is removed"); vc_cover("end");
}
// ---------------------------------------------------------------- C24
VC_BOUNDED(entry_interface)
{
	VcAllocator A; Gen g(&A); const Grammar* gr = chance(2) ? &grammar() : nullptr; unsigned rounds = 1 + pick(2);
	for (unsigned r = 0; r < rounds; ++r)
	{
		Words w; vc_assert(g.m.finalizeAndWrite(w, gr), "written"); bool all = g.m.getSpvVersion() >= makeVersion(1, 4);
		for (auto* e : g.eps)
		{
			std::set<const Function*> fs; vector<const Function*> todo{ e }; std::multiset<const Instruction*> want;
			while (!todo.empty()) { const Function* f = todo.back(); todo.pop_back(); if (!fs.insert(f).second) continue; for (auto& b : *f) for (auto& i : b) {
				if (i == Op::OpFunctionCall) todo.push_back((i.begin() + 2u)->getInstruction()->getFunction());
				for (auto& o : i) if (auto* v = o.getInstruction(); v && *v == Op::OpVariable) { auto it = v->begin(); ++it; ++it; unsigned sc = it->getLiteral().value; if (all ? sc != (unsigned)spv::StorageClass::Function : sc == 1 || sc == 3) if (!want.count(v)) want.insert(v); } } }
			std::multiset<const Instruction*> got; for (auto& o : e->getInterfaceVariables()) got.insert(o.getInstruction());
			vc_assert(got == want, "the interface lists exactly the variables used, each once"); if (!want.empty()) vc_cover("vars");
		}
		for (auto* e : g.eps) for (auto& b : *e) for (auto& i : b) if (i == Op::OpCopyMemory) for (auto& o : i) if (!g.globals.empty() && chance(2)) o = g.globals[pick((unsigned)g.globals.size())];
	}
	vc_cover("end");
}
#endif
