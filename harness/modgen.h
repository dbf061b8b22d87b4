// Native only: random modules built through the API, and an independent reading of the words they are written as.
// Instructions are generated from the official grammar (spec_ops.inc), so that every opcode and operand kind occurs.
#pragma once
#include <vector>
#include <string>
#include <map>
#include <set>
#include <algorithm>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <stdarg.h>
#include "vc_vec.h"
#include "spvgentwo/SpvGenTwo.h"
#include "spvgentwo/Grammar.h"
#include "spvgentwo/Reader.h"
#include "spvgentwo/Writer.h"
#include "spec_ops.inc"
using Op = spv::Op; using std::vector; using std::string;
struct PlainAlloc : IAllocator { void* allocate(sgt_size_t n, unsigned) override { return malloc(n); } void deallocate(void* p, sgt_size_t) override { free(p); } };
static PlainAlloc plainA;
static const Grammar& grammar() { static Grammar* g = (Grammar*)malloc(sizeof(Grammar)); static bool once = (new (g) Grammar(&plainA), true); (void)once; return *g; }
static void printLog(ILogger*, LogLevel, const char* f, ...) { va_list a; va_start(a, f); vfprintf(stderr, f, a); va_end(a); fputc('\n', stderr); }
static ILogger* logger() { static ILogger* l = getenv("VC_LOG") ? new ILogger(printLog) : nullptr; return l; }   // for replays
struct Words : IWriter { vector<unsigned> w; bool put(unsigned x) override { w.push_back(x); return true; } };
// a reader over w that must not be asked again after it reported the end more than once in a row is not misuse; it counts
struct WordReader : IReader { const vector<unsigned>& w; size_t p = 0; WordReader(const vector<unsigned>& v) : w(v) {} bool get(unsigned& x) override { if (p >= w.size()) return false; x = w[p++]; return true; } };
static unsigned pick(unsigned n) { return (unsigned)vc_below("g", n); }
static bool chance(unsigned of) { return pick(of) == 0; }
static vector<string> split(const char* s) { vector<string> r; for (const char* p = s; *p; ) { const char* q = strchr(p, ' '); r.push_back(q ? string(p, q - p) : string(p)); p = q ? q + 1 : p + strlen(p); } return r; }
struct OpInfo { unsigned op; string name; vector<std::pair<string, char>> operands; };
static const std::map<unsigned, OpInfo>& opInfos()
{
	static std::map<unsigned, OpInfo>* m = nullptr;
	if (!m) { m = new std::map<unsigned, OpInfo>; for (auto& s : specOps) { OpInfo i{ s.op, s.name, {} }; for (auto& x : split(s.operands)) i.operands.push_back({ x.substr(0, x.size() - 1), x.back() }); (*m)[s.op] = i; } }
	return *m;
}
static const std::map<std::pair<string, unsigned>, vector<string>>& params()
{
	static std::map<std::pair<string, unsigned>, vector<string>>* m = nullptr;
	if (!m) { m = new std::map<std::pair<string, unsigned>, vector<string>>; for (auto& p : specParams) { vector<string> v; for (auto& x : split(p.params)) v.push_back(x.substr(0, x.size() - 1)); (*m)[{ p.kind, p.value }] = v; } }
	return *m;
}
static bool isMask(const string& k) { return k == "ImageOperands" || k == "FPFastMathMode" || k == "SelectionControl" || k == "LoopControl" || k == "FunctionControl" || k == "MemorySemantics" || k == "MemoryAccess" || k == "KernelProfilingInfo" || k == "RayFlags" || k == "FragmentShadingRate" || k == "CooperativeMatrixOperands"; }
// enumerants newer than the grammar under test, and those it gives no parameters, are not generated
static Grammar::OperandKind kindOf(const string& s);
static bool knownParam(const string& kind, unsigned v)
{
	auto it = params().find({ kind, v }); if (it == params().end()) return true;
	Grammar::OperandKind k = kind == "MemoryAccess" ? Grammar::OperandKind::MemoryAccess : kind == "ImageOperands" ? Grammar::OperandKind::ImageOperands : kind == "LoopControl" ? Grammar::OperandKind::LoopControl : kind == "ExecutionMode" ? Grammar::OperandKind::ExecutionMode : Grammar::OperandKind::Decoration;
	return grammar().getOperandName(k, v) != nullptr;
}
struct Gen {
	Module m; bool layout; vector<Instruction*> results, types; vector<Type> typeInfos;
	vector<Instruction*> consts, globals; vector<Function*> fns; vector<EntryPoint*> eps; unsigned strSeq = 0;
	vector<const Instruction*> order[9];   // per module level list, in creation order
	Gen(IAllocator* a, bool fill = true) : m(a, (spv::AddressingModel)pick(3), (spv::MemoryModel)pick(4)) { if (fill) build(); }
	string text() { string s; unsigned n = pick(10); for (unsigned i = 0; i < n; ++i) s.push_back((char)(chance(8) ? 1 + pick(255) : 'a' + pick(26))); return s; }
	string name() { return text() + "_" + std::to_string(strSeq++); }
	Instruction* anyResult() { return results.empty() ? nullptr : results[pick((unsigned)results.size())]; }
	Instruction* anyType() { return types[pick((unsigned)types.size())]; }
	void done(Instruction* i) { unsigned s = specShape((unsigned)i->getOperation()); if (s & 1) results.push_back(i); }
	Type scalar() { Type t(m.getAllocator()); switch (pick(3)) { case 0: t.Int(8u << pick(4), chance(2)); break; case 1: t.Float(16u << pick(3)); break; default: t.Bool(); } return t; }
	Type randomType(unsigned depth = 0)
	{
		Type t(m.getAllocator()); unsigned k = depth > 2 ? 0 : pick(12);
		switch (k)
		{
		default: return scalar();
		case 3: { Type s = scalar(); t.Vector(2 + pick(3), &s); break; }
		case 4: { Type f(m.getAllocator()); f.Float(32u << pick(2)); Type c(m.getAllocator()); c.Vector(2 + pick(3), &f); t.Matrix(2 + pick(3), &c); break; }
		case 5: { Type s = randomType(depth + 1); t.Array(1 + pick(5), &s); break; }
		case 6: { Type s = randomType(depth + 1); t.RuntimeArray(&s); break; }
		case 7: { t.Struct(); unsigned n = pick(4); for (unsigned i = 0; i < n; ++i) { Type s = randomType(depth + 1); t.Member(&s); } break; }
		case 8: { Type s = randomType(depth + 1); t.Pointer((spv::StorageClass)pick(13), &s); break; }
		case 9: { t.setType(Op::OpTypeImage); Type s = scalar(); t.Member(&s); t.setImageDimension((spv::Dim)pick(7)); t.setImageDepth(pick(3)); t.setImageArray(chance(2)); t.setImageMultiSampled(chance(2)); t.setImageSamplerAccess((SamplerImageAccess)pick(3)); t.setImageFormat((spv::ImageFormat)pick(40)); if (chance(2)) t.setAccessQualifier((spv::AccessQualifier)pick(3)); else t.setAccessQualifier(spv::AccessQualifier::Max); break; }
		case 10: { t.setType(Op::OpTypeFunction); unsigned n = 1 + pick(3); for (unsigned i = 0; i < n; ++i) { Type s = randomType(depth + 1); t.Member(&s); } break; }
		case 11: { static const Op simple[] = { Op::OpTypeVoid, Op::OpTypeSampler, Op::OpTypeEvent, Op::OpTypeDeviceEvent, Op::OpTypeReserveId, Op::OpTypeQueue, Op::OpTypePipeStorage, Op::OpTypeNamedBarrier, Op::OpTypeRayQueryKHR, Op::OpTypeAccelerationStructureKHR }; t.setType(simple[pick(10)]); break; }
		}
		return t;
	}
	void noteTypes() { types.clear(); consts.clear(); for (auto& i : m.getTypesAndConstants()) (i.isType() ? types : consts).push_back(&i); }
	void ref(Instruction* I, Instruction* r) { if (r->getOperation() == Op::OpLabel && chance(2)) I->addOperand(r->getBasicBlock()); else I->addOperand(r); }
	void anyRef(Instruction* I, const string&) { Instruction* r = anyResult(); ref(I, r); }
	void operand(Instruction* I, const string& k)
	{
		if (k == "IdResultType") I->addOperand(anyType());
		else if (k == "IdResult") I->addOperand(InvalidId);
		else if (k == "LiteralString") { string s = text(); I->appendLiterals(s.c_str()); }
		else if (k == "LiteralSpecConstantOpInteger") { I->addOperand(literal_t{ 100 + pick(100) }); unsigned n = pick(3); for (unsigned i = 0; i < n; ++i) I->addOperand(consts.empty() ? types[0] : consts[pick((unsigned)consts.size())]); }
		else if (k == "LiteralContextDependentNumber") { I->addOperand(literal_t{ vc_u32("lit") }); if (chance(2)) I->addOperand(literal_t{ vc_u32("lit") }); }
		else if (k == "PairIdRefIdRef") { anyRef(I, k); anyRef(I, k); }
		else if (k == "PairIdRefLiteralInteger") { anyRef(I, k); I->addOperand(literal_t{ vc_u32("lit") }); }
		else if (k == "PairLiteralIntegerIdRef") { I->addOperand(literal_t{ vc_u32("lit") }); anyRef(I, k); }
		else if (k.rfind("Id", 0) == 0) anyRef(I, k);
		else if (k.rfind("Literal", 0) == 0) I->addOperand(literal_t{ vc_u32("lit") });
		else if (isMask(k))
		{
			unsigned v = 0; unsigned bits = pick(4); for (unsigned i = 0; i < bits; ++i) { unsigned b = 1u << pick(17); if (knownParam(k, b)) v |= b; }
			I->addOperand(literal_t{ v });
			for (unsigned b = 1; b; b <<= 1) if (v & b) if (auto it = params().find({ k, b }); it != params().end()) for (auto& p : it->second) operand(I, p);
		}
		else
		{
			unsigned v = k == "Decoration" || k == "ExecutionMode" ? pick(64) : pick(40); if (k == "Decoration" && v == 44) v = 43; if (!knownParam(k, v)) v = 0;
			I->addOperand(literal_t{ v });
			if (auto it = params().find({ k, v }); it != params().end()) for (auto& p : it->second) operand(I, p);
		}
	}
	// all operands of I according to the grammar; the first `have` ones are given
	void fill(Instruction* I, size_t have = 0)
	{
		const OpInfo& info = opInfos().at((unsigned)I->getOperation());
		for (size_t i = have; i < info.operands.size(); ++i)
		{
			auto& [k, q] = info.operands[i];
			if (q == '1') operand(I, k);
			else if (q == '?') { if (chance(2)) break; operand(I, k); }
			else { unsigned n = pick(4); for (unsigned j = 0; j < n; ++j) operand(I, k); }
		}
	}
	Instruction* gen(Instruction* I, Op op, int list = -1) { I->setOperation(op); fill(I); done(I); if (list >= 0) order[list].push_back(I); return I; }
	static bool bodyOp(unsigned op)
	{
		Op o = (Op)op;
		if (spv::IsTypeOp(o) || isSpecOrConstantOp(o) || isTerminatorOp(o) || specShape(op) == 4 || grammar().getInfo(op) == nullptr) return false;
		// operands of these enumerations may be newer than the grammar under test
		switch (o) { case Op::OpFunction: case Op::OpFunctionParameter: case Op::OpFunctionEnd: case Op::OpFunctionCall: case Op::OpLabel: return false; default: ; }
		return true;
	}
	static const vector<unsigned>& bodyOps() { static vector<unsigned>* v = nullptr; if (!v) { v = new vector<unsigned>; for (auto& [op, i] : opInfos()) if (bodyOp(op) && op > 20 && !(op >= 71 && op <= 75)) v->push_back(op); } return *v; }
	Instruction* bodyInstr(BasicBlock& b)
	{
		Instruction* I = b.addInstruction();
		if (chance(10) && !fns.empty()) { I->setOperation(Op::OpFunctionCall); I->addOperand(anyType()); I->addOperand(InvalidId); I->addOperand((chance(2) || eps.empty() ? fns[pick((unsigned)fns.size())] : eps[pick((unsigned)eps.size())])->getFunction()); unsigned n = pick(3); for (unsigned i = 0; i < n; ++i) anyRef(I, ""); done(I); return I; }
		if (chance(3) && !globals.empty()) { I->setOperation(chance(2) ? Op::OpLoad : Op::OpCopyMemory); if (*I == Op::OpLoad) { I->addOperand(anyType()); I->addOperand(InvalidId); I->addOperand(globals[pick((unsigned)globals.size())]); } else { I->addOperand(globals[pick((unsigned)globals.size())]); I->addOperand(globals[pick((unsigned)globals.size())]); } done(I); return I; }
		return gen(I, (Op)bodyOps()[pick((unsigned)bodyOps().size())]);
	}
	void terminate(BasicBlock& b, Function& f)
	{
		Instruction* I = b.addInstruction(); vector<BasicBlock*> bbs; for (auto& x : f) bbs.push_back(&x);
		auto bb = [&]() { return bbs[pick((unsigned)bbs.size())]; };
		switch (pick(6))
		{
		case 0: I->setOperation(Op::OpReturn); break;
		case 1: I->setOperation(Op::OpBranch); I->addOperand(bb()); break;
		case 2: I->setOperation(Op::OpBranchConditional); I->addOperand(anyResult()); I->addOperand(bb()); I->addOperand(bb()); if (chance(2)) { I->addOperand(literal_t{ pick(9) }); I->addOperand(literal_t{ pick(9) }); } break;
		case 3: { I->setOperation(Op::OpSwitch); I->addOperand(anyResult()); I->addOperand(bb()); unsigned n = pick(4); for (unsigned i = 0; i < n; ++i) { I->addOperand(literal_t{ i }); I->addOperand(bb()); } break; }
		case 4: I->setOperation(Op::OpReturnValue); I->addOperand(anyResult()); break;
		default: { static const Op t[] = { Op::OpKill, Op::OpUnreachable, Op::OpTerminateInvocation, Op::OpIgnoreIntersectionKHR, Op::OpTerminateRayKHR, Op::OpEmitMeshTasksEXT }; gen(I, t[pick(6)]); }
		}
	}
	Type funcType() { Type t(m.getAllocator()); t.setType(Op::OpTypeFunction); t.VoidM(); return t; }
	void body(Function& f)
	{
		unsigned np = pick(3); for (unsigned i = 0; i < np; ++i) { auto& p = f.getParameters().emplace_back(&f, Op::OpFunctionParameter); p.addOperand(anyType()); p.addOperand(InvalidId); results.push_back(&p); }
	}
	void blocks(Function& f, bool must)
	{
		unsigned nb = (must ? 1 : 0) + pick(3);
		for (unsigned i = 0; i < nb; ++i) { BasicBlock& b = f.addBasicBlock(); results.push_back(b.getLabel()); }
		for (auto& b : f) { unsigned n = pick(5); for (unsigned i = 0; i < n; ++i) bodyInstr(b); terminate(b, f); }
	}
	void build()
	{
		m.setSpvVersion(1, (unsigned char)pick(7)); m.setSpvBound(pick(2) ? pick(100) : 0);
		if (chance(2)) m.m_spvSchema = pick(3);
		unsigned n = pick(4); for (unsigned i = 0; i < n; ++i) m.addCapability((spv::Capability)pick(60));
		n = pick(3); for (unsigned i = 0; i < n; ++i) m.addExtension(name().c_str());
		n = pick(3); for (unsigned i = 0; i < n; ++i) results.push_back(m.addExtensionInstructionImport(name().c_str()));
		{ Type v(m.getAllocator()); v.Void(); m.addType(v); }
		n = 1 + pick(5); for (unsigned i = 0; i < n; ++i) { Type t = randomType(); m.addType(t); }
		n = pick(3); for (unsigned i = 0; i < n; ++i) switch (pick(4)) { case 0: m.constant(pick(5)); break; case 1: m.constant((float)pick(4)); break; case 2: m.constant(chance(2)); break; default: m.constant((unsigned long long)pick(7) << 30); }
		Type ft = funcType(); Instruction* fti = m.addType(ft);
		noteTypes(); for (auto* i : types) results.push_back(i); for (auto* i : consts) results.push_back(i);
		n = pick(4); for (unsigned i = 0; i < n; ++i) { Instruction* g = m.addGlobalVariableInstr(); g->setOperation(Op::OpVariable); g->addOperand(anyType()); g->addOperand(InvalidId); static const unsigned sc[] = { 0, 1, 2, 3, 4, 6, 12 }; g->addOperand(literal_t{ sc[pick(7)] }); if (chance(4) && !consts.empty()) g->addOperand(consts[pick((unsigned)consts.size())]); globals.push_back(g); results.push_back(g); order[6].push_back(g); }
		n = pick(2); for (unsigned i = 0; i < n; ++i) gen(m.addUndefInstr(), Op::OpUndef, 7);
		unsigned nf = pick(3), ne = pick(3); vector<bool> decl;
		for (unsigned i = 0; i < nf; ++i) { Function& f = m.addFunction(); fns.push_back(&f); Instruction* F = f.getFunction(); F->setOperation(Op::OpFunction); F->addOperand(types[0]); F->addOperand(InvalidId); F->addOperand(literal_t{ pick(4) }); F->addOperand(fti); results.push_back(F); body(f); }
		for (unsigned i = 0; i < ne; ++i)
		{
			EntryPoint& f = m.addEntryPoint(); eps.push_back(&f); Instruction* F = f.getFunction(); F->setOperation(Op::OpFunction); F->addOperand(types[0]); F->addOperand(InvalidId); F->addOperand(literal_t{ 0u }); F->addOperand(fti); results.push_back(F);
			Instruction* e = f.getEntryPoint(); e->setOperation(Op::OpEntryPoint); e->addOperand(literal_t{ pick(6) }); e->addOperand(F); string nm = name(); e->appendLiterals(nm.c_str());
		}
		n = pick(2); for (unsigned i = 0; i < n; ++i) gen(m.addLineInstr(), chance(2) ? Op::OpLine : Op::OpNoLine, 8);
		for (auto* f : fns) blocks(*f, false);
		for (auto* e : eps) blocks(*e, true);
		n = pick(3); for (unsigned i = 0; i < n; ++i) gen(m.addExtensionModeInstr(), chance(3) ? Op::OpExecutionModeId : Op::OpExecutionMode, 0);
		static const Op src[] = { Op::OpString, Op::OpSource, Op::OpSourceContinued, Op::OpSourceExtension };
		n = pick(3); for (unsigned i = 0; i < n; ++i) gen(m.addSourceStringInstr(), src[pick(4)], 1);
		n = pick(3); for (unsigned i = 0; i < n; ++i) gen(m.addNameInstr(), chance(3) ? Op::OpMemberName : Op::OpName, 2);
		n = pick(2); for (unsigned i = 0; i < n; ++i) gen(m.addModuleProccessedInstr(), Op::OpModuleProcessed, 3);
		static const Op dec[] = { Op::OpDecorate, Op::OpMemberDecorate, Op::OpDecorationGroup, Op::OpGroupDecorate, Op::OpGroupMemberDecorate, Op::OpDecorateId, Op::OpDecorateString, Op::OpMemberDecorateString };
		n = pick(5); for (unsigned i = 0; i < n; ++i) gen(m.addDecorationInstr(), dec[pick(8)], 4);
		for (auto& i : m.getTypesAndConstants()) order[5].push_back(&i);
	}
	// the instructions of the module in the order SPIR-V prescribes, walked through the lists themselves
	vector<const Instruction*> sequence() const
	{
		vector<const Instruction*> v;
		for (auto& e : m.getCapabilities()) v.push_back(&e.value);
		for (auto& e : m.getExtensions()) v.push_back(&e.value);
		for (auto& e : m.getExtInstrImports()) v.push_back(&e.value);
		v.push_back(&m.getMemoryModel());
		for (auto& e : m.getEntryPoints()) v.push_back(e.getEntryPoint());
		for (auto* l : { &m.getExecutionModes(), &m.getSourceStrings(), &m.getNames(), &m.getModulesProcessed(), &m.getDecorations(), &m.getTypesAndConstants(), &m.getGlobalVariables(), &m.getUndefs(), &m.getLines() }) for (auto& i : *l) v.push_back(&i);
		auto fn = [&](const Function& f) { v.push_back(f.getFunction()); for (auto& p : f.getParameters()) v.push_back(&p); for (auto& b : f) { v.push_back(b.getLabel()); for (auto& i : b) v.push_back(&i); } v.push_back(f.getFunctionEnd()); };
		for (auto& f : m.getFunctions()) if (f.empty()) fn(f);
		for (auto& f : m.getFunctions()) if (!f.empty()) fn(f);
		for (auto& f : m.getEntryPoints()) if (!f.empty()) fn(f);
		return v;
	}
};
// one instruction as found in a word stream
struct Parsed { unsigned op; size_t at, n; };
static bool parse(const vector<unsigned>& w, vector<Parsed>& out)
{
	size_t p = 5; if (w.size() < 5) return false;
	while (p < w.size()) { size_t n = w[p] >> 16; if (n == 0 || p + n > w.size()) return false; out.push_back({ w[p] & 0xffff, p, n }); p += n; }
	return true;
}
// section of an instruction outside functions, in the order of the logical layout
static int section(unsigned op)
{
	Op o = (Op)op;
	switch (o)
	{
	case Op::OpCapability: return 0; case Op::OpExtension: return 1; case Op::OpExtInstImport: return 2; case Op::OpMemoryModel: return 3; case Op::OpEntryPoint: return 4;
	case Op::OpExecutionMode: case Op::OpExecutionModeId: return 5;
	case Op::OpString: case Op::OpSource: case Op::OpSourceContinued: case Op::OpSourceExtension: return 6;
	case Op::OpName: case Op::OpMemberName: return 7; case Op::OpModuleProcessed: return 8;
	case Op::OpDecorate: case Op::OpMemberDecorate: case Op::OpDecorationGroup: case Op::OpGroupDecorate: case Op::OpGroupMemberDecorate: case Op::OpDecorateId: case Op::OpDecorateString: case Op::OpMemberDecorateString: return 9;
	case Op::OpVariable: case Op::OpUndef: case Op::OpLine: case Op::OpNoLine: return 10;
	case Op::OpFunction: return 11;
	default: return specClass(op) & 7 ? 10 : -1;
	}
}
