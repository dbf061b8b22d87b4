// Contracts of the opcode tables (op_*) and of the generated grammar (gr_*, evaluated natively over its whole domain).
#ifndef VC_SYMBOLIC
#include <vector>
#include <string>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#endif
#include "vc_vec.h"
#include "spvgentwo/SpvDefines.h"
#include "spvgentwo/Grammar.h"
#include "spec_ops.inc"
VC_HARNESS(op_result_tables_agree)
{
	unsigned n = vc_u32("op"); spv::Op op = (spv::Op)n;
	bool r = vc_bool("r"), t = vc_bool("t");   // the out parameters' previous content does not matter
	spv::HasResultAndType(op, &r, &t);
	if (specShape(n) == 4) { vc_assert(!r && !t, "an unknown opcode has no result"); vc_assume(false); }
	vc_assert(spv::HasResult(op) == r, "HasResult agrees with HasResultAndType");
	vc_assert(spv::HasResultType(op) == t, "HasResultType agrees with HasResultAndType");
	vc_assert(hasResultAndTypeId(op) == (r && t), "hasResultAndTypeId agrees");
	vc_assert(!t || r, "a result type implies a result");
	vc_cover("end");
}
VC_HARNESS(op_result_spec)
{
	unsigned n = vc_u32("op"); spv::Op op = (spv::Op)n; unsigned s = specShape(n);
	vc_assume(s != 4);   // the opcodes the library knows (HasResult answers true for others)
	vc_assert(spv::HasResult(op) == ((s & 1) != 0), "exactly the opcodes with a result id");
	vc_assert(spv::HasResultType(op) == ((s & 2) != 0), "exactly the opcodes with a result type");
	vc_cover("end");
}
VC_HARNESS(op_type) { unsigned n = vc_u32("op"); vc_assert(spv::IsTypeOp((spv::Op)n) == ((specClass(n) & 1) != 0), "exactly the type declarations"); vc_cover("end"); }
VC_HARNESS(op_constant) { unsigned n = vc_u32("op"); vc_assert(spv::IsConstantOp((spv::Op)n) == ((specClass(n) & 2) != 0), "exactly the constants"); vc_cover("end"); }
VC_HARNESS(op_spec_constant) { unsigned n = vc_u32("op"); vc_assert(spv::IsSpecConstantOp((spv::Op)n) == ((specClass(n) & 4) != 0), "exactly the specialisation constants"); vc_cover("end"); }
VC_HARNESS(op_any_constant) { unsigned n = vc_u32("op"); vc_assert(isSpecOrConstantOp((spv::Op)n) == ((specClass(n) & 6) != 0), "constants and specialisation constants"); vc_cover("end"); }
VC_HARNESS(op_terminator) { unsigned n = vc_u32("op"); vc_assert(isTerminatorOp((spv::Op)n) == ((specClass(n) & 8) != 0), "exactly the termination instructions"); vc_cover("end"); }
VC_HARNESS(op_classes)
{
	spv::Op op = (spv::Op)vc_u32("op");
	vc_assert((spv::IsTypeOp(op) + spv::IsConstantOp(op) + spv::IsSpecConstantOp(op) + isTerminatorOp(op)) <= 1, "the classes are disjoint");
	vc_assert(!isTerminatorOp(op) || !spv::HasResult(op), "a terminator has no result");
	vc_assert(!spv::IsTypeOp(op) || !spv::HasResultType(op), "a type has no result type");
	vc_cover("end");
}
VC_HARNESS(op_exec_mode)
{
	unsigned n = vc_u32("mode"); vc_assume(specExecMode(n) != 2);
	vc_assert(getExecutionModeOp((spv::ExecutionMode)n) == (specExecMode(n) == 1 ? spv::Op::OpExecutionModeId : spv::Op::OpExecutionMode), "OpExecutionModeId exactly for the modes with id operands");
	vc_cover("end");
}
VC_HARNESS(op_operand_type)
{
	unsigned n = vc_u32("op"); unsigned s = specOperandType(n); vc_assume(s != 0);   // 1 float, 2 int, 3 signed, 4 unsigned, 5 bool
	Sign sign = (Sign)vc_u32("sign"); spv::Op t = getTypeFromOp((spv::Op)n, sign);
	vc_assert(t == (s == 1 ? spv::Op::OpTypeFloat : s == 5 ? spv::Op::OpTypeBool : spv::Op::OpTypeInt), "operand type the arithmetic opcode works on");
	vc_assert(sign == (s == 3 ? Sign::Signed : s == 4 ? Sign::Unsigned : Sign::Any), "operand signedness");
	vc_assert(getTypeFromOp((spv::Op)n) == t, "both overloads agree");
	vc_cover("end");
}
#ifndef VC_SYMBOLIC
using G = Grammar; using K = G::OperandKind;
static const char* kindNames[] = {"ImageOperands","FPFastMathMode","SelectionControl","LoopControl","FunctionControl","MemorySemantics","MemoryAccess","KernelProfilingInfo","RayFlags","FragmentShadingRate","SourceLanguage","ExecutionModel","AddressingModel","MemoryModel","ExecutionMode","StorageClass","Dim","SamplerAddressingMode","SamplerFilterMode","ImageFormat","ImageChannelOrder","ImageChannelDataType","FPRoundingMode","FPDenormMode","QuantizationModes","FPOperationMode","OverflowModes","LinkageType","AccessQualifier","HostAccessQualifier","FunctionParameterAttribute","Decoration","BuiltIn","Scope","GroupOperation","KernelEnqueueFlags","Capability","RayQueryIntersection","RayQueryCommittedIntersectionType","RayQueryCandidateIntersectionType","PackedVectorFormat","CooperativeMatrixOperands","CooperativeMatrixLayout","CooperativeMatrixUse","InitializationModeQualifier","LoadCacheControl","StoreCacheControl","IdResultType","IdResult","IdMemorySemantics","IdScope","IdRef","LiteralInteger","LiteralString","LiteralFloat","LiteralContextDependentNumber","LiteralExtInstInteger","LiteralSpecConstantOpInteger","PairLiteralIntegerIdRef","PairIdRefLiteralInteger","PairIdRefIdRef"};
static int kindOf(const std::string& s) { for (int i = 0; i <= 60; ++i) if (s == kindNames[i]) return i; return -1; }
// Id / Literal / Composite by name; the enumerations are bit masks or values
static bool categoryOk(K k, G::OperandCategory c)
{
	std::string n = kindNames[(int)k];
	if (n.rfind("Id", 0) == 0) return c == G::OperandCategory::Id;
	if (n.rfind("Literal", 0) == 0) return c == G::OperandCategory::Literal;
	if (n.rfind("Pair", 0) == 0) return c == G::OperandCategory::Composite;
	bool mask = (unsigned)k <= (unsigned)K::FragmentShadingRate || k == K::CooperativeMatrixOperands;
	return c == (mask ? G::OperandCategory::BitEnum : G::OperandCategory::ValueEnum);
}
static bool same(const Vector<G::Operand>& v, const char* spec)
{
	std::vector<std::string> w; for (const char* p = spec; *p; ) { const char* q = strchr(p, ' '); w.push_back(q ? std::string(p, q - p) : std::string(p)); p = q ? q + 1 : p + strlen(p); }
	if (w.size() != v.size()) return false;
	for (size_t i = 0; i < w.size(); ++i)
	{
		char q = w[i].back(); std::string k = w[i].substr(0, w[i].size() - 1); const G::Operand& o = v[i];
		if (kindOf(k) != (int)o.kind || !categoryOk(o.kind, o.category)) return false;
		if (o.quantifier != (q == '1' ? G::Quantifier::One : q == '?' ? G::Quantifier::ZeroOrOne : G::Quantifier::ZeroOrAny)) return false;
	}
	return true;
}
struct PlainAllocator : IAllocator { void* allocate(sgt_size_t n, unsigned) override { return malloc(n); } void deallocate(void* p, sgt_size_t) override { free(p); } };
static PlainAllocator grA;
static const G& gr() { static G* g = (G*)malloc(sizeof(G)); static bool once = (new (g) G(&grA), true); (void)once; return *g; }
// an opcode may carry several names that differ in the vendor suffix
static std::string stem(std::string n) { for (const char* x : {"KHR", "NV", "EXT", "INTEL", "GOOGLE"}) if (n.size() > strlen(x) && n.compare(n.size() - strlen(x), strlen(x), x) == 0) return n.substr(0, n.size() - strlen(x)); return n; }
static void check_table(const SpecOp* s, size_t n, G::Extension e)
{
	static const SpecOp* at[0x10000]; for (auto& a : at) a = nullptr;
	for (size_t i = 0; i < n; ++i) at[s[i].op] = s + i;
	for (unsigned op = 0; op < 0x10000; ++op)
	{
		const SpecOp* x = at[op];
		const G::Instruction* info = gr().getInfo(op, e);
		if (!x) { vc_assert(info == nullptr, "no entry for an unknown opcode"); continue; }
		vc_assert(info != nullptr, "every known opcode has a grammar entry");
		vc_assert(same(info->operands, x->operands), "operands of the grammar entry");
		vc_assert(info->name != nullptr && stem(info->name) == stem(x->name), "name of the grammar entry");
	}
}
VC_BOUNDED(gr_core)
{
	check_table(specOps, sizeof(specOps) / sizeof(*specOps), G::Extension::Core);
	for (unsigned op = 0; op < 0x10000; ++op) if (const G::Instruction* i = gr().getInfo(op))
	{
		bool r = false, t = false; for (const auto& o : i->operands) { r |= o.kind == K::IdResult; t |= o.kind == K::IdResultType; }
		vc_assert(r == spv::HasResult((spv::Op)op) && t == spv::HasResultType((spv::Op)op), "grammar and tables agree on results");
		if (t) vc_assert(i->operands[0].kind == K::IdResultType && i->operands[1].kind == K::IdResult, "result type first, then result");
		else if (r) vc_assert(i->operands[0].kind == K::IdResult, "result first");
	}
	vc_cover("end");
}
VC_BOUNDED(gr_glsl) { check_table(specGlsl, sizeof(specGlsl) / sizeof(*specGlsl), G::Extension::Glsl); vc_cover("end"); }
VC_BOUNDED(gr_opencl) { check_table(specOpenCl, sizeof(specOpenCl) / sizeof(*specOpenCl), G::Extension::OpenCl); vc_cover("end"); }
VC_BOUNDED(gr_parameters)
{
	bool any[61] = {};
	for (const auto& p : specParams)
	{
		int k = kindOf(p.kind); if (k < 0) continue;
		any[k] = true;
		if (gr().getOperandName((K)k, p.value) == nullptr) continue;   // enumerant added after this grammar was generated
		const auto* v = gr().getOperandParameters((K)k, p.value);
		vc_assert(v != nullptr && same(*v, p.params), "parameters of the enumerant");
	}
	for (int k = 0; k <= 60; ++k)
	{
		vc_assert(G::hasOperandParameters((K)k) == any[k], "hasOperandParameters");
		for (unsigned v = 0; v < 0x10000; ++v)
		{
			bool have = gr().getOperandParameters((K)k, v) != nullptr, spec = false;
			if (k == (int)K::Decoration && (v == 6147 || v == 6148 || v == 6168)) continue;   // renumbered by later grammars

			if (have) for (const auto& p : specParams) if (p.value == v && kindOf(p.kind) == k) spec = true;
			vc_assert(!have || spec, "no parameters for other enumerants");
		}
		const auto* b = gr().getOperandBases((K)k); std::string n = kindNames[k];
		vc_assert((b != nullptr) == (n.rfind("Pair", 0) == 0), "exactly the pairs have bases");
		if (b) vc_assert(same(*b, k == 58 ? "LiteralInteger1 IdRef1" : k == 59 ? "IdRef1 LiteralInteger1" : "IdRef1 IdRef1"), "bases of a pair");
	}
	vc_cover("end");
}
#endif
