// Contracts of the instruction builders (C27): what a builder emits is the operation it is named after, with its arguments as operands
// in SPIR-V order (result type, result id, arguments), or nothing but the module's error instruction; operands SPIR-V allows are
// accepted and the inferred result type is the one SPIR-V prescribes for them.
#include "vc_instr.h"
#include "spvgentwo/Function.h"
#include "spvgentwo/Type.h"
#include "spvgentwo/ModuleTemplate.inl"
#include "spvgentwo/FunctionTemplate.inl"
#include "spvgentwo/TypeInferenceAndValiation.h"
// method, opcode, operand type: Float, signed Int, Unsigned, Bool, N: integer of either sign (M: the operands' signs may differ)
#define UNARY(X) X(opConvertFToU, OpConvertFToU, F) X(opConvertFToS, OpConvertFToS, F) X(opConvertSToF, OpConvertSToF, I) X(opConvertUToF, OpConvertUToF, U) X(opSatConvertSToU, OpSatConvertSToU, N) X(opSatConvertUToS, OpSatConvertUToS, N) X(opSNegate, OpSNegate, I) X(opFNegate, OpFNegate, F) \
	X(opIsNan, OpIsNan, F) X(opIsInf, OpIsInf, F) X(opIsFinite, OpIsFinite, F) X(opIsNormal, OpIsNormal, F) X(opSignBitSet, OpSignBitSet, F) X(opLogicalNot, OpLogicalNot, B) X(opNot, OpNot, N) X(opBitReverse, OpBitReverse, N) X(opBitCount, OpBitCount, N) \
	X(opDPdx, OpDPdx, F) X(opDPdy, OpDPdy, F) X(opFwidth, OpFwidth, F) X(opDPdxFine, OpDPdxFine, F) X(opDPdyFine, OpDPdyFine, F) X(opFwidthFine, OpFwidthFine, F) X(opDPdxCoarse, OpDPdxCoarse, F) X(opDPdyCoarse, OpDPdyCoarse, F) X(opFwidthCoarse, OpFwidthCoarse, F)
#define BINARY(X) X(opIAdd, OpIAdd, N) X(opFAdd, OpFAdd, F) X(opISub, OpISub, N) X(opFSub, OpFSub, F) X(opIMul, OpIMul, N) X(opFMul, OpFMul, F) X(opUDiv, OpUDiv, U) X(opSDiv, OpSDiv, N) X(opFDiv, OpFDiv, F) X(opUMod, OpUMod, U) X(opSRem, OpSRem, N) X(opSMod, OpSMod, N) X(opFRem, OpFRem, F) X(opFMod, OpFMod, F)
#define BINARY2(X) X(opIAddCarry, OpIAddCarry, U) X(opISubBorrow, OpISubBorrow, U) X(opUMulExtended, OpUMulExtended, U) X(OpSMulExtended, OpSMulExtended, I) X(opOrdered, OpOrdered, F) X(opUnordered, OpUnordered, F) X(opLogicalEqual, OpLogicalEqual, B) X(opLogicalNotEqual, OpLogicalNotEqual, B) X(opLogicalOr, OpLogicalOr, B) X(opLogicalAnd, OpLogicalAnd, B)
#define COMPARE(X) X(opIEqual, OpIEqual, N) X(opINotEqual, OpINotEqual, N) X(opUGreaterThan, OpUGreaterThan, N) X(opUGreaterThanEqual, OpUGreaterThanEqual, N) X(opSGreaterThan, OpSGreaterThan, N) X(opSGreaterThanEqual, OpSGreaterThanEqual, N) X(opULessThan, OpULessThan, N) X(opULessThanEqual, OpULessThanEqual, N) X(opSLessThan, OpSLessThan, N) X(opSLessThanEqual, OpSLessThanEqual, N)
#define COMPARE2(X) X(opFOrdEqual, OpFOrdEqual, F) X(opFUnordEqual, OpFUnordEqual, F) X(opFOrdNotEqual, OpFOrdNotEqual, F) X(opFUnordNotEqual, OpFUnordNotEqual, F) X(opFOrdLessThan, OpFOrdLessThan, F) X(opFUnordLessThan, OpFUnordLessThan, F) X(opFOrdGreaterThan, OpFOrdGreaterThan, F) X(opFUnordGreaterThan, OpFUnordGreaterThan, F) X(opFOrdLessThanEqual, OpFOrdLessThanEqual, F) X(opFUnordLessThanEqual, OpFUnordLessThanEqual, F) X(opFOrdGreaterThanEqual, OpFOrdGreaterThanEqual, F) X(opFUnordGreaterThanEqual, OpFUnordGreaterThanEqual, F)
#define BITS(X) X(opShiftRightLogical, OpShiftRightLogical, M) X(opShiftRightArithmetic, OpShiftRightArithmetic, M) X(opShiftLeftLogical, OpShiftLeftLogical, M) X(opBitwiseOr, OpBitwiseOr, M) X(opBitwiseXor, OpBitwiseXor, M) X(opBitwiseAnd, OpBitwiseAnd, M)
// operations by the rule for their result type
#define SAME1(S) S(OpFNegate) S(OpNot) S(OpFwidth) S(OpFwidthCoarse) S(OpFwidthFine) S(OpDPdx) S(OpDPdy) S(OpDPdxFine) S(OpDPdyFine) S(OpDPdxCoarse) S(OpDPdyCoarse) S(OpBitReverse) S(OpBitCount) S(OpLogicalNot) S(OpSatConvertSToU) S(OpSatConvertUToS) S(OpCopyObject) S(OpVectorInsertDynamic) S(OpIAdd) S(OpISub) S(OpFAdd) S(OpFSub) S(OpIMul) S(OpFMul) S(OpUDiv) S(OpFDiv) S(OpUMod) S(OpFRem) S(OpFMod) S(OpShiftRightLogical) S(OpShiftRightArithmetic) S(OpShiftLeftLogical) S(OpBitFieldSExtract) S(OpBitFieldUExtract)
#define SAME2(S) S(OpBitwiseOr) S(OpBitwiseXor) S(OpBitwiseAnd) S(OpLogicalEqual) S(OpLogicalNotEqual) S(OpLogicalOr) S(OpLogicalAnd) S(OpBitFieldInsert) S(OpSelect)
#define SIGNED(S) S(OpSNegate) S(OpSDiv) S(OpSRem) S(OpSMod)
#define TRUTH(S) S(OpAny) S(OpAll) S(OpPtrEqual) S(OpPtrNotEqual)
#define TRUTHS(S) S(OpIEqual) S(OpINotEqual) S(OpUGreaterThan) S(OpSGreaterThan) S(OpUGreaterThanEqual) S(OpSGreaterThanEqual) S(OpULessThan) S(OpSLessThan) S(OpULessThanEqual) S(OpSLessThanEqual) S(OpFOrdEqual) S(OpFUnordEqual) S(OpFOrdNotEqual) S(OpFUnordNotEqual) S(OpFOrdLessThan) S(OpFUnordLessThan) S(OpFOrdGreaterThan) S(OpFUnordGreaterThan) S(OpFOrdLessThanEqual) S(OpFUnordLessThanEqual) S(OpFOrdGreaterThanEqual) S(OpFUnordGreaterThanEqual) S(OpIsNan) S(OpIsInf) S(OpIsFinite) S(OpIsNormal) S(OpSignBitSet) S(OpLessOrGreater) S(OpOrdered) S(OpUnordered)
#define TEXELS(S) S(OpImageSampleImplicitLod) S(OpImageSampleExplicitLod) S(OpImageSampleDrefImplicitLod) S(OpImageSampleDrefExplicitLod) S(OpImageSampleProjImplicitLod) S(OpImageSampleProjExplicitLod) S(OpImageSampleProjDrefImplicitLod) S(OpImageSampleProjDrefExplicitLod) S(OpImageFetch) S(OpImageGather) S(OpImageDrefGather) S(OpImageRead)
using O = spv::Op;
enum Base { I, U, F, B, N, M };
#ifdef VC_SYMBOLIC
template<class T> union RawOf { char c; T x; RawOf() {} ~RawOf() {} };
static IAllocator* heap;
// an arbitrary type: a scalar, a vector, a matrix, or any other with or without a subtype; or none
struct Any {
	RawOf<Type> t; RawOf<Entry<Type>> e1, e2; bool has, vector, scalar, matrix; O comp, mid; unsigned width, count, rows, depth; bool sign; // (a vector: count components; a matrix: count columns of rows components)
	static bool leaf(const Type& x) { return (x.m_Type == O::OpTypeInt) | (x.m_Type == O::OpTypeFloat) | (x.m_Type == O::OpTypeBool); }
	static bool plain(const Type& x) { return (x.m_Type != O::OpTypeVector) & (x.m_Type != O::OpTypeMatrix); }
	static void fields(Type& x)
	{
		x.m_Type = (O)vc_u32("op"); x.m_IntWidth = vc_u32("width"); x.m_IntSign = vc_bool("sign"); x.m_subTypes.m_pBegin = x.m_subTypes.m_pLast = nullptr; x.m_subTypes.m_Elements = 0; x.m_subTypes.m_pAllocator = heap; vc_assume((x.m_Type == O::OpTypeInt) | !x.m_IntSign);
		vc_assume(!leaf(x) | ((x.m_Type == O::OpTypeBool) == (x.m_IntWidth == 0))); x.m_StorageClass = (spv::StorageClass)vc_u32("storage"); vc_assume(!leaf(x) | (x.m_StorageClass == spv::StorageClass::Generic)); x.m_ImgDimension = spv::Dim::Max; x.m_ImgArray = x.m_ImgMultiSampled = false; x.m_ImgSamplerAccess = SamplerImageAccess::Unknown; x.m_ImgFormat = spv::ImageFormat::Unknown; x.m_AccessQualifier = spv::AccessQualifier::Max;
	}
	static Type& sub(Type& x, RawOf<Entry<Type>>& e) { x.m_subTypes.m_pBegin = x.m_subTypes.m_pLast = &e.x; x.m_subTypes.m_Elements = 1; e.x.m_pPrev = e.x.m_pNext = nullptr; fields(e.x.m_data); return e.x.m_data; }
	void init()
	{
		has = vc_bool("typed"); vector = scalar = matrix = false; comp = mid = O::OpNop; width = count = rows = depth = 0; sign = false; if (!has) return;
		Type& x = t.x; fields(x); Type* base = &x; depth = (unsigned)vc_below("depth", 3);
		if (depth == 0) {
			vc_assume(plain(x) & (x.m_Type != O::OpTypePointer)); scalar = leaf(x); x.m_ImgDimension = (spv::Dim)vc_u32("dim"); x.m_ImgArray = vc_bool("array"); x.m_ImgMultiSampled = vc_bool("ms"); x.m_ImgSamplerAccess = (SamplerImageAccess)vc_u32("sampled"); x.m_ImgFormat = (spv::ImageFormat)vc_u32("format");
			vc_assume((x.m_Type == O::OpTypeImage) | ((x.m_ImgDimension == spv::Dim::Max) & !x.m_ImgArray & !x.m_ImgMultiSampled & (x.m_ImgSamplerAccess == SamplerImageAccess::Unknown) & (x.m_ImgFormat == spv::ImageFormat::Unknown))); }
		else { vc_assume(!leaf(x)); Type& y = sub(x, e1); base = &y; if (depth == 1) { vector = x.m_Type == O::OpTypeVector; vc_assume((x.m_Type != O::OpTypeMatrix) & plain(y) & (!vector | leaf(y))); } else { base = &sub(y, e2); vc_assume((x.m_Type != O::OpTypeVector) & !leaf(y) & plain(*base) & ((y.m_Type != O::OpTypeVector) | leaf(*base))); matrix = x.m_Type == O::OpTypeMatrix; rows = y.m_VecComponentCount; mid = y.m_Type; vc_assume(!matrix | ((y.m_Type == O::OpTypeVector) & (base->m_Type == O::OpTypeFloat))); } }
		comp = base->m_Type; width = base->m_IntWidth; sign = base->m_IntSign; count = x.m_VecComponentCount;
	}
	bool of(Base k) const { return has & (scalar | vector) & (((k == F) & (comp == O::OpTypeFloat)) | ((k == B) & (comp == O::OpTypeBool)) | ((k != F) & (k != B) & (comp == O::OpTypeInt) & ((k != I) | sign) & ((k != U) | !sign))); }
	bool floats(const Any& o) const { return has & o.has & (comp == O::OpTypeFloat) & (o.comp == O::OpTypeFloat) & (width == o.width); }
	// (equality of images is not at issue)
	static bool eq(const Type& a, const Type& b) { return (a.m_Type == b.m_Type) & (a.m_IntWidth == b.m_IntWidth) & (a.m_IntSign == b.m_IntSign) & (a.m_StorageClass == b.m_StorageClass); }
	bool same(const Any& o) const { if (!has) return false; if (!o.has) return false; if (depth != o.depth) return false; bool e = eq(t.x, o.t.x); if (depth == 0) return e; e = e & eq(e1.x.m_data, o.e1.x.m_data); if (depth == 1) return e; return e & eq(e2.x.m_data, o.e2.x.m_data); }
	bool pointsTo(const Any& o) const { if (!has) return false; if (!o.has) return false; if (depth != o.depth + 1) return false; bool e = (t.x.m_Type == O::OpTypePointer) & eq(e1.x.m_data, o.t.x); if (depth == 1) return e; return e & eq(e2.x.m_data, o.e1.x.m_data); }
	bool sameShape(const Any& o) const { return (width == o.width) & (vector == o.vector) & (!vector | (count == o.count)); }
};
static Any X, Y, Z; static Instruction *A1, *A2, *A3, *I0, *err, *E[4], *resultType; static unsigned args; static O want; static bool inferred, select, inferring; static Instruction *T1, *T2;
struct Raw { unsigned kind; unsigned long long v; }; static Raw raw[6]; static unsigned raws; // (of the builders without a result: all the operands)
extern "C" const Type* ct_type(const Instruction* i) { if (inferring) { vc_assert(i == T1 || i == T2, "the types asked for are those of the arguments"); return i == T1 ? &X.t.x : &Y.t.x; } vc_assert(i == A1 || i == A2 || i == A3, "the types asked for are those of the arguments"); Any& a = i == A1 ? X : i == A2 ? Y : Z; return a.has ? &a.t.x : nullptr; }
// equality of types by its contract (C16)
static bool flat(const Type* a, const Type* b) { return Any::eq(*a, *b) & (a->m_ImgDimension == b->m_ImgDimension) & (a->m_ImgArray == b->m_ImgArray) & (a->m_ImgMultiSampled == b->m_ImgMultiSampled) & (a->m_ImgSamplerAccess == b->m_ImgSamplerAccess) & (a->m_ImgFormat == b->m_ImgFormat) & (a->m_AccessQualifier == b->m_AccessQualifier); }
static const Type* sub(const Type* a) { return a->m_subTypes.m_Elements == 0 ? nullptr : &a->m_subTypes.m_pBegin->m_data; }
extern "C" bool ct_equal(const Type* a, const Type* b)
{
	vc_assert(a != nullptr && b != nullptr, "types are compared");
	bool e = flat(a, b); a = sub(a); b = sub(b); if (!a || !b) return e & (a == b);
	e = e & flat(a, b); a = sub(a); b = sub(b); if (!a || !b) return e & (a == b);
	e = e & flat(a, b); a = sub(a); b = sub(b); vc_assert(!a && !b, "types of three levels"); return e;
}
extern "C" Instruction* ct_error(const Instruction*) { return err; }
extern "C" Instruction* ct_result_type(const Instruction* i) { if (inferring) { vc_assert(i == A1 || i == A2, "the types asked for are those of the arguments"); return i == A1 ? T1 : T2; } vc_assert(i == E[0], "the type asked for is that of the result"); return resultType; }
extern "C" void ct_version(Module*, unsigned char, unsigned char) { }
// the result type and id are placeholders, filled by inference and id assignment (or the type is an argument's); the arguments follow in order
static void emitted(const Instruction& J)
{
	vc_assert(J.m_Operation == want, "the operation asked for is emitted"); auto it = J.begin();
	if (raws) { vc_assert(J.size() == raws - 1, "all the arguments and no other operands"); for (unsigned i = 0; i + 1 < raws; ++i, ++it) vc_assert((unsigned)it->type == raw[i].kind && (it->isLiteral() ? (unsigned long long)it->literal.value : (unsigned long long)it->instruction) == raw[i].v, "the arguments are the operands, in order"); return; }
	vc_assert(J.size() == 2 + args, "a result type, a result id and the arguments");
	vc_assert(it->isInstruction() && (it->instruction == nullptr || it->instruction == resultType), "the result type is to be inferred"); ++it; vc_assert(it->isId() && (unsigned)it->id == (unsigned)InvalidId, "the result id is to be assigned"); ++it;
	if (select) E[0] = A1, E[1] = A2; for (unsigned i = 0; i < args; ++i, ++it) vc_assert(it->isInstruction() && it->instruction == E[i], "the arguments are the operands, in order");
}
extern "C" Instruction* ct_infer(Instruction* i) { vc_assert(i == I0 && !inferred, "the result type is inferred once"); emitted(*i); inferred = true; return nullptr; }
#define SETUP(n) VC_INSTR(J); Ops o(J, 0); I0 = &J; inferred = false; raws = 0; E[0] = A1 = (Instruction*)vc_opaque("first"); E[1] = A2 = (Instruction*)vc_opaque("second"); E[2] = A3 = (Instruction*)vc_opaque("third"); err = (Instruction*)vc_opaque("error"); vc_assume(A1 != nullptr); vc_assume(A2 != nullptr); vc_assume(A3 != nullptr); vc_assume(A1 != A2); vc_assume(A1 != A3); vc_assume(A2 != A3); resultType = nullptr; select = false; vc_assume(J.m_parent.pModule != nullptr); X.init(); if (n > 1) Y.init(); if (n > 2) Z.init(); args = n; unsigned op0 = (unsigned)J.m_Operation
static void outcome(Instruction& J, unsigned op0, Instruction* r, bool ok)
{
	if (ok) { vc_assert(r == &J && inferred, "operands SPIR-V allows are accepted"); emitted(J); } else { vc_assert(r == err && !inferred, "operands SPIR-V does not allow yield the error instruction"); vc_assert((unsigned)J.m_Operation == op0 && J.empty(), "nothing is emitted"); }
	vc_cover("end");
}
static bool pair(Base k) { return X.of(k) & Y.of(k) & X.sameShape(Y); }
#define CASES(table, x) static_assert(true); enum { table##Begin = __COUNTER__ };
CASES(unary, 0)
#define XU(m, o, k) case __COUNTER__ - unaryBegin - 1: want = O::o; r = J.m(A1); ok = X.of(k); break;
VC_HARNESS(build_unary) { SETUP(1); bool ok = false; Instruction* r = nullptr; switch (vc_below("op", 26)) { UNARY(XU) default: return; } outcome(J, op0, r, ok); }
#define BIN(table, T, count) VC_HARNESS(build_##table) { SETUP(2); bool ok = false; Instruction* r = nullptr; switch (vc_below("op", count)) { T default: return; } outcome(J, op0, r, ok); }
#define X1(m, o, k) case __COUNTER__ - binaryBegin - 1: want = O::o; r = J.m(A1, A2); ok = pair(k); break;
CASES(binary, 0)
BIN(binary, BINARY(X1), 14)
#define X2(m, o, k) case __COUNTER__ - binary2Begin - 1: want = O::o; r = J.m(A1, A2); ok = pair(k); break;
CASES(binary2, 0)
BIN(binary2, BINARY2(X2), 10)
#define X3(m, o, k) case __COUNTER__ - compareBegin - 1: want = O::o; r = J.m(A1, A2); ok = pair(k); break;
CASES(compare, 0)
BIN(compare, COMPARE(X3), 10)
#define X4(m, o, k) case __COUNTER__ - compare2Begin - 1: want = O::o; r = J.m(A1, A2); ok = pair(k); break;
CASES(compare2, 0)
BIN(compare2, COMPARE2(X4), 12)
#define X5(m, o, k) case __COUNTER__ - bitsBegin - 1: want = O::o; r = J.m(A1, A2); ok = pair(k); break;
CASES(bits, 0)
BIN(bits, BITS(X5), 6)
// the operators that pick the operation by operand type
static bool both(O t) { return X.has & Y.has & (X.comp == t) & (Y.comp == t); }
static O choose(O s, O u, O f, O l) { unsigned i = both(O::OpTypeInt), un = i & !X.sign & !Y.sign, si = i & !un; return (O)(un * (unsigned)u + si * (unsigned)s + both(O::OpTypeFloat) * (unsigned)f + both(O::OpTypeBool) * (unsigned)l); }
#define PICK(c, m, s, u, f, l) case c: want = choose(O::s, O::u, O::f, O::l); r = J.m(A1, A2); ok = pair(F) | pair(N) | (pair(B) & (O::l != O::OpNop)); break;
VC_HARNESS(build_add) { SETUP(2); bool ok = false; Instruction* r = nullptr; switch (vc_below("op", 2)) { PICK(0, Add, OpIAdd, OpIAdd, OpFAdd, OpNop) default: PICK(1, Sub, OpISub, OpISub, OpFSub, OpNop) } outcome(J, op0, r, ok); }
VC_HARNESS(build_equal) { SETUP(2); bool ok = false; Instruction* r = nullptr; switch (vc_below("op", 2)) { PICK(0, Equal, OpIEqual, OpIEqual, OpFOrdEqual, OpLogicalEqual) default: PICK(1, NotEqual, OpINotEqual, OpINotEqual, OpFOrdNotEqual, OpLogicalNotEqual) } outcome(J, op0, r, ok); }
// (comparing a signed with an unsigned integer leaves open which of the two orders is meant)
VC_HARNESS(build_order)
{
	SETUP(2); vc_assume((!both(O::OpTypeInt)) | (X.sign == Y.sign)); bool ok = false; Instruction* r = nullptr;
	switch (vc_below("op", 4)) { PICK(0, Greater, OpSGreaterThan, OpUGreaterThan, OpFOrdGreaterThan, OpNop) PICK(1, GreaterEqual, OpSGreaterThanEqual, OpUGreaterThanEqual, OpFOrdGreaterThanEqual, OpNop) PICK(2, Less, OpSLessThan, OpULessThan, OpFOrdLessThan, OpNop) default: PICK(3, LessEqual, OpSLessThanEqual, OpULessThanEqual, OpFOrdLessThanEqual, OpNop) }
	outcome(J, op0, r, ok);
}
VC_HARNESS(build_not) { SETUP(1); want = (O)((X.comp == O::OpTypeInt) * (unsigned)O::OpNot + (X.comp != O::OpTypeInt) * (unsigned)O::OpLogicalNot); Instruction* r = J.Not(A1); outcome(J, op0, r, X.of(N) | X.of(B)); }
// vectors and matrices
static void someResultType() { resultType = (Instruction*)vc_opaque("result type"); vc_assume(resultType != nullptr); }
static bool vec(const Any& a) { return a.has & a.vector; }
static bool sca(const Any& a) { return a.has & a.scalar; }
static bool mat(const Any& a) { return a.has & a.matrix; }
VC_HARNESS(build_matrix)
{
	SETUP(2); bool ok = false; Instruction* r = nullptr; bool fl = X.floats(Y);
	switch (vc_below("op", 6)) {
	case 0: someResultType(); want = O::OpVectorTimesScalar; ok = fl & vec(X) & sca(Y); r = J.opVectorTimesScalar(A1, A2); break;
	case 1: someResultType(); want = O::OpMatrixTimesScalar; ok = fl & mat(X) & sca(Y); r = J.opMatrixTimesScalar(A1, A2); break;
	case 2: want = O::OpVectorTimesMatrix; ok = fl & vec(X) & mat(Y) & (X.count == Y.rows); r = J.opVectorTimesMatrix(A1, A2); break;
	case 3: want = O::OpMatrixTimesVector; ok = fl & mat(X) & vec(Y) & (X.count == Y.count); r = J.opMatrixTimesVector(A1, A2); break;
	case 4: want = O::OpMatrixTimesMatrix; ok = fl & mat(X) & mat(Y) & (X.count == Y.rows); r = J.opMatrixTimesMatrix(A1, A2); break;
	default: want = O::OpOuterProduct; ok = fl & vec(X) & vec(Y); r = J.opOuterProduct(A1, A2); }
	outcome(J, op0, r, ok);
}
VC_HARNESS(build_reduce)
{
	SETUP(1); bool ok = false; Instruction* r = nullptr;
	switch (vc_below("op", 3)) {
	case 0: want = O::OpTranspose; ok = mat(X); r = J.opTranspose(A1); break;
	case 1: want = O::OpAny; ok = vec(X) & X.of(B); r = J.opAny(A1); break;
	default: want = O::OpAll; ok = vec(X) & X.of(B); r = J.opAll(A1); }
	outcome(J, op0, r, ok);
}
VC_HARNESS(build_bitfield)
{
	bool ins = vc_bool("insert"); SETUP(3); someResultType(); Instruction* A4 = A3; bool idx = Z.of(N) & sca(Z); Instruction* r;
	if (ins) { args = 4; want = O::OpBitFieldInsert; E[3] = A3; r = J.opBitFieldInsert(A1, A2, A3, A4); outcome(J, op0, r, X.of(N) & X.same(Y) & idx); }
	else { bool sg = vc_bool("signed"); want = sg ? O::OpBitFieldSExtract : O::OpBitFieldUExtract; r = sg ? J.opBitFieldSExtract(A1, A2, A3) : J.opBitFieldUExtract(A1, A2, A3); outcome(J, op0, r, X.of(N) & Y.of(N) & sca(Y) & idx); }
}
VC_HARNESS(build_generic_mul)
{
	SETUP(2); bool fl = X.floats(Y), i = pair(N), f = pair(F), vs = fl & vec(X) & sca(Y), sv = fl & sca(X) & vec(Y), ms = fl & mat(X) & sca(Y), sm = fl & sca(X) & mat(Y), vm = fl & vec(X) & mat(Y) & (X.count == Y.rows), mv = fl & mat(X) & vec(Y) & (X.count == Y.count), mm = fl & mat(X) & mat(Y) & (X.count == Y.rows);
	someResultType(); want = (O)(i * (unsigned)O::OpIMul + f * (unsigned)O::OpFMul + (vs | sv) * (unsigned)O::OpVectorTimesScalar + (ms | sm) * (unsigned)O::OpMatrixTimesScalar + vm * (unsigned)O::OpVectorTimesMatrix + mv * (unsigned)O::OpMatrixTimesVector + mm * (unsigned)O::OpMatrixTimesMatrix);
	if (sv | sm) { E[0] = A2; E[1] = A1; } outcome(J, op0, J.Mul(A1, A2), i | f | vs | sv | ms | sm | vm | mv | mm);
}
// (outside a block a vector is not divided by a scalar; in one: see build_generic_mul)
VC_HARNESS(build_div) { SETUP(2); vc_assume((!both(O::OpTypeInt)) | (X.sign == Y.sign)); bool ok = false; Instruction* r = nullptr; switch (0) { PICK(0, Div, OpSDiv, OpUDiv, OpFDiv, OpNop) } outcome(J, op0, r, ok); }
VC_HARNESS(build_select)
{
	SETUP(3); someResultType(); want = O::OpSelect; O t = Y.t.x.m_Type; E[0] = A2; /* (whose type is asked for) */ bool whole = sca(Y) | (Y.has & ((t == O::OpTypeVector) | (t == O::OpTypePointer) | (t == O::OpTypeMatrix) | (t == O::OpTypeStruct) | (t == O::OpTypeArray))); bool ok = Y.same(Z) & X.of(B) & (sca(X) | (vec(X) & vec(Y) & (X.count == Y.count))) & whole;
	select = true; Instruction* r = J.opSelect(A1, A2, A3); outcome(J, op0, r, ok); select = false;
}
VC_HARNESS(build_pointers)
{
	SETUP(2); bool ok = X.same(Y) & (X.t.x.m_Type == O::OpTypePointer), ne = vc_bool("ne"); want = ne ? O::OpPtrNotEqual : O::OpPtrEqual; Instruction* r = ne ? J.opPtrNotEqual(A1, A2) : J.opPtrEqual(A1, A2); outcome(J, op0, r, ok);
}
VC_HARNESS(build_store)
{
	SETUP(2); vc_assume(Y.t.x.m_Type != O::OpTypeImage); want = O::OpStore; raws = 4; raw[0] = Raw{ 0, (unsigned long long)A1 }; raw[1] = Raw{ 0, (unsigned long long)A2 }; unsigned f = vc_bool("volatile"), al = vc_u32("alignment"); bool aligned = vc_bool("aligned"); raw[2] = Raw{ (unsigned)Operand::Type::Literal, aligned ? 2u : f };
	if (aligned) { raws = 5; raw[3] = Raw{ (unsigned)Operand::Type::Literal, al }; J.opStore(A1, A2, spv::MemoryAccessMask::Aligned, literal_t{ al }); } else J.opStore(A1, A2, (spv::MemoryAccessMask)f);
	if (X.pointsTo(Y)) { vc_assert(inferred, "operands SPIR-V allows are accepted"); emitted(J); } else vc_assert(!inferred && (unsigned)J.m_Operation == op0 && J.empty(), "nothing is emitted"); vc_cover("end");
}
VC_HARNESS(build_insert) { SETUP(3); want = O::OpVectorInsertDynamic; bool ok = vec(X) & sca(Y) & Any::eq(X.e1.x.m_data, Y.t.x) & sca(Z) & Z.of(N); outcome(J, op0, J.opVectorInsertDynamic(A1, A2, A3), ok); }
// (reinterpreting a pointer as a number depends on the addressing model)
static bool num(const Any& a) { return a.of(N) | a.of(F); }
static unsigned long long bits(const Any& a) { return (unsigned long long)(a.vector * a.count + a.scalar) * a.width; }
VC_HARNESS(build_bitcast)
{
	SETUP(2); want = O::OpBitcast; bool px = X.t.x.m_Type == O::OpTypePointer, py = Y.t.x.m_Type == O::OpTypePointer; vc_assume(!X.has | !Y.has | (px == py)); vc_assume(X.t.x.m_Type != O::OpTypeImage); vc_assume((X.count < 17) & (Y.count < 17) & (X.width < 65) & (Y.width < 65)); bool ok = X.has & Y.has & !X.same(Y) & ((px & py) | (num(X) & num(Y) & (bits(X) == bits(Y))));
	resultType = A1; E[0] = A2; args = 1; outcome(J, op0, J.opBitcast(A1, A2), ok);
}
VC_HARNESS(build_quantize) { SETUP(1); someResultType(); want = O::OpQuantizeToF16; outcome(J, op0, J.opQuantizeToF16(A1), X.of(F) & (X.width == 32)); }
VC_HARNESS(build_query)
{
	SETUP(2); const Type& i = X.t.x; bool img = X.has & (i.m_Type == O::OpTypeImage) & (X.depth == 0), known = i.m_ImgFormat != spv::ImageFormat::Unknown, ms = i.m_ImgMultiSampled; spv::Dim d = i.m_ImgDimension; bool flat = (d == spv::Dim::Dim1D) | (d == spv::Dim::Dim2D) | (d == spv::Dim::Dim3D) | (d == spv::Dim::Cube), ok = false; args = 1; Instruction* r = nullptr;
	vc_assume(!X.has | (X.depth == 0) | (i.m_Type != O::OpTypeImage));
	switch (vc_below("op", 7)) {
	case 0: want = O::OpImageQueryFormat; vc_assume(!img | !known); ok = img; r = J.opImageQueryFormat(A1); break;
	case 1: want = O::OpImageQueryOrder; vc_assume(!img | !known); ok = img; r = J.opImageQueryOrder(A1); break;
	case 2: want = O::OpImageQuerySizeLod; args = 2; vc_assume(!Y.of(I)); ok = img & flat & !ms & sca(Y) & Y.of(U); r = J.opImageQuerySizeLod(A1, A2); break;
	case 3: want = O::OpImageQuerySize; vc_assume(d != spv::Dim::Buffer); ok = img & ((flat & (ms | (i.m_ImgSamplerAccess != SamplerImageAccess::Sampled))) | (d == spv::Dim::Rect)); r = J.opImageQuerySize(A1); break;
	case 4: want = O::OpImageQueryLevels; ok = img & flat; r = J.opImageQueryLevels(A1); break;
	case 5: want = O::OpImageQuerySamples; ok = img & (d == spv::Dim::Dim2D) & ms; r = J.opImageQuerySamples(A1); break;
	default: want = O::OpSampledImage; args = 2; ok = img & (i.m_ImgSamplerAccess != SamplerImageAccess::Storage) & (d != spv::Dim::SubpassData) & Y.has & (Y.t.x.m_Type == O::OpTypeSampler); r = J.opSampledImage(A1, A2); }
	outcome(J, op0, r, ok);
}
// control flow: all operands are the caller's
static BasicBlock* someBlock(const char* n) { BasicBlock* b = (BasicBlock*)vc_opaque(n); vc_assume(b != nullptr); return b; }
VC_HARNESS(build_flow)
{
	VC_INSTR(J); Ops o(J, 0); I0 = &J; inferred = false; BasicBlock *t = someBlock("target"), *e = someBlock("other"); Instruction* c = (Instruction*)vc_opaque("condition"); vc_assume(c != nullptr); unsigned w = vc_u32("weight"), w2 = vc_u32("weight2"); const unsigned BT = (unsigned)Operand::Type::BranchTarget, IN = (unsigned)Operand::Type::Instruction, LT = (unsigned)Operand::Type::Literal;
	auto a = [&](unsigned k, unsigned long long v) { raw[raws++ - 1] = Raw{ k, v }; }; raws = 1; Instruction* r = &J;
	switch (vc_below("op", 8)) {
	case 0: want = O::OpBranch; a(BT, (unsigned long long)t); J.opBranch(t); break;
	case 1: want = O::OpBranchConditional; a(IN, (unsigned long long)c); a(BT, (unsigned long long)t); a(BT, (unsigned long long)e); J.opBranchConditional(c, t, e); break;
	case 2: want = O::OpBranchConditional; a(IN, (unsigned long long)c); a(BT, (unsigned long long)t); a(BT, (unsigned long long)e); a(LT, w); a(LT, w2); J.opBranchConditional(c, t, e, w, w2); break;
	case 3: want = O::OpSelectionMerge; a(BT, (unsigned long long)t); a(LT, w); J.opSelectionMerge(t, (spv::SelectionControlMask)w); break;
	case 4: want = O::OpLoopMerge; a(BT, (unsigned long long)t); a(BT, (unsigned long long)e); a(LT, w); J.opLoopMerge(t, e, Flag<spv::LoopControlMask>((spv::LoopControlMask)w)); break;
	case 5: want = O::OpReturn; J.opReturn(); break;
	case 6: want = O::OpKill; r = J.opKill(); break;
	default: want = O::OpUnreachable; J.opUnreachable(); }
	vc_assert(r == &J && inferred, "operands SPIR-V allows are accepted"); emitted(J); vc_cover("end");
}
// inference of the result type: the operand types are arbitrary, the type is an argument's, or a type added to the module
struct Lv { unsigned op, w; bool sign; unsigned subs; unsigned long long img; };
static unsigned long long attrs(const Type& t) { return (unsigned)t.m_ImgDimension ^ ((unsigned long long)(unsigned)t.m_ImgFormat << 32); }
static Lv lv(const Type& t) { return { (unsigned)t.m_Type, t.m_IntWidth, t.m_IntSign, (unsigned)t.m_subTypes.m_Elements, attrs(t) }; }
static Lv got[4], twin[3]; static unsigned gots, twins; static Instruction* added;
static unsigned levels(const Type* t, Lv* l) { unsigned n = 0; while (true) { l[n++] = lv(*t); if (t->m_subTypes.m_Elements == 0) return n; vc_assert(n < 4, "no deeper than the operands wrapped"); t = &t->m_subTypes.m_pBegin->m_data; } }
extern "C" Instruction* ct_addtype(Module*, const Type* t, const char*) { vc_assert(gots == 0, "one type is added"); gots = levels(t, got); if (got[0].subs == 2) twins = levels(&t->m_subTypes.m_pLast->m_data, twin); return added; }
static bool lvIs(const Lv& a, unsigned op, unsigned w, bool sign, unsigned subs) { return (a.op == op) & (a.w == w) & (a.sign == sign) & (a.subs == subs); }
static bool lvOf(const Lv& a, const Lv& b) { return lvIs(a, b.op, b.w, b.sign, b.subs) & (a.img == b.img); }
// level i and below are those of the type x
static bool below(const Lv* l, unsigned n, unsigned i, const Any& x, unsigned d = 0)
{
	if (n != i + x.depth + 1 - d) return false; bool r = true; Lv t0 = lv(x.t.x); if (d == 0) { r = r & lvOf(l[i], t0); ++i; } if (x.depth >= 1 && d <= 1) { r = r & lvOf(l[i], lv(x.e1.x.m_data)); ++i; } if (x.depth >= 2) { r = r & lvOf(l[i], lv(x.e2.x.m_data)); } return r;
}
static Instruction* column;
static bool typeIs(Instruction* r, const Any& x) { if (gots == 0) return r == (&x == &X ? T1 : T2); return (r == added) & below(got, gots, 0, x); }
// a scalar or vector shaped like x, of another component type (any of the two signs, if so asked)
static bool shaped(Instruction* r, const Any& x, unsigned op, unsigned w, bool sign, bool anySign = false)
{
	if (r != added) return false; if (x.scalar) return (gots == 1) & lvIs(got[0], op, w, anySign ? got[0].sign : sign, 0); if (gots != 2) return false; return lvIs(got[0], (unsigned)O::OpTypeVector, x.count, false, 1) & lvIs(got[1], op, w, anySign ? got[1].sign : sign, 0);
}
static bool scalarIs(Instruction* r, unsigned op, unsigned w, bool sign) { return (r == added) & (gots == 1) & lvIs(got[0], op, w, sign, 0); }
struct Bed { VcAllocator a; RawOf<Module> m; RawOf<Entry<Operand>> o[4]; RawOf<Entry<Operand>> q[3]; RawOf<Instruction> t; };
static void link(Instruction& i, RawOf<Entry<Operand>>* o, unsigned n) { for (unsigned k = 0; k < n; ++k) { o[k].x.m_pPrev = k ? &o[k - 1].x : nullptr; o[k].x.m_pNext = k + 1 < n ? &o[k + 1].x : nullptr; } i.m_pBegin = &o[0].x; i.m_pLast = &o[n - 1].x; i.m_Elements = n; }
static void put(Entry<Operand>& e, Instruction* i) { e.m_data.type = Operand::Type::Instruction; e.m_data.instruction = i; }
static void put(Entry<Operand>& e, unsigned v, Operand::Type t) { e.m_data.type = t; e.m_data.instruction = nullptr; e.m_data.literal.value = v; }
static Instruction* thing(const char* n) { Instruction* i = (Instruction*)vc_opaque(n); vc_assume(i != nullptr); return i; }
#define INFER(n) VC_INSTR(J); Bed bed; heap = &bed.a; inferring = true; raws = gots = twins = 0; bed.m.x.m_pAllocator = &bed.a; J.m_parentType = Instruction::ParentType::Module; J.m_parent.pModule = &bed.m.x; A1 = thing("first"); A2 = thing("second"); T2 = thing("type"); added = thing("added"); column = thing("column"); vc_assume(A1 != A2); vc_assume(T2 != added); T1 = &bed.t.x; vc_assume(T2 != T1); vc_assume(added != T1); \
	put(bed.o[0].x, nullptr); put(bed.o[1].x, (unsigned)InvalidId, Operand::Type::Id); put(bed.o[2].x, A1); put(bed.o[3].x, A2); link(J, bed.o, 2 + n); X.init(); vc_assume(X.has); if (n > 1) { Y.init(); vc_assume(Y.has); } \
	put(bed.q[0].x, 7u, Operand::Type::Id); put(bed.q[1].x, column); put(bed.q[2].x, X.count, Operand::Type::Literal); link(bed.t.x, bed.q, 3); bed.t.x.m_Operation = X.t.x.m_Type; bed.t.x.m_parentType = Instruction::ParentType::Module; bed.t.x.m_parent.pModule = &bed.m.x; RawOf<ITypeInferenceAndVailation> rules
#define GO rules.x.ITypeInferenceAndVailation::inferResultType(J)
#define END vc_cover("end"); inferring = false; heap = nullptr
CASES(same, 0)
#define S1(o) case __COUNTER__ - sameBegin - 1: J.m_Operation = O::o; break;
VC_HARNESS(infer_same)
{
	INFER(1); switch (vc_below("op", 34)) { SAME1(S1) default: return; }
	Instruction* r = GO; vc_assert(typeIs(r, X), "the result has the type of the first argument"); END;
}
CASES(same2, 0)
#define S2(o) case __COUNTER__ - same2Begin - 1: J.m_Operation = O::o; break;
VC_HARNESS(infer_same2)
{
	INFER(2); switch (vc_below("op", 9)) { SAME2(S2) default: return; }
	vc_assume(X.same(Y) | (J.m_Operation == O::OpSelect)); bool sel = J.m_Operation == O::OpSelect; Instruction* r = GO; vc_assert(sel ? typeIs(r, Y) : typeIs(r, X) || typeIs(r, Y), "the result has the type of the arguments"); END;
}
CASES(signed, 0)
#define S3(o) case __COUNTER__ - signedBegin - 1: J.m_Operation = O::o; break;
VC_HARNESS(infer_signed) { INFER(1); vc_assume(X.of(N)); switch (vc_below("op", 4)) { SIGNED(S3) default: return; } Instruction* r = GO; vc_assert(typeIs(r, X) || shaped(r, X, (unsigned)O::OpTypeInt, X.width, true, true), "the result has the shape of the arguments"); END; }
CASES(truth, 0)
#define S4(o) case __COUNTER__ - truthBegin - 1: J.m_Operation = O::o; break;
VC_HARNESS(infer_truth) { INFER(1); switch (vc_below("op", 4)) { TRUTH(S4) default: return; } Instruction* r = GO; vc_assert(scalarIs(r, (unsigned)O::OpTypeBool, 0, false), "the result is a truth value"); END; }
CASES(truths, 0)
#define S5(o) case __COUNTER__ - truthsBegin - 1: J.m_Operation = O::o; break;
VC_HARNESS(infer_truths)
{
	INFER(1); vc_assume(X.scalar | X.vector); switch (vc_below("op", 30)) { TRUTHS(S5) default: return; }
	Instruction* r = GO; vc_assert(shaped(r, X, (unsigned)O::OpTypeBool, 0, false), "one truth value per component"); END;
}
VC_HARNESS(infer_convert)
{
	INFER(1); vc_assume(X.scalar | X.vector); unsigned k = (unsigned)vc_below("op", 4); J.m_Operation = k == 0 ? O::OpConvertFToU : k == 1 ? O::OpConvertFToS : k == 2 ? O::OpConvertSToF : O::OpConvertUToF; vc_assume(k < 2 ? X.of(F) : X.of(N)); Instruction* r = GO;
	vc_assert(shaped(r, X, k < 2 ? (unsigned)O::OpTypeInt : (unsigned)O::OpTypeFloat, X.width, k == 1), "the components are converted"); END;
}
VC_HARNESS(infer_matrix)
{
	INFER(2); Instruction* r = nullptr; const unsigned M = (unsigned)O::OpTypeMatrix, V = (unsigned)O::OpTypeVector, FL = (unsigned)O::OpTypeFloat; bool ok = false;
	switch (vc_below("op", 8)) {
	case 0: J.m_Operation = O::OpVectorTimesScalar; vc_assume(X.vector); r = GO; ok = typeIs(r, X); break;
	case 1: J.m_Operation = O::OpMatrixTimesScalar; vc_assume(X.matrix); r = GO; ok = typeIs(r, X); break;
	case 2: J.m_Operation = O::OpVectorTimesMatrix; vc_assume(X.vector & Y.matrix); r = GO; ok = r == added && gots == 2 && lvIs(got[0], V, Y.count, false, 1) && lvIs(got[1], FL, Y.width, false, 0); break;
	case 3: J.m_Operation = O::OpMatrixTimesVector; vc_assume(X.matrix & Y.vector); r = GO; ok = gots == 0 ? r == column : r == added && below(got, gots, 0, X, 1); break;
	case 4: J.m_Operation = O::OpMatrixTimesMatrix; vc_assume(X.matrix & Y.matrix); r = GO; ok = r == added && gots == 3 && lvIs(got[0], M, Y.count, false, 1) && lvIs(got[1], V, X.rows, false, 1) && lvIs(got[2], FL, X.width, false, 0); break;
	case 5: J.m_Operation = O::OpOuterProduct; vc_assume(X.vector & Y.vector); r = GO; ok = r == added && gots == 3 && lvIs(got[0], M, Y.count, false, 1) && below(got, gots, 1, X); break;
	case 6: J.m_Operation = O::OpDot; vc_assume(X.vector & Y.vector & X.of(F)); r = GO; ok = scalarIs(r, FL, X.width, false); break;
	default: J.m_Operation = O::OpTranspose; vc_assume(X.matrix); r = GO; ok = r == added && gots == 3 && lvIs(got[0], M, X.rows, false, 1) && lvIs(got[1], V, X.count, false, 1) && lvIs(got[2], FL, X.width, false, 0); }
	vc_assert(ok, "the result type is the one prescribed"); END;
}
VC_HARNESS(infer_carry)
{
	INFER(2); vc_assume(X.same(Y) & (X.scalar | X.vector)); unsigned k = (unsigned)vc_below("op", 4); J.m_Operation = k == 0 ? O::OpIAddCarry : k == 1 ? O::OpISubBorrow : k == 2 ? O::OpUMulExtended : O::OpSMulExtended; Instruction* r = GO;
	vc_assert(r == added && got[0].op == (unsigned)O::OpTypeStruct && got[0].subs == 2 && below(got, gots, 1, X) && below(twin, twins, 0, Y), "a structure of two results"); END;
}
CASES(image, 0)
#define S6(o) case __COUNTER__ - imageBegin - 1: J.m_Operation = O::o; break;
// (the type sampled: a scalar; not nothing at all)
static bool imageOf(const Any& x, unsigned d) { return x.has & (x.depth == d) & ((d == 1 ? x.t.x.m_Type : x.e1.x.m_data.m_Type) == O::OpTypeImage) & ((d == 1) | (x.t.x.m_Type == O::OpTypeSampledImage)) & ((x.comp == O::OpTypeFloat) | (x.comp == O::OpTypeInt)); }
VC_HARNESS(infer_image)
{
	INFER(1); bool s = vc_bool("sampled image"); vc_assume(imageOf(X, s ? 2 : 1)); switch (vc_below("op", 12)) { TEXELS(S6) default: return; }
	bool read = J.m_Operation == O::OpImageRead; if (read) { vc_assume(!s); X.t.x.m_ImgFormat = (spv::ImageFormat)vc_u32("format"); } Instruction* r = GO; bool one = read && gots == 1;
	vc_assert(r == added && (one || (gots == 2 && got[0].op == (unsigned)O::OpTypeVector && (got[0].w == 4 || (read && got[0].w >= 2 && got[0].w <= 4)))) && lvIs(got[gots - 1], (unsigned)X.comp, X.width, X.sign, 0), "texels of the type sampled"); END;
}
VC_HARNESS(infer_query)
{
	INFER(1); const Type& i = X.t.x; vc_assume((i.m_Type == O::OpTypeImage) & (X.depth == 0)); spv::Dim d = i.m_ImgDimension; unsigned k = (unsigned)vc_below("op", 7); J.m_Operation = k == 0 ? O::OpImageQueryFormat : k == 1 ? O::OpImageQueryOrder : k == 2 ? O::OpImageQueryLevels : k == 3 ? O::OpImageQuerySamples : k == 4 ? O::OpImageQueryLod : k == 5 ? O::OpImageQuerySize : O::OpImageQuerySizeLod;
	vc_assume((d == spv::Dim::Dim1D) | (d == spv::Dim::Dim2D) | (d == spv::Dim::Dim3D) | (d == spv::Dim::Cube) | (d == spv::Dim::Rect)); unsigned n = (d == spv::Dim::Dim1D ? 1 : d == spv::Dim::Dim3D ? 3 : 2) + (i.m_ImgArray ? 1 : 0); Instruction* r = GO;
	if (k < 4) vc_assert(scalarIs(r, (unsigned)O::OpTypeInt, 32, false), "an unsigned integer"); else if (k == 4) vc_assert(r == added && gots == 2 && lvIs(got[0], (unsigned)O::OpTypeVector, 2, false, 1) && lvIs(got[1], (unsigned)O::OpTypeFloat, 32, false, 0), "two floats");
	else vc_assert(r == added && (n == 1 ? gots == 1 : gots == 2 && lvIs(got[0], (unsigned)O::OpTypeVector, n, false, 1)) && got[gots - 1].op == (unsigned)O::OpTypeInt && got[gots - 1].w == 32, "one integer per dimension and one for the layers"); END;
}
VC_HARNESS(infer_other)
{
	INFER(1); unsigned k = (unsigned)vc_below("op", 3); Instruction* r; bool ok;
	if (k == 0) { vc_assume(X.vector); J.m_Operation = O::OpVectorExtractDynamic; r = GO; ok = r == added && gots == 1 && lvIs(got[0], (unsigned)X.comp, X.width, X.sign, 0); }
	else if (k == 1) { vc_assume((X.t.x.m_Type == O::OpTypeImage) & (X.depth < 2)); J.m_Operation = O::OpSampledImage; r = GO; ok = r == added && got[0].op == (unsigned)O::OpTypeSampledImage && got[0].subs == 1 && below(got, gots, 1, X); }
	else { J.m_Operation = O::OpArrayLength; r = GO; ok = scalarIs(r, (unsigned)O::OpTypeInt, 32, false); }
	vc_assert(ok, "the result type is the one prescribed"); END;
}
extern "C" void ct_new_type(Type* t, const Module* m) { new(t) Type(m->m_pAllocator); }
#else
#include <string>
static PlainAllocator malloc_;
static unsigned g_errors; static const char* g_last;
static void onLog(ILogger*, LogLevel l, const char* f, ...) { if (l == LogLevel::Error || l == LogLevel::Fatal) { ++g_errors; g_last = f; } }
struct Bench {
	ILogger log{ &onLog }; Module m{ &malloc_, &log }; Function& f; BasicBlock& bb; Instruction* x = nullptr;
	Bench() : f(m.addFunction()), bb(f.addBasicBlock()) { g_errors = 0; }
	Type scalar(Base b, unsigned w) { Type t(&malloc_); if (b == B) t.Bool(); else if (b == F) t.Float(w); else t.Int(w, b == I); return t; }
	Type vec(Base b, unsigned w, unsigned n) { if (n == 1) return scalar(b, w); Type t(&malloc_); Type s = scalar(b, w); t.Vector(n, &s); return t; }
	Type mat(unsigned w, unsigned cols, unsigned rows) { Type t(&malloc_); Type c = vec(F, w, rows); t.Matrix(cols, &c); return t; }
	Instruction* val(const Type& t) { Instruction* i = bb.addInstruction(); i->opUndef(m.addType(t)); return i; }
	Instruction* next() { return x = bb.addInstruction(); }
	// the instruction x is op [type] id args...
	void is(Instruction* r, spv::Op op, const Type* type, std::initializer_list<Operand> args, bool id = true)
	{
		vc_assert(r == x && g_errors == 0, "operands SPIR-V allows are accepted"); vc_assert(x->getOperation() == op, "the operation asked for is emitted"); auto it = x->begin(), end = x->end();
		if (type) { vc_assert(it != end && it->isInstruction() && it->instruction != nullptr, "there is a result type"); const Type* t = it->instruction->getType(); vc_assert(t != nullptr && it->instruction->isType() && *t == *type, "the result type is the one prescribed"); vc_assert(x->getType() == t, "it is the instruction's type"); ++it; }
		if (id) { vc_assert(it != end && it->isId(), "there is a result id"); ++it; }
		for (auto& a : args) { vc_assert(it != end && *it == a, "the arguments are the operands, in order"); ++it; }
		vc_assert(it == end, "there are no other operands"); vc_cover("end");
	}
};
static unsigned width(Base b) { return b == F ? 16u << vc_below("width", 3) : 8u << vc_below("width", 4); }
static unsigned fwidth() { return 16u << vc_below("width", 3); }
static Base baseOf(Base k) { return k == N || k == M ? vc_bool("signed") ? I : U : k; }
typedef Instruction* (Instruction::*Un)(Instruction*); typedef Instruction* (Instruction::*Bin)(Instruction*, Instruction*);
struct U1 { const char* n; Un f; spv::Op op; Base k; }; struct B1 { const char* n; Bin f; spv::Op op; Base k; };
#define XU(m, o, k) { #m, &Instruction::m, spv::Op::o, k },
#define XB(m, o, k) { #m, static_cast<Bin>(&Instruction::m), spv::Op::o, k },
static const U1 unary[] = { UNARY(XU) }; static const B1 binary[] = { BINARY(XB) BINARY2(XB) }, compare[] = { COMPARE(XB) COMPARE2(XB) }, bits[] = { BITS(XB) };
VC_HARNESS(build_unary)
{
	Bench b; auto& u = unary[vc_below("op", sizeof unary / sizeof *unary)]; std::string n = u.n; Base k = baseOf(u.k); unsigned w = n.substr(0, 9) == "opConvert" ? fwidth() : width(k), c = 1 + (unsigned)vc_below("components", 4); Type t = b.vec(k, w, c), r = t;
	if (n == "opConvertFToU") r = b.vec(U, w, c); if (n == "opConvertFToS") r = b.vec(I, w, c); if (n == "opConvertSToF" || n == "opConvertUToF") r = b.vec(F, w, c); if (n.substr(0, 4) == "opIs" || n == "opSignBitSet") r = b.vec(B, 0, c);
	Instruction* a = b.val(t); b.is((b.next()->*u.f)(a), u.op, &r, { Operand(a) });
}
static void runBinary(unsigned lo, unsigned cnt)
{
	Bench b; auto& u = binary[lo + vc_below("op", cnt)]; std::string n = u.n; Base k = n.substr(0, 3) == "opS" && n != "opSub" ? I : baseOf(u.k); /* (of unsigned operands, a signed or an unsigned result is allowed) */ unsigned w = width(k), c = 1 + (unsigned)vc_below("components", 4); Type t = b.vec(k, w, c), r = t;
	if (n == "opIAddCarry" || n == "opISubBorrow" || n == "opUMulExtended" || n == "OpSMulExtended") { Type s(&malloc_); s.Struct(&t).Member(&t); r = s; } if (n == "opOrdered" || n == "opUnordered") r = b.vec(B, 0, c);
	Instruction *a = b.val(t), *d = b.val(t); b.is((b.next()->*u.f)(a, d), u.op, &r, { Operand(a), Operand(d) });
}
static void runCompare(unsigned lo, unsigned cnt)
{
	Bench b; auto& u = compare[lo + vc_below("op", cnt)]; std::string n = u.n; Base k = baseOf(u.k); unsigned w = width(k), c = 1 + (unsigned)vc_below("components", 4); Type t = b.vec(k, w, c), r = b.vec(B, 0, c);
	Instruction *a = b.val(t), *d = b.val(t); b.is((b.next()->*u.f)(a, d), u.op, &r, { Operand(a), Operand(d) });
}
VC_HARNESS(build_binary) { runBinary(0, 14); }
VC_HARNESS(build_binary2) { runBinary(14, 10); }
VC_HARNESS(build_compare) { runCompare(0, 10); }
VC_HARNESS(build_compare2) { runCompare(10, 12); }
VC_HARNESS(build_bits)
{
	Bench b; auto& u = bits[vc_below("op", sizeof bits / sizeof *bits)]; Base k = vc_bool("signed") ? I : U; unsigned w = width(I), c = 1 + (unsigned)vc_below("components", 4); Type t = b.vec(k, w, c); Type s = std::string(u.n).substr(0, 7) == "opShift" ? b.vec(vc_bool("signed shift") ? I : U, w, c) : t;
	Instruction *a = b.val(t), *d = b.val(s); b.is((b.next()->*u.f)(a, d), u.op, &t, { Operand(a), Operand(d) });
}
VC_HARNESS(build_matrix)
{
	Bench b; unsigned w = fwidth(), n = 2 + (unsigned)vc_below("n", 3), k = 2 + (unsigned)vc_below("k", 3), l = 2 + (unsigned)vc_below("l", 3); Type s = b.scalar(F, w), v = b.vec(F, w, n), vk = b.vec(F, w, k), M = b.mat(w, k, n), N = b.mat(w, l, k);
	Instruction *is = b.val(s), *iv = b.val(v), *ivk = b.val(vk), *im = b.val(M), *in = b.val(N), *iv2 = b.val(v);
	switch (vc_below("op", 8)) {
	case 0: b.is(b.next()->opVectorTimesScalar(iv, is), spv::Op::OpVectorTimesScalar, &v, { Operand(iv), Operand(is) }); break;
	case 1: b.is(b.next()->opMatrixTimesScalar(im, is), spv::Op::OpMatrixTimesScalar, &M, { Operand(im), Operand(is) }); break;
	case 2: b.is(b.next()->opVectorTimesMatrix(iv, im), spv::Op::OpVectorTimesMatrix, &vk, { Operand(iv), Operand(im) }); break; // one component per column
	case 3: b.is(b.next()->opMatrixTimesVector(im, ivk), spv::Op::OpMatrixTimesVector, &v, { Operand(im), Operand(ivk) }); break;
	case 4: { Type r = b.mat(w, l, n); b.is(b.next()->opMatrixTimesMatrix(im, in), spv::Op::OpMatrixTimesMatrix, &r, { Operand(im), Operand(in) }); break; }
	case 5: b.is(b.next()->opOuterProduct(iv, ivk), spv::Op::OpOuterProduct, &M, { Operand(iv), Operand(ivk) }); break;
	case 6: b.is(b.next()->opDot(iv, iv2), spv::Op::OpDot, &s, { Operand(iv), Operand(iv2) }); break;
	default: { Type r = b.mat(w, n, k); b.is(b.next()->opTranspose(im), spv::Op::OpTranspose, &r, { Operand(im) }); } }
}
VC_HARNESS(build_reduce)
{
	Bench b; unsigned w = fwidth(), n = 2 + (unsigned)vc_below("n", 3), k = 2 + (unsigned)vc_below("k", 3); Type p = b.scalar(B, 0), q = b.vec(B, 0, n), M = b.mat(w, k, n), T = b.mat(w, n, k); Instruction *ib = b.val(q), *im = b.val(M);
	switch (vc_below("op", 3)) {
	case 0: b.is(b.next()->opTranspose(im), spv::Op::OpTranspose, &T, { Operand(im) }); break;
	case 1: b.is(b.next()->opAny(ib), spv::Op::OpAny, &p, { Operand(ib) }); break;
	default: b.is(b.next()->opAll(ib), spv::Op::OpAll, &p, { Operand(ib) }); }
}
VC_BOUNDED(build_convert)
{
	Bench b; unsigned c = 1 + (unsigned)vc_below("components", 4); Base k = (Base)vc_below("base", 3); unsigned w = width(k), w2 = width(k); Type t = b.vec(k, w, c), r = b.vec(k, w2, c); Instruction* a = b.val(t);
	switch (vc_below("op", 3)) {
	case 0: { vc_assume(w != w2); Instruction* i = b.next(); b.is(k == I ? i->opSConvert(a, w2) : k == U ? i->opUConvert(a, w2) : i->opFConvert(a, w2), k == I ? spv::Op::OpSConvert : k == U ? spv::Op::OpUConvert : spv::Op::OpFConvert, &r, { Operand(a) }); break; }
	case 1: { Type t32 = b.vec(F, 32, c); Instruction* q = b.val(t32); b.is(b.next()->opQuantizeToF16(q), spv::Op::OpQuantizeToF16, &t32, { Operand(q) }); break; }
	default: { Base k2 = (Base)vc_below("to", 3); vc_assume(k2 != k && (k2 != F || w >= 16)); r = b.vec(k2, w, c); Instruction* ty = b.m.addType(r); b.is(b.next()->opBitcast(ty, a), spv::Op::OpBitcast, &r, { Operand(a) }); } }
}
VC_HARNESS(build_select)
{
	Bench b; Base k = (Base)vc_below("base", 4); unsigned w = width(k), c = 1 + (unsigned)vc_below("components", 4); Type v = b.vec(k, w, c), p = b.vec(B, 0, c), q = b.scalar(B, 0); bool one = vc_bool("scalar condition"); Instruction *x = b.val(v), *y = b.val(v), *ic = b.val(one ? q : p);
	b.is(b.next()->opSelect(ic, x, y), spv::Op::OpSelect, &v, { Operand(ic), Operand(x), Operand(y) });
}
static Type pointer(const Type& t) { Type p(&malloc_); p.Pointer(spv::StorageClass::Private, &t); return p; }
VC_HARNESS(build_pointers)
{
	Bench b; Type v = b.vec((Base)vc_below("base", 4), 32, 1 + (unsigned)vc_below("components", 4)), pt = pointer(v), bl = b.scalar(B, 0); Instruction *p = b.val(pt), *p2 = b.val(pt); bool ne = vc_bool("ne"); Instruction* i = b.next();
	b.is(ne ? i->opPtrNotEqual(p, p2) : i->opPtrEqual(p, p2), ne ? spv::Op::OpPtrNotEqual : spv::Op::OpPtrEqual, &bl, { Operand(p), Operand(p2) });
}
VC_HARNESS(build_store)
{
	Bench b; Type v = b.vec((Base)vc_below("base", 4), 32, 1 + (unsigned)vc_below("components", 4)); Instruction *p = b.val(pointer(v)), *x = b.val(v), *i = b.next(); unsigned al = 1u << vc_below("align", 5);
	if (vc_bool("aligned")) { i->opStore(p, x, spv::MemoryAccessMask::Aligned, literal_t{ al }); b.is(i, spv::Op::OpStore, nullptr, { Operand(p), Operand(x), Operand(literal_t{ 2u }), Operand(literal_t{ al }) }, false); } else { i->opStore(p, x, spv::MemoryAccessMask::Volatile); b.is(i, spv::Op::OpStore, nullptr, { Operand(p), Operand(x), Operand(literal_t{ 1u }) }, false); }
}
VC_HARNESS(build_insert)
{
	Bench b; Base k = (Base)vc_below("base", 4); unsigned w = width(k), c = 2 + (unsigned)vc_below("components", 3); Type s = b.scalar(k, w), v = b.vec(k, w, c), n = b.scalar(vc_bool("signed") ? I : U, 32); Instruction *is = b.val(s), *iv = b.val(v), *in = b.val(n);
	if (vc_bool("untyped")) { Instruction* u = b.bb.addInstruction(); u->opReturn(); Instruction* i = b.next(); vc_assert(i->opVectorInsertDynamic(iv, u, in) == b.m.getErrorInstr() && i->empty(), "operands SPIR-V does not allow yield the error instruction"); vc_cover("end"); return; }
	b.is(b.next()->opVectorInsertDynamic(iv, is, in), spv::Op::OpVectorInsertDynamic, &v, { Operand(iv), Operand(is), Operand(in) });
}
VC_HARNESS(build_bitcast)
{
	Bench b; Type f = b.vec(F, 32, 1 + (unsigned)vc_below("components", 4)), n = b.vec(vc_bool("signed") ? I : U, 32, f.isVector() ? f.getVectorComponentCount() : 1); Instruction* x;
	if (vc_bool("struct")) { Type s(&malloc_), t(&malloc_); s.Struct(&f); t.Struct(&n); x = b.val(s); Instruction *ty = b.m.addType(t), *i = b.next(); vc_assert(i->opBitcast(ty, x) == b.m.getErrorInstr() && i->empty(), "operands SPIR-V does not allow yield the error instruction"); vc_cover("end"); return; }
	x = b.val(f); Instruction* ty = b.m.addType(n); b.is(b.next()->opBitcast(ty, x), spv::Op::OpBitcast, &n, { Operand(x) });
}
VC_HARNESS(build_quantize) { Bench b; Type t = b.vec(F, 32, 1 + (unsigned)vc_below("components", 4)); Instruction* q = b.val(t); b.is(b.next()->opQuantizeToF16(q), spv::Op::OpQuantizeToF16, &t, { Operand(q) }); }
VC_HARNESS(build_query)
{
	Bench b; unsigned op = (unsigned)vc_below("op", 7); static const spv::Dim dims[] = { spv::Dim::Dim1D, spv::Dim::Dim2D, spv::Dim::Dim3D, spv::Dim::Cube }; static const unsigned size[] = { 1, 2, 3, 2 }; unsigned d = op == 5 ? 1 : (unsigned)vc_below("dim", 4); bool arr = d != 2 && vc_bool("arrayed"), ms = op == 5 || (op == 3 && d == 1); Type img(&malloc_), smp(&malloc_), sam(&malloc_), u = b.scalar(U, 32), z = b.vec(U, 32, size[d] + arr);
	img.Image(dyn_scalar_t{ spv::Op::OpTypeFloat, 32u }, dims[d], 0u, arr, ms, op == 3 && !ms ? SamplerImageAccess::Storage : SamplerImageAccess::Sampled, spv::ImageFormat::Unknown); sam.Sampler(); smp.SampledImage(&img); Instruction *im = b.val(img), *sa = b.val(sam), *n = b.val(u), *i = b.next(); using O = spv::Op;
	switch (op) {
	case 0: b.is(i->opImageQueryFormat(im), O::OpImageQueryFormat, &u, { Operand(im) }); break;
	case 1: b.is(i->opImageQueryOrder(im), O::OpImageQueryOrder, &u, { Operand(im) }); break;
	case 2: b.is(i->opImageQuerySizeLod(im, n), O::OpImageQuerySizeLod, &z, { Operand(im), Operand(n) }); break;
	case 3: b.is(i->opImageQuerySize(im), O::OpImageQuerySize, &z, { Operand(im) }); break;
	case 4: b.is(i->opImageQueryLevels(im), O::OpImageQueryLevels, &u, { Operand(im) }); break;
	case 5: b.is(i->opImageQuerySamples(im), O::OpImageQuerySamples, &u, { Operand(im) }); break;
	default: b.is(i->opSampledImage(im, sa), O::OpSampledImage, &smp, { Operand(im), Operand(sa) }); }
}
VC_BOUNDED(build_pick)
{
	Bench b; Base k = (Base)vc_below("base", 4); unsigned w = width(k), c = 2 + (unsigned)vc_below("components", 3), at = (unsigned)vc_below("at", c); Type s = b.scalar(k, w), v = b.vec(k, w, c), n = b.scalar(U, 32), p = b.scalar(B, 0); Instruction *is = b.val(s), *iv = b.val(v), *iw = b.val(v), *in = b.val(n), *ip = b.val(p);
	switch (vc_below("op", 10)) {
	case 0: b.is(b.next()->opVectorExtractDynamic(iv, in), spv::Op::OpVectorExtractDynamic, &s, { Operand(iv), Operand(in) }); break;
	case 1: b.is(b.next()->opVectorInsertDynamic(iv, is, in), spv::Op::OpVectorInsertDynamic, &v, { Operand(iv), Operand(is), Operand(in) }); break;
	case 2: b.is(b.next()->opCompositeExtract(iv, at), spv::Op::OpCompositeExtract, &s, { Operand(iv), Operand(literal_t{ at }) }); break;
	case 3: b.is(b.next()->opCompositeInsert(iv, is, at), spv::Op::OpCompositeInsert, &v, { Operand(is), Operand(iv), Operand(literal_t{ at }) }); break;
	case 4: b.is(b.next()->opCopyObject(iv), spv::Op::OpCopyObject, &v, { Operand(iv) }); break;
	case 5: b.is(b.next()->opSelect(ip, is, is), spv::Op::OpSelect, &s, { Operand(ip), Operand(is), Operand(is) }); break;
	case 6: { Type bv = b.vec(B, 0, c); Instruction* ib = b.val(bv); b.is(b.next()->opSelect(ib, iv, iw), spv::Op::OpSelect, &v, { Operand(ib), Operand(iv), Operand(iw) }); break; }
	case 7: { Type bv = b.vec(B, 0, c); Instruction* ib = b.val(bv); bool all = vc_bool("all"); Instruction* i = b.next(); b.is(all ? i->opAll(ib) : i->opAny(ib), all ? spv::Op::OpAll : spv::Op::OpAny, &p, { Operand(ib) }); break; }
	case 8: { unsigned other = (unsigned)vc_below("other", 2 * c), n2 = 2 + (unsigned)vc_below("result", 2); Type r = b.vec(k, w, n2); if (n2 == 2) b.is(b.next()->opVectorShuffle(iv, iw, at, other), spv::Op::OpVectorShuffle, &r, { Operand(iv), Operand(iw), Operand(literal_t{ at }), Operand(literal_t{ other }) }); else b.is(b.next()->opVectorShuffle(iv, iw, at, other, at), spv::Op::OpVectorShuffle, &r, { Operand(iv), Operand(iw), Operand(literal_t{ at }), Operand(literal_t{ other }), Operand(literal_t{ at }) }); break; }
	default: { Type r = b.vec(k, w, 2); b.is(b.next()->opCompositeConstruct(b.m.addType(r), is, is), spv::Op::OpCompositeConstruct, &r, { Operand(is), Operand(is) }); } }
}
VC_HARNESS(build_bitfield)
{
	Bench b; unsigned c = 1 + (unsigned)vc_below("components", 4); Base k = vc_bool("signed") ? I : U; Type t = b.vec(k, width(k), c), n = b.scalar(vc_bool("signed2") ? I : U, 32); Instruction *x = b.val(t), *y = b.val(t), *o = b.val(n), *q = b.val(n);
	switch (vc_below("op", 3)) {
	case 0: b.is(b.next()->opBitFieldInsert(x, y, o, q), spv::Op::OpBitFieldInsert, &t, { Operand(x), Operand(y), Operand(o), Operand(q) }); break;
	case 1: b.is(b.next()->opBitFieldSExtract(x, o, q), spv::Op::OpBitFieldSExtract, &t, { Operand(x), Operand(o), Operand(q) }); break;
	default: b.is(b.next()->opBitFieldUExtract(x, o, q), spv::Op::OpBitFieldUExtract, &t, { Operand(x), Operand(o), Operand(q) }); }
}
VC_BOUNDED(build_memory)
{
	Bench b; Base k = (Base)vc_below("base", 4); unsigned w = width(k), c = 2 + (unsigned)vc_below("components", 3), at = (unsigned)vc_below("at", c); Type s = b.scalar(k, w), v = b.vec(k, w, c); auto sc = vc_bool("function") ? spv::StorageClass::Function : spv::StorageClass::Private; Type pt(&malloc_), ps(&malloc_); pt.Pointer(sc, &v); ps.Pointer(sc, &s);
	Instruction *p = b.val(pt), *p2 = b.val(pt), *iv = b.val(v);
	switch (vc_below("op", 8)) {
	case 0: b.is(b.next()->opLoad(p), spv::Op::OpLoad, &v, { Operand(p), Operand(literal_t{ 0u }) }); break;
	case 1: { Instruction* i = b.next(); i->opStore(p, iv); b.is(i, spv::Op::OpStore, nullptr, { Operand(p), Operand(iv), Operand(literal_t{ 0u }) }, false); break; }
	case 2: { Instruction* z = b.m.constant(at); b.is(b.next()->opAccessChain(p, at), spv::Op::OpAccessChain, &ps, { Operand(p), Operand(z) }); break; }
	case 3: { Instruction* i = b.next(); Type vo(&malloc_); b.is(i->opVariable(b.m.addType(pt), sc), spv::Op::OpVariable, &pt, { Operand(literal_t{ (unsigned)sc }) }); break; }
	case 4: { Type bl = b.scalar(B, 0); bool ne = vc_bool("ne"); Instruction* i = b.next(); b.is(ne ? i->opPtrNotEqual(p, p2) : i->opPtrEqual(p, p2), ne ? spv::Op::OpPtrNotEqual : spv::Op::OpPtrEqual, &bl, { Operand(p), Operand(p2) }); break; }
	case 5: { Instruction* i = b.next(); i->opCopyMemory(p, p2); b.is(i, spv::Op::OpCopyMemory, nullptr, { Operand(p), Operand(p2) }, false); break; }
	case 6: { unsigned a = 1u << vc_below("align", 5); b.is(b.next()->opLoad(p, spv::MemoryAccessMask::Aligned, literal_t{ a }), spv::Op::OpLoad, &v, { Operand(p), Operand(literal_t{ 2u }), Operand(literal_t{ a }) }); break; }
	default: { List<unsigned> l(&malloc_); l.emplace_back(at); Instruction* z = b.m.constant(at); if (vc_bool("extract")) b.is(b.next()->opCompositeExtractDynamic(iv, l), spv::Op::OpCompositeExtract, &s, { Operand(iv), Operand(literal_t{ at }) }); else b.is(b.next()->opAccessChain(p, l), spv::Op::OpAccessChain, &ps, { Operand(p), Operand(z) }); } }
}
VC_HARNESS(build_flow)
{
	Bench b; BasicBlock &t = b.f.addBasicBlock(), &e = b.f.addBasicBlock(); Type pt = b.scalar(B, 0); b.f.setReturnType(b.m.addType(pt)); Instruction* p = b.val(pt); Instruction* i = b.next(); unsigned w = vc_u32("weight"), w2 = vc_u32("weight2");
	switch (vc_below("op", 8)) {
	case 0: i->opBranch(&t); b.is(i, spv::Op::OpBranch, nullptr, { Operand(&t) }, false); break;
	case 1: i->opBranchConditional(p, &t, &e); b.is(i, spv::Op::OpBranchConditional, nullptr, { Operand(p), Operand(&t), Operand(&e) }, false); break;
	case 2: i->opBranchConditional(p, &t, &e, w, w2); b.is(i, spv::Op::OpBranchConditional, nullptr, { Operand(p), Operand(&t), Operand(&e), Operand(literal_t{ w }), Operand(literal_t{ w2 }) }, false); break;
	case 3: i->opSelectionMerge(&t, (spv::SelectionControlMask)(w & 3)); b.is(i, spv::Op::OpSelectionMerge, nullptr, { Operand(&t), Operand(literal_t{ w & 3 }) }, false); break;
	case 4: i->opLoopMerge(&t, &e, Flag<spv::LoopControlMask>((spv::LoopControlMask)(w & 3))); b.is(i, spv::Op::OpLoopMerge, nullptr, { Operand(&t), Operand(&e), Operand(literal_t{ w & 3 }) }, false); break;
	case 5: i->opReturn(); b.is(i, spv::Op::OpReturn, nullptr, {}, false); break;
	case 6: i->opReturnValue(p); b.is(i, spv::Op::OpReturnValue, nullptr, { Operand(p) }, false); break;
	default: if (vc_bool("kill")) { i->opKill(); b.is(i, spv::Op::OpKill, nullptr, {}, false); } else { i->opUnreachable(); b.is(i, spv::Op::OpUnreachable, nullptr, {}, false); } }
}
VC_BOUNDED(build_phi_call)
{
	Bench b; unsigned c = 1 + (unsigned)vc_below("components", 4); Type t = b.vec((Base)vc_below("base", 4), 32, c); BasicBlock &e = b.f.addBasicBlock(), &g = b.f.addBasicBlock(); Instruction *x = b.val(t), *y = e.addInstruction(); y->opUndef(b.m.addType(t)); Instruction* z = g.addInstruction(); z->opUndef(b.m.addType(t));
	switch (vc_below("op", 3)) {
	case 0: b.is(b.next()->opPhi(x, y, z), spv::Op::OpPhi, &t, { Operand(x), Operand(&b.bb), Operand(y), Operand(&e), Operand(z), Operand(&g) }); break;
	case 1: { List<Instruction*> l(&malloc_); l.emplace_back(x); l.emplace_back(y); if (vc_bool("third")) l.emplace_back(z); Instruction* r = b.next()->opPhiDynamic(l); if (l.size() == 2) b.is(r, spv::Op::OpPhi, &t, { Operand(x), Operand(&b.bb), Operand(y), Operand(&e) }); else b.is(r, spv::Op::OpPhi, &t, { Operand(x), Operand(&b.bb), Operand(y), Operand(&e), Operand(z), Operand(&g) }); break; }
	default: { Function& callee = b.m.addFunction(); callee.setReturnType(b.m.addType(t)); callee.addParameters(b.m.addType(t)); callee.finalize(spv::FunctionControlMask::Const, "f"); if (vc_bool("list")) { List<Instruction*> l(&malloc_); l.emplace_back(x); b.is(b.next()->callDynamic(&callee, l), spv::Op::OpFunctionCall, &t, { Operand(callee.getFunction()), Operand(x) }); } else b.is(b.next()->call(&callee, x), spv::Op::OpFunctionCall, &t, { Operand(callee.getFunction()), Operand(x) }); } }
}
// images
VC_BOUNDED(build_image)
{
	Bench b; static const spv::Dim dims[] = { spv::Dim::Dim1D, spv::Dim::Dim2D, spv::Dim::Dim3D, spv::Dim::Cube }; static const unsigned size[] = { 1, 2, 3, 3 }, query[] = { 1, 2, 3, 2 }; unsigned d = (unsigned)vc_below("dim", 4); bool arr = d != 2 && vc_bool("arrayed"); Base sb = (Base)vc_below("sampled", 3); Type st = b.scalar(sb, 32);
	bool storage = vc_bool("storage"); Type img(&malloc_), smp(&malloc_), sam(&malloc_); img.Image(st == b.scalar(F, 32) ? dyn_scalar_t{ spv::Op::OpTypeFloat, 32u } : dyn_scalar_t{ spv::Op::OpTypeInt, 32u, sb == I }, dims[d], 0u, arr, false, storage ? SamplerImageAccess::Storage : SamplerImageAccess::Sampled, storage ? spv::ImageFormat::Rgba32f : spv::ImageFormat::Unknown); sam.Sampler(); smp.SampledImage(&img);
	unsigned cn = size[d] + arr; Type cf = b.vec(F, 32, cn), ci = b.vec(I, 32, cn), px = b.vec(F, 32, cn + 1 > 4 ? 4 : cn + 1), r4 = b.vec(sb, 32, 4), f1 = b.scalar(F, 32), i1 = b.scalar(I, 32), u1 = b.scalar(U, 32); Instruction *im = b.val(img), *is = b.val(smp), *xf = b.val(cf), *xi = b.val(ci), *xp = b.val(px), *f = b.val(f1), *n = b.val(i1), *nu = b.val(u1);
	unsigned op = (unsigned)vc_below("op", 18); if (storage) vc_assume(op == 8 || op == 9); else vc_assume(op != 8); Operand lod(literal_t{ 2u });
	switch (op) {
	case 0: { Instruction* s = b.val(sam); b.is(b.next()->opSampledImage(im, s), spv::Op::OpSampledImage, &smp, { Operand(im), Operand(s) }); break; }
	case 1: b.is(b.next()->opImageSampleImplictLod(is, xf), spv::Op::OpImageSampleImplicitLod, &r4, { Operand(is), Operand(xf) }); break;
	case 2: b.is(b.next()->opImageSampleExplicitLodLevel(is, xf, f), spv::Op::OpImageSampleExplicitLod, &r4, { Operand(is), Operand(xf), lod, Operand(f) }); break;
	case 3: vc_assume(!arr && d < 3); b.is(b.next()->opImageSampleProjImplictLod(is, xp), spv::Op::OpImageSampleProjImplicitLod, &r4, { Operand(is), Operand(xp) }); break;
	case 4: { Instruction* z = b.val(f1); b.is(b.next()->opImageSampleDrefExplicitLodLevel(is, xf, f, z), spv::Op::OpImageSampleDrefExplicitLod, &r4, { Operand(is), Operand(xf), Operand(f), lod, Operand(z) }); break; }
	case 5: vc_assume(d != 3); b.is(b.next()->opImageFetch(im, xi), spv::Op::OpImageFetch, &r4, { Operand(im), Operand(xi) }); break;
	case 6: vc_assume(d == 1 || d == 3); b.is(b.next()->opImageGather(is, xf, n), spv::Op::OpImageGather, &r4, { Operand(is), Operand(xf), Operand(n) }); break;
	case 7: b.is(b.next()->opImage(is), spv::Op::OpImage, &img, { Operand(is) }); break;
	case 8: b.is(b.next()->opImageRead(im, xi), spv::Op::OpImageRead, &r4, { Operand(im), Operand(xi) }); break;
	case 9: vc_assume(storage); { Type q = b.vec(U, 32, query[d] + arr); b.is(b.next()->opImageQuerySize(im), spv::Op::OpImageQuerySize, &q, { Operand(im) }); } break;
	case 10: { bool o = vc_bool("order"); Instruction* i = b.next(); b.is(o ? i->opImageQueryOrder(im) : i->opImageQueryFormat(im), o ? spv::Op::OpImageQueryOrder : spv::Op::OpImageQueryFormat, &u1, { Operand(im) }); break; }
	case 11: { Type q = b.vec(U, 32, query[d] + arr); b.is(b.next()->opImageQuerySizeLod(im, nu), spv::Op::OpImageQuerySizeLod, &q, { Operand(im), Operand(nu) }); break; }
	case 12: { Type q = b.vec(F, 32, 2); Type plain = b.vec(F, 32, size[d]); Instruction* x = b.val(plain); b.is(b.next()->opImageQueryLod(is, arr ? xf : x), spv::Op::OpImageQueryLod, &q, { Operand(is), Operand(arr ? xf : x) }); break; }
	case 13: { Operand mask(literal_t{ 1u }); b.is(b.next()->opImageSampleImplictLod(is, xf, spv::ImageOperandsMask::Bias, f), spv::Op::OpImageSampleImplicitLod, &r4, { Operand(is), Operand(xf), mask, Operand(f) }); break; }
	case 14: { vc_assume(d != 3); Operand mask(literal_t{ 8u }); Instruction* o = d == 0 ? b.m.constant(1) : d == 1 ? b.m.constant(const_vector_t<int, 2>{ { 1, 2 } }) : b.m.constant(const_vector_t<int, 3>{ { 1, 2, 3 } }); b.is(b.next()->opImageSampleImplictLod(is, xf, spv::ImageOperandsMask::ConstOffset, o), spv::Op::OpImageSampleImplicitLod, &r4, { Operand(is), Operand(xf), mask, Operand(o) }); break; }
	case 15: { vc_assume(d != 3); Operand mask(literal_t{ 16u }); Type plain = b.vec(I, 32, size[d]); Instruction* o = b.val(plain); b.is(b.next()->opImageSampleImplictLod(is, xf, spv::ImageOperandsMask::Offset, o), spv::Op::OpImageSampleImplicitLod, &r4, { Operand(is), Operand(xf), mask, Operand(o) }); break; }
	case 16: { Operand mask(literal_t{ 4u }); Type plain = b.vec(F, 32, size[d]); Instruction *dx = b.val(plain), *dy = b.val(plain); b.is(b.next()->opImageSampleExplicitLodGrad(is, xf, dx, spv::ImageOperandsMask::MaskNone, dy), spv::Op::OpImageSampleExplicitLod, &r4, { Operand(is), Operand(xf), mask, Operand(dx), Operand(dy) }); break; }
	default: b.is(b.next()->opImageQueryLevels(im), spv::Op::OpImageQueryLevels, &u1, { Operand(im) }); }
}
// inference of the result type
#define XO(o) spv::Op::o,
static const spv::Op same1[] = { SAME1(XO) }, same2[] = { SAME2(XO) }, signed_[] = { SIGNED(XO) }, truth[] = { TRUTH(XO) }, truths[] = { TRUTHS(XO) }, texels[] = { TEXELS(XO) };
template<unsigned n> static spv::Op some(const spv::Op (&t)[n]) { return t[vc_below("op", n)]; }
static void infers(Bench& b, spv::Op op, const Type& t, Instruction* x, Instruction* y = nullptr) { Instruction* i = b.next(); if (y) i->makeOp(op, InvalidInstr, InvalidId, x, y); else i->makeOp(op, InvalidInstr, InvalidId, x); vc_assert(g_errors == 0 && i->getType() != nullptr && *i->getType() == t && i->front().instruction->getType() == i->getType(), "the result type is the one prescribed"); vc_cover("end"); }
static Type someType(Bench& b, Base* k = nullptr) { Base c = (Base)vc_below("base", 4); if (k) *k = c; return b.vec(c, width(c), 1 + (unsigned)vc_below("components", 4)); }
VC_HARNESS(infer_same) { Bench b; Type t = someType(b); Instruction* x = b.val(t); infers(b, some(same1), t, x); }
VC_HARNESS(infer_same2) { Bench b; Type t = someType(b); spv::Op op = some(same2); Instruction *x = b.val(op == spv::Op::OpSelect ? b.scalar(B, 0) : t), *y = b.val(t); infers(b, op, t, x, y); }
VC_HARNESS(infer_signed) { Bench b; unsigned w = width(I), c = 1 + (unsigned)vc_below("components", 4); Instruction* x = b.val(b.vec(vc_bool("signed") ? I : U, w, c)); infers(b, some(signed_), b.vec(I, w, c), x); }
VC_HARNESS(infer_truth) { Bench b; Instruction* x = b.val(someType(b)); infers(b, some(truth), b.scalar(B, 0), x); }
VC_HARNESS(infer_truths) { Bench b; Base k; Type t = someType(b, &k); Instruction* x = b.val(t); infers(b, some(truths), b.vec(B, 0, t.isVector() ? t.getVectorComponentCount() : 1), x); }
VC_HARNESS(infer_convert) { Bench b; unsigned k = (unsigned)vc_below("op", 4), w = fwidth(), c = 1 + (unsigned)vc_below("components", 4); Instruction* x = b.val(b.vec(k < 2 ? F : k == 2 ? I : U, w, c)); infers(b, k == 0 ? spv::Op::OpConvertFToU : k == 1 ? spv::Op::OpConvertFToS : k == 2 ? spv::Op::OpConvertSToF : spv::Op::OpConvertUToF, b.vec(k == 0 ? U : k == 1 ? I : F, w, c), x); }
VC_HARNESS(infer_matrix)
{
	Bench b; unsigned w = fwidth(), n = 2 + (unsigned)vc_below("n", 3), k = 2 + (unsigned)vc_below("k", 3), l = 2 + (unsigned)vc_below("l", 3); Type s = b.scalar(F, w), v = b.vec(F, w, n), vk = b.vec(F, w, k), M = b.mat(w, k, n), N = b.mat(w, l, k); Instruction *is = b.val(s), *iv = b.val(v), *ivk = b.val(vk), *im = b.val(M), *in = b.val(N); using O = spv::Op;
	switch (vc_below("op", 8)) {
	case 0: infers(b, O::OpVectorTimesScalar, v, iv, is); break;
	case 1: infers(b, O::OpMatrixTimesScalar, M, im, is); break;
	case 2: infers(b, O::OpVectorTimesMatrix, vk, iv, im); break;
	case 3: infers(b, O::OpMatrixTimesVector, v, im, ivk); break;
	case 4: infers(b, O::OpMatrixTimesMatrix, b.mat(w, l, n), im, in); break;
	case 5: infers(b, O::OpOuterProduct, M, iv, ivk); break;
	case 6: infers(b, O::OpDot, s, iv, iv); break;
	default: infers(b, O::OpTranspose, b.mat(w, n, k), im); }
}
VC_HARNESS(infer_carry) { Bench b; Type t = someType(b), s(&malloc_); s.Struct(&t).Member(&t); Instruction *x = b.val(t), *y = b.val(t); static const spv::Op ops[] = { spv::Op::OpIAddCarry, spv::Op::OpISubBorrow, spv::Op::OpUMulExtended, spv::Op::OpSMulExtended }; infers(b, some(ops), s, x, y); }
static Type image(Bench& b, Base k, spv::Dim d, bool arr, spv::ImageFormat f) { Type t(&malloc_); t.Image(k == F ? dyn_scalar_t{ spv::Op::OpTypeFloat, 32u } : dyn_scalar_t{ spv::Op::OpTypeInt, 32u, k == I }, d, 0u, arr, false, SamplerImageAccess::Storage, f); return t; }
VC_HARNESS(infer_image)
{
	Bench b; spv::Op op = some(texels); bool read = op == spv::Op::OpImageRead; Base k = (Base)vc_below("base", 3); unsigned f = read ? (unsigned)vc_below("format", 42) : 0, n = f == 0 ? 4 : getImageChannelCount((spv::ImageFormat)f); Type t = image(b, k, spv::Dim::Dim2D, false, (spv::ImageFormat)f), s(&malloc_); s.SampledImage(&t);
	Instruction *x = b.val(!read && vc_bool("sampled image") ? s : t), *y = b.val(b.vec(read ? I : F, 32, 2)); infers(b, op, b.vec(k, 32, n), x, y);
}
VC_HARNESS(infer_query)
{
	Bench b; static const spv::Dim dims[] = { spv::Dim::Dim1D, spv::Dim::Dim2D, spv::Dim::Dim3D, spv::Dim::Cube, spv::Dim::Rect }; static const unsigned size[] = { 1, 2, 3, 2, 2 }; unsigned d = (unsigned)vc_below("dim", 5); bool arr = d != 2 && vc_bool("arrayed"); Instruction* x = b.val(image(b, F, dims[d], arr, spv::ImageFormat::Unknown)); unsigned k = (unsigned)vc_below("op", 7);
	static const spv::Op ops[] = { spv::Op::OpImageQueryFormat, spv::Op::OpImageQueryOrder, spv::Op::OpImageQueryLevels, spv::Op::OpImageQuerySamples, spv::Op::OpImageQueryLod, spv::Op::OpImageQuerySize, spv::Op::OpImageQuerySizeLod }; infers(b, ops[k], k < 4 ? b.scalar(U, 32) : k == 4 ? b.vec(F, 32, 2) : b.vec(U, 32, size[d] + arr), x);
}
VC_HARNESS(infer_other)
{
	Bench b; unsigned k = (unsigned)vc_below("op", 3); Base c = (Base)vc_below("base", 4); unsigned w = width(c); Type v = b.vec(c, w, 2 + (unsigned)vc_below("components", 3)), i = image(b, F, spv::Dim::Dim2D, false, spv::ImageFormat::Unknown), s(&malloc_); s.SampledImage(&i); Instruction* x = b.val(k == 1 ? i : v);
	infers(b, k == 0 ? spv::Op::OpVectorExtractDynamic : k == 1 ? spv::Op::OpSampledImage : spv::Op::OpArrayLength, k == 0 ? b.scalar(c, w) : k == 1 ? s : b.scalar(U, 32), x);
}
// the operators that pick the operation by operand type
static void runGeneric(unsigned lo, unsigned n)
{
	Bench b; Base k = (Base)vc_below("base", 3); unsigned w = width(k), c = 1 + (unsigned)vc_below("components", 4); Type t = b.vec(k, w, c), p = b.vec(B, 0, c); Instruction *x = b.val(t), *y = b.val(t); bool sg = k == I, fl = k == F; using O = spv::Op; Instruction* i = b.next();
	auto pick = [&](O s, O u, O f) { return sg ? s : fl ? f : u; };
	switch (lo + vc_below("op", n)) {
	case 0: b.is(i->Add(x, y), pick(O::OpIAdd, O::OpIAdd, O::OpFAdd), &t, { Operand(x), Operand(y) }); break;
	case 1: b.is(i->Sub(x, y), pick(O::OpISub, O::OpISub, O::OpFSub), &t, { Operand(x), Operand(y) }); break;
	case 2: b.is(i->Mul(x, y), pick(O::OpIMul, O::OpIMul, O::OpFMul), &t, { Operand(x), Operand(y) }); break;
	case 3: b.is(i->Div(x, y), pick(O::OpSDiv, O::OpUDiv, O::OpFDiv), &t, { Operand(x), Operand(y) }); break;
	case 4: b.is(i->Equal(x, y), pick(O::OpIEqual, O::OpIEqual, O::OpFOrdEqual), &p, { Operand(x), Operand(y) }); break;
	case 5: b.is(i->NotEqual(x, y), pick(O::OpINotEqual, O::OpINotEqual, O::OpFOrdNotEqual), &p, { Operand(x), Operand(y) }); break;
	case 6: b.is(i->Greater(x, y), pick(O::OpSGreaterThan, O::OpUGreaterThan, O::OpFOrdGreaterThan), &p, { Operand(x), Operand(y) }); break;
	case 7: b.is(i->GreaterEqual(x, y), pick(O::OpSGreaterThanEqual, O::OpUGreaterThanEqual, O::OpFOrdGreaterThanEqual), &p, { Operand(x), Operand(y) }); break;
	case 8: b.is(i->Less(x, y), pick(O::OpSLessThan, O::OpULessThan, O::OpFOrdLessThan), &p, { Operand(x), Operand(y) }); break;
	case 9: b.is(i->LessEqual(x, y), pick(O::OpSLessThanEqual, O::OpULessThanEqual, O::OpFOrdLessThanEqual), &p, { Operand(x), Operand(y) }); break;
	default: { Instruction *q = b.val(p), *r = b.val(p); i = b.next(); unsigned o = (unsigned)vc_below("bool op", 3); if (o == 0) b.is(i->Equal(q, r), O::OpLogicalEqual, &p, { Operand(q), Operand(r) }); else if (o == 1) b.is(i->NotEqual(q, r), O::OpLogicalNotEqual, &p, { Operand(q), Operand(r) }); else if (fl || vc_bool("not bool")) b.is(i->Not(q), O::OpLogicalNot, &p, { Operand(q) }); else b.is(i->Not(x), O::OpNot, &t, { Operand(x) }); } }
}
VC_HARNESS(build_add) { runGeneric(0, 2); }
VC_HARNESS(build_equal) { runGeneric(4, 2); }
VC_HARNESS(build_order) { runGeneric(6, 4); }
VC_HARNESS(build_not) { runGeneric(10, 1); }
VC_HARNESS(build_div) { runGeneric(2, 2); }
VC_HARNESS(build_generic_mul)
{
	Bench b; unsigned w = fwidth(), n = 2 + (unsigned)vc_below("n", 3), k = 2 + (unsigned)vc_below("k", 3), l = 2 + (unsigned)vc_below("l", 3); Type s = b.scalar(F, w), v = b.vec(F, w, n), vk = b.vec(F, w, k), M = b.mat(w, k, n), N = b.mat(w, l, k), R = b.mat(w, l, n); using O = spv::Op;
	Instruction *is = b.val(s), *iv = b.val(v), *ivk = b.val(vk), *im = b.val(M), *in = b.val(N);
	switch (vc_below("op", 8)) {
	case 0: b.is(b.next()->Mul(iv, is), O::OpVectorTimesScalar, &v, { Operand(iv), Operand(is) }); break;
	case 1: b.is(b.next()->Mul(is, iv), O::OpVectorTimesScalar, &v, { Operand(iv), Operand(is) }); break;
	case 2: b.is(b.next()->Mul(im, is), O::OpMatrixTimesScalar, &M, { Operand(im), Operand(is) }); break;
	case 3: b.is(b.next()->Mul(is, im), O::OpMatrixTimesScalar, &M, { Operand(im), Operand(is) }); break;
	case 4: b.is(b.next()->Mul(iv, im), O::OpVectorTimesMatrix, &vk, { Operand(iv), Operand(im) }); break;
	case 5: b.is(b.next()->Mul(im, ivk), O::OpMatrixTimesVector, &v, { Operand(im), Operand(ivk) }); break;
	case 6: b.is(b.next()->Mul(im, in), O::OpMatrixTimesMatrix, &R, { Operand(im), Operand(in) }); break;
	default: { vc_assume(w >= 32); Instruction* i = b.next(); Instruction* r = i->Div(iv, is); vc_assert(r != i && r == &b.bb.back() && i->getOperation() == O::OpFDiv, "a vector divided by a scalar: one over the scalar, times the vector"); Instruction* one = w == 32 ? b.m.constant(1.f) : b.m.constant(1.0);
		b.x = i; b.is(i, O::OpFDiv, &s, { Operand(one), Operand(is) }); b.x = r; b.is(r, O::OpVectorTimesScalar, &v, { Operand(iv), Operand(i) }); } }
}
// operands SPIR-V does not allow: the error instruction, nothing else
VC_BOUNDED(build_reject)
{
	Bench b; unsigned which = (unsigned)vc_below("table", 4); Base kk; Un f = nullptr; Bin g = nullptr;
	if (which == 0) { auto& u = unary[vc_below("op", sizeof unary / sizeof *unary)]; kk = u.k; f = u.f; } else { auto& u = which == 1 ? binary[vc_below("op", sizeof binary / sizeof *binary)] : which == 2 ? compare[vc_below("op", sizeof compare / sizeof *compare)] : bits[vc_below("op", sizeof bits / sizeof *bits)]; kk = u.k; g = u.f; }
	Base k = baseOf(kk), bad = (Base)vc_below("bad", 4); unsigned w = 32, c = 1 + (unsigned)vc_below("components", 4), how = (unsigned)vc_below("how", 4); auto kind = [](Base x) { return x == I || x == U ? 0 : x == F ? 1 : 2; };
	vc_assume(kind(bad) != kind(k)); Type good = b.vec(k, w, c), wrong = how == 3 ? b.vec(k, 64, c) : how == 0 ? b.vec(bad, bad == B ? 0 : w, c) : how == 1 ? b.mat(w, 2, 2) : b.vec(k, w, c == 4 ? 2 : c + 1); if (how >= 2) vc_assume(g != nullptr); if (how == 3) vc_assume(k != B && which != 3); // (shifts may take amounts of another width)
	Instruction *x = b.val(good), *y = b.val(wrong), *i = b.next(); Instruction* r = f ? (i->*f)(y) : vc_bool("first") ? (i->*g)(y, x) : (i->*g)(x, y);
	vc_assert(r == b.m.getErrorInstr(), "operands SPIR-V does not allow yield the error instruction"); vc_assert(i->empty() && i->getOperation() == spv::Op::OpNop, "nothing is emitted"); vc_cover("end");
}
#endif
