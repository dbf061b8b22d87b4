#pragma once
// an arbitrary instruction: any opcode, any number of operands of any kind
#include <vector>
#include "vc_list.h"
#include "spvgentwo/Instruction.h"
#include "spvgentwo/InstructionTemplate.inl"
#include "spvgentwo/BasicBlock.h"
#include "spvgentwo/Module.h"
#include "spvgentwo/Writer.h"
#include "spec_ops.inc"
using OE = Entry<Operand>;
#ifndef VC_SYMBOLIC
#include <stdlib.h>
struct PlainAllocator : IAllocator { void* allocate(sgt_size_t n, unsigned) override { return malloc(n); } void deallocate(void* p, sgt_size_t) override { free(p); } };
static Module* someModule() { static PlainAllocator a; static Module* m = new Module(&a); return m; }
#endif
#ifndef VC_SYMBOLIC
// instructions and blocks with ids, as targets of reference operands (0: one without an id)
#include "spvgentwo/Function.h"
struct Targets { Instruction* in[3]; BasicBlock* bb[2]; };
static const Targets& targets()
{
	static Targets t; static bool init = false;
	if (!init) {
		init = true; Module* m = someModule(); Function* f = new Function(m);
		for (int i = 0; i < 3; ++i) { t.in[i] = new Instruction(m, spv::Op::OpUndef); t.in[i]->emplace_back((Instruction*)nullptr); t.in[i]->emplace_back((spv::Id)(i ? 30u + i : 0u)); }
		for (int i = 0; i < 2; ++i) { t.bb[i] = new BasicBlock(f); for (Operand& o : *t.bb[i]->getLabel()) o = Operand((spv::Id)(40u + i)); }
	}
	return t;
}
#endif
// an arbitrary instruction with n operands; the word of operand i is word(i), or none when bad(i)
#ifdef VC_SYMBOLIC
struct Ops {
	uint64_t n, fam; uint32_t* words; uint8_t* badw; static Ops* cur;
	Ops(Instruction& I) { n = vc_len("operands"); init(I); }
	Ops(Instruction& I, uint64_t c) { n = c; init(I); }
	void init(Instruction& I) {
		fam = vc_family("ops", n, sizeof(OE)); vc_link(fam, __builtin_offsetof(OE, m_pPrev), __builtin_offsetof(OE, m_pNext));
		(void)vc_init64(fam, 0, __builtin_offsetof(OE, m_data.instruction));   // the payload is a 64 bit field
		words = (uint32_t*)vc_array("words", n, 4); badw = (uint8_t*)vc_array("bad", n, 1);
		I.m_pBegin = n > 0 ? (OE*)vc_node(fam, 0) : nullptr; I.m_pLast = n > 0 ? (OE*)vc_node(fam, n - 1) : nullptr; I.m_Elements = n;
		I.m_parentType = Instruction::ParentType::Module; I.m_parent.pModule = (Module*)vc_opaque("module");
		cur = this;
	}
	OE* node(uint64_t i) const { return i < n ? (OE*)vc_node(fam, i) : nullptr; }
	unsigned word(uint64_t i) const { return vc_inita32(words, i, 0); }
	bool bad(uint64_t i) const { return (vc_inita8(badw, i, 0) & 1) != 0; }
	unsigned kind(uint64_t i) const { return vc_init32(fam, i, __builtin_offsetof(OE, m_data.type)); }
	uint64_t payload(uint64_t i) const { return vc_init64(fam, i, __builtin_offsetof(OE, m_data.instruction)); }
	unsigned value(uint64_t i) const { return vc_init32(fam, i, __builtin_offsetof(OE, m_data.literal)); }
};
Ops* Ops::cur;
// Operand::write by its contract (C07): one word, the operand's, or nothing when it has none
extern "C" bool ct_operand_write(const Operand* o, IWriter* w)
{
	uint64_t i = vc_pos(Ops::cur->fam, (const OE*)((const char*)o - __builtin_offsetof(OE, m_data)));
	if (Ops::cur->bad(i)) return false;
	return w->put(Ops::cur->word(i));
}
#else
struct Ops {
	uint64_t n; std::vector<OE*> e; std::vector<unsigned> w, k; std::vector<uint64_t> p; std::vector<bool> b;
	static Operand mk(unsigned k, uint64_t p) { return k == 0 ? Operand((Instruction*)p) : k == 1 ? Operand((BasicBlock*)p) : k == 2 ? Operand(literal_t((unsigned)p)) : Operand((spv::Id)(unsigned)p); }
	Ops(Instruction& I, uint64_t c = ~0ull, bool refs = true) {
		n = c == ~0ull ? vc_len("operands") : c;
		I.m_parentType = Instruction::ParentType::Module; I.m_parent.pModule = someModule();
		for (uint64_t i = 0; i < n; ++i) {
			unsigned kk = i < 6 ? (unsigned)vc_below("kind", refs ? 4 : 2) + (refs ? 0 : 2) : 2; unsigned x = i < 6 ? vc_u32("word") : (unsigned)i; uint64_t pay = x;
			if (kk == 0) { unsigned c = x % 3; pay = (uint64_t)targets().in[c]; x = c ? 30u + c : 0u; }
			if (kk == 1) { unsigned c = x % 2; pay = (uint64_t)targets().bb[c]; x = 40u + c; }
			I.emplace_back(mk(kk, pay)); e.push_back(I.lastEntry()); w.push_back(x); b.push_back(kk == 3 && x == 0); k.push_back(kk); p.push_back(pay);
		}
	}
	OE* node(uint64_t i) const { return i < n ? e[i] : nullptr; }
	unsigned word(uint64_t i) const { return w[i]; }
	bool bad(uint64_t i) const { return b[i]; }
	unsigned kind(uint64_t i) const { return i < n ? k[i] : 77; }
	uint64_t payload(uint64_t i) const { return i < n ? p[i] : 0; }
	unsigned value(uint64_t i) const { return (unsigned)payload(i); }
};
#endif
#ifdef VC_SYMBOLIC
static unsigned anyOp() { return vc_u32("op"); }
#else
// natively two thirds of the runs use an opcode that exists (branches and other terminators most often)
static unsigned anyOp()
{
	uint64_t sel = vc_below("opsel", 3); unsigned x = vc_u32("op"); if (sel == 0) return x;
	static const uint64_t n = sizeof(specOps) / sizeof(specOps[0]);
	return sel == 1 ? specOps[x % n].op : 245 + x % 12;
}
#endif
#define VC_INSTR(I) VcAllocator alloc; VcBox<Instruction> ibox; Instruction& I = ibox.x; I.m_pAllocator = &alloc; I.m_Operation = (spv::Op)anyOp()
