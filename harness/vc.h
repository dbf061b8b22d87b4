// Contract vocabulary.  Symbolically (clang -> LLVM IR -> lvc) these are intrinsics; natively they read a
// concrete input vector, so that every contract is also an executable check on the real code.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint8_t vc_u8(const char* name);
uint16_t vc_u16(const char* name);
uint32_t vc_u32(const char* name);
uint64_t vc_u64(const char* name);
bool vc_bool(const char* name);
uint64_t vc_len(const char* name);                 // a container length
uint64_t vc_below(const char* name, uint64_t n);   // a value in [0,n)
void vc_assume(bool c);
void vc_assert(bool c, const char* label);
void vc_cover(const char* label);
void vc_unroll(uint64_t n);
void vc_split(bool c);
void vc_term(uint64_t t);
void* vc_alloc(uint64_t bytes, uint32_t align);
void vc_free(void* p, uint64_t bytes);
bool vc_live(const void* p);
bool vc_same_object(const void* p, const void* q);
void* vc_array(const char* name, uint64_t n, uint64_t es);
uint8_t vc_inita8(const void* arr, uint64_t i, uint64_t off);
uint16_t vc_inita16(const void* arr, uint64_t i, uint64_t off);
uint32_t vc_inita32(const void* arr, uint64_t i, uint64_t off);
uint64_t vc_inita64(const void* arr, uint64_t i, uint64_t off);
const char* vc_cstr(const char* name, uint64_t n);   // n non-NUL characters and a NUL
void* vc_opaque(const char* name);
void vc_sym(void* p, uint64_t size, const char* name);
uint64_t vc_size(const void* p);
bool vc_call(const char* symbol, ...);   // call a closure (or other internal function) of the verified code
void vc_callv(const char* symbol, ...);
}
#ifdef VC_SYMBOLIC
extern "C" {
uint64_t vc_index();
uint64_t vc_family(const char* name, uint64_t n, uint64_t es);
void* vc_node(uint64_t fam, uint64_t i);
uint8_t vc_init8(uint64_t fam, uint64_t i, uint64_t off);
uint16_t vc_init16(uint64_t fam, uint64_t i, uint64_t off);
uint32_t vc_init32(uint64_t fam, uint64_t i, uint64_t off);   // initial content of a field
uint64_t vc_init64(uint64_t fam, uint64_t i, uint64_t off);
void vc_link(uint64_t fam, uint64_t prevoff, uint64_t nextoff);
uint64_t vc_family2(const char* name, uint64_t nb, uint64_t es, uint64_t prevoff, uint64_t nextoff);
void* vc_node2(uint64_t fam, uint64_t b, uint64_t i);
uint64_t vc_pos(uint64_t fam, const void* e);       // position of a node in its family / bucket
uint32_t vc_initb32(uint64_t fam, uint64_t b, uint64_t i, uint64_t off);
uint64_t vc_initb64(uint64_t fam, uint64_t b, uint64_t i, uint64_t off);
uint64_t vc_count2(uint64_t fam, uint64_t b);
void vc_bucket_heads(void* arr, uint64_t fam, uint64_t boff, uint64_t loff, uint64_t noff);
void vc_array_below(void* arr, uint64_t off, uint32_t n);   // 32 bit field = its initial value modulo n
void vc_array_constp(void* arr, uint64_t off, const void* v);
void vc_fam_text(uint64_t fam, uint64_t kindoff, uint64_t valoff, const void* text, uint64_t n);
void vc_fam_constp(uint64_t fam, uint64_t off, const void* v);
}
// for all i in [0,n): one arbitrary i stands for all of them
#define VC_FORALL(i, n) if (uint64_t i = vc_index(); i < (uint64_t)(n))
#else
#define VC_FORALL(i, n) for (uint64_t i = 0; i < (uint64_t)(n); ++i)
#endif
// storage whose destructor is not run at the end of the contract
template<class X> union VcBox { X x; char c; template<class... A> VcBox(A&&... a) : x(static_cast<A&&>(a)...) {} ~VcBox() {} };
#define VC_HARNESS(name) extern "C" void name()
#define VC_MAXN (1ull << 32)
#define VC_BOUNDED(name) extern "C" void name()
#define VC_KNOWN(name) extern "C" void name()
