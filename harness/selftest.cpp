// Self-test of the verifier: contracts named ok_* must prove, contracts named bad_* must be refuted or stay unproved.
#include "vc_list.h"
VC_HARNESS(ok_sum) { uint32_t a = vc_u32("a"), b = vc_u32("b"); vc_assert((a + b) - b == a, "x"); vc_cover("end"); }
VC_HARNESS(bad_sum) { uint32_t a = vc_u32("a"), b = vc_u32("b"); vc_assert(a + b >= a, "x"); vc_cover("end"); }
VC_HARNESS(bad_vacuous) { uint32_t a = vc_u32("a"); vc_assume(a < 3); vc_assume(a > 5); vc_assert(false, "x"); vc_cover("end"); }
VC_HARNESS(ok_loop) { uint64_t n = vc_len("n"), s = 0; for (uint64_t i = 0; i < n; ++i) s += 2; vc_assert(s == 2 * n, "x"); vc_cover("end"); }
VC_HARNESS(bad_loop) { uint64_t n = vc_len("n"), s = 0; for (uint64_t i = 0; i < n; ++i) if (i != 1000000) s += 2; vc_assert(s == 2 * n, "x"); vc_cover("end"); }
VC_HARNESS(bad_loop_off) { uint64_t n = vc_len("n"); uint32_t* a = (uint32_t*)vc_array("a", n, 4); for (uint64_t i = 0; i <= n; ++i) a[i] = 0; vc_cover("end"); }
VC_HARNESS(ok_loop_fill) { uint64_t n = vc_len("n"); uint32_t* a = (uint32_t*)vc_array("a", n, 4); for (uint64_t i = 0; i < n; ++i) a[i] = (uint32_t)i; VC_FORALL(j, n) vc_assert(a[j] == (uint32_t)j, "x"); vc_cover("end"); }
VC_HARNESS(bad_loop_fill) { uint64_t n = vc_len("n"); uint32_t* a = (uint32_t*)vc_array("a", n, 4); for (uint64_t i = 0; i + 1 < n; ++i) a[i] = (uint32_t)i; VC_FORALL(j, n) vc_assert(a[j] == (uint32_t)j, "x"); vc_cover("end"); }
VC_HARNESS(bad_null) { uint32_t* p = vc_bool("b") ? (uint32_t*)vc_alloc(4, 4) : nullptr; *p = 1; vc_cover("end"); }
VC_HARNESS(bad_uaf) { uint32_t* p = (uint32_t*)vc_alloc(4, 4); *p = 1; vc_free(p, 4); vc_assert(*p == 1, "x"); vc_cover("end"); }
VC_HARNESS(bad_double_free) { void* p = vc_alloc(4, 4); vc_free(p, 4); vc_free(p, 4); vc_cover("end"); }
VC_HARNESS(bad_oob) { uint8_t* p = (uint8_t*)vc_alloc(4, 4); p[vc_below("i", 5)] = 0; vc_cover("end"); }
VC_HARNESS(bad_uninit) { uint32_t* p = (uint32_t*)vc_alloc(4, 4); vc_assert(*p == 0, "x"); vc_cover("end"); }
VC_HARNESS(bad_overflow) { int a = (int)vc_u32("a"); int b = a + 1; vc_assert(b != a, "x"); vc_cover("end"); }
VC_HARNESS(ok_find) { uint64_t n = vc_len("n"); uint32_t* a = (uint32_t*)vc_array("a", n, 4); uint64_t i = 0; while (i < n && a[i] != 7) ++i; if (i < n) vc_assert(a[i] == 7, "x"); else VC_FORALL(j, n) vc_assert(a[j] != 7, "y"); vc_cover("end"); }
VC_HARNESS(bad_find) { uint64_t n = vc_len("n"); uint32_t* a = (uint32_t*)vc_array("a", n, 4); uint64_t i = 0; while (i < n && a[i] != 7) ++i; VC_FORALL(j, n) vc_assert(a[j] != 7, "y"); vc_cover("end"); }
VC_HARNESS(bad_find2) { uint64_t n = vc_len("n"); uint32_t* a = (uint32_t*)vc_array("a", n, 4); uint64_t i = 0; while (i < n && a[i] != 7) i += 2; if (i >= n) VC_FORALL(j, n) vc_assert(a[j] != 7, "y"); vc_cover("end"); }
VC_HARNESS(ok_list_walk) { VcAllocator A; VcBox<L> b(&A); Old o(b.x, "l"); uint64_t k = 0; for (auto& e : b.x) { (void)e; ++k; } vc_assert(k == o.n, "x"); vc_cover("end"); }
VC_HARNESS(bad_list_walk) { VcAllocator A; VcBox<L> b(&A); Old o(b.x, "l"); uint64_t k = 0; for (auto& e : b.x) if (e != 0x12345678) ++k; vc_assert(k == o.n, "x"); vc_cover("end"); }
VC_HARNESS(bad_list_alias) { VcAllocator A; VcBox<L> b(&A); Old o(b.x, "l"); vc_assume(o.n > 1); uint64_t p = vc_below("p", o.n), q = vc_below("q", o.n); o.node(p)->inner() = 1; o.node(q)->inner() = 2; vc_assert(o.node(p)->inner() == 1, "x"); vc_cover("end"); }
VC_HARNESS(bad_nested) { uint64_t n = vc_len("n"), m = vc_len("m"), s = 0; for (uint64_t i = 0; i < n; ++i) for (uint64_t j = 0; j < m; ++j) s += (i == 5 && j == 9) ? 0 : 1; vc_assert(s == n * m, "x"); vc_cover("end"); }
VC_HARNESS(bad_fresh_alias) { uint32_t* p = (uint32_t*)vc_alloc(4, 4); uint32_t* q = (uint32_t*)vc_alloc(4, 4); *p = 1; *q = 2; vc_assert(p == q || *p == 2, "x"); vc_cover("end"); }
