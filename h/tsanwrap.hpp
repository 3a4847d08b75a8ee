// GMP is not instrumented: these wrappers (linked with --wrap) tell ThreadSanitizer which limbs a call reads and writes.
#pragma once
#if defined(GMP_WRAP)
#include <gmp.h>
extern "C" {
#ifdef __clang__
void __tsan_read_range(void *, unsigned long); void __tsan_write_range(void *, unsigned long);
#endif
#define RD(p, n) do { if ((n) > 0) __tsan_read_range((void *)(p), (n) * 8ul); } while (0)
#define WR(p, n) do { if ((n) > 0) __tsan_write_range((void *)(p), (n) * 8ul); } while (0)
#define W(ret, name, params, args, pre, post) ret __real___gmpn_##name params; __attribute__((no_sanitize("thread"))) ret __wrap___gmpn_##name params { pre; ret res_ = __real___gmpn_##name args; post; return res_; }
#define WV(name, params, args, pre, post) void __real___gmpn_##name params; __attribute__((no_sanitize("thread"))) void __wrap___gmpn_##name params { pre; __real___gmpn_##name args; post; }
typedef mp_ptr P; typedef mp_srcptr C; typedef mp_size_t S; typedef mp_limb_t L;
WV(copyi, (P r, C a, S n), (r, a, n), RD(a, n), WR(r, n))
WV(copyd, (P r, C a, S n), (r, a, n), RD(a, n), WR(r, n))
WV(zero, (P r, S n), (r, n), , WR(r, n))
W(int, cmp, (C a, C b, S n), (a, b, n), RD(a, n); RD(b, n), )
W(L, add_n, (P r, C a, C b, S n), (r, a, b, n), RD(a, n); RD(b, n), WR(r, n))
W(L, sub_n, (P r, C a, C b, S n), (r, a, b, n), RD(a, n); RD(b, n), WR(r, n))
W(L, add, (P r, C a, S n, C b, S m), (r, a, n, b, m), RD(a, n); RD(b, m), WR(r, n))
W(L, sub, (P r, C a, S n, C b, S m), (r, a, n, b, m), RD(a, n); RD(b, m), WR(r, n))
W(L, add_1, (P r, C a, S n, L b), (r, a, n, b), RD(a, n), WR(r, n))
W(L, sub_1, (P r, C a, S n, L b), (r, a, n, b), RD(a, n), WR(r, n))
W(L, mul_1, (P r, C a, S n, L b), (r, a, n, b), RD(a, n), WR(r, n))
W(L, addmul_1, (P r, C a, S n, L b), (r, a, n, b), RD(a, n); RD(r, n), WR(r, n))
W(L, submul_1, (P r, C a, S n, L b), (r, a, n, b), RD(a, n); RD(r, n), WR(r, n))
WV(mul_n, (P r, C a, C b, S n), (r, a, b, n), RD(a, n); RD(b, n), WR(r, 2 * n))
WV(sqr, (P r, C a, S n), (r, a, n), RD(a, n), WR(r, 2 * n))
W(L, mul, (P r, C a, S n, C b, S m), (r, a, n, b, m), RD(a, n); RD(b, m), WR(r, n + m))
WV(tdiv_qr, (P q, P r, S z, C a, S n, C d, S m), (q, r, z, a, n, d, m), RD(a, n); RD(d, m), WR(q, n - m + 1); WR(r, m))
W(L, rshift, (P r, C a, S n, unsigned c), (r, a, n, c), RD(a, n), WR(r, n))
W(L, lshift, (P r, C a, S n, unsigned c), (r, a, n, c), RD(a, n), WR(r, n))
S __real___gmpn_set_str(P r, const unsigned char *s, size_t n, int b); __attribute__((no_sanitize("thread"))) S __wrap___gmpn_set_str(P r, const unsigned char *s, size_t n, int b) { __tsan_read_range((void *)s, n); S k = __real___gmpn_set_str(r, s, n, b); WR(r, k); return k; }
W(S, gcdext, (P g, P s, S *sn, P u, S un, P v, S vn), (g, s, sn, u, un, v, vn), RD(u, un); RD(v, vn); WR(u, un); WR(v, vn), WR(g, vn); WR(s, vn))
#undef RD
#undef WR
#undef W
#undef WV
}
#endif
