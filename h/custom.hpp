// Prime fields of other sizes than the curves use: the templates are public, so
// "any limb count" includes them. Constants are derived here from the modulus.
#pragma once
#include "lib.hpp"
namespace cust {
using namespace libff; using ref::Z;
extern bigint<1> m1a; extern bigint<1> m1b; extern bigint<2> m2; extern bigint<3> m3; extern bigint<3> m3b; extern bigint<4> m4; extern bigint<4> m4b; extern bigint<5> m5; extern bigint<5> m5b; extern bigint<6> m6; extern bigint<8> m8;
#ifdef MON_MAIN
bigint<1> m1a, m1b; bigint<2> m2; bigint<3> m3, m3b; bigint<4> m4, m4b; bigint<5> m5, m5b; bigint<6> m6; bigint<8> m8;
#endif
typedef Fp_model<1, m1a> F1a; typedef Fp_model<1, m1b> F1b; typedef Fp_model<2, m2> F2; typedef Fp_model<3, m3> F3; typedef Fp_model<3, m3b> F3b;
typedef Fp_model<4, m4> F4; typedef Fp_model<4, m4b> F4b; typedef Fp_model<5, m5> F5; typedef Fp_model<5, m5b> F5b; typedef Fp_model<6, m6> F6; typedef Fp_model<8, m8> F8;

inline Z prev_prime(Z p) { while (!ref::isprime(p)) --p; return p; }
inline Z next_prime(Z p) { while (!ref::isprime(p)) ++p; return p; }
inline Z two(unsigned k) { Z r; mpz_setbit(r.get_mpz_t(), k); return r; }

template<mp_size_t n, bigint<n> &m> void setup(const Z &p) {
    typedef Fp_model<n, m> F;
    m = lb::bz<n>(p);
    Z R = two(64 * n), R2 = ref::modp(R * R, p), R3 = ref::modp(R2 * R, p), W = two(64);
    F::Rsquared = lb::bz<n>(R2); F::Rcubed = lb::bz<n>(R3);
    F::inv = mon::u64_mpz(W - ref::inv_mod(ref::modp(p, W), W));
    F::num_bits = ref::bits(p);
    Z q = p - 1, t = q; size_t s = 0; while (!ref::bit(t, 0)) { t >>= 1; ++s; }
    F::euler = lb::bz<n>(Z(q / 2)); F::s = s; F::t = lb::bz<n>(t); F::t_minus_1_over_2 = lb::bz<n>(Z((t - 1) / 2));
    Z nq = 2; while (ref::powm(nq, q / 2, p) == 1) ++nq;
    auto enc = [&](const Z &v) { F x; x.mont_repr = lb::bz<n>(ref::modp(v * R, p)); return x; };
    F::nqr = enc(nq); F::nqr_to_t = enc(ref::powm(nq, t, p)); F::multiplicative_generator = enc(nq); F::root_of_unity = enc(ref::powm(nq, t, p));
}
inline void init() {
    setup<1, m1a>(Z(257)); setup<1, m1b>(prev_prime(two(63) - 1)); setup<2, m2>(two(127) - 1);
    setup<3, m3>(prev_prime(two(191) - 1)); setup<3, m3b>(next_prime(two(128) + 1));
    setup<4, m4>(two(255) - 19); setup<4, m4b>(next_prime(two(192) + 1));
    setup<5, m5>(prev_prime(two(319) - 1)); setup<5, m5b>(next_prime(two(256) + 1));
    setup<6, m6>(prev_prime(two(383) - 1)); setup<8, m8>(prev_prime(two(511) - 1));
}
}
namespace lb {
#define CU_FI(T, NM, M, N) template<> struct FI<cust::T> { static const char *name() { return NM; } static const Z &p() { static Z v = zb<N>(cust::M); return v; } };
CU_FI(F1a, "p257(1 limb)", m1a, 1) CU_FI(F1b, "p63bit(1 limb)", m1b, 1) CU_FI(F2, "p127bit(2 limbs)", m2, 2) CU_FI(F3, "p191bit(3 limbs)", m3, 3) CU_FI(F3b, "p129bit(3 limbs)", m3b, 3)
CU_FI(F4, "p255bit(4 limbs)", m4, 4) CU_FI(F4b, "p193bit(4 limbs)", m4b, 4) CU_FI(F5, "p319bit(5 limbs)", m5, 5) CU_FI(F5b, "p257bit(5 limbs)", m5b, 5) CU_FI(F6, "p383bit(6 limbs)", m6, 6) CU_FI(F8, "p511bit(8 limbs)", m8, 8)
}
