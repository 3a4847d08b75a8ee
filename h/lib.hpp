// Bridge between libff objects and the reference model. Values are read from and
// written to the public representation directly (mont_repr, c0.., X/Y/Z), so that
// neither direction relies on library arithmetic or conversions.
#pragma once
#include "mon.hpp"
#include "ref.hpp"
#include <libff/algebra/curves/alt_bn128/alt_bn128_pp.hpp>
#include <libff/algebra/curves/bls12_381/bls12_381_pp.hpp>
#include <libff/algebra/curves/edwards/edwards_pp.hpp>
#include <libff/algebra/curves/mnt/mnt4/mnt4_pp.hpp>
#include <libff/algebra/curves/mnt/mnt6/mnt6_pp.hpp>
#include <libff/algebra/fields/binary/gf32.hpp>
#include <libff/algebra/fields/binary/gf64.hpp>
#include <libff/algebra/fields/binary/gf128.hpp>
#include <libff/algebra/fields/binary/gf192.hpp>
#include <libff/algebra/fields/binary/gf256.hpp>
#include <libff/algebra/fields/prime_base/fp.hpp>
#include <libff/algebra/fields/prime_extension/fp2.hpp>
#include <libff/algebra/fields/prime_extension/fp3.hpp>
#include <libff/algebra/fields/prime_extension/fp4.hpp>
#include <libff/algebra/fields/prime_extension/fp6_2over3.hpp>
#include <libff/algebra/fields/prime_extension/fp6_3over2.hpp>
#include <libff/algebra/fields/prime_extension/fp12_2over3over2.hpp>
#include <libff/common/profiling.hpp>
#include <libff/common/utils.hpp>

namespace lb {
using namespace libff;
using mon::rng; using mon::Rng; using mon::expect; using mon::at; using mon::info; using mon::ev; using mon::fail; using mon::hostile_mod; using mon::hostile_bits; using mon::hex;
using ref::Z; using ref::El; using ref::Field; using ref::Pt; using ref::Curve;

// ---------------------------------------------------------------- integers
template<mp_size_t n> Z zb(const bigint<n> &b) { Z r; mpz_import(r.get_mpz_t(), n, -1, 8, 0, 0, b.data); return r; }
template<mp_size_t n> bigint<n> bz(const Z &v) { bigint<n> b; for (mp_size_t i = 0; i < n; ++i) b.data[i] = mon::u64_mpz(Z(v >> (64 * i))); return b; }

// ---------------------------------------------------------------- standard moduli (independent of the library's constants)
inline const Z &std_p(int k) {
    static const Z t[] = {
        Z("21888242871839275222246405745257275088548364400416034343698204186575808495617"),  // 0 BN254 r
        Z("21888242871839275222246405745257275088696311157297823662689037894645226208583"),  // 1 BN254 q
        Z("52435875175126190479447740508185965837690552500527637822603658699938581184513"),  // 2 BLS12-381 r
        Z("4002409555221667393417789825735904156556882819939007885332058136124031650490837864442687629129015664037894272559787"), // 3 BLS12-381 q
        Z("1552511030102430251236801561344621993261920897571225601"),  // 4 Edwards r
        Z("6210044120409721004947206240885978274523751269793792001"),  // 5 Edwards q
        Z("475922286169261325753349249653048451545124878552823515553267735739164647307408490559963137"), // 6 MNT A
        Z("475922286169261325753349249653048451545124879242694725395555128576210262817955800483758081"), // 7 MNT B
    };
    return t[k];
}
template<class F> struct FI;   // field info: name(), p()
#define LB_FI(T, NM, K) template<> struct FI<T> { static const char *name() { return NM; } static const Z &p() { return std_p(K); } };
LB_FI(alt_bn128_Fr, "alt_bn128_Fr", 0) LB_FI(alt_bn128_Fq, "alt_bn128_Fq", 1)
LB_FI(bls12_381_Fr, "bls12_381_Fr", 2) LB_FI(bls12_381_Fq, "bls12_381_Fq", 3)
LB_FI(edwards_Fr, "edwards_Fr", 4) LB_FI(edwards_Fq, "edwards_Fq", 5)
LB_FI(mnt4_Fr, "mnt4_Fr", 6) LB_FI(mnt4_Fq, "mnt4_Fq", 7)
// mnt6_Fr / mnt6_Fq are the same C++ types as mnt4_Fq / mnt4_Fr

// ---------------------------------------------------------------- prime fields
template<mp_size_t n, const bigint<n> &m> struct PF {
    typedef Fp_model<n, m> T;
    static Z &mod_override() { static Z z = 0; return z; } // I01 builds inputs before the library knows its moduli
    static Z p() { return mod_override() != 0 ? mod_override() : zb<n>(m); }
    static const Z &rinv() { static Z r = [] { Z R; mpz_setbit(R.get_mpz_t(), 64 * n); return ref::inv_mod(ref::modp(R, p()), p()); }(); return r; }
    static bool canon(const T &x) { return zb<n>(x.mont_repr) < p(); }
    static Z dec(const T &x) { return ref::modp(zb<n>(x.mont_repr) * rinv(), p()); }
    static T enc(const Z &v) { T x; Z t = v; t <<= 64 * n; x.mont_repr = bz<n>(ref::modp(t, p())); return x; }
    static T raw(const Z &mont) { T x; x.mont_repr = bz<n>(mont); return x; } // element with a chosen internal representation
};
template<mp_size_t n, const bigint<n> &m> inline PF<n, m> pf(const Fp_model<n, m> &) { return PF<n, m>(); }

// ---------------------------------------------------------------- all fields: dec/enc/canon by structure
template<mp_size_t n, const bigint<n> &m> void decv(const Fp_model<n, m> &x, El &o) { o.push_back(PF<n, m>::dec(x)); }
template<mp_size_t n, const bigint<n> &m> void decv(const Fp2_model<n, m> &x, El &o) { decv(x.c0, o); decv(x.c1, o); }
template<mp_size_t n, const bigint<n> &m> void decv(const Fp3_model<n, m> &x, El &o) { decv(x.c0, o); decv(x.c1, o); decv(x.c2, o); }
template<mp_size_t n, const bigint<n> &m> void decv(const Fp4_model<n, m> &x, El &o) { decv(x.c0, o); decv(x.c1, o); }
template<mp_size_t n, const bigint<n> &m> void decv(const Fp6_2over3_model<n, m> &x, El &o) { decv(x.c0, o); decv(x.c1, o); }
template<mp_size_t n, const bigint<n> &m> void decv(const Fp6_3over2_model<n, m> &x, El &o) { decv(x.c0, o); decv(x.c1, o); decv(x.c2, o); }
template<mp_size_t n, const bigint<n> &m> void decv(const Fp12_2over3over2_model<n, m> &x, El &o) { decv(x.c0, o); decv(x.c1, o); }
template<mp_size_t n, const bigint<n> &m> void encv(Fp_model<n, m> &x, const El &v, size_t &i) { x = PF<n, m>::enc(v[i++]); }
template<mp_size_t n, const bigint<n> &m> void encv(Fp2_model<n, m> &x, const El &v, size_t &i) { encv(x.c0, v, i); encv(x.c1, v, i); }
template<mp_size_t n, const bigint<n> &m> void encv(Fp3_model<n, m> &x, const El &v, size_t &i) { encv(x.c0, v, i); encv(x.c1, v, i); encv(x.c2, v, i); }
template<mp_size_t n, const bigint<n> &m> void encv(Fp4_model<n, m> &x, const El &v, size_t &i) { encv(x.c0, v, i); encv(x.c1, v, i); }
template<mp_size_t n, const bigint<n> &m> void encv(Fp6_2over3_model<n, m> &x, const El &v, size_t &i) { encv(x.c0, v, i); encv(x.c1, v, i); }
template<mp_size_t n, const bigint<n> &m> void encv(Fp6_3over2_model<n, m> &x, const El &v, size_t &i) { encv(x.c0, v, i); encv(x.c1, v, i); encv(x.c2, v, i); }
template<mp_size_t n, const bigint<n> &m> void encv(Fp12_2over3over2_model<n, m> &x, const El &v, size_t &i) { encv(x.c0, v, i); encv(x.c1, v, i); }
template<mp_size_t n, const bigint<n> &m> bool canon(const Fp_model<n, m> &x) { return PF<n, m>::canon(x); }
template<mp_size_t n, const bigint<n> &m> bool canon(const Fp2_model<n, m> &x) { return canon(x.c0) && canon(x.c1); }
template<mp_size_t n, const bigint<n> &m> bool canon(const Fp3_model<n, m> &x) { return canon(x.c0) && canon(x.c1) && canon(x.c2); }
template<mp_size_t n, const bigint<n> &m> bool canon(const Fp4_model<n, m> &x) { return canon(x.c0) && canon(x.c1); }
template<mp_size_t n, const bigint<n> &m> bool canon(const Fp6_2over3_model<n, m> &x) { return canon(x.c0) && canon(x.c1); }
template<mp_size_t n, const bigint<n> &m> bool canon(const Fp6_3over2_model<n, m> &x) { return canon(x.c0) && canon(x.c1) && canon(x.c2); }
template<mp_size_t n, const bigint<n> &m> bool canon(const Fp12_2over3over2_model<n, m> &x) { return canon(x.c0) && canon(x.c1); }
template<class T> El dec(const T &x) { El o; decv(x, o); return o; }
template<class T> T enc(const El &v) { T x; size_t i = 0; encv(x, v, i); return x; }

// ---------------------------------------------------------------- reference towers (defining polynomials stated here, not read from the library)
struct Towers {
    Field ar{std_p(0)}, aq{std_p(1)}, br{std_p(2)}, bq{std_p(3)}, er{std_p(4)}, eq{std_p(5)}, m4r{std_p(6)}, m4q{std_p(7)};
    Field *a2, *a6, *a12, *b2, *b6, *b12, *e3, *e6, *m42, *m44, *m63, *m66;
    Towers() {
        a2 = new Field(&aq, 2, El{aq.p - 1});                 // u^2 = -1
        a6 = new Field(a2, 3, El{Z(9), Z(1)});                // v^3 = 9+u
        a12 = new Field(a6, 2, a6->gen());                    // w^2 = v
        b2 = new Field(&bq, 2, El{bq.p - 1});                 // u^2 = -1
        b6 = new Field(b2, 3, El{Z(1), Z(1)});                // v^3 = 1+u
        b12 = new Field(b6, 2, b6->gen());
        e3 = new Field(&eq, 3, El{Z(61)});                    // u^3 = 61
        e6 = new Field(e3, 2, e3->gen());                     // w^2 = u
        m42 = new Field(&m4q, 2, El{Z(17)});                  // u^2 = 17
        m44 = new Field(m42, 2, m42->gen());                  // w^2 = u
        m63 = new Field(&m4r, 3, El{Z(5)});                   // u^3 = 5
        m66 = new Field(m63, 2, m63->gen());
    }
};
inline Towers &tw() { static Towers t; return t; }
template<class T> struct RF; // reference field of a library field type
#define LB_RF(T, NM, E) template<> struct RF<T> { static const char *name() { return NM; } static const Field *f() { return E; } };
LB_RF(alt_bn128_Fr, "alt_bn128_Fr", &tw().ar) LB_RF(alt_bn128_Fq, "alt_bn128_Fq", &tw().aq) LB_RF(alt_bn128_Fq2, "alt_bn128_Fq2", tw().a2) LB_RF(alt_bn128_Fq6, "alt_bn128_Fq6", tw().a6) LB_RF(alt_bn128_Fq12, "alt_bn128_Fq12", tw().a12)
LB_RF(bls12_381_Fr, "bls12_381_Fr", &tw().br) LB_RF(bls12_381_Fq, "bls12_381_Fq", &tw().bq) LB_RF(bls12_381_Fq2, "bls12_381_Fq2", tw().b2) LB_RF(bls12_381_Fq6, "bls12_381_Fq6", tw().b6) LB_RF(bls12_381_Fq12, "bls12_381_Fq12", tw().b12)
LB_RF(edwards_Fr, "edwards_Fr", &tw().er) LB_RF(edwards_Fq, "edwards_Fq", &tw().eq) LB_RF(edwards_Fq3, "edwards_Fq3", tw().e3) LB_RF(edwards_Fq6, "edwards_Fq6", tw().e6)
LB_RF(mnt4_Fr, "mnt4_Fr", &tw().m4r) LB_RF(mnt4_Fq, "mnt4_Fq", &tw().m4q) LB_RF(mnt4_Fq2, "mnt4_Fq2", tw().m42) LB_RF(mnt4_Fq4, "mnt4_Fq4", tw().m44)
LB_RF(mnt6_Fq3, "mnt6_Fq3", tw().m63) LB_RF(mnt6_Fq6, "mnt6_Fq6", tw().m66)

// compare a library value with its expected reference value
template<class T> bool same(const T &x, const El &want) { return canon(x) && dec(x) == want; }
template<class T> std::string show(const T &x) { return (canon(x) ? "" : "NONCANONICAL ") + ref::str(dec(x)); }
template<class T> bool chk(const T &got, const El &want, const std::string &cls, uint64_t opnd, const std::function<std::string()> &ctx, bool nontrivial = true) {
    return expect(same(got, want), cls, opnd, [&] { return ctx() + " -> got " + show(got) + " want " + ref::str(want); }, nontrivial);
}

inline void quiet() { inhibit_profiling_info = true; inhibit_profiling_counters = true; }
inline void init_all() {
    quiet();
    // parameter initialisation prints nothing; order is varied by I01 only
    alt_bn128_pp::init_public_params(); bls12_381_pp::init_public_params(); edwards_pp::init_public_params(); mnt4_pp::init_public_params(); mnt6_pp::init_public_params();
}

// hostile element of a reference field: zero/subfield/sparse patterns
inline El hostile_el(const Field *f, Rng &r) {
    El v(f->n);
    unsigned k = r.below(10);
    if (k == 0) return v;
    if (k == 1) { v[r.below(f->n)] = hostile_mod(r, f->p); return v; }              // one coefficient
    if (k == 2) { v = f->one(); if (r.chance(1, 2)) v = f->neg(v); return v; }
    if (k == 3 && f->base) { El b(f->base->n); for (auto &x : b) x = hostile_mod(r, f->p); return f->lift(b); } // subfield
    if (k == 4 && f->base) { El b(f->base->n); for (auto &x : b) x = hostile_mod(r, f->p); f->set(v, r.below(f->d), b); return v; }
    if (k == 5) { for (auto &x : v) if (r.chance(1, 2)) x = hostile_mod(r, f->p); return v; }
    if (k == 6) { Z c = hostile_mod(r, f->p); for (auto &x : v) x = r.chance(1, 2) ? c : ref::modp(-c, f->p); return v; } // equal/opposite coefficients
    for (auto &x : v) x = hostile_mod(r, f->p);
    return v;
}
// related second operand: equal, opposite, conjugate-like, near, inverse, or independent
inline El related(const Field *f, const El &a, Rng &r) {
    switch (r.below(8)) {
    case 0: return a;
    case 1: return f->neg(a);
    case 2: { El b = a; size_t i = r.below(f->n); b[i] = ref::modp(-b[i], f->p); return b; }
    case 3: { El b = a; size_t i = r.below(f->n); b[i] = ref::modp(b[i] + 1, f->p); return b; }
    case 4: { El b = a; if (f->n > 1) std::rotate(b.begin(), b.begin() + 1, b.end()); return b; }
    default: return hostile_el(f, r);
    }
}
} // namespace lb
