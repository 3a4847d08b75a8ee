// F05: exponentiation with every exponent type and square roots, in every field.
#define MON_MAIN
#include "gfref.hpp"
#include "custom.hpp"
using namespace lb;
typedef unsigned long long ull;

// uniform view of prime, extension and binary fields
template<class T> struct V { // prime and extension
    typedef El E; static const Field *f() { return RF<T>::f(); } static std::string nm() { return RF<T>::name(); }
    static E mul(const E &a, const E &b) { return f()->mul(a, b); } static E one() { return f()->one(); } static E zero() { return f()->zero(); }
    static E pow(const E &a, const Z &e) { return f()->pow(a, e); } static E hostile(Rng &r) { return hostile_el(f(), r); }
    static T mk(const E &e) { return enc<T>(e); } static E get(const T &x) { return dec(x); } static bool ok(const T &x) { return canon(x); }
    static std::string str(const E &e) { return ref::str(e); } static uint64_t hash(const E &e) { return ref::hash(e); } static Z order() { return f()->order() - 1; }
};
#define BINV(G) template<> struct V<G> { typedef GF::W E; static const GF &f() { return BinT<G>::g(); } static std::string nm() { return #G; } \
    static E mul(const E &a, const E &b) { return f().mul(a, b); } static E one() { return f().one(); } static E zero() { return f().zero(); } static E pow(const E &a, const Z &e) { return f().pow(a, e); } static E hostile(Rng &r) { return f().hostile(r); } \
    static G mk(const E &e) { return gf<G>(e); } static E get(const G &x) { return x.to_words(); } static bool ok(const G &) { return true; } static std::string str(const E &e) { return f().str(e); } static uint64_t hash(const E &e) { return f().hash(e); } static Z order() { Z N; mpz_setbit(N.get_mpz_t(), f().n); return N - 1; } };
BINV(gf32) BINV(gf64) BINV(gf128) BINV(gf192) BINV(gf256)

template<class T> void c(const T &got, const typename V<T>::E &want, const char *op, const typename V<T>::E &a, const Z &e) {
    expect(V<T>::ok(got) && V<T>::get(got) == want, std::string("F05.") + op + ":" + V<T>::nm(), V<T>::hash(a) * 31 + ref::hash(e), [&] { return std::string(op) + " a=" + V<T>::str(a) + " e=" + hex(e) + " got " + V<T>::str(V<T>::get(got)) + " want " + V<T>::str(want); }, e != 0);
}
template<class T, mp_size_t k> void bigexp(const T &x, const typename V<T>::E &a, const Z &e, const typename V<T>::E &w) { bigint<k> b = bz<k>(e); c(x ^ b, w, "pow-bigint", a, e); T y = x; y ^= b; c(y, w, "pow-assign-bigint", a, e); c(power<T>(x, b), w, "power-bigint", a, e); }
// exponents that are themselves scalars (only the fields that offer it)
template<class T> auto fpexp(const T &x, const typename V<T>::E &a, Rng &r, int) -> decltype(x ^ alt_bn128_Fr(), void()) {
    { Z e = hostile_mod(r, std_p(0)); c(x ^ PF<alt_bn128_r_limbs, alt_bn128_modulus_r>::enc(e), V<T>::pow(a, e), "pow-scalar", a, e); }
    { Z e = hostile_mod(r, std_p(4)); c(x ^ PF<edwards_r_limbs, edwards_modulus_r>::enc(e), V<T>::pow(a, e), "pow-scalar", a, e); }
}
template<class T> void fpexp(const T &, const typename V<T>::E &, Rng &, long) {}

template<class T> void powers(uint64_t cases) {
    if (!mon::want(V<T>::nm())) return;
    Rng &r = rng(); typedef typename V<T>::E E; Z ord = V<T>::order();
    for (uint64_t i = 0; i < cases; ++i) {
        at("F05.pow:" + V<T>::nm());
        E a = V<T>::hostile(r); if (i == 0) a = V<T>::zero(); if (i == 1) a = V<T>::one(); T x = V<T>::mk(a);
        Z e = hostile_bits(r, 64); if (i < 6) e = Z((long)i); info(V<T>::str(a) + "^" + hex(e));
        E w = V<T>::pow(a, e); uint64_t u = mon::u64_mpz(e);
        c(x ^ (unsigned long)u, w, "pow-ulong", a, e); { T y = x; y ^= (unsigned long)u; c(y, w, "pow-assign-ulong", a, e); }
        c(power<T>(x, (unsigned long)u), w, "power-ulong", a, e); c(power<T>(x, (ull)u), w, "power-ulonglong", a, e); c(power<T>(x, bigint<1>(u)), w, "power-bigint1", a, e);
        if (i % 3 == 0) {
            size_t L = r.below(7); Z q; std::vector<ull> ws; // most significant word first
            for (size_t k = 0; k < L; ++k) { ull l = r.chance(1, 5) ? 0 : r.chance(1, 5) ? ~0ULL : mon::u64_mpz(hostile_bits(r, 64)); ws.push_back(l); q <<= 64; q += mon::mpz_u64(l); }
            info(V<T>::str(a) + "^words " + hex(q)); c(power<T>(x, ws), V<T>::pow(a, q), "power-words", a, q);
        }
        if (i % 3 == 1) {
            Z q;
            switch (r.below(4)) {
            case 0: q = ord + (long)r.below(5) - 2; break; case 1: q = ord - ord / (long)(2 + r.below(9)); break; case 2: q = hostile_bits(r, 384); break; default: q = ord * 2 + (long)r.below(3);
            }
            if (ref::bits(q) > 64 * 80) q = hostile_bits(r, 320);
            info(V<T>::str(a) + "^" + hex(q)); E wq = V<T>::pow(a, q); size_t need = (ref::bits(q) + 63) / 64;
            if (need <= 2) bigexp<T, 2>(x, a, q, wq); else if (need <= 6) bigexp<T, 6>(x, a, q, wq); else if (need <= 24) bigexp<T, 24>(x, a, q, wq); else bigexp<T, 80>(x, a, q, wq);
        }
        if (i % 6 == 2) fpexp(x, a, r, 0);
        if (i == 7) mon::sample(V<T>::nm() + ": " + V<T>::str(a) + " ^ " + hex(e));
    }
}
template<class T> void root(const typename V<T>::E &sq, const char *kind) {
    T x = V<T>::mk(sq); info(std::string(kind) + " sqrt of " + V<T>::str(sq));
    T s = x.sqrt(); typename V<T>::E v = V<T>::get(s);
    expect(V<T>::ok(s) && V<T>::mul(v, v) == sq, std::string("F05.sqrt-") + kind + ":" + V<T>::nm(), V<T>::hash(sq), [&] { return std::string(kind) + " sqrt of " + V<T>::str(sq) + " got " + V<T>::str(v); });
}
template<class T> void roots(uint64_t cases) {
    if (!mon::want(V<T>::nm())) return;
    Rng &r = rng(); const Field *f = RF<T>::f();
    at("F05.sqrt:" + V<T>::nm());
    Z t = f->order() - 1; size_t s = 0; while (!ref::bit(t, 0)) { t >>= 1; ++s; }
    El z; do z = f->uniform(r); while (f->is_square(z));
    El c2 = f->pow(z, t); // generates the 2-Sylow subgroup
    root<T>(f->zero(), "zero"); root<T>(f->one(), "one"); if (f->is_square(f->neg(f->one()))) root<T>(f->neg(f->one()), "minus-one");
    root<T>(f->from(Z(4)), "four");
    for (uint64_t i = 0; i < cases; ++i) {
        at("F05.sqrt:" + V<T>::nm());
        El a = hostile_el(f, r); root<T>(f->sqr(a), "square");
        if (i % 2 == 0 && f->n > 1) { El b = f->zero(); for (int k = 0; k < f->n / f->base->n; ++k) { } b = f->lift(hostile_el(f->base, r)); if (f->is_square(b)) root<T>(b, "subfield"); }
        if (i % 2 == 1) { Z v = f->p - (long)(1 + r.below(50)); El b = f->from(r.chance(1, 2) ? v : Z(1 + r.below(200))); if (f->is_square(b)) root<T>(b, "small"); }
    }
    for (size_t j = 1; j <= s; ++j) { // elements of every 2-power order that are squares
        at("F05.sqrt:" + V<T>::nm()); El y = c2; for (size_t k = 0; k < j; ++k) y = f->sqr(y); root<T>(y, "two-power-order");
        El u = f->mul(y, f->sqr(f->pow(hostile_el(f, r), Z(1) << s))); root<T>(u, "mixed-order");
        y = f->pow(y, Z(2 * r.below(1 << 20) + 1)); root<T>(y, "two-power-order");
    }
}
template<class G> void broots(uint64_t cases) { if (!mon::want(V<G>::nm())) return; const GF &f = BinT<G>::g(); at("F05.sqrt:" + V<G>::nm()); root<G>(f.zero(), "zero"); root<G>(f.one(), "one"); for (uint64_t i = 0; i < cases; ++i) { at("F05.sqrt:" + V<G>::nm()); root<G>(f.hostile(rng()), "any"); } }
// prime fields of other sizes, with a plain mpz model
template<mp_size_t n, const bigint<n> &m> void custom(const Fp_model<n, m> &, uint64_t cases) {
    typedef Fp_model<n, m> F; typedef PF<n, m> P; const std::string nm = FI<F>::name(); if (!mon::want(nm)) return; Z p = FI<F>::p(); Rng &r = rng();
    for (uint64_t i = 0; i < cases; ++i) {
        at("F05:" + nm); Z a = hostile_mod(r, p), e = hostile_bits(r, 64 * n), e1 = hostile_bits(r, 64); F x = P::enc(a); info(hex(a) + "^" + hex(e));
        expect(P::dec(x ^ bz<n>(e)) == ref::powm(a, e, p) && P::dec(x ^ mon::u64_mpz(e1)) == ref::powm(a, e1, p), "F05.pow:" + nm, ref::hash(a) + ref::hash(e), [&] { return hex(a) + "^" + hex(e) + " or ^" + hex(e1); });
        Z q = ref::modp(a * a, p); F s = P::enc(q).sqrt(); Z v = P::dec(s);
        expect(P::canon(s) && ref::modp(v * v, p) == q, "F05.sqrt:" + nm, ref::hash(q), [&] { return "sqrt of " + hex(q) + " got " + hex(v); });
    }
}
int main(int argc, char **argv) {
    mon::init(argc, argv); init_all(); cust::init();
    uint64_t k = mon::M().scale;
    powers<alt_bn128_Fr>(60 * k); powers<alt_bn128_Fq>(60 * k); powers<bls12_381_Fr>(60 * k); powers<bls12_381_Fq>(60 * k); powers<edwards_Fr>(60 * k); powers<edwards_Fq>(60 * k); powers<mnt4_Fr>(60 * k); powers<mnt4_Fq>(60 * k);
    powers<alt_bn128_Fq2>(30 * k); powers<alt_bn128_Fq6>(9 * k); powers<alt_bn128_Fq12>(5 * k); powers<bls12_381_Fq2>(30 * k); powers<bls12_381_Fq6>(9 * k); powers<bls12_381_Fq12>(5 * k); powers<edwards_Fq3>(18 * k); powers<edwards_Fq6>(9 * k); powers<mnt4_Fq2>(30 * k); powers<mnt4_Fq4>(12 * k); powers<mnt6_Fq3>(18 * k); powers<mnt6_Fq6>(9 * k);
    powers<gf32>(60 * k); powers<gf64>(60 * k); powers<gf128>(40 * k); powers<gf192>(30 * k); powers<gf256>(30 * k);
    roots<alt_bn128_Fr>(30 * k); roots<alt_bn128_Fq>(30 * k); roots<bls12_381_Fr>(30 * k); roots<bls12_381_Fq>(30 * k); roots<edwards_Fr>(30 * k); roots<edwards_Fq>(30 * k); roots<mnt4_Fr>(30 * k); roots<mnt4_Fq>(30 * k);
    roots<alt_bn128_Fq2>(10 * k); roots<bls12_381_Fq2>(10 * k); roots<edwards_Fq3>(8 * k); roots<mnt4_Fq2>(8 * k); roots<mnt6_Fq3>(6 * k); roots<mnt4_Fq4>(3 * k); roots<edwards_Fq6>(3 * k); roots<mnt6_Fq6>(2 * k); roots<alt_bn128_Fq6>(2 * k); roots<bls12_381_Fq6>(1 * k); roots<alt_bn128_Fq12>(1 * k); roots<bls12_381_Fq12>(1 * k);
    broots<gf32>(60 * k); broots<gf64>(60 * k); broots<gf128>(60 * k); broots<gf192>(30 * k); broots<gf256>(30 * k);
    custom(cust::F1b(), 30 * k); custom(cust::F2(), 30 * k); custom(cust::F3b(), 30 * k); custom(cust::F4(), 30 * k); custom(cust::F5(), 30 * k); custom(cust::F8(), 20 * k);
    return mon::finish();
}
