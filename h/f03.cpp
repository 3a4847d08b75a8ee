// F03: extension-field arithmetic against schoolbook polynomial arithmetic modulo the tower's defining polynomials.
#define MON_MAIN
#include "lib.hpp"
using namespace lb;

template<class T> struct X {
    static const Field *f() { return RF<T>::f(); }
    static std::string nm() { return RF<T>::name(); }
    static void c(const T &got, const El &want, const char *op, const El &a, const El &b) {
        expect(same(got, want), std::string("F03.") + op + ":" + nm(), ref::hash(a) * 31 + ref::hash(b), [&] { return std::string(op) + " a=" + ref::str(a) + " b=" + ref::str(b) + " got " + show(got) + " want " + ref::str(want); }, !f()->is_zero(a) && !f()->is_zero(b));
    }
};
// squaring variants and subfield products, by type
template<mp_size_t n, const bigint<n> &m> void extra(const Fp2_model<n, m> &x, const El &a, Rng &r) {
    typedef Fp2_model<n, m> T; const Field *f = RF<T>::f(); El s = f->sqr(a);
    X<T>::c(x.squared_karatsuba(), s, "squared_karatsuba", a, a); X<T>::c(x.squared_complex(), s, "squared_complex", a, a);
}
template<mp_size_t n, const bigint<n> &m> void extra(const Fp3_model<n, m> &, const El &, Rng &) {}
template<mp_size_t n, const bigint<n> &m> void extra(const Fp12_2over3over2_model<n, m> &x, const El &a, Rng &r) {
    typedef Fp12_2over3over2_model<n, m> T; const Field *f = RF<T>::f(); El s = f->sqr(a);
    X<T>::c(x.squared_karatsuba(), s, "squared_karatsuba", a, a); X<T>::c(x.squared_complex(), s, "squared_complex", a, a);
    El b = hostile_el(f->base, r); typename T::my_Fp6 y = enc<typename T::my_Fp6>(b);
    X<T>::c(y * x, f->mul(a, f->lift(b)), "Fp6-scalar", a, b);
    X<typename T::my_Fp6>::c(T::mul_by_non_residue(y), f->base->mul(f->nr, b), "mul_by_non_residue", b, b);
    const Field *f2 = f->base->base; El d = hostile_el(f2, r);
    X<T>::c(enc<typename T::my_Fp2>(d) * x, f->mul(a, f->lift(d)), "Fp2-scalar", a, d);
}
template<mp_size_t n, const bigint<n> &m> void extra(const Fp6_3over2_model<n, m> &x, const El &a, Rng &r) {
    typedef Fp6_3over2_model<n, m> T; const Field *f = RF<T>::f(); El d = hostile_el(f->base, r);
    X<T>::c(enc<typename T::my_Fp2>(d) * x, f->mul(a, f->lift(d)), "Fp2-scalar", a, d);
    X<typename T::my_Fp2>::c(T::mul_by_non_residue(enc<typename T::my_Fp2>(d)), f->base->mul(f->nr, d), "mul_by_non_residue", d, d);
}
template<mp_size_t n, const bigint<n> &m> void extra(const Fp4_model<n, m> &x, const El &a, Rng &r) {
    typedef Fp4_model<n, m> T; const Field *f = RF<T>::f(); El d = hostile_el(f->base, r);
    X<T>::c(enc<typename T::my_Fp2>(d) * x, f->mul(a, f->lift(d)), "Fp2-scalar", a, d);
    X<typename T::my_Fp2>::c(T::mul_by_non_residue(enc<typename T::my_Fp2>(d)), f->base->mul(f->nr, d), "mul_by_non_residue", d, d);
}
template<mp_size_t n, const bigint<n> &m> void extra(const Fp6_2over3_model<n, m> &x, const El &a, Rng &r) {
    typedef Fp6_2over3_model<n, m> T; const Field *f = RF<T>::f(); El d = hostile_el(f->base, r);
    X<typename T::my_Fp3>::c(T::mul_by_non_residue(enc<typename T::my_Fp3>(d)), f->base->mul(f->nr, d), "mul_by_non_residue", d, d);
}

template<class T> void run(uint64_t cases) {
    const std::string nm = RF<T>::name(); if (!mon::want(nm)) return;
    const Field *f = RF<T>::f(); Rng &r = rng();
    auto c = [&](const T &g, const El &w, const char *op, const El &a, const El &b) { X<T>::c(g, w, op, a, b); };
    at("F03:" + nm);
    c(T::zero(), f->zero(), "zero", f->one(), f->one()); c(T::one(), f->one(), "one", f->one(), f->one());
    std::vector<El> pool;
    for (uint64_t i = 0; i < cases; ++i) {
        if (i % 16 == 0) at("F03:" + nm);
        El a = (pool.size() > 4 && r.chance(1, 6)) ? r.pick(pool) : hostile_el(f, r), b = related(f, a, r);
        if (r.chance(1, 10) && !f->is_zero(a)) b = f->inv(a);
        info("a=" + ref::str(a) + " b=" + ref::str(b));
        T x = enc<T>(a), y = enc<T>(b);
        El S = f->add(a, b), D = f->sub(a, b), P = f->mul(a, b), Q = f->sqr(a);
        c(x + y, S, "add", a, b); c(x - y, D, "sub", a, b); c(x * y, P, "mul", a, b);
        { T z = x; z += y; c(z, S, "add-assign", a, b); } { T z = x; z -= y; c(z, D, "sub-assign", a, b); } { T z = x; z *= y; c(z, P, "mul-assign", a, b); }
        { T z = y; z = x * z; c(z, P, "mul-into-operand", a, b); } { T z = y; z = x - z; c(z, D, "sub-into-operand", a, b); }
        { T z = x; z *= z; c(z, Q, "mul-self", a, a); } { T z = x; z += z; c(z, f->add(a, a), "add-self", a, a); } { T z = x; z -= z; c(z, f->zero(), "sub-self", a, a); }
        c(-x, f->neg(a), "neg", a, a); c(x.squared(), Q, "squared", a, a);
        { T z = x; z.square(); c(z, Q, "square", a, a); }
        { Z k = hostile_mod(r, f->p); Field pf(f->p); typename T::my_Fp s = enc<typename T::my_Fp>(El{k}); c(s * x, f->smul(a, k), "Fp-scalar", a, El{k}); }
        if (i % 8 == 0 && !f->is_zero(a)) { El v = f->inv(a); c(x.inverse(), v, "inverse", a, a); T z = x; z.invert(); c(z, v, "invert", a, a); }
        extra(x, a, r);
        expect((x == y) == (a == b) && (x != y) == (a != b) && x.is_zero() == f->is_zero(a), "F03.equality:" + nm, ref::hash(a) + ref::hash(b), [&] { return "a=" + ref::str(a) + " b=" + ref::str(b); });
        if (r.chance(1, 4)) { if (pool.size() < 64) pool.push_back(P); else pool[r.below(64)] = P; }
        if (i == 1) mon::sample(nm + ": a=" + ref::str(a) + " b=" + ref::str(b));
    }
    { T z = T::one(); z.clear(); c(z, f->zero(), "clear", f->one(), f->one()); }
}
int main(int argc, char **argv) {
    mon::init(argc, argv); init_all();
    uint64_t c = 100 * mon::M().scale;
    run<alt_bn128_Fq2>(8 * c); run<alt_bn128_Fq6>(3 * c); run<alt_bn128_Fq12>(c); run<bls12_381_Fq2>(8 * c); run<bls12_381_Fq6>(3 * c); run<bls12_381_Fq12>(c);
    run<edwards_Fq3>(5 * c); run<edwards_Fq6>(3 * c); run<mnt4_Fq2>(8 * c); run<mnt4_Fq4>(3 * c); run<mnt6_Fq3>(5 * c); run<mnt6_Fq6>(3 * c);
    return mon::finish();
}
