// F04: Frobenius maps, unitary/cyclotomic shortcuts and sparse products against their definitions.
#define MON_MAIN
#include "lib.hpp"
using namespace lb;

template<class T> void c(const T &got, const El &want, const char *op, const El &a, const El &b) {
    const Field *f = RF<T>::f();
    expect(same(got, want), std::string("F04.") + op + ":" + RF<T>::name(), ref::hash(a) * 31 + ref::hash(b), [&] { return std::string(op) + " a=" + ref::str(a) + " b=" + ref::str(b) + " got " + show(got) + " want " + ref::str(want); }, !f->is_zero(a) && !f->is_zero(b));
}
// x -> x^p is F_p-linear: images of the basis, computed once by exponentiation
struct Frob {
    const Field *f; std::vector<El> img;
    Frob(const Field *ff) : f(ff) { for (int i = 0; i < f->n; ++i) { El e(f->n); e[i] = 1; img.push_back(f->pow(e, f->p)); } }
    El operator()(const El &a) const { El r = f->zero(); for (int i = 0; i < f->n; ++i) if (a[i] != 0) r = f->add(r, f->smul(img[i], a[i])); return r; }
    El operator()(El a, unsigned long k) const { for (unsigned long i = 0; i < k % f->n; ++i) a = (*this)(a); return a; }
};
template<class T> void frobenius(uint64_t cases) {
    const std::string nm = RF<T>::name(); if (!mon::want(nm)) return;
    const Field *f = RF<T>::f(); Rng &r = rng(); at("F04.frobenius:" + nm); Frob F(f);
    std::vector<unsigned long> big = {13, 23, 24, 25, 60, 119, 120, 1000003, 0xffffffffUL, 0x100000000UL, 0x7fffffffffffffffUL, ~0UL, ~0UL - 1};
    for (uint64_t i = 0; i < cases; ++i) {
        at("F04.frobenius:" + nm); El a = hostile_el(f, r); info(ref::str(a)); T x = enc<T>(a);
        if (i == 0) { El q = f->pow(a, f->p); c(x.Frobenius_map(1), q, "frobenius-by-power", a, a); } // the model itself, checked once
        El v = a;
        for (unsigned long k = 0; k <= (unsigned long)(2 * f->n + 1); ++k) { c(x.Frobenius_map(k), v, "frobenius", a, f->from(Z(k + 1))); v = F(v); }
        unsigned long k = r.chance(1, 2) ? r.pick(big) : r.next(); c(x.Frobenius_map(k), F(a, k), "frobenius-large", a, f->from(mon::mpz_u64(k)));
        if (i == 0) mon::sample(nm + ": frobenius of " + ref::str(a));
    }
}
template<class P> void frobenius_prime(uint64_t cases) {
    const std::string nm = RF<P>::name(); if (!mon::want(nm)) return;
    const Field *f = RF<P>::f(); Rng &r = rng(); at("F04.frobenius:" + nm);
    for (uint64_t i = 0; i < cases; ++i) { El a = hostile_el(f, r); P x = enc<P>(a); c(x.Frobenius_map(r.below(20)), a, "frobenius", a, a); }
}
// conjugation over the quadratic top extension
static El conj(const Field *f, const El &a) { El b = a; f->set(b, 1, f->base->neg(f->part(a, 1))); return b; }

template<mp_size_t m, class T> void cycexp(const T &x, const El &u, const Z &e, const El &want) { c(x.cyclotomic_exp(bz<m>(e)), want, "cyclotomic_exp", u, RF<T>::f()->from(e)); }

template<class T> void unitary(uint64_t cases) {
    const std::string nm = RF<T>::name(); if (!mon::want(nm)) return;
    const Field *f = RF<T>::f(); Rng &r = rng(); Frob F(f);
    // cyclotomic subgroup of order Phi_n(p): n=4: p^2+1; n=6: p^2-p+1; n=12: p^4-p^2+1
    for (uint64_t i = 0; i < cases; ++i) {
        at("F04.unitary:" + nm);
        El g = hostile_el(f, r); if (f->is_zero(g)) g = f->one();
        El u = f->mul(conj(f, g), f->inv(g)); // norm one over the half field: g^(p^(n/2)-1)
        info("unitary " + ref::str(u));
        T xu = enc<T>(u);
        c(xu.unitary_inverse(), f->inv(u), "unitary_inverse", u, u);
        El w = u; // cyclotomic element
        if (f->n == 6) w = f->mul(F(u, 1), u);          // ^(p+1)
        else if (f->n == 12) w = f->mul(F(u, 2), u);    // ^(p^2+1)
        if (i % 16 == 3) w = f->one();
        if (i % 16 == 5) w = f->neg(f->one());
        if (i % 16 == 5 && f->n != 4) w = f->one();     // -1 has order 2, which divides only even cofactors
        info("cyclotomic " + ref::str(w));
        T xw = enc<T>(w);
        c(xw.unitary_inverse(), f->inv(w), "unitary_inverse", w, w);
        c(xw.cyclotomic_squared(), f->sqr(w), "cyclotomic_squared", w, w);
        { T y = xw; y = y.cyclotomic_squared(); y = y.cyclotomic_squared(); c(y, f->sqr(f->sqr(w)), "cyclotomic_squared-twice", w, w); }
        if (i % 4 == 0) {
            unsigned k = r.below(5); Z e;
            switch (k) {
            case 0: e = hostile_bits(r, 64); cycexp<1>(xw, w, e, f->pow(w, e)); break;
            case 1: e = hostile_bits(r, 128); cycexp<2>(xw, w, e, f->pow(w, e)); break;
            case 2: e = hostile_bits(r, 64) >> r.below(62); cycexp<3>(xw, w, e, f->pow(w, e)); break;
            case 3: e = hostile_bits(r, 320); cycexp<5>(xw, w, e, f->pow(w, e)); break;
            default: e = Z(r.below(17)); cycexp<1>(xw, w, e, f->pow(w, e)); cycexp<4>(xw, w, e, f->pow(w, e)); break;
            }
        }
        if (i == 1) mon::sample(nm + ": cyclotomic element " + ref::str(w));
    }
}
static void el2(const Field *f2, Rng &r, El &o) { o = r.chance(1, 8) ? f2->zero() : hostile_el(f2, r); }
template<class T12> void sparse12(uint64_t cases) {
    typedef typename T12::my_Fp2 T2;
    const std::string nm = RF<T12>::name(); if (!mon::want(nm)) return;
    const Field *f = RF<T12>::f(), *f6 = f->base, *f2 = f6->base; Rng &r = rng();
    for (uint64_t i = 0; i < cases; ++i) {
        at("F04.sparse:" + nm); El a = hostile_el(f, r), l0, lw, lv; el2(f2, r, l0); el2(f2, r, lw); el2(f2, r, lv);
        info(ref::str(a) + " l0 " + ref::str(l0) + " lw " + ref::str(lw) + " lv " + ref::str(lv));
        T12 x = enc<T12>(a); T2 e0 = enc<T2>(l0), ew = enc<T2>(lw), ev = enc<T2>(lv);
        auto put = [&](El &s, int i6, int i2, const El &v) { std::copy(v.begin(), v.end(), s.begin() + i6 * 6 + i2 * 2); };
        El s24 = f->zero(); put(s24, 0, 0, l0); put(s24, 0, 2, lv); put(s24, 1, 1, lw);       // ell_0 + ell_VV v^2 + ell_VW v w
        El s45 = f->zero(); put(s45, 0, 0, lw); put(s45, 1, 1, l0); put(s45, 1, 2, lv);       // ell_VW + ell_0 v w + ell_VV v^2 w
        c(x.mul_by_024(e0, ew, ev), f->mul(a, s24), "mul_by_024", a, s24);
        c(x.mul_by_045(e0, ew, ev), f->mul(a, s45), "mul_by_045", a, s45);
        { T12 y = x; y = y.mul_by_024(y.c0.c0, y.c0.c1, y.c1.c2); El s = f->zero(); put(s, 0, 0, El(a.begin(), a.begin() + 2)); put(s, 0, 2, El(a.begin() + 10, a.begin() + 12)); put(s, 1, 1, El(a.begin() + 2, a.begin() + 4)); c(y, f->mul(a, s), "mul_by_024-own-parts", a, s); }
    }
}
template<class T4> void sparse4(uint64_t cases) {
    const std::string nm = RF<T4>::name(); if (!mon::want(nm)) return;
    const Field *f = RF<T4>::f(); Rng &r = rng();
    for (uint64_t i = 0; i < cases; ++i) { at("F04.sparse:" + nm); El a = hostile_el(f, r), b = hostile_el(f, r); b[1] = 0; info(ref::str(a) + ref::str(b)); c(enc<T4>(a).mul_by_023(enc<T4>(b)), f->mul(a, b), "mul_by_023", a, b); }
}
template<class T6> void sparse6(uint64_t cases) {
    const std::string nm = RF<T6>::name(); if (!mon::want(nm)) return;
    const Field *f = RF<T6>::f(); Rng &r = rng();
    for (uint64_t i = 0; i < cases; ++i) { at("F04.sparse:" + nm); El a = hostile_el(f, r), b = hostile_el(f, r); b[0] = b[1] = 0; info(ref::str(a) + ref::str(b)); c(enc<T6>(a).mul_by_2345(enc<T6>(b)), f->mul(a, b), "mul_by_2345", a, b); }
}
int main(int argc, char **argv) {
    mon::init(argc, argv); init_all();
    uint64_t k = mon::M().scale;
    frobenius_prime<alt_bn128_Fr>(20 * k); frobenius_prime<alt_bn128_Fq>(20 * k); frobenius_prime<bls12_381_Fr>(20 * k); frobenius_prime<bls12_381_Fq>(20 * k); frobenius_prime<edwards_Fr>(20 * k); frobenius_prime<edwards_Fq>(20 * k); frobenius_prime<mnt4_Fr>(20 * k); frobenius_prime<mnt4_Fq>(20 * k);
    frobenius<alt_bn128_Fq2>(30 * k); frobenius<alt_bn128_Fq6>(12 * k); frobenius<alt_bn128_Fq12>(6 * k); frobenius<bls12_381_Fq2>(30 * k); frobenius<bls12_381_Fq6>(12 * k); frobenius<bls12_381_Fq12>(6 * k);
    frobenius<edwards_Fq3>(30 * k); frobenius<edwards_Fq6>(20 * k); frobenius<mnt4_Fq2>(30 * k); frobenius<mnt4_Fq4>(20 * k); frobenius<mnt6_Fq3>(30 * k); frobenius<mnt6_Fq6>(20 * k);
    unitary<alt_bn128_Fq12>(40 * k); unitary<bls12_381_Fq12>(40 * k); unitary<edwards_Fq6>(60 * k); unitary<mnt4_Fq4>(60 * k); unitary<mnt6_Fq6>(60 * k);
    sparse12<alt_bn128_Fq12>(80 * k); sparse12<bls12_381_Fq12>(80 * k); sparse4<mnt4_Fq4>(300 * k); sparse6<edwards_Fq6>(300 * k); sparse6<mnt6_Fq6>(300 * k);
    return mon::finish();
}
