// P02: every pairing entry point against one reference pairing and against each other.
#define MON_MAIN
#include "pairref.hpp"
using namespace lb;

template<class pp> struct X {
    typedef typename pp::G1_type G1; typedef typename pp::G2_type G2; typedef typename pp::Fqk_type FK; typedef typename pp::GT_type GT;
    Rng &r; const std::string N; const Field *K; MP<G1> m1; MP<G2> m2; const Z q; const Z E;
    X() : r(rng()), N(PairI<pp>::name()), K(PairI<pp>::K()), m1(10, 0), m2(10, 0), q(CI<G1>::order()), E(PairI<pp>::exponent()) {}
    struct Pr { Pt P, Q; Z a, b; G1 g; G2 h; std::string t; uint64_t hs; };
    Pr pick(bool nz = false) { Pr x; auto s = m1.pick(); auto u = m2.pick(); while (nz && (m1.C.isO(s.P) || m2.C.isO(u.P))) { s = m1.pick(); u = m2.pick(); } x.P = s.P; x.Q = u.P; x.a = s.k; x.b = u.k; set(x); return x; }
    void set(Pr &x) { x.g = encr<G1>(x.P, r); x.h = encr<G2>(x.Q, r); x.t = "e(" + ref::str(x.P) + "; " + ref::str(x.Q) + ")"; x.hs = ref::hash(x.P) * 31 + ref::hash(x.Q); }
    El fe(const FK &f) { return dec(pp::final_exponentiation(f)); }
    bool nt(const Pr &x) { return !m1.C.isO(x.P) && !m2.C.isO(x.Q); }
    void entry() { // every way of computing one pairing
        Pr x = pick(); at("P02:" + N); info(x.t); auto ctx = [&] { return x.t; }; bool n = nt(x);
        GT v = pp::reduced_pairing(x.g, x.h); El e = dec(v); expect(canon(v), "P02.canonical:" + N, x.hs, ctx, n);
        auto pg = pp::precompute_G1(x.g); auto ph = pp::precompute_G2(x.h); FK f = pp::miller_loop(pg, ph), f2 = pp::pairing(x.g, x.h);
        expect(fe(f) == e, "P02.miller_loop:" + N, x.hs, ctx, n); expect(fe(f2) == e, "P02.pairing:" + N, x.hs, ctx, n); expect(!K->is_zero(dec(f)), "P02.miller-nonzero:" + N, x.hs, ctx, n);
        // precomputation depends on the point only
        G1 g2 = encr<G1>(x.P, r); G2 h2 = encr<G2>(x.Q, r); expect(pp::precompute_G1(g2) == pg && pp::precompute_G2(h2) == ph, "P02.precompute-representation:" + N, x.hs, ctx, n);
        auto o = pick(); if (o.P != x.P) expect(!(pp::precompute_G1(o.g) == pg), "P02.precompute_G1-distinct:" + N, x.hs + o.hs, ctx, n); if (o.Q != x.Q) expect(!(pp::precompute_G2(o.h) == ph), "P02.precompute_G2-distinct:" + N, x.hs + o.hs, ctx, n);
        if (n) { Pr y = x; y.P = m1.C.neg(x.P); set(y); expect(!(pp::precompute_G1(y.g) == pg), "P02.precompute_G1-opposite:" + N, x.hs, ctx, n); y.Q = m2.C.neg(x.Q); set(y); expect(!(pp::precompute_G2(y.h) == ph), "P02.precompute_G2-opposite:" + N, x.hs, ctx, n); }
        expect(samep(x.g, x.P) && samep(x.h, x.Q), "P02.inputs-unchanged:" + N, x.hs, ctx, n); own(x, e, ctx, n);
    }
    void own(Pr &x, const El &e, std::function<std::string()> ctx, bool n); // curve-specific entry points
    void dbl() { // double Miller loop
        Pr x = pick(), y; unsigned k = r.below(6); if (k == 0) y = x; else if (k == 1) { y = x; y.P = m1.C.neg(x.P); } else if (k == 2) { y = x; y.Q = m2.C.neg(x.Q); } else if (k == 3) { y = x; y.P = m1.pick().P; } else y = pick(); set(y);
        at("P02.double:" + N); std::string t = x.t + " and " + y.t; info(t); auto ctx = [&] { return t; }; bool n = nt(x) && nt(y);
        auto p1 = pp::precompute_G1(x.g), p2 = pp::precompute_G1(y.g); auto q1 = pp::precompute_G2(x.h), q2 = pp::precompute_G2(y.h); El w = K->mul(dec(pp::reduced_pairing(x.g, x.h)), dec(pp::reduced_pairing(y.g, y.h)));
        expect(fe(pp::double_miller_loop(p1, q1, p2, q2)) == w, "P02.double_miller_loop:" + N, x.hs * 7 + y.hs, ctx, n);
        if (k == 1 || k == 2) expect(fe(pp::double_miller_loop(p1, q1, p2, q2)) == K->one(), "P02.opposite-pairs:" + N, x.hs * 7 + y.hs, ctx, n);
        dbl_own(p1, q1, p2, q2, w, x.hs * 7 + y.hs, ctx, n);
    }
    template<class A, class B> void dbl_own(A &, B &, A &, B &, const El &, uint64_t, std::function<std::string()>, bool) {}
    void fexp(bool ref_) { // final exponentiation on arbitrary nonzero elements
        El a = hostile_el(K, r); if (K->is_zero(a)) a = K->one(); El b; do b = related(K, a, r); while (K->is_zero(b)); FK x = enc<FK>(a), y = enc<FK>(b); at("P02.final_exponentiation:" + N); info(ref::str(a)); auto ctx = [&] { return ref::str(a) + ", " + ref::str(b); }; uint64_t h = ref::hash(a) * 31 + ref::hash(b);
        El ea = fe(x), eb = fe(y); expect(fe(enc<FK>(K->mul(a, b))) == K->mul(ea, eb), "P02.final-exponentiation-multiplicative:" + N, h, ctx); expect(same(x, a), "P02.final-exponentiation-input:" + N, h, ctx);
        chunks(x, ea, h, ctx);
        if (ref_) expect(ea == K->pow(a, E), "P02.final-exponentiation-exponent:" + N, h, ctx);
        // proper subfield elements are killed
        El s = K->lift(hostile_el(K->base, r)); if (!K->is_zero(s)) expect(fe(enc<FK>(s)) == K->one(), "P02.final-exponentiation-subfield:" + N, ref::hash(s), [&] { return ref::str(s); });
    }
    void chunks(const FK &x, const El &e, uint64_t h, std::function<std::string()> ctx);
    void reference() {
        Pr x = pick(true); at("P02.reference:" + N); info(x.t); El w = refpair<pp>(x.P, x.Q); chk(pp::reduced_pairing(x.g, x.h), w, "P02.reference-pairing:" + N, x.hs, [&] { return x.t; }); refown(x);
    }
    void refown(Pr &) {}
    void run(uint64_t c, unsigned refs) {
        if (!mon::want(N)) return; { at("P02.gen:" + N); Pr x; x.P = m1.pool.gm(1); x.Q = m2.pool.gm(1); set(x); chk(pp::reduced_pairing(x.g, x.h), refpair<pp>(x.P, x.Q), "P02.reference-pairing:" + N, 1, [&] { return "generators"; }); }
        for (uint64_t i = 0; i < c; ++i) { entry(); if (i % 2 == 0) dbl(); if (i % 3 == 0) fexp(i % 30 == 0); }
        for (unsigned i = 0; i < refs; ++i) { reference(); fexp(true); }
        mon::sample(N + ": e(aG, bH), identity, opposite and repeated pairs");
    }
};
#define WAYS(c) { c##_Fq12 f = c##_ate_miller_loop(c##_ate_precompute_G1(x.g), c##_ate_precompute_G2(x.h)); expect(dec(c##_final_exponentiation(f)) == e && dec(c##_ate_reduced_pairing(x.g, x.h)) == e && dec(c##_reduced_pairing(x.g, x.h)) == e && fe(c##_ate_pairing(x.g, x.h)) == e && fe(c##_pairing(x.g, x.h)) == e && fe(c##_miller_loop(c##_precompute_G1(x.g), c##_precompute_G2(x.h))) == e, "P02.curve-functions:" + N, x.hs, ctx, n); }
template<> void X<alt_bn128_pp>::own(Pr &x, const El &e, std::function<std::string()> ctx, bool n) { WAYS(alt_bn128) }
template<> void X<bls12_381_pp>::own(Pr &x, const El &e, std::function<std::string()> ctx, bool n) { WAYS(bls12_381) }
#define WAYSM(c, FKT) { FKT f = c##_ate_miller_loop(c##_ate_precompute_G1(x.g), c##_ate_precompute_G2(x.h)); expect(dec(c##_final_exponentiation(f)) == e && dec(c##_ate_reduced_pairing(x.g, x.h)) == e && dec(c##_reduced_pairing(x.g, x.h)) == e && fe(c##_ate_pairing(x.g, x.h)) == e && fe(c##_pairing(x.g, x.h)) == e && fe(c##_miller_loop(c##_precompute_G1(x.g), c##_precompute_G2(x.h))) == e, "P02.curve-functions:" + N, x.hs, ctx, n); }
// affine variants: e1/e2 and e1 e2/e3 are only defined after final exponentiation. The affine loop of
// MNT6 leaves out the inversion for the negative loop count (known finding): its value may be the
// inverse, consistently; anything else is a different violation.
#define AFF(c) { typedef c##_pp PP; auto agree = [&](const El &got, const El &want, const std::string &key, uint64_t h, std::function<std::string()> cx) { bool ok = got == want, in = !ok && K->mul(got, want) == K->one() && std::string(N) == "mnt6"; expect(ok || in, key + N, h, cx, n); if (in) expect(false, "P02.affine-inverted:" + N, h, cx, n); }; \
    agree(dec(PP::affine_reduced_pairing(x.g, x.h)), e, "P02.affine_reduced_pairing:", x.hs, ctx); agree(dec(c##_affine_reduced_pairing(x.g, x.h)), e, "P02.affine_reduced_pairing:", x.hs, ctx); Pr y = pick(), z = pick(); auto a1 = PP::affine_ate_precompute_G1(x.g), a2 = PP::affine_ate_precompute_G1(y.g), a3 = PP::affine_ate_precompute_G1(z.g); auto b1 = PP::affine_ate_precompute_G2(x.h), b2 = PP::affine_ate_precompute_G2(y.h), b3 = PP::affine_ate_precompute_G2(z.h); \
    El f1 = fe(PP::affine_ate_miller_loop(a1, b1)), f2 = fe(PP::affine_ate_miller_loop(a2, b2)), f3 = fe(PP::affine_ate_miller_loop(a3, b3)); std::string t = x.t + ", " + y.t + ", " + z.t; auto c3 = [&] { return t; }; agree(f1, e, "P02.affine_ate_miller_loop:", x.hs, ctx); expect(f1 == dec(PP::affine_reduced_pairing(x.g, x.h)), "P02.affine-consistent:" + N, x.hs, ctx, n); \
    expect(fe(PP::affine_ate_e_over_e_miller_loop(a1, b1, a2, b2)) == K->mul(f1, K->inv(f2)), "P02.affine_ate_e_over_e:" + N, x.hs + y.hs, c3, n); expect(fe(PP::affine_ate_e_times_e_over_e_miller_loop(a1, b1, a2, b2, a3, b3)) == K->mul(K->mul(f1, f2), K->inv(f3)), "P02.affine_ate_e_times_e_over_e:" + N, x.hs + y.hs + z.hs, c3, n); }
template<> void X<mnt4_pp>::own(Pr &x, const El &e, std::function<std::string()> ctx, bool n) { WAYSM(mnt4, mnt4_Fq4) AFF(mnt4) }
template<> void X<mnt6_pp>::own(Pr &x, const El &e, std::function<std::string()> ctx, bool n) { WAYSM(mnt6, mnt6_Fq6) AFF(mnt6) }
template<> void X<edwards_pp>::own(Pr &x, const El &e, std::function<std::string()> ctx, bool n) {
    WAYSM(edwards, edwards_Fq6)
    GT t = edwards_tate_reduced_pairing(x.g, x.h); auto tp = edwards_tate_precompute_G1(x.g); auto tq = edwards_tate_precompute_G2(x.h); expect(canon(t) && fe(edwards_tate_miller_loop(tp, tq)) == dec(t) && fe(edwards_tate_pairing(x.g, x.h)) == dec(t), "P02.tate-functions:" + N, x.hs, ctx, n);
    expect((K->one() == dec(t)) == !n, "P02.tate-nondegenerate:" + N, x.hs, ctx, n); Pr y = x; y.P = m1.pick().P; set(y); G1 s = encr<G1>(m1.C.add(x.P, y.P), r); if (representable<G1>(m1.C.add(x.P, y.P))) expect(dec(edwards_tate_reduced_pairing(s, x.h)) == K->mul(dec(t), dec(edwards_tate_reduced_pairing(y.g, y.h))), "P02.tate-additive-1:" + N, x.hs + y.hs, ctx, n);
    Pr z = x; z.Q = m2.pick().P; set(z); Pt sq = m2.C.add(x.Q, z.Q); expect(dec(edwards_tate_reduced_pairing(x.g, encr<G2>(sq, r))) == K->mul(dec(t), dec(edwards_tate_reduced_pairing(z.g, z.h))), "P02.tate-additive-2:" + N, x.hs + z.hs, ctx, n);
    expect(edwards_tate_precompute_G1(encr<G1>(x.P, r)) == tp && edwards_tate_precompute_G2(encr<G2>(x.Q, r)) == tq, "P02.tate-precompute-representation:" + N, x.hs, ctx, n);
}
template<> void X<edwards_pp>::refown(Pr &x) { El w = elpow(K, PairI<edwards_pp>::tate(x.P, x.Q), E); chk(edwards_tate_reduced_pairing(x.g, x.h), w, "P02.reference-tate:" + N, x.hs, [&] { return x.t; }); }
template<> void X<alt_bn128_pp>::chunks(const FK &x, const El &e, uint64_t h, std::function<std::string()> ctx) {}
template<> void X<bls12_381_pp>::chunks(const FK &x, const El &e, uint64_t h, std::function<std::string()> ctx) {}
#define CH3(c) { FK xi = x.inverse(); FK f = c##_final_exponentiation_first_chunk(x, xi), fi = c##_final_exponentiation_first_chunk(xi, x); expect(K->mul(dec(f), dec(fi)) == K->one() && dec(c##_final_exponentiation_last_chunk(f, fi)) == e, "P02.final-exponentiation-chunks:" + N, h, ctx); }
template<> void X<mnt4_pp>::chunks(const FK &x, const El &e, uint64_t h, std::function<std::string()> ctx) CH3(mnt4)
template<> void X<mnt6_pp>::chunks(const FK &x, const El &e, uint64_t h, std::function<std::string()> ctx) CH3(mnt6)
template<> void X<edwards_pp>::chunks(const FK &x, const El &e, uint64_t h, std::function<std::string()> ctx) CH3(edwards)
#define DB(c) { expect(fe(c##_double_miller_loop(p1, q1, p2, q2)) == w && fe(c##_ate_double_miller_loop(p1, q1, p2, q2)) == w, "P02.double-curve-functions:" + N, h, ctx, n); }
template<> template<class A, class B> void X<alt_bn128_pp>::dbl_own(A &p1, B &q1, A &p2, B &q2, const El &w, uint64_t h, std::function<std::string()> ctx, bool n) DB(alt_bn128)
template<> template<class A, class B> void X<bls12_381_pp>::dbl_own(A &p1, B &q1, A &p2, B &q2, const El &w, uint64_t h, std::function<std::string()> ctx, bool n) DB(bls12_381)
template<> template<class A, class B> void X<mnt4_pp>::dbl_own(A &p1, B &q1, A &p2, B &q2, const El &w, uint64_t h, std::function<std::string()> ctx, bool n) DB(mnt4)
template<> template<class A, class B> void X<mnt6_pp>::dbl_own(A &p1, B &q1, A &p2, B &q2, const El &w, uint64_t h, std::function<std::string()> ctx, bool n) DB(mnt6)
template<> template<class A, class B> void X<edwards_pp>::dbl_own(A &p1, B &q1, A &p2, B &q2, const El &w, uint64_t h, std::function<std::string()> ctx, bool n) DB(edwards)
int main(int argc, char **argv) {
    mon::init(argc, argv); init_all(); uint64_t c = 6 * mon::M().scale; unsigned refs = mon::M().scale;
    X<alt_bn128_pp>().run(c, refs); X<bls12_381_pp>().run(c, refs); X<edwards_pp>().run(c, refs); X<mnt4_pp>().run(c, refs); X<mnt6_pp>().run(c, refs);
    return mon::finish();
}
