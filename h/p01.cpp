// P01: bilinearity, non-degeneracy and target order of the reduced pairing.
#define MON_MAIN
#include "pairref.hpp"
#include <memory>
using namespace lb;

template<class pp> struct X {
    typedef typename pp::G1_type G1; typedef typename pp::G2_type G2; typedef typename pp::GT_type GT; typedef typename pp::Fp_type Fr;
    Rng &r; const std::string N; const Field *K; MP<G1> m1; MP<G2> m2; const Z q; El g; std::shared_ptr<GTPow> gt; std::vector<std::pair<Pt, Pt>> odd; std::vector<Pt> hard;
    X() : r(rng()), N(PairI<pp>::name()), K(PairI<pp>::K()), m1(8, 0), m2(8, 0), q(CI<G1>::order()) {}
    GT e(const Pt &P, const Pt &Q) { return pp::reduced_pairing(encr<G1>(P, r), encr<G2>(Q, r)); }
    Z scal() { switch (r.below(10)) { case 0: return r.below(4); case 1: return q - 1 - mon::mpz_u64(r.below(4)); case 2: return (q + (long)r.below(3) - 1) / 2; case 3: return Z(1) << r.below(ref::bits(q) - 1); case 4: return mon::mpz_u64(r.next() >> r.below(64)); case 5: return hostile_mod(r, q); default: return uniform_mod(r, q); } }
    // G1 points chosen by coordinate (where all of the curve has order r)
    void coords() {
        const std::string n = CI<G1>::name(); if (n != "alt_bn128_G1" && n != "mnt4_G1" && n != "mnt6_G1") return; const Curve &C = m1.C; const Field *F = C.F;
        for (int i = 0; i < 40 && hard.size() < 8; ++i) { El x = i < 6 ? F->from(Z(i) - 2) : hostile_el(F, r); Pt P; if (C.lift_x(x, P) && !C.F->is_zero(P.y)) hard.push_back(r.chance(1, 2) ? P : C.neg(P)); }
    }
    void generators() {
        at("P01.generators:" + N); info("generators"); auto ctx = [] { return std::string("e(G1::one(), G2::one())"); }; GT v = pp::reduced_pairing(G1::one(), G2::one()); g = dec(v); gt.reset(new GTPow(K, g, ref::bits(q) + 1));
        expect(canon(v) && g != K->one() && !K->is_zero(g), "P01.non-degenerate:" + N, 1, ctx); expect((*gt)(q) == K->one(), "P01.order:" + N, 2, ctx); expect(GT::one() == enc<GT>(K->one()), "P01.gt-one:" + N, 3, ctx);
        expect(dec(v ^ Fr::field_char()) == K->one() && dec(v.unitary_inverse()) == K->inv(g), "P01.gt-ops:" + N, 4, ctx);
    }
    void scalars() { // the library's own multiples
        Z a = scal(), b = scal(); at("P01.bilinear:" + N); std::string t = "a = " + a.get_str() + ", b = " + b.get_str(); info(t); auto ctx = [&] { return t; }; uint64_t h = ref::hash(a) * 31 + ref::hash(b); bool n = a != 0 && b != 0; Fr fa = enc<Fr>(El{a}), fb = enc<Fr>(El{b});
        G1 P = fa * G1::one(); G2 Q = fb * G2::one(); GT v = pp::reduced_pairing(P, Q); El w = (*gt)(ref::modp(a * b, q)); chk(v, w, "P01.e(aG,bH):" + N, h, ctx, n);
        expect((dec(v) == K->one()) == !n, "P01.trivial-exactly-for-identity:" + N, h, ctx, n);
        switch (r.below(5)) {
        case 0: chk(pp::reduced_pairing((fa * fb) * G1::one(), G2::one()), w, "P01.e(abG,H):" + N, h, ctx, n); break;
        case 1: chk(pp::reduced_pairing(G1::one(), (fa * fb) * G2::one()), w, "P01.e(G,abH):" + N, h, ctx, n); break;
        case 2: { GT u = pp::reduced_pairing(fa * G1::one(), G2::one()) ^ fb.as_bigint(); chk(u, w, "P01.e(aG,H)^b:" + N, h, ctx, n); expect(u == v, "P01.e(aG,H)^b-equal:" + N, h, ctx, n); break; }
        case 3: chk(pp::reduced_pairing(-P, Q), K->inv(w), "P01.e(-P,Q):" + N, h, ctx, n); expect(pp::reduced_pairing(P, -Q).unitary_inverse() == v, "P01.e(P,-Q):" + N, h, ctx, n); break;
        default: chk(pp::reduced_pairing(fb * P, G2::one()), w, "P01.e(b(aG),H):" + N, h, ctx, n); break; }
    }
    void represent() { // reference points, random representations
        auto s = m1.pick(); auto u = m2.pick(); std::string t = "e(" + ref::str(s.P) + " [dlog " + s.k.get_str() + "]; " + ref::str(u.P) + " [dlog " + u.k.get_str() + "])"; at("P01.representation:" + N); info(t); auto ctx = [&] { return t; }; uint64_t h = ref::hash(s.P) * 31 + ref::hash(u.P); bool n = s.k != 0 && u.k != 0;
        G1 P = encr<G1>(s.P, r), P0 = P; G2 Q = encr<G2>(u.P, r), Q0 = Q; El w = (*gt)(ref::modp(s.k * u.k, q)); chk(pp::reduced_pairing(P, Q), w, "P01.e-of-any-representation:" + N, h, ctx, n); expect(P.X == P0.X && P.Y == P0.Y && P.Z == P0.Z && Q.X == Q0.X && Q.Y == Q0.Y && Q.Z == Q0.Z, "P01.arguments-unchanged:" + N, h, ctx, n);
        if (r.chance(1, 3)) chk(e(s.P, u.P), w, "P01.e-again:" + N, h, ctx, n);
    }
    void additive() {
        if (r.chance(1, 2) && !hard.empty()) { // coordinates, unknown logarithm
            Pt A = r.pick(hard), B = r.chance(1, 4) ? A : r.chance(1, 3) ? m1.C.neg(A) : r.chance(1, 2) ? r.pick(hard) : m1.pick().P; auto u = m2.pick(); std::string t = ref::str(A) + " + " + ref::str(B) + " with " + ref::str(u.P); at("P01.additive-1:" + N); info(t); auto ctx = [&] { return t; }; uint64_t h = ref::hash(A) * 961 + ref::hash(B) * 31 + ref::hash(u.P); bool n = u.k != 0;
            El ea = dec(e(A, u.P)), eb = dec(e(B, u.P)); chk(e(m1.C.add(A, B), u.P), K->mul(ea, eb), "P01.additive-1:" + N, h, ctx, n); expect((ea == K->one()) == !n, "P01.nondegenerate-1:" + N, h, ctx, n);
            if (n) { Z k = scal(); chk(pp::reduced_pairing(enc<Fr>(El{k}) * encr<G1>(A, r), encr<G2>(u.P, r)), K->pow(ea, k), "P01.scalar-1:" + N, h + ref::hash(k), ctx, k != 0); }
        } else {
            auto s = m1.pick(), s2 = m1.pick(); auto u = m2.pick(), u2 = m2.pick(); if (r.chance(1, 4)) s2 = s; if (r.chance(1, 4)) u2 = u; std::string t = ref::str(s.P) + ", " + ref::str(s2.P) + " / " + ref::str(u.P) + ", " + ref::str(u2.P); at("P01.additive-2:" + N); info(t); auto ctx = [&] { return t; }; uint64_t h = ref::hash(s.P) * 961 + ref::hash(s2.P) * 31 + ref::hash(u.P) * 7 + ref::hash(u2.P);
            G1 a = encr<G1>(s.P, r), b = encr<G1>(s2.P, r); G2 c = encr<G2>(u.P, r), d = encr<G2>(u2.P, r);
            chk(pp::reduced_pairing(a + b, c), (*gt)(ref::modp((s.k + s2.k) * u.k, q)), "P01.e(P+P',Q):" + N, h, ctx); chk(pp::reduced_pairing(a, c + d), (*gt)(ref::modp(s.k * (u.k + u2.k), q)), "P01.e(P,Q+Q'):" + N, h, ctx); if (r.chance(1, 3)) chk(pp::reduced_pairing(a - b, c - d), (*gt)(ref::modp((s.k - s2.k) * (u.k - u2.k), q)), "P01.e(P-P',Q-Q'):" + N, h, ctx);
        }
    }
    void run(uint64_t c) { if (!mon::want(N)) return; generators(); coords(); for (uint64_t i = 0; i < c; ++i) { scalars(); represent(); additive(); } mon::sample(N + ": e(aG, bH) against e(G, H)^(ab), a and b from boundaries of the order, powers of two, source literals and noise; points with x in {-2..3} and boundary patterns"); }
};
int main(int argc, char **argv) {
    mon::init(argc, argv); init_all(); uint64_t c = 8 * mon::M().scale;
    X<alt_bn128_pp>().run(c); X<bls12_381_pp>().run(c); X<edwards_pp>().run(c); X<mnt4_pp>().run(c); X<mnt6_pp>().run(c);
    return mon::finish();
}
