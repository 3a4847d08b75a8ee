// F08: published parameters against their defining equations, recomputed with integer arithmetic.
#define MON_MAIN
#include "curves.hpp"
using namespace lb; using ref::modp;

static void ok(bool b, const std::string &k, const std::string &d = "") { expect(b, "F08." + k, mon::hs(k + d), [&] { return k + ": " + d; }); }
template<class A> static void eqz(const A &got, const Z &want, const std::string &k) { expect(Z(got) == want, "F08." + k, ref::hash(want), [&] { return k + ": got " + hex(Z(got)) + " want " + hex(want); }); }
template<class T> static void eqf(const T &got, const El &want, const std::string &k) { expect(same(got, want), "F08." + k, ref::hash(want), [&] { return k + ": got " + show(got) + " want " + ref::str(want); }); }

// p - 1 factored (checked below: every factor prime, product exact)
static const std::vector<std::vector<const char *>> FACT = {
    {"2", "3", "13", "29", "983", "237073", "11003", "405928799", "1670836401704629", "13818364434197438864469338081"},
    {"2", "3", "13", "29", "67", "229", "311", "983", "11003", "405928799", "11465965001", "13427688667394608761327070753331941386769"},
    {"2", "3", "11", "19", "10177", "906349", "2508409", "125527", "859267", "2529403", "52437899", "254760293"},
    {"2", "3", "11", "23", "47", "10177", "859267", "52437899", "2584487767265781317813", "15778400344354997994418419698270088123916926905054652752758194827714659"},
    {"2", "3", "5", "7", "17", "29", "53", "79", "113", "263", "1021", "5679531856541001669394577"},
    {"2", "3", "5", "7", "17", "29", "53", "79", "263", "1021", "711890597413", "1682846480381357"},
    {"2", "3", "7", "43", "832668823862928114206893884097921187"},
    {}};
template<class F> void prime_field(int k) {
    const std::string nm = FI<F>::name(); if (!mon::want(nm)) return; at("F08:" + nm);
    typedef decltype(pf(F())) P; const mp_size_t n = F::num_limbs; const Z p = std_p(k);
    eqz(P::p(), p, "modulus:" + nm); ok(ref::isprime(p), "modulus-prime:" + nm);
    eqz(zb<n>(F::field_char()), p, "field_char:" + nm);
    ok(F::modulus_is_valid(), "modulus-valid:" + nm);
    eqz(Z((unsigned long)F::num_bits), Z((unsigned long)ref::bits(p)), "num_bits:" + nm);
    eqz(zb(F::euler), (p - 1) / 2, "euler:" + nm);
    Z t = p - 1; size_t s = 0; while (!ref::bit(t, 0)) { t >>= 1; ++s; }
    eqz(Z((unsigned long)F::s), Z((unsigned long)s), "s:" + nm); eqz(zb(F::t), t, "t:" + nm); eqz(zb(F::t_minus_1_over_2), (t - 1) / 2, "t_minus_1_over_2:" + nm);
    Z R; mpz_setbit(R.get_mpz_t(), 64 * n); Z W; mpz_setbit(W.get_mpz_t(), 64);
    eqz(zb(F::Rsquared), ref::modp(R * R, p), "Rsquared:" + nm); eqz(zb(F::Rcubed), ref::modp(R * R * R, p), "Rcubed:" + nm);
    eqz(mon::mpz_u64(F::inv), W - ref::inv_mod(ref::modp(p, W), W), "inv:" + nm);
    ok(canon(F::nqr) && canon(F::nqr_to_t) && canon(F::multiplicative_generator) && canon(F::root_of_unity), "constants-reduced:" + nm);
    Z q = P::dec(F::nqr), g = P::dec(F::multiplicative_generator), w = P::dec(F::root_of_unity);
    ok(ref::powm(q, (p - 1) / 2, p) == p - 1, "nqr-nonresidue:" + nm, q.get_str());
    eqz(P::dec(F::nqr_to_t), ref::powm(q, t, p), "nqr_to_t:" + nm);
    Z h; mpz_setbit(h.get_mpz_t(), s - 1); ok(ref::powm(w, h, p) == p - 1, "root_of_unity-order:" + nm, hex(w));
    eqz(w, ref::powm(g, t, p), "root_of_unity-from-generator:" + nm);
    // generator of the whole multiplicative group
    Z rest = p - 1; bool full = true;
    for (auto f : FACT[k]) { Z pr(f); ok(ref::isprime(pr) && (p - 1) % pr == 0, "factor-table:" + nm, f); while (rest % pr == 0) rest /= pr; ok(ref::powm(g, (p - 1) / pr, p) != 1, "generator-primitive:" + nm, "order divides (p-1)/" + pr.get_str()); }
    if (FACT[k].empty()) for (unsigned long d = 2; d < 2000000; ++d) if (mpz_divisible_ui_p(rest.get_mpz_t(), d)) { while (mpz_divisible_ui_p(rest.get_mpz_t(), d)) mpz_divexact_ui(rest.get_mpz_t(), rest.get_mpz_t(), d); ok(ref::powm(g, (p - 1) / d, p) != 1, "generator-primitive:" + nm, "order divides (p-1)/" + std::to_string(d)); full = false; }
    if (!FACT[k].empty()) ok(rest == 1, "factor-table-complete:" + nm, rest.get_str()); else mon::M().notes["partial-factorisation " + nm] = "generator checked against prime factors of p-1 below 2e6";
    (void)full; mon::sample(nm + " generator " + g.get_str());
}
// constants every extension publishes
template<class T> void ext_field() {
    const std::string nm = RF<T>::name(); if (!mon::want(nm)) return; at("F08:" + nm); const Field *f = RF<T>::f();
    const Z Q = f->order(); Z t = Q - 1; size_t s = 0; while (!ref::bit(t, 0)) { t >>= 1; ++s; }
    eqz(zb(T::euler), (Q - 1) / 2, "euler:" + nm); eqz(Z((unsigned long)T::s), Z((unsigned long)s), "s:" + nm); eqz(zb(T::t), t, "t:" + nm); eqz(zb(T::t_minus_1_over_2), (t - 1) / 2, "t_minus_1_over_2:" + nm);
    ok(canon(T::nqr) && canon(T::nqr_to_t), "constants-reduced:" + nm); El q = dec(T::nqr);
    ok(f->pow(q, (Q - 1) / 2) == f->neg(f->one()), "nqr-nonresidue:" + nm, ref::str(q)); eqf(T::nqr_to_t, f->pow(q, t), "nqr_to_t:" + nm);
    // the defining polynomial is irreducible: X^d - nr has no factor because nr is no r-th power for any prime r | d
    const Field *b = f->base; for (int r : {2, 3}) if (f->d % r == 0) ok(b->pow(f->nr, (b->order() - 1) / r) != b->one(), "tower-irreducible:" + nm, std::to_string(r));
}
static El frob_const(const Field *b, const El &nr, const Z &p, int i, int k, int m = 1) { return b->pow(nr, m * (ref::ipow(p, i) - 1) / k); }
template<class T> void fp2() { if (!mon::want(RF<T>::name())) return; const Field *f = RF<T>::f(), *b = f->base; const std::string nm = RF<T>::name(); eqf(T::non_residue, f->nr, "non_residue:" + nm); for (int i = 0; i < 2; ++i) eqf(T::Frobenius_coeffs_c1[i], frob_const(b, f->nr, f->p, i, 2), "frobenius_c1:" + nm); }
template<class T> void fp3() { if (!mon::want(RF<T>::name())) return; const Field *f = RF<T>::f(), *b = f->base; const std::string nm = RF<T>::name(); eqf(T::non_residue, f->nr, "non_residue:" + nm); for (int i = 0; i < 3; ++i) { eqf(T::Frobenius_coeffs_c1[i], frob_const(b, f->nr, f->p, i, 3), "frobenius_c1:" + nm); eqf(T::Frobenius_coeffs_c2[i], frob_const(b, f->nr, f->p, i, 3, 2), "frobenius_c2:" + nm); } }
template<class T> void fpq(int deg) { if (!mon::want(RF<T>::name())) return; const Field *f = RF<T>::f(), *m = f->base, *b = m->base; const std::string nm = RF<T>::name(); eqf(T::non_residue, m->nr, "non_residue:" + nm); for (int i = 0; i < deg; ++i) eqf(T::Frobenius_coeffs_c1[i], frob_const(b, m->nr, f->p, i, deg), "frobenius_c1:" + nm); }
template<class T> void fp6_32() { if (!mon::want(RF<T>::name())) return; const Field *f = RF<T>::f(), *b = f->base; const std::string nm = RF<T>::name(); eqf(T::non_residue, f->nr, "non_residue:" + nm); for (int i = 0; i < 6; ++i) { eqf(T::Frobenius_coeffs_c1[i], frob_const(b, f->nr, f->p, i, 3), "frobenius_c1:" + nm); eqf(T::Frobenius_coeffs_c2[i], frob_const(b, f->nr, f->p, i, 3, 2), "frobenius_c2:" + nm); } }
template<class T> void fp12() { if (!mon::want(RF<T>::name())) return; const Field *f = RF<T>::f(), *m = f->base, *b = m->base; const std::string nm = RF<T>::name(); eqf(T::non_residue, m->nr, "non_residue:" + nm); for (int i = 0; i < 12; ++i) eqf(T::Frobenius_coeffs_c1[i], frob_const(b, m->nr, f->p, i, 6), "frobenius_c1:" + nm); }

// windows: usable, increasing thresholds (0 = window never best), first entry usable for one scalar
static void windows(const std::vector<size_t> &wn, const std::vector<size_t> &fb, const std::string &nm) {
    ok(!wn.empty() && !fb.empty() && fb[0] == 1, "window-tables-nonempty:" + nm);
    bool mono = true; for (size_t i = 1; i < wn.size(); ++i) if (wn[i] <= wn[i - 1]) mono = false; ok(mono, "wnaf-windows-increasing:" + nm);
    mono = true; size_t last = 0; for (auto x : fb) if (x) { if (x <= last) mono = false; last = x; } ok(mono, "fixed-base-windows-increasing:" + nm); ok(fb.size() <= 40 && wn.size() <= 40, "window-table-size:" + nm);
}
template<class G> void group(const G &zero, const G &one, const Pt *gen) {
    const std::string nm = CI<G>::name(); if (!mon::want(nm)) return; at("F08:" + nm); const Curve &C = CI<G>::C(); bool v;
    Pt g = decp(one, &v); ok(v && C.on(g) && !C.isO(g), "generator-on-curve:" + nm, ref::str(g)); ok(C.isO(C.mul(g, CI<G>::order())), "generator-order:" + nm, ref::str(g)); // the order is prime, so it is exact
    if (gen) ok(g == *gen, "generator-standard:" + nm, ref::str(g));
    Pt o = decp(zero, &v); ok(v && C.isO(o), "identity:" + nm); ok(samep(G(), C.O()), "default-is-identity:" + nm, showp(G())); ok(samep(G::zero(), C.O()) && samep(G::one(), g), "zero()/one():" + nm);
    ok((CI<G>::rep == INVED || one.is_special()) && zero.is_special(), "constants-special:" + nm);
    windows(G::wnaf_window_table, G::fixed_base_exp_window_table, nm);
    typedef typename G::scalar_field S; eqz(zb(G::order()), CI<G>::order(), "order():" + nm); eqz(zb(G::field_char()), C.F->p, "field_char():" + nm); eqz(Z((unsigned long)G::size_in_bits()), Z((unsigned long)(C.F->n * ref::bits(C.F->p) + 1)), "size_in_bits:" + nm);
    eqz(zb(S::mod), CI<G>::order(), "scalar-field:" + nm); mon::sample(nm + " generator " + ref::str(g));
}
template<class G> void cofactor(const Z &want) { // h * (any point) has order dividing r
    const std::string nm = CI<G>::name(); if (!mon::want(nm)) return; at("F08:" + nm); const Curve &C = CI<G>::C(); Z h = zb(G::h); if (want > 0) eqz(h, want, "cofactor:" + nm);
    Z N = h * CI<G>::order(), q = C.F->order(); Z d = N - q - 1, b; mpz_sqrt(b.get_mpz_t(), q.get_mpz_t()); ok(abs(d) <= 2 * b + 1, "cofactor-hasse:" + nm, "h*r outside the Hasse interval");
    for (int i = 0; i < 4; ++i) { Pt p = C.random(rng()); ok(C.isO(C.mul(p, N)), "cofactor-kills:" + nm, ref::str(p)); }
}
template<class T> El coef(const T &x) { return dec(x); }
static El mulf(const Field *f, const El &a, const El &b) { return f->mul(a, b); }
// the untwist-Frobenius-twist constants: (xi^((q-1)/a), xi^((q-1)/b)) in the twist field
int main(int argc, char **argv) {
    mon::init(argc, argv); init_all();
    prime_field<alt_bn128_Fr>(0); prime_field<alt_bn128_Fq>(1); prime_field<bls12_381_Fr>(2); prime_field<bls12_381_Fq>(3); prime_field<edwards_Fr>(4); prime_field<edwards_Fq>(5); prime_field<mnt4_Fr>(6); prime_field<mnt4_Fq>(7);
    ok(zb(mnt6_modulus_r) == std_p(7) && zb(mnt6_modulus_q) == std_p(6), "mnt-cycle");
    ext_field<alt_bn128_Fq2>(); ext_field<alt_bn128_Fq6>(); ext_field<alt_bn128_Fq12>(); ext_field<bls12_381_Fq2>(); ext_field<bls12_381_Fq6>(); ext_field<bls12_381_Fq12>(); ext_field<edwards_Fq3>(); ext_field<edwards_Fq6>(); ext_field<mnt4_Fq2>(); ext_field<mnt4_Fq4>(); ext_field<mnt6_Fq3>(); ext_field<mnt6_Fq6>();
    at("F08:frobenius-tables");
    fp2<alt_bn128_Fq2>(); fp2<bls12_381_Fq2>(); fp2<mnt4_Fq2>(); fp3<edwards_Fq3>(); fp3<mnt6_Fq3>(); fpq<mnt4_Fq4>(4); fpq<edwards_Fq6>(6); fpq<mnt6_Fq6>(6); fp6_32<alt_bn128_Fq6>(); fp6_32<bls12_381_Fq6>(); fp12<alt_bn128_Fq12>(); fp12<bls12_381_Fq12>();
    // standard generators of the standardised curves
    Pt a1 = ref::mk(El{Z(1)}, El{Z(2)}), a2 = ref::mk(El{Z("10857046999023057135944570762232829481370756359578518086990519993285655852781"), Z("11559732032986387107991004021392285783925812861821192530917403151452391805634")}, El{Z("8495653923123431417604973247489272438418190587263600148770280649306958101930"), Z("4082367875863433681332203403145435568316851327593401208105741076214120093531")});
    Pt b1 = ref::mk(El{Z("0x17f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb")}, El{Z("0x08b3f481e3aaa0f1a09e30ed741d8ae4fcf5e095d5d00af600db18cb2c04b3edd03cc744a2888ae40caa232946c5e7e1")});
    Pt b2 = ref::mk(El{Z("0x024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8"), Z("0x13e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e")}, El{Z("0x0ce5d527727d6e118cc9cdc6da2e351aadfd9baa8cbdd3a76d429a695160d12c923ac9cc3baca289e193548608b82801"), Z("0x0606c4a02ea734cc32acd2b02bc28b99cb3e287e85a763af267492ab572e99ab3f370d275cec1da1aaa9075ff05f79be")});
    group(alt_bn128_G1::G1_zero, alt_bn128_G1::G1_one, &a1); group(alt_bn128_G2::G2_zero, alt_bn128_G2::G2_one, &a2); group(bls12_381_G1::G1_zero, bls12_381_G1::G1_one, &b1); group(bls12_381_G2::G2_zero, bls12_381_G2::G2_one, &b2);
    group(edwards_G1::G1_zero, edwards_G1::G1_one, (Pt *)0); group(edwards_G2::G2_zero, edwards_G2::G2_one, (Pt *)0); group(mnt4_G1::G1_zero, mnt4_G1::G1_one, (Pt *)0); group(mnt4_G2::G2_zero, mnt4_G2::G2_one, (Pt *)0); group(mnt6_G1::G1_zero, mnt6_G1::G1_one, (Pt *)0); group(mnt6_G2::G2_zero, mnt6_G2::G2_one, (Pt *)0);
    Z z("4965661367192848881"), zz("-15132376222941642752"); const Z aq = std_p(1), ar = std_p(0), bq = std_p(3), br = std_p(2), eq = std_p(5), er = std_p(4), A = std_p(6), B = std_p(7);
    cofactor<alt_bn128_G1>(1); cofactor<alt_bn128_G2>(2 * aq - ar); cofactor<bls12_381_G1>((zz - 1) * (zz - 1) / 3); cofactor<bls12_381_G2>(0); cofactor<mnt4_G1>(1); cofactor<mnt4_G2>(0); cofactor<mnt6_G1>(1); cofactor<mnt6_G2>(0);
    for (int i = 0; i < 4; ++i) { Pt p = cv().e1.random(rng()); ok(cv().e1.isO(cv().e1.mul(p, 4 * er)), "cofactor-kills:edwards_G1", ref::str(p)); }
    at("F08:pairing-constants");
    // curve families
    ok(aq == 36 * z * z * z * z + 36 * z * z * z + 24 * z * z + 6 * z + 1 && ar == 36 * z * z * z * z + 36 * z * z * z + 18 * z * z + 6 * z + 1, "bn-family"); ok(br == zz * zz * zz * zz - zz * zz + 1 && bq == (zz - 1) * (zz - 1) * br / 3 + zz, "bls-family");
    const Field *a_2 = tw().a2, *b_2 = tw().b2, *m_2 = tw().m42, *m_3 = tw().m63, *e_3 = tw().e3;
    eqf(alt_bn128_coeff_b, El{Z(3)}, "coeff_b:alt_bn128"); El axi{Z(9), Z(1)}, bxi{Z(1), Z(1)}; eqf(alt_bn128_twist, axi, "twist:alt_bn128"); eqf(alt_bn128_twist_coeff_b, cv().a2.b, "twist_b:alt_bn128");
    eqf(alt_bn128_twist_mul_by_b_c0, El{modp(Z(-3), aq)}, "twist_mul_by_b_c0:alt_bn128"); eqf(alt_bn128_twist_mul_by_b_c1, El{modp(Z(-3), aq)}, "twist_mul_by_b_c1:alt_bn128");
    eqf(bls12_381_coeff_b, El{Z(4)}, "coeff_b:bls12_381"); eqf(bls12_381_twist, bxi, "twist:bls12_381"); eqf(bls12_381_twist_coeff_b, El{Z(4), Z(4)}, "twist_b:bls12_381"); eqf(bls12_381_twist_mul_by_b_c0, El{modp(Z(-4), bq)}, "twist_mul_by_b_c0:bls12_381"); eqf(bls12_381_twist_mul_by_b_c1, El{modp(Z(-4), bq)}, "twist_mul_by_b_c1:bls12_381");
    eqf(alt_bn128_twist_mul_by_q_X, a_2->pow(axi, (aq - 1) / 3), "mul_by_q_X:alt_bn128"); eqf(alt_bn128_twist_mul_by_q_Y, a_2->pow(axi, (aq - 1) / 2), "mul_by_q_Y:alt_bn128");
    eqf(bls12_381_twist_mul_by_q_X, b_2->pow(b_2->inv(bxi), (bq - 1) / 3), "mul_by_q_X:bls12_381"); eqf(bls12_381_twist_mul_by_q_Y, b_2->pow(b_2->inv(bxi), (bq - 1) / 2), "mul_by_q_Y:bls12_381");
    ok(zb(alt_bn128_ate_loop_count) == 6 * z + 2 && !alt_bn128_ate_is_loop_count_neg, "ate-loop:alt_bn128"); ok(zb(alt_bn128_final_exponent_z) == z && !alt_bn128_final_exponent_is_z_neg, "final-exponent-z:alt_bn128");
    ok(zb(bls12_381_ate_loop_count) == -zz && bls12_381_ate_is_loop_count_neg, "ate-loop:bls12_381"); ok(zb(bls12_381_final_exponent_z) == -zz && bls12_381_final_exponent_is_z_neg, "final-exponent-z:bls12_381");
    { Z N = (ref::ipow(bq, 12) - 1) / br, e = zb(bls12_381_final_exponent); ok(e % N == 0 && (e / N) % br != 0 && e > 0, "final-exponent:bls12_381", e.get_str()); mon::M().notes["bls12_381_final_exponent/((q^12-1)/r)"] = Z(e / N).get_str(); }
    // MNT curves
    eqf(mnt4_G1::coeff_a, El{Z(2)}, "coeff_a:mnt4"); eqf(mnt4_G1::coeff_b, El{cv().m_b}, "coeff_b:mnt4"); eqf(mnt6_G1::coeff_a, El{Z(11)}, "coeff_a:mnt6"); eqf(mnt6_G1::coeff_b, cv().m61.b, "coeff_b:mnt6");
    eqf(mnt4_twist, m_2->gen(), "twist:mnt4"); eqf(mnt6_twist, m_3->gen(), "twist:mnt6"); eqf(mnt4_G2::twist, m_2->gen(), "G2::twist:mnt4"); eqf(mnt6_G2::twist, m_3->gen(), "G2::twist:mnt6");
    eqf(mnt4_twist_coeff_a, cv().m42.a, "twist_a:mnt4"); eqf(mnt4_twist_coeff_b, cv().m42.b, "twist_b:mnt4"); eqf(mnt6_twist_coeff_a, cv().m62.a, "twist_a:mnt6"); eqf(mnt6_twist_coeff_b, cv().m62.b, "twist_b:mnt6"); eqf(mnt4_G2::coeff_a, cv().m42.a, "G2::coeff_a:mnt4"); eqf(mnt4_G2::coeff_b, cv().m42.b, "G2::coeff_b:mnt4"); eqf(mnt6_G2::coeff_a, cv().m62.a, "G2::coeff_a:mnt6"); eqf(mnt6_G2::coeff_b, cv().m62.b, "G2::coeff_b:mnt6");
    for (int i = 0; i < 20; ++i) { // products by the twisted coefficients
        El x = hostile_el(m_2, rng()), y = hostile_el(m_3, rng()), w = hostile_el(e_3, rng());
        eqf(mnt4_G2::mul_by_a(enc<mnt4_Fq2>(x)), m_2->mul(x, cv().m42.a), "mul_by_a:mnt4"); eqf(mnt4_G2::mul_by_b(enc<mnt4_Fq2>(x)), m_2->mul(x, cv().m42.b), "mul_by_b:mnt4"); eqf(mnt6_G2::mul_by_a(enc<mnt6_Fq3>(y)), m_3->mul(y, cv().m62.a), "mul_by_a:mnt6"); eqf(mnt6_G2::mul_by_b(enc<mnt6_Fq3>(y)), m_3->mul(y, cv().m62.b), "mul_by_b:mnt6");
        eqf(edwards_G2::mul_by_a(enc<edwards_Fq3>(w)), e_3->mul(w, cv().e2.a), "mul_by_a:edwards"); eqf(edwards_G2::mul_by_d(enc<edwards_Fq3>(w)), e_3->mul(w, cv().e2.b), "mul_by_d:edwards");
    }
    // Frobenius through the twist: x coefficient u^(q-1)^-1..., as determined by (u^2 scaling) on x and (u^3) on y
    { El f2 = m_2->inv(m_2->gen()), k = m_2->pow(f2, A - A); (void)k; El c = m_2->mul(m_2->pow(m_2->gen(), B), m_2->inv(m_2->gen())); El cx = m_2->inv(c); eqf(mnt4_twist_mul_by_q_X, El{cx[0]}, "mul_by_q_X:mnt4"); ok(cx[1] == 0, "mul_by_q_X-rational:mnt4"); }
    { El c = m_3->mul(m_3->pow(m_3->gen(), A), m_3->inv(m_3->gen())); El cx = m_3->inv(c); eqf(mnt6_twist_mul_by_q_X, El{cx[0]}, "mul_by_q_X:mnt6"); ok(cx[1] == 0 && cx[2] == 0, "mul_by_q_X-rational:mnt6"); }
    { const Field *f = tw().m44; El w = f->gen(), w3 = f->mul(w, f->sqr(w)); El c = f->inv(f->mul(f->pow(w3, B), f->inv(w3))); eqf(mnt4_twist_mul_by_q_Y, El{c[0]}, "mul_by_q_Y:mnt4"); }
    { const Field *f = tw().m66; El w = f->gen(), w3 = f->mul(w, f->sqr(w)); El c = f->inv(f->mul(f->pow(w3, A), f->inv(w3))); eqf(mnt6_twist_mul_by_q_Y, El{c[0]}, "mul_by_q_Y:mnt6"); }
    auto mnt = [&](const char *nm, const Z &q, const Z &r, int k, const Z &loop, bool neg, const Z &fe, const Z &w0, bool w0n, const Z &w1) {
        ok((neg ? ref::modp(-loop, r) : ref::modp(loop, r)) == ref::modp(q, r), std::string("ate-loop:") + nm, loop.get_str());
        Z phi = k == 4 ? Z(q * q + 1) : Z(q * q - q + 1); ok(phi % r == 0 && w1 * q + (w0n ? Z(-w0) : w0) == phi / r, std::string("final-exponent-last-chunk:") + nm);
        if (fe > 0) eqz(fe, (ref::ipow(q, k) - 1) / r, std::string("final-exponent:") + nm);
    };
    mnt("mnt4", B, A, 4, zb(mnt4_ate_loop_count), mnt4_ate_is_loop_count_neg, zb(mnt4_final_exponent), zb(mnt4_final_exponent_last_chunk_abs_of_w0), mnt4_final_exponent_last_chunk_is_w0_neg, zb(mnt4_final_exponent_last_chunk_w1));
    mnt("mnt6", A, B, 6, zb(mnt6_ate_loop_count), mnt6_ate_is_loop_count_neg, zb(mnt6_final_exponent), zb(mnt6_final_exponent_last_chunk_abs_of_w0), mnt6_final_exponent_last_chunk_is_w0_neg, zb(mnt6_final_exponent_last_chunk_w1));
    mnt("edwards", eq, er, 6, zb(edwards_ate_loop_count), true /* q = 4r - loop */, Z(0), zb(edwards_final_exponent_last_chunk_abs_of_w0), edwards_final_exponent_last_chunk_is_w0_neg, zb(edwards_final_exponent_last_chunk_w1));
    // Edwards
    eqf(edwards_coeff_a, El{Z(1)}, "coeff_a:edwards"); eqf(edwards_coeff_d, El{cv().e_d}, "coeff_d:edwards"); eqf(edwards_twist, e_3->gen(), "twist:edwards"); eqf(edwards_twist_coeff_a, cv().e2.a, "twist_a:edwards"); eqf(edwards_twist_coeff_d, cv().e2.b, "twist_d:edwards");
    ok(ref::powm(cv().e_d, (eq - 1) / 2, eq) == eq - 1, "d-nonsquare:edwards"); // completeness of the group law
    eqf(edwards_twist_mul_by_a_c0, El{Z(61)}, "twist_mul_by_a_c0:edwards"); eqf(edwards_twist_mul_by_a_c1, El{Z(1)}, "twist_mul_by_a_c1:edwards"); eqf(edwards_twist_mul_by_a_c2, El{Z(1)}, "twist_mul_by_a_c2:edwards"); eqf(edwards_twist_mul_by_d_c0, El{modp(cv().e_d * 61, eq)}, "twist_mul_by_d_c0:edwards"); eqf(edwards_twist_mul_by_d_c1, El{cv().e_d}, "twist_mul_by_d_c1:edwards"); eqf(edwards_twist_mul_by_d_c2, El{cv().e_d}, "twist_mul_by_d_c2:edwards");
    { const Field *f = tw().e6; El w = f->gen(); El c = f->inv(f->mul(f->pow(w, eq), f->inv(w))); ok(c[1] == 0, "mul_by_q-rational:edwards"); // x scaled by w: (x/w)^q * w
      El y = dec(edwards_twist_mul_by_q_Y), zz2 = dec(edwards_twist_mul_by_q_Z); ok(y == zz2, "mul_by_q_Y=Z:edwards"); ok(y == El{c[0]} || y == El{ref::inv_mod(c[0], eq)}, "mul_by_q_Y:edwards", ref::str(y)); }
    eqf(mnt4_twist_mul_by_a_c0, El{Z(34)}, "twist_mul_by_a_c0:mnt4"); eqf(mnt4_twist_mul_by_a_c1, El{Z(34)}, "twist_mul_by_a_c1:mnt4"); eqf(mnt4_twist_mul_by_b_c0, El{modp(cv().m_b * 289, B)}, "twist_mul_by_b_c0:mnt4"); eqf(mnt4_twist_mul_by_b_c1, El{modp(cv().m_b * 17, B)}, "twist_mul_by_b_c1:mnt4");
    eqf(mnt6_twist_mul_by_a_c0, El{Z(55)}, "twist_mul_by_a_c0:mnt6"); eqf(mnt6_twist_mul_by_a_c1, El{Z(55)}, "twist_mul_by_a_c1:mnt6"); eqf(mnt6_twist_mul_by_a_c2, El{Z(11)}, "twist_mul_by_a_c2:mnt6"); { El b5{modp(cv().m61.b[0] * 5, A)}; eqf(mnt6_twist_mul_by_b_c0, b5, "twist_mul_by_b_c0:mnt6"); eqf(mnt6_twist_mul_by_b_c1, b5, "twist_mul_by_b_c1:mnt6"); eqf(mnt6_twist_mul_by_b_c2, b5, "twist_mul_by_b_c2:mnt6"); }
    return mon::finish();
}
