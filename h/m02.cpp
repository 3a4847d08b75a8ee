// M02: multi-exponentiation by every method, chunk count and scalar pattern.
#define MON_MAIN
#include "mulpool.hpp"
#include "custom.hpp"
#include <libff/algebra/scalar_multiplication/multiexp.hpp>
using namespace lb;

template<class G, class S> struct X {
    MP<G> m; const std::string &N; const Z sp; const std::string SN; X() : m(10, 2), N(m.N), sp(zb<S::num_limbs>(S::field_char())), SN(FI<S>::name()) {}
    // a list of pairs; want = sum
    void list(size_t n, unsigned style, std::vector<G> &v, std::vector<S> &k, typename MP<G>::Acc &want, std::string &desc, bool special) {
        Rng &r = m.r; Z fixed = m.scalar(sp, ref::bits(sp)); auto fp = m.pick();
        for (size_t i = 0; i < n; ++i) {
            auto p = style == 3 ? fp : m.pick(); Z s; // scalars
            switch (style) { case 0: s = 0; break; case 1: s = 1; break; case 2: s = r.below(3); break; case 3: s = fixed; break; case 4: s = sp - 1 - mon::mpz_u64(r.below(2)); break; case 5: s = i == n / 2 ? Z(sp - 1) : Z(r.below(4)); break; case 6: s = (Z(1) << r.below(ref::bits(sp) - 1)); break; case 7: s = mon::mpz_u64(r.next() >> r.below(64)); break; case 8: s = r.chance(1, 3) ? Z(0) : r.chance(1, 2) ? Z(1) : m.scalar(sp, ref::bits(sp)); break; case 9: s = i ? Z(fixed >> (i % 200)) : fixed; break; case 10: { s = sp - 1; s >>= (r.below(3) * 21); break; } default: s = m.scalar(sp, ref::bits(sp)); }
            s = ref::modp(s, sp); m.acc(want, p, s); v.push_back(special ? encs<G>(p.P) : encr<G>(p.P, r)); k.push_back(enc<S>(El{s}));
        }
        desc = std::to_string(n) + " pairs, style " + std::to_string(style) + ", scalars in " + SN;
    }
    void one(size_t n, unsigned style, size_t chunks) {
        std::vector<G> v; std::vector<S> k; typename MP<G>::Acc a; std::string d; bool special = m.r.chance(1, 2);
        list(n, style, v, k, a, d, special); Pt w = m.total(a); const std::string T = N + (SN == FI<typename G::scalar_field>::name() ? "" : "/" + SN); d += ", " + std::to_string(chunks) + " chunks"; uint64_t h = n * 131 + style * 17 + chunks + 7 * ref::hash(w); bool nt = n > 0 && style > 0; at("M02:" + T);
        auto ctx = [&](const char *meth) { return [=] { return std::string(meth) + ": " + d; }; };
        // an offset into longer vectors, so that reads outside the range are visible
        std::vector<G> pv(1 + n + 1, G::one()); std::copy(v.begin(), v.end(), pv.begin() + 1); std::vector<S> pk(1 + n + 1, S::one()); std::copy(k.begin(), k.end(), pk.begin() + 1);
        auto vb = pv.cbegin() + 1, ve = pv.cend() - 1; auto kb = pk.cbegin() + 1, ke = pk.cend() - 1;
#define M2(METH, TAG) { info(std::string(TAG) + " " + d); chkp<G>(multi_exp<G, S, METH>(vb, ve, kb, ke, chunks), w, std::string("M02." TAG ":") + T, h, ctx(TAG), nt); }
#ifdef USE_MIXED_ADDITION
        if (special)
#endif
        M2(multi_exp_method_BDLO12, "BDLO12") M2(multi_exp_method_bos_coster, "bos_coster")
        if (n <= 40) { M2(multi_exp_method_naive, "naive") M2(multi_exp_method_naive_plain, "naive_plain") }
#define M3(METH, TAG) { info(std::string(TAG) + " " + d); chkp<G>(multi_exp_with_mixed_addition<G, S, METH>(vb, ve, kb, ke, chunks), w, std::string("M02.filtered-" TAG ":") + T, h, ctx("filtered " TAG), nt); }
        if (special) { M3(multi_exp_method_BDLO12, "BDLO12") if (n <= 120) M3(multi_exp_method_bos_coster, "bos_coster") if (n <= 24) { M3(multi_exp_method_naive, "naive") M3(multi_exp_method_naive_plain, "naive_plain") } }
        bool same = true; for (size_t i = 0; i < n; ++i) same = same && pv[i + 1].X == v[i].X && pv[i + 1].Y == v[i].Y && pv[i + 1].Z == v[i].Z && pk[i + 1] == k[i]; expect(same, "M02.inputs-unchanged:" + T, h, ctx("inputs"), nt);
    }
    void run(uint64_t c, bool heavy) {
        if (!mon::want(N)) return; Rng &r = m.r;
        for (size_t n = 0; n <= 6; ++n) for (size_t ch : {1, 2, 3, 7}) one(n, r.below(13), ch);
        for (unsigned st = 0; st < 12; ++st) one(2 + r.below(9), st, 1 + r.below(4));
        for (uint64_t i = 0; i < c; ++i) { size_t n = r.chance(1, 4) ? r.below(4) : r.chance(1, 6) ? 14 + r.below(30) : r.below(15); one(n, r.below(13), r.chance(1, 3) ? 1 : 1 + r.below(n + 3)); }
        if (heavy) for (size_t n : {63, 64, 65, 128, 200}) one(n, 11 + r.below(2), 1 + r.below(5));
        mon::sample(N + " " + SN);
    }
};
template<class T> void inner(uint64_t c) {
    const std::string N = RF<T>::name(); if (!mon::want(N)) return; const Field *f = RF<T>::f(); Rng &r = rng();
    for (uint64_t i = 0; i < c; ++i) { at("M02.inner_product:" + N); size_t n = i < 5 ? i : r.below(25); std::vector<T> a, b; El w = f->zero(); uint64_t h = n; for (size_t k = 0; k < n; ++k) { El x = hostile_el(f, r), y = related(f, x, r); w = f->add(w, f->mul(x, y)); a.push_back(enc<T>(x)); b.push_back(enc<T>(y)); h = h * 31 + ref::hash(x) + ref::hash(y); } chk(inner_product<T>(a.begin(), a.end(), b.begin(), b.end()), w, "M02.inner_product:" + N, h, [&] { return std::to_string(n) + " pairs"; }, n > 0); }
}
int main(int argc, char **argv) {
    mon::init(argc, argv); init_all(); cust::init(); uint64_t c = 8 * mon::M().scale;
    X<alt_bn128_G1, alt_bn128_Fr>().run(c, true); X<alt_bn128_G2, alt_bn128_Fr>().run(c / 2, false); X<bls12_381_G1, bls12_381_Fr>().run(c, true); X<bls12_381_G2, bls12_381_Fr>().run(c / 2, false); X<edwards_G1, edwards_Fr>().run(c, true); X<edwards_G2, edwards_Fr>().run(c / 2, false); X<mnt4_G1, mnt4_Fr>().run(c, true); X<mnt4_G2, mnt4_Fr>().run(c / 2, false); X<mnt6_G1, mnt6_Fr>().run(c, false); X<mnt6_G2, mnt6_Fr>().run(c / 2, false);
    X<alt_bn128_G1, edwards_Fr>().run(c / 2, false); X<alt_bn128_G1, mnt4_Fr>().run(c / 2, false); X<alt_bn128_G1, cust::F1b>().run(c / 2, false); X<alt_bn128_G1, cust::F2>().run(c / 2, false); X<alt_bn128_G1, cust::F6>().run(c / 4, false); X<alt_bn128_G1, cust::F4>().run(c / 2, false); X<alt_bn128_G1, cust::F5>().run(c / 4, false); X<alt_bn128_G1, cust::F3>().run(c / 2, false);
    inner<alt_bn128_Fr>(c * 4); inner<bls12_381_Fr>(c * 4); inner<edwards_Fr>(c * 4); inner<mnt4_Fr>(c * 4); inner<mnt4_Fq>(c * 4);
    return mon::finish();
}
