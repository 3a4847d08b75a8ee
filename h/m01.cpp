// M01: scalar multiplication and signed-digit recoding.
#define MON_MAIN
#include "mulpool.hpp"
#include <libff/algebra/scalar_multiplication/wnaf.hpp>
using namespace lb;

template<mp_size_t n> void recode(uint64_t cases) {
    const std::string N = "bigint<" + std::to_string((long)n) + ">"; if (!mon::want("recode")) return; Rng &r = rng(); const unsigned W = 64 * n;
    auto one = [&](const Z &v, size_t w) {
        info(hex(v) + " window " + std::to_string(w)); std::vector<long> d = find_wnaf<n>(w, bz<n>(v)); Z s = 0; bool digit = true, gap = true; long last = -1000;
        for (size_t i = d.size(); i-- > 0;) { s = 2 * s + Z(d[i]); }
        for (size_t i = 0; i < d.size(); ++i) if (d[i]) { if (d[i] % 2 == 0 || d[i] >= (1L << w) || d[i] <= -(1L << w)) digit = false; if ((long)i - last <= (long)w) gap = false; last = i; }
        uint64_t h = ref::hash(v) * 31 + w; expect(s == v, "M01.recode-value:" + N, h, [&] { return hex(v) + " window " + std::to_string(w) + " reconstructs to " + (s < 0 ? "-" + hex(-s) : hex(s)); }, v != 0); expect(digit, "M01.recode-digits:" + N, h, [&] { return hex(v) + " window " + std::to_string(w); }, v != 0); expect(gap, "M01.recode-nonadjacent:" + N, h, [&] { return hex(v) + " window " + std::to_string(w); }, v != 0);
    };
    at("M01.recode:" + N); Z top = Z(1) << W;
    for (size_t w = 1; w <= 20; ++w) { for (long d = 0; d < 20; ++d) { one(Z(d), w); one(Z(top - 1 - d), w); } for (unsigned i = 0; i < W; i += 1 + r.below(5)) for (int d = -1; d <= 1; ++d) { Z v = (Z(1) << i) + d; if (v >= 0 && v < top) one(v, w); v = top - (Z(1) << i) + d; if (v >= 0 && v < top) one(v, w); } }
    for (uint64_t i = 0; i < cases; ++i) { if (i % 64 == 0) at("M01.recode:" + N); one(hostile_bits(r, W), r.chance(1, 8) ? 1 + r.below(29) : 1 + r.below(16)); }
}
template<class G> struct X {
    MP<G> m; const std::string &N; X() : m(8, 3), N(m.N) {}
    template<mp_size_t n> void big() {
        Rng &r = m.r; auto s = m.pick(); Z v = m.scalar(Z(1) << (64 * n), 64 * n); bigint<n> b = bz<n>(v); G p = encr<G>(s.P, r); std::string t = ref::str(s.P) + " times " + hex(v) + " (" + std::to_string((long)n) + " words)"; info(t); Pt w = m.times(s, v); uint64_t h = ref::hash(s.P) * 31 + ref::hash(v); bool nt = v != 0 && !m.C.isO(s.P); auto ctx = [&] { return t; };
        chkp<G>(b * p, w, "M01.bigint*point:" + N, h, ctx, nt); if (r.chance(1, 3)) chkp<G>(scalar_mul<G, n>(p, b), w, "M01.scalar_mul:" + N, h, ctx, nt);
        size_t win = r.chance(1, 6) ? 1 + r.below(11) : 1 + r.below(6); chkp<G>(fixed_window_wnaf_exp<G, n>(win, p, b), w, "M01.fixed_window_wnaf_exp:" + N, h + win, [&] { return t + " window " + std::to_string(win); }, nt);
        size_t sb = r.chance(2, 3) ? b.num_bits() : r.below(600); chkp<G>(opt_window_wnaf_exp<G, n>(p, b, sb), w, "M01.opt_window_wnaf_exp:" + N, h + 3, [&] { return t + " declared bits " + std::to_string(sb); }, nt);
        expect(zb<n>(b) == v && samep(p, s.P), "M01.operands-unchanged:" + N, h, ctx, nt);
    }
    void fr() {
        typedef typename G::scalar_field S; Rng &r = m.r; auto s = m.pick(); Z v = ref::modp(m.scalar(m.q, ref::bits(m.q)), m.q); S k = enc<S>(El{v}); if (r.chance(1, 3)) { k.mont_repr = bz<S::num_limbs>(v); v = dec(k)[0]; } G p = encr<G>(s.P, r); std::string t = ref::str(s.P) + " times field element " + hex(v); info(t); chkp<G>(k * p, m.times(s, v), "M01.field*point:" + N, ref::hash(s.P) * 31 + ref::hash(v), [&] { return t; }, v != 0 && !m.C.isO(s.P));
    }
    void wide(size_t w) { // large windows
        Rng &r = m.r; auto s = m.pick(); Z v = m.scalar(m.q, ref::bits(m.q)); typedef typename G::scalar_field S; const mp_size_t n = S::num_limbs; at("M01.wide:" + N); info(hex(v) + " window " + std::to_string(w)); chkp<G>(fixed_window_wnaf_exp<G, n>(w, encr<G>(s.P, r), bz<n>(v)), m.times(s, v), "M01.wide-window:" + N, ref::hash(v) + w, [&] { return ref::str(s.P) + " times " + hex(v) + " window " + std::to_string(w); }, v != 0);
    }
    void run(uint64_t c) {
        if (!mon::want(N)) return; typedef typename G::scalar_field S; const mp_size_t n = S::num_limbs;
        for (uint64_t i = 0; i < c; ++i) { at("M01:" + N); switch (i % 6) { case 0: big<1>(); break; case 1: big<2>(); break; case 2: case 5: big<n>(); break; case 3: big<n + 1>(); break; default: fr(); fr(); } if (i % 3 == 0) fr(); }
        for (size_t w = 12; w <= 15; ++w) if (CI<G>::C().F->n == 1 || w == 13) wide(w);
        // all thresholds of the window table, as given
        for (size_t b : G::wnaf_window_table) for (long d = -1; d <= 1; ++d) { size_t bits = b + d; if (bits < 1 || bits > 64 * n) continue; at("M01.threshold:" + N); Z v = (Z(1) << bits) - 1 - mon::mpz_u64(m.r.below(2)); auto s = m.pick(); if (b > 100) { Z t; mpz_setbit(t.get_mpz_t(), bits - 1); v = t + hostile_bits(m.r, bits - 1); } info(hex(v)); chkp<G>(opt_window_wnaf_exp<G, n>(encr<G>(s.P, m.r), bz<n>(v), ref::bits(v)), m.times(s, v), "M01.window-threshold:" + N, ref::hash(v), [&] { return ref::str(s.P) + " times " + hex(v); }); }
        mon::sample(N + " scalars around the order " + hex(m.q));
    }
};
int main(int argc, char **argv) {
    mon::init(argc, argv); init_all(); uint64_t c = 40 * mon::M().scale;
    recode<1>(c * 20); recode<2>(c * 10); recode<3>(c * 10); recode<4>(c * 10); recode<5>(c * 10); recode<6>(c * 5);
    X<alt_bn128_G1>().run(c); X<alt_bn128_G2>().run(c); X<bls12_381_G1>().run(c); X<bls12_381_G2>().run(c); X<edwards_G1>().run(c); X<edwards_G2>().run(c); X<mnt4_G1>().run(c); X<mnt4_G2>().run(c); X<mnt6_G1>().run(c); X<mnt6_G2>().run(c);
    return mon::finish();
}
