// M03: fixed-base window tables.
#define MON_MAIN
#include "mulpool.hpp"
#include <libff/algebra/scalar_multiplication/multiexp.hpp>
using namespace lb;
template<class G> struct X {
    typedef typename G::scalar_field S; MP<G> m; const std::string &N; X() : m(8, 2), N(m.N) {}
    void table(size_t bits, size_t w, size_t count) {
        Rng &r = m.r; auto b = m.pick(); G g = encr<G>(b.P, r); std::string t = ref::str(b.P) + " scalar size " + std::to_string(bits) + " window " + std::to_string(w); at("M03:" + N); info(t); bool nt = !m.C.isO(b.P);
        window_table<G> tab = get_window_table<G>(bits, w, g); const Z lim = (Z(1) << bits) < m.q ? (Z(1) << bits) : m.q; uint64_t hb = ref::hash(b.P) * 31 + bits * 64 + w;
        auto sc = [&] { Z v = r.chance(1, 6) ? Z(lim - 1 - (r.chance(1, 2) ? 0 : 1)) : r.chance(1, 8) ? Z(Z(1) << r.below(bits)) : m.scalar(lim, bits); if (v < 0) v = 0; return Z(v % lim); };
        std::vector<S> v; std::vector<Z> z; for (size_t i = 0; i < count; ++i) { Z s = i == 0 ? Z(lim - 1) : i == 1 ? Z(0) : sc(); z.push_back(s); v.push_back(enc<S>(El{s})); }
        for (size_t i = 0; i < count; ++i) if (i < 4 || r.chance(1, 3)) { info(t + " scalar " + hex(z[i])); chkp<G>(windowed_exp<G, S>(bits, w, tab, v[i]), m.times(b, z[i]), "M03.windowed_exp:" + N, hb + ref::hash(z[i]), [&] { return t + " scalar " + hex(z[i]); }, nt && z[i] != 0); }
        std::vector<G> out = batch_exp<G, S>(bits, w, tab, v); expect(out.size() == count, "M03.batch_exp-size:" + N, hb + count, [&] { return t; });
        for (size_t i = 0; i < out.size() && i < count; ++i) chkp<G>(out[i], m.times(b, z[i]), "M03.batch_exp:" + N, hb + ref::hash(z[i]) + 5, [&] { return t + " element " + std::to_string(i) + " of " + std::to_string(count) + " scalar " + hex(z[i]); }, nt && z[i] != 0);
        // coefficient: the product of scalars must stay inside the declared size
        Z cf = ref::modp(m.scalar(m.q, ref::bits(m.q)), m.q); if (bits < ref::bits(m.q)) { Z mx = 0; for (auto &s : z) if (s > mx) mx = s; Z room = mx > 0 ? Z((lim - 1) / mx) : Z(lim - 1); cf = room > 0 ? Z(hostile_bits(r, bits) % (room + 1)) : Z(0); }
        S c = enc<S>(El{cf}); std::vector<G> oc = batch_exp_with_coeff<G, S>(bits, w, tab, c, v); expect(oc.size() == count, "M03.batch_exp_with_coeff-size:" + N, hb + count, [&] { return t; });
        for (size_t i = 0; i < oc.size() && i < count; ++i) { Z e = ref::modp(cf * z[i], m.q); chkp<G>(oc[i], m.times(b, e), "M03.batch_exp_with_coeff:" + N, hb + ref::hash(e) + 9, [&] { return t + " element " + std::to_string(i) + " coefficient " + hex(cf) + " scalar " + hex(z[i]); }, nt && e != 0); }
        expect(samep(g, b.P), "M03.base-unchanged:" + N, hb, [&] { return t; });
    }
    void special() {
        Rng &r = m.r; size_t n = r.chance(1, 3) ? r.below(4) : r.below(30); std::vector<G> v; std::vector<Pt> w; uint64_t h = n; unsigned zr = r.below(4); at("M03.batch_to_special:" + N);
        for (size_t i = 0; i < n; ++i) { Pt P = (zr == 3 || (zr && r.chance(1, 3))) ? m.C.O() : m.pick().P; w.push_back(P); v.push_back(encr<G>(P, r)); h = h * 31 + ref::hash(P); } info(std::to_string(n) + " points"); batch_to_special<G>(v);
        size_t bad = n; for (size_t i = 0; i < n && i < v.size(); ++i) if (!samep(v[i], w[i]) || !v[i].is_special() || !(v[i].is_zero() || dec(v[i].Z) == m.F->one())) { bad = i; break; }
        expect(v.size() == n && bad == n, "M03.batch_to_special:" + N, h, [&] { return "element " + std::to_string(bad) + " of " + std::to_string(n) + (bad < n ? ": " + showp(v[bad]) + " want " + ref::str(w[bad]) : ""); }, n > 0);
    }
    void run(uint64_t c) {
        if (!mon::want(N)) return; Rng &r = m.r; const size_t B = ref::bits(m.q); bool big = m.F->n > 1;
        for (size_t w = 1; w <= (big ? 9 : 11); ++w) table(B, w, big ? 3 : 5);
        if (!big) { table(B, 13, 3); table(30, 15, 3); } table(20, big ? 10 : 17, 3);
        for (size_t w = 1; w <= 6; ++w) for (size_t b : {(size_t)1, w, w + 1, 2 * w, 2 * w - 1}) table(b, w, 3);
        for (uint64_t i = 0; i < c; ++i) { size_t w = 1 + r.below(7), b = r.chance(1, 2) ? B : r.chance(1, 3) ? 1 + r.below(70) : r.chance(1, 2) ? w * (1 + r.below(20)) : 1 + r.below(B + 20); table(b, w, r.below(9)); }
        for (uint64_t i = 0; i < 4 * c + 4; ++i) special();
        at("M03.window:" + N); size_t prev = 0; for (size_t k = 0; k < 40; ++k) for (long d = -1; d <= 1; ++d) { size_t n = ((size_t)1 << k) + d; size_t w = get_exp_window_size<G>(n); expect(w >= 1 && w <= 24, "M03.window-size:" + N, n, [&] { return std::to_string(n) + " -> " + std::to_string(w); }); (void)prev; }
        // the recommended window is usable
        for (size_t n : {1, 5, 12, 40}) { size_t w = get_exp_window_size<G>(n); if (w <= 12) table(B, w, std::min<size_t>(n, 5)); }
        mon::sample(N + " windows 1..17");
    }
};
int main(int argc, char **argv) {
    mon::init(argc, argv); init_all(); uint64_t c = 6 * mon::M().scale;
    X<alt_bn128_G1>().run(c); X<alt_bn128_G2>().run(c / 2); X<bls12_381_G1>().run(c); X<bls12_381_G2>().run(c / 2); X<edwards_G1>().run(c); X<edwards_G2>().run(c / 2); X<mnt4_G1>().run(c); X<mnt4_G2>().run(c / 2); X<mnt6_G1>().run(c); X<mnt6_G2>().run(c / 2);
    return mon::finish();
}
