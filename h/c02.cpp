// C02: the multicore configuration. Whatever the team size, chunk count, list length and schedule, the parallel
// paths return the value the reference computes, and no two threads touch the same memory unsynchronised.
#define MON_MAIN
#include "mulpool.hpp"
#include "tsanwrap.hpp"
#include "omp_shim.hpp"
#include <libff/algebra/scalar_multiplication/multiexp.hpp>
#include <libff/common/profiling.hpp>
extern "C" void omp_set_num_threads(int);
#include <thread>
using namespace lb; using mon::M;
static uint64_t g_conf = 0; static std::set<std::string> g_confs;
static unsigned pick_threads(Rng &r) { static const unsigned T[] = {1, 2, 3, 4, 5, 7, 8, 11, 16}; unsigned t = T[r.below(9)]; omp_set_num_threads(t);
#ifdef OMP_SHIM
    shim::region_seed() = r.next(); shim::delay() = r.chance(1, 3) ? 200 : 0;
#endif
    return t; }
template<class G> struct X {
    typedef typename G::scalar_field S; MP<G> m; const std::string N; X() : m(6, 1), N(m.N) {}
    struct L { std::vector<G> v; std::vector<S> k; Pt w; std::string d; uint64_t h; bool special; };
    L list(size_t n, bool special) {
        Rng &r = m.r; L l; typename MP<G>::Acc a; l.h = n * 8 + special; l.special = special; unsigned style = r.below(6); const Z sp = m.q; auto fp = m.pick();
        for (size_t i = 0; i < n; ++i) { auto p = style == 3 ? fp : m.pick(); Z s = style == 0 ? Z(r.below(3)) : style == 1 ? Z(sp - 1 - mon::mpz_u64(r.below(3))) : style == 2 ? mon::mpz_u64(r.next() >> r.below(64)) : m.scalar(sp, ref::bits(sp)); s = ref::modp(s, sp); m.acc(a, p, s); l.v.push_back(special ? encs<G>(p.P) : encr<G>(p.P, r)); l.k.push_back(enc<S>(El{s})); l.h = l.h * 1000003 + ref::hash(p.P) + ref::hash(s); }
        l.w = m.total(a); l.d = std::to_string(n) + " pairs, style " + std::to_string(style); return l;
    }
    template<multi_exp_method ME> void me(const L &l, size_t chunks, unsigned T, const char *tag, bool mixed) {
        std::string d = std::string(tag) + (mixed ? " filtered " : " ") + l.d + ", " + std::to_string(chunks) + " chunks, " + std::to_string(T) + " threads"; info(d);
        G g = mixed ? multi_exp_with_mixed_addition<G, S, ME>(l.v.begin(), l.v.end(), l.k.begin(), l.k.end(), chunks) : multi_exp<G, S, ME>(l.v.begin(), l.v.end(), l.k.begin(), l.k.end(), chunks);
        g_confs.insert("multi_exp " + std::to_string(l.v.size()) + "/" + std::to_string(chunks) + "/" + std::to_string(T)); chkp<G>(g, l.w, std::string("C02.") + (mixed ? "filtered-" : "") + tag + ":" + N, l.h * 31 + chunks * 17 + T, [&] { return d; }, !l.v.empty());
    }
    void multi(size_t n, size_t chunks) {
        Rng &r = m.r; bool special = r.chance(1, 2); L l = list(n, special); unsigned T = pick_threads(r); at("C02.multi_exp:" + N);
#ifdef USE_MIXED_ADDITION
        if (special)
#endif
        me<multi_exp_method_BDLO12>(l, chunks, T, "BDLO12", false);
        me<multi_exp_method_bos_coster>(l, chunks, pick_threads(r), "bos_coster", false); if (n <= 12) { me<multi_exp_method_naive>(l, chunks, pick_threads(r), "naive", false); if (n <= 6) me<multi_exp_method_naive_plain>(l, chunks, T, "naive_plain", false); }
        if (special) { me<multi_exp_method_BDLO12>(l, chunks, pick_threads(r), "BDLO12", true); me<multi_exp_method_bos_coster>(l, chunks, pick_threads(r), "bos_coster", true); }
    }
    void batch(size_t n) {
        Rng &r = m.r; auto b = m.pick(); G g = encr<G>(b.P, r); const size_t B = ref::bits(m.q), w = 1 + r.below(4); unsigned T = pick_threads(r); std::string d = std::to_string(n) + " scalars, window " + std::to_string(w) + ", " + std::to_string(T) + " threads"; at("C02.batch_exp:" + N); info(d); const Z lim = m.q;
        window_table<G> tab = get_window_table<G>(B, w, g); std::vector<S> v; std::vector<Z> z; uint64_t h = n * 32 + T; for (size_t i = 0; i < n; ++i) { Z s = ref::modp(m.scalar(lim, B), m.q); z.push_back(s); v.push_back(enc<S>(El{s})); h = h * 1000003 + ref::hash(s); }
        g_confs.insert("batch_exp " + std::to_string(n) + "/" + std::to_string(w) + "/" + std::to_string(T));
        std::vector<G> o = batch_exp<G, S>(B, w, tab, v); expect(o.size() == n, "C02.batch_exp-size:" + N, h, [&] { return d; }); for (size_t i = 0; i < o.size() && i < n; ++i) chkp<G>(o[i], m.times(b, z[i]), "C02.batch_exp:" + N, h + i, [&] { return d + ", element " + std::to_string(i); }, z[i] != 0);
        Z cf = ref::modp(m.scalar(m.q, B), m.q); S c = enc<S>(El{cf}); T = pick_threads(r); o = batch_exp_with_coeff<G, S>(B, w, tab, c, v); expect(o.size() == n, "C02.batch_exp_with_coeff-size:" + N, h, [&] { return d; }); for (size_t i = 0; i < o.size() && i < n; ++i) chkp<G>(o[i], m.times(b, ref::modp(cf * z[i], m.q)), "C02.batch_exp_with_coeff:" + N, h + i, [&] { return d + ", element " + std::to_string(i) + " coefficient " + hex(cf); }, z[i] != 0);
        // special form of a long list
        std::vector<G> sp; std::vector<Pt> want; for (size_t i = 0; i < n; ++i) { Pt P = r.chance(1, 5) ? m.C.O() : m.pick().P; want.push_back(P); sp.push_back(encr<G>(P, r)); } batch_to_special<G>(sp); bool ok = sp.size() == n; for (size_t i = 0; ok && i < n; ++i) ok = samep(sp[i], want[i]) && sp[i].is_special(); expect(ok, "C02.batch_to_special:" + N, h, [&] { return d; }, n > 0);
    }
    void run(uint64_t c, unsigned maxn) {
        if (!mon::want(N)) return; Rng &r = m.r; static const size_t CH[] = {1, 2, 3, 4, 7, 8, 16, 17};
        for (size_t k = 0; k < 6; ++k) { size_t ch = CH[1 + r.below(7)]; multi(std::min<size_t>(maxn, k == 0 ? ch : k == 1 ? ch + 1 : k == 2 ? 2 * ch - 1 : k == 3 ? ch - 1 : ch + r.below(2 * ch)), ch); }
        for (uint64_t i = 0; i < c; ++i) { size_t n = r.below(maxn + 1); multi(n, r.chance(1, 2) ? CH[r.below(8)] : 1 + r.below(n + 2)); }
        for (uint64_t i = 0; i < c / 2 + 3; ++i) batch(i < 2 ? i : i == 2 ? 17 : r.below(maxn + 1));
    }
};
int main(int argc, char **argv) {
    mon::init(argc, argv);
#ifdef OMP_SHIM
    mon::gmp_fast();
#endif
    init_all(); const bool prof = M().arg.find("profile") != std::string::npos; const uint64_t c = 2 * M().scale; const unsigned mx = M().arg.find("small") != std::string::npos ? 9 : 24; Rng &r = rng();
    if (prof) { if (!freopen("/dev/null", "w", stdout)) return 2; inhibit_profiling_info = inhibit_profiling_counters = false; start_profiling(); }
    X<alt_bn128_G1>().run(c, mx); X<alt_bn128_G2>().run(c / 2, mx / 2); X<bls12_381_G1>().run(c, mx); X<bls12_381_G2>().run(c / 2, mx / 2); X<edwards_G1>().run(c, mx); X<edwards_G2>().run(c / 2, mx / 2); X<mnt4_G1>().run(c, mx); X<mnt4_G2>().run(c / 2, mx / 2); X<mnt6_G1>().run(c, mx); X<mnt6_G2>().run(c / 2, mx / 2);
    (void)r;
#ifdef OMP_SHIM
    auto &s = shim::stats(); M().events["parallel regions"] += s.regions; M().events["threads started in regions"] += s.threads; M().events["distinct orders in which the threads of a region finished"] += s.orders.size(); for (auto &x : s.sizes) M().events["regions with " + std::to_string(x.first) + " threads"] += x.second; { unsigned k = 0; for (auto &o : s.orders) if (o.size() > 3 && k++ % 40 == 0) mon::sample("finishing order " + o); }
#endif
    M().events["distinct (operation, length, chunks or window, threads) configurations"] += g_confs.size(); { unsigned k = 0; for (auto &x : g_confs) if (k++ % 60 == 0) mon::sample(x); }
    if (prof) inhibit_profiling_info = true;
    return mon::finish();
}
