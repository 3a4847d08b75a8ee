// R01: random sampling under scripted entropy, and its statistics.
#define MON_MAIN
#define PFX "R01"
#include "ser.hpp"
#include "stat.hpp"
#include <libff/common/double.hpp>
#include <cmath>
using namespace lb;
typedef std::vector<uint32_t> Script;
static mon::Entropy &E = mon::entropy();
static void push_limbs(Script &s, const Z &v, size_t words32) { for (size_t i = 0; i < words32; ++i) s.push_back((uint32_t)mon::u64_mpz(Z(v >> (32 * i)))); }
// entropy meant to upset a sampler of values below p held in w 32-bit words: the bounds, values beyond them, junk above the top bit, long runs of rejected values
static Script hostile_script(Rng &r, const Z &p, size_t w, int blocks) {
    Script s; Z top = cust::two(32 * w), pow2 = cust::two(ref::bits(p)), Rm = ref::modp(top, p);
    while (blocks-- > 0) { Z v; switch (r.below(14)) { case 0: v = 0; break; case 1: v = 1; break; case 2: v = p - 1; break; case 3: case 4: v = p; break; case 5: v = p + 1; break; case 6: v = top - 1; break; case 7: v = pow2 - 1; break; case 8: v = p + (top / pow2 > 1 ? pow2 * (1 + r.below(3)) : Z(0)); break; case 9: v = Rm; break; case 10: v = p - Rm; break; case 11: v = hostile_mod(r, p); break; case 12: v = hostile_bits(r, 32 * w); break; default: v = p + hostile_mod(r, Z(pow2 - p + 1)); }
        int rep = r.chance(1, 6) ? 2 + (int)r.below(40) : 1; while (rep--) { if (r.chance(1, 10)) { Script t; push_limbs(t, v, w); std::reverse(t.begin(), t.end()); s.insert(s.end(), t.begin(), t.end()); } else push_limbs(s, v, w); } if (r.chance(1, 30)) s.push_back((uint32_t)r.next()); }
    return s;
}
static std::string scr(const Script &s) { std::string o; char b[12]; for (size_t i = 0; i < s.size() && i < 60; ++i) { snprintf(b, 12, "%x,", s[i]); o += b; } return std::to_string(s.size()) + " words " + o; }
// how many entropy bits a sample depends on
template<class Gen> void influence(const std::string &n, const Z &size, Gen g, Rng &r, size_t stride = 1) { // g() -> key
    at("R01.depends-on-entropy:" + n); Script s; for (int i = 0; i < 2400; ++i) s.push_back((uint32_t)r.next()); auto run = [&](const Script &x) { E.set_script(x); uint64_t w = E.words; std::string k = g(); return std::make_pair(k, E.words - w); };
    auto a = run(s), b = run(s); if (a.first != b.first) { mon::M().notes["stateful:" + n] = "samples are not a function of the entropy alone"; return; } uint64_t nb = std::min<uint64_t>(a.second, 2400) * 32, inf = 0, tried = 0; size_t need = ref::bits(size) - 1;
    for (uint64_t i = 0; i < nb; i += stride) { Script t = s; t[i / 32] ^= 1u << (i % 32); ++tried; if (run(t).first != a.first) ++inf; } E.set_script({}); double want = (double)need / stride;
    expect(inf + (stride > 1 ? 0.12 * want + 8 : 0) >= want, "R01.depends-on-entropy:" + n, r.next(), [&] { return n + ": of " + std::to_string(tried) + " flipped entropy bits only " + std::to_string(inf) + " changed the sample; at least " + std::to_string(want) + " have to"; });
}
template<class Gen> void fresh(const std::string &n, const Z &size, Gen g, Rng &, int c) { // entropy used per sample; no repeats
    at("R01.fresh-entropy:" + n); E.set_script({}); uint64_t w = E.words; std::set<std::string> seen; for (int i = 0; i < c; ++i) seen.insert(g()); double used = (E.words - w) * 32.0 / c, need = (double)ref::bits(size) - 1; expect(used >= need, "R01.fresh-entropy:" + n, c, [&] { return n + ": " + std::to_string(used) + " bits of entropy per sample, " + std::to_string(need) + " needed"; });
    if (ref::bits(size) > 60) expect((int)seen.size() == c, "R01.no-repeats:" + n, c, [&] { return n + ": " + std::to_string(c - (int)seen.size()) + " repeated values in " + std::to_string(c) + " samples"; });
}
template<class T> bool RF_is_zero(const T &x) { for (auto &v : dec(x)) if (v != 0) return false; return true; }
template<class T> bool RF_is_one(const T &x) { El v = dec(x); for (size_t i = 0; i < v.size(); ++i) if (v[i] != (i == 0)) return false; return true; }
template<mp_size_t n, const bigint<n> &m> void reprs(const Fp_model<n, m> &x, std::vector<Z> &o) { o.push_back(zb<n>(x.mont_repr)); }
template<class T> auto reprs(const T &x, std::vector<Z> &o) -> decltype(x.c0, void()); 
template<class T> auto third(const T &x, std::vector<Z> &o, int) -> decltype(x.c2, void()) { reprs(x.c2, o); }
template<class T> void third(const T &, std::vector<Z> &, ...) {}
template<class T> auto reprs(const T &x, std::vector<Z> &o) -> decltype(x.c0, void()) { reprs(x.c0, o); reprs(x.c1, o); third(x, o, 0); }
template<class T, bool ext> void field(const Z &p, size_t words, uint64_t c) {
    const std::string n = V<T>::name(); if (!mon::want(n)) return; Rng &r = rng(); T probe; const size_t deg = sizeof(T) / (4 * words); Z size = 1; for (size_t i = 0; i < deg; ++i) size *= p; auto key = [](const T &x) { return V<T>::key(x); };
    for (uint64_t i = 0; i < 12 * c; ++i) { // scripted entropy
        if (i % 8 == 0) at("R01.valid:" + n); Script s = hostile_script(r, p, words, 1 + r.below(4 + deg)); info(scr(s)); auto ctx = [&] { return n + " with entropy " + scr(s); }; uint64_t h = mon::hash_bytes(s.data(), 4 * s.size());
        E.set_script(s); T x = T::random_element(); expect(canon(x), "R01.valid:" + n, h, [&] { return ctx() + ": " + show(x); });
        E.set_script(s); T y = i % 2 ? T::one() : T::zero(); y.randomize(); expect(canon(y), "R01.valid.randomize:" + n, h, [&] { return ctx() + ": " + show(y); });
        E.set_script(s); T a = random_element_non_zero<T>(); expect(canon(a) && !RF_is_zero(a), "R01.non-zero:" + n, h, [&] { return ctx() + ": " + show(a); });
        E.set_script(s); T b = random_element_non_zero_one<T>(); expect(canon(b) && !RF_is_zero(b) && !RF_is_one(b), "R01.non-zero-one:" + n, h, [&] { return ctx() + ": " + show(b); });
        E.set_script(s); T e = random_element_exclude<T>(x); expect(canon(e) && dec(e) != dec(x), "R01.exclude:" + n, h, [&] { return ctx() + " excluding " + show(x) + ": " + show(e); });
        // entropy steering the first draw to one: the internal form of one
        Script o; for (int k = 0; k < 3; ++k) { std::vector<Z> rp; T one = T::one(); reprs(one, rp); for (auto &v : rp) push_limbs(o, v, words); } for (int k = 0; k < 2; ++k) for (size_t j = 0; j < deg; ++j) push_limbs(o, Z(0), words); E.set_script(o); T u = random_element_non_zero_one<T>(); expect(canon(u) && !RF_is_zero(u) && !RF_is_one(u), "R01.non-zero-one:" + n, h + 1, [&] { return n + " with entropy for one and zero: " + show(u); });
    }
    E.set_script({}); const int N = (ext ? 700 : 3000) * (c > 4 ? 4 : 1) / (SLOW ? 4 : 1); std::vector<NumStat> sv, sm; for (size_t i = 0; i < deg; ++i) { sv.push_back(NumStat(n, "value, coordinate " + std::to_string(i), p)); sm.push_back(NumStat(n, "internal form, coordinate " + std::to_string(i), p)); } std::vector<Chi> pairs(deg * deg, Chi(16)); Chi full; if (!ext && p < 1000) { full = Chi(mpz_get_ui(p.get_mpz_t())); }
    at("R01.sample:" + n); for (int i = 0; i < N; ++i) { T x = T::random_element(); if (i == 0) mon::sample(n + " " + show(x)); El v = dec(x); std::vector<Z> m; reprs(x, m); for (size_t j = 0; j < deg; ++j) { sv[j].add(v[j]); sm[j].add(m[j]); for (size_t k = 0; k < j; ++k) pairs[j * deg + k].add((mpz_get_ui(m[j].get_mpz_t()) & 3) * 4 + (mpz_get_ui(m[k].get_mpz_t()) & 3)); } }
    if (full.c.size()) { for (int i = 0; i < 60000; ++i) full.add(mpz_get_ui(dec(T::random_element())[0].get_mpz_t()) % full.c.size()); judge(n, "every value", full); T ex = enc<T>(El{Z(77)}); Chi x(full.c.size()), y(full.c.size()), z(full.c.size()); for (int i = 0; i < 40000; ++i) { x.add(mpz_get_ui(dec(random_element_exclude<T>(ex))[0].get_mpz_t()) % full.c.size()); y.add(mpz_get_ui(dec(random_element_non_zero<T>())[0].get_mpz_t()) % full.c.size()); z.add(mpz_get_ui(dec(random_element_non_zero_one<T>())[0].get_mpz_t()) % full.c.size()); } for (size_t i = 0; i < full.c.size(); ++i) { x.p[i] = i == 77 ? 0 : 1.0 / (full.c.size() - 1); y.p[i] = i == 0 ? 0 : 1.0 / (full.c.size() - 1); z.p[i] = i < 2 ? 0 : 1.0 / (full.c.size() - 2); } judge(n, "every value but the excluded one", x); judge(n, "every value but zero", y); judge(n, "every value but zero and one", z); }
    for (auto &s : sv) s.done(); for (auto &s : sm) s.done(); if (p > 100000) for (size_t j = 0; j < deg; ++j) for (size_t k = 0; k < j; ++k) judge(n, "coordinates " + std::to_string(k) + " and " + std::to_string(j), pairs[j * deg + k]);
    influence(n, size, [&] { return key(T::random_element()); }, r, SLOW ? 5 : 1); fresh(n, size, [&] { return key(T::random_element()); }, r, SLOW ? 60 : 300);
}
template<class G> void binary(uint64_t c) {
    const std::string n = BinT<G>::name(); if (!mon::want(n)) return; Rng &r = rng(); const unsigned bits = BinT<G>::g().n; Z q = cust::two(bits); auto val = [](const G &x) { auto w = x.to_words(); Z v = 0; for (size_t i = w.size(); i--;) { v <<= 64; v += mon::mpz_u64(w[i]); } return v; };
    for (uint64_t i = 0; i < 20 * c; ++i) { if (i % 8 == 0) at("R01.constrained:" + n); Script s; for (int k = 0; k < 6; ++k) { Z v = r.chance(1, 3) ? Z(0) : r.chance(1, 3) ? Z(1) : r.chance(1, 3) ? Z(q - 1) : hostile_bits(r, bits); push_limbs(s, v, bits / 32); } uint64_t h = mon::hash_bytes(s.data(), 4 * s.size()); auto ctx = [&](const G &x) { return n + " with entropy " + scr(s) + ": " + val(x).get_str(16); };
        E.set_script(s); G x = G::random_element(); E.set_script(s); G a = random_element_non_zero<G>(); expect(val(a) != 0, "R01.non-zero:" + n, h, [&] { return ctx(a); }); E.set_script(s); G b = random_element_non_zero_one<G>(); expect(val(b) > 1, "R01.non-zero-one:" + n, h, [&] { return ctx(b); }); E.set_script(s); G e = random_element_exclude<G>(x); expect(val(e) != val(x), "R01.exclude:" + n, h, [&] { return ctx(e) + " excluding " + val(x).get_str(16); }); E.set_script(s); G y(1); y.randomize(); expect(val(y) < q, "R01.valid:" + n, h, [&] { return ctx(y); }); }
    E.set_script({}); for (int w = 0; w < 2; ++w) { NumStat st(n, w ? "randomize" : "random_element", q); at("R01.sample:" + n); G y(1); for (int i = 0; i < 4000; ++i) { if (w) { if (i % 2) y = G(5); y.randomize(); st.add(val(y)); } else st.add(val(G::random_element())); } st.done(); }
    influence(n, Z(2 * q - 1), [&] { return val(G::random_element()).get_str(16); }, r); fresh(n, q, [&] { return val(G::random_element()).get_str(16); }, r, 300);
}
template<mp_size_t N> void big(uint64_t) {
    const std::string n = "bigint<" + std::to_string(N) + ">"; if (!mon::want(n)) return; Rng &r = rng(); Z q = cust::two(64 * N); E.set_script({}); NumStat st(n, "randomize", q); at("R01.sample:" + n); bigint<N> b; for (int i = 0; i < 3000; ++i) { if (i % 3 == 0) b = bigint<N>(7ul); bigint<N> &ret = b.randomize(); expect(&ret == &b, "R01.returns-itself:" + n, i, [&] { return n; }); st.add(zb<N>(b)); } st.done();
    auto g = [&] { bigint<N> x; x.randomize(); return zb<N>(x).get_str(16); }; influence(n, Z(2 * q - 1), g, r); fresh(n, q, g, r, 300);
}
template<class G> void group(uint64_t c) {
    const std::string n = CI<G>::name(); if (!mon::want(n)) return; Rng &r = rng(); const Curve &C = CI<G>::C(); const Z &q = CI<G>::order(); const size_t w = 2 * ((ref::bits(q) + 63) / 64);
    for (uint64_t i = 0; i < 4 * c; ++i) { at("R01.valid:" + n); Script s = hostile_script(r, q, w, 1 + r.below(4)); info(scr(s)); E.set_script(s); G x = G::random_element(); bool ok; Pt P = decp(x, &ok); uint64_t h = mon::hash_bytes(s.data(), 4 * s.size()); auto ctx = [&] { return n + " with entropy " + scr(s) + ": " + showp(x); }; expect(ok && C.on(P), "R01.on-curve:" + n, h, ctx); if (i % 4 == 0 && ok && C.on(P)) { at("R01.subgroup:" + n); expect(C.isO(C.mul(P, q)), "R01.subgroup:" + n, h, ctx); } E.set_script(s); at("R01.exclude:" + n); G e = random_element_exclude<G>(x); bool ok2; Pt Q = decp(e, &ok2); expect(ok2 && C.on(Q) && !(Q == P), "R01.exclude:" + n, h, [&] { return ctx() + " excluded, got " + showp(e); }); E.set_script(s); G nz = random_element_non_zero<G>(); Pt R = decp(nz, &ok2); expect(ok2 && C.on(R) && !C.isO(R), "R01.non-zero:" + n, h, [&] { return ctx() + ", got " + showp(nz); }); }
    E.set_script({}); const int N = SLOW ? 100 : 500; Chi a(16), b(2), nx(16), hi(16); int prev = -1; for (int i = 0; i < N; ++i) { if (i % 32 == 0) at("R01.sample:" + n); bool ok; Pt P = decp(G::random_element(), &ok); if (!ok || C.isO(P)) continue; unsigned l = mpz_get_ui(P.x[0].get_mpz_t()); a.add(l & 15); b.add(mpz_get_ui(P.y[0].get_mpz_t()) & 1); hi.add(Z(P.x.back() * 16 / C.F->p).get_ui()); if (prev >= 0) nx.add(prev * 4 + (l & 3)); prev = l & 3; } judge(n, "x low bits", a); judge(n, "x range", hi); judge(n, "y parity", b); judge(n, "x against the next sample", nx);
    { // entropy for different scalars that agree in their low or high words, or up to sign, must not give the same point
        at("R01.no-collision:" + n); typedef typename G::scalar_field S; const int T = (SLOW ? 1 : 6) * (c > 4 ? 4 : 1);
        for (int t = 0; t < T; ++t) for (int shape = 0; shape < 8; ++shape) {
            Z v = ref::modp(hostile_mod(r, q), q), u; switch (shape) { case 0: u = v + cust::two(64); break; case 1: u = v + cust::two(32) * (1 + r.below(1000)); break; case 2: u = v + cust::two(128); break; case 3: u = q - v; break; case 4: u = v + cust::two(ref::bits(q) - 2); break; case 5: u = v + 1; break; case 6: u = v + cust::two(16); break; default: u = v + cust::two(192); }
            u = ref::modp(u, q); if (u == v) continue; auto script = [&](const Z &x) { std::vector<Z> m; reprs(enc<S>(El{x}), m); Script s; for (int k = 0; k < 3; ++k) push_limbs(s, m[0], w); return s; };
            E.set_script(script(v)); El sv = dec(S::random_element()); E.set_script(script(u)); El su = dec(S::random_element()); if (sv == su) continue;   // the scalar sampler itself sees no difference: judged elsewhere
            E.set_script(script(v)); Pt A = decp(G::random_element()); E.set_script(script(u)); Pt B = decp(G::random_element());
            expect(A != B, "R01.no-collision:" + n, mon::hash_bytes(v.get_str(16).data(), v.get_str(16).size()) + shape, [&] { return n + ": entropy that gives the scalars " + hex(sv[0]) + " and " + hex(su[0]) + " gives one point, " + ref::str(A); });
        } E.set_script({}); }
    auto g = [&] { return ref::str(decp(G::random_element())); }; influence(n, q, g, r, SLOW ? 29 : c > 4 ? 1 : 3); fresh(n, q, g, r, SLOW ? 20 : 100);
}
static void doubles() { at("R01.Double"); std::set<double> s; for (int i = 0; i < 2000; ++i) { Double x = Double::random_element(), e = random_element_exclude<Double>(x); expect(std::isfinite(x.val.real()) && std::isfinite(x.val.imag()), "R01.valid:Double", i, [&] { return std::to_string(x.val.real()); }); s.insert(x.val.real()); expect(!(e == x), "R01.exclude:Double", i, [&] { return std::to_string(e.val.real()); }); } expect(s.size() > 400, "R01.range:Double", 0, [&] { return std::to_string(s.size()) + " different values in 2000 samples"; }); }
int main(int argc, char **argv) {
    mon::init(argc, argv); init_all(); cust::init(); uint64_t c = mon::M().scale;
#define P1(T) field<T, false>(FI<T>::p(), sizeof(T) / 4, c);
    P1(alt_bn128_Fr) P1(alt_bn128_Fq) P1(bls12_381_Fr) P1(bls12_381_Fq) P1(edwards_Fr) P1(edwards_Fq) P1(mnt4_Fr) P1(mnt4_Fq) SER_CUST(P1)
#define PX(T, B) field<T, true>(RF<T>::f()->p, sizeof(B) / 4, c);
    PX(alt_bn128_Fq2, alt_bn128_Fq) PX(alt_bn128_Fq6, alt_bn128_Fq) PX(alt_bn128_Fq12, alt_bn128_Fq) PX(bls12_381_Fq2, bls12_381_Fq) PX(bls12_381_Fq6, bls12_381_Fq) PX(bls12_381_Fq12, bls12_381_Fq) PX(edwards_Fq3, edwards_Fq) PX(edwards_Fq6, edwards_Fq) PX(mnt4_Fq2, mnt4_Fq) PX(mnt4_Fq4, mnt4_Fq) PX(mnt6_Fq3, mnt4_Fr) PX(mnt6_Fq6, mnt4_Fr)
    binary<gf32>(c); binary<gf64>(c); binary<gf128>(c); binary<gf192>(c); binary<gf256>(c); big<1>(c); big<2>(c); big<3>(c); big<4>(c); big<5>(c); big<6>(c); big<12>(c); big<17>(c);
#define GX(T) group<T>(c);
    SER_GROUPS(GX) doubles();
    mon::M().notes["entropy_words"] = std::to_string(E.words); return mon::finish();
}
