// S01: write/read round trips of every serialisable type.
#define MON_MAIN
#include "ser.hpp"
using namespace lb;
template<class T> std::string put(const T &x) { std::ostringstream o; V<T>::w(o, x); return o.str(); }
template<class T> struct Eq { template<class U> static auto f(const U &a, const U &b, int) -> decltype(bool(a == b)) { return a == b; } template<class U> static bool f(const U &, const U &, ...) { return true; } };
template<class T> void one(const T &x, Rng &r) {
    typedef V<T> S; const std::string n = S::name(), k = S::key(x); info(n + " " + k); std::string b = put(x); uint64_t h = mon::hs(k); auto ctx = [&] { return k + " written as " + hexs(b); }; bool nt = true;
    expect(S::key(x) == k, "S01.written-object-unchanged:" + n, h, ctx, nt);
    for (int t = 0; t < 2; ++t) { // into a fresh object, and over another one
        std::istringstream i(b); T y; if (t) y = S::gen(r); S::rd(i, y); std::string ky = S::key(y); std::string b2 = put(y); auto c2 = [&] { return ctx() + (t ? " read over another value: " : " read back: ") + ky + ", rewritten as " + hexs(b2); };
        expect(!i.fail() && ky == k, "S01.round-trip:" + n, h, c2, nt); expect(b2 == b, "S01.rewrite-identical:" + n, h, c2, nt); expect(Eq<T>::template f<T>(x, y, 0), "S01.library-equality:" + n, h, c2, nt);
    }
}
template<class T> void type(uint64_t c) { if (!mon::want(V<T>::name())) return; Rng &r = rng(); const std::string n = V<T>::name(); for (uint64_t i = 0; i < c; ++i) { if (i % 8 == 0) at("S01:" + n); one<T>(V<T>::gen(r), r); } mon::sample(n + " " + V<T>::key(V<T>::gen(r)).substr(0, 200)); }
template<class T> void reser(uint64_t c) { Rng &r = rng(); const std::string n = V<T>::name(); at("S01.reserialize:" + n); for (uint64_t i = 0; i < c; ++i) { T x = V<T>::gen(r); std::string k = V<T>::key(x); expect(V<T>::key(reserialize<T>(x)) == k, "S01.reserialize:" + n, mon::hs(k), [&] { return k; }); } }
// points: one written form per point
template<class G> void forms(uint64_t c) {
    if (!mon::want(CI<G>::name())) return; Rng &r = rng(); const std::string n = CI<G>::name(); at("S01.forms:" + n);
    for (const Pt &P : odd_points<G>()) for (int s = 0; s < 2; ++s) { Pt Q = s ? CI<G>::C().neg(P) : P; if (!representable<G>(Q)) continue; one<G>(encr<G>(Q, r), r); }
    for (uint64_t i = 0; i < c; ++i) {
        Pt P = VG<G>::pt(r); G a = encs<G>(P), b = encr<G>(P, r); info(ref::str(P)); uint64_t h = ref::hash(P); std::string s = put(a), t = put(b); bool n1 = !CI<G>::C().isO(P); expect(s == t, "S01.representation-independent:" + n, h, [&] { return ref::str(P) + ": " + hexs(s) + " / " + hexs(t); }, n1);
        Pt Q = r.chance(1, 2) ? CI<G>::C().neg(P) : VG<G>::pt(r); if (Q != P && representable<G>(Q)) expect(put(encr<G>(Q, r)) != s, "S01.distinct-points-distinct-forms:" + n, h, [&] { return ref::str(P) + " and " + ref::str(Q) + ": " + hexs(s); }, n1);
        if (i % 4 == 0) { std::vector<G> v; for (unsigned j = r.below(4); j--; ) v.push_back(V<G>::gen(r)); v.push_back(b); one<std::vector<G>>(v, r); }
    }
}
// the documented written form: decimal, or the raw limbs, of the value or of its internal form
template<class T> void documented(uint64_t c) {
    Rng &r = rng(); const std::string n = V<T>::name(); if (!mon::want(n)) return; at("S01.documented-form:" + n); const Z p = FI<T>::p(); const size_t L = sizeof(T) / 8;
    for (uint64_t i = 0; i < c; ++i) { Z v = hostile_mod(r, p); T x = enc<T>(El{v}); Z w = v; if (MONT) w = ref::modp(v * cust::two(64 * L), p); std::string e; if (BIN) { e.resize(8 * L); for (size_t j = 0; j < 8 * L; ++j) { Z t = w >> (8 * j); e[j] = (char)(mpz_get_ui(t.get_mpz_t()) & 255); } } else e = w.get_str(); std::string g = put(x); expect(g == e, "S01.documented-form:" + n, ref::hash(v), [&] { return mon::hex(v) + " written as " + hexs(g) + ", expected " + hexs(e); }, v != 0); }
}
int main(int argc, char **argv) {
    mon::init(argc, argv); init_all(); cust::init(); uint64_t c = 10 * mon::M().scale;
#define T1(T) type<T>(c);
#define T2(T) type<T>(c / 2 + 1);
#define TV(T) type<std::vector<T>>(c / 3 + 1);
    SER_FIELDS(T1) SER_CUST(T1) SER_GFS(T1) SER_BIG(T1) SER_PRECOMP(T2) SER_MAPS(T1) T1(bool) T1(std::vector<bool>) T1(size_t) T1(long)
#define TG(T) type<T>(c / 4 + 1); forms<T>(c / 4 + 1);
    SER_GROUPS(TG) SER_FIELDS(TV) SER_CUST(TV) SER_GFS(TV) SER_BIG(TV) SER_GROUPS(TV) SER_NEST(TV) SER_INTV(T1)
    TV(alt_bn128_ate_ell_coeffs) TV(mnt4_ate_G1_precomp) TV(mnt6_ate_dbl_coeffs) TV(bls12_381_ate_G2_precomp) TV(edwards_ate_G1_precomp)
#define TD(T) documented<T>(c);
    TD(alt_bn128_Fr) TD(alt_bn128_Fq) TD(bls12_381_Fr) TD(bls12_381_Fq) TD(edwards_Fr) TD(edwards_Fq) TD(mnt4_Fr) TD(mnt4_Fq) SER_CUST(TD)
#define TR(T) reser<T>(c / 4 + 1);
    TR(alt_bn128_Fr) TR(mnt6_Fq3) TR(edwards_G1) TR(alt_bn128_G2) TR(mnt4_G1) TR(gf192) TR(std::vector<bls12_381_Fr>) TR(bigint<5>)
    mon::M().notes["configuration"] = std::string(BIN ? "binary" : "text") + (MONT ? ",internal" : ",plain") + (COMPR ? ",compressed" : ",uncompressed");
    return mon::finish();
}
