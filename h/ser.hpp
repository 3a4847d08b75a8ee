// Serialisable values: generation, decoding to a comparable key, reading and writing by type.
#pragma once
#include "curves.hpp"
#include "custom.hpp"
#include "gfref.hpp"
#include <sstream>
#include <map>
#include <set>
namespace lb {
#ifdef BINARY_OUTPUT
static const bool BIN = true;
#else
static const bool BIN = false;
#endif
#ifdef MONTGOMERY_OUTPUT
static const bool MONT = true;
#else
static const bool MONT = false;
#endif
#ifdef NO_PT_COMPRESSION
static const bool COMPR = false;
#else
static const bool COMPR = true;
#endif

// ---------------------------------------------------------------- roots of a cubic x^3 + a x + b over F_q (for points with a chosen y)
struct CubicRoots {
    const Field *F; El a, b; typedef std::vector<El> P; // low first
    P norm(P p) const { while (!p.empty() && F->is_zero(p.back())) p.pop_back(); return p; }
    P rem(P p, const P &m) const { El iv = F->inv(m.back()); for (p = norm(p); p.size() >= m.size(); p = norm(p)) { El c = F->mul(p.back(), iv); size_t o = p.size() - m.size(); for (size_t i = 0; i < m.size(); ++i) p[o + i] = F->sub(p[o + i], F->mul(c, m[i])); } return p; }
    P mulmod(const P &x, const P &y, const P &m) const { if (x.empty() || y.empty()) return P(); P r(x.size() + y.size() - 1, F->zero()); for (size_t i = 0; i < x.size(); ++i) for (size_t j = 0; j < y.size(); ++j) r[i + j] = F->add(r[i + j], F->mul(x[i], y[j])); return rem(r, m); }
    P powmod(const P &x, const Z &e, const P &m) const { P r{F->one()}; for (long i = (long)ref::bits(e) - 1; i >= 0; --i) { r = mulmod(r, r, m); if (ref::bit(e, i)) r = mulmod(r, x, m); } return r; }
    P gcd(P x, P y) const { x = norm(x); y = norm(y); while (!y.empty()) { P t = rem(x, y); x = y; y = t; } return x; }
    P sub(P x, const P &y) const { if (x.size() < y.size()) x.resize(y.size(), F->zero()); for (size_t i = 0; i < y.size(); ++i) x[i] = F->sub(x[i], y[i]); return norm(x); }
    bool root(El &out, Rng &r) const {
        P f{b, a, F->zero(), F->one()}, X{F->zero(), F->one()}; P h = gcd(f, sub(powmod(X, F->order(), f), X));
        for (int tries = 0; h.size() > 2 && tries < 40; ++tries) { P s{F->uniform(r), F->one()}; P g = gcd(h, sub(powmod(s, (F->order() - 1) / 2, h), P{F->one()})); if (g.size() > 1 && g.size() < h.size()) h = g; }
        if (h.size() != 2) return false; out = F->neg(F->mul(h[0], F->inv(h[1]))); return true;
    }
};
// a curve point with the given y, if there is one
inline bool lift_y(const Curve &C, const El &y, Pt &P, Rng &r) {
    const Field *F = C.F; El yy = F->sqr(y);
    if (C.edwards) { El d = F->sub(C.a, F->mul(C.b, yy)), n = F->sub(F->one(), yy); if (F->is_zero(d)) return false; El xx = F->mul(n, F->inv(d)); if (!F->is_square(xx)) return false; P = ref::mk(F->sqrt(xx), y); return C.on(P); }
    El x; if (!CubicRoots{F, C.a, F->sub(C.b, yy)}.root(x, r)) return false; P = ref::mk(x, y); return C.on(P);
}
// points whose y has a zero lowest coefficient, or is zero
template<class G> const std::vector<Pt> &odd_points() {
    static std::vector<Pt> v; static bool done = false; if (done) return v; done = true; const Curve &C = CI<G>::C(); const Field *F = C.F; Rng r(7);
    for (int i = 0; i < 24 && v.size() < 5; ++i) { El y = F->uniform(r); if (i == 0) y = F->zero(); else { y[0] = 0; if (F->n == 3 && i % 3 == 1) y[1] = 0; if (F->n == 3 && i % 3 == 2) y[2] = 0; if (F->n == 1) y[0] = Z(i); } Pt P; if (lift_y(C, y, P, r) && representable<G>(P)) v.push_back(r.chance(1, 2) ? P : C.neg(P)); }
    return v;
}
template<class G> const G *&gen_override() { static const G *g = nullptr; return g; } // a generator obtained elsewhere (I01: before any initialisation)
template<class G> Pool<G> &gpool() { static Pool<G> p(gen_override<G>() ? *gen_override<G>() : G::one(), rng(), 5, 4); return p; }

inline bool &few_points() { static bool b = false; return b; } // under valgrind: points that cost nothing to make
enum Sep { ALG, NUM, SELF }; // what has to follow the value in a stream: OUTPUT_NEWLINE, "\n", nothing
template<class T, class = void> struct V;
template<class T> struct VBase { static const Sep sep = ALG; static void w(std::ostream &o, const T &x) { o << x; } static void rd(std::istream &i, T &x) { i >> x; } };
// prime-field elements and extensions
template<class T> struct VF : VBase<T> { static T gen(Rng &r) { return enc<T>(hostile_el(RF<T>::f(), r)); } static std::string key(const T &x) { return canon(x) ? ref::str(dec(x)) : "NONCANONICAL " + ref::str(dec(x)); } };
#define SER_RF(T) template<> struct V<T> : VF<T> { static std::string name() { return RF<T>::name(); } };
SER_RF(alt_bn128_Fr) SER_RF(alt_bn128_Fq) SER_RF(alt_bn128_Fq2) SER_RF(alt_bn128_Fq6) SER_RF(alt_bn128_Fq12) SER_RF(bls12_381_Fr) SER_RF(bls12_381_Fq) SER_RF(bls12_381_Fq2) SER_RF(bls12_381_Fq6) SER_RF(bls12_381_Fq12)
SER_RF(edwards_Fr) SER_RF(edwards_Fq) SER_RF(edwards_Fq3) SER_RF(edwards_Fq6) SER_RF(mnt4_Fr) SER_RF(mnt4_Fq) SER_RF(mnt4_Fq2) SER_RF(mnt4_Fq4) SER_RF(mnt6_Fq3) SER_RF(mnt6_Fq6)
#define SER_CU(T) template<> struct V<cust::T> : VBase<cust::T> { static std::string name() { return FI<cust::T>::name(); } static cust::T gen(Rng &r) { return enc<cust::T>(El{hostile_mod(r, FI<cust::T>::p())}); } static std::string key(const cust::T &x) { return (canon(x) ? "" : "NONCANONICAL ") + ref::str(dec(x)); } };
SER_CU(F1a) SER_CU(F1b) SER_CU(F2) SER_CU(F3b) SER_CU(F5b) SER_CU(F8)
template<mp_size_t n> struct V<bigint<n>> : VBase<bigint<n>> { static std::string name() { return "bigint<" + std::to_string(n) + ">"; } static bigint<n> gen(Rng &r) { return bz<n>(r.chance(1, 8) ? Z(0) : hostile_bits(r, 64 * n)); } static std::string key(const bigint<n> &x) { return zb<n>(x).get_str(16); } };
#define SER_GF(T) template<> struct V<T> : VBase<T> { static std::string name() { return #T; } static T gen(Rng &r) { return gf<T>(BinT<T>::g().hostile(r)); } static std::string key(const T &x) { return BinT<T>::g().str(x.to_words()); } };
SER_GF(gf32) SER_GF(gf64) SER_GF(gf128) SER_GF(gf192) SER_GF(gf256)
template<class G> struct VG : VBase<G> {
    static std::string name() { return CI<G>::name(); }
    static Pt pt(Rng &r) { if (few_points()) { const Curve &C = CI<G>::C(); Pt g = decp(G::one()); switch (r.below(5)) { case 0: return C.O(); case 1: return C.neg(g); case 2: return C.add(g, g); default: return g; } } auto &p = gpool<G>(); unsigned k = r.below(10); if (k == 0) return p.C.O(); if (k == 1 && !odd_points<G>().empty()) return r.pick(odd_points<G>()); Pt P; if (k <= 4) P = r.pick(p.off); else if (k <= 6) P = p.fresh(r).first; else P = r.pick(p.sub).first; return representable<G>(P) ? P : p.C.O(); }
    static G gen(Rng &r) { return encr<G>(pt(r), r); }
    static std::string key(const G &x) { bool ok; Pt P = decp(x, &ok); return (ok ? "" : "INVALID ") + ref::str(P); }
};
#define SER_G(T) template<> struct V<T> : VG<T> {};
SER_G(alt_bn128_G1) SER_G(alt_bn128_G2) SER_G(bls12_381_G1) SER_G(bls12_381_G2) SER_G(edwards_G1) SER_G(edwards_G2) SER_G(mnt4_G1) SER_G(mnt4_G2) SER_G(mnt6_G1) SER_G(mnt6_G2)
// precomputed data: every member, of arbitrary contents
struct KeyV { std::string s; template<class T> void operator()(const T &x) { s += V<T>::key(x) + ";"; } };
struct GenV { Rng &r; template<class T> void operator()(T &x) { x = V<T>::gen(r); } };
#define SER_PRE(T, S, ...) template<> struct V<T> : VBase<T> { static const Sep sep = S; static std::string name() { return #T; } template<class X, class Fn> static void each(X &x, Fn &f) { __VA_ARGS__; } static T gen(Rng &r) { T x; GenV g{r}; each(x, g); return x; } static std::string key(const T &x) { KeyV k; each(x, k); return k.s; } };
template<class T> struct V<std::vector<T>> {
    static const Sep sep = SELF; static std::string name() { return "vector<" + V<T>::name() + ">"; } static void w(std::ostream &o, const std::vector<T> &x) { o << x; } static void rd(std::istream &i, std::vector<T> &x) { i >> x; }
    static std::vector<T> gen(Rng &r) { std::vector<T> v; size_t n = r.chance(1, 4) ? 0 : r.chance(1, 12) ? 11 : 1 + r.below(4); for (size_t i = 0; i < n; ++i) v.push_back(V<T>::gen(r)); return v; }
    static std::string key(const std::vector<T> &x) { std::string s = "[" + std::to_string(x.size()) + ":"; for (auto &e : x) s += V<T>::key(e) + ","; return s + "]"; }
};
#define F(m) f(x.m)
SER_PRE(alt_bn128_ate_G1_precomp, ALG, F(PX); F(PY)) SER_PRE(alt_bn128_ate_ell_coeffs, ALG, F(ell_0); F(ell_VW); F(ell_VV)) SER_PRE(alt_bn128_ate_G2_precomp, SELF, F(QX); F(QY); F(coeffs))
SER_PRE(bls12_381_ate_G1_precomp, ALG, F(PX); F(PY)) SER_PRE(bls12_381_ate_ell_coeffs, ALG, F(ell_0); F(ell_VW); F(ell_VV)) SER_PRE(bls12_381_ate_G2_precomp, SELF, F(QX); F(QY); F(coeffs))
SER_PRE(edwards_Fq_conic_coefficients, ALG, F(c_ZZ); F(c_XY); F(c_XZ)) SER_PRE(edwards_Fq3_conic_coefficients, ALG, F(c_ZZ); F(c_XY); F(c_XZ)) SER_PRE(edwards_tate_G2_precomp, ALG, F(y0); F(eta)) SER_PRE(edwards_ate_G1_precomp, ALG, F(P_XY); F(P_XZ); F(P_ZZplusYZ))
SER_PRE(mnt4_ate_G1_precomp, ALG, F(PX); F(PY); F(PX_twist); F(PY_twist)) SER_PRE(mnt4_ate_dbl_coeffs, ALG, F(c_H); F(c_4C); F(c_J); F(c_L)) SER_PRE(mnt4_ate_add_coeffs, ALG, F(c_L1); F(c_RZ)) SER_PRE(mnt4_ate_G2_precomp, SELF, F(QX); F(QY); F(QY2); F(QX_over_twist); F(QY_over_twist); F(dbl_coeffs); F(add_coeffs))
SER_PRE(mnt6_ate_G1_precomp, ALG, F(PX); F(PY); F(PX_twist); F(PY_twist)) SER_PRE(mnt6_ate_dbl_coeffs, ALG, F(c_H); F(c_4C); F(c_J); F(c_L)) SER_PRE(mnt6_ate_add_coeffs, ALG, F(c_L1); F(c_RZ)) SER_PRE(mnt6_ate_G2_precomp, SELF, F(QX); F(QY); F(QY2); F(QX_over_twist); F(QY_over_twist); F(dbl_coeffs); F(add_coeffs))
#undef F
// plain integers, booleans
template<> struct V<size_t> : VBase<size_t> { static const Sep sep = NUM; static std::string name() { return "size_t"; } static size_t gen(Rng &r) { return r.next() >> r.below(64); } static std::string key(size_t x) { return std::to_string(x); } };
template<> struct V<long> : VBase<long> { static const Sep sep = NUM; static std::string name() { return "long"; } static long gen(Rng &r) { long v = (long)(r.next() >> r.below(64)); return r.chance(1, 2) ? v : ~v; } static std::string key(long x) { return std::to_string(x); } };
template<> struct V<int> : VBase<int> { static const Sep sep = NUM; static std::string name() { return "int"; } static int gen(Rng &r) { return (int)(r.next() >> (32 + r.below(32))); } static std::string key(int x) { return std::to_string(x); } };
template<> struct V<bool> { static const Sep sep = SELF; static std::string name() { return "bool"; } static void w(std::ostream &o, bool x) { output_bool(o, x); } static void rd(std::istream &i, bool &x) { input_bool(i, x); } static bool gen(Rng &r) { return r.chance(1, 2); } static std::string key(bool x) { return x ? "t" : "f"; } };
template<> struct V<std::vector<bool>> { typedef std::vector<bool> T; static const Sep sep = SELF; static std::string name() { return "vector<bool>"; } static void w(std::ostream &o, const T &x) { output_bool_vector(o, x); } static void rd(std::istream &i, T &x) { input_bool_vector(i, x); } static T gen(Rng &r) { T v(r.chance(1, 4) ? 0 : r.below(140)); for (size_t i = 0; i < v.size(); ++i) v[i] = r.chance(1, 2); return v; } static std::string key(const T &x) { std::string s = "["; for (bool b : x) s += b ? '1' : '0'; return s + "]"; } };
// sets and maps (keys with an order: integers and big integers)
template<class T> struct V<std::set<T>> : VBase<std::set<T>> { static const Sep sep = SELF; static std::string name() { return "set<" + V<T>::name() + ">"; } static std::set<T> gen(Rng &r) { std::set<T> s; size_t n = r.chance(1, 4) ? 0 : r.below(6); for (size_t i = 0; i < n; ++i) s.insert(V<T>::gen(r)); return s; } static std::string key(const std::set<T> &x) { std::string s = "{" + std::to_string(x.size()) + ":"; for (auto &e : x) s += V<T>::key(e) + ","; return s + "}"; } };
template<class A, class B> struct V<std::map<A, B>> : VBase<std::map<A, B>> { typedef std::map<A, B> T; static const Sep sep = SELF; static std::string name() { return "map<" + V<A>::name() + "," + V<B>::name() + ">"; } static T gen(Rng &r) { T m; size_t n = r.chance(1, 4) ? 0 : r.below(5); for (size_t i = 0; i < n; ++i) { A k = V<A>::gen(r); m[k] = V<B>::gen(r); } return m; } static std::string key(const T &x) { std::string s = "{" + std::to_string(x.size()) + ":"; for (auto &e : x) s += V<A>::key(e.first) + "=>" + V<B>::key(e.second) + ","; return s + "}"; } };

inline std::string hexs(const std::string &s) { std::string o; char b[4]; for (unsigned char c : s) { if (c > 32 && c < 127) o += c; else { snprintf(b, 4, "~%02x", c); o += b; } if (o.size() > 400) { o += "..."; break; } } return o; }
#define SER_FIELDS(X) X(alt_bn128_Fr) X(alt_bn128_Fq) X(alt_bn128_Fq2) X(alt_bn128_Fq6) X(alt_bn128_Fq12) X(bls12_381_Fr) X(bls12_381_Fq) X(bls12_381_Fq2) X(bls12_381_Fq6) X(bls12_381_Fq12) X(edwards_Fr) X(edwards_Fq) X(edwards_Fq3) X(edwards_Fq6) X(mnt4_Fr) X(mnt4_Fq) X(mnt4_Fq2) X(mnt4_Fq4) X(mnt6_Fq3) X(mnt6_Fq6)
#define SER_CUST(X) X(cust::F1a) X(cust::F1b) X(cust::F2) X(cust::F3b) X(cust::F5b) X(cust::F8)
#define SER_GFS(X) X(gf32) X(gf64) X(gf128) X(gf192) X(gf256)
#define SER_BIG(X) X(bigint<1>) X(bigint<2>) X(bigint<4>) X(bigint<5>) X(bigint<6>) X(bigint<12>)
#define SER_GROUPS(X) X(alt_bn128_G1) X(alt_bn128_G2) X(bls12_381_G1) X(bls12_381_G2) X(edwards_G1) X(edwards_G2) X(mnt4_G1) X(mnt4_G2) X(mnt6_G1) X(mnt6_G2)
#define SER_PRECOMP(X) X(alt_bn128_ate_G1_precomp) X(alt_bn128_ate_ell_coeffs) X(alt_bn128_ate_G2_precomp) X(bls12_381_ate_G1_precomp) X(bls12_381_ate_ell_coeffs) X(bls12_381_ate_G2_precomp) X(edwards_Fq_conic_coefficients) X(edwards_Fq3_conic_coefficients) X(edwards_tate_G1_precomp) X(edwards_ate_G2_precomp) X(edwards_tate_G2_precomp) X(edwards_ate_G1_precomp) X(mnt4_ate_G1_precomp) X(mnt4_ate_dbl_coeffs) X(mnt4_ate_add_coeffs) X(mnt4_ate_G2_precomp) X(mnt6_ate_G1_precomp) X(mnt6_ate_dbl_coeffs) X(mnt6_ate_add_coeffs) X(mnt6_ate_G2_precomp)
typedef std::map<size_t, alt_bn128_Fr> M1; typedef std::map<long, edwards_G1> M2; typedef std::map<bigint<4>, bls12_381_G2> M3; typedef std::map<size_t, std::vector<alt_bn128_G1>> M4; typedef std::map<bigint<1>, mnt6_Fq3> M5; typedef std::map<size_t, std::map<long, alt_bn128_Fq2>> M6; typedef std::map<long, size_t> M7; typedef std::map<size_t, gf128> M8; typedef std::map<bigint<2>, std::vector<alt_bn128_Fq2>> M9;
#define SER_MAPS(X) X(std::set<size_t>) X(std::set<long>) X(std::set<bigint<4>>) X(std::set<bigint<1>>) X(M1) X(M2) X(M3) X(M4) X(M5) X(M6) X(M7) X(M8) X(M9)
#define SER_NEST(X) X(std::vector<std::vector<alt_bn128_Fr>>) X(std::vector<std::vector<alt_bn128_Fq2>>) X(std::vector<std::vector<mnt4_G1>>) X(std::vector<std::vector<bls12_381_G2>>) X(std::vector<std::vector<std::vector<edwards_Fr>>>) X(std::vector<std::set<size_t>>) X(std::vector<M1>) X(std::vector<std::vector<edwards_G1>>)
#define SER_INTV(X) X(std::vector<size_t>) X(std::vector<long>) X(std::vector<int>)
}
