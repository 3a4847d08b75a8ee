// Reference GF(2^n): bit-serial carry-less product, then long division by the documented polynomial.
#pragma once
#include "lib.hpp"
namespace lb {
struct GF {
    int n; std::vector<int> taps; // x^n = sum x^taps
    typedef std::vector<uint64_t> W;
    W fromz(const Z &v) const { W w((n + 63) / 64); for (size_t i = 0; i < w.size(); ++i) w[i] = mon::u64_mpz(Z(v >> (64 * i))); return w; }
    W one() const { return fromz(Z(1)); }
    W zero() const { return fromz(Z(0)); }
    bool is_zero(const W &a) const { for (auto x : a) if (x) return false; return true; }
    W add(const W &a, const W &b) const { W r(a); for (size_t i = 0; i < r.size(); ++i) r[i] ^= b[i]; return r; }
    W mul(const W &a, const W &b) const {
        std::vector<uint64_t> t(2 * a.size() + 1);
        for (int i = 0; i < n; ++i) if (a[i / 64] >> (i % 64) & 1) for (size_t j = 0; j < b.size(); ++j) { int s = i % 64; t[i / 64 + j] ^= b[j] << s; if (s) t[i / 64 + j + 1] ^= b[j] >> (64 - s); }
        for (int i = 2 * n - 2; i >= n; --i) if (t[i / 64] >> (i % 64) & 1) { t[i / 64] ^= 1ULL << (i % 64); for (int k : taps) { int q = i - n + k; t[q / 64] ^= 1ULL << (q % 64); } }
        t.resize(a.size()); return t;
    }
    W pow(const W &a, const Z &e) const { W r = one(); for (long i = (long)ref::bits(e) - 1; i >= 0; --i) { r = mul(r, r); if (ref::bit(e, i)) r = mul(r, a); } return r; }
    W inv(const W &a) const { Z e; mpz_setbit(e.get_mpz_t(), n); return pow(a, e - 2); }
    std::string str(const W &a) const { std::string s = "0x"; char b[20]; for (size_t i = a.size(); i--;) { snprintf(b, 20, "%016lx", a[i]); s += b; } return s; }
    uint64_t hash(const W &a) const { return mon::hash_bytes(a.data(), a.size() * 8); }
    W hostile(Rng &r) const {
        if (r.chance(1, 6)) { // powers of x near the reduction boundaries, sparse and top-heavy patterns
            Z v; unsigned k = 1 + r.below(4); for (unsigned i = 0; i < k; ++i) mpz_setbit(v.get_mpz_t(), n - 1 - r.below(r.chance(1, 2) ? 12 : n)); return fromz(v);
        }
        return fromz(hostile_bits(r, n));
    }
};
template<class G> struct BinT;
#define LB_GT(T, N, ...) template<> struct BinT<T> { static const char *name() { return #T; } static const GF &g() { static GF x{N, {__VA_ARGS__}}; return x; } };
LB_GT(gf32, 32, 22, 2, 1, 0) LB_GT(gf64, 64, 4, 3, 1, 0) LB_GT(gf128, 128, 7, 2, 1, 0) LB_GT(gf192, 192, 7, 2, 1, 0) LB_GT(gf256, 256, 10, 5, 2, 0)
inline gf32 mkgf(const gf32 &, const GF::W &w) { return gf32((uint32_t)w[0]); }
inline gf64 mkgf(const gf64 &, const GF::W &w) { return gf64(w[0]); }
inline gf128 mkgf(const gf128 &, const GF::W &w) { return gf128(w[1], w[0]); }
inline gf192 mkgf(const gf192 &, const GF::W &w) { return gf192(w[2], w[1], w[0]); }
inline gf256 mkgf(const gf256 &, const GF::W &w) { return gf256(w[3], w[2], w[1], w[0]); }
template<class G> G gf(const GF::W &w) { return mkgf(G(), w); }
template<class G> bool gchk(const G &got, const GF::W &want, const char *op, const GF::W &a, const GF::W &b, const char *P = "F06") {
    const GF &f = BinT<G>::g(); GF::W w = got.to_words();
    return expect(w == want, std::string(P) + "." + op + ":" + BinT<G>::name(), f.hash(a) * 31 + f.hash(b), [&] { return std::string(op) + " a=" + f.str(a) + " b=" + f.str(b) + " got " + f.str(w) + " want " + f.str(want); }, !f.is_zero(a) && !f.is_zero(b));
}
}
