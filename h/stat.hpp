// Statistical judges; PFX is the property prefix of the including harness.
#pragma once
#include "custom.hpp"
#include <cmath>
namespace lb {
// chi-square, judged by the Wilson-Hilferty normal approximation
struct Chi { std::vector<uint64_t> c; std::vector<double> p; uint64_t n = 0; Chi() {} explicit Chi(size_t k) : c(k), p(k, 1.0 / k) {} void add(size_t i) { ++c[i]; ++n; }
    double z() const { double x = 0; size_t df = 0; for (size_t i = 0; i < c.size(); ++i) { double e = p[i] * n; if (e < 1e-12) { if (c[i]) return 1e9; continue; } double d = c[i] - e; x += d * d / e; ++df; } if (df < 2) return 0; double k = 2.0 / (9.0 * (df - 1)); return (std::cbrt(x / (df - 1)) - (1 - k)) / std::sqrt(k); } };
#ifdef MON_SANITIZER
static const bool SLOW = true;
#else
static const bool SLOW = false;
#endif
static const double LIMIT = 7.0; // about 1e-12 per statistic
static void judge(const std::string &n, const std::string &what, const Chi &c) { at(PFX ".distribution:" + n); expect(c.z() < LIMIT, PFX ".distribution:" + n, mon::hs(what + std::to_string(M_PI * c.n)), [&] { std::string s = n + ": " + what + " over " + std::to_string(c.n) + " samples is off by " + std::to_string(c.z()) + " sigma; counts"; for (auto x : c.c) s += " " + std::to_string(x); return s.substr(0, 900); }); }
static double frac(const Z &a, const Z &b) { mpf_class x(a, 256), y(b, 256); mpf_class q(x / y, 256); return q.get_d(); }
// numbers below p: range, low bits, single bits, limbs against each other, each sample against the next
struct NumStat { std::string n, what; Z p; size_t bits; Chi hi, lo, nx; std::vector<uint64_t> ones; std::vector<Chi> limb; uint64_t cnt = 0; int prev = -1;
    NumStat(const std::string &n_, const std::string &w, const Z &p_) : n(n_), what(w), p(p_), bits(ref::bits(Z(p_ - 1))), hi(16), lo(16), nx(16), ones(bits) { size_t L = (bits + 63) / 64; for (size_t i = 0; i + 1 < L; ++i) limb.push_back(Chi(16)); for (int i = 0; i < 16; ++i) { hi.p[i] = frac(Z((p * (i + 1) + 15) / 16 - (p * i + 15) / 16), p); Z c = (p - i + 15) / 16; lo.p[i] = frac(c, p); } }
    void add(const Z &v) { if (v < 0 || v >= p) return; ++cnt; hi.add(Z(v * 16 / p).get_ui()); unsigned l = mpz_get_ui(v.get_mpz_t()); lo.add(l & 15); if (prev >= 0) nx.add((prev & 3) * 4 + (l & 3)); prev = l & 3; for (size_t i = 0; i < bits; ++i) ones[i] += ref::bit(v, i); for (size_t i = 0; i < limb.size(); ++i) { unsigned a = mon::u64_mpz(Z(v >> (64 * i))) >> 3 & 3, b = mon::u64_mpz(Z(v >> (64 * (i + 1)))) >> 1 & 3; if (bits > 64 * (i + 1) + 8) limb[i].add(a * 4 + b); } }
    void done() {
        judge(n, what + " by range", hi); if (p > 64) { judge(n, what + " low bits", lo); Chi x = nx; if (p > 100000) judge(n, what + " against the next sample", x); }
        for (size_t i = 0; i < bits; ++i) { Z per = cust::two(i + 1), full = p / per, rest = p - full * per, half = cust::two(i); Z c = full * half + (rest > half ? Z(rest - half) : Z(0)); double q = frac(c, p); Chi b(2); b.n = cnt; b.c[0] = ones[i]; b.c[1] = cnt - ones[i]; b.p[0] = q; b.p[1] = 1 - q; double sd = std::sqrt(cnt * q * (1 - q)), d = std::fabs(ones[i] - cnt * q); at(PFX ".bit:" + n); expect(d <= 8 * sd + 1e-6, PFX ".bit:" + n, mon::hs(what, i), [&] { return n + ": bit " + std::to_string(i) + " of " + what + " is set in " + std::to_string(ones[i]) + " of " + std::to_string(cnt) + " samples, expected " + std::to_string(cnt * q); }); }
        for (size_t i = 0; i < limb.size(); ++i) if (limb[i].n) judge(n, what + " limb " + std::to_string(i) + " against limb " + std::to_string(i + 1), limb[i]);
    } };
}
