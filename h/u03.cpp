// U03: the complex-number domain type against long-double complex arithmetic.
#define MON_MAIN
#include "lib.hpp"
#include <libff/algebra/field_utils/field_utils.hpp>
#include <libff/algebra/field_utils/algorithms.hpp>
#include <cmath>
using namespace lb;
typedef std::complex<long double> LD;
static LD ld(const Double &d) { return LD(d.val.real(), d.val.imag()); }
static std::string S(const Double &d) { char b[80]; snprintf(b, 80, "(%.12g,%.12g)", d.val.real(), d.val.imag()); return b; }
static uint64_t H(const Double &d) { return mon::hash_bytes(&d.val, sizeof d.val); }
static double num(Rng &r) {
    switch (r.below(9)) { case 0: return 0; case 1: return (double)(long)r.below(7) - 3; case 2: return 0.5; case 3: return std::ldexp(1.0, (int)r.below(20) - 10) * (r.chance(1, 2) ? 1 : -1); case 4: return -1; case 5: return -0.0; default: return ((double)(r.next() >> 11) / 9007199254740992.0 - 0.5) * 2000; }
}
static bool near(LD a, LD b) { long double s = std::abs(b) + 1; return std::abs(a - b) <= 1e-9L * s && a.real() == a.real() && a.imag() == a.imag(); }
int main(int argc, char **argv) {
    mon::init(argc, argv); quiet(); Rng &r = rng(); const int K = 4000 * mon::M().scale;
    auto c = [&](const Double &g, LD w, const char *op, uint64_t h, const std::string &ctx) { expect(near(ld(g), w), std::string("U03.") + op, h, [&] { return std::string(op) + " " + ctx + " -> " + S(g); }); };
    at("U03.constants"); c(Double(), LD(0), "default", 1, ""); c(Double::zero(), LD(0), "zero", 1, ""); c(Double::one(), LD(1), "one", 1, ""); c(Double(2.5), LD(2.5), "real", 1, ""); c(Double(1.5, -2), LD(1.5L, -2), "parts", 1, ""); c(Double(std::complex<double>(3, 4)), LD(3, 4), "complex", 1, "");
    c(Double::geometric_generator(), LD(2), "geometric", 1, ""); c(Double::arithmetic_generator(), LD(1), "arithmetic", 1, "");
    for (int i = 0; i < K; ++i) {
        if (i % 64 == 0) at("U03.arith");
        Double a(num(r), r.chance(1, 3) ? 0 : num(r)), b(num(r), r.chance(1, 3) ? 0 : num(r)); if (r.chance(1, 10)) b = a; if (r.chance(1, 12)) b = -a;
        LD x = ld(a), y = ld(b); std::string t = S(a) + " " + S(b); info(t); uint64_t h = H(a) * 31 + H(b);
        c(a + b, x + y, "add", h, t); c(a - b, x - y, "sub", h, t); c(a * b, x * y, "mul", h, t); c(-a, -x, "neg", h, t); c(a.squared(), x * x, "squared", h, t);
        { Double z = a; Double &q = z += b; c(z, x + y, "add-assign", h, t); c(q, x + y, "add-assign-ref", h, t); } { Double z = a; z -= b; c(z, x - y, "sub-assign", h, t); } { Double z = a; z *= b; c(z, x * y, "mul-assign", h, t); } { Double z = a; z *= z; c(z, x * x, "mul-self", h, t); }
        c(a, x, "const-operand", h, t);
        if (std::abs(x) > 1e-3L) { c(a.inverse(), LD(1) / x, "inverse", h, t); c(a * a.inverse(), LD(1), "inverse-product", h, t); }
        // tolerance: equal iff both parts differ by less than 1e-6
        long double dr = std::abs(x.real() - y.real()), di = std::abs(x.imag() - y.imag());
        auto eqs = [&](const Double &p, const Double &q, bool want) { expect((p == q) == want && (p != q) == !want, "U03.equality", H(p) * 7 + H(q), [&] { return S(p) + " vs " + S(q); }); };
        if (!(dr > 0.9e-6L && dr < 1.1e-6L) && !(di > 0.9e-6L && di < 1.1e-6L)) eqs(a, b, dr < 1e-6L && di < 1e-6L);
        { Double n = a; n.val += std::complex<double>(r.chance(1, 2) ? 4e-7 : -4e-7, r.chance(1, 2) ? 4e-7 : -4e-7); eqs(a, n, true); eqs(n, a, true); Double f = a; f.val += std::complex<double>(r.chance(1, 2) ? 3e-6 : -3e-6, 0); eqs(a, f, false); Double g = a; g.val += std::complex<double>(0, r.chance(1, 2) ? 3e-6 : -3e-6); eqs(a, g, false); }
        if (dr > 0) expect((a < b) == (x.real() < y.real()) && (a > b) == (x.real() > y.real()) && !(a < a) && !(a > a), "U03.order", h, [&] { return t; });
        // powers: |base| about 1 for large exponents
        size_t e = r.chance(1, 3) ? r.below(8) : r.below(4096); long double ang = 6.283185307179586476925286766559L * (long double)(r.next() >> 11) / 9007199254740992.0L; Double u(std::cos((double)ang), std::sin((double)ang)); if (r.chance(1, 8)) u = Double((double[]){1, -1, 0, 0}[r.below(4)], 0); if (r.chance(1, 10)) u = Double(0, r.chance(1, 2) ? 1 : -1);
        if (e < 8 && r.chance(1, 2)) u = Double(std::fmod(num(r), 10), std::fmod(num(r), 10));
        LD w(1); { LD b2 = ld(u); for (size_t k = e; k; k >>= 1) { if (k & 1) w *= b2; b2 *= b2; } }
        std::string te = S(u) + " ^ " + std::to_string(e); info(te); uint64_t he = H(u) + e;
        auto pw = [&](const Double &g, const char *op) { long double s = std::abs(w) + 1; expect(std::abs(ld(g) - w) <= 1e-7L * s, std::string("U03.") + op, he, [&] { return te + " -> " + S(g); }); };
        pw(u ^ e, "pow"); pw(u ^ bigint<1>(e), "pow-bigint"); pw(power<Double>(u, (unsigned long)e), "power"); pw(power<Double>(u, (unsigned long long)e), "power-ull");
        uint64_t iv = r.below(1u << 20); expect(Double((double)iv).as_ulong() == iv && zb<1>(Double((double)iv + 0.25).as_bigint()) == mon::mpz_u64(iv), "U03.integer", iv, [&] { return std::to_string(iv); });
        if (i == 5) mon::sample(t + "; " + te);
    }
    at("U03.pow-zero"); for (Double z : {Double(0), Double(0, 0), Double(5), Double(-2, 3), Double(0, 1)}) { c(z ^ (size_t)0, LD(1), "zeroth-power", H(z), S(z)); c(z ^ bigint<1>(0ul), LD(1), "zeroth-power-bigint", H(z), S(z)); }
    c(Double(0) ^ (size_t)5, LD(0), "zero-power", 1, "0^5");
    at("U03.roots");
    std::vector<size_t> ns; for (size_t n = 1; n < 70; ++n) ns.push_back(n); for (int k = 7; k < 17; ++k) ns.push_back((size_t)1 << k); for (int i = 0; i < 100; ++i) ns.push_back(1 + r.below(5000));
    for (size_t n : ns) {
        Double w = get_root_of_unity<Double>(n); info("n=" + std::to_string(n)); LD p(1); bool early = false; long double mind = 9;
        for (size_t k = 1; k <= n && k <= 5000; ++k) { p *= ld(w); if (k < n) { long double d = std::abs(p - LD(1)); if (d < mind) mind = d; if (d < 1e-6L) early = true; } }
        if (n > 5000) { p = LD(1); LD b = ld(w); for (size_t k = n; k; k >>= 1) { if (k & 1) p *= b; b *= b; } LD h(1); b = ld(w); for (size_t k = n / 2; k; k >>= 1) { if (k & 1) h *= b; b *= b; } early = std::abs(h + LD(1)) > 1e-6L; }
        expect(std::abs(p - LD(1)) < 1e-6L && !early, "U03.root_of_unity", n, [&] { return "order " + std::to_string(n) + " root " + S(w); }, n > 1);
        expect((w ^ n) == Double::one(), "U03.root-power", n, [&] { return "order " + std::to_string(n); }, n > 1);
    }
    for (int i = 0; i < 200; ++i) { Double d = Double::random_element(); expect(d.val.imag() == 0 && d.val.real() >= 0 && d.val.real() <= 1000 && d.val.real() == std::floor(d.val.real()), "U03.random", i, [&] { return S(d); }); }
    return mon::finish();
}
