// F07: big integers against GMP integers; guard words around every object catch stray writes.
#define MON_MAIN
#include "lib.hpp"
#include <limits>
using namespace lb;

template<mp_size_t n> struct Guarded { uint64_t lo[4]; bigint<n> b; uint64_t hi[4];
    Guarded() { for (auto &x : lo) x = 0x5aa5c33c0ff01e2dULL; for (auto &x : hi) x = 0x5aa5c33c0ff01e2dULL; }
    bool intact() const { for (auto x : lo) if (x != 0x5aa5c33c0ff01e2dULL) return false; for (auto x : hi) if (x != 0x5aa5c33c0ff01e2dULL) return false; return true; } };
template<mp_size_t n> std::string nm() { return "bigint<" + std::to_string((long)n) + ">"; }
template<mp_size_t n> void is(const bigint<n> &got, const Z &want, const char *op, const Z &a) {
    expect(zb<n>(got) == want, std::string("F07.") + op + ":" + nm<n>(), ref::hash(a), [&] { return std::string(op) + " of " + hex(a) + " holds " + hex(zb<n>(got)) + " want " + hex(want); }, a != 0);
}
// text a call prints to stdout
static std::string printed(const std::function<void()> &f) {
    fflush(stdout); int keep = dup(1); FILE *t = tmpfile(); if (!t) return "?"; dup2(fileno(t), 1); f(); fflush(stdout); dup2(keep, 1); close(keep);
    std::string s; rewind(t); int ch; while ((ch = fgetc(t)) != EOF) s += (char)ch; fclose(t); return s;
}
template<mp_size_t n> void run(uint64_t cases) {
    typedef bigint<n> B; const std::string N = nm<n>(); if (!mon::want(N)) return; Rng &r = rng(); const unsigned W = 64 * n;
    at("F07:" + N);
    is<n>(B(), Z(0), "default", Z(1)); is<n>(B::one(), Z(1), "one", Z(1));
    expect(B().max_bits() == W && (size_t)B::N == (size_t)n, "F07.max_bits:" + N, 1, [&] { return N; });
    std::vector<Z> v; for (unsigned i = 0; i < W; ++i) { Z x; mpz_setbit(x.get_mpz_t(), i); v.push_back(x); v.push_back(x - 1); if (i < W - 1) v.push_back(x + 1); }
    { Z x; mpz_setbit(x.get_mpz_t(), W); v.push_back(x - 1); v.push_back(x - 2); } for (long d = 0; d < 12; ++d) v.push_back(Z(d)); for (unsigned k = 1; k < W * 3 / 10; ++k) { Z t = ref::ipow(Z(10), k); v.push_back(t); v.push_back(t - 1); }
    uint64_t total = v.size() + cases;
    for (uint64_t i = 0; i < total; ++i) {
        if (i % 32 == 0) at("F07:" + N);
        Z a = i < v.size() ? v[i] : hostile_bits(r, W); info(hex(a)); uint64_t h = ref::hash(a);
        B x = bz<n>(a);
        auto yes = [&](bool ok, const char *op) { expect(ok, std::string("F07.") + op + ":" + N, h, [&] { return std::string(op) + " wrong for " + hex(a); }, a != 0); };
        { Guarded<n> g; g.b = B(mon::u64_mpz(a)); is<n>(g.b, mon::mpz_u64(mon::u64_mpz(a)), "from-word", a); yes(g.intact(), "guards"); }
        { mpz_class m = a; Guarded<n> g; new (&g.b) B(m.get_mpz_t()); is<n>(g.b, a, "from-mpz", a); yes(m == a, "mpz-source-unchanged"); yes(g.intact(), "guards-mpz"); }
        { std::string s = a.get_str(); Guarded<n> g; memset((void *)&g.b, 0xff, sizeof g.b); new (&g.b) B(s.c_str()); is<n>(g.b, a, "from-string", a); yes(g.intact(), "guards-string");
          if (i % 4 == 0) { size_t room = (W * 3) / 10; std::string p = s; if (p.size() < room) p = std::string(1 + r.below(room - p.size()), '0') + p; is<n>(B(p.c_str()), a, "from-zero-padded-string", a); } }
        { mpz_class m = -7; x.to_mpz(m.get_mpz_t()); yes(m == a, "to_mpz"); }
        yes(x.as_ulong() == mon::u64_mpz(a), "as_ulong"); yes(x.num_bits() == ref::bits(a), "num_bits"); yes(x.is_zero() == (a == 0), "is_zero"); yes(x.is_even() == !ref::bit(a, 0), "is_even");
        { bool ok = true; size_t bad = 0; for (size_t k = 0; k < W + 70; ++k) if (x.test_bit(k) != ref::bit(a, k)) { ok = false; bad = k; }
          for (size_t k : {(size_t)1 << 31, ((size_t)1 << 31) + 1, (size_t)1 << 32, ((size_t)1 << 32) + 3, (size_t)1 << 62, ~(size_t)0, ~(size_t)0 - 63, ~(size_t)63}) if (x.test_bit(k)) { ok = false; bad = k; }
          expect(ok, "F07.test_bit:" + N, h, [&] { return "bit " + std::to_string(bad) + " of " + hex(a); }, a != 0); }
        is<n>(x, a, "const-operand", a);
        // comparisons against related and unrelated values
        for (int k = 0; k < 4; ++k) {
            Z b = k == 0 ? a : k == 1 ? Z(a ^ (Z(1) << r.below(W))) : k == 2 ? Z(a + (long)r.below(5) - 2) : hostile_bits(r, W);
            if (b < 0 || ref::bits(b) > W) b = 0;
            B y = bz<n>(b);
            expect((x == y) == (a == b) && (x != y) == (a != b) && (x < y) == (a < b) && (y < x) == (b < a), "F07.comparison:" + N, h * 31 + ref::hash(b), [&] { return hex(a) + " vs " + hex(b); });
        }
        expect(!(x < x) && x == x && !(x != x), "F07.comparison-self:" + N, h, [&] { return hex(a); });
        { Guarded<n> g; g.b = x; g.b.clear(); is<n>(g.b, Z(0), "clear", a); yes(g.intact(), "guards-clear"); }
        if (i % 97 == 0) {
            yes(printed([&] { x.print(); }) == a.get_str() + "\n", "print"); yes(printed([&] { x.print_hex(); }) == a.get_str(16) + "\n", "print_hex");
        }
        if (i == total - 1) mon::sample(N + " " + hex(a));
    }
    // randomisation: every word of entropy lands in the value, nothing else is touched, no bit is fixed
    at("F07.randomize:" + N);
    std::vector<uint64_t> ones(n), any(n); const unsigned S = 400; std::set<std::string> seen; std::vector<unsigned> cnt(W);
    for (unsigned i = 0; i < S; ++i) {
        Guarded<n> g; g.b = bz<n>(hostile_bits(r, W)); Z before = zb<n>(g.b);
        if (i == 0) mon::entropy().set_script(std::vector<uint32_t>(2 * n, ~0u)); if (i == 1) mon::entropy().set_script(std::vector<uint32_t>(2 * n, 0u));
        B &ret = g.b.randomize(); Z a = zb<n>(g.b); mon::entropy().set_script({});
        expect(&ret == &g.b && g.intact(), "F07.randomize-guards:" + N, i, [&] { return "memory outside the value changed"; });
        if (i == 0) { Z w; mpz_setbit(w.get_mpz_t(), W); expect(a == w - 1, "F07.randomize-max:" + N, 1, [&] { return "all-ones entropy gave " + hex(a); }); }
        else if (i == 1) expect(a == 0, "F07.randomize-min:" + N, 1, [&] { return "all-zero entropy gave " + hex(a); });
        else { for (unsigned k = 0; k < W; ++k) cnt[k] += ref::bit(a, k); expect(seen.insert(a.get_str()).second, "F07.randomize-fresh:" + N, i, [&] { return "repeated " + hex(a); }); }
    }
    for (unsigned k = 0; k < W; ++k) expect(cnt[k] > S / 4 && cnt[k] < 3 * S / 4, "F07.randomize-bit-balance:" + N, k, [&] { return "bit " + std::to_string(k) + " set in " + std::to_string(cnt[k]) + " of " + std::to_string(S) + " samples"; });
}
int main(int argc, char **argv) {
    mon::init(argc, argv); uint64_t c = 1500 * mon::M().scale;
    run<1>(c); run<2>(c); run<3>(c); run<4>(c); run<5>(c); run<6>(c); run<8>(c / 2); run<12>(c / 2); run<33>(c / 8);
    return mon::finish();
}
