// F02: conversions between machine integers, big integers, strings, words and field elements.
#define MON_MAIN
#include "lib.hpp"
#include "custom.hpp"
#include <climits>
using namespace lb;

static std::vector<long> longs(Rng &r) {
    std::vector<long> v = {0, 1, -1, 2, -2, LONG_MAX, LONG_MAX - 1, LONG_MIN, LONG_MIN + 1, INT_MAX, INT_MIN, (long)INT_MAX + 1, (long)INT_MIN - 1, (long)UINT_MAX, -(long)UINT_MAX};
    for (int k = 0; k < 63; ++k) { long b = 1L << k; v.push_back(b); v.push_back(-b); v.push_back(b - 1); v.push_back(-b - 1); }
    for (auto &z : mon::M().newdict) { v.push_back((long)mon::u64_mpz(z)); v.push_back(-(long)(mon::u64_mpz(z) >> 1)); }
    for (int i = 0; i < 200; ++i) v.push_back((long)(r.next() >> r.below(64)) * (r.chance(1, 2) ? 1 : -1));
    return v;
}
static Z zs(long x) { Z z = mon::mpz_u64((uint64_t)x); if (x < 0) { Z w; mpz_setbit(w.get_mpz_t(), 64); z -= w; } return z; }

template<mp_size_t n, const bigint<n> &m> void run(const Fp_model<n, m> &, uint64_t cases, bool curve) {
    typedef Fp_model<n, m> F; typedef PF<n, m> P;
    const std::string nm = FI<F>::name(); if (!mon::want(nm)) return;
    const Z p = FI<F>::p();
    Rng &r = rng();
    auto c1 = [&](const F &got, const Z &want, const char *op, const Z &a) {
        expect(P::canon(got) && P::dec(got) == ref::modp(want, p), std::string("F02.") + op + ":" + nm, ref::hash(a), [&] { return std::string(op) + " of " + a.get_str() + " got " + hex(P::dec(got)) + (P::canon(got) ? "" : " NOT REDUCED") + " want " + hex(ref::modp(want, p)); }, a != 0);
    };
    at("F02:" + nm);
    for (long x : longs(r)) {
        info("long " + std::to_string(x));
        Z zx = zs(x);
        if (curve) { c1(F(x), zx, "from-signed", zx); F y = x; c1(y, zx, "from-signed-implicit", zx); }
        Z zu = mon::mpz_u64((uint64_t)x);
        if (curve || zu < p) {
            c1(F((long)x, true), zu, "from-unsigned", zu);
            F g = P::enc(hostile_mod(r, p)); g.set_ulong((unsigned long)x); c1(g, zu, "set_ulong", zu); // over an old value
            c1(F(bigint<n>((unsigned long)x)), zu, "from-bigint-small", zu);
        }
        if (curve && x >= INT_MIN && x <= INT_MAX) { c1(F((int)x), zx, "from-int", zx); }
    }
    for (uint64_t i = 0; i < cases; ++i) {
        if (i % 32 == 0) at("F02:" + nm);
        Z b = r.chance(1, 2) ? hostile_bits(r, 64 * n) : hostile_mod(r, p);
        if (r.chance(1, 8)) { Z q = p * (long)r.below(4) + (long)r.below(5) - 2; if (q >= 0 && ref::bits(q) <= 64 * n) b = q; } // around multiples of p
        info("big " + hex(b));
        c1(F(bz<n>(b)), b, "from-bigint", b);
        if (i % 4 == 0) { c1(F(b.get_str().c_str()), b, "from-string", b); std::string pad = std::string(r.below(3), '0') + b.get_str(); if (pad.size() < 64 * n / 3) c1(F(pad.c_str()), b, "from-padded-string", b); }
        // reading back
        Z v = ref::modp(b, p);
        F x = r.chance(1, 2) ? P::enc(v) : P::raw(v); v = P::dec(x);
        info("element " + hex(v));
        uint64_t h = ref::hash(v);
        expect(zb<n>(x.as_bigint()) == v, "F02.as_bigint:" + nm, h, [&] { return hex(v) + " read back as " + hex(zb<n>(x.as_bigint())); });
        expect(x.as_ulong() == mon::u64_mpz(v), "F02.as_ulong:" + nm, h, [&] { return hex(v) + " low word " + std::to_string(x.as_ulong()); });
        expect(F(x.as_bigint()) == x, "F02.bigint-roundtrip:" + nm, h, [&] { return hex(v); });
        // words
        std::vector<uint64_t> w = x.to_words();
        Z wz; if (!w.empty()) mpz_import(wz.get_mpz_t(), w.size(), -1, 8, 0, 0, w.data());
#ifdef MONTGOMERY_OUTPUT
        Z ww = zb<n>(x.mont_repr);
#else
        Z ww = v;
#endif
        expect(w.size() == (size_t)n && wz == ww, "F02.to_words:" + nm, h, [&] { return hex(v) + " words " + hex(wz) + " want " + hex(ww); });
        F y = P::enc(hostile_mod(r, p));
        bool ok = y.from_words(w);
        expect(ok && y == x && P::canon(y), "F02.words-roundtrip:" + nm, h, [&] { return hex(v) + " ok=" + std::to_string(ok); });
        // junk in ignored positions: bits above the field size, and words before the right-most ones
        std::vector<uint64_t> w2 = w; size_t top = F::ceil_size_in_bits() % 64;
        if (top) w2.back() |= r.next() << top;
        size_t extra = r.below(3); for (size_t k = 0; k < extra; ++k) w2.insert(w2.begin(), r.next());
        F z = P::enc(hostile_mod(r, p)); ok = z.from_words(w2);
        expect(ok && z == x, "F02.words-ignored-bits:" + nm, h + extra, [&] { return hex(v) + " with " + std::to_string(extra) + " leading words"; });
        // arbitrary words: verdict and value
        Z a = hostile_bits(r, F::ceil_size_in_bits()); if (r.chance(1, 2)) a = p + (long)r.below(6) - 3;
        if (a < 0 || ref::bits(a) > F::ceil_size_in_bits()) a = p - 1;
        std::vector<uint64_t> wa(n); for (int k = 0; k < n; ++k) wa[k] = mon::u64_mpz(Z(a >> (64 * k)));
        F q; ok = q.from_words(wa);
        expect(ok == (a < p), "F02.words-range-verdict:" + nm, ref::hash(a), [&] { return "words of " + hex(a) + " reported " + (ok ? "valid" : "invalid"); });
        if (a < p) {
#ifdef MONTGOMERY_OUTPUT
            bool good = zb<n>(q.mont_repr) == a;
#else
            bool good = P::dec(q) == a && P::canon(q);
#endif
            expect(good, "F02.words-value:" + nm, ref::hash(a), [&] { return "words of " + hex(a); });
        }
        if (i < 2) mon::sample(nm + ": bigint " + hex(b) + ", words of " + hex(a));
    }
    expect(F::ceil_size_in_bits() == ref::bits(p) && F::floor_size_in_bits() == ref::bits(p) - 1 && F::extension_degree() == 1 && zb<n>(F::field_char()) == p, "F02.sizes:" + nm, 1, [&] { return std::string("declared sizes"); });
    expect(P::dec(F::geometric_generator()) == 2 && P::dec(F::arithmetic_generator()) == 1, "F02.generators:" + nm, 1, [&] { return std::string("geometric/arithmetic generator"); });
}

template<class T> void ext(uint64_t cases) {
    const std::string nm = RF<T>::name(); if (!mon::want(nm)) return;
    const Field *f = RF<T>::f(); Rng &r = rng();
    size_t nl = (ref::bits(f->p) + 63) / 64;
    for (uint64_t i = 0; i < cases; ++i) {
        at("F02.words:" + nm); El a = hostile_el(f, r); info(ref::str(a));
        T x = enc<T>(a), y = enc<T>(hostile_el(f, r));
        std::vector<uint64_t> w = x.to_words();
        bool ok = y.from_words(w);
        expect(w.size() == nl * f->n && ok && x == y && same(y, a), "F02.words-roundtrip:" + nm, ref::hash(a), [&] { return ref::str(a); });
        // one coefficient out of range must be reported
        std::vector<uint64_t> bad = w; size_t c = r.below(f->n); Z v = f->p + mon::mpz_u64(r.below(3));
        if (ref::bits(v) == ref::bits(f->p)) {
            for (size_t k = 0; k < nl; ++k) bad[c * nl + k] = mon::u64_mpz(Z(v >> (64 * k)));
            T z; expect(!z.from_words(bad), "F02.words-range-verdict:" + nm, ref::hash(a) + c, [&] { return "coefficient " + std::to_string(c) + " = p+small accepted"; });
        }
    }
    expect(T::ceil_size_in_bits() == ref::bits(f->p) * f->n && T::floor_size_in_bits() == (ref::bits(f->p) - 1) * f->n && T::extension_degree() == (size_t)f->n, "F02.sizes:" + nm, 1, [&] { return std::string("declared sizes"); });
}
template<class G> void bin(const char *nm, size_t words, size_t bits, uint64_t cases) {
    if (!mon::want(nm)) return;
    Rng &r = rng();
    for (uint64_t i = 0; i < cases; ++i) {
        at(std::string("F02.words:") + nm);
        Z a = hostile_bits(r, bits); info(hex(a));
        std::vector<uint64_t> w(words); for (size_t k = 0; k < words; ++k) w[k] = mon::u64_mpz(Z(a >> (64 * k)));
        G x, y; bool ok = x.from_words(w);
        std::vector<uint64_t> back = x.to_words();
        expect(ok && back == w, std::string("F02.words-roundtrip:") + nm, ref::hash(a), [&] { return hex(a); });
        std::vector<uint64_t> w2 = w; if (bits % 64) w2.back() |= r.next() << (bits % 64);
        ok = y.from_words(w2);
        expect(ok && y == x && y.to_words() == w, std::string("F02.words-ignored-bits:") + nm, ref::hash(a), [&] { return hex(a); });
    }
}
int main(int argc, char **argv) {
    mon::init(argc, argv); init_all(); cust::init();
    uint64_t c = 600 * mon::M().scale;
    run(alt_bn128_Fr(), c, true); run(alt_bn128_Fq(), c, true); run(bls12_381_Fr(), c, true); run(bls12_381_Fq(), c, true); run(edwards_Fr(), c, true); run(edwards_Fq(), c, true); run(mnt4_Fr(), c, true); run(mnt4_Fq(), c, true);
    run(cust::F1b(), c / 4, false); run(cust::F2(), c / 4, false); run(cust::F3b(), c / 4, true); run(cust::F4(), c / 4, true); run(cust::F5b(), c / 4, true); run(cust::F6(), c / 4, true); run(cust::F8(), c / 4, true);
    c /= 3;
    ext<alt_bn128_Fq2>(c); ext<alt_bn128_Fq6>(c); ext<alt_bn128_Fq12>(c); ext<bls12_381_Fq2>(c); ext<bls12_381_Fq6>(c); ext<bls12_381_Fq12>(c); ext<edwards_Fq3>(c); ext<edwards_Fq6>(c); ext<mnt4_Fq2>(c); ext<mnt4_Fq4>(c); ext<mnt6_Fq3>(c); ext<mnt6_Fq6>(c);
    bin<gf32>("gf32", 1, 32, c); bin<gf64>("gf64", 1, 64, c); bin<gf128>("gf128", 2, 128, c); bin<gf192>("gf192", 3, 192, c); bin<gf256>("gf256", 4, 256, c);
    return mon::finish();
}
