// U02: integer, bit and formatting helpers against GMP integers / string definitions.
#define MON_MAIN
#include "lib.hpp"
#include <climits>
using namespace lb;
static Z zs(long long x) { Z z = mon::mpz_u64((uint64_t)x); if (x < 0) { Z w; mpz_setbit(w.get_mpz_t(), 64); z -= w; } return z; }
static std::string S(const Z &z) { return z.get_str(); }
static std::string bs(const bit_vector &v) { std::string s; for (auto b : v) s += b ? '1' : '0'; return s; }
static std::string printed(const std::function<void()> &f) {
    fflush(stdout); std::cout.flush(); int keep = dup(1); FILE *t = tmpfile(); if (!t) return "?"; dup2(fileno(t), 1); f(); std::cout.flush(); fflush(stdout); dup2(keep, 1); close(keep);
    std::string s; rewind(t); int ch; while ((ch = fgetc(t)) != EOF) s += (char)ch; fclose(t); return s;
}
static std::vector<uint64_t> words(Rng &r, int k) {
    std::vector<uint64_t> v; for (unsigned i = 0; i < 64; ++i) for (int d = -2; d <= 2; ++d) v.push_back((1ULL << i) + d);
    for (uint64_t i = 0; i < 300; ++i) v.push_back(i); for (uint64_t i = 0; i < 6; ++i) v.push_back(~i);
    for (auto &z : mon::M().newdict) for (int d = -1; d <= 1; ++d) v.push_back(mon::u64_mpz(z) + d);
    for (int i = 0; i < k; ++i) v.push_back(r.next() >> r.below(64)); return v;
}
#define IS(op, h, ok, ctx) expect(ok, std::string("U02.") + op, h, [&] { return std::string(op) + " " + (ctx); })
int main(int argc, char **argv) {
    mon::init(argc, argv); quiet(); Rng &r = rng(); const int K = 2000 * mon::M().scale;
    at("U02.powers");
    for (uint64_t n : words(r, K)) {
        info(std::to_string(n)); std::string t = std::to_string(n); Z z = mon::mpz_u64(n);
        IS("is_power_of_2", n, is_power_of_2(n) == (mpz_popcount(z.get_mpz_t()) == 1), t);
        if (n >= 1 && n <= (1ULL << 63)) {
            size_t l = 0; while ((Z(1) << l) < z) ++l; Z p = Z(1) << l;
            IS("log2", n, libff::log2(n) == l, t + " -> " + std::to_string(libff::log2(n)));
            IS("get_power_of_two", n, mon::mpz_u64(get_power_of_two(n)) == p, t + " -> " + std::to_string(get_power_of_two(n)));
            IS("round_to_next_power_of_2", n, mon::mpz_u64(round_to_next_power_of_2(n)) == p, t + " -> " + std::to_string(round_to_next_power_of_2(n)));
        } else if (n > (1ULL << 63)) IS("log2", n, libff::log2(n) == 64, t + " -> " + std::to_string(libff::log2(n)));
        for (size_t l : {(size_t)64, (size_t)0, (size_t)1, (size_t)(r.below(65)), (size_t)(r.below(65))}) {
            uint64_t w = 0; for (size_t k = 0; k < l; ++k) if (n >> k & 1) w |= 1ULL << (l - 1 - k);
            IS("bitreverse", n * 67 + l, libff::bitreverse(n, l) == w, t + " over " + std::to_string(l) + " bits -> " + std::to_string(libff::bitreverse(n, l)));
        }
    }
    for (size_t k = 0; k < 64; ++k) IS("exp2", k, mon::mpz_u64(libff::exp2(k)) == (Z(1) << k), std::to_string(k));
    IS("is_little_endian", 1, is_little_endian() == (__BYTE_ORDER__ == __ORDER_LITTLE_ENDIAN__), "");
    at("U02.twos");
    for (size_t w = 1; w < 64; ++w) {
        std::vector<Z> v; Z half = Z(1) << (w - 1), full = Z(1) << w; for (int d = 0; d < 3; ++d) { v.push_back(Z(d)); v.push_back(Z(-d)); v.push_back(Z(half - 1 - d)); v.push_back(Z(-half + d)); v.push_back(Z(INT_MAX - d)); v.push_back(Z((long)INT_MIN + d)); }
        for (int i = 0; i < 20 + K / 200; ++i) { Z x = mon::mpz_u64(r.next()); x = x % full - half; v.push_back(x); int y = (int)(uint32_t)r.next(); v.push_back(Z(y >> r.below(31))); }
        for (auto &x : v) if (x >= -half && x < half && x >= INT_MIN && x <= INT_MAX) {
            int i = (int)x.get_si(); Z e = x < 0 ? Z(x + full) : x; info(S(x) + " width " + std::to_string(w));
            size_t g = to_twos_complement(i, w); IS("to_twos_complement", (uint64_t)i * 64 + w, mon::mpz_u64(g) == e, S(x) + " width " + std::to_string(w) + " -> " + std::to_string(g));
            int b = from_twos_complement(mon::u64_mpz(e), w); IS("from_twos_complement", (uint64_t)i * 64 + w, b == i, S(e) + " width " + std::to_string(w) + " -> " + std::to_string(b));
        }
    }
    at("U02.div_ceil");
    std::vector<long long> es = {0, 1, -1, 2, -2, 3, -3, 5, 7, -7, 10, 63, 64, 65, LLONG_MAX, LLONG_MAX - 1, LLONG_MIN, LLONG_MIN + 1, LLONG_MAX / 2, LLONG_MIN / 2, 1LL << 32, -(1LL << 32), 1LL << 62};
    for (int i = 0; i < K; ++i) {
        long long x, y; if (i < (int)(es.size() * es.size())) { x = es[i / es.size()]; y = es[i % es.size()]; } else { x = (long long)r.next() >> r.below(64); y = (long long)r.next() >> r.below(64); if (r.chance(1, 4)) { y = (long long)(r.below(40)) - 20; x = y * (long long)r.below(1000) + (long long)r.below(3) - 1; } }
        info(std::to_string(x) + " / " + std::to_string(y)); uint64_t h = (uint64_t)x * 1000003 + y;
        if (y == 0) { bool t = false; try { div_ceil(x, y); } catch (const std::invalid_argument &) { t = true; } IS("div_ceil-by-zero", h, t, std::to_string(x)); continue; }
        if (x == LLONG_MIN && y == -1) continue;   // quotient not representable
        Z q; mpz_cdiv_q(q.get_mpz_t(), zs(x).get_mpz_t(), zs(y).get_mpz_t()); long long g = div_ceil(x, y);
        IS("div_ceil", h, zs(g) == q, std::to_string(x) + " / " + std::to_string(y) + " -> " + std::to_string(g));
    }
    at("U02.int_list");
    auto list = [&](const std::initializer_list<unsigned long> &l, size_t w) {
        bit_vector v = int_list_to_bits(l, w), e; for (auto x : l) for (size_t k = 0; k < w; ++k) e.push_back(x >> (w - 1 - k) & 1);
        IS("int_list_to_bits", mon::hs(bs(e), w), v == e, "of " + std::to_string(l.size()) + " words width " + std::to_string(w) + " -> " + bs(v)); };
    for (size_t w = 0; w <= 64; ++w) for (int k = 0; k < 4 + K / 500; ++k) { auto x = [&] { return (unsigned long)mon::u64_mpz(hostile_bits(r, 64)); }; info("width " + std::to_string(w)); list({}, w); list({x()}, w); list({x(), x()}, w); list({x(), 0, ~0UL, x(), 1, x(), 1UL << 63}, w); }
    at("U02.bits-text");
    for (int i = 0; i < 60 + K / 20; ++i) {
        bit_vector v(i < 8 ? i : r.below(300)), old(r.below(200), true), got = old; for (size_t k = 0; k < v.size(); ++k) v[k] = r.chance(1, 3); if (r.chance(1, 6)) v.assign(v.size(), true);
        info(bs(v)); std::stringstream ss; serialize_bit_vector(ss, v); deserialize_bit_vector(ss, got); IS("bit-vector-roundtrip", mon::hs(bs(v)), got == v && !ss.fail(), bs(v) + " -> " + bs(got));
        std::stringstream s2; serialize_bit_vector(s2, got); IS("bit-vector-rewrite", mon::hs(bs(v)), s2.str() == ss.str(), bs(v));
        bit_vector a = v, b(r.below(20), true), c, d; std::stringstream s3; serialize_bit_vector(s3, a); serialize_bit_vector(s3, b); s3 << 77 << "\n"; int tail = 0; deserialize_bit_vector(s3, c); deserialize_bit_vector(s3, d); s3 >> tail;
        IS("bit-vectors-in-one-stream", mon::hs(bs(v), b.size()), c == a && d == b && tail == 77, bs(a));
    }
    at("U02.format");
    IS("FORMAT", 1, FORMAT("", "plain") == "plain" && FORMAT("p ", "") == "p " && FORMAT("a%d", "x") == "a%dx" && FORMAT("p", "%d-%s-%zu", -3, "q", (size_t)9) == "p-3-q-9", FORMAT("p", "%d-%s-%zu", -3, "q", (size_t)9));
    for (int i = 0; i < 300; ++i) { std::string a(r.below(256), 'a' + r.below(26)), p(r.below(600), 'p'); if (i < 3) a = std::string(253 + i, 'z'); info(std::to_string(a.size())); IS("FORMAT-text", a.size() * 1000 + p.size(), FORMAT(p, "%s", a.c_str()) == p + a, std::to_string(a.size()) + " characters"); if (a.size() < 200) IS("FORMAT-number", a.size() + i, FORMAT(p, "%s%lu", a.c_str(), 18446744073709551615UL) == p + a + "18446744073709551615", std::to_string(a.size())); }
    for (int n : {0, 1, 2, 7}) { std::vector<int> v; std::string e = "{ "; for (int i = 0; i < n; ++i) { v.push_back(i * 37 - 5); e += std::to_string(i * 37 - 5) + " "; } e += "}\n"; std::string g = printed([&] { print_vector<int>(std::vector<int>(v)); }); IS("print_vector", n, g == e, g); }
    { init_all(); for (size_t n : {0, 1, 5}) { std::vector<alt_bn128_G1> v(n, alt_bn128_G1::zero()); std::vector<mnt4_G2> w(n, mnt4_G2::zero()); IS("curve_size_in_bits", n, curve_size_in_bits(v) == n * alt_bn128_G1::size_in_bits() && curve_size_in_bits(w) == n * mnt4_G2::size_in_bits(), std::to_string(n)); } }
    mon::sample("div_ceil, log2, bitreverse, two's complement over all word-size boundaries");
    return mon::finish();
}
