// R02: the hash-based generator against its definition, evaluated with another SHA-512 implementation (libsodium's).
#define MON_MAIN
#define PFX "R02"
#include "stat.hpp"
#include <libff/common/rng.hpp>
#include <thread>
using namespace lb;
static Z expected(uint64_t idx, const Z &p, size_t limbs, unsigned *rejected) {
    for (uint64_t it = 0;; ++it) { unsigned char in[16], out[64]; for (int i = 0; i < 8; ++i) { in[i] = idx >> (8 * i); in[8 + i] = it >> (8 * i); } crypto_hash_sha512(out, in, 16); Z v = 0; for (size_t i = 8 * limbs; i--;) { v <<= 8; v += (unsigned)out[i]; } mpz_fdiv_r_2exp(v.get_mpz_t(), v.get_mpz_t(), ref::bits(p)); if (v < p) { *rejected = it; return v; } }
}
template<class T> void field(uint64_t c) {
    const std::string n = FI<T>::name(); if (!mon::want(n)) return; Rng &r = rng(); const Z &p = FI<T>::p(); const size_t L = sizeof(T) / 8; unsigned most = 0; std::map<unsigned, uint64_t> rej;
    auto one = [&](uint64_t idx) { char b[32]; snprintf(b, 32, "index 0x%lx", idx); info(b); T x = SHA512_rng<T>(idx); unsigned k; Z w = expected(idx, p, L, &k); rej[k]++; most = std::max(most, k); expect(canon(x) && dec(x)[0] == w, "R02.value:" + n + (k == 0 ? "" : k < 4 ? ",some rejected" : ",many rejected"), idx, [&] { return n + " " + b + " (" + std::to_string(k) + " rejected candidates): got " + show(x) + " want " + hex(w); }); return w; };
    at("R02.value:" + n); const uint64_t S = 1500 * c; NumStat st(n, "generated elements", p); std::set<std::string> seen; Chi full(p < 1000 ? p.get_ui() : 2);
    for (uint64_t i = 0; i < S; ++i) { if (i % 256 == 0) at("R02.value:" + n); Z v = one(i); st.add(v); if (ref::bits(p) > 60) seen.insert(v.get_str(16)); if (p < 1000) full.add(v.get_ui()); if (i < 2) mon::sample(n + " index " + std::to_string(i) + " -> " + hex(v)); }
    if (ref::bits(p) > 60) expect(seen.size() == S, "R02.distinct:" + n, S, [&] { return n + ": " + std::to_string(S - seen.size()) + " repeated elements"; });
    st.done(); if (p < 1000) judge(n, "every value", full);
    std::vector<uint64_t> hs; for (unsigned i = 0; i < 64; ++i) for (int d = -2; d <= 2; ++d) hs.push_back((1ULL << i) + d); for (uint64_t i = 0; i < 200 * c; ++i) hs.push_back(r.next() >> r.below(64)); for (uint64_t i = 0; i < 60; ++i) hs.push_back(~i); at("R02.value:" + n); for (uint64_t x : hs) one(x);
    // indices whose candidates are rejected many times, found by search
    uint64_t found = 0; for (uint64_t i = 0; i < 30000 && found < 40; ++i) { uint64_t idx = r.next(); unsigned k; expected(idx, p, L, &k); if (k >= 9) { ++found; one(idx); } if (i > 4000 && !found) break; }
    // the same on every call, whatever was asked before, and in every thread
    at("R02.repeatable:" + n); std::vector<uint64_t> is; for (int i = 0; i < 40; ++i) is.push_back(r.pick(hs)); std::vector<T> a; for (uint64_t i : is) a.push_back(SHA512_rng<T>(i)); for (size_t i = is.size(); i--;) { T b = SHA512_rng<T>(is[i]); expect(zb(b.mont_repr) == zb(a[i].mont_repr), "R02.repeatable:" + n, is[i], [&] { return n + " index " + std::to_string(is[i]) + ": " + show(a[i]) + " then " + show(b); }); }
    std::vector<std::vector<T>> t(4); std::vector<std::thread> th; for (int k = 0; k < 4; ++k) th.emplace_back([&, k] { for (size_t i = 0; i < is.size(); ++i) t[k].push_back(SHA512_rng<T>(is[(i + 7 * k) % is.size()])); }); for (auto &x : th) x.join(); for (int k = 0; k < 4; ++k) for (size_t i = 0; i < is.size(); ++i) expect(zb(t[k][i].mont_repr) == zb(a[(i + 7 * k) % is.size()].mont_repr), "R02.threads:" + n, is[i] + k, [&] { return n + " index " + std::to_string(is[(i + 7 * k) % is.size()]); });
    mon::M().notes["most rejected candidates:" + n] = std::to_string(most);
}
int main(int argc, char **argv) {
    mon::init(argc, argv); init_all(); cust::init(); uint64_t c = mon::M().scale;
    field<alt_bn128_Fr>(c); field<alt_bn128_Fq>(c); field<bls12_381_Fr>(c); field<bls12_381_Fq>(c); field<edwards_Fr>(c); field<edwards_Fq>(c); field<mnt4_Fr>(c); field<mnt4_Fq>(c);
    field<cust::F1a>(c); field<cust::F1b>(c); field<cust::F2>(c); field<cust::F3>(c); field<cust::F3b>(c); field<cust::F4>(c); field<cust::F4b>(c); field<cust::F5>(c); field<cust::F5b>(c); field<cust::F6>(c); field<cust::F8>(c);
    return mon::finish();
}
