// U01: field-vector utilities against index arithmetic over GMP integers.
#define MON_MAIN
#include "lib.hpp"
#include "custom.hpp"
#include "gfref.hpp"
#include <libff/algebra/field_utils/field_utils.hpp>
using namespace lb;

static std::string bs(const bit_vector &v) { std::string s; for (size_t i = 0; i < v.size() && i < 300; ++i) s += v[i] ? '1' : '0'; return s + "/" + std::to_string(v.size()); }
static bit_vector hostile_bv(Rng &r, size_t n) {
    bit_vector v(n); switch (r.below(5)) { case 0: break; case 1: v.assign(n, true); break; case 2: if (n) v[r.below(n)] = true; break; case 3: for (size_t i = 0; i < n; ++i) v[i] = i & 1; break; default: for (size_t i = 0; i < n; ++i) v[i] = r.next() & 1; }
    return v;
}
static Z val(const bit_vector &v, size_t from, size_t cnt) { Z z; for (size_t i = 0; i < cnt && from + i < v.size(); ++i) if (v[from + i]) mpz_setbit(z.get_mpz_t(), i); return z; }

template<mp_size_t n, const bigint<n> &m> void vec(const Fp_model<n, m> &, uint64_t cases) {
    typedef Fp_model<n, m> F; typedef PF<n, m> P; const std::string nm = FI<F>::name(); if (!mon::want(nm)) return;
    const Z p = P::p(); Rng &r = rng(); const size_t CB = ref::bits(p), FB = CB - 1;
    for (uint64_t i = 0; i < cases; ++i) {
        if (i % 8 == 0) at("U01:" + nm);
        // bits -> elements
        size_t chunk = r.chance(1, 2) ? FB : 1 + r.below(FB); size_t len = r.chance(1, 3) ? chunk * r.below(5) + r.below(3) : r.below(3 * FB + 5); if (r.chance(1, 5) && len) --len;
        bit_vector v = hostile_bv(r, len); info("bits " + bs(v) + " chunk " + std::to_string(chunk));
        uint64_t h = mon::hs(bs(v), chunk);
        std::vector<F> o = pack_bit_vector_into_field_element_vector<F>(v, chunk);
        bool ok = o.size() == (len + chunk - 1) / chunk; size_t bad = 0;
        for (size_t k = 0; ok && k < o.size(); ++k) if (!P::canon(o[k]) || P::dec(o[k]) != val(v, k * chunk, chunk)) { ok = false; bad = k; }
        expect(ok, "U01.pack_bits:" + nm, h, [&] { return "element " + std::to_string(bad) + " of packing " + bs(v) + " by " + std::to_string(chunk) + " (" + std::to_string(o.size()) + " elements)"; }, len > 0);
        { std::vector<F> o2 = pack_bit_vector_into_field_element_vector<F>(v); ok = o2.size() == (len + FB - 1) / FB; for (size_t k = 0; ok && k < o2.size(); ++k) ok = P::canon(o2[k]) && P::dec(o2[k]) == val(v, k * FB, FB); expect(ok, "U01.pack_bits-default:" + nm, h, [&] { return bs(v); }, len > 0); }
        // unpack what was packed: each element's expansion, cut to the chunk size
        { bit_vector back; for (auto &e : o) { bit_vector b = convert_field_element_to_bit_vector<F>(e, chunk); if (b.size() != chunk) { fail("U01.bits-count:" + nm, "size " + std::to_string(b.size())); } back.insert(back.end(), b.begin(), b.end()); } bool tail = true; for (size_t k = len; k < back.size(); ++k) tail = tail && !back[k]; back.resize(len); expect(back == v && tail, "U01.unpack-roundtrip:" + nm, h, [&] { return bs(v); }, len > 0); }
        // integers -> elements
        size_t w = r.chance(1, 2) ? (size_t[]){1, 8, 16, 32, 63, 64}[r.below(6)] : 1 + r.below(64); std::vector<size_t> iv(r.below(14)); bit_vector ib;
        for (auto &x : iv) { x = mon::u64_mpz(hostile_bits(r, 64)); if (r.chance(3, 4) && w < 64) x &= ((size_t)1 << w) - 1; }
        for (auto x : iv) for (size_t b = 0; b < w; ++b) ib.push_back((x >> b) & 1);
        info("ints w=" + std::to_string(w) + " " + bs(ib));
        { std::vector<F> q = pack_int_vector_into_field_element_vector<F>(iv, w); ok = q.size() == (ib.size() + FB - 1) / FB; for (size_t k = 0; ok && k < q.size(); ++k) ok = P::canon(q[k]) && P::dec(q[k]) == val(ib, k * FB, FB); expect(ok, "U01.pack_ints:" + nm, mon::hs(bs(ib), w), [&] { return std::to_string(iv.size()) + " ints of " + std::to_string(w) + " bits: " + bs(ib); }, !iv.empty()); }
        { std::vector<F> q = convert_bit_vector_to_field_element_vector<F>(v); ok = q.size() == len; for (size_t k = 0; ok && k < len; ++k) ok = P::canon(q[k]) && P::dec(q[k]) == (v[k] ? 1 : 0); expect(ok, "U01.bits_to_elements:" + nm, h, [&] { return bs(v); }, len > 0); }
        // element <-> bits
        Z a = hostile_mod(r, p); F x = r.chance(1, 2) ? P::enc(a) : P::raw(a); a = P::dec(x); info(hex(a)); uint64_t ha = ref::hash(a);
        bit_vector xb = convert_field_element_to_bit_vector<F>(x);
        expect(xb.size() == CB && val(xb, 0, CB) == a, "U01.element_to_bits:" + nm, ha, [&] { return hex(a) + " -> " + bs(xb); }, a != 0);
        size_t cnt = r.below(CB + 70); bit_vector xc = convert_field_element_to_bit_vector<F>(x, cnt);
        expect(xc.size() == cnt && val(xc, 0, cnt) == ref::modp(a, ref::ipow(Z(2), cnt)), "U01.element_to_bits-count:" + nm, ha + cnt, [&] { return hex(a) + " to " + std::to_string(cnt) + " bits -> " + bs(xc); });
        { F y = convert_bit_vector_to_field_element<F>(xb); expect(P::canon(y) && P::dec(y) == a, "U01.bits_to_element:" + nm, ha, [&] { return hex(a); }); }
        { bit_vector s = hostile_bv(r, r.below(CB + 1)); F y = convert_bit_vector_to_field_element<F>(s); expect(P::canon(y) && P::dec(y) == ref::modp(val(s, 0, s.size()), p), "U01.bits_to_element-any:" + nm, mon::hs(bs(s)), [&] { return bs(s); }, !s.empty()); }
        { std::vector<F> es; bit_vector want; size_t c = r.below(5); for (size_t k = 0; k < c; ++k) { Z b = hostile_mod(r, p); es.push_back(P::enc(b)); for (size_t t = 0; t < CB; ++t) want.push_back(ref::bit(b, t)); } bit_vector g = convert_field_element_vector_to_bit_vector<F>(es); expect(g == want, "U01.elements_to_bits:" + nm, mon::hs(bs(want)), [&] { return std::to_string(c) + " elements -> " + bs(g); }, c > 0); }
        for (size_t k = 0; k < (size_t)n; ++k) expect(get_word_of_field_elem<F>(x, k) == mon::u64_mpz(Z(a >> (64 * k))), "U01.word:" + nm, ha + k, [&] { return hex(a) + " word " + std::to_string(k); });
        if (i == 0) mon::sample(nm + " bits " + bs(v) + " chunk " + std::to_string(chunk));
    }
    at("U01.sizes:" + nm);
    F e = F::one();
    expect(get_field_type<F>(e) == multiplicative_field_type, "U01.field_type:" + nm, 1, [&] { return nm; });
    expect(log_of_field_size_helper<F>(e) == CB && soundness_log_of_field_size_helper<F>(e) == CB - 1, "U01.size-helpers:" + nm, 1, [&] { return std::to_string(log_of_field_size_helper<F>(e)); });
    expect((Z(1) << (CB - 1)) <= p && p < (Z(1) << CB), "U01.size-bound:" + nm, 2, [&] { return nm; });
}
// values produced for curve fields that have a generator and roots of unity
template<mp_size_t n, const bigint<n> &m> void roots(const Fp_model<n, m> &) {
    typedef Fp_model<n, m> F; typedef PF<n, m> P; const std::string nm = FI<F>::name(); if (!mon::want(nm)) return;
    const Z p = P::p(); Rng &r = rng(); size_t s = 0; { Z t = p - 1; while (!ref::bit(t, s)) ++s; }
    F cs = coset_shift<F>(); expect(P::canon(cs) && P::dec(cs) == ref::powm(P::dec(F::multiplicative_generator), 2, p), "U01.coset_shift:" + nm, 1, [&] { return hex(P::dec(cs)); });
    auto one = [&](size_t nn) {
        at("U01.root:" + nm); info("n=" + std::to_string(nn));
        bool pow2 = nn && !(nn & (nn - 1)); size_t l = 0; while (((size_t)1 << l) < nn && l < 63) ++l;
        bool want = pow2 && l <= s, threw = false; F w;
        try { w = get_root_of_unity<F>(nn); } catch (const std::invalid_argument &) { threw = true; }
        bool ok = want ? !threw : threw;
        if (ok && want) { Z v = P::dec(w); ok = P::canon(w) && (l == 0 ? v == 1 : ref::powm(v, Z(1) << (l - 1), p) == p - 1); }
        expect(ok, "U01.root_of_unity:" + nm, nn, [&] { return "order " + std::to_string(nn) + (threw ? " raised an error" : " gave " + hex(P::dec(w))) + ", two-adicity " + std::to_string(s); });
    };
    for (size_t k = 0; k < 64; ++k) { one((size_t)1 << k); one(((size_t)1 << k) + 1); one(((size_t)1 << k) - 1); if (k > 2) one(((size_t)1 << k) + ((size_t)1 << (k - 2))); }
    for (int i = 0; i < 60; ++i) one(r.next() >> r.below(64));
    for (size_t v = 0; v < 70; ++v) one(v);
    if (s >= 3) { F a = get_root_of_unity<F>(8), b = get_root_of_unity<F>(4); expect(P::dec(b) == ref::powm(P::dec(a), 2, p), "U01.root-consistent:" + nm, 3, [&] { return nm; }); } // successive roots are compatible
}
template<class T> void binv(uint64_t cases) {
    const std::string nm = RF<T>::name(); if (!mon::want(nm)) return; const Field *f = RF<T>::f(); Rng &r = rng();
    for (uint64_t i = 0; i < cases; ++i) {
        at("U01.batch_invert:" + nm); size_t len = i < 4 ? i : r.below(r.chance(1, 6) ? 120 : 20); std::vector<T> v; std::vector<El> a;
        for (size_t k = 0; k < len; ++k) { El e; do e = (k && r.chance(1, 5)) ? related(f, a.back(), r) : hostile_el(f, r); while (f->is_zero(e)); a.push_back(e); v.push_back(enc<T>(e)); }
        info(std::to_string(len) + " elements" + (len ? ", first " + ref::str(a[0]) : "")); batch_invert<T>(v);
        bool ok = v.size() == len; size_t bad = 0; uint64_t h = len; for (size_t k = 0; ok && k < len; ++k) { h = h * 31 + ref::hash(a[k]); if (!canon(v[k]) || f->mul(dec(v[k]), a[k]) != f->one()) { ok = false; bad = k; } }
        expect(ok, "U01.batch_invert:" + nm, h, [&] { return "element " + std::to_string(bad) + " of " + std::to_string(len) + ": " + (bad < len ? ref::str(a[bad]) : ""); }, len > 0);
    }
}
template<class G> void bin(uint64_t cases) {
    const GF &f = BinT<G>::g(); const std::string N = BinT<G>::name(); if (!mon::want(N)) return; Rng &r = rng();
    for (uint64_t i = 0; i < cases; ++i) {
        at("U01.batch_invert:" + N); size_t len = i < 4 ? i : r.below(30); std::vector<G> v; std::vector<GF::W> a; uint64_t h = len;
        for (size_t k = 0; k < len; ++k) { GF::W e; do e = f.hostile(r); while (f.is_zero(e)); a.push_back(e); v.push_back(gf<G>(e)); h = h * 31 + f.hash(e); } info(std::to_string(len) + " elements");
        batch_invert<G>(v); bool ok = v.size() == len; for (size_t k = 0; ok && k < len; ++k) ok = f.mul(v[k].to_words(), a[k]) == f.one();
        expect(ok, "U01.batch_invert:" + N, h, [&] { return std::to_string(len) + " elements"; }, len > 0);
    }
}
template<class G> void bint(const char *nm, size_t words, size_t bits) {
    Rng &r = rng(); const std::string N = nm; G e = G::one(); at("U01.helpers:" + N);
    expect(get_field_type<G>(e) == additive_field_type && log_of_field_size_helper<G>(e) == bits && soundness_log_of_field_size_helper<G>(e) == bits, "U01.size-helpers:" + N, 1, [&] { return N; });
    for (int i = 0; i < 200; ++i) { std::vector<uint64_t> w(words); for (auto &x : w) x = mon::u64_mpz(hostile_bits(r, 64)); G x; x.from_words(w); for (size_t k = 0; k < words; ++k) expect(get_word_of_field_elem<G>(x, k) == w[k], "U01.word:" + N, w[k] + k, [&] { return N; }); }
    G sq = G::multiplicative_generator * G::multiplicative_generator; expect(coset_shift<G>() == sq, "U01.coset_shift:" + N, 1, [&] { return N; });
}
int main(int argc, char **argv) {
    mon::init(argc, argv); init_all(); cust::init(); uint64_t c = 60 * mon::M().scale;
    vec(alt_bn128_Fr(), c); vec(alt_bn128_Fq(), c); vec(bls12_381_Fr(), c); vec(bls12_381_Fq(), c); vec(edwards_Fr(), c); vec(edwards_Fq(), c); vec(mnt4_Fr(), c); vec(mnt4_Fq(), c); vec(cust::F1b(), c); vec(cust::F2(), c); vec(cust::F8(), c / 2);
    roots(alt_bn128_Fr()); roots(alt_bn128_Fq()); roots(bls12_381_Fr()); roots(bls12_381_Fq()); roots(edwards_Fr()); roots(edwards_Fq()); roots(mnt4_Fr()); roots(mnt4_Fq());
    c = 20 * mon::M().scale;
    binv<alt_bn128_Fr>(c); binv<alt_bn128_Fq2>(c); binv<bls12_381_Fr>(c); binv<bls12_381_Fq>(c); binv<bls12_381_Fq2>(c); binv<bls12_381_Fq12>(c / 6 + 4); binv<edwards_Fr>(c); binv<edwards_Fq3>(c); binv<mnt4_Fr>(c); binv<mnt4_Fq4>(c / 3 + 4); binv<mnt6_Fq3>(c); binv<mnt6_Fq6>(c / 3 + 4); binv<alt_bn128_Fq6>(c / 3 + 4);
    bin<gf32>(c); bin<gf64>(c); bin<gf128>(c); bin<gf192>(c); bin<gf256>(c);
    bint<gf64>("gf64", 1, 64); bint<gf128>("gf128", 2, 128); bint<gf192>("gf192", 3, 192); bint<gf256>("gf256", 4, 256);
    return mon::finish();
}
