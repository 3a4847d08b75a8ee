// One registry of library operations on fixed inputs. Operation i of op o always computes the same
// mathematical value: C01 runs them from many threads, C02 under many thread counts, I01 between
// initialisations, B01 in every build configuration, Z01 in random sequences.
#pragma once
#include "ser.hpp"
#include <libff/algebra/scalar_multiplication/multiexp.hpp>
#include <libff/algebra/scalar_multiplication/wnaf.hpp>
#include <libff/algebra/field_utils/field_utils.hpp>
#include <libff/algebra/field_utils/algorithms.hpp>
#include <libff/common/rng.hpp>
#include <libff/common/double.hpp>
namespace lb {
typedef std::function<std::string()> Res;             // the result, rendered canonically (outside the library) when called
struct Op { std::string name; unsigned cost; std::function<Res(unsigned)> f; };
struct Ops {
    std::vector<Op> v; static const unsigned K = 6;    // K inputs per operation
    void add(const std::string &n, unsigned cost, std::function<Res(unsigned)> f) { v.push_back({n, cost, f}); }
};
inline Ops &ops() { static Ops o; return o; }
template<class T> Res R(const T &x) { return [x] { return V<T>::key(x); }; }
inline Res Rs(const std::string &s) { return [s] { return s; }; }
inline Res R2(Res a, Res b) { return [a, b] { return a() + " | " + b(); }; }
template<class G> Res RG(const G &g) { return R<G>(g); }
template<class T> struct In { std::vector<T> v; }; // inputs
// inputs are built without library arithmetic
template<class T> std::shared_ptr<std::vector<T>> inputs(Rng &r, size_t n) { auto p = std::make_shared<std::vector<T>>(); for (size_t i = 0; i < n; ++i) p->push_back(V<T>::gen(r)); return p; }
template<class T> std::shared_ptr<std::vector<T>> nonzeros(Rng &r, size_t n) { auto p = std::make_shared<std::vector<T>>(); while (p->size() < n) { El e = hostile_el(RF<T>::f(), r); if (!RF<T>::f()->is_zero(e)) p->push_back(enc<T>(e)); } return p; }
template<class T> std::string stream(const T &x) { std::ostringstream o; o << x; return o.str(); }

template<class T> void field_basic(Rng &r) {
    const unsigned K = Ops::K; const std::string n = RF<T>::name(); auto A = inputs<T>(r, K), B = inputs<T>(r, K), N = nonzeros<T>(r, K); Ops &o = ops(); auto ex = std::make_shared<std::vector<Z>>(); for (unsigned i = 0; i < K; ++i) ex->push_back(hostile_bits(r, 200));
    o.add(n + ".mul", 1, [=](unsigned i) { return R<T>((*A)[i] * (*B)[i]); }); o.add(n + ".sqr", 1, [=](unsigned i) { T x = (*A)[i]; T s = x.squared(); x.square(); return R2(R(s), R(x)); });
    o.add(n + ".addsub", 1, [=](unsigned i) { T x = (*A)[i], y = (*B)[i]; T z = x + y; z -= -x; z += y; return R2(R<T>(x - y), R(z)); });
    o.add(n + ".inv", 2, [=](unsigned i) { T x = (*N)[i].inverse(); T y = (*N)[i]; y.invert(); return R2(R(x), R(y)); });
    o.add(n + ".pow", 5, [=](unsigned i) { T x = (*A)[i] ^ bz<4>((*ex)[i]); T y = (*A)[i] ^ 65537ul; T z = (*B)[i]; z ^= 77ul; return R2(R(x), R2(R(y), R(z))); });
    o.add(n + ".compare", 1, [=](unsigned i) { bool a = (*A)[i] == (*B)[i], b = (*A)[i] != (*B)[i], c = (*A)[i].is_zero(); return Rs(std::to_string(a) + std::to_string(b) + std::to_string(c)); });
    o.add(n + ".sqrt", 20, [=](unsigned i) { T s = (*N)[i] * (*N)[i]; T q = s.sqrt(); T e = q * q; return R2(R(e), R(s)); });
    o.add(n + ".frobenius", 2, [=](unsigned i) { T x = (*A)[i].Frobenius_map(1), y = (*A)[i].Frobenius_map(5); return R2(R(x), R(y)); });
    o.add(n + ".words", 1, [=](unsigned i) { auto w = (*A)[i].to_words(); T x; bool ok = x.from_words(w); return R2(R(x), Rs(std::to_string(ok) + "/" + std::to_string(w.size()))); });
    o.add(n + ".io", 4, [=](unsigned i) { std::string s = stream((*A)[i]); std::istringstream in(s); T x; in >> x; return R(x); });
    o.add(n + ".batch_invert", 3, [=](unsigned i) { std::vector<T> v(N->begin(), N->end()); v.resize(1 + i % Ops::K); batch_invert<T>(v); return R(v); });
    o.add(n + ".random", 1, [=](unsigned) { T x = T::random_element(); bool c = canon(x); return Rs(c ? "canonical" : "not canonical"); });
    o.add(n + ".constants", 1, [=](unsigned) { return R2(R(T::one()), R2(R(T::zero()), R(T::zero() - T::one()))); });
}
template<class T> void field_prime(Rng &r) {
    field_basic<T>(r); const unsigned K = Ops::K; const std::string n = RF<T>::name(); auto A = inputs<T>(r, K); Ops &o = ops(); const size_t L = sizeof(T) / 8;
    o.add(n + ".bigint", 1, [=](unsigned i) { auto b = (*A)[i].as_bigint(); T x(b); T y("123456789012345678901234567890"), z(-77l); (void)L; return R2(R(x), R2(R(b), R2(R(y), R(z)))); });
    o.add(n + ".bits", 5, [=](unsigned i) { bit_vector v = convert_field_element_to_bit_vector<T>((*A)[i]); T x = convert_bit_vector_to_field_element<T>(v); return R2(R(x), Rs(V<std::vector<bool>>::key(v))); });
    o.add(n + ".pack", 5, [=](unsigned i) { bit_vector v; for (unsigned k = 0; k < 300 + 50 * i; ++k) v.push_back((k * 7 + i) % 3 == 0); return R(pack_bit_vector_into_field_element_vector<T>(v)); });
    o.add(n + ".root_of_unity", 3, [=](unsigned i) { return R(get_root_of_unity<T>(1ull << std::min<size_t>(i, T::s))); });
    o.add(n + ".sha512_rng", 2, [=](unsigned i) { return R(SHA512_rng<T>(1000 + i)); });
    o.add(n + ".generator", 1, [=](unsigned) { return R2(R<T>(T::multiplicative_generator), R2(R<T>(T::root_of_unity), R<T>(T::nqr))); });
}
template<class G> void binary_ops(Rng &r) {
    const unsigned K = Ops::K; const std::string n = BinT<G>::name(); auto A = inputs<G>(r, K), B = inputs<G>(r, K); Ops &o = ops(); auto N = std::make_shared<std::vector<G>>(); while (N->size() < K) { auto w = BinT<G>::g().hostile(r); if (!BinT<G>::g().is_zero(w)) N->push_back(gf<G>(w)); }
    o.add(n + ".mul", 1, [=](unsigned i) { G x = (*A)[i]; x *= (*B)[i]; return R2(R<G>((*A)[i] * (*B)[i]), R(x)); }); o.add(n + ".addsqr", 1, [=](unsigned i) { return R2(R<G>((*A)[i] + (*B)[i] - G::one()), R<G>((*A)[i].squared())); });
    o.add(n + ".inv", 3, [=](unsigned i) { return R<G>((*N)[i].inverse()); }); o.add(n + ".pow", 3, [=](unsigned i) { return R<G>((*A)[i] ^ (123456789ul + i)); }); o.add(n + ".sqrt", 3, [=](unsigned i) { return R<G>((*A)[i].sqrt()); });
    o.add(n + ".io", 1, [=](unsigned i) { std::istringstream in(stream((*A)[i])); G x; in >> x; return R(x); }); o.add(n + ".batch_invert", 3, [=](unsigned i) { std::vector<G> v(N->begin(), N->end()); v.resize(1 + i); batch_invert<G>(v); return R(v); });
    o.add(n + ".words", 1, [=](unsigned i) { G x; x.from_words((*A)[i].to_words()); return R(x); }); o.add(n + ".random", 1, [=](unsigned) { G x = G::random_element(); return Rs(x == x ? "ok" : "not equal to itself"); }); o.add(n + ".generator", 1, [=](unsigned) { return R<G>(G::multiplicative_generator); });
}
template<class G> void group_ops(Rng &r) {
    const unsigned K = Ops::K; const std::string n = CI<G>::name(); Ops &o = ops(); typedef typename G::scalar_field S; auto &pool = gpool<G>(); auto P = std::make_shared<std::vector<G>>(), Q = std::make_shared<std::vector<G>>(), U = std::make_shared<std::vector<G>>(); auto sc = std::make_shared<std::vector<S>>(), sn = std::make_shared<std::vector<S>>();
    for (unsigned i = 0; i < K; ++i) { Pt a = r.pick(pool.sub).first, b = i == 1 ? a : i == 2 ? pool.C.neg(a) : i == 3 ? pool.C.O() : r.pick(pool.sub).first; P->push_back(encr<G>(a, r)); Q->push_back(encr<G>(b, r)); U->push_back(encr<G>(V<G>::pt(r), r)); } for (unsigned i = 0; i < 40; ++i) { sc->push_back(enc<S>(El{hostile_mod(r, CI<G>::order())})); sn->push_back(enc<S>(El{i % 5 == 0 ? Z(0) : i % 5 == 1 ? Z(1) : hostile_mod(r, CI<G>::order())})); }
    auto big = std::make_shared<std::vector<G>>(); for (unsigned i = 0; i < 40; ++i) big->push_back(encr<G>(i == 7 ? pool.C.O() : pool.fresh(r).first, r)); auto spec = std::make_shared<std::vector<G>>(); for (auto &g : *big) spec->push_back(encs<G>(decp(g)));
    o.add(n + ".add", 2, [=](unsigned i) { G x = (*P)[i] + (*Q)[i]; G y = (*P)[i] - (*Q)[i]; return R2(R(x), R(y)); }); o.add(n + ".dbl", 1, [=](unsigned i) { return R2(R((*P)[i].dbl()), R<G>(-(*P)[i])); });
    o.add(n + ".mixed_add", 1, [=](unsigned i) { return R((*P)[i].mixed_add((*spec)[i])); });
    o.add(n + ".compare", 1, [=](unsigned i) { bool a = (*P)[i] == (*Q)[i], b = (*P)[i] != (*Q)[i], c = (*Q)[i].is_zero(), d = (*U)[i].is_well_formed(); return Rs(std::to_string(a) + std::to_string(b) + std::to_string(c) + std::to_string(d)); });
    o.add(n + ".affine", 2, [=](unsigned i) { G x = (*P)[i], y = (*Q)[i]; x.to_affine_coordinates(); y.to_special(); return R2(R(x), R2(R(y), Rs(std::to_string(y.is_special())))); });
    o.add(n + ".scalar_mul", 20, [=](unsigned i) { return R<G>((*sc)[i] * (*P)[i]); });
    o.add(n + ".wnaf_mul", 20, [=](unsigned i) { auto b = (*sc)[i].as_bigint(); return R(opt_window_wnaf_exp<G, S::num_limbs>((*P)[i], b, b.num_bits())); });
    o.add(n + ".io", 8, [=](unsigned i) { std::istringstream in(stream((*U)[i])); G x; in >> x; return R(x); });
    o.add(n + ".random", 20, [=](unsigned) { G x = G::random_element(); return Rs(x.is_well_formed() ? "well formed" : "not well formed"); });
    o.add(n + ".constants", 1, [=](unsigned) { std::string t; for (auto x : G::wnaf_window_table) t += std::to_string(x) + ","; t += "/"; for (auto x : G::fixed_base_exp_window_table) t += std::to_string(x) + ","; return R2(R(G::one()), R2(R(G::zero()), Rs(t))); });
    o.add(n + ".batch_to_special", 4, [=](unsigned i) { std::vector<G> v(big->begin() + i, big->begin() + 9 + 2 * i); batch_to_special<G>(v); bool s = true; for (auto &g : v) s = s && g.is_special(); return R2(R(v), Rs(s ? "special" : "not special")); });
#define OME(M, TAG, LEN, BASES) o.add(n + "." TAG, 60, [=](unsigned i) { size_t l = LEN; return R(multi_exp<G, S, M>(BASES->begin(), BASES->begin() + l, sc->begin(), sc->begin() + l, i % 3 == 0 ? 1 : 2 + i)); });
    OME(multi_exp_method_naive, "multi_exp_naive", 4 + i, big) OME(multi_exp_method_bos_coster, "multi_exp_bos_coster", 3 + 3 * i, big) OME(multi_exp_method_BDLO12, "multi_exp_BDLO12", 9 + 3 * i, spec) // special form, as USE_MIXED_ADDITION requires
    o.add(n + ".multi_exp_mixed", 60, [=](unsigned i) { size_t l = 9 + 4 * i; return R(multi_exp_with_mixed_addition<G, S, multi_exp_method_BDLO12>(spec->begin(), spec->begin() + l, sn->begin(), sn->begin() + l, 1 + i)); });
    auto tab = std::make_shared<window_table<G>>(); { Pt base = pool.sub.back().first; const size_t nb = ref::bits(CI<G>::order()); for (size_t o2 = 0; o2 < (nb + 2) / 3; ++o2) { std::vector<G> row; Pt q = pool.C.O(); for (size_t k = 0; k < 8; ++k) { row.push_back(encs<G>(q)); q = pool.C.add(q, base); } tab->push_back(row); base = q; } } // rows of multiples, from the reference model
    o.add(n + ".window_table", 60, [=](unsigned i) { window_table<G> t = get_window_table<G>(30 + i, 2 + i % 3, (*P)[i]); return R(t[0]); });
    o.add(n + ".batch_exp", 60, [=](unsigned i) { std::vector<S> s(sc->begin() + i, sc->begin() + 3 * i + 2); return R2(R(batch_exp<G, S>(size_t(ref::bits(CI<G>::order())), 3, *tab, s)), R(batch_exp_with_coeff<G, S>(size_t(ref::bits(CI<G>::order())), 3, *tab, (*sc)[20], s))); });
}
template<class pp> void pairing_ops(const std::string &n, Rng &r, int part) {
    const unsigned K = Ops::K; typedef typename pp::G1_type G1; typedef typename pp::G2_type G2; typedef typename pp::Fqk_type GT; Ops &o = ops(); auto P = std::make_shared<std::vector<G1>>(); auto Q = std::make_shared<std::vector<G2>>(); auto A = nonzeros<GT>(r, K); auto pc = [](const G1 &p) { return pp::precompute_G1(p); }; auto qc = [](const G2 &q) { return pp::precompute_G2(q); };
    for (unsigned i = 0; i < K; ++i) { P->push_back(encr<G1>(i == 4 ? CI<G1>::C().O() : r.pick(gpool<G1>().sub).first, r)); Q->push_back(encr<G2>(i == 5 ? CI<G2>::C().O() : r.pick(gpool<G2>().sub).first, r)); }
    if (part != 2) {
    o.add(n + ".reduced_pairing", 150, [=](unsigned i) { return R<GT>(pp::reduced_pairing((*P)[i], (*Q)[i])); });
    o.add(n + ".pairing", 150, [=](unsigned i) { return R<GT>(pp::final_exponentiation(pp::pairing((*P)[i], (*Q)[(i + 1) % Ops::K]))); });
    o.add(n + ".unitary", 40, [=](unsigned i) { GT u = (*A)[i].unitary_inverse() * (*A)[i].inverse(); return R2(R(u), R<GT>(u.unitary_inverse())); });
    }
    if (part != 1) {
    auto p1 = std::make_shared<decltype(pp::precompute_G1(G1()))>(pc((*P)[0])); auto q1 = std::make_shared<decltype(pp::precompute_G2(G2()))>(qc((*Q)[0])); // shared, read only
    o.add(n + ".shared_precomputation", 150, [=](unsigned i) { auto a = pp::precompute_G1((*P)[i]); GT f = pp::miller_loop(a, *q1); return R<GT>(pp::final_exponentiation(f)); });
    o.add(n + ".double_miller_loop", 150, [=](unsigned i) { auto b = pp::precompute_G2((*Q)[i % 4]); GT f = pp::double_miller_loop(*p1, *q1, *p1, b); return R<GT>(pp::final_exponentiation(f)); });
    o.add(n + ".precompute_equal", 30, [=](unsigned i) { bool a = pp::precompute_G2((*Q)[0]) == *q1, b = pp::precompute_G1((*P)[i]) == *p1; return Rs(std::to_string(a) + std::to_string(b)); });
    }
}
template<class pp> void cyclotomic_ops(const std::string &n, Rng &r) { const unsigned K = Ops::K; typedef typename pp::Fqk_type GT; auto E = std::make_shared<std::vector<GT>>(); const Field *F = RF<GT>::f(); const Z q = F->p, q2 = q * q; const size_t k = F->n; const Z ex = k == 12 ? Z((ref::ipow(q, 6) - 1) * (q2 + 1)) : k == 6 ? Z((ref::ipow(q, 3) - 1) * (q + 1)) : Z(q2 - 1); for (unsigned i = 0; i < K; ++i) { El x = hostile_el(RF<GT>::f(), r); if (RF<GT>::f()->is_zero(x)) x = RF<GT>::f()->one(); E->push_back(enc<GT>(RF<GT>::f()->pow(x, ex))); } ops().add(n + ".cyclotomic", 40, [=](unsigned i) { return R2(R<GT>((*E)[i].cyclotomic_squared()), R<GT>((*E)[i].cyclotomic_exp(bz<2>(Z(987654321) << i)))); }); }
template<class pp> void affine_ops(const std::string &n, Rng &r) { typedef typename pp::Fqk_type GT; typedef typename pp::G1_type G1; typedef typename pp::G2_type G2; auto P = std::make_shared<std::vector<G1>>(); auto Q = std::make_shared<std::vector<G2>>(); for (unsigned i = 0; i < Ops::K; ++i) { P->push_back(encr<G1>(r.pick(gpool<G1>().sub).first, r)); Q->push_back(encr<G2>(r.pick(gpool<G2>().sub).first, r)); } ops().add(n + ".affine_reduced_pairing", 200, [=](unsigned i) { return R<GT>(pp::affine_reduced_pairing((*P)[i], (*Q)[i])); }); }
inline void misc_ops(Rng &) {
    Ops &o = ops();
    o.add("utils", 1, [](unsigned i) { std::string s; for (size_t n : {size_t(1), size_t(5) + i, size_t(1000) * (i + 1)}) s += std::to_string(log2(n)) + "," + std::to_string(get_power_of_two(n)) + "," + std::to_string(bitreverse(n & 31, 5)) + "," + std::to_string(div_ceil(n, 3)) + ";"; return Rs(s); });
    o.add("bit_vector_io", 1, [](unsigned i) { bit_vector v; for (unsigned k = 0; k < 20 + i; ++k) v.push_back((k * k + i) % 3 == 0); std::stringstream ss; serialize_bit_vector(ss, v); bit_vector w; deserialize_bit_vector(ss, w); return R(w); });
    o.add("FORMAT", 1, [](unsigned i) { return Rs(FORMAT("p", "%u-%s", i, "x")); });
    o.add("Double", 1, [](unsigned i) { Double a(1.5 + i), b(2.25); Double c = a * b + a.inverse() - b; char s[64]; snprintf(s, 64, "%.9g", c.val.real()); return Rs(s); });
    o.add("find_wnaf", 1, [](unsigned i) { auto w = find_wnaf<2>(2 + i % 4, bz<2>(Z("987654321987654321987654321") * (i + 1))); std::string s; for (long d : w) s += std::to_string(d) + ","; return Rs(s); });
    o.add("bigint", 1, [](unsigned i) { bigint<4> a("1234567890123456789012345678901234567890"); a.data[0] += i; std::string s = std::to_string(a.num_bits()) + "," + std::to_string(a.test_bit(70 + i)) + "," + std::to_string(a.as_ulong()); std::istringstream in(stream(a)); bigint<4> b; in >> b; return R2(R(b), Rs(s)); });
    o.add("vector_io", 6, [](unsigned i) { Rng r(i + 5); auto v = V<std::vector<std::vector<alt_bn128_Fr>>>::gen(r); std::stringstream ss; ss << v; decltype(v) w; ss >> w; return R(w); });
}
// Groups: one per curve, the field types MNT4 and MNT6 share, and the rest (binary fields, utilities).
enum { G_ALT, G_BLS, G_EDW, G_MNT4, G_MNT6, G_MNTF, G_MISC, G_ALL };
inline const char *group_name(int g) { static const char *n[] = {"alt_bn128", "bls12_381", "edwards", "mnt4", "mnt6", "mnt4/mnt6 fields", "misc"}; return n[g]; }
// part 1: operations whose inputs need no library arithmetic, part 2: the rest, 0: everything. The seed fixes the inputs,
// whichever groups are built and in whatever order. A group needs its curve initialised (G_MNTF either MNT curve, G_MISC alt_bn128).
inline void build_group(int g, uint64_t seed, int part = 0) {
    Rng r(seed * 77 + 3 + 1000 * g + (part == 2)); mon::Rng keep = mon::M().rng; mon::M().rng = Rng(seed * 99 + 1 + g); // pools draw from the global generator
    const bool a = part != 2;
    switch (g) {
    case G_ALT: if (a) { field_prime<alt_bn128_Fr>(r); field_prime<alt_bn128_Fq>(r); field_basic<alt_bn128_Fq2>(r); field_basic<alt_bn128_Fq6>(r); field_basic<alt_bn128_Fq12>(r); group_ops<alt_bn128_G1>(r); group_ops<alt_bn128_G2>(r); cyclotomic_ops<alt_bn128_pp>("alt_bn128", r); } pairing_ops<alt_bn128_pp>("alt_bn128", r, part); break;
    case G_BLS: if (a) { field_prime<bls12_381_Fr>(r); field_prime<bls12_381_Fq>(r); field_basic<bls12_381_Fq2>(r); field_basic<bls12_381_Fq6>(r); field_basic<bls12_381_Fq12>(r); group_ops<bls12_381_G1>(r); group_ops<bls12_381_G2>(r); cyclotomic_ops<bls12_381_pp>("bls12_381", r); } pairing_ops<bls12_381_pp>("bls12_381", r, part); break;
    case G_EDW: if (a) { field_prime<edwards_Fr>(r); field_prime<edwards_Fq>(r); field_basic<edwards_Fq3>(r); field_basic<edwards_Fq6>(r); group_ops<edwards_G1>(r); group_ops<edwards_G2>(r); cyclotomic_ops<edwards_pp>("edwards", r); } pairing_ops<edwards_pp>("edwards", r, part); break;
    case G_MNT4: if (a) { field_basic<mnt4_Fq2>(r); field_basic<mnt4_Fq4>(r); group_ops<mnt4_G1>(r); group_ops<mnt4_G2>(r); cyclotomic_ops<mnt4_pp>("mnt4", r); affine_ops<mnt4_pp>("mnt4", r); } pairing_ops<mnt4_pp>("mnt4", r, part); break;
    case G_MNT6: if (a) { field_basic<mnt6_Fq3>(r); field_basic<mnt6_Fq6>(r); group_ops<mnt6_G1>(r); group_ops<mnt6_G2>(r); cyclotomic_ops<mnt6_pp>("mnt6", r); affine_ops<mnt6_pp>("mnt6", r); } pairing_ops<mnt6_pp>("mnt6", r, part); break;
    case G_MNTF: if (a) { field_prime<mnt4_Fr>(r); field_prime<mnt4_Fq>(r); } break;
    case G_MISC: if (a) { binary_ops<gf32>(r); binary_ops<gf64>(r); binary_ops<gf128>(r); binary_ops<gf192>(r); binary_ops<gf256>(r); misc_ops(r); } break;
    }
    mon::M().rng = keep;
}
inline void build_ops(uint64_t seed, int part = 0) { for (int g = 0; g < G_ALL; ++g) build_group(g, seed, part); }
}
