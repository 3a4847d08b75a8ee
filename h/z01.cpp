// Z01: long random sequences over the whole interface, boundary sizes and empty containers included, with results kept,
// re-rendered and dropped at random, under sanitizers, checked containers, assertions and valgrind.
#define MON_MAIN
#include "ops.hpp"
#include <libff/common/profiling.hpp>
#include <libff/algebra/curves/curve_utils.hpp>
using namespace lb; using namespace mon;
static bool SLOW = false;
static std::vector<char> edge_flag;   // which registered operations are edge operations
template<class T> static Res RV(const std::vector<T> &v) { return [v] { return V<std::vector<T>>::key(v); }; }
static Res num(long long x) { return Rs(std::to_string(x)); }
template<class T> static void field_edges(Rng &r) {
    Ops &o = ops(); const std::string n = std::string("edge.") + RF<T>::name(); auto A = inputs<T>(r, Ops::K); auto N = nonzeros<T>(r, Ops::K);
    o.add(n + ".default", 1, [=](unsigned) { T x; T y(x); T z; z = y; z = static_cast<T &>(z); T *p = new T(); T w = *p; delete p; bool e = x == T::zero() && w.is_zero() && !(z != y); return R2(R(x), num(e)); });
    o.add(n + ".alias", 2, [=](unsigned i) { T x = (*A)[i]; x += x; x -= x; x = (*A)[i]; x *= x; x = x + x; x = x * x - x; x.square(); x = x.squared(); return R(x); });
    o.add(n + ".print", 1, [=](unsigned i) { (*A)[i].print(); T().print(); std::cout << (*A)[i] << std::endl; return num(i); });
    o.add(n + ".sizes", 1, [=](unsigned) { std::ostringstream c; c << T::field_char().num_bits(); return Rs(std::to_string(T::ceil_size_in_bits()) + "/" + std::to_string(T::floor_size_in_bits()) + "/" + std::to_string(T::extension_degree()) + "/" + c.str()); });
    o.add(n + ".pow-edges", 4, [=](unsigned i) { T x = (*A)[i], a = x ^ 0ul, b = x ^ 1ul, c = x ^ ~0ul, d = x ^ bz<1>(0), e = x ^ bz<6>(Z(i)); return R2(R(a), R2(R(b), R2(R(c), R2(R(d), R(e))))); });
    o.add(n + ".power-functions", 4, [=](unsigned i) { T x = (*A)[i]; T a = power<T>(x, 0ul), b = power<T>(x, 5ull), c = power<T, 3>(x, bz<3>(Z(i) << 100)); return R2(R(a), R2(R(b), R(c))); });
    o.add(n + ".batch-edges", 2, [=](unsigned i) { std::vector<T> v; batch_invert<T>(v); std::vector<T> w(1 + i % 3, (*N)[i]); batch_invert<T>(w); return R2(RV(v), RV(w)); });
    o.add(n + ".frobenius-powers", 3, [=](unsigned i) { T x = (*A)[i].Frobenius_map(0), y = (*A)[i].Frobenius_map(11 + 13 * i), z = (*A)[i].Frobenius_map(1000003); return R2(R(x), R2(R(y), R(z))); });
    o.add(n + ".words-longer", 1, [=](unsigned i) { auto w = (*A)[i].to_words(); w.push_back(0); T x; x.from_words(w); return R(x); });
    o.add(n + ".random-excluding", 2, [=](unsigned i) { T a = random_element_non_zero<T>(), b = random_element_non_zero_one<T>(), c = random_element_exclude<T>((*A)[i]); return num(!a.is_zero() && !b.is_zero() && b != T::one() && c != (*A)[i]); });
    o.add(n + ".reserialize", 3, [=](unsigned i) { T x = reserialize<T>((*A)[i]); T z = reserialize<T>(T::zero()); std::vector<T> e = reserialize<std::vector<T>>({}); std::vector<T> v = reserialize<std::vector<T>>(std::vector<T>(A->begin(), A->begin() + i)); return R2(R(x), R2(R(z), R2(RV(e), RV(v)))); });
    o.add(n + ".inner-edges", 1, [=](unsigned i) { const std::vector<T> e; T a = inner_product<T>(e.begin(), e.end(), e.begin(), e.end()), b = inner_product<T>(A->begin(), A->begin() + i, N->begin(), N->begin() + i); return R2(R(a), R(b)); });
    o.add(n + ".containers", 1, [=](unsigned i) { std::vector<T> v(3 + i); v[i] = (*A)[i]; v.insert(v.begin(), T::one()); v.erase(v.begin() + 1); std::vector<T> w(std::move(v)); v = w; std::swap(v[0], v[1]); return RV(v); });
}
template<class T> static void prime_edges(Rng &r) {
    field_edges<T>(r); Ops &o = ops(); const std::string n = std::string("edge.") + RF<T>::name(); auto A = inputs<T>(r, Ops::K);
    o.add(n + ".clear", 1, [=](unsigned i) { T x = (*A)[i]; x.clear(); return R2(R(x), num(x.as_ulong())); });
    o.add(n + ".integers", 1, [=](unsigned i) { static const long v[] = {0, 1, -1, LONG_MAX, LONG_MIN, -4096}; T x(v[i]), y(v[i], true); T s("0"), t(i % 2 ? "1" : "340282366920938463463374607431768211455"); return R2(R(x), R2(R(s), R(t))); });
    o.add(n + ".roots", 2, [=](unsigned i) { std::string s; for (size_t k : {size_t(1), size_t(2), size_t(1) << T::s, size_t(3), size_t(6) + i}) { try { s += V<T>::key(get_root_of_unity<T>(k)); } catch (const std::invalid_argument &e) { s += "refused"; } s += ","; } return Rs(s); });
    o.add(n + ".bits-edges", 4, [=](unsigned i) { bit_vector e; T z = convert_bit_vector_to_field_element<T>(e); bit_vector b = convert_field_element_to_bit_vector<T>((*A)[i], 1 + i * 40); std::vector<T> p = pack_bit_vector_into_field_element_vector<T>(e), q = pack_bit_vector_into_field_element_vector<T>(b, 1 + i * 7), u = convert_bit_vector_to_field_element_vector<T>(b); bit_vector w = convert_field_element_vector_to_bit_vector<T>(std::vector<T>()); std::vector<T> pi = pack_int_vector_into_field_element_vector<T>(std::vector<size_t>(), 8), pj = pack_int_vector_into_field_element_vector<T>(std::vector<size_t>{1, 2, 3, i}, 4 + i); return R2(R(z), R2(RV(p), R2(RV(q), R2(RV(u), R2(RV(pi), RV(pj)))))); });
    o.add(n + ".field-info", 1, [=](unsigned i) { return R2(R(coset_shift<T>()), Rs(std::to_string(log_of_field_size_helper<T>((*A)[i])) + "/" + std::to_string(soundness_log_of_field_size_helper<T>((*A)[i])) + "/" + std::to_string(get_word_of_field_elem<T>((*A)[i], 0)) + "/" + std::to_string((*A)[i].as_ulong()) + std::to_string(T::modulus_is_valid()))); });
    o.add(n + ".generators", 1, [=](unsigned) { return R2(R(T::geometric_generator()), R(T::arithmetic_generator())); });
    o.add(n + ".sha512-edges", 1, [=](unsigned i) { return R2(R(SHA512_rng<T>(0)), R(SHA512_rng<T>(~uint64_t(0) - i))); });
    o.add(n + ".bigint-edges", 1, [=](unsigned i) { typedef bigint<T::num_limbs> B; B z, o1 = B::one(), m = T::field_char(); B x = (*A)[i].as_bigint(); std::string s = std::to_string(z.num_bits()) + std::to_string(o1.num_bits()) + std::to_string(z.is_zero()) + std::to_string(o1.is_even()) + std::to_string(x < m) + std::to_string(m.num_bits()) + std::to_string(x.test_bit(0)) + std::to_string(m.test_bit(m.max_bits() - 1)) + std::to_string(m.test_bit(m.max_bits() + 5)); z.print(); m.print(); m.print_hex(); z.print_hex(); mpz_t t; mpz_init(t); m.to_mpz(t); B y(t); z.to_mpz(t); B y0(t); mpz_clear(t); x.clear(); B rnd; rnd.randomize(); B zs("0"); s += std::to_string(y == m) + std::to_string(y0 == z) + std::to_string(zs != o1) + std::to_string(x.is_zero()); return Rs(s); });
}
template<class G> static void binary_edges(Rng &r) {
    Ops &o = ops(); const std::string n = std::string("edge.") + std::string(BinT<G>::name()); auto A = inputs<G>(r, Ops::K);
    o.add(n + ".default", 1, [=](unsigned i) { G x; G y(x); x = (*A)[i]; x += x; x = (*A)[i]; x *= x; x.square(); x.print(); std::cout << x << std::endl; return R2(R(x), R(y)); });
    o.add(n + ".edges", 2, [=](unsigned i) { std::vector<G> e; batch_invert<G>(e); std::vector<G> v = reserialize<std::vector<G>>(std::vector<G>(A->begin(), A->begin() + i)); G a = (*A)[i] ^ 0ul, b = (*A)[i] ^ ~0ul; G q = random_element_non_zero<G>(); auto w = (*A)[i].to_words(); return R2(RV(v), R2(R(a), R2(R(b), num(w.size() * 10 + !q.is_zero())))); });
    o.add(n + ".info", 1, [=](unsigned i) { return Rs(std::to_string(G::ceil_size_in_bits()) + "/" + std::to_string(G::extension_degree()) + "/" + std::to_string(G::template field_char<1>().as_ulong()) + "/" + std::to_string((*A)[i].is_zero())); });
}
template<class G> static void group_edges(Rng &r) {
    Ops &o = ops(); typedef typename G::scalar_field S; const std::string n = std::string("edge.") + CI<G>::name(); auto A = std::make_shared<std::vector<G>>(), SP = std::make_shared<std::vector<G>>(); auto sc = std::make_shared<std::vector<S>>(); auto &pool = gpool<G>();
    for (unsigned i = 0; i < Ops::K; ++i) { Pt p = i == 0 ? pool.C.O() : r.pick(pool.sub).first; A->push_back(encr<G>(p, r)); SP->push_back(encs<G>(p)); sc->push_back(enc<S>(El{i == 1 ? Z(0) : i == 2 ? Z(1) : hostile_mod(r, CI<G>::order())})); }
    o.add(n + ".default", 2, [=](unsigned i) { G x; G y(x); y = (*A)[i]; y = static_cast<G &>(y); y = y + y; y = y - y; y = -y; G z = x + (*A)[i]; return R2(R(x), R2(R(y), R(z))); });
    o.add(n + ".identity", 2, [=](unsigned i) { G z = G::zero(); G a = z.dbl(), b = z + z, c = z - (*A)[i], d = (*A)[i].mixed_add(G::zero()), e = z.mixed_add((*SP)[i]), f = (*SP)[i].mixed_add((*SP)[i]); z.to_affine_coordinates(); z.to_special(); return R2(R(a), R2(R(b), R2(R(c), R2(R(d), R2(R(e), R2(R(f), num(z.is_zero() + 2 * z.is_special() + 4 * z.is_well_formed()))))))); });
    o.add(n + ".print", 2, [=](unsigned i) { (*A)[i].print(); (*A)[i].print_coordinates(); G().print(); G::zero().print(); G::zero().print_coordinates(); std::cout << (*A)[i] << "\n"; return num(i); });
    o.add(n + ".sizes", 1, [=](unsigned) { return Rs(std::to_string(G::size_in_bits()) + "/" + std::to_string(curve_size_in_bits(std::vector<G>())) + "/" + std::to_string(curve_size_in_bits(*A)) + "/" + std::to_string(G::order().num_bits()) + "/" + std::to_string(G::field_char().num_bits())); });
    o.add(n + ".scalar-edges", 30, [=](unsigned i) { G a = S::zero() * (*A)[i], b = S::one() * (*A)[i], c = (S::zero() - S::one()) * (*A)[i], d = scalar_mul<G, 1>((*A)[i], bz<1>(Z(i))), e = bz<2>(Z(3)) * (*A)[i]; G f = opt_window_wnaf_exp<G, 2>((*A)[i], bz<2>(Z(0)), 0), g = opt_window_wnaf_exp<G, 2>((*A)[i], bz<2>(Z(1)), 1), h = fixed_window_wnaf_exp<G, 1>(1 + i, (*A)[i], bz<1>(Z(~0ul))); return R2(R(a), R2(R(b), R2(R(c), R2(R(d), R2(R(e), R2(R(f), R2(R(g), R(h)))))))); });
    o.add(n + ".batch-edges", 3, [=](unsigned i) { std::vector<G> e; batch_to_special<G>(e); std::vector<G> z(i, G::zero()); batch_to_special<G>(z); std::vector<G> m{G::zero(), (*A)[i], G::zero()}; batch_to_special<G>(m); std::vector<G> nz; G::batch_to_special_all_non_zeros(nz); return R2(RV(e), R2(RV(z), RV(m))); });
#define ZME(M, TAG) o.add(n + ".multi_exp-edges-" TAG, 30, [=](unsigned i) { std::vector<G> v(SP->begin(), SP->begin() + (i % 3)); std::vector<S> s(sc->begin(), sc->begin() + (i % 3)); G a = multi_exp<G, S, M>(v.begin(), v.end(), s.begin(), s.end(), 1 + 3 * (i / 3)), b = multi_exp_with_mixed_addition<G, S, M>(v.begin(), v.end(), s.begin(), s.end(), 1 + i); return R2(R(a), R(b)); });
    ZME(multi_exp_method_naive, "naive") ZME(multi_exp_method_naive_plain, "plain") ZME(multi_exp_method_bos_coster, "bos_coster") ZME(multi_exp_method_BDLO12, "BDLO12")
    o.add(n + ".window-edges", 20, [=](unsigned i) { size_t w = 1 + i % 4; window_table<G> t = get_window_table<G>(1 + i, w, (*A)[i]); std::vector<S> e; std::vector<G> a = batch_exp<G, S>(1 + i, w, t, e), b = batch_exp<G, S>(1 + i, w, t, {S::zero(), S::one()}), c = batch_exp_with_coeff<G, S>(1 + i, w, t, S::one(), e); G d = windowed_exp<G, S>(1 + i, w, t, S::one()); return R2(RV(a), R2(RV(b), R2(RV(c), R2(R(d), num(get_exp_window_size<G>(0) * 100 + get_exp_window_size<G>(1 + i)))))); });
    o.add(n + ".reserialize", 12, [=](unsigned i) { G x = reserialize<G>((*A)[i]); G z = reserialize<G>(G::zero()); std::vector<G> e = reserialize<std::vector<G>>({}), v = reserialize<std::vector<G>>(std::vector<G>(A->begin(), A->begin() + i)); return R2(R(x), R2(R(z), R2(RV(e), RV(v)))); });
    o.add(n + ".random-excluding", 40, [=](unsigned i) { G a = random_element_non_zero<G>(), b = random_element_exclude<G>((*A)[i]); return num(!a.is_zero() && b != (*A)[i]); });
}
template<class pp> static void pairing_edges(const std::string &nm, Rng &r) {
    Ops &o = ops(); typedef typename pp::G1_type G1; typedef typename pp::G2_type G2; typedef typename pp::Fqk_type GT; const std::string n = std::string("edge.") + nm; auto P = std::make_shared<std::vector<G1>>(); auto Q = std::make_shared<std::vector<G2>>(); for (unsigned i = 0; i < Ops::K; ++i) { P->push_back(encr<G1>(i == 0 ? CI<G1>::C().O() : r.pick(gpool<G1>().sub).first, r)); Q->push_back(encr<G2>(i == 1 ? CI<G2>::C().O() : r.pick(gpool<G2>().sub).first, r)); }
    o.add(n + ".precompute", 60, [=](unsigned i) { auto a = pp::precompute_G1((*P)[i]); auto b = pp::precompute_G2((*Q)[i]); auto c = a; auto d = b; decltype(a) e; decltype(b) f; e = c; f = d; std::vector<decltype(b)> v{b, d}; v.pop_back(); return num((e == a) + 2 * (f == b) + 4 * (v[0] == f)); });
    o.add(n + ".precompute-io", 80, [=](unsigned i) { auto a = pp::precompute_G1((*P)[i]); auto b = pp::precompute_G2((*Q)[i]); std::stringstream s, t; s << a; t << b; decltype(a) c; decltype(b) d; s >> c; t >> d; return num((c == a) + 2 * (d == b)); });
    o.add(n + ".identities", 160, [=](unsigned i) { GT f = pp::reduced_pairing(G1::zero(), (*Q)[i]), g = pp::reduced_pairing((*P)[i], G2::zero()); return R2(R(f), R(g)); });
}
static void misc_edges() {
    Ops &o = ops();
    o.add("edge.utils", 1, [](unsigned i) { std::string s; for (size_t n : {size_t(1), size_t(2), size_t(3), (size_t(1) << 63) - i, size_t(1) << 62}) s += std::to_string(log2(n)) + "," + std::to_string(is_power_of_2(n)) + ","; for (size_t l : {1, 2, 31, 63}) s += std::to_string(bitreverse((size_t(1) << (l - 1)) | (i & 1), l)) + ","; s += std::to_string(bitreverse(0, size_t(i) * 0)) + "," + std::to_string(bitreverse(0x8000000000000001ul + i, size_t(64))) + ","; for (int v : {0, 1, -1, 100, -128, 127}) { size_t t = to_twos_complement(v, 8 + i); s += std::to_string(from_twos_complement(t, 8 + i)) + ","; } s += std::to_string(div_ceil(0, 1 + i)) + std::to_string(div_ceil(7, 7)) + std::to_string(is_little_endian()) + std::to_string(get_power_of_two(1)) + std::to_string(round_to_next_power_of_2(5 + i)); try { div_ceil(1, 0); s += "no"; } catch (const std::invalid_argument &) { s += "refused"; } return Rs(s); });
    o.add("edge.int_list", 1, [](unsigned i) { bit_vector a = int_list_to_bits({}, 8), b = int_list_to_bits({0, ~0ul, 1ul << (i * 10)}, 64), c = int_list_to_bits({1, 0, 1}, 1); return R2(R(a), R2(R(b), R(c))); });
    o.add("edge.bit_vector", 1, [](unsigned i) { std::stringstream a, b; bit_vector v(i * 3, true), w(7), x; serialize_bit_vector(a, v); deserialize_bit_vector(a, w); output_bool_vector(b, v); input_bool_vector(b, x); bool f = false; std::stringstream c; output_bool(c, i & 1); input_bool(c, f); return R2(R(w), R2(R(x), num(f))); });
    o.add("edge.format", 1, [](unsigned i) { std::string a = FORMAT("", ""), b = FORMAT("prefix ", "%zu %s %c", size_t(i), std::string(i * 100, 'y').c_str(), 'z'), c = FORMAT(std::string(3000, 'p'), "%d", 5); return Rs(a + b + std::to_string(c.size())); });
    o.add("edge.print", 1, [](unsigned i) { print_vector(std::vector<size_t>(i, i)); print_header("h"); print_separator(); print_indent(); print_mem(); print_mem("here"); print_compilation_info(); print_time("t"); print_cumulative_times(); print_cumulative_op_counts(); print_cumulative_op_counts(true); return num(i); });
    o.add("edge.double", 1, [](unsigned i) { Double a, b(i), c(1.5, -2), d(std::complex<double>(i, 1)); Double e = a + b * c - d; e += e; e -= b; e *= c; e = -e; e = e.squared() + d.inverse() + Double::one() - Double::zero(); Double f = c ^ size_t(i), g = c ^ bz<1>(Z(i)); Double h = Double::random_element(), k = Double::geometric_generator(), l = Double::arithmetic_generator(); bool q = (a == b) + (a != c) + (a < b) + (b > a); char s[128]; snprintf(s, sizeof s, "%.6g %.6g %.6g %d %d", e.val.real(), f.val.real(), g.val.imag(), (int)q, (h.val.real() == h.val.real()) + (k == k) + (l == l)); return R2(Rs(s), num(b.as_ulong() + b.as_bigint().as_ulong())); });
    o.add("edge.containers-io", 3, [](unsigned i) { std::stringstream s; std::map<size_t, std::vector<alt_bn128_Fr>> m, m2; std::set<size_t> a, b; std::vector<std::vector<size_t>> v(i % 3), w(2); for (unsigned k = 0; k < i; ++k) { m[k * 7] = std::vector<alt_bn128_Fr>(k, alt_bn128_Fr(long(k))); a.insert(k * k); } s << m << a << v; s >> m2 >> b >> w; return num((m == m2) + 2 * (a == b) + 4 * (v == w)); });
    o.add("edge.wnaf", 1, [](unsigned i) { std::string s; for (size_t w = 1; w < 9; ++w) for (auto z : {Z(0), Z(1), Z(Z(1) << 63), Z((Z(1) << 64) - 1 - i)}) for (long d : find_wnaf<1>(w, bz<1>(z))) s += std::to_string(d); return num(hs(s) & 0xffffff); });
}
static void curve_init(unsigned g) { switch (g) { case 0: alt_bn128_pp::init_public_params(); break; case 1: bls12_381_pp::init_public_params(); break; case 2: edwards_pp::init_public_params(); break; case 3: mnt4_pp::init_public_params(); break; default: mnt6_pp::init_public_params(); } }
static void paused(const std::function<void()> &f) { struct itimerval tv; memset(&tv, 0, sizeof tv); setitimer(ITIMER_PROF, &tv, nullptr); f(); tv.it_interval = {1, 0}; tv.it_value = {1, 0}; setitimer(ITIMER_PROF, &tv, nullptr); }
int main(int argc, char **argv) {
    mon::init(argc, argv); SLOW = M().arg.compare(0, 2, "vg") == 0; init_all(); Rng r(M().seed * 99991 + 7); const uint64_t seed = M().seed;
    // which part of the interface: one curve per process when the run is slow, else everything
    std::vector<int> gs; if (M().arg.size() && isdigit(M().arg.back())) gs.push_back(M().arg.back() - '0'); else for (int g = 0; g < G_ALL; ++g) gs.push_back(g);
    at("Z01.inputs"); paused([&] { for (int g : gs) {
        if (!SLOW || g != G_BLS) build_group(g, seed % 7 + 1);   // the reference model is slow on bls12_381
        switch (g) {
        case G_ALT: prime_edges<alt_bn128_Fr>(r); prime_edges<alt_bn128_Fq>(r); field_edges<alt_bn128_Fq2>(r); field_edges<alt_bn128_Fq6>(r); field_edges<alt_bn128_Fq12>(r); group_edges<alt_bn128_G1>(r); group_edges<alt_bn128_G2>(r); pairing_edges<alt_bn128_pp>("alt_bn128", r); break;
        case G_BLS: prime_edges<bls12_381_Fr>(r); prime_edges<bls12_381_Fq>(r); field_edges<bls12_381_Fq2>(r); field_edges<bls12_381_Fq6>(r); field_edges<bls12_381_Fq12>(r); group_edges<bls12_381_G1>(r); group_edges<bls12_381_G2>(r); pairing_edges<bls12_381_pp>("bls12_381", r); break;
        case G_EDW: prime_edges<edwards_Fr>(r); prime_edges<edwards_Fq>(r); field_edges<edwards_Fq3>(r); field_edges<edwards_Fq6>(r); group_edges<edwards_G1>(r); group_edges<edwards_G2>(r); pairing_edges<edwards_pp>("edwards", r); break;
        case G_MNT4: field_edges<mnt4_Fq2>(r); field_edges<mnt4_Fq4>(r); group_edges<mnt4_G1>(r); group_edges<mnt4_G2>(r); pairing_edges<mnt4_pp>("mnt4", r); break;
        case G_MNT6: field_edges<mnt6_Fq3>(r); field_edges<mnt6_Fq6>(r); group_edges<mnt6_G1>(r); group_edges<mnt6_G2>(r); pairing_edges<mnt6_pp>("mnt6", r); break;
        case G_MNTF: prime_edges<mnt4_Fr>(r); prime_edges<mnt4_Fq>(r); break;
        case G_MISC: binary_edges<gf32>(r); binary_edges<gf64>(r); binary_edges<gf128>(r); binary_edges<gf192>(r); binary_edges<gf256>(r); misc_edges(); break;
        } } });
    auto &V_ = ops().v; std::map<std::pair<unsigned, unsigned>, std::string> first; std::vector<std::pair<std::pair<unsigned, unsigned>, Res>> kept; uint64_t calls = 0, rerender = 0, inits = 0; std::set<std::pair<unsigned, unsigned>> pairs; unsigned last = 0;
    auto call = [&](unsigned k, unsigned i) {
        auto &o = V_[k]; at("Z01.op:" + o.name); info(o.name + " input " + std::to_string(i)); bool verbose = r.chance(1, 3); inhibit_profiling_info = inhibit_profiling_counters = !verbose; Res res; std::string got; bool a = false; entropy().r = Rng(k * 17 + i);
        try { res = o.f(i); inhibit_profiling_info = inhibit_profiling_counters = true; got = res(); a = true; } catch (const std::exception &e) { got = e.what(); } catch (...) { got = "unknown exception"; }
        quiet(); ++calls; pairs.insert({last, k}); last = k; expect(a, "Z01.no-exception:" + o.name, k * 100 + i, [&] { return o.name + " input " + std::to_string(i) + " threw: " + got; }); if (!a) return;
        auto it = first.find({k, i}); if (it == first.end()) first[{k, i}] = got; else expect(it->second == got, "Z01.same-again:" + o.name, k * 100 + i, [&] { return o.name + " input " + std::to_string(i) + " gives " + got.substr(0, 300) + ", before it gave " + it->second.substr(0, 300); });
        if (r.chance(1, 8)) kept.push_back({{k, i}, res}); if (kept.size() > 60) { size_t j = r.below(kept.size()); std::string s = kept[j].second(); ++rerender; auto id = kept[j].first; expect(s == first[id], "Z01.kept:" + V_[id.first].name, id.first * 100 + id.second + 50, [&] { return "a kept result of " + V_[id.first].name + " changed"; }); kept.erase(kept.begin() + j); }
    };
    // every operation on every input once (in a random order), then random sequences
    std::vector<std::pair<unsigned, unsigned>> all; for (unsigned k = 0; k < V_.size(); ++k) for (unsigned i = 0; i < Ops::K; ++i) if (!SLOW || i < 2 || V_[k].cost <= 4) if (!(SLOW && V_[k].cost > 100)) if (V_[k].name.compare(0, 5, "edge.") == 0 || i < 1 + M().scale) all.push_back({k, i}); for (size_t k = all.size(); k > 1; --k) std::swap(all[k - 1], all[r.below(k)]);
    for (auto &x : all) call(x.first, x.second);
    for (uint64_t s = 0; s < 10 * M().scale && !SLOW; ++s) { int budget = 600; while (budget > 0) { if (r.chance(1, 40)) { at("Z01.init"); curve_init(r.below(5)); ++inits; --budget; continue; } unsigned k = r.below(V_.size()); if (V_[k].cost > 40 && r.chance(3, 4)) continue; budget -= V_[k].cost; call(k, r.below(Ops::K)); } }
    M().events["calls in sequence"] += calls; M().events["distinct successions of two operations"] += pairs.size(); M().events["kept results rendered again"] += rerender; M().events["re-initialisations"] += inits; M().events["operations in the registry"] = V_.size();
    return mon::finish();
}
