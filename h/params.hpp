// Every published parameter of a curve, rendered outside the library: F(name, text).
#pragma once
#include "ser.hpp"
#include <libff/algebra/curves/alt_bn128/alt_bn128_init.hpp>
#include <libff/algebra/curves/bls12_381/bls12_381_init.hpp>
#include <libff/algebra/curves/edwards/edwards_init.hpp>
#include <libff/algebra/curves/mnt/mnt4/mnt4_init.hpp>
#include <libff/algebra/curves/mnt/mnt6/mnt6_init.hpp>
namespace lb {
typedef std::map<std::string, std::string> PMap;
inline std::string px(bool b) { return b ? "1" : "0"; } inline std::string px(size_t v) { return std::to_string(v); } inline std::string px(const std::vector<size_t> &v) { std::string s; for (auto x : v) s += std::to_string(x) + ","; return s; }
template<mp_size_t n> std::string px(const bigint<n> &b) { return zb(b).get_str(16); }
template<class T> auto px(const T &x) -> decltype(dec(x), std::string()) { return show(x); }
template<class G> std::string pg(const G &g) { return showp(g); }
#define PM(e) m[n + "." #e] = px(T::e);
template<class T> void prm_prime(PMap &m) { const std::string n = RF<T>::name(); PM(num_bits) PM(euler) PM(s) PM(t) PM(t_minus_1_over_2) PM(nqr) PM(nqr_to_t) PM(multiplicative_generator) PM(root_of_unity) PM(Rsquared) PM(Rcubed) m[n + ".inv"] = std::to_string(T::inv); m[n + ".modulus"] = px(T::mod); }
template<class T> void prm_ext(PMap &m, int c1, int c2) { const std::string n = RF<T>::name(); PM(euler) PM(s) PM(t) PM(t_minus_1_over_2) PM(nqr) PM(nqr_to_t) PM(non_residue) for (int i = 0; i < c1; ++i) m[n + ".Frobenius_coeffs_c1[" + std::to_string(i) + "]"] = px(T::Frobenius_coeffs_c1[i]); (void)c2; }
template<class T> void prm_ext2(PMap &m, int c) { prm_ext<T>(m, c, c); const std::string n = RF<T>::name(); for (int i = 0; i < c; ++i) m[n + ".Frobenius_coeffs_c2[" + std::to_string(i) + "]"] = px(T::Frobenius_coeffs_c2[i]); }
template<class T> void prm_group(PMap &m) { const std::string n = CI<T>::name(); PM(wnaf_window_table) PM(fixed_base_exp_window_table) m[n + ".one"] = showp(T::one()); m[n + ".zero"] = showp(T::zero()); m[n + ".order"] = zb(T::order()).get_str(16); }
template<class T> void prm_h(PMap &m) { const std::string n = CI<T>::name(); PM(h) }
template<class T> void prm_coeff(PMap &m) { const std::string n = CI<T>::name(); PM(coeff_a) PM(coeff_b) }
template<class T> void prm_twist(PMap &m) { const std::string n = CI<T>::name(); PM(twist) }
#define PV(e) m[#e] = px(e);
inline PMap params(int g) { // g as in ops.hpp
    PMap m;
    switch (g) {
    case 0: prm_prime<alt_bn128_Fr>(m); prm_prime<alt_bn128_Fq>(m); prm_ext<alt_bn128_Fq2>(m, 2, 0); prm_ext2<alt_bn128_Fq6>(m, 6); prm_ext<alt_bn128_Fq12>(m, 12, 0); prm_group<alt_bn128_G1>(m); prm_group<alt_bn128_G2>(m); prm_h<alt_bn128_G1>(m); prm_h<alt_bn128_G2>(m);
        PV(alt_bn128_coeff_b) PV(alt_bn128_twist) PV(alt_bn128_twist_coeff_b) PV(alt_bn128_twist_mul_by_b_c0) PV(alt_bn128_twist_mul_by_b_c1) PV(alt_bn128_twist_mul_by_q_X) PV(alt_bn128_twist_mul_by_q_Y) PV(alt_bn128_ate_loop_count) PV(alt_bn128_ate_is_loop_count_neg) PV(alt_bn128_final_exponent_z) PV(alt_bn128_final_exponent_is_z_neg) PV(alt_bn128_modulus_r) PV(alt_bn128_modulus_q) break;
    case 1: prm_prime<bls12_381_Fr>(m); prm_prime<bls12_381_Fq>(m); prm_ext<bls12_381_Fq2>(m, 2, 0); prm_ext2<bls12_381_Fq6>(m, 6); prm_ext<bls12_381_Fq12>(m, 12, 0); prm_group<bls12_381_G1>(m); prm_group<bls12_381_G2>(m); prm_h<bls12_381_G1>(m); prm_h<bls12_381_G2>(m);
        PV(bls12_381_coeff_b) PV(bls12_381_twist) PV(bls12_381_twist_coeff_b) PV(bls12_381_twist_mul_by_b_c0) PV(bls12_381_twist_mul_by_b_c1) PV(bls12_381_twist_mul_by_q_X) PV(bls12_381_twist_mul_by_q_Y) PV(bls12_381_ate_loop_count) PV(bls12_381_ate_is_loop_count_neg) PV(bls12_381_final_exponent) PV(bls12_381_final_exponent_z) PV(bls12_381_final_exponent_is_z_neg) PV(bls12_381_modulus_r) PV(bls12_381_modulus_q) break;
    case 2: prm_prime<edwards_Fr>(m); prm_prime<edwards_Fq>(m); prm_ext2<edwards_Fq3>(m, 3); prm_ext<edwards_Fq6>(m, 6, 0); prm_group<edwards_G1>(m); prm_group<edwards_G2>(m);
        PV(edwards_coeff_a) PV(edwards_coeff_d) PV(edwards_twist) PV(edwards_twist_coeff_a) PV(edwards_twist_coeff_d) PV(edwards_twist_mul_by_a_c0) PV(edwards_twist_mul_by_a_c1) PV(edwards_twist_mul_by_a_c2) PV(edwards_twist_mul_by_d_c0) PV(edwards_twist_mul_by_d_c1) PV(edwards_twist_mul_by_d_c2) PV(edwards_twist_mul_by_q_Y) PV(edwards_twist_mul_by_q_Z) PV(edwards_ate_loop_count) PV(edwards_final_exponent_last_chunk_abs_of_w0) PV(edwards_final_exponent_last_chunk_is_w0_neg) PV(edwards_final_exponent_last_chunk_w1) PV(edwards_modulus_r) PV(edwards_modulus_q) break;
    case 3: prm_ext<mnt4_Fq2>(m, 2, 0); prm_ext<mnt4_Fq4>(m, 4, 0); prm_group<mnt4_G1>(m); prm_group<mnt4_G2>(m); prm_h<mnt4_G1>(m); prm_h<mnt4_G2>(m); prm_coeff<mnt4_G1>(m); prm_coeff<mnt4_G2>(m); prm_twist<mnt4_G2>(m);
        PV(mnt4_twist) PV(mnt4_twist_coeff_a) PV(mnt4_twist_coeff_b) PV(mnt4_twist_mul_by_a_c0) PV(mnt4_twist_mul_by_a_c1) PV(mnt4_twist_mul_by_b_c0) PV(mnt4_twist_mul_by_b_c1) PV(mnt4_twist_mul_by_q_X) PV(mnt4_twist_mul_by_q_Y) PV(mnt4_ate_loop_count) PV(mnt4_ate_is_loop_count_neg) PV(mnt4_final_exponent) PV(mnt4_final_exponent_last_chunk_abs_of_w0) PV(mnt4_final_exponent_last_chunk_is_w0_neg) PV(mnt4_final_exponent_last_chunk_w1) PV(mnt4_modulus_r) PV(mnt4_modulus_q) break;
    case 4: prm_ext2<mnt6_Fq3>(m, 3); prm_ext<mnt6_Fq6>(m, 6, 0); prm_group<mnt6_G1>(m); prm_group<mnt6_G2>(m); prm_h<mnt6_G1>(m); prm_h<mnt6_G2>(m); prm_coeff<mnt6_G1>(m); prm_coeff<mnt6_G2>(m); prm_twist<mnt6_G2>(m);
        PV(mnt6_twist) PV(mnt6_twist_coeff_a) PV(mnt6_twist_coeff_b) PV(mnt6_twist_mul_by_a_c0) PV(mnt6_twist_mul_by_a_c1) PV(mnt6_twist_mul_by_a_c2) PV(mnt6_twist_mul_by_b_c0) PV(mnt6_twist_mul_by_b_c1) PV(mnt6_twist_mul_by_b_c2) PV(mnt6_twist_mul_by_q_X) PV(mnt6_twist_mul_by_q_Y) PV(mnt6_ate_loop_count) PV(mnt6_ate_is_loop_count_neg) PV(mnt6_final_exponent) PV(mnt6_final_exponent_last_chunk_abs_of_w0) PV(mnt6_final_exponent_last_chunk_is_w0_neg) PV(mnt6_final_exponent_last_chunk_w1) PV(mnt6_modulus_r) PV(mnt6_modulus_q) break;
    case 5: prm_prime<mnt4_Fr>(m); prm_prime<mnt4_Fq>(m); break;
    }
    return m;
}
}
