// G02: membership tests, coordinate changes, cofactor and Frobenius-twist maps.
#define MON_MAIN
#include "curves.hpp"
using namespace lb;

template<class G> struct HasH { template<class T> static auto f(int) -> decltype(T::h, std::true_type()); template<class> static std::false_type f(...); static const bool v = decltype(f<G>(0))::value; };
template<class G> struct HasQ { template<class T> static auto f(int) -> decltype(std::declval<T>().mul_by_q(), std::true_type()); template<class> static std::false_type f(...); static const bool v = decltype(f<G>(0))::value; };
// published cofactors: #E(F)/r from the curve families' parameterisations
template<class G> Z cofactor() {
    const Z &r = CI<G>::order(); const std::string n = CI<G>::name(); const Z &p = CI<G>::C().F->p;
    if (n == "alt_bn128_G1" || n == "mnt4_G1" || n == "mnt6_G1") return 1;
    if (n == "alt_bn128_G2") return Z(2 * p - r);                                        // BN: #E'(Fq2) = r (2p - r)
    if (n == "bls12_381_G1") { Z x = -(Z(1) << 63) - (Z(1) << 62) - (Z(1) << 60) - (Z(1) << 57) - (Z(1) << 48) - (Z(1) << 16); return (x - 1) * (x - 1) / 3; }
    if (n == "bls12_381_G2") { Z x = -(Z(1) << 63) - (Z(1) << 62) - (Z(1) << 60) - (Z(1) << 57) - (Z(1) << 48) - (Z(1) << 16), x2 = x * x, x4 = x2 * x2; return (x4 * x4 - 4 * x4 * x2 * x + 5 * x4 * x2 - 4 * x4 + 6 * x2 * x - 4 * x2 - 4 * x + 13) / 9; }
    Z t = p + 1 - r; // MNT, h=1: #E(Fq) = r; twists over Fq2/Fq3 have order q^d + 1 + t_d (quadratic twist)
    if (n == "mnt4_G2") { Z t2 = t * t - 2 * p; return (p * p + 1 + t2) / r; }
    Z t3 = t * t * t - 3 * p * t; return (p * p * p + 1 + t3) / r;
}
// image of Q under untwist, q-power, twist
template<class G> Pt psi(const Pt &Q) {
    const std::string n = CI<G>::name(); const Curve &C = CI<G>::C(); const Field *F = C.F; const Z &p = F->p; if (C.isO(Q)) return Q; El x = F->pow(Q.x, p), y = F->pow(Q.y, p); const El u = F->gen(), w = F->inv(u);
    if (n == "alt_bn128_G2") { El xi = El{Z(9), Z(1)}; return ref::mk(F->mul(x, F->pow(xi, (p - 1) / 3)), F->mul(y, F->pow(xi, (p - 1) / 2))); }
    if (n == "bls12_381_G2") { El xi = F->inv(El{Z(1), Z(1)}); return ref::mk(F->mul(x, F->pow(xi, (p - 1) / 3)), F->mul(y, F->pow(xi, (p - 1) / 2))); }
    if (n == "edwards_G2") return ref::mk(F->mul(x, F->pow(u, (p - 1) / 2)), y);
    return ref::mk(F->mul(x, F->pow(w, p - 1)), F->mul(y, F->pow(w, 3 * (p - 1) / 2)));
}
template<class G> struct X {
    typedef typename CI<G>::F T; Rng &r; const std::string N; const Curve &C; const Field *F; Pool<G> pool; std::map<std::string, El> none;
    X() : r(rng()), N(CI<G>::name()), C(CI<G>::C()), F(C.F), pool(G::one(), r, 10, 8) {}
    Pt point() { unsigned k = r.below(8); return k == 0 ? C.O() : k <= 3 ? r.pick(pool.off) : r.pick(pool.sub).first; }
    bool normal(const G &g) { El o = F->one(), z = F->zero(); return CI<G>::rep == INVED ? g.is_zero() || dec(g.Z) == o : (dec(g.Z) == o || (F->is_zero(dec(g.X)) && dec(g.Y) == o && F->is_zero(dec(g.Z)))); }
    void wf(const G &g, bool want, const char *why) { expect(g.is_well_formed() == want, std::string("G02.is_well_formed-") + why + ":" + N, ref::hash(dec(g.X)) * 31 + ref::hash(dec(g.Y)) + 7 * ref::hash(dec(g.Z)), [&] { return std::string(why) + " triple " + showp(g) + " judged " + (want ? "malformed" : "well formed"); }); }
    G raw(const El &x, const El &y, const El &z) { G g; g.X = enc<T>(x); g.Y = enc<T>(y); g.Z = enc<T>(z); return g; }
    void member() {
        Pt P = point(); info(ref::str(P)); G p = encr<G>(P, r); wf(p, true, "on-curve");
        if (C.isO(P)) return;
        El x = P.x, y = P.y, one = F->one(); Pt M = P; El dl = F->zero(); dl[r.below(F->n)] = r.chance(1, 2) ? Z(1) : hostile_mod(r, F->p);
        switch (r.below(7)) { case 0: M.x = F->add(x, dl); break; case 1: M.y = F->add(y, dl); break; case 2: M = ref::mk(y, x); break; case 3: M = ref::mk(hostile_el(F, r), hostile_el(F, r)); break; case 4: M.x = F->neg(x); break; case 5: M.x[r.below(F->n)] = 0; break; case 6: { // on a curve with another constant
            Curve K = C; K.b = F->add(C.b, r.chance(1, 2) ? F->one() : dl); if (r.chance(1, 3)) { K = C; K.a = F->add(C.a, dl); } if (!K.lift_x(F->uniform(r), M)) return; break; } }
        if (CI<G>::rep == INVED && (F->is_zero(M.x) || F->is_zero(M.y))) return;
        wf(encr<G>(M, r), C.on(M), "mutated");
        // triple scaled inconsistently: judged by the point it stands for
        El X0 = dec(p.X), Y0 = dec(p.Y), Z0 = dec(p.Z); El l = nonzero(F, r); G b = r.chance(1, 3) ? raw(F->mul(X0, l), Y0, Z0) : r.chance(1, 2) ? raw(X0, F->mul(Y0, l), Z0) : raw(X0, Y0, F->mul(Z0, l)); bool ok; Pt D = decp(b, &ok); if (ok) wf(b, C.on(D), "rescaled");
        if (CI<G>::rep == PROJ) wf(raw(nonzero(F, r), hostile_el(F, r), F->zero()), false, "no-point");
        for (auto &c : {El(F->zero())}) (void)c;
        G id = encr<G>(C.O(), r); wf(id, true, "identity");
    }
    void coords() {
        Pt P = point(); G p = encr<G>(P, r), a = p, s = p; uint64_t h = ref::hash(P) + 3 * ref::hash(dec(p.Z)); info(showp(p)); bool nt = !C.isO(P);
        a.to_affine_coordinates(); s.to_special();
        if (CI<G>::rep == INVED) expect(canonp(a) && dec(a.Z) == F->one() && dec(a.X) == P.x && dec(a.Y) == P.y, "G02.to_affine:" + N, h, [&] { return showp(p) + " affine " + show(a.X) + "," + show(a.Y); }, nt);
        else expect(samep(a, P) && normal(a), "G02.to_affine:" + N, h, [&] { return showp(p) + " -> " + showp(a); }, nt);
        expect(samep(s, P) && normal(s) && s.is_special(), "G02.to_special:" + N, h, [&] { return showp(p) + " -> " + showp(s); }, nt);
        expect(p.is_special() == (C.isO(P) || dec(p.Z) == F->one()), "G02.is_special:" + N, h, [&] { return showp(p); }, nt);
        { G s2 = s; s2.to_special(); expect(s2.X == s.X && s2.Y == s.Y && s2.Z == s.Z, "G02.to_special-twice:" + N, h, [&] { return showp(s); }, nt); }
    }
    void batch() {
        size_t n = r.chance(1, 4) ? r.below(3) : r.below(24); std::vector<G> v; std::vector<Pt> w; uint64_t h = n;
        for (size_t i = 0; i < n; ++i) { Pt P; do P = (i && r.chance(1, 6)) ? w.back() : point(); while (C.isO(P)); w.push_back(P); v.push_back(encr<G>(P, r)); h = h * 31 + ref::hash(P); } info(std::to_string(n) + " points");
        G::batch_to_special_all_non_zeros(v); size_t bad = n; if (v.size() == n) for (size_t i = 0; i < n; ++i) if (!samep(v[i], w[i]) || !normal(v[i]) || !v[i].is_special()) { bad = i; break; }
        expect(v.size() == n && bad == n, "G02.batch_to_special_all_non_zeros:" + N, h, [&] { return "element " + std::to_string(bad) + " of " + std::to_string(n) + (bad < n ? ": " + showp(v[bad]) + " want " + ref::str(w[bad]) : ""); }, n > 0);
    }
    void cofac(std::true_type) {
        Z h = cofactor<G>(); Pt P = point(), W = C.mul(P, h); info(ref::str(P)); G p = encr<G>(P, r);
        chkp<G>(p.mul_by_cofactor(), W, "G02.mul_by_cofactor:" + N, ref::hash(P), [&] { return showp(p); }, !C.isO(P));
        expect(C.isO(C.mul(W, CI<G>::order())), "G02.cofactor-lands-in-subgroup:" + N, ref::hash(P), [&] { return ref::str(W); }, !C.isO(P)); expect(zb<G::h_limbs>(G::h) == h, "G02.cofactor-value:" + N, 1, [&] { return hex(zb<G::h_limbs>(G::h)) + " want " + hex(h); });
    }
    void cofac(std::false_type) {}
    void byq(std::true_type) {
        Pt P = point(); G p = encr<G>(P, r); info(ref::str(P)); uint64_t h = ref::hash(P); bool nt = !C.isO(P); auto ctx = [&] { return showp(p); };
        chkp<G>(p.mul_by_q(), psi<G>(P), "G02.mul_by_q:" + N, h, ctx, nt);
        auto &s = r.pick(pool.sub); G g = encr<G>(s.first, r); chkp<G>(g.mul_by_q(), pool.gm(ref::modp(s.second * F->p, pool.q)), "G02.mul_by_q-eigenvalue:" + N, ref::hash(s.first), [&] { return showp(g); });
    }
    void byq(std::false_type) {}
    void run(uint64_t n) {
        if (!mon::want(N)) return;
        for (uint64_t i = 0; i < n; ++i) {
            at("G02.member:" + N); member(); member(); at("G02.coords:" + N); coords(); at("G02.batch:" + N); if (i % 3 == 0) batch();
            at("G02.cofactor:" + N); if (i % 12 == 0) cofac(std::integral_constant<bool, HasH<G>::v>()); at("G02.mul_by_q:" + N); if (i % 4 == 0) byq(std::integral_constant<bool, HasQ<G>::v>());
        }
        typedef typename G::scalar_field S; expect(zb<S::num_limbs>(G::order()) == CI<G>::order() && zb<G::base_field::num_limbs>(G::field_char()) == F->p && G::size_in_bits() == ref::bits(F->p) * F->n + 1, "G02.sizes:" + N, 1, [&] { return N; });
        mon::sample(N + " " + ref::str(pool.off[0]));
    }
};
template<class G> void aff2() { // two-argument Edwards constructor takes affine coordinates
    X<G> x; if (!mon::want(x.N)) return; typedef typename CI<G>::F T; for (int i = 0; i < 30; ++i) { at("G02.affine-constructor:" + x.N); Pt P = x.r.chance(1, 2) ? x.r.pick(x.pool.off) : x.r.pick(x.pool.sub).first; if (x.C.isO(P)) continue; G g(enc<T>(P.x), enc<T>(P.y)); chkp<G>(g, P, "G02.affine-constructor:" + x.N, ref::hash(P), [&] { return ref::str(P); }); }
}
int main(int argc, char **argv) {
    mon::init(argc, argv); init_all(); uint64_t c = 60 * mon::M().scale;
    X<alt_bn128_G1>().run(c); X<alt_bn128_G2>().run(c); X<bls12_381_G1>().run(c); X<bls12_381_G2>().run(c); X<edwards_G1>().run(c); X<edwards_G2>().run(c); X<mnt4_G1>().run(c); X<mnt4_G2>().run(c); X<mnt6_G1>().run(c); X<mnt6_G2>().run(c);
    aff2<edwards_G1>(); aff2<edwards_G2>();
    return mon::finish();
}
