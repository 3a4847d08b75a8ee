// Curves: reference models of the ten source groups and their bridge to the library's points.
#pragma once
#include "lib.hpp"
namespace lb {
struct Curves {
    Curve a1, a2, b1, b2, e1, e2, m41, m42, m61, m62; Z e_d, m_b;
    static Curve wei(const Field *f, const El &a, const El &b) { Curve c; c.F = f; c.edwards = false; c.a = a; c.b = b; return c; }
    Curves() {
        Towers &t = tw(); auto F = [](const Field *f, const Z &v) { return f->from(v); };
        e_d = Z("600581931845324488256649384912508268813600056237543024");
        m_b = Z("423894536526684178289416011533888240029318103673896002803341544124054745019340795360841685");
        a1 = wei(&t.aq, F(&t.aq, 0), F(&t.aq, 3)); a2 = wei(t.a2, t.a2->zero(), t.a2->mul(F(t.a2, 3), t.a2->inv(El{Z(9), Z(1)})));  // y^2 = x^3 + 3/(9+u)
        b1 = wei(&t.bq, F(&t.bq, 0), F(&t.bq, 4)); b2 = wei(t.b2, t.b2->zero(), El{Z(4), Z(4)});                                   // y^2 = x^3 + 4(1+u)
        m41 = wei(&t.m4q, F(&t.m4q, 2), F(&t.m4q, m_b)); { const Field *f = t.m42; El u = f->gen(); m42 = wei(f, f->mul(F(f, 2), f->mul(u, u)), f->mul(F(f, m_b), f->mul(u, f->mul(u, u)))); }
        Z b6("106700080510851735677967319632585352256454251201367587890185989362936000262606668469523074");
        m61 = wei(&t.m4r, F(&t.m4r, 11), F(&t.m4r, b6)); { const Field *f = t.m63; El u = f->gen(); m62 = wei(f, f->mul(F(f, 11), f->mul(u, u)), f->mul(F(f, b6), f->mul(u, f->mul(u, u)))); }
        e1.F = &t.eq; e1.edwards = true; e1.a = F(&t.eq, 1); e1.b = F(&t.eq, e_d);
        e2.F = t.e3; e2.edwards = true; e2.a = t.e3->gen(); e2.b = t.e3->mul(F(t.e3, e_d), t.e3->gen());
    }
};
inline Curves &cv() { static Curves c; return c; }

enum Rep { JAC, PROJ, INVED };
template<class G> struct CI; // name(), C(), order(), rep, F (coordinate type)
#define LB_CI(G, NM, CUR, K, R, FT) template<> struct CI<G> { typedef FT F; static const char *name() { return NM; } static const Curve &C() { return cv().CUR; } static const Z &order() { return std_p(K); } static const Rep rep = R; };
LB_CI(alt_bn128_G1, "alt_bn128_G1", a1, 0, JAC, alt_bn128_Fq) LB_CI(alt_bn128_G2, "alt_bn128_G2", a2, 0, JAC, alt_bn128_Fq2)
LB_CI(bls12_381_G1, "bls12_381_G1", b1, 2, JAC, bls12_381_Fq) LB_CI(bls12_381_G2, "bls12_381_G2", b2, 2, JAC, bls12_381_Fq2)
LB_CI(edwards_G1, "edwards_G1", e1, 4, INVED, edwards_Fq) LB_CI(edwards_G2, "edwards_G2", e2, 4, INVED, edwards_Fq3)
LB_CI(mnt4_G1, "mnt4_G1", m41, 6, PROJ, mnt4_Fq) LB_CI(mnt4_G2, "mnt4_G2", m42, 6, PROJ, mnt4_Fq2)
LB_CI(mnt6_G1, "mnt6_G1", m61, 7, PROJ, mnt6_Fq) LB_CI(mnt6_G2, "mnt6_G2", m62, 7, PROJ, mnt6_Fq3)

template<class G> bool canonp(const G &g) { return canon(g.X) && canon(g.Y) && canon(g.Z); }
// the affine point a triple stands for; ok=false when it stands for none
template<class G> Pt decp(const G &g, bool *ok = nullptr) {
    const Curve &C = CI<G>::C(); const Field *F = C.F; if (ok) *ok = canonp(g);
    El X = dec(g.X), Y = dec(g.Y), Zc = dec(g.Z);
    if (CI<G>::rep == INVED) {
        if (F->is_zero(Zc) && F->is_zero(Y) && !F->is_zero(X)) return C.O();
        if (F->is_zero(X) || F->is_zero(Y) || F->is_zero(Zc)) { if (ok) *ok = false; return C.O(); }
        return ref::mk(F->mul(Zc, F->inv(X)), F->mul(Zc, F->inv(Y)));
    }
    if (F->is_zero(Zc)) { if (ok && CI<G>::rep == PROJ && !F->is_zero(X)) *ok = false; return C.O(); }
    El zi = F->inv(Zc);
    if (CI<G>::rep == JAC) { El z2 = F->sqr(zi); return ref::mk(F->mul(X, z2), F->mul(Y, F->mul(z2, zi))); }
    return ref::mk(F->mul(X, zi), F->mul(Y, zi));
}
// a triple standing for P, scaled by l != 0
template<class G> G encp(const Pt &P, const El &l) {
    const Curve &C = CI<G>::C(); const Field *F = C.F; typedef typename CI<G>::F T; G g;
    if (CI<G>::rep == INVED) { g.X = enc<T>(F->mul(l, P.y)); g.Y = enc<T>(F->mul(l, P.x)); g.Z = enc<T>(F->mul(l, F->mul(P.x, P.y))); return g; }
    if (P.inf) { g.X = enc<T>(F->zero()); g.Y = enc<T>(l); g.Z = enc<T>(F->zero()); return g; }
    if (CI<G>::rep == JAC) { El l2 = F->sqr(l); g.X = enc<T>(F->mul(P.x, l2)); g.Y = enc<T>(F->mul(P.y, F->mul(l2, l))); }
    else { g.X = enc<T>(F->mul(P.x, l)); g.Y = enc<T>(F->mul(P.y, l)); }
    g.Z = enc<T>(l); return g;
}
// the normalised triple (Z = 1, or the identity)
template<class G> G encs(const Pt &P) {
    const Curve &C = CI<G>::C(); const Field *F = C.F; El l = F->one();
    if (CI<G>::rep == INVED && !C.isO(P)) l = F->inv(F->mul(P.x, P.y));
    return encp<G>(P, l);
}
inline El nonzero(const Field *F, Rng &r) { El l; do l = hostile_el(F, r); while (F->is_zero(l)); return l; }
template<class G> G encr(const Pt &P, Rng &r) { unsigned k = r.below(5); return k == 0 ? encs<G>(P) : k == 1 ? encp<G>(P, CI<G>::C().F->neg(CI<G>::C().F->one())) : encp<G>(P, nonzero(CI<G>::C().F, r)); }
template<class G> std::string showp(const G &g) { bool ok; Pt p = decp(g, &ok); return std::string(ok ? "" : "(INVALID TRIPLE) ") + ref::str(p) + " [" + show(g.X) + ":" + show(g.Y) + ":" + show(g.Z) + "]"; }
template<class G> bool samep(const G &g, const Pt &want) { bool ok; Pt p = decp(g, &ok); return ok && p == want; }
template<class G> bool chkp(const G &got, const Pt &want, const std::string &cls, uint64_t opnd, const std::function<std::string()> &ctx, bool nontrivial = true) {
    return expect(samep(got, want), cls, opnd, [&] { return ctx() + " -> got " + showp(got) + " want " + ref::str(want); }, nontrivial);
}
// order-2/4 Edwards points have no inverted-coordinate form
template<class G> bool representable(const Pt &p) { const Curve &C = CI<G>::C(); return CI<G>::rep != INVED || C.isO(p) || !(C.F->is_zero(p.x) || C.F->is_zero(p.y)); }

// multiples of a fixed point by table: 2^i P
struct Mul { const Curve *C; std::vector<Pt> t; Pt P;
    Mul() {}
    Mul(const Curve &c, const Pt &p, size_t n) : C(&c), P(p) { Pt q = p; for (size_t i = 0; i < n; ++i) { t.push_back(q); q = c.add(q, q); } }
    Pt operator()(const Z &k) { while (t.size() < ref::bits(k)) t.push_back(C->add(t.back(), t.back())); Pt r = C->O(); for (size_t i = 0; i < ref::bits(k); ++i) if (ref::bit(k, i)) r = C->add(r, t[i]); return r; } };
inline Z uniform_mod(Rng &r, const Z &p) { Z t = 0; for (size_t i = 0; i < ref::bits(p) / 64 + 2; ++i) { t <<= 64; t += mon::mpz_u64(r.next()); } return ref::modp(t, p); }
// pool of points with known discrete logarithms, plus points outside the subgroup
template<class G> struct Pool {
    const Curve &C = CI<G>::C(); Mul gm; std::vector<std::pair<Pt, Z>> sub; std::vector<Pt> off; Z q;
    Pool(const G &gen, Rng &r, int nsub, int noff) : gm(CI<G>::C(), decp(gen), ref::bits(CI<G>::order()) + 2), q(CI<G>::order()) {
        for (Z k : {Z(1), Z(2), Z(3), Z(q - 1), Z(q - 2), Z((q + 1) / 2)}) sub.push_back({gm(k), k});
        for (int i = 0; i < nsub; ++i) { Z k = uniform_mod(r, q); sub.push_back({gm(k), k}); }
        for (int i = 0; i < noff; ++i) off.push_back(C.random(r));
    }
    // fresh subgroup point for one addition
    std::pair<Pt, Z> fresh(Rng &r) { auto &a = r.pick(sub); auto &b = r.pick(sub); std::pair<Pt, Z> s(C.add(a.first, b.first), ref::modp(a.second + b.second, q)); sub[r.below(sub.size())] = s; return s; }
};
}
