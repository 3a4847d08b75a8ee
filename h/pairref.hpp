// Pairings: bridge to the five curves' interfaces, and a reference pairing computed from the
// definition (Miller functions with lines and verticals over F_{q^k}, published exponent).
#pragma once
#include "mulpool.hpp"
namespace lb {
// f_{n,Q}(P) on y^2 = x^3 + a x + b over the full field, n > 0, and the point nQ
struct Miller {
    const Curve &E; const Field *K; Miller(const Curve &e) : E(e), K(e.F) {}
    El line(const Pt &A, const Pt &B, const Pt &P) const { // value at P of the line through A and B (tangent if equal)
        if (A.inf || B.inf) { const Pt &C = A.inf ? B : A; return C.inf ? K->one() : K->sub(P.x, C.x); }
        if (A.x == B.x && (A.y != B.y || K->is_zero(A.y))) return K->sub(P.x, A.x);
        El l = A.x == B.x ? K->mul(K->add(K->smul(K->sqr(A.x), 3), E.a), K->inv(K->smul(A.y, 2))) : K->mul(K->sub(B.y, A.y), K->inv(K->sub(B.x, A.x)));
        return K->sub(K->sub(P.y, A.y), K->mul(l, K->sub(P.x, A.x)));
    }
    El vert(const Pt &A, const Pt &P) const { return A.inf ? K->one() : K->sub(P.x, A.x); }
    El f(const Z &n, const Pt &Q, const Pt &P, Pt *last = nullptr) const {
        El num = K->one(), den = K->one(); Pt T = Q;
        for (long i = (long)ref::bits(n) - 2; i >= 0; --i) {
            Pt T2 = E.add(T, T); num = K->mul(K->sqr(num), line(T, T, P)); den = K->mul(K->sqr(den), vert(T2, P)); T = T2;
            if (ref::bit(n, i)) { Pt S = E.add(T, Q); num = K->mul(num, line(T, Q, P)); den = K->mul(den, vert(S, P)); T = S; }
        }
        if (last) *last = T;
        return K->mul(num, K->inv(den));
    }
};
inline El elpow(const Field *K, const El &a, const Z &e) { return e < 0 ? K->pow(K->inv(a), -e) : K->pow(a, e); }
inline El frob(const Field *K, const El &a, unsigned k) { return K->pow(a, ref::ipow(K->p, k)); }

inline const Z &bn_z() { static Z z("4965661367192848881"); return z; }
inline const Z &bls_z() { static Z z("-15132376222941642752"); return z; }
inline const Z &mnt_t1() { static Z z("689871209842287392837045615510547309923794944"); return z; } // |t-1| of MNT4 and MNT6

template<class pp> struct PairI;
template<> struct PairI<alt_bn128_pp> {
    static const char *name() { return "alt_bn128"; } static const Field *K() { return tw().a12; } static const int k = 12;
    static Curve E() { return Curves::wei(K(), K()->zero(), K()->from(3)); }
    static Pt untwist(const Pt &Q) { const Field *F = K(); El w = F->gen(); El w2 = F->sqr(w); if (Q.inf) return Q; return ref::mk(F->mul(F->lift(F->base->lift(Q.x)), w2), F->mul(F->lift(F->base->lift(Q.y)), F->mul(w, w2))); }
    static El embed(const El &v) { return K()->from(v[0]); } static Pt embed(const Pt &P) { return P.inf ? P : ref::mk(embed(P.x), embed(P.y)); }
    static Z exponent() { const Z &z = bn_z(); return 2 * z * (6 * z * z + 3 * z + 1) * ((ref::ipow(std_p(1), 12) - 1) / std_p(0)); }
    static El miller(const Pt &P, const Pt &Q) { // optimal ate
        Curve C = E(); Miller M(C); const Field *F = K(); Pt p = embed(P), q = untwist(Q), T; El f = M.f(6 * bn_z() + 2, q, p, &T);
        Pt q1 = ref::mk(frob(F, q.x, 1), frob(F, q.y, 1)), q2 = C.neg(ref::mk(frob(F, q1.x, 1), frob(F, q1.y, 1)));
        f = F->mul(f, M.line(T, q1, p)); T = C.add(T, q1); return F->mul(f, F->mul(M.line(T, q2, p), F->inv(M.vert(T, p))));
    }
};
template<> struct PairI<bls12_381_pp> {
    static const char *name() { return "bls12_381"; } static const Field *K() { return tw().b12; } static const int k = 12;
    static Curve E() { return Curves::wei(K(), K()->zero(), K()->from(4)); }
    static Pt untwist(const Pt &Q) { const Field *F = K(); El w = F->gen(), wi = F->inv(w); El w2 = F->sqr(wi); if (Q.inf) return Q; return ref::mk(F->mul(F->lift(F->base->lift(Q.x)), w2), F->mul(F->lift(F->base->lift(Q.y)), F->mul(wi, w2))); }
    static Pt embed(const Pt &P) { return P.inf ? P : ref::mk(K()->from(P.x[0]), K()->from(P.y[0])); }
    static Z exponent() { return 3 * ((ref::ipow(std_p(3), 12) - 1) / std_p(2)); }
    static El miller(const Pt &P, const Pt &Q) { Curve C = E(); Miller M(C); return K()->inv(M.f(-bls_z(), untwist(Q), embed(P))); }
};
template<> struct PairI<mnt4_pp> {
    static const char *name() { return "mnt4"; } static const Field *K() { return tw().m44; } static const int k = 4;
    static Curve E() { return Curves::wei(K(), K()->from(2), K()->from(cv().m_b)); }
    static Pt untwist(const Pt &Q) { const Field *F = K(); El w = F->gen(), ui = F->inv(F->sqr(w)); if (Q.inf) return Q; return ref::mk(F->mul(F->lift(Q.x), ui), F->mul(F->lift(Q.y), F->mul(ui, F->inv(w)))); }
    static Pt embed(const Pt &P) { return P.inf ? P : ref::mk(K()->from(P.x[0]), K()->from(P.y[0])); }
    static Z exponent() { return (ref::ipow(std_p(7), 4) - 1) / std_p(6); }
    static El miller(const Pt &P, const Pt &Q) { Curve C = E(); Miller M(C); return M.f(mnt_t1(), untwist(Q), embed(P)); }
};
template<> struct PairI<mnt6_pp> {
    static const char *name() { return "mnt6"; } static const Field *K() { return tw().m66; } static const int k = 6;
    static Curve E() { return Curves::wei(K(), K()->from(11), K()->from(cv().m61.b[0])); }
    static Pt untwist(const Pt &Q) { const Field *F = K(); El w = F->gen(), ui = F->inv(F->sqr(w)); if (Q.inf) return Q; return ref::mk(F->mul(F->lift(Q.x), ui), F->mul(F->lift(Q.y), F->mul(ui, F->inv(w)))); }
    static Pt embed(const Pt &P) { return P.inf ? P : ref::mk(K()->from(P.x[0]), K()->from(P.y[0])); }
    static Z exponent() { return (ref::ipow(std_p(6), 6) - 1) / std_p(7); }
    static El miller(const Pt &P, const Pt &Q) { Curve C = E(); Miller M(C); return K()->inv(M.f(mnt_t1(), untwist(Q), embed(P))); }
};
// Edwards: through the birational map to (A, B)-Montgomery and short Weierstrass form over F_{q^6}
template<> struct PairI<edwards_pp> {
    static const char *name() { return "edwards"; } static const Field *K() { return tw().e6; } static const int k = 6;
    // x^2 + y^2 = 1 + d x^2 y^2  ->  v^2 = s(u^3 + A u^2 + u) with u = (1+y)/(1-y), v = u/x; then X = s(u + A/3), Y = s v ...
    static void coef(Z &A, Z &B) { const Z &p = std_p(5); Z d = cv().e_d; Z i = ref::inv_mod(ref::modp(1 - d, p), p); A = ref::modp(2 * (1 + d) * i, p); B = ref::modp(4 * i, p); }
    static Curve E() { const Z &p = std_p(5); Z A, B; coef(A, B); Z i3 = ref::inv_mod(3, p); Z Bi = ref::inv_mod(B, p); // B v^2 = u^3 + A u^2 + u; t = (u + A/3)/B, w = v/B
        Z a = ref::modp((3 - A * A) * i3 * Bi * Bi, p), b = ref::modp((2 * A * A * A - 9 * A) * ref::inv_mod(27, p) * Bi % p * Bi * Bi, p); return Curves::wei(K(), K()->from(a), K()->from(b)); }
    static Pt toW(const El &x, const El &y) { const Field *F = K(); const Z &p = std_p(5); Z A, B; coef(A, B); if (F->is_zero(x)) return Pt(); Z Bi = ref::inv_mod(B, p); El u = F->mul(F->add(F->one(), y), F->inv(F->sub(F->one(), y))), v = F->mul(u, F->inv(x)); return ref::mk(F->smul(F->add(u, F->from(A * ref::inv_mod(3, p))), Bi), F->smul(v, Bi)); }
    static Pt untwist(const Pt &Q) { const Field *F = K(); return toW(F->mul(F->lift(Q.x), F->gen()), F->lift(Q.y)); }
    static Pt embed(const Pt &P) { return toW(K()->from(P.x[0]), K()->from(P.y[0])); }
    static Z exponent() { return (ref::ipow(std_p(5), 6) - 1) / std_p(4); }
    static Z loop() { return Z("4492509698523932320491110403"); } // q = -loop (mod r)
    static El miller(const Pt &P, const Pt &Q) { Curve C = E(); Miller M(C); return M.f(loop(), untwist(Q), embed(P)); }
    static El tate(const Pt &P, const Pt &Q) { Curve C = E(); Miller M(C); return M.f(std_p(4), embed(P), untwist(Q)); }
};
template<class pp> El refpair(const Pt &P, const Pt &Q) { const Field *K = PairI<pp>::K(); if (CI<typename pp::G1_type>::C().isO(P) || CI<typename pp::G2_type>::C().isO(Q)) return K->one(); return elpow(K, PairI<pp>::miller(P, Q), PairI<pp>::exponent()); }

// powers of a fixed target-group element
struct GTPow { const Field *K; std::vector<El> t; GTPow(const Field *k, const El &g, size_t n) : K(k) { El x = g; for (size_t i = 0; i < n; ++i) { t.push_back(x); x = K->sqr(x); } } El operator()(const Z &e) const { El r = K->one(); for (size_t i = 0; i < ref::bits(e); ++i) if (ref::bit(e, i)) r = K->mul(r, t[i]); return r; } };
}
