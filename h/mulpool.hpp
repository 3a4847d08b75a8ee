// (Edwards: inverted coordinates cannot represent points of order 2 and 4, which sums of
// non-subgroup points run into, so only subgroup points there)
// Points with cheap reference multiples: subgroup points by discrete logarithm, others by 2^i tables.
#pragma once
#include "curves.hpp"
namespace lb {
template<class G> struct MP {
    Rng &r; const Curve &C; const Field *F; Pool<G> pool; std::vector<Mul> offm; const Z &q; const std::string N;
    struct S { Pt P; Z k; int off; }; // off<0: P = k*gen
    MP(int nsub, int noff) : r(rng()), C(CI<G>::C()), F(C.F), pool(G::one(), r, nsub, 0), q(CI<G>::order()), N(CI<G>::name()) {
        if (CI<G>::rep != INVED) for (int i = 0; i < noff; ++i) { Pt P; do P = C.random(r); while (!representable<G>(P)); offm.push_back(Mul(C, P, ref::bits(q) + 2)); } }
    S pick() { unsigned c = r.below(12); if (c == 0) return S{C.O(), 0, -1}; if (c <= 3 && !offm.empty()) { int i = r.below(offm.size()); return S{offm[i].P, 1, i}; } if (c == 4) { auto f = pool.fresh(r); return S{f.first, f.second, -1}; } auto &s = r.pick(pool.sub); return S{s.first, s.second, -1}; }
    Pt times(const S &s, const Z &n) { if (s.off < 0) return pool.gm(ref::modp(s.k * n, q)); if (n < 0) return C.neg(offm[s.off](-n)); return offm[s.off](n); }
    // scalar sum: subgroup part by exponent, off part by table
    struct Acc { Z k = 0; std::map<int, Z> o; };
    void acc(Acc &a, const S &s, const Z &n) { if (s.off < 0) a.k = ref::modp(a.k + s.k * n, q); else a.o[s.off] += n; }
    Pt total(const Acc &a) { Pt t = pool.gm(a.k); for (auto &x : a.o) t = C.add(t, offm[x.first](x.second)); return t; }
    // hostile scalars: boundaries of the order, the width and the recoding
    Z scalar(const Z &lim, size_t bits) {
        Z v; switch (r.below(12)) { case 0: v = mon::mpz_u64(r.below(5)); break; case 1: v = lim - 1 - mon::mpz_u64(r.below(4)); break; case 2: v = q + (long)r.below(5) - 2; break; case 3: v = (q + (long)r.below(3) - 1) / 2; break; case 4: v = (Z(1) << r.below(bits)) + (long)r.below(3) - 1; break; case 5: v = (Z(1) << bits) - 1 - mon::mpz_u64(r.below(40)); break; case 6: { v = 0; for (size_t i = 0; i < bits; ++i) if (i & 1) mpz_setbit(v.get_mpz_t(), i); if (r.chance(1, 2)) v >>= 1; break; } case 7: v = mon::mpz_u64(r.next() >> r.below(64)); break; default: v = hostile_bits(r, bits); }
        if (v < 0) v = 0; return v % lim;
    }
};
}
