// G01: group law of the ten source groups against affine chord-and-tangent arithmetic.
#define MON_MAIN
#include "curves.hpp"
using namespace lb;

template<class G> struct HasH { template<class T> static auto f(int) -> decltype(T::h, std::true_type()); template<class> static std::false_type f(...); static const bool v = decltype(f<G>(0))::value; };
template<class G> Z cof(std::true_type) { return zb<G::h_limbs>(G::h); }
template<class G> Z cof(std::false_type) { return Z(1); }
// points of small order outside the prime-order subgroup
template<class G> std::vector<Pt> torsion(Rng &r) {
    std::vector<Pt> out; const Curve &C = CI<G>::C(); Z h = cof<G>(std::integral_constant<bool, HasH<G>::v>()), q = CI<G>::order();
    for (long l = 2; l < 4000 && out.size() < 3; ++l) if (h % l == 0 && ref::isprime(Z(l))) {
        Z m = h / l * q; for (int t = 0; t < 4; ++t) { Pt T = C.mul(C.random(r), m); if (!C.isO(T) && C.isO(C.mul(T, Z(l)))) { out.push_back(T); break; } } }
    return out;
}
template<class G> void run(uint64_t cases) {
    const std::string N = CI<G>::name(); if (!mon::want(N)) return; Rng &r = rng(); const Curve &C = CI<G>::C(); const Field *F = C.F;
    at("G01.pool:" + N); Pool<G> pool(G::one(), r, 12, CI<G>::rep == INVED ? 6 : 10); std::vector<Pt> tors = torsion<G>(r);
    std::vector<Pt> xs; // points with special coordinates, where the curve has them
    for (Z v : {Z(0), Z(1), Z(2), Z(F->p - 1), Z(4), Z(F->p - 3)}) { Pt q; if (C.lift_x(F->from(v), q) && C.on(q) && representable<G>(q) && !C.isO(q)) xs.push_back(q); }
    std::vector<Z> roots{Z(1), Z(F->p - 1)}; for (long l : {3, 4}) if ((F->p - 1) % l == 0) for (Z g = 2;; ++g) { Z e = (F->p - 1) / l, w; mpz_powm(w.get_mpz_t(), g.get_mpz_t(), e.get_mpz_t(), F->p.get_mpz_t()); if (w != 1 && w != F->p - 1) { roots.push_back(w); roots.push_back(Z(w * w % F->p)); break; } }
    mon::M().notes["pool:" + N] = std::to_string(pool.sub.size()) + " subgroup, " + std::to_string(pool.off.size()) + " other, " + std::to_string(tors.size()) + " small order, " + std::to_string(xs.size()) + " special x";
    { G z, z2 = G::zero(), o = G::one(); chkp<G>(z, C.O(), "G01.default:" + N, 1, [&] { return N; }); chkp<G>(z2, C.O(), "G01.zero:" + N, 1, [&] { return N; }); expect(z2.is_zero() && !o.is_zero() && z2 == z && z2 != o && z2.is_special(), "G01.zero-one:" + N, 1, [&] { return N; }); chkp<G>(G::zero() + G::zero(), C.O(), "G01.zero+zero:" + N, 1, [&] { return N; }); }
    auto point = [&]() -> Pt { unsigned k = r.below(20); if (k == 0) return C.O(); if (k <= 2 && !tors.empty()) return r.pick(tors); if (k == 3 && !xs.empty()) return r.pick(xs); if (k <= 8 && !pool.off.empty()) return r.pick(pool.off); if (k == 9) return pool.fresh(r).first; return r.pick(pool.sub).first; };
    for (uint64_t i = 0; i < cases; ++i) {
        if (i % 8 == 0) at("G01:" + N);
        Pt P = point(), Q; const char *rel = "";
        switch (r.below(12)) { case 0: Q = P; rel = "equal"; break; case 1: Q = C.neg(P); rel = "opposite"; break; case 2: Q = C.O(); rel = "identity"; break; case 3: Q = P; P = C.O(); rel = "identity-first"; break; case 4: Q = C.add(P, P); rel = "double"; break; case 5: Q = C.neg(C.add(P, P)); rel = "minus-double"; break; case 6: Q = C.add(P, r.pick(pool.sub).first); rel = "sum"; break; default: Q = point(); rel = "any"; }
        if (CI<G>::rep == INVED && (!representable<G>(P) || !representable<G>(Q))) continue;
        G p = encr<G>(P, r), q = encr<G>(Q, r); if (r.chance(1, 4)) q = encp<G>(Q, r.chance(1, 2) ? F->one() : F->neg(F->one()));
        std::string t = std::string(rel) + " P=" + ref::str(P) + " Q=" + ref::str(Q); info(t); auto ctx = [&] { return std::string(rel) + " P=" + showp(p) + " Q=" + showp(q); };
        uint64_t h = (ref::hash(P) * 31 + ref::hash(Q)) * 7 + ref::hash(dec(p.Z)) + 5 * ref::hash(dec(q.Z)); bool nt = !C.isO(P) && !C.isO(Q); G p0 = p, q0 = q;
        if (!C.isO(P)) { // other points of the curve that share coordinates with this one, or differ from it in signs or by a root of unity only
            const El nx = F->neg(P.x), ny = F->neg(P.y); std::vector<Pt> look{ref::mk(P.x, ny), ref::mk(nx, P.y), ref::mk(nx, ny), ref::mk(P.y, P.x), ref::mk(P.y, nx), ref::mk(ny, P.x), ref::mk(ny, nx)};
            for (const Z &w : roots) { look.push_back(ref::mk(F->smul(P.x, w), P.y)); look.push_back(ref::mk(F->smul(P.x, w), ny)); look.push_back(ref::mk(P.x, F->smul(P.y, w))); }
            for (const Pt &L : look) if (L != P && C.on(L) && representable<G>(L)) { G a = r.chance(1, 2) ? encr<G>(L, r) : encp<G>(L, r.chance(1, 2) ? F->one() : F->from(r.pick(roots))); G b = r.chance(1, 2) ? p : r.chance(1, 2) ? encs<G>(P) : encp<G>(P, F->from(r.pick(roots)));
                expect(!(a == b) && !(b == a) && a != b && b != a && C.on(decp(a)), "G01.equality-look-alike:" + N, ref::hash(L) + 3 * h, [&] { return showp(a) + " vs " + showp(b); }); } }
        Pt S = C.add(P, Q), D = C.add(P, C.neg(Q)), T = C.add(P, P);
        bool defd = representable<G>(S) && representable<G>(D) && representable<G>(T) && C.on(S) && C.on(D) && C.on(T);   // Edwards pairs whose sum has no inverted form
        if (!defd) continue;
        chkp<G>(p + q, S, "G01.add-op:" + N, h, ctx, nt); chkp<G>(q + p, S, "G01.add-op-swapped:" + N, h, ctx, nt); chkp<G>(p - q, D, "G01.sub:" + N, h, ctx, nt); chkp<G>(-p, C.neg(P), "G01.neg:" + N, h, ctx, nt);
        chkp<G>(p.dbl(), T, "G01.dbl:" + N, h, ctx, nt); chkp<G>(p + p, T, "G01.add-self:" + N, h, ctx, nt); chkp<G>(p - p, C.O(), "G01.sub-self:" + N, h, ctx, nt);
        if (CI<G>::rep != INVED || nt) chkp<G>(p.add(q), S, "G01.add:" + N, h, ctx, nt);
        { G qs = encs<G>(Q); if (C.isO(Q) && r.chance(1, 2)) qs = encr<G>(Q, r); chkp<G>(p.mixed_add(qs), S, "G01.mixed_add:" + N, h, ctx, nt); G ps = encs<G>(P); chkp<G>(ps.mixed_add(qs), S, "G01.mixed_add-both-special:" + N, h, ctx, nt); if (r.chance(1, 2)) { G pn = encs<G>(P); chkp<G>(p.mixed_add(pn), T, "G01.mixed_add-equal:" + N, h, ctx, nt); chkp<G>(p.mixed_add(encs<G>(C.neg(P))), C.O(), "G01.mixed_add-opposite:" + N, h, ctx, nt); } }
        expect((p == q) == (P == Q) && (p != q) == (P != Q) && (q == p) == (P == Q), "G01.equality:" + N, h, ctx, nt);
        { G p2 = encr<G>(P, r); expect(p == p2 && !(p != p2) && p2 == p, "G01.equality-other-representation:" + N, h, [&] { return showp(p) + " vs " + showp(p2); }, nt); expect(p == p, "G01.equality-self:" + N, h, ctx, nt); G o = encr<G>(C.O(), r); expect((p == o) == C.isO(P) && (o == p) == C.isO(P), "G01.equality-identity:" + N, h, ctx, nt); expect(p.is_zero() == C.isO(P), "G01.is_zero:" + N, h, ctx, nt); }
        if (nt && P.x == Q.x) {} else if (nt) { // points sharing one projective coordinate are still different
            if (P != Q && CI<G>::rep != INVED) { Pt Pn = C.neg(P); G a = encp<G>(Pn, F->neg(F->one())); expect((a == p) == (Pn == P), "G01.equality-opposite:" + N, h, ctx); } }
        { G z = p; z = z + q; chkp<G>(z, S, "G01.assign-left:" + N, h, ctx, nt); z = q; z = p - z; chkp<G>(z, D, "G01.assign-right:" + N, h, ctx, nt); }
        expect(p.X == p0.X && p.Y == p0.Y && p.Z == p0.Z && q.X == q0.X && q.Y == q0.Y && q.Z == q0.Z, "G01.operands-unchanged:" + N, h, ctx, nt);
        if (i == 3) mon::sample(N + " " + t);
    }
    // long random histories on four registers, tracked by discrete logarithms
    uint64_t steps = 40 + cases / 4; G g[4]; Z k[4]; std::vector<std::string> log; at("G01.history:" + N);
    for (int i = 0; i < 4; ++i) { auto &s = r.pick(pool.sub); g[i] = encr<G>(s.first, r); k[i] = s.second; } const Z &q = pool.q;
    for (uint64_t s = 0; s < steps; ++s) {
        int a = r.below(4), b = r.below(4), c = r.below(4); unsigned op = r.below(8); info("step " + std::to_string(s) + " op " + std::to_string(op));
        switch (op) {
        case 0: case 1: g[c] = g[a] + g[b]; k[c] = k[a] + k[b]; break; case 2: g[c] = g[a] - g[b]; k[c] = k[a] - k[b]; break; case 3: g[c] = g[a].dbl(); k[c] = k[a] * 2; break; case 4: g[c] = -g[a]; k[c] = -k[a]; break;
        case 5: { auto &o = r.pick(pool.sub); g[c] = g[a].mixed_add(encs<G>(o.first)); k[c] = k[a] + o.second; break; }
        case 6: if (r.chance(1, 3)) { auto &o = r.pick(pool.sub); g[c] = encr<G>(o.first, r); k[c] = o.second; } break;
        case 7: if (r.chance(1, 2)) g[c].to_special(); break; }
        k[c] = ref::modp(k[c], q); if (s % 8 == 7 || s + 1 == steps) for (int i = 0; i < 4; ++i) chkp<G>(g[i], pool.gm(k[i]), "G01.history:" + N, ref::hash(k[i]) + s, [&] { return "after " + std::to_string(s) + " steps, log " + hex(k[i]); }, k[i] != 0);
        expect((g[a] == g[b]) == (k[a] == k[b]), "G01.history-equality:" + N, s * 16 + a * 4 + b, [&] { return hex(k[a]) + " vs " + hex(k[b]); });
    }
}
int main(int argc, char **argv) {
    mon::init(argc, argv); init_all(); uint64_t c = 100 * mon::M().scale;
    run<alt_bn128_G1>(c); run<alt_bn128_G2>(c * 3 / 4); run<bls12_381_G1>(c); run<bls12_381_G2>(c * 3 / 4); run<edwards_G1>(c); run<edwards_G2>(c * 3 / 4); run<mnt4_G1>(c); run<mnt4_G2>(c * 3 / 4); run<mnt6_G1>(c); run<mnt6_G2>(c * 3 / 4);
    return mon::finish();
}
