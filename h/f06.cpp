// F06: binary fields against bit-serial polynomial arithmetic.
#define MON_MAIN
#include "gfref.hpp"
using namespace lb;
template<class G> void run(uint64_t cases) {
    const GF &f = BinT<G>::g(); const std::string nm = BinT<G>::name(); if (!mon::want(nm)) return;
    Rng &r = rng(); typedef GF::W W;
    auto c = [&](const G &g, const W &w, const char *op, const W &a, const W &b) { gchk<G>(g, w, op, a, b); };
    at("F06:" + nm);
    c(G::zero(), f.zero(), "zero", f.one(), f.one()); c(G::one(), f.one(), "one", f.one(), f.one()); c(G(), f.zero(), "default", f.one(), f.one());
    std::vector<W> ex; // all pairs of special elements, then hostile pairs
    for (int i = 0; i < f.n; ++i) { Z v; mpz_setbit(v.get_mpz_t(), i); ex.push_back(f.fromz(v)); }
    { Z a; mpz_setbit(a.get_mpz_t(), f.n); ex.push_back(f.fromz(a - 1)); ex.push_back(f.zero()); }
    uint64_t total = cases + f.n * 4;
    for (uint64_t i = 0; i < total; ++i) {
        if (i % 64 == 0) at("F06:" + nm);
        W a, b;
        if (i < (uint64_t)f.n) { a = ex[i]; b = r.chance(1, 2) ? ex[ex.size() - 2] : ex[r.below(ex.size())]; }
        else if (i < 4u * f.n) { a = r.pick(ex); b = r.pick(ex); }
        else { a = f.hostile(r); b = r.chance(1, 6) ? a : f.hostile(r); }
        info(nm + " a=" + f.str(a) + " b=" + f.str(b));
        G x = gf<G>(a), y = gf<G>(b);
        W S = f.add(a, b), P = f.mul(a, b), Q = f.mul(a, a);
        c(x + y, S, "add", a, b); c(x - y, S, "sub", a, b); c(-x, a, "neg", a, a); c(x * y, P, "mul", a, b); c(y * x, P, "mul-swapped", a, b);
        { G z = x; z += y; c(z, S, "add-assign", a, b); } { G z = x; z -= y; c(z, S, "sub-assign", a, b); } { G z = x; z *= y; c(z, P, "mul-assign", a, b); }
        { G z = x; z *= z; c(z, Q, "mul-self", a, a); } { G z = x; z += z; c(z, f.zero(), "add-self", a, a); } { G z = y; z = x * z; c(z, P, "mul-into-operand", a, b); }
        c(x.squared(), Q, "squared", a, a); { G z = x; z.square(); c(z, Q, "square", a, a); }
        c(x, a, "const-operand", a, a);
        expect((x == y) == (a == b) && (x != y) == (a != b) && x.is_zero() == f.is_zero(a), "F06.equality:" + nm, f.hash(a) + f.hash(b), [&] { return "a=" + f.str(a) + " b=" + f.str(b); });
        if (i % 8 == 0 || i < (uint64_t)f.n / 4) {
            if (!f.is_zero(a)) { W v = f.inv(a); c(x.inverse(), v, "inverse", a, a); G z = x; z.invert(); c(z, v, "invert", a, a); }
            G s = x.sqrt(); W sw = s.to_words(); c(s, f.mul(sw, sw) == a ? sw : f.add(sw, f.one()), "sqrt", a, a);
        }
        if (i == total - 1) mon::sample(nm + " a=" + f.str(a) + " b=" + f.str(b));
    }
    { G z = gf<G>(f.hostile(r)); z.clear(); c(z, f.zero(), "clear", f.one(), f.one()); }
    if (f.n > 64) { uint64_t v = r.next(); c(G(v), f.fromz(mon::mpz_u64(v)), "from-word", f.one(), f.one()); }
    // sizes, and the order of the designated generator
    expect(G::ceil_size_in_bits() == (size_t)f.n && G::floor_size_in_bits() == (size_t)f.n && G::extension_degree() == (size_t)f.n && zb<2>(G::template field_char<2>()) == 2, "F06.sizes:" + nm, 1, [&] { return nm; });
    Z N; mpz_setbit(N.get_mpz_t(), f.n); N -= 1;
    std::vector<Z> primes = {Z(3), Z(5), Z(7), Z(13), Z(17), Z(97), Z(193), Z(241), Z(257), Z(641), Z(65537), Z(673), Z(6700417), Z(22253377), Z("18446744069414584321"), Z(274177), Z("67280421310721"), Z("59649589127497217"), Z("5704689200685129054721")};
    Z rest = N; W g = G::multiplicative_generator.to_words();
    for (auto &q : primes) if (N % q == 0) {
        while (rest % q == 0) rest /= q;
        expect(ref::isprime(q) && f.pow(g, N / q) != f.one(), "F06.generator:" + nm, ref::hash(q), [&] { return "generator " + f.str(g) + " has order dividing (2^n-1)/" + q.get_str(); });
    }
    expect(rest == 1 && f.pow(g, N) == f.one(), "F06.generator-order:" + nm, 1, [&] { return "cofactor " + rest.get_str(); });
    c(G::multiplicative_generator, g, "generator-value", g, g);
}
int main(int argc, char **argv) {
    mon::init(argc, argv); init_all();
    uint64_t c = 1500 * mon::M().scale;
    run<gf32>(c); run<gf64>(c); run<gf128>(c); run<gf192>(c / 2); run<gf256>(c / 2);
    return mon::finish();
}
