// F01: prime-field arithmetic against integer arithmetic modulo p.
#define MON_MAIN
#include "lib.hpp"
#include "custom.hpp"
using namespace lb;

template<mp_size_t n, const bigint<n> &m> struct T1 {
    typedef Fp_model<n, m> F; typedef PF<n, m> P;
    static std::string nm;
    static Z p;
    static void c1(const F &got, const Z &want, const char *op, const Z &a, const Z &b) {
        bool ok = P::canon(got) && P::dec(got) == want;
        expect(ok, std::string("F01.") + op + ":" + nm, ref::hash(a) * 31 + ref::hash(b), [&] {
            return std::string(op) + " a=" + hex(a) + " b=" + hex(b) + " got " + hex(P::dec(got)) + " (internal " + hex(zb<n>(got.mont_repr)) + (P::canon(got) ? "" : " NOT REDUCED") + ") want " + hex(want);
        }, a != 0 && b != 0);
    }
    static void pair(const F &x, const F &y) {
        const Z a = P::dec(x), b = P::dec(y);
        info("a=" + hex(a) + " b=" + hex(b));
        const Z sum = ref::modp(a + b, p), dif = ref::modp(a - b, p), pro = ref::modp(a * b, p);
        c1(x + y, sum, "add", a, b); c1(x - y, dif, "sub", a, b); c1(x * y, pro, "mul", a, b);
        { F z = x; z += y; c1(z, sum, "add-assign", a, b); }
        { F z = x; z -= y; c1(z, dif, "sub-assign", a, b); }
        { F z = x; z *= y; c1(z, pro, "mul-assign", a, b); }
        { F z = y; z = x - z; c1(z, dif, "sub-into-operand", a, b); }
        { F z = y; z = x * z; c1(z, pro, "mul-into-operand", a, b); }
        expect((x == y) == (a == b) && (x != y) == (a != b), "F01.equality:" + nm, ref::hash(a) + ref::hash(b), [&] { return "a=" + hex(a) + " b=" + hex(b); });
        // results of different routes to the same value must be indistinguishable
        { F u = (x + y) - y; expect(u == x && u.mont_repr == x.mont_repr, "F01.canonical:" + nm, ref::hash(a) * 3 + ref::hash(b), [&] { return "(a+b)-b differs from a: a=" + hex(a) + " b=" + hex(b); }); }
        { bigint<n> ob = y.mont_repr; F z = x; z.mul_reduce(ob); c1(z, pro, "montgomery-product", a, b); }
    }
    static void one(const F &x) {
        const Z a = P::dec(x), none = 1;
        info("a=" + hex(a));
        c1(-x, ref::modp(-a, p), "neg", a, none);
        c1(x.squared(), ref::modp(a * a, p), "squared", a, none);
        { F z = x; z.square(); c1(z, ref::modp(a * a, p), "square", a, none); }
        { F z = x; z += z; c1(z, ref::modp(2 * a, p), "add-self", a, none); }
        { F z = x; z -= z; c1(z, Z(0), "sub-self", a, none); }
        { F z = x; z *= z; c1(z, ref::modp(a * a, p), "mul-self", a, none); }
        { F z = x; z = z + z; c1(z, ref::modp(2 * a, p), "double", a, none); }
        { F z = x; z.mul_reduce(z.mont_repr); c1(z, ref::modp(a * a, p), "montgomery-self", a, none); }
        expect(x.is_zero() == (a == 0), "F01.is_zero:" + nm, ref::hash(a), [&] { return hex(a); });
        if (a != 0) {
            Z iv = ref::inv_mod(a, p);
            c1(x.inverse(), iv, "inverse", a, none);
            { F z = x; z.invert(); c1(z, iv, "invert", a, none); }
        }
        { F z = x; z.clear(); c1(z, Z(0), "clear", a, none); }
    }
    static F elem(Rng &r) { // half of the operands are chosen by value, half by internal representation
        Z v = hostile_mod(r, p);
        return r.chance(1, 2) ? P::enc(v) : P::raw(v);
    }
    static void run(const std::string &name, uint64_t cases) {
        nm = name; p = P::p();
        if (!mon::want(nm)) return;
        at("F01:" + nm);
        Rng &r = rng();
        c1(F::zero(), Z(0), "zero", 1, 1); c1(F::one(), Z(1), "one", 1, 1);
        // every ordered pair of boundary values, in both representations
        std::vector<F> bd;
        for (long d = 0; d < 4; ++d) { bd.push_back(P::enc(ref::modp(Z(d), p))); bd.push_back(P::enc(ref::modp(Z(-1 - d), p))); bd.push_back(P::raw(ref::modp(Z(d), p))); bd.push_back(P::raw(ref::modp(Z(-1 - d), p))); bd.push_back(P::raw(ref::modp((p - 1) / 2 + d - 1, p))); }
        for (int k = 0; k < n; ++k) { Z w; mpz_setbit(w.get_mpz_t(), 64 * k); for (long d = -1; d <= 1; ++d) { bd.push_back(P::raw(ref::modp(w + d, p))); bd.push_back(P::raw(ref::modp(p - w + d, p))); } }
        for (size_t i = 0; i < mon::M().newdict.size() && i < 16; ++i) { bd.push_back(P::enc(ref::modp(mon::M().newdict[i], p))); bd.push_back(P::raw(ref::modp(mon::M().newdict[i], p))); }
        for (auto &x : bd) { at("F01:" + nm); one(x); for (auto &y : bd) pair(x, y); }
        // all pairs summing to p or differing by a carry, plus random hostile pairs
        for (uint64_t i = 0; i < cases; ++i) {
            if (i % 64 == 0) at("F01:" + nm);
            F x = elem(r), y;
            Z xm = zb<n>(x.mont_repr);
            switch (r.below(6)) {
            case 0: y = P::raw(ref::modp(p - xm + (long)r.below(3) - 1, p)); break;
            case 1: y = P::raw(ref::modp(xm + (long)r.below(3) - 1, p)); break;
            default: y = elem(r);
            }
            pair(x, y); one(x);
            if (i < 2) mon::sample(nm + " a=" + hex(P::dec(x)) + " b=" + hex(P::dec(y)) + " all binary/unary ops");
        }
        // long dependent chains: the state after each step is checked
        F acc = elem(r); Z v = P::dec(acc);
        for (uint64_t i = 0; i < cases; ++i) {
            if (i % 64 == 0) at("F01.chain:" + nm);
            F y = elem(r); Z b = P::dec(y), o = v;
            switch (r.below(5)) {
            case 0: acc += y; v = ref::modp(v + b, p); break;
            case 1: acc -= y; v = ref::modp(v - b, p); break;
            case 2: acc *= y; v = ref::modp(v * b, p); break;
            case 3: acc = -acc; v = ref::modp(-v, p); break;
            default: acc.square(); v = ref::modp(v * v, p); break;
            }
            c1(acc, v, "chain", o, b);
            if (v == 0) { acc = P::enc(Z(5)); v = 5; }
        }
    }
};
template<mp_size_t n, const bigint<n> &m> std::string T1<n, m>::nm;
template<mp_size_t n, const bigint<n> &m> Z T1<n, m>::p;
template<mp_size_t n, const bigint<n> &m> void go(const Fp_model<n, m> &, uint64_t c) { T1<n, m>::run(FI<Fp_model<n, m>>::name(), c); }

// exhaustive: every pair of elements of a small prime field
static void exhaustive() {
    typedef PF<1, cust::m1a> P; at("F01.exhaustive:p257");
    for (int a = 0; a < 257; ++a) {
        cust::F1a x = P::enc(Z(a)); info("a=" + std::to_string(a)); at("F01.exhaustive:p257");
        for (int b = 0; b < 257; ++b) {
            cust::F1a y = P::enc(Z(b));
            bool ok = P::dec(x + y) == (a + b) % 257 && P::dec(x - y) == (a + 257 - b) % 257 && P::dec(x * y) == (a * b) % 257 && P::canon(x + y) && P::canon(x - y) && P::canon(x * y);
            expect(ok, "F01.exhaustive:p257", a * 257 + b, [&] { return std::to_string(a) + "," + std::to_string(b); });
        }
        if (a) expect(P::dec(x.inverse()) * a % 257 == 1, "F01.exhaustive.inverse:p257", a, [&] { return std::to_string(a); });
    }
}
int main(int argc, char **argv) {
    mon::init(argc, argv); init_all(); cust::init();
    uint64_t c = 1500 * mon::M().scale;
    go(alt_bn128_Fr(), c); go(alt_bn128_Fq(), c); go(bls12_381_Fr(), c); go(bls12_381_Fq(), c); go(edwards_Fr(), c); go(edwards_Fq(), c); go(mnt4_Fr(), c); go(mnt4_Fq(), c);
    go(cust::F1a(), c / 4); go(cust::F1b(), c / 4); go(cust::F2(), c / 4); go(cust::F3(), c / 4); go(cust::F3b(), c / 4); go(cust::F4(), c / 2); go(cust::F4b(), c / 4); go(cust::F5(), c / 2); go(cust::F5b(), c / 4); go(cust::F6(), c / 4); go(cust::F8(), c / 4);
    exhaustive();
    return mon::finish();
}
