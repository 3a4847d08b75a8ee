// Independent reference model: finite-field towers and elliptic curves over GMP
// integers, written from the definitions (schoolbook products, linear-algebra
// inverses, affine chord-and-tangent). Nothing here calls libff arithmetic.
#pragma once
#include "mon.hpp"
#include <memory>

namespace ref {
typedef mpz_class Z;
typedef std::vector<Z> El; // coefficients over F_p, flattened tower order (low first)

inline Z modp(const Z &a, const Z &p) { Z r; mpz_mod(r.get_mpz_t(), a.get_mpz_t(), p.get_mpz_t()); return r; }
inline Z inv_mod(const Z &a, const Z &p) { Z r; if (!mpz_invert(r.get_mpz_t(), a.get_mpz_t(), p.get_mpz_t())) return Z(0); return r; }
inline Z powm(const Z &a, const Z &e, const Z &p) { Z r; mpz_powm(r.get_mpz_t(), a.get_mpz_t(), e.get_mpz_t(), p.get_mpz_t()); return r; }
inline Z ipow(const Z &a, unsigned long e) { Z r; mpz_pow_ui(r.get_mpz_t(), a.get_mpz_t(), e); return r; }
inline bool isprime(const Z &a) { return mpz_probab_prime_p(a.get_mpz_t(), 40) > 0; }
inline size_t bits(const Z &a) { return a == 0 ? 0 : mpz_sizeinbase(a.get_mpz_t(), 2); }
inline bool bit(const Z &a, size_t i) { return mpz_tstbit(a.get_mpz_t(), i); }

// A tower step: base[X]/(X^d - nr); base==null means the prime field itself.
struct Field {
    Z p;
    const Field *base = nullptr;
    int d = 1, n = 1;   // relative and absolute degree
    El nr;              // non-residue, an element of base
    Field(const Z &p_) : p(p_) {}
    Field(const Field *b, int deg, const El &nonres) : p(b->p), base(b), d(deg), n(b->n * deg), nr(nonres) {}
    El zero() const { return El(n); }
    El one() const { El r(n); r[0] = 1; return r; }
    El from(const Z &v) const { El r(n); r[0] = modp(v, p); return r; }
    El lift(const El &b) const { El r(n); for (size_t i = 0; i < b.size(); ++i) r[i] = b[i]; return r; } // subfield element
    El gen() const { El r(n); r[base->n] = 1; return r; } // X
    El part(const El &a, int i) const { int m = base->n; return El(a.begin() + i * m, a.begin() + (i + 1) * m); }
    void set(El &a, int i, const El &v) const { std::copy(v.begin(), v.end(), a.begin() + i * base->n); }
    bool is_zero(const El &a) const { for (auto &x : a) if (x != 0) return false; return true; }
    El add(const El &a, const El &b) const { El r(n); for (int i = 0; i < n; ++i) { r[i] = a[i] + b[i]; if (r[i] >= p) r[i] -= p; } return r; }
    El sub(const El &a, const El &b) const { El r(n); for (int i = 0; i < n; ++i) { r[i] = a[i] - b[i]; if (r[i] < 0) r[i] += p; } return r; }
    El neg(const El &a) const { return sub(zero(), a); }
    El smul(const El &a, const Z &k) const { El r(n); for (int i = 0; i < n; ++i) r[i] = modp(a[i] * k, p); return r; }
    El mul(const El &a, const El &b) const {
        if (!base) { El r(1); r[0] = modp(a[0] * b[0], p); return r; }
        std::vector<El> c(2 * d - 1, base->zero());
        for (int i = 0; i < d; ++i) {
            El x = part(a, i);
            if (base->is_zero(x)) continue;
            for (int j = 0; j < d; ++j) { El y = part(b, j); if (!base->is_zero(y)) c[i + j] = base->add(c[i + j], base->mul(x, y)); }
        }
        El r(n);
        for (int i = 0; i < d; ++i) {
            El v = c[i];
            if (i + d < 2 * d - 1) v = base->add(v, base->mul(nr, c[i + d]));
            set(r, i, v);
        }
        return r;
    }
    El sqr(const El &a) const { return mul(a, a); }
    El pow(const El &a, const Z &e) const {
        if (!base) { El r(1); r[0] = powm(a[0], e, p); return r; }
        El r = one();
        for (long i = (long)bits(e) - 1; i >= 0; --i) { r = sqr(r); if (bit(e, i)) r = mul(r, a); }
        return r;
    }
    // inverse by solving a*x = 1 as a linear system over F_p
    El inv(const El &a) const {
        if (n == 1) { El r(1); r[0] = inv_mod(a[0], p); return r; }
        std::vector<El> m(n, El(n + 1));
        for (int j = 0; j < n; ++j) { El e(n); e[j] = 1; El c = mul(a, e); for (int i = 0; i < n; ++i) m[i][j] = c[i]; }
        m[0][n] = 1;
        for (int c = 0; c < n; ++c) {
            int piv = -1;
            for (int i = c; i < n; ++i) if (m[i][c] != 0) { piv = i; break; }
            if (piv < 0) return El(n);
            std::swap(m[c], m[piv]);
            Z iv = inv_mod(m[c][c], p);
            for (int k = c; k <= n; ++k) m[c][k] = modp(m[c][k] * iv, p);
            for (int i = 0; i < n; ++i) if (i != c && m[i][c] != 0) { Z f = m[i][c]; for (int k = c; k <= n; ++k) m[i][k] = modp(m[i][k] - f * m[c][k], p); }
        }
        El r(n); for (int i = 0; i < n; ++i) r[i] = m[i][n];
        return r;
    }
    Z order() const { return ipow(p, n); }
    bool is_square(const El &a) const { if (is_zero(a)) return true; return pow(a, (order() - 1) / 2) == one(); }
    El random(mon::Rng &r) const { El v(n); for (auto &x : v) x = mon::hostile_mod(r, p); return v; }
    El uniform(mon::Rng &r) const { El v(n); for (auto &x : v) { Z t = 0; for (size_t i = 0; i < bits(p) / 64 + 2; ++i) { t <<= 64; t += mon::mpz_u64(r.next()); } x = modp(t, p); } return v; }
    // Cipolla-free generic square root (Tonelli-Shanks in F_q); a must be a square
    El sqrt(const El &a) const {
        if (is_zero(a)) return a;
        Z q1 = order() - 1, t = q1; size_t s = 0;
        while (!bit(t, 0)) { t >>= 1; ++s; }
        static std::map<std::pair<std::string, int>, El> cache;
        auto key = std::make_pair(p.get_str() + (base ? nr_str() : ""), n);
        El c;
        auto it = cache.find(key);
        if (it != cache.end()) c = it->second;
        else { mon::Rng r(99); El z; do z = uniform(r); while (is_square(z)); c = pow(z, t); cache[key] = c; }
        El x = pow(a, (t + 1) / 2), b = pow(a, t); size_t m = s;
        while (b != one()) {
            size_t i = 0; El bb = b;
            while (bb != one()) { bb = sqr(bb); if (++i >= m) return El(); }
            El g = c; for (size_t k = 0; k + i + 1 < m; ++k) g = sqr(g);
            x = mul(x, g); c = sqr(g); b = mul(b, c); m = i;
        }
        return x;
    }
    std::string nr_str() const { std::string s; for (auto &v : nr) s += v.get_str() + ","; return s + (base && base->base ? base->nr_str() : ""); }
};
inline std::string str(const El &a) { std::string s = "("; for (auto &v : a) s += mon::hex(v) + " "; s.back() = ')'; return s; }
inline uint64_t hash(const Z &v) { return mon::hs(v.get_str(62)); }
inline uint64_t hash(const El &a) { uint64_t h = 7; for (auto &v : a) h = h * 1000003 + hash(v); return h; }

// ---------------------------------------------------------------- curves
struct Pt { bool inf = true; El x, y; bool operator==(const Pt &o) const { return inf == o.inf && (inf || (x == o.x && y == o.y)); } bool operator!=(const Pt &o) const { return !(*this == o); } };
inline Pt mk(const El &x, const El &y) { Pt p; p.inf = false; p.x = x; p.y = y; return p; }
inline std::string str(const Pt &p) { return p.inf ? "O" : str(p.x) + "," + str(p.y); }
inline uint64_t hash(const Pt &p) { return p.inf ? 3 : hash(p.x) * 31 + hash(p.y); }

struct Curve {
    const Field *F; bool edwards; El a, b; // b doubles as d for Edwards (a x^2 + y^2 = 1 + d x^2 y^2)
    Pt O() const { Pt p; if (edwards) { p.inf = false; p.x = F->zero(); p.y = F->one(); } return p; }
    bool isO(const Pt &p) const { return p == O(); }
    bool on(const Pt &p) const {
        if (p.inf) return !edwards;
        El xx = F->sqr(p.x), yy = F->sqr(p.y);
        if (edwards) return F->add(F->mul(a, xx), yy) == F->add(F->one(), F->mul(b, F->mul(xx, yy)));
        return yy == F->add(F->mul(xx, p.x), F->add(F->mul(a, p.x), b));
    }
    Pt neg(const Pt &p) const { if (p.inf) return p; return edwards ? mk(F->neg(p.x), p.y) : mk(p.x, F->neg(p.y)); }
    Pt add(const Pt &p, const Pt &q) const {
        if (edwards) {
            El xy = F->mul(F->mul(p.x, q.x), F->mul(p.y, q.y)), t = F->mul(b, xy);
            El nx = F->add(F->mul(p.x, q.y), F->mul(p.y, q.x)), ny = F->sub(F->mul(p.y, q.y), F->mul(a, F->mul(p.x, q.x)));
            return mk(F->mul(nx, F->inv(F->add(F->one(), t))), F->mul(ny, F->inv(F->sub(F->one(), t))));
        }
        if (p.inf) return q;
        if (q.inf) return p;
        El l;
        if (p.x == q.x) {
            if (p.y != q.y || F->is_zero(p.y)) return Pt();
            El n = F->add(F->smul(F->sqr(p.x), 3), a);
            l = F->mul(n, F->inv(F->smul(p.y, 2)));
        } else l = F->mul(F->sub(q.y, p.y), F->inv(F->sub(q.x, p.x)));
        El x = F->sub(F->sub(F->sqr(l), p.x), q.x);
        return mk(x, F->sub(F->mul(l, F->sub(p.x, x)), p.y));
    }
    Pt mul(const Pt &p, const Z &k) const { // k >= 0
        Pt r = O();
        for (long i = (long)bits(k) - 1; i >= 0; --i) { r = add(r, r); if (bit(k, i)) r = add(r, p); }
        return r;
    }
    // arbitrary curve point (not necessarily in the prime-order subgroup)
    Pt random(mon::Rng &r) const {
        for (;;) {
            El x = F->uniform(r), rhs, xx = F->sqr(x);
            if (edwards) rhs = F->mul(F->sub(F->one(), F->mul(a, xx)), F->inv(F->sub(F->one(), F->mul(b, xx))));
            else rhs = F->add(F->mul(xx, x), F->add(F->mul(a, x), b));
            if (!F->is_square(rhs)) continue;
            El y = F->sqrt(rhs);
            if (r.chance(1, 2)) y = F->neg(y);
            return mk(x, y);
        }
    }
    // point with a chosen x if there is one
    bool lift_x(const El &x, Pt &out) const {
        El rhs, xx = F->sqr(x);
        if (edwards) rhs = F->mul(F->sub(F->one(), F->mul(a, xx)), F->inv(F->sub(F->one(), F->mul(b, xx))));
        else rhs = F->add(F->mul(xx, x), F->add(F->mul(a, x), b));
        if (!F->is_square(rhs)) return false;
        out = mk(x, F->sqrt(rhs));
        return true;
    }
};

// faster curve ops for long scalar products: Weierstrass only; falls back to affine
} // namespace ref
