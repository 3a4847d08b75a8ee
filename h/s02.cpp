// S02: sequences of values of mixed types in one stream.
#define MON_MAIN
#include "ser.hpp"
#include <memory>
using namespace lb;
struct Item { virtual ~Item() {} virtual std::string name() const = 0; virtual Sep sep() const = 0; virtual std::string key() const = 0; virtual void write(std::ostream &) const = 0; virtual std::string read(std::istream &) const = 0; };
struct Kind { std::string name; std::function<std::unique_ptr<Item>(Rng &)> make; unsigned weight; };
template<class T> struct ItemT : Item {
    T x; std::shared_ptr<T> target; bool fresh; // read into a fresh object, or over the one all reads of this type share
    ItemT(Rng &r) : x(V<T>::gen(r)), target(shared()), fresh(r.chance(1, 3)) { if (!fresh && r.chance(1, 4)) *target = V<T>::gen(r); }
    static std::shared_ptr<T> shared() { static std::shared_ptr<T> p = std::make_shared<T>(); return p; }
    std::string name() const override { return V<T>::name(); } Sep sep() const override { return V<T>::sep; } std::string key() const override { return V<T>::key(x); }
    void write(std::ostream &o) const override { V<T>::w(o, x); }
    std::string read(std::istream &i) const override { if (fresh) { T y; V<T>::rd(i, y); return V<T>::key(y); } V<T>::rd(i, *target); return V<T>::key(*target); }
};
static std::vector<Kind> kinds;
template<class T> void add(unsigned w) { kinds.push_back({V<T>::name(), [](Rng &r) { return std::unique_ptr<Item>(new ItemT<T>(r)); }, w}); }
struct Cell { std::unique_ptr<Item> it; std::streamoff from, to, end; int sep; }; // sep: 0 none, 1 OUTPUT_NEWLINE, 2 OUTPUT_SEPARATOR, 3 newline
static Cell write_one(std::ostream &o, std::unique_ptr<Item> it, Rng &r) {
    Cell c; c.from = o.tellp(); it->write(o); c.to = o.tellp(); c.sep = it->sep() == ALG ? (r.chance(1, 3) ? 2 : 1) : it->sep() == NUM ? 3 : 0;
    if (c.sep == 1) o << OUTPUT_NEWLINE; else if (c.sep == 2) o << OUTPUT_SEPARATOR; else if (c.sep == 3) o << "\n"; c.end = o.tellp(); c.it = std::move(it); return c;
}
static std::string g_trace;
static bool read_one(std::istream &i, const Cell &c, const std::string &prev, const std::string &buf, const std::string &how) {
    const std::string n = c.it->name(), k = c.it->key(); const uint64_t h = mon::hs(k, mon::hs(prev)); at("S02:" + n); info("after " + prev + ", " + how + ": " + k); std::streamoff p0 = i.tellg(); std::string ky = c.it->read(i); bool good = i.good(); std::streamoff p1 = good ? (std::streamoff)i.tellg() : -2;
    auto ctx = [&] { return n + " after " + (prev.empty() ? "nothing" : prev) + " (" + how + "): " + k + " written as " + hexs(buf.substr(c.from, c.to - c.from)) + " at " + std::to_string(c.from) + ".." + std::to_string(c.to) + ", read from " + std::to_string(p0) + " to " + std::to_string(p1) + " as " + ky + "; sequence:" + g_trace; };
    bool ok = expect(ky == k, "S02.value:" + n, h, ctx) & expect(good, "S02.stream-usable:" + n, h, ctx) & expect(p1 == c.to, "S02.exact-bytes:" + n, h, ctx);
    mon::ev("S02.pair:" + (prev.empty() ? std::string("start") : prev.substr(0, prev.find('<'))) + "->" + n.substr(0, n.find('<')), h);
    if (!ok) return false;
    if (c.sep == 1) consume_OUTPUT_NEWLINE(i); else if (c.sep == 2) consume_OUTPUT_SEPARATOR(i); else if (c.sep == 3) consume_newline(i);
    return expect(i.good() && i.tellg() == c.end, "S02.separator:" + n, h, ctx);
}
static std::unique_ptr<Item> gen(Rng &r) { static unsigned tot = 0; if (!tot) for (auto &k : kinds) tot += k.weight; unsigned x = r.below(tot); for (auto &k : kinds) { if (x < k.weight) return k.make(r); x -= k.weight; } return kinds[0].make(r); }
static void sentinel(std::istream &i, const std::string &s) { std::string t(s.size(), 0); i.read(&t[0], t.size()); expect(t == s && i.good(), "S02.rest-untouched", mon::hs(g_trace), [&] { return "found " + hexs(t) + " after the sequence" + g_trace; }); }
static void whole(Rng &r) { // all written, then all read
    std::stringstream ss; std::vector<Cell> v; size_t n = 1 + r.below(r.chance(1, 6) ? 24 : 8); g_trace.clear(); at("S02.write"); for (size_t i = 0; i < n; ++i) { auto it = gen(r); info(it->name() + " " + it->key()); g_trace += " " + it->name(); v.push_back(write_one(ss, std::move(it), r)); } const std::string end = "#\n 7END"; ss << end; std::string buf = ss.str(), prev; for (auto &c : v) { if (!read_one(ss, c, prev, buf, "sequence")) return; prev = c.it->name(); } sentinel(ss, end);
    // a second reading of the same bytes
    if (r.chance(1, 3)) { std::istringstream s2(buf); prev.clear(); for (auto &c : v) { if (!read_one(s2, c, prev, buf, "second reading")) return; prev = c.it->name(); } sentinel(s2, end); }
}
static void interleaved(Rng &r) { // writes and reads of one stream alternate
    std::stringstream ss; std::vector<Cell> v; size_t rd = 0; g_trace.clear(); std::string prev; for (unsigned s = 6 + r.below(14); s--; ) { bool w = rd == v.size() || r.chance(1, 2); if (w) { at("S02.write"); auto it = gen(r); g_trace += " w:" + it->name(); v.push_back(write_one(ss, std::move(it), r)); ss << "|"; ss.seekp(-1, std::ios::cur); } else { g_trace += " r:" + v[rd].it->name(); if (!read_one(ss, v[rd], prev, ss.str(), "interleaved")) return; prev = v[rd++].it->name(); } } while (rd < v.size()) { if (!read_one(ss, v[rd], prev, ss.str(), "interleaved")) return; prev = v[rd++].it->name(); } }
int main(int argc, char **argv) {
    mon::init(argc, argv); init_all(); cust::init(); Rng &r = rng();
#define A1(T) add<T>(2);
#define A2(T) add<T>(3);
#define AV(T) add<std::vector<T>>(1);
    SER_FIELDS(A1) SER_CUST(A1) SER_GFS(A2) SER_BIG(A2) SER_GROUPS(A2) SER_PRECOMP(A1) SER_MAPS(A2) SER_NEST(A2) SER_INTV(A2) A2(bool) A2(std::vector<bool>) A2(size_t) A2(long) A2(int)
    SER_FIELDS(AV) SER_CUST(AV) SER_GFS(AV) SER_BIG(AV) SER_GROUPS(AV) AV(alt_bn128_ate_ell_coeffs) AV(mnt4_ate_G1_precomp) AV(bls12_381_ate_G2_precomp) AV(edwards_ate_G1_precomp)
    for (auto &k : kinds) for (int e = 0; e < 2; ++e) { // every type next to itself, and before a number
        std::stringstream ss; std::vector<Cell> v; g_trace = " " + k.name + (e ? ", size_t" : " twice"); at("S02.write"); v.push_back(write_one(ss, k.make(r), r)); v.push_back(write_one(ss, e ? std::unique_ptr<Item>(new ItemT<size_t>(r)) : k.make(r), r)); v.push_back(write_one(ss, std::unique_ptr<Item>(new ItemT<bool>(r)), r)); ss << "END"; std::string buf = ss.str(), prev; bool ok = true; for (auto &c : v) { if (!(ok = read_one(ss, c, prev, buf, "each type"))) break; prev = c.it->name(); } if (ok) sentinel(ss, "END"); }
    for (uint64_t i = 0; i < 60 * mon::M().scale; ++i) { whole(r); if (i < 3) mon::sample("sequence" + g_trace); if (i % 2) interleaved(r); if (i < 3) mon::sample("interleaved" + g_trace); }
    mon::M().notes["types"] = std::to_string(kinds.size()); mon::M().notes["configuration"] = std::string(BIN ? "binary" : "text") + (MONT ? ",internal" : ",plain") + (COMPR ? ",compressed" : ",uncompressed");
    return mon::finish();
}
