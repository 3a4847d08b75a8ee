// S03: streams that end, or fail, at any byte.
#define MON_MAIN
#include "ser.hpp"
#include <memory>
using namespace lb;
struct Item { virtual ~Item() {} virtual std::string name() const = 0; virtual Sep sep() const = 0; virtual std::string key() const = 0; virtual void write(std::ostream &) const = 0; virtual std::string read(std::istream &) const = 0; };
struct Kind { std::string name; std::function<std::unique_ptr<Item>(Rng &)> make; };
// the value is rendered only when the stream says that it was read: what a failed read leaves in its target is unspecified
template<class T> struct ItemT : Item {
    T x; ItemT(Rng &r) : x(V<T>::gen(r)) {}
    std::string name() const override { return V<T>::name(); } Sep sep() const override { return V<T>::sep; } std::string key() const override { return V<T>::key(x); }
    void write(std::ostream &o) const override { V<T>::w(o, x); }
    std::string read(std::istream &i) const override { T y = T(); V<T>::rd(i, y); return i ? V<T>::key(y) : std::string("(failed)"); }
};
static std::vector<Kind> kinds;
template<class T> void add() { kinds.push_back({V<T>::name(), [](Rng &r) { return std::unique_ptr<Item>(new ItemT<T>(r)); }}); }
struct Cell { std::unique_ptr<Item> it; size_t from, to, end; int sep; };
static const char *FAULT[] = {"end of stream", "end of stream, one byte at a time", "read error", "end of stream, exceptions on", "read error, exceptions on"};
// a source that hands out the first `cut` bytes, in pieces of at most `piece`, then ends or throws
struct Src : std::streambuf {
    std::string s; size_t pos = 0, piece; bool thr; char b[64]; size_t calls = 0;
    Src(const std::string &s, size_t cut, size_t piece, bool thr) : s(s.substr(0, cut)), piece(std::min<size_t>(piece, sizeof b)), thr(thr) {}
    int_type underflow() override { ++calls; size_t n = std::min(piece, s.size() - pos); if (!n) { if (thr) throw std::runtime_error("injected read error"); return traits_type::eof(); } memcpy(b, s.data() + pos, n); pos += n; setg(b, b, b + n); return traits_type::to_int_type(b[0]); }
};
struct Snk : std::streambuf { // accepts `cap` bytes
    std::string s; size_t cap; bool thr; Snk(size_t cap, bool thr) : cap(cap), thr(thr) {}
    int_type overflow(int_type c) override { if (s.size() >= cap) { if (thr) throw std::runtime_error("injected write error"); return traits_type::eof(); } s.push_back((char)c); return c; }
};
static void sepw(std::ostream &o, int s) { if (s == 1) o << OUTPUT_NEWLINE; else if (s == 2) o << OUTPUT_SEPARATOR; else if (s == 3) o << "\n"; }
static void sepr(std::istream &i, int s) { if (s == 1) consume_OUTPUT_NEWLINE(i); else if (s == 2) consume_OUTPUT_SEPARATOR(i); else if (s == 3) consume_newline(i); }
// first byte of the number an item ends with, if a number cut there is a number as well
static size_t last_number(const Cell &c, const std::string &buf) { if (BIN && c.it->sep() != NUM) return c.to; size_t p = c.to; while (p > c.from && (isdigit((unsigned char)buf[p - 1]))) --p; return p; }
static void cut_read(const std::vector<Cell> &v, const std::string &buf, size_t cut, int fault) {
    Src src(buf, cut, fault == 1 ? 1 : 64, fault == 2 || fault == 4); std::istream in(&src); bool thrown = false; const bool exc = fault >= 3; if (exc) in.exceptions(std::ios::failbit | std::ios::badbit);
    std::string prev; size_t i = 0; const Cell *hit = nullptr;
    auto ctx = [&](const Cell &c, const std::string &got) { return c.it->name() + " " + c.it->key() + " after " + (prev.empty() ? "nothing" : prev) + ", written as " + hexs(buf.substr(c.from, c.to - c.from)) + ", " + FAULT[fault] + " after " + std::to_string(cut - c.from) + " of its " + std::to_string(c.to - c.from) + " bytes: " + got; };
    for (; i < v.size(); ++i) {
        const Cell &c = v[i]; const uint64_t h = mon::hs(buf, cut * 8 + fault); at("S03.read:" + c.it->name()); info(ctx(c, "reading")); std::string k;
        if (c.to <= cut) { // complete
            try { k = c.it->read(in); } catch (const std::exception &e) { k = std::string("exception ") + e.what(); }
            const bool last = c.to == cut; // reading a number may look at the byte behind it
            if (last && (fault == 2 || fault == 4) && (!BIN || c.it->sep() == NUM)) return;
            if (!expect(k == c.it->key(), "S03.complete-value:" + c.it->name(), h, [&] { return ctx(c, k); })) return;
            if (last && c.to == c.end && i + 1 < v.size()) continue;
            if (c.end > cut) { hit = &c; break; }
            try { sepr(in, c.sep); } catch (const std::exception &) { expect(false, "S03.complete-separator:" + c.it->name(), h, [&] { return ctx(c, "exception from the separator"); }); return; }
            prev = c.it->name(); continue;
        }
        const bool amb = cut > last_number(c, buf);
        try { k = c.it->read(in); } catch (const std::ios_base::failure &) { thrown = true; k = "(failed)"; } catch (const std::exception &e) { thrown = exc; k = std::string("exception ") + e.what(); if (exc && fault == 4) k = "(failed)"; }
        if (amb && k != "(failed)") return;
        if (!expect(k == "(failed)" && !in, std::string("S03.") + (fault == 2 || fault == 4 ? "read-error" : "truncation") + "-reported:" + c.it->name(), h, [&] { return ctx(c, "stream still good, value " + k); })) return;
        if (exc) expect(thrown, "S03.exception-thrown:" + c.it->name(), h, [&] { return ctx(c, "no exception"); });
        hit = &c; break;
    }
    if (!hit) return;
    // a stream that has failed stays so, and reading on from it does no harm
    if (exc) { in.exceptions(std::ios::goodbit); }
    if (!in) for (size_t j = 0; j < 2; ++j) { const Kind &k = kinds[rng().below(kinds.size())]; auto it = k.make(rng()); at("S03.read-on:" + k.name); info("reading " + k.name + " from a stream that failed in " + hit->it->name()); std::string g; try { g = it->read(in); } catch (const std::exception &e) { g = std::string("exception ") + e.what(); }
        expect(g == "(failed)" && !in, "S03.stays-failed:" + k.name, mon::hs(buf, cut * 8 + fault) + j, [&] { return "reading " + k.name + " from a stream that failed in " + hit->it->name() + ": " + g; }); }
}
static void cut_write(const std::vector<Cell> &v, const std::string &buf, size_t cap, bool thr, bool exc) {
    Snk snk(cap, thr); std::ostream o(&snk); if (exc) o.exceptions(std::ios::failbit | std::ios::badbit); at("S03.write"); bool thrown = false; size_t i = 0;
    try { for (; i < v.size(); ++i) { info(v[i].it->name() + " " + v[i].it->key()); v[i].it->write(o); sepw(o, v[i].sep); } } catch (const std::exception &) { thrown = true; }
    const std::string n = v[std::min(i, v.size() - 1)].it->name(); auto ctx = [&] { std::string t; for (auto &c : v) t += " " + c.it->name() + " " + c.it->key(); return "writing" + t + " to a device that takes " + std::to_string(cap) + " of " + std::to_string(buf.size()) + " bytes: stored " + hexs(snk.s); };
    const uint64_t h = mon::hs(buf, cap * 4 + thr * 2 + exc) + 77; expect(!o, "S03.write-error-reported:" + v[0].it->name(), h, ctx); expect(snk.s == buf.substr(0, cap), "S03.write-prefix:" + v[0].it->name(), h, ctx); if (exc) expect(thrown, "S03.write-exception:" + n, h, ctx);
}
static void run(Rng &r, std::vector<std::unique_ptr<Item>> its, unsigned cuts) {
    std::ostringstream o; std::vector<Cell> v; for (auto &it : its) { Cell c; at("S03.write"); info(it->name() + " " + it->key()); c.from = o.tellp(); it->write(o); c.to = o.tellp(); c.sep = it->sep() == ALG ? 1 + r.below(2) : it->sep() == NUM ? 3 : 0; sepw(o, c.sep); c.end = o.tellp(); c.it = std::move(it); v.push_back(std::move(c)); }
    const std::string buf = o.str(); std::vector<size_t> at; std::set<size_t> s;
    for (auto &c : v) { s.insert(c.from); s.insert(c.from + 1); s.insert(c.to - 1); if (c.to < buf.size()) s.insert(c.to); if (c.to - c.from > 2) for (unsigned k = 0; k < cuts; ++k) s.insert(c.from + r.below(c.to - c.from)); }
    s.erase(buf.size());
    for (size_t c : s) { cut_read(v, buf, c, 0); int f = 1 + r.below(4); cut_read(v, buf, c, f); if (r.chance(1, 4)) cut_write(v, buf, c, r.chance(1, 2), r.chance(1, 2)); }
    cut_read(v, buf, buf.size(), r.below(2)); cut_read(v, buf, buf.size(), 1); // nothing missing, delivered in pieces
}
int main(int argc, char **argv) {
    mon::init(argc, argv); init_all(); cust::init(); Rng &r = rng(); const bool small = mon::M().arg.compare(0, 5, "small") == 0; // under valgrind: a third of the types per process
    const size_t part = small ? std::stoul(mon::M().arg.substr(5)) : 0; size_t idx = 0; few_points() = small;
#define A1(T) add<T>();
#define AV(T) add<std::vector<T>>();
    SER_GROUPS(A1) SER_PRECOMP(A1) SER_GROUPS(AV)
    SER_FIELDS(A1) SER_CUST(A1) SER_GFS(A1) SER_BIG(A1) SER_MAPS(A1) SER_NEST(A1) SER_INTV(A1) A1(bool) A1(std::vector<bool>) A1(size_t) A1(long) A1(int)
    SER_FIELDS(AV) SER_CUST(AV) SER_GFS(AV) SER_BIG(AV) AV(alt_bn128_ate_ell_coeffs) AV(mnt4_ate_G1_precomp) AV(bls12_381_ate_G2_precomp) AV(edwards_ate_G1_precomp)
    for (uint64_t round = 0; round < std::max<uint64_t>(1, mon::M().scale); ++round)
    for (auto &k : kinds) {
        if (small && idx++ % 3 != part) continue;
        std::vector<std::unique_ptr<Item>> a; a.push_back(k.make(r)); run(r, std::move(a), small ? 1 : 12);
        if (small) continue;
        std::vector<std::unique_ptr<Item>> b; b.push_back(kinds[r.below(kinds.size())].make(r)); b.push_back(k.make(r)); b.push_back(kinds[r.below(kinds.size())].make(r)); run(r, std::move(b), small ? 0 : 4);
    }
    mon::M().notes["types"] = std::to_string(kinds.size()); mon::M().notes["configuration"] = std::string(BIN ? "binary" : "text") + (MONT ? ",internal" : ",plain") + (COMPR ? ",compressed" : ",uncompressed");
    return mon::finish();
}
