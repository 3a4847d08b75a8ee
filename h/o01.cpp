// O01: what profiling reports against what was done, and profiled results against unprofiled ones.
#define MON_MAIN
#include "ops.hpp"
#include <array>
#include <chrono>
#include <mutex>
#include <thread>
#include <libff/common/profiling.hpp>
using namespace lb; using namespace mon;
#ifdef PROFILE_OP_COUNTS
static const bool COUNTS = true;
#else
static const bool COUNTS = false;
#endif
// ---------------------------------------------------------------- what the library wrote to stdout
struct Capture {
    int saved, fd; std::string file;
    Capture() { file = M().out + ".cap"; fflush(stdout); saved = dup(1); fd = open(file.c_str(), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644); dup2(fd, 1); }
    std::string take() { fflush(stdout); std::string s; off_t n = lseek(fd, 0, SEEK_END); s.resize(n); if (n) { if (pread(fd, &s[0], n, 0) != n) s = "?"; } if (ftruncate(fd, 0)) s += "?"; return s; }
    ~Capture() { fflush(stdout); dup2(saved, 1); close(saved); close(fd); unlink(file.c_str()); }
};
static Capture *cap;
// ---------------------------------------------------------------- operation counters
static const char *PT[12] = {"Fradd", "Frsub", "Frmul", "Frinv", "Fqadd", "Fqsub", "Fqmul", "Fqinv", "G1add", "G1dbl", "G2add", "G2dbl"};
typedef std::array<long long, 12> Cnt;
static Cnt counters() {
#ifdef PROFILE_OP_COUNTS
    typedef alt_bn128_Fr R; typedef alt_bn128_Fq Q; typedef alt_bn128_G1 A; typedef alt_bn128_G2 B;
    return Cnt{R::add_cnt, R::sub_cnt, R::mul_cnt, R::inv_cnt, Q::add_cnt, Q::sub_cnt, Q::mul_cnt, Q::inv_cnt, A::add_cnt, A::dbl_cnt, B::add_cnt, B::dbl_cnt};
#else
    return Cnt{};
#endif
}
static Cnt operator-(const Cnt &a, const Cnt &b) { Cnt r; for (int i = 0; i < 12; ++i) r[i] = a[i] - b[i]; return r; }
static Cnt operator+(const Cnt &a, const Cnt &b) { Cnt r; for (int i = 0; i < 12; ++i) r[i] = a[i] + b[i]; return r; }
static std::string show(const Cnt &c) { std::string s; for (int i = 0; i < 12; ++i) s += std::string(i ? " " : "") + PT[i] + "=" + std::to_string(c[i]); return s; }
// ---------------------------------------------------------------- work of known size on the default curve
static Cnt done_; static bool fq_known = true;            // operations performed so far; Fq totals unknown once a group operation ran (its formula is its own business)
static uint64_t group_work = 0;
static std::vector<alt_bn128_G1> w1; static std::vector<alt_bn128_G2> w2;
template<class F> static void field_work(Rng &r, int base) {
    static std::vector<F> v; if (v.empty()) for (int i = 0; i < 8; ++i) v.push_back(enc<F>(El{Z(hostile_mod(r, FI<F>::p()) / 2 + 1 + i)}));
    F a = r.pick(v), b = r.pick(v); unsigned n = 1 + r.below(4); for (unsigned i = 0; i < n; ++i) switch (r.below(8)) { case 0: a = a + b; ++done_[base]; break; case 1: a += b; ++done_[base]; break; case 2: a = b - a; ++done_[base + 1]; break; case 3: a -= b; ++done_[base + 1]; break; case 4: a = a * b; ++done_[base + 2]; break; case 5: a *= b; ++done_[base + 2]; break; case 6: a = a.squared(); break; default: if (!a.is_zero()) { a = a.inverse(); ++done_[base + 3]; } }
}
template<class G> static void group_work_(Rng &r, std::vector<G> &v, int base) { ++group_work; size_t i = r.below(v.size()), j = r.below(v.size()); if (i == j) j = (j + 1) % v.size(); switch (r.below(4)) { case 0: { G x = v[i] + v[j]; (void)x; ++done_[base]; break; } case 1: { G x = v[i].add(v[j]); (void)x; ++done_[base]; break; } case 2: { G x = v[i] - v[j]; (void)x; ++done_[base]; break; } default: { G x = v[i].dbl(); (void)x; ++done_[base + 1]; } } }
template<class G> static void generic_points(std::vector<G> &v, Rng &r) { auto &pool = gpool<G>(); std::vector<Pt> ps; while (ps.size() < 6) { Pt p = pool.fresh(r).first; bool ok = !pool.C.isO(p); for (auto &q : ps) ok = ok && !(p == q) && !(pool.C.neg(p) == q); if (ok) ps.push_back(p); } for (auto &p : ps) v.push_back(encr<G>(p, r)); }
static void work(Rng &r) { switch (r.below(4)) { case 0: case 1: field_work<alt_bn128_Fr>(r, 0); break; case 2: field_work<alt_bn128_Fq>(r, 4); break; default: if (r.chance(1, 2)) group_work_(r, w1, 8); else group_work_(r, w2, 10); } }
// ---------------------------------------------------------------- expected output: the lines in order
struct Line { char kind; size_t indent; std::string name; Cnt a; Cnt b; uint64_t gw; }; // E enter, L leave, T print_time, X other text (name)
struct Model {
    std::vector<Line> out; size_t indent = 0; std::map<std::string, size_t> inv; std::map<std::string, long long> cum, last; std::map<std::string, Cnt> cumops; std::set<std::string> fresh_times; uint64_t blocks = 0, maxdepth = 0, recursive = 0, silent = 0;
};
static Model md; static std::vector<std::string> names = {"a", "", "inner", "outer", "100% done %s %n %d", std::string(60, 'x'), "two words", "(enter) fake", "Compute answer to the question that was asked a long time ago"};
static std::string history;
static void maps_now(const char *when) {
    expect(invocation_counts == md.inv, "O01.invocations", hs(history), [&] { std::string s; for (auto &x : invocation_counts) s += x.first + "=" + std::to_string(x.second) + " "; s += "| expected "; for (auto &x : md.inv) s += x.first + "=" + std::to_string(x.second) + " "; return std::string(when) + ": " + s + " history " + history; }, !md.inv.empty());
    expect(cumulative_times == md.cum, "O01.cumulative-time-is-sum", hs(history, 3), [&] { std::string s; for (auto &x : cumulative_times) s += x.first + "=" + std::to_string(x.second) + " "; s += "| sum of reported times "; for (auto &x : md.cum) s += x.first + "=" + std::to_string(x.second) + " "; return std::string(when) + ": " + s + " history " + history; }, !md.inv.empty());
}
static void node(Rng &r, std::vector<std::string> &stack, unsigned depth, int &budget);
static void block(Rng &r, std::vector<std::string> &stack, unsigned depth, int &budget) {
    std::string n = (!stack.empty() && r.chance(1, 5)) ? r.pick(stack) : r.pick(names); bool ind = !r.chance(1, 5), counted = !inhibit_profiling_counters, shown = counted && !inhibit_profiling_info; history += "{" + n.substr(0, 8) + (ind ? "" : "-") + " ";
    if (std::find(stack.begin(), stack.end(), n) != stack.end()) ++md.recursive; ++md.blocks; if (!shown) ++md.silent; md.maxdepth = std::max<uint64_t>(md.maxdepth, depth + 1);
    if (shown) { md.out.push_back({'E', md.indent, n, {}, {}, 0}); if (ind) ++md.indent; }
    auto s0 = std::chrono::steady_clock::now(); long long t0 = get_nsec_time(); if (ind && r.chance(1, 2)) enter_block(n); else enter_block(n, ind); long long t1 = get_nsec_time(); Cnt c0 = counters(), d0 = done_; uint64_t g0 = group_work;
    stack.push_back(n); unsigned k = r.below(4); for (unsigned i = 0; i < k && budget > 0; ++i) node(r, stack, depth + 1, budget); stack.pop_back();
    Cnt c1 = counters(), d1 = done_; uint64_t gw = group_work - g0;
    long long t2 = get_nsec_time(); if (ind && r.chance(1, 2)) leave_block(n); else leave_block(n, ind); long long t3 = get_nsec_time(); bool steady = std::llabs(t3 - t0 - (long long)std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now() - s0).count()) < 50000000; /* else the wall clock was set meanwhile */ history += "} ";
    if (shown) { if (ind) --md.indent; md.out.push_back({'L', md.indent, n, c1 - c0, d1 - d0, gw}); }
    if (counted) {
        ++md.inv[n]; auto &co = md.cumops[n]; co = co + (c1 - c0); auto it = last_times.find(n); bool have = it != last_times.end(); long long t = have ? it->second : -1; md.cum[n] += t;
        if (steady) expect(have && t >= t2 - t1 && t <= t3 - t0, "O01.block-time", hs(history, 5), [&] { return "block '" + n + "' reported " + std::to_string(t) + " ns, measured between " + std::to_string(t2 - t1) + " and " + std::to_string(t3 - t0) + " in " + history; });
    }
    maps_now("after a leave");
}
static void node(Rng &r, std::vector<std::string> &stack, unsigned depth, int &budget) {
    --budget; unsigned k = r.below(20);
    if (k < 8) { if (depth < 12) block(r, stack, depth, budget); }
    else if (k < 13) { history += "w "; work(r); }
    else if (k < 14) { if (!inhibit_profiling_counters) { std::string n = r.chance(1, 2) ? "checkpoint %d" : r.pick(names); history += "time "; print_time(n.c_str()); if (!inhibit_profiling_info) md.out.push_back({'T', md.indent, n, {}, {}, 0}); } }
    else if (k < 17) { bool &flag = k == 14 ? inhibit_profiling_counters : inhibit_profiling_info; bool old = flag, nv = r.chance(2, 3); history += std::string(k == 14 ? "counters" : "info") + (nv ? "-off[ " : "-on[ "); flag = nv; unsigned m = 1 + r.below(3); for (unsigned i = 0; i < m && budget > 0; ++i) node(r, stack, depth, budget); flag = old; history += "] "; }
    else if (k < 18) { history += "clear "; clear_profiling_counters(); md.inv.clear(); md.cum.clear(); md.cumops.clear(); maps_now("after clear_profiling_counters"); }
    else if (k < 19) { history += "start "; start_profiling(); md.out.push_back({'X', 0, "Reset time counters for profiling", {}, {}, 0}); }
    else { history += "header "; print_header("title"); md.out.push_back({'X', 0, "", {}, {}, 0}); md.out.push_back({'X', 0, std::string(80, '='), {}, {}, 0}); md.out.push_back({'X', 0, "title", {}, {}, 0}); md.out.push_back({'X', 0, std::string(80, '='), {}, {}, 0}); md.out.push_back({'X', 0, "", {}, {}, 0}); }
}
static bool counts_in(const std::string &l, Cnt &c) { size_t p = l.find("(opcounts) = ("); if (p == std::string::npos) return false; p += 14; for (int i = 0; i < 12; ++i) { std::string want = std::string(i ? ", " : "") + PT[i] + "="; if (l.compare(p, want.size(), want)) return false; p += want.size(); char *e; c[i] = strtoll(l.c_str() + p, &e, 10); if (e == l.c_str() + p) return false; p = e - l.c_str(); } return l.compare(p, std::string::npos, ")") == 0; }
static std::string pad35(const std::string &n) { std::string s = n; if (s.size() < 35) s.resize(35, ' '); return s; }
static std::vector<std::string> lines_of(const std::string &t) { std::vector<std::string> v; size_t p = 0; while (p < t.size()) { size_t q = t.find('\n', p); if (q == std::string::npos) q = t.size(); v.push_back(t.substr(p, q - p)); p = q + 1; } return v; }
static void check_output(const std::string &text) {
    std::vector<std::string> L = lines_of(text); size_t i = 0; auto get = [&]() -> std::string { return i < L.size() ? L[i++] : std::string("<end of output>"); };
    for (auto &e : md.out) {
        std::string ind(2 * e.indent, ' ');
        if (e.kind == 'X') { std::string g = get(); expect(g == e.name, "O01.text", hs(e.name), [&] { return "got '" + g + "' expected '" + e.name + "' in " + history; }); continue; }
        std::string head = e.kind == 'T' ? pad35(e.name) + "\t[" : ind + (e.kind == 'E' ? "(enter) " : "(leave) ") + pad35(e.name) + "\t[", g = get();
        if (!expect(g.compare(0, head.size(), head) == 0, e.kind == 'T' ? "O01.time-line" : e.kind == 'E' ? "O01.enter-line" : "O01.leave-line", hs(head) + hs(history), [&] { return "got '" + g + "' expected it to start with '" + head + "' in " + history; })) return;
        if (COUNTS && e.kind != 'E') {
            std::string o = get(); Cnt c; bool ok = counts_in(o, c); if (!expect(ok && (o.find('(') == 2 * e.indent), "O01.opcounts-line", hs(o), [&] { return "got '" + o + "' after '" + g + "' in " + history; })) return;
            if (e.kind == 'L') {
                expect(c == e.a, "O01.opcounts-reported", hs(history) + i, [&] { return "block '" + e.name + "' reported " + show(c) + ", its counters moved by " + show(e.a) + " in " + history; }, c != Cnt{});
                bool ok2 = true; for (int k = 0; k < 12; ++k) if (k < 4 || k >= 8 || !e.gw) ok2 = ok2 && c[k] == e.b[k];
                expect(ok2, "O01.opcounts-performed", hs(history) + i, [&] { return "block '" + e.name + "' reported " + show(c) + ", performed " + show(e.b) + (e.gw ? " (Fq not compared)" : "") + " in " + history; }, e.b != Cnt{});
            }
        }
    }
    expect(i == L.size(), "O01.no-other-output", hs(history), [&] { return "unexpected output '" + L[i] + "' in " + history; });
}
static void dumps() { // the summaries
    cap->take(); long long factor = 1 + rng().below(5); print_cumulative_times(factor); std::vector<std::string> L = lines_of(cap->take()); std::vector<std::string> want{"Dumping times:"}; for (auto &x : md.cum) { char b[4096]; double tot = x.second * 1e-6; size_t cnt = md.inv[x.first]; double avg = tot / cnt; snprintf(b, sizeof b, "   %-45s: %12.5fms = %lld * %0.5fms (%zu invocations, %0.5fms = %lld * %0.5fms per invocation)", x.first.c_str(), tot, factor, tot / factor, cnt, avg, factor, avg / factor); want.push_back(b); }
    expect(L == want, "O01.cumulative-times-dump", hs(history), [&] { for (size_t i = 0; i < std::max(L.size(), want.size()); ++i) if (i >= L.size() || i >= want.size() || L[i] != want[i]) return "got '" + (i < L.size() ? L[i] : "<end>") + "' expected '" + (i < want.size() ? want[i] : "<end>") + "' in " + history; return std::string(); }, !md.cum.empty());
    for (bool fq : {false, true}) {
        print_cumulative_op_counts(fq); L = lines_of(cap->take()); want.clear(); if (COUNTS) { want.push_back("Dumping operation counts:"); for (auto &x : md.inv) { char b[4096]; snprintf(b, sizeof b, "  %-45s: ", x.first.c_str()); std::string s = b; bool first = true; for (int k = 0; k < 12; ++k) { if (fq && strncmp(PT[k], "Fq", 2)) continue; snprintf(b, sizeof b, "%s%-5s = %7.0f (%3zu)", first ? "" : ", ", PT[k], 1. * md.cumops[x.first][k] / x.second, x.second); s += b; first = false; } want.push_back(s); } }
        expect(L == want, "O01.cumulative-opcounts-dump", hs(history) + fq, [&] { for (size_t i = 0; i < std::max(L.size(), want.size()); ++i) if (i >= L.size() || i >= want.size() || L[i] != want[i]) return "got '" + (i < L.size() ? L[i] : "<end>") + "' expected '" + (i < want.size() ? want[i] : "<end>") + "' in " + history; return std::string(); }, COUNTS && !md.inv.empty());
    }
}
// ---------------------------------------------------------------- one operation moves its own counter by one, and no other of its type
#ifdef PROFILE_OP_COUNTS
template<class T> static std::array<long long, 5> fc() { return {T::add_cnt, T::sub_cnt, T::mul_cnt, T::sqr_cnt, T::inv_cnt}; }
template<class T, class Fn> static void one(const char *what, int which, const T &a, const T &b, Fn fn) {
    auto x = fc<T>(); volatile bool keep; { T r = fn(a, b); keep = r.is_zero(); (void)keep; } auto y = fc<T>(); bool ok = true; std::string s; static const char *n[] = {"add", "sub", "mul", "sqr", "inv"}; for (int i = 0; i < 5; ++i) { long long d = y[i] - x[i]; ok = ok && d == (i == which); s += std::string(n[i]) + "+" + std::to_string(d) + " "; }
    expect(ok, std::string("O01.count-") + what + ":" + V<T>::name(), hs(V<T>::key(a) + V<T>::key(b)), [&] { return std::string(what) + " counted as " + s + "for a=" + V<T>::key(a) + " b=" + V<T>::key(b); }, !a.is_zero());
}
template<class T> static void field_counts(Rng &r) {
    for (int k = 0; k < 6; ++k) {
        at("count:" + V<T>::name());
        T a = V<T>::gen(r), b = r.chance(1, 6) ? a : V<T>::gen(r); info(V<T>::key(a));
        one<T>("add", 0, a, b, [](const T &x, const T &y) { return x + y; }); one<T>("add-assign", 0, a, b, [](T x, const T &y) { x += y; return x; }); one<T>("sub", 1, a, b, [](const T &x, const T &y) { return x - y; }); one<T>("sub-assign", 1, a, b, [](T x, const T &y) { x -= y; return x; });
        one<T>("mul", 2, a, b, [](const T &x, const T &y) { return x * y; }); one<T>("mul-assign", 2, a, b, [](T x, const T &y) { x *= y; return x; }); one<T>("squared", 3, a, b, [](const T &x, const T &) { return x.squared(); }); one<T>("square", 3, a, b, [](T x, const T &) { x.square(); return x; });
        if (!a.is_zero()) { one<T>("inverse", 4, a, b, [](const T &x, const T &) { return x.inverse(); }); one<T>("invert", 4, a, b, [](T x, const T &) { x.invert(); return x; }); }
    }
}
template<class G, class Fn> static void gone(const char *what, long long add, long long dbl, const G &a, const G &b, Fn fn) { long long x = G::add_cnt, y = G::dbl_cnt; volatile bool keep; { G s = fn(a, b); keep = s.is_zero(); (void)keep; } x = G::add_cnt - x; y = G::dbl_cnt - y; bool ok = add >= 0 ? x == add && y == dbl : x + y == 1; expect(ok, std::string("O01.count-") + what + ":" + CI<G>::name(), hs(V<G>::key(a) + V<G>::key(b)), [&] { return std::string(what) + " counted as add+" + std::to_string(x) + " dbl+" + std::to_string(y) + " for " + V<G>::key(a) + " and " + V<G>::key(b); }); }
template<class G> static void group_counts(Rng &r) {
    at("O01.inputs"); auto &pool = gpool<G>(); at(std::string("count:") + CI<G>::name()); for (int k = 0; k < 3; ++k) {
        Pt p = r.pick(pool.sub).first, q = pool.fresh(r).first; if (pool.C.isO(p) || pool.C.isO(q) || p == q || pool.C.neg(p) == q) continue; G a = encr<G>(p, r), b = encr<G>(q, r), s = encs<G>(q), a2 = encr<G>(p, r); info(V<G>::key(a));
        gone<G>("add", 1, 0, a, b, [](const G &x, const G &y) { return x + y; }); gone<G>("add-method", 1, 0, a, b, [](const G &x, const G &y) { return x.add(y); }); gone<G>("sub", 1, 0, a, b, [](const G &x, const G &y) { return x - y; }); gone<G>("mixed-add", 1, 0, a, s, [](const G &x, const G &y) { return x.mixed_add(y); }); gone<G>("dbl", 0, 1, a, b, [](const G &x, const G &) { return x.dbl(); }); gone<G>("add-equal", -1, 0, a, a2, [](const G &x, const G &y) { return x + y; });
    }
}
static void all_counts(Rng &r) {
    field_counts<alt_bn128_Fr>(r); field_counts<alt_bn128_Fq>(r); field_counts<alt_bn128_Fq2>(r); field_counts<alt_bn128_Fq6>(r); field_counts<alt_bn128_Fq12>(r); field_counts<bls12_381_Fr>(r); field_counts<bls12_381_Fq>(r); field_counts<bls12_381_Fq2>(r); field_counts<bls12_381_Fq6>(r); field_counts<bls12_381_Fq12>(r);
    field_counts<edwards_Fr>(r); field_counts<edwards_Fq>(r); field_counts<edwards_Fq3>(r); field_counts<edwards_Fq6>(r); field_counts<mnt4_Fr>(r); field_counts<mnt4_Fq>(r); field_counts<mnt4_Fq2>(r); field_counts<mnt4_Fq4>(r); field_counts<mnt6_Fq3>(r); field_counts<mnt6_Fq6>(r); field_counts<gf32>(r); field_counts<gf64>(r); field_counts<gf128>(r); field_counts<gf192>(r); field_counts<gf256>(r);
    group_counts<alt_bn128_G1>(r); group_counts<alt_bn128_G2>(r); group_counts<bls12_381_G1>(r); group_counts<bls12_381_G2>(r); group_counts<edwards_G1>(r); group_counts<edwards_G2>(r); group_counts<mnt4_G1>(r); group_counts<mnt4_G2>(r); group_counts<mnt6_G1>(r); group_counts<mnt6_G2>(r);
}
#else
static void all_counts(Rng &) {}
#endif
// ---------------------------------------------------------------- every operation, under every profiling state
static bool balanced(const std::string &text, std::map<std::string, size_t> &leaves, std::string &why) {
    std::vector<std::string> st; for (auto &l : lines_of(text)) { size_t sp = l.find_first_not_of(' '); if (sp == std::string::npos) continue; bool e = l.compare(sp, 8, "(enter) ") == 0, v = l.compare(sp, 8, "(leave) ") == 0; if (!e && !v) continue; size_t tab = l.find("\t[", sp); std::string n = l.substr(sp + 8, tab == std::string::npos ? std::string::npos : tab - sp - 8); while (!n.empty() && n.back() == ' ') n.pop_back(); if (v) { if (st.empty() || st.back() != n) { why = "leave of '" + n + "' does not match"; return false; } st.pop_back(); ++leaves[n]; } if (sp != 2 * st.size()) { why = "indentation of '" + l + "'"; return false; } if (e) st.push_back(n); }
    if (!st.empty()) why = "'" + st.back() + "' is not left"; return st.empty();
}
static void op_under_states(unsigned k, unsigned i) {
    auto &o = ops().v[k]; at("O01.op:" + o.name); std::string first; uint64_t seed = k * 31 + i; unsigned blocks = 0;
    for (unsigned s = 0; s < 4; ++s) {
        inhibit_profiling_info = s & 1; inhibit_profiling_counters = s & 2; clear_profiling_counters(); mon::entropy().r = Rng(seed); cap->take(); std::string got; try { Res res = o.f(i); bool a = inhibit_profiling_info, b = inhibit_profiling_counters; quiet(); got = res(); inhibit_profiling_info = a; inhibit_profiling_counters = b; } catch (const std::exception &e) { got = std::string("exception ") + e.what(); } std::string text = cap->take(); auto inv = invocation_counts;
        if (!s) first = got; else expect(got == first, "O01.same-result:" + o.name, seed * 4 + s, [&] { return "input " + std::to_string(i) + " with profiling state " + std::to_string(s) + ": " + got.substr(0, 400) + " / with profiling on: " + first.substr(0, 400); });
        if (s) expect(s & 1 ? text.empty() : text.find("(enter)") == std::string::npos && text.find("(leave)") == std::string::npos, "O01.inhibited-prints-nothing:" + o.name, seed * 4 + s, [&] { return "profiling state " + std::to_string(s) + " printed " + text.substr(0, 200); });
        else { std::map<std::string, size_t> lv; std::string why; bool ok = balanced(text, lv, why); expect(ok, "O01.blocks-balance:" + o.name, seed, [&] { return why + " in: " + text.substr(0, 600); }, !text.empty()); for (auto &x : lv) blocks += x.second; if (ok) expect(lv == inv, "O01.invocations-of:" + o.name, seed, [&] { std::string t; for (auto &x : inv) t += x.first + "=" + std::to_string(x.second) + " "; return "invocation counts " + t + " for " + text.substr(0, 400); }, !inv.empty());
            long long t0 = 0; (void)t0; enter_block("probe"); leave_block("probe"); std::string p = cap->take(); expect(p.compare(0, 8, "(enter) ") == 0, "O01.indentation-returns:" + o.name, seed, [&] { return "after the operation a block prints as " + p.substr(0, 60); }); }
        if (s & 2) expect(inv.empty(), "O01.inhibited-counts-nothing:" + o.name, seed * 4 + s, [&] { return inv.begin()->first + " counted"; });
    }
    quiet(); M().events["blocks entered by library operations"] += blocks;
}
// ---------------------------------------------------------------- several threads in blocks
static void threads_history(uint64_t seed) {
    const unsigned T = 2 + seed % 5; at("O01.threads"); inhibit_profiling_info = false; inhibit_profiling_counters = false; clear_profiling_counters(); cap->take(); std::vector<std::vector<std::pair<size_t, std::string>>> want(T); std::map<std::string, size_t> inv; std::mutex mu; std::vector<std::thread> th;
    for (unsigned t = 0; t < T; ++t) th.emplace_back([&, t] { Rng r(seed * 57 + t); std::map<std::string, size_t> mine; std::string me = "thread " + std::to_string(t) + " "; std::vector<std::pair<size_t, std::string>> &w = want[t];
        std::function<void(unsigned)> go = [&](unsigned d) { unsigned n = 1 + r.below(3); for (unsigned i = 0; i < n; ++i) { bool shared = r.chance(1, 4); std::string nm = me + std::to_string(shared ? 0 : r.below(4)); w.push_back({d, "(enter) " + nm}); enter_block(nm); if (d < 4) go(d + 1); if (r.chance(1, 3)) sched_yield(); leave_block(nm); w.push_back({d, "(leave) " + nm}); ++mine[nm]; ++mine["common"]; enter_block("common", false); leave_block("common", false); } };
        go(0); std::lock_guard<std::mutex> g(mu); for (auto &x : mine) inv[x.first] += x.second; });
    for (auto &x : th) x.join();
    std::string text = cap->take(); std::vector<size_t> pos(T); bool ok = true; std::string why; size_t nl = 0;
    for (auto &l : lines_of(text)) { size_t sp = l.find_first_not_of(' '); if (sp == std::string::npos || l.compare(sp, 11, "(opcounts) ") == 0) continue; ++nl; if (l.compare(sp + 8, 7, "thread ")) { if (l.compare(sp + 8, 6, "common") && ok) { ok = false; why = "line '" + l + "'"; } continue; } unsigned t = l[sp + 15] - '0'; if (t >= T) { ok = false; why = l; break; } std::string e = pos[t] < want[t].size() ? std::string(2 * want[t][pos[t]].first, ' ') + pad35("").substr(0, 0) + want[t][pos[t]].second : "<nothing>"; if (l.compare(0, e.size(), e) || (l.size() > e.size() && l[e.size()] != ' ' && l[e.size()] != '\t')) { ok = false; why = "thread " + std::to_string(t) + " printed '" + l + "' expected '" + e + "'"; break; } ++pos[t]; }
    for (unsigned t = 0; t < T && ok; ++t) if (pos[t] != want[t].size()) { ok = false; why = "thread " + std::to_string(t) + ": " + std::to_string(pos[t]) + " of " + std::to_string(want[t].size()) + " lines"; }
    expect(ok, "O01.threads-lines", seed, [&] { return why; }); expect(invocation_counts == inv, "O01.threads-invocations", seed, [&] { std::string s; for (auto &x : inv) s += x.first + ": " + std::to_string(invocation_counts[x.first]) + " of " + std::to_string(x.second) + "; "; return s; }); M().events["lines printed by concurrent threads"] += nl; quiet();
}
int main(int argc, char **argv) {
    mon::init(argc, argv); init_all(); Capture c; cap = &c; Rng r0(M().seed * 17 + 1); generic_points(w1, r0); generic_points(w2, r0);
    const uint64_t N = M().scale; std::set<uint64_t> seen;
    for (uint64_t h = 0; h < 400 * N; ++h) {
        at("O01.history"); Rng r(M().seed * 90001 + h); history.clear(); md = Model(); inhibit_profiling_info = r.chance(1, 12); inhibit_profiling_counters = r.chance(1, 12); clear_profiling_counters(); cap->take(); int budget = 4 + r.below(h % 10 == 0 ? 200 : 40); std::vector<std::string> st; maps_now("at the start"); while (budget > 0) node(r, st, 0, budget); info(history.substr(0, 1300)); std::string text = cap->take(); check_output(text); if (h % 2) dumps(); else cap->take();
        seen.insert(hs(history)); M().events["blocks in random histories"] += md.blocks; M().events["recursive blocks"] += md.recursive; M().events["silenced blocks"] += md.silent; auto &mx = M().events["deepest nesting"]; mx = std::max<uint64_t>(mx, md.maxdepth); if (h % 97 == 0) mon::sample(history);
    }
    quiet(); M().events["distinct block histories"] += seen.size();
    for (uint64_t h = 0; h < 6 * N; ++h) threads_history(M().seed * 31 + h);
    Rng rc(M().seed * 5 + 2); for (uint64_t h = 0; h < 4 * N; ++h) all_counts(rc);
#ifndef MON_SANITIZER // every operation under sanitizers: Z01
    for (int g = 0; g < G_ALL; ++g) { at("O01.inputs"); build_group(g, M().seed % 5 + 1); } Rng ro(M().seed * 3 + 9); for (unsigned k = 0; k < ops().v.size(); ++k) { unsigned reps = ops().v[k].cost >= 60 ? 1 : 2; for (unsigned j = 0; j < reps; ++j) op_under_states(k, ro.below(Ops::K)); }
#endif
    return mon::finish();
}
