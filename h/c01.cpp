// C01: concurrent operations on initialised parameters and shared values. Threads start the same operation
// at the same moment, then random mixes; every result must be the one a fresh single-threaded process gets.
#define MON_MAIN
#include "ops.hpp"
#include "tsanwrap.hpp"
#include "gmpalloc.hpp"
#include <thread>
#include <atomic>
#include <sched.h>
#include <sys/wait.h>
#include <libff/common/profiling.hpp>
using namespace lb; using namespace mon;
static const auto rx = std::memory_order_relaxed;
#ifdef MON_SANITIZER
static const bool MS = true; static const unsigned KI = 2;   // inputs per operation: under ThreadSanitizer the schedules matter, and rendering results is slow
#else
static const bool MS = false; static const unsigned KI = Ops::K;
#endif
struct Done { unsigned op, in; Res r; };
static std::atomic<unsigned> g_arrive[4096]; static std::atomic<unsigned> g_cur[64]; static std::atomic<uint64_t> g_over{0}, g_runs{0};
struct Worker { std::vector<Done> done; std::set<std::pair<unsigned, unsigned>> pairs; std::vector<std::string> errors; };
static void run_one(Worker &w, unsigned t, unsigned T, unsigned op, unsigned in, Rng &r) {
    Op &o = ops().v[op]; mon::tl_label() = o.name.c_str(); g_cur[t].store(op + 1, rx);
    for (unsigned u = 0; u < T; ++u) if (u != t) { unsigned c = g_cur[u].load(rx); if (c) { w.pairs.insert({std::min(op, c - 1), std::max(op, c - 1)}); } }
    if (r.chance(1, 4)) sched_yield();
    try { w.done.push_back({op, in, o.f(in)}); } catch (const std::exception &e) { w.errors.push_back(o.name + ": exception " + e.what()); } catch (...) { w.errors.push_back(o.name + ": exception"); }
    g_cur[t].store(0, rx); g_runs.fetch_add(1, rx);
}
// relaxed, so that it orders nothing
static void meet(unsigned step, unsigned T) { auto &a = g_arrive[step % 4096]; a.fetch_add(1, rx); for (unsigned k = 0; a.load(rx) < T; ++k) if (k > 200) sched_yield(); }
typedef std::function<void(unsigned, unsigned, Worker &, Rng &)> Body;
static std::map<std::pair<unsigned, unsigned>, std::string> want_;
static std::set<std::pair<unsigned, unsigned>> all_pairs;
static void phase(const std::string &name, unsigned T, uint64_t seed, const Body &b) {
    at("phase " + name); for (auto &a : g_arrive) a.store(0, rx); std::vector<Worker> ws(T); std::vector<std::thread> th; mon::gmp_threads(true);
    for (unsigned t = 0; t < T; ++t) th.emplace_back([&, t] { mon::entropy().r = Rng(seed * 131 + t); Rng r(seed * 1009 + t); b(t, T, ws[t], r); mon::tl_label() = nullptr; });
    for (auto &x : th) x.join();
    mon::gmp_threads(false);
    std::unordered_set<std::string> seen; // the results are judged after the threads have ended
    for (auto &w : ws) {
        for (auto &e : w.errors) fail("C01." + e.substr(0, e.find(':')), name + " with " + std::to_string(T) + " threads: " + e);
        all_pairs.insert(w.pairs.begin(), w.pairs.end());
        for (auto &d : w.done) { std::string got; try { got = d.r(); } catch (const std::exception &e) { got = std::string("exception ") + e.what(); } auto &n = ops().v[d.op].name; const std::string &ex = want_[{d.op, d.in}]; expect(hs(got) == std::stoull(ex), "C01." + n, d.in * 64 + T, [&] { return name + " with " + std::to_string(T) + " threads, input " + std::to_string(d.in) + ": a thread got " + got.substr(0, 600) + ", a single-threaded process another result"; }); }
    }
}
int main(int argc, char **argv) {
    mon::init(argc, argv); struct itimerval tv; memset(&tv, 0, sizeof tv); setitimer(ITIMER_PROF, &tv, nullptr); if (MS) mon::gmp_fast(); // time is watched by the driver
    const bool prof = M().arg.find("profile") != std::string::npos; const uint64_t seed = M().seed % 7 + 1; // inputs vary less than schedules
    std::string ref = M().out + ".ref"; fflush(stdout);
    init_all(); build_ops(seed, 1);
    const unsigned NC = 6; std::vector<pid_t> pids; // the expectations come from processes that never had a second thread
    for (unsigned c = 0; c < NC; ++c) { pid_t pid = fork(); if (pid < 0) return 2; if (pid) { pids.push_back(pid); continue; }
        M().out.clear(); build_ops(seed, 2); std::ofstream o(ref + std::to_string(c)); for (unsigned k = c; k < ops().v.size(); k += NC) for (unsigned i = 0; i < KI; ++i) { std::string s; try { s = ops().v[k].f(i)(); } catch (const std::exception &e) { s = std::string("exception ") + e.what(); } o << k << ' ' << i << ' ' << hs(s) << '\n'; } o << "end 0 0\n"; o.close(); _exit(0); }
    if (prof) { if (!freopen("/dev/null", "w", stdout)) return 2; }
    at("reference process"); for (unsigned c = 0; c < NC; ++c) { int st = 0; waitpid(pids[c], &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) fail("C01.reference", "the single-threaded reference process died"); std::ifstream in(ref + std::to_string(c)); unsigned k, i; std::string h; while (in >> k >> i >> h) want_[{k, i}] = h; unlink((ref + std::to_string(c)).c_str()); }
    if (prof) { inhibit_profiling_info = false; inhibit_profiling_counters = false; start_profiling(); }
    Rng r(M().seed); unsigned first = 0;
    for (int part = 1; part <= 2; ++part) { // cold: each operation is first used by all threads at once
        if (part == 2) build_ops(seed, 2);
        unsigned end = ops().v.size(), T = 3 + M().seed % 3; std::vector<unsigned> order; for (unsigned k = first; k < end; ++k) if (mon::want(ops().v[k].name)) order.push_back(k); for (size_t k = order.size(); k > 1; --k) std::swap(order[k - 1], order[r.below(k)]);
        phase(part == 1 ? "first use" : "first use of shared precomputation", T, M().seed * 10 + part, [&](unsigned t, unsigned T, Worker &w, Rng &tr) { unsigned step = 0; for (unsigned k : order) { meet(step++, T); run_one(w, t, T, k, (step + (step % 2 ? t : 0)) % KI, tr); } });
        first = end;
    }
    const unsigned N = ops().v.size(); std::vector<unsigned> cheap, all; for (unsigned k = 0; k < N; ++k) if (mon::want(ops().v[k].name)) { all.push_back(k); if (ops().v[k].cost <= 20) cheap.push_back(k); } if (cheap.empty()) cheap = all; // few expensive ones
    if (all.empty()) return mon::finish();
    for (uint64_t s = 0; s < M().scale; ++s) {
        static const unsigned TS[] = {2, 4, 8, 16, 3, 12}; unsigned T = TS[(s + M().seed) % 6];
        phase("random mix", T, M().seed * 1000 + s, [&](unsigned t, unsigned T, Worker &w, Rng &tr) { meet(0, T); for (unsigned k = 0; k < 160 / T + 10; ++k) run_one(w, t, T, tr.chance(1, 6) ? tr.pick(all) : tr.pick(cheap), tr.below(KI), tr); });
        // neighbours: every thread repeats operations of one family (name prefix), so that they meet inside the same code
        const std::string fam = ops().v[r.pick(all)].name; const std::string pre = fam.substr(0, fam.find('.')); std::vector<unsigned> f; for (unsigned k : all) if (ops().v[k].name.compare(0, pre.size(), pre) == 0) f.push_back(k);
        phase("one family", T, M().seed * 1000 + 500 + s, [&](unsigned t, unsigned T, Worker &w, Rng &tr) { meet(0, T); for (unsigned k = 0; k < 80 / T + 6; ++k) run_one(w, t, T, tr.pick(f), tr.below(KI), tr); });
        const unsigned one = r.pick(all); phase("one operation", T, M().seed * 1000 + 700 + s, [&](unsigned t, unsigned T, Worker &w, Rng &tr) { meet(0, T); for (unsigned k = 0; k < (ops().v[one].cost > 20 ? 4 : 12); ++k) run_one(w, t, T, one, tr.below(KI), tr); });
    }
    if (prof) { for (auto &kv : invocation_counts) M().events["profiled block " + kv.first] += kv.second; inhibit_profiling_info = true; }
    M().events["overlapping operation pairs observed"] += all_pairs.size(); M().events["concurrent operation runs"] += g_runs.load(); M().events["operations in the registry"] = N;
    { unsigned k = 0; for (auto &p : all_pairs) if (k++ % (all_pairs.size() / 4 + 1) == 0) mon::sample("overlap of " + ops().v[p.first].name + " and " + ops().v[p.second].name); }
    return mon::finish();
}
