// The OpenMP runtime (the interface clang compiles to), replaced: every parallel region runs on fresh pthreads, so that ThreadSanitizer sees
// exactly the synchronisation OpenMP promises (fork, join, barrier, critical) and nothing else, and so
// that the monitor chooses the team size, starts threads late, and hands out dynamic chunks in any order.
#pragma once
#ifdef OMP_SHIM
#include "mon.hpp"
#include "gmpalloc.hpp"
#include <pthread.h>
#include <sched.h>
#include <cstdarg>
#include <atomic>
#include <mutex>
#include <deque>
#include <memory>
namespace shim {
struct Loop { unsigned long long first, trips, next, chunk; long long incr; bool guided; std::mutex m; };
struct Team { unsigned n; std::mutex m; pthread_barrier_t bar; std::deque<std::unique_ptr<Loop>> loops; unsigned singles = 0; std::mutex red; std::vector<unsigned> order; Team *outer; };
inline unsigned &want_threads() { static unsigned n = 4; return n; }
inline unsigned &delay() { static unsigned d = 0; return d; }       // microseconds, upper bound
struct Me { Team *t = nullptr; unsigned id = 0, loop = 0, single = 0; int gtid = 0; Loop *cur = nullptr; unsigned level = 0, push = 0; mon::Rng r{1}; };
inline Me &me() { static thread_local Me m; return m; }
inline std::mutex &critical() { static std::mutex m; return m; }
inline std::mutex &atomic_() { static std::mutex m; return m; }
struct Stats { std::atomic<uint64_t> regions{0}, threads{0}, overlap{0}, loops{0}, barriers{0}, criticals{0}; std::mutex m; std::set<std::string> orders; std::map<unsigned, uint64_t> sizes; };
inline Stats &stats() { static Stats s; return s; }
inline uint64_t &region_seed() { static uint64_t s = 1; return s; }
inline void nap(mon::Rng &r) { if (r.chance(1, 3)) sched_yield(); if (delay() && r.chance(1, 3)) usleep(r.below(delay())); }
struct Arg { Team *t; unsigned id; const std::function<void(int)> *fn; unsigned level; uint64_t seed; const char *label; };
inline std::atomic<int> &gtids() { static std::atomic<int> g{0}; return g; }
inline void body(const Arg &a) {
    Me &m = me(); Me saved = m; m = Me(); m.t = a.t; m.id = a.id; m.level = a.level; m.r = mon::Rng(a.seed); nap(m.r); m.gtid = ++gtids(); (*a.fn)(m.gtid);
    { std::lock_guard<std::mutex> g(a.t->m); a.t->order.push_back(a.id); } m = saved;
}
inline void *entry(void *p) { Arg &a = *(Arg *)p; mon::tl_label() = a.label; mon::entropy().r = mon::Rng(a.seed); body(a); return nullptr; }
inline void parallel(const std::function<void(int)> &fn, unsigned n) {
    static std::atomic<uint64_t> calls{0}; me().push = 0; if (!n) n = me().level ? 1 : want_threads(); Team t; t.n = n; pthread_barrier_init(&t.bar, nullptr, n); uint64_t s = region_seed() * 7919 + calls++; std::vector<Arg> as(n); std::vector<pthread_t> th(n);
    for (unsigned i = 0; i < n; ++i) as[i] = Arg{&t, i, &fn, me().level + 1, s * 64 + i, mon::M().label};
    static std::atomic<int> active{0}; if (!active++) mon::gmp_threads(true); for (unsigned i = 1; i < n; ++i) if (pthread_create(&th[i], nullptr, entry, &as[i])) abort();
    body(as[0]); for (unsigned i = 1; i < n; ++i) pthread_join(th[i], nullptr); pthread_barrier_destroy(&t.bar); if (!--active) mon::gmp_threads(false);
    Stats &st = stats(); ++st.regions; st.threads += n; std::lock_guard<std::mutex> g(st.m); ++st.sizes[n]; std::string o; for (unsigned x : t.order) o += char('a' + x); st.orders.insert(o);
}
// a work-sharing construct met by every thread of the team: the first to arrive creates it
inline Loop *mk(unsigned long long b, unsigned long long trips, long long incr, unsigned long long chunk, bool guided) { Loop *l = new Loop; l->first = b; l->trips = trips; l->next = 0; l->incr = incr; l->chunk = chunk ? chunk : 1; l->guided = guided; return l; }
inline void ws(unsigned long long b, unsigned long long trips, long long incr, unsigned long long chunk, bool guided) {
    Me &m = me(); ++stats().loops; if (!m.t) { static thread_local std::unique_ptr<Loop> solo; solo.reset(mk(b, trips, incr, chunk, guided)); m.cur = solo.get(); return; }
    std::lock_guard<std::mutex> g(m.t->m); if (m.loop >= m.t->loops.size()) m.t->loops.emplace_back(mk(b, trips, incr, chunk, guided)); m.cur = m.t->loops[m.loop++].get();
}
inline bool next(unsigned long long &lo, unsigned long long &hi, int *last) {
    nap(me().r); Loop *l = me().cur; std::lock_guard<std::mutex> g(l->m); unsigned long long left = l->trips - l->next; if (!left) return false; unsigned long long c = l->guided ? std::max<unsigned long long>(l->chunk, left / (me().t ? 2 * me().t->n : 1)) : l->chunk; if (c > left) c = left;
    lo = l->first + l->next * l->incr; hi = lo + (c - 1) * l->incr; l->next += c; if (last) *last = l->next == l->trips; return true;
}
template<class T, class U, class D> void static_init(int sched, int *last, T *lb, T *ub, D *stride, D incr, D chunk) {
    ++stats().loops; nap(me().r); unsigned n = me().t ? me().t->n : 1, id = me().t ? me().id : 0; T l = *lb, u = *ub; *last = 0; if (incr > 0 ? l > u : l < u) { *stride = incr > 0 ? (D)(u - l + 1) : (D)(l - u + 1); return; }
    U trips = incr > 0 ? (U)(u - l) / (U)incr + 1 : (U)(l - u) / (U)(-incr) + 1;
    if (sched == 33) { D span = (chunk < 1 ? 1 : chunk) * incr; *stride = span * n; *lb = l + span * id; *ub = *lb + span - incr; *last = id == ((trips - 1) / (U)(chunk < 1 ? 1 : chunk)) % n; return; }
    U small = trips / n, ex = trips % n; if (!small && id >= ex) { *lb = u + incr; *ub = u; *stride = (D)trips; return; }
    *lb = l + incr * (T)(id * small + std::min<U>(id, ex)); *ub = *lb + (T)(small * incr) - (id < ex ? 0 : incr); *stride = (D)trips; *last = small ? id == n - 1 : id == ex - 1;
}
template<class T, class U, class D> void disp_init(int sched, T lb, T ub, D st, D chunk) { sched &= 0xffff; U trips = (st > 0 ? lb > ub : lb < ub) ? 0 : st > 0 ? (U)(ub - lb) / (U)st + 1 : (U)(lb - ub) / (U)(-st) + 1; ws((unsigned long long)lb, trips, st, chunk > 0 ? chunk : 1, sched == 36); }
template<class T, class D> int disp_next(int *last, T *lb, T *ub, D *st) { unsigned long long a, b; if (!shim::next(a, b, last)) return 0; *lb = (T)a; *ub = (T)b; *st = (D)me().cur->incr; return 1; }
}
extern "C" {
using namespace shim;
struct ident_t_;
int __kmpc_global_thread_num(ident_t_ *) { return me().gtid; }
void __kmpc_push_num_threads(ident_t_ *, int, int n) { me().push = n > 0 ? n : 0; } void __kmpc_push_proc_bind(ident_t_ *, int, int) {}
void __kmpc_fork_call(ident_t_ *, int argc, void (*fn)(int *, int *, ...), ...) {
    va_list ap; va_start(ap, fn); std::vector<void *> a(16, nullptr); if (argc > 15) abort(); for (int i = 0; i < argc; ++i) a[i] = va_arg(ap, void *); va_end(ap); typedef void *v; typedef void (*F)(int *, int *, v, v, v, v, v, v, v, v, v, v, v, v, v, v, v);
    shim::parallel([&](int g) { int gt = g, bt = 0; ((F)(void *)fn)(&gt, &bt, a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14]); }, me().push);
}
void __kmpc_serialized_parallel(ident_t_ *, int) {} void __kmpc_end_serialized_parallel(ident_t_ *, int) {} int __kmpc_ok_to_fork(ident_t_ *) { return 1; }
void __kmpc_barrier(ident_t_ *, int) { ++stats().barriers; if (me().t) { nap(me().r); pthread_barrier_wait(&me().t->bar); } } int __kmpc_cancel_barrier(ident_t_ *l, int g) { __kmpc_barrier(l, g); return 0; } void __kmpc_flush(ident_t_ *) {}
static std::mutex *named(void *p) { static std::mutex g; static std::map<void *, std::unique_ptr<std::mutex>> m; std::lock_guard<std::mutex> l(g); auto &x = m[p]; if (!x) x.reset(new std::mutex); return x.get(); }
void __kmpc_critical(ident_t_ *, int, void *p) { ++stats().criticals; nap(me().r); named(p)->lock(); } void __kmpc_critical_with_hint(ident_t_ *l, int g, void *p, unsigned) { __kmpc_critical(l, g, p); } void __kmpc_end_critical(ident_t_ *, int, void *p) { named(p)->unlock(); }
int __kmpc_single(ident_t_ *, int) { Me &m = me(); if (!m.t) return 1; std::lock_guard<std::mutex> g(m.t->m); return m.single++ == m.t->singles ? (++m.t->singles, 1) : 0; } void __kmpc_end_single(ident_t_ *, int) {}
int __kmpc_master(ident_t_ *, int) { return me().id == 0; } void __kmpc_end_master(ident_t_ *, int) {} int __kmpc_masked(ident_t_ *, int, int f) { return (int)me().id == f; } void __kmpc_end_masked(ident_t_ *, int) {}
int __kmpc_reduce_nowait(ident_t_ *, int, int, size_t, void *, void (*)(void *, void *), void *) { nap(me().r); (me().t ? me().t->red : critical()).lock(); return 1; } void __kmpc_end_reduce_nowait(ident_t_ *, int, void *) { (me().t ? me().t->red : critical()).unlock(); }
int __kmpc_reduce(ident_t_ *a, int b, int c, size_t d, void *e, void (*f)(void *, void *), void *g) { return __kmpc_reduce_nowait(a, b, c, d, e, f, g); } void __kmpc_end_reduce(ident_t_ *l, int g, void *k) { __kmpc_end_reduce_nowait(l, g, k); __kmpc_barrier(l, g); }
#define KMP(S, T, U, D) \
void __kmpc_for_static_init_##S(ident_t_ *, int, int s, int *last, T *l, T *u, D *st, D inc, D ch) { static_init<T, U, D>(s, last, l, u, st, inc, ch); } \
void __kmpc_dispatch_init_##S(ident_t_ *, int, int s, T l, T u, D st, D ch) { disp_init<T, U, D>(s, l, u, st, ch); } \
int __kmpc_dispatch_next_##S(ident_t_ *, int, int *last, T *l, T *u, D *st) { return disp_next<T, D>(last, l, u, st); } \
void __kmpc_dispatch_fini_##S(ident_t_ *, int) {}
KMP(4, int, unsigned, int) KMP(4u, unsigned, unsigned, int) KMP(8, long, unsigned long, long) KMP(8u, unsigned long, unsigned long, long)
#undef KMP
void __kmpc_for_static_fini(ident_t_ *, int) {} void __kmpc_dispatch_deinit(ident_t_ *, int) {}
int omp_get_thread_num() { return me().t ? me().id : 0; } int omp_get_num_threads() { return me().t ? me().t->n : 1; } int omp_get_max_threads() { return want_threads(); } int omp_in_parallel() { return me().level > 0; }
void omp_set_num_threads(int n) { want_threads() = n; } int omp_get_num_procs() { return 8; } int omp_get_level() { return me().level; } double omp_get_wtime() { struct timeval t; gettimeofday(&t, nullptr); return t.tv_sec + t.tv_usec * 1e-6; }
void omp_set_dynamic(int) {} int omp_get_dynamic() { return 0; } void omp_set_nested(int) {} int omp_get_thread_limit() { return 64; }
}
#endif
