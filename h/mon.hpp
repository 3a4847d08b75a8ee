// Monitor core: event accounting, violation recording, crash/hang capture,
// seeded workload generation and a deterministic (and steerable) entropy source.
// Every harness is one process: `harness --seed N --scale K --out FILE [--dict FILE]`.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <fstream>
#include <sstream>
#include <iostream>
#include <random>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <gmp.h>
#include <gmpxx.h>
#include <sodium.h>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define MON_SANITIZER 1
#endif
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer) || __has_feature(undefined_behavior_sanitizer)
#define MON_SANITIZER 1
#endif
#endif
#ifdef MON_SANITIZER
extern "C" void __sanitizer_set_death_callback(void (*)(void));
#endif

namespace mon {

struct Rng {
    uint64_t s[4];
    static uint64_t sm(uint64_t &x) { uint64_t z = (x += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
    explicit Rng(uint64_t seed = 1) { for (auto &v : s) v = sm(seed); }
    static uint64_t rotl(uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
    uint64_t next() { uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template<class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- entropy
// The library draws randomness from std::random_device and libsodium. Both are
// replaced so that runs replay, and so that a workload can script the stream.
struct Entropy {
    Rng r{12345};
    std::vector<uint32_t> script; // consumed first (32-bit words)
    size_t pos = 0;
    uint64_t words = 0;           // how many 32-bit words the library consumed
    uint32_t next32() {
        ++words;
        if (pos < script.size()) return script[pos++];
        return (uint32_t)(r.next() >> 13);
    }
    void fill(void *p, size_t n) {
        unsigned char *c = (unsigned char *)p;
        while (n >= 4) { uint32_t w = next32(); memcpy(c, &w, 4); c += 4; n -= 4; }
        if (n) { uint32_t w = next32(); memcpy(c, &w, n); }
    }
    void set_script(std::vector<uint32_t> s) { script = std::move(s); pos = 0; }
};
inline Entropy &entropy() { static thread_local Entropy e; return e; } // one stream per thread
inline const char *sod_name() { return "mon"; }
inline uint32_t sod_random() { return entropy().next32(); }
inline void sod_buf(void *const p, const size_t n) { entropy().fill(p, n); }

// ---------------------------------------------------------------- monitor
struct Viol { std::string detail; uint64_t count = 0; uint64_t case_no = 0; };

struct Mon {
    uint64_t seed = 1;
    uint64_t scale = 1;
    std::string out, only, dictfile, arg;
    std::map<std::string, uint64_t> events;
    std::unordered_set<uint64_t> distinct;
    uint64_t evals = 0, trivial = 0, cases = 0;
    std::map<std::string, Viol> viols;
    std::vector<std::string> samples;
    std::map<std::string, std::string> notes;
    std::vector<mpz_class> dict, newdict;
    Rng rng{1};
    char label[256] = "start";
    char info[1400] = "";
    volatile uint64_t tick_case = 0; volatile int tick_n = 0;
    int hang_s = 40;
    bool finished = false;
};
inline Mon &M() { static Mon m; return m; }
inline Rng &rng() { return M().rng; }

inline std::string esc(const std::string &s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}

inline void write_report(bool complete) {
    Mon &m = M();
    if (m.out.empty()) return;
    std::string s = "{\"complete\":";
    s += complete ? "true" : "false";
    s += ",\"evals\":" + std::to_string(m.evals) + ",\"distinct\":" + std::to_string(m.distinct.size()) +
         ",\"trivial\":" + std::to_string(m.trivial) + ",\"cases\":" + std::to_string(m.cases) + ",\"entropy_words\":" + std::to_string(entropy().words);
    s += ",\"label\":\"" + esc(m.label) + "\",\"info\":\"" + esc(m.info) + "\",\"events\":{";
    bool f = true;
    for (auto &e : m.events) { s += (f ? "\"" : ",\"") + esc(e.first) + "\":" + std::to_string(e.second); f = false; }
    s += "},\"notes\":{";
    f = true;
    for (auto &e : m.notes) { s += (f ? "\"" : ",\"") + esc(e.first) + "\":\"" + esc(e.second) + "\""; f = false; }
    s += "},\"samples\":[";
    f = true;
    for (auto &e : m.samples) { s += (f ? "\"" : ",\"") + esc(e) + "\""; f = false; }
    s += "],\"violations\":[";
    f = true;
    for (auto &v : m.viols) {
        s += (f ? "{" : ",{"); f = false;
        s += "\"key\":\"" + esc(v.first) + "\",\"detail\":\"" + esc(v.second.detail) + "\",\"count\":" + std::to_string(v.second.count) + ",\"case\":" + std::to_string(v.second.case_no) + "}";
    }
    s += "]}\n";
    int fd = open(m.out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (complete) { // operand hashes, so that the driver can count distinct cases over several processes
        FILE *h = fopen((m.out + ".h").c_str(), "wb");
        if (h) { std::vector<uint64_t> v(m.distinct.begin(), m.distinct.end()); fwrite(v.data(), 8, v.size(), h); fclose(h); }
    }
    if (fd >= 0) { size_t o = 0; while (o < s.size()) { ssize_t k = write(fd, s.data() + o, s.size() - o); if (k <= 0) break; o += k; } close(fd); }
}

inline void fail(const std::string &key, const std::string &detail) {
    Viol &v = M().viols[key];
    if (v.count++ == 0) { v.detail = detail; v.case_no = M().cases; }
}

inline const char *&tl_label() { static thread_local const char *p = nullptr; return p; } // what this thread is doing (threaded harnesses)
inline std::string cur_label() { return tl_label() ? tl_label() : M().label; }
inline void on_death() {
    static volatile sig_atomic_t once = 0;
    if (once++ || M().finished) return;
    fail(std::string("crash:") + cur_label(), std::string("process died (sanitizer report, assertion or signal) during: ") + M().info);
    write_report(false);
}
inline void on_signal(int sig) {
    static volatile sig_atomic_t once = 0;
    if (!once++) {
        fail(std::string("crash:") + cur_label(), "signal " + std::to_string(sig) + " during: " + M().info);
        write_report(false);
    }
    _exit(3);
}
inline void on_tick(int) {
    Mon &m = M();
    if (m.tick_case == m.cases) {
        if (++m.tick_n > m.hang_s) {
            fail(std::string("hang:") + m.label, "no return after " + std::to_string(m.hang_s) + " s of CPU time in: " + std::string(m.info));
            write_report(false);
            _exit(4);
        }
    } else { m.tick_case = m.cases; m.tick_n = 0; }
}

// start of one observed case; label is a stable class name, info holds operands
inline void at(const char *label) { Mon &m = M(); ++m.cases; strncpy(m.label, label, sizeof m.label - 1); m.info[0] = 0; }
inline void at(const std::string &label) { at(label.c_str()); }
inline void info(const std::string &s) { strncpy(M().info, s.c_str(), sizeof M().info - 1); }

inline uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ULL) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 1099511628211ULL; }
    return h ^ (h >> 29);
}
inline uint64_t hs(const std::string &s, uint64_t h = 1469598103934665603ULL) { return hash_bytes(s.data(), s.size(), h); }

// one oracle evaluation of class cls; opnd identifies the operands
inline void ev(const std::string &cls, uint64_t opnd, bool nontrivial = true) {
    Mon &m = M();
    ++m.evals;
    ++m.events[cls];
    if (!nontrivial) { ++m.trivial; return; }
    if (m.distinct.size() < 1000000) m.distinct.insert(hs(cls, opnd * 0x9e3779b97f4a7c15ULL + 7));
}
inline void sample(const std::string &s) { if (M().samples.size() < 12) M().samples.push_back(s.substr(0, 400)); }

// evaluate: count, and record a violation under key cls when ok is false
template<class F> inline bool expect(bool ok, const std::string &cls, uint64_t opnd, F detail, bool nontrivial = true) {
    ev(cls, opnd, nontrivial);
    if (!ok) fail(cls, detail());
    return ok;
}

inline std::string hex(const mpz_class &v) { return "0x" + v.get_str(16); }

inline mpz_class mpz_u64(uint64_t v) { mpz_class r; mpz_import(r.get_mpz_t(), 1, -1, 8, 0, 0, &v); return r; }
inline uint64_t u64_mpz(const mpz_class &v) { uint64_t r = 0; mpz_class t; mpz_fdiv_r_2exp(t.get_mpz_t(), v.get_mpz_t(), 64); mpz_export(&r, nullptr, -1, 8, 0, 0, t.get_mpz_t()); return r; }

inline void load_dict(const std::string &f) {
    std::ifstream in(f);
    std::string k, v;
    while (in >> k >> v) {
        mpz_class z;
        if (z.set_str(v, 10)) continue;
        (k == "N" ? M().newdict : M().dict).push_back(z);
    }
}

inline void init(int argc, char **argv) {
    Mon &m = M();
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i];
        if (a == "--seed") m.seed = strtoull(argv[i + 1], 0, 10);
        else if (a == "--scale") m.scale = strtoull(argv[i + 1], 0, 10);
        else if (a == "--out") m.out = argv[i + 1];
        else if (a == "--only") m.only = argv[i + 1];
        else if (a == "--dict") m.dictfile = argv[i + 1];
        else if (a == "--arg") m.arg = argv[i + 1];
        else if (a == "--hang") m.hang_s = atoi(argv[i + 1]);
    }
    if (!m.dictfile.empty()) load_dict(m.dictfile);
    m.rng = Rng(m.seed * 1000003 + 17);
    entropy().r = Rng(m.seed * 7919 + 5);
    static randombytes_implementation impl;
    impl.implementation_name = sod_name; impl.random = sod_random; impl.stir = nullptr; impl.uniform = nullptr; impl.buf = sod_buf; impl.close = nullptr;
    randombytes_set_implementation(&impl);
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) {
#ifdef MON_SANITIZER
        if (s != SIGABRT) continue;
#endif
        struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sigaction(s, &sa, nullptr);
    }
#ifdef MON_SANITIZER
    __sanitizer_set_death_callback(on_death);
#endif
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_tick; sa.sa_flags = SA_RESTART; sigaction(SIGPROF, &sa, nullptr);
    struct itimerval tv; tv.it_interval = {1, 0}; tv.it_value = {1, 0}; setitimer(ITIMER_PROF, &tv, nullptr);
}

// run fn, turning exceptions into violations of the current label
inline void guarded(const std::string &what, const std::function<void()> &fn) {
    try { fn(); }
    catch (const std::exception &e) { fail("exception:" + std::string(M().label), what + ": " + e.what() + " during " + M().info); }
    catch (...) { fail("exception:" + std::string(M().label), what + ": unknown exception during " + M().info); }
}

inline int finish() {
    M().finished = true;
    struct itimerval tv; memset(&tv, 0, sizeof tv); setitimer(ITIMER_PROF, &tv, nullptr);
    write_report(true);
    fflush(stdout);
    return M().viols.empty() ? 0 : 1;
}
inline bool want(const std::string &name) { return M().only.empty() || name.find(M().only) != std::string::npos; }

// ---------------------------------------------------------------- hostile integers
// a value below 2^bits built from boundary patterns, dictionary literals, or noise
inline mpz_class hostile_bits(Rng &r, unsigned bits) {
    mpz_class v = 0;
    unsigned kind = r.below(12);
    Mon &m = M();
    if (kind == 0 && !m.newdict.empty()) { v = r.pick(m.newdict); }
    else if (kind == 1 && !m.dict.empty()) { v = r.pick(m.dict); }
    else if (kind <= 2) { v = mpz_u64(r.below(9)); }
    else if (kind == 3) { mpz_class t; mpz_setbit(t.get_mpz_t(), r.below(bits)); v = t; long d = (long)r.below(5) - 2; v += d; }
    else if (kind == 4) { mpz_class t; mpz_setbit(t.get_mpz_t(), bits); v = t - 1 - mpz_u64(r.below(4)); }
    else if (kind <= 7) { // limb patterns
        for (unsigned i = 0; i < (bits + 63) / 64; ++i) {
            uint64_t l;
            switch (r.below(8)) {
            case 0: l = 0; break;
            case 1: l = ~0ULL; break;
            case 2: l = 1ULL << 63; break;
            case 3: l = 1; break;
            case 4: l = (1ULL << r.below(64)) - 1; break;
            case 5: l = ~((1ULL << r.below(64)) - 1); break;
            case 6: l = (!m.newdict.empty() && r.chance(1, 2)) ? u64_mpz(r.pick(m.newdict)) : r.next(); break;
            default: l = r.next();
            }
            mpz_class t = mpz_u64(l);
            t <<= 64 * i;
            v += t;
        }
    } else if (kind == 8) { // run of ones
        unsigned a = r.below(bits), b = r.below(bits);
        if (a > b) std::swap(a, b);
        mpz_class hi, lo; mpz_setbit(hi.get_mpz_t(), b + 1); mpz_setbit(lo.get_mpz_t(), a); v = hi - lo;
    } else { for (unsigned i = 0; i < (bits + 63) / 64; ++i) { v <<= 64; v += mpz_u64(r.next()); } if (kind == 9) v >>= r.below(bits); }
    if (v < 0) v = -v;
    mpz_class q; mpz_fdiv_r_2exp(q.get_mpz_t(), v.get_mpz_t(), bits);
    return q;
}
// an element of [0,p)
inline mpz_class hostile_mod(Rng &r, const mpz_class &p) {
    size_t bits = mpz_sizeinbase(p.get_mpz_t(), 2);
    unsigned kind = r.below(12);
    mpz_class v;
    if (kind <= 1) v = p - mpz_u64(1 + r.below(6));
    else if (kind == 2) v = (p + (long)r.below(7) - 3) / 2;
    else if (kind == 3) v = p - hostile_bits(r, bits);
    else if (kind == 4) { // limbs of p, perturbed
        v = 0;
        for (size_t i = 0; i < (bits + 63) / 64; ++i) { mpz_class t = p >> (64 * i); uint64_t l = u64_mpz(t); unsigned k = r.below(4); if (k == 1) ++l; else if (k == 2) --l; else if (k == 3 && r.chance(1, 3)) l = r.next(); t = mpz_u64(l); t <<= 64 * i; v += t; }
    }
    else v = hostile_bits(r, bits);
    mpz_class q; mpz_mod(q.get_mpz_t(), v.get_mpz_t(), p.get_mpz_t());
    return q;
}

} // namespace mon

// deterministic replacement of libstdc++'s entropy source (see Entropy)
#ifdef MON_MAIN
namespace std { random_device::result_type random_device::_M_getval() { return mon::entropy().next32(); } }
#endif
