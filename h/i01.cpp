// I01: histories of parameter initialisations and uses, each in a process that starts uninitialised, against
// processes that initialised one curve once.
#define MON_MAIN
#include "ops.hpp"
#include "params.hpp"
#include <sys/wait.h>
using namespace lb; using namespace mon;
static void init_curve(int g, unsigned how) {
    switch (g) { case 0: how & 1 ? init_alt_bn128_params() : alt_bn128_pp::init_public_params(); break; case 1: how & 1 ? init_bls12_381_params() : bls12_381_pp::init_public_params(); break; case 2: how & 1 ? init_edwards_params() : edwards_pp::init_public_params(); break; case 3: how & 1 ? init_mnt4_params() : mnt4_pp::init_public_params(); break; default: how & 1 ? init_mnt6_params() : mnt6_pp::init_public_params(); }
}
static void init_fields(int g) { switch (g) { case 0: init_alt_bn128_fields(); break; case 1: init_bls12_381_fields(); break; case 2: init_edwards_fields(); break; case 3: init_mnt4_fields(); break; default: init_mnt6_fields(); } }
static std::string use(unsigned k, unsigned i, Res *keep = nullptr) { try { Res r = ops().v[k].f(i); if (keep) *keep = r; return r(); } catch (const std::exception &e) { return std::string("exception ") + e.what(); } }
typedef std::map<std::string, std::string> Map; // observation -> hash of text
static std::string file_of(const std::string &tag) { return M().out + "." + tag; }
// child: run fn, write its map; parent: read it
static bool child(const std::string &tag, const std::function<void(std::ostream &)> &fn, Map &out, std::string &why) {
    std::string f = file_of(tag); fflush(stdout); pid_t pid = fork(); if (pid < 0) { why = "fork failed"; return false; }
    if (!pid) { M().out.clear(); std::ofstream o(f); fn(o); o << "end\tend\n"; o.close(); _exit(0); }
    int st = 0; waitpid(pid, &st, 0); std::ifstream in(f); std::string line; while (std::getline(in, line)) { size_t t = line.find('\t'); if (t != std::string::npos) out[line.substr(0, t)] = line.substr(t + 1); } in.close(); unlink(f.c_str()); if (WIFEXITED(st) && !WEXITSTATUS(st) && out.count("end")) { out.erase("end"); return true; }
    why = WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit status " + std::to_string(WEXITSTATUS(st)); return false;
}
static bool needs(int g, unsigned inited) { return g < 5 ? inited >> g & 1 : g == G_MNTF ? (inited >> G_MNT4 & 3) : (inited & 1); }
template<class G> static void put_gen(std::ostream &o) { G g = G::one(); const unsigned char *c = (const unsigned char *)&g; o << CI<G>::name() << "\t"; for (size_t i = 0; i < sizeof g; ++i) { char b[3]; snprintf(b, 3, "%02x", c[i]); o << b; } o << "\n"; }
template<class G> static void get_gen(const Map &m) { auto it = m.find(CI<G>::name()); if (it == m.end() || it->second.size() != 2 * sizeof(G)) return; G *g = new G(); unsigned char *c = (unsigned char *)g; for (size_t i = 0; i < sizeof(G); ++i) c[i] = (unsigned char)std::stoi(it->second.substr(2 * i, 2), nullptr, 16); gen_override<G>() = g; }
template<class F> static void set_mod() { decltype(pf(F()))::mod_override() = FI<F>::p(); }
static unsigned first_op[G_ALL + 1];
static Map base[G_ALL]; static Map pbase[6];
static const unsigned KI = 3;
int main(int argc, char **argv) {
    mon::init(argc, argv); struct itimerval tv; memset(&tv, 0, sizeof tv); setitimer(ITIMER_PROF, &tv, nullptr); quiet(); const uint64_t seed = M().seed % 5 + 1;
    // inputs are built before any initialisation, from the reference model alone
    { Map m; std::string why; at("I01.generators"); if (!child("gens", [](std::ostream &o) { init_all(); put_gen<alt_bn128_G1>(o); put_gen<alt_bn128_G2>(o); put_gen<bls12_381_G1>(o); put_gen<bls12_381_G2>(o); put_gen<edwards_G1>(o); put_gen<edwards_G2>(o); put_gen<mnt4_G1>(o); put_gen<mnt4_G2>(o); put_gen<mnt6_G1>(o); put_gen<mnt6_G2>(o); }, m, why)) { fail("I01.all", "initialising every curve: " + why); return mon::finish(); }
      get_gen<alt_bn128_G1>(m); get_gen<alt_bn128_G2>(m); get_gen<bls12_381_G1>(m); get_gen<bls12_381_G2>(m); get_gen<edwards_G1>(m); get_gen<edwards_G2>(m); get_gen<mnt4_G1>(m); get_gen<mnt4_G2>(m); get_gen<mnt6_G1>(m); get_gen<mnt6_G2>(m); }
    set_mod<alt_bn128_Fr>(); set_mod<alt_bn128_Fq>(); set_mod<bls12_381_Fr>(); set_mod<bls12_381_Fq>(); set_mod<edwards_Fr>(); set_mod<edwards_Fq>(); set_mod<mnt4_Fr>(); set_mod<mnt4_Fq>();
    for (int g = 0; g < G_ALL; ++g) { first_op[g] = ops().v.size(); build_group(g, seed, 1); } first_op[G_ALL] = ops().v.size();
    // one curve, initialised once, and nothing else
    Map mnt6f; Map mnt6p;
    for (int alone = 0; alone < 5; ++alone) {
        mon::entropy().r = Rng(5); at(std::string("I01.alone:") + group_name(alone)); Map m; std::string why;
        bool ok = child("alone", [&](std::ostream &o) { init_curve(alone, 0); for (int g = 0; g < G_ALL; ++g) { if (!needs(g, 1u << alone)) continue; if (g < 6) for (auto &p : params(g)) o << "P" << g << ":" << p.first << "\t" << p.second << "\n"; size_t from = ops().v.size(); build_group(g, seed, 2); std::vector<unsigned> ks; for (size_t k = first_op[g]; k < first_op[g + 1]; ++k) ks.push_back(k); for (size_t k = from; k < ops().v.size(); ++k) ks.push_back(k); for (unsigned k : ks) for (unsigned i = 0; i < KI; ++i) o << "O" << g << ":" << ops().v[k].name << "/" << i << "\t" << hs(use(k, i)) << "\n"; } }, m, why);
        if (!ok) { fail(std::string("I01.alone:") + group_name(alone), "initialised alone and used: " + why); continue; }
        for (auto &x : m) { int g = x.first[1] - '0'; std::string n = x.first.substr(3); Map &to = x.first[0] == 'P' ? pbase[g] : base[g]; if (alone == G_MNT6 && g == G_MNTF) (x.first[0] == 'P' ? mnt6p : mnt6f)[n] = x.second; else to[n] = x.second; }
    }
    for (auto &p : mnt6p) expect(pbase[G_MNTF][p.first] == p.second, "I01.shared-parameter:" + p.first, 1, [&] { return "after mnt4: " + pbase[G_MNTF][p.first] + ", after mnt6: " + p.second; });
    for (auto &p : mnt6f) expect(base[G_MNTF][p.first] == p.second, "I01.shared-result:" + p.first, 1, [&] { return "differs between a process that initialised mnt4 and one that initialised mnt6"; });
    uint64_t N = 3 * M().scale, total_inits = 0, total_uses = 0, kept_total = 0; std::set<std::string> seqs;
    for (uint64_t h = 0; h < N; ++h) {
        at("I01.history"); Rng r(M().seed * 7001 + h); std::string desc; Map m; std::string why; unsigned len = 6 + r.below(9);
        // the plan: which curves take part, in what order they are (re)initialised, where they are used
        std::vector<int> cs; for (int g = 0; g < 5; ++g) if (r.chance(3, 5)) cs.push_back(g); if (cs.empty()) cs.push_back(r.below(5)); if (h % 3 == 0) { cs.clear(); for (int g = 0; g < 5; ++g) cs.push_back(g); } for (size_t k = cs.size(); k > 1; --k) std::swap(cs[k - 1], cs[r.below(k)]);
        struct Step { int what, g; unsigned how; }; std::vector<Step> plan; for (int g : cs) plan.push_back({0, g, (unsigned)r.below(2)}); for (unsigned k = 0; k < len; ++k) plan.insert(plan.begin() + 1 + r.below(plan.size()), Step{r.chance(1, 2) ? 0 : r.chance(1, 5) ? 1 : 2, r.pick(cs), (unsigned)r.below(2)});
        unsigned in = 0; for (auto &s : plan) { desc += std::string(s.what == 0 ? (s.how ? "init_params " : "init_public_params ") : s.what == 1 ? "init_fields " : "use ") + (s.what == 2 ? "" : group_name(s.g)) + "; "; (void)in; } info(desc);
        bool ok = child("hist", [&](std::ostream &o) {
            unsigned inited = 0; bool built[G_ALL] = {false}; std::vector<std::pair<std::string, Res>> kept; std::vector<unsigned> idx; std::vector<int> grp; uint64_t inits = 0, uses = 0; size_t stepno = 0;
            auto bad = [&](const std::string &key, const std::string &d) { o << "V" << key << "\t" << "step " << stepno << ": " << d << "\n"; o.flush(); };
            for (auto &s : plan) {
                ++stepno; o << "L\t" << "step " << stepno << "\n"; o.flush();
                if (s.what == 0) { init_curve(s.g, s.how); inited |= 1u << s.g; ++inits; } else if (s.what == 1) { if (inited >> s.g & 1) init_fields(s.g); }
                for (int g = 0; g < 6; ++g) if (needs(g, inited) && (g < 5 ? inited >> g & 1 : true)) for (auto &p : params(g)) { ++uses; if (pbase[g][p.first] != p.second) bad("I01.parameter:" + p.first, p.second + ", alone " + pbase[g][p.first]); }
                for (int g = 0; g < G_ALL; ++g) if (!built[g] && needs(g, inited) && r.chance(2, 3)) { built[g] = true; size_t from = ops().v.size(); build_group(g, seed, 2); for (size_t k = first_op[g]; k < first_op[g + 1]; ++k) { idx.push_back(k); grp.push_back(g); } for (size_t k = from; k < ops().v.size(); ++k) { idx.push_back(k); grp.push_back(g); } }
                if (idx.empty()) continue;
                for (unsigned n = 0, budget = 120; n < 25 && budget > 0; ++n) { size_t j = r.below(idx.size()); auto &op = ops().v[idx[j]]; if (op.cost > budget) continue; budget -= op.cost; unsigned i = r.below(KI); Res keep; std::string got = use(idx[j], i, &keep); ++uses; std::string key = op.name + "/" + std::to_string(i); if (std::to_string(hs(got)) != base[grp[j]][key]) bad("I01.result:" + op.name, "input " + std::to_string(i) + " gives " + got.substr(0, 300) + ", which is not what it gives after initialising its curve alone once"); if (keep && r.chance(1, 3)) kept.push_back({std::to_string(grp[j]) + key, keep}); }
            }
            for (auto &k : kept) if (std::to_string(hs(k.second())) != base[k.first[0] - '0'][k.first.substr(1)]) bad("I01.value-kept:" + k.first.substr(1, k.first.find('/') - 1), "a value obtained before a re-initialisation no longer reads the same");
            o << "N\t" << inits << " " << uses << " " << kept.size() << "\n";
        }, m, why);
        uint64_t a = 0, b = 0, c = 0; if (m.count("N")) { std::istringstream s(m["N"]); s >> a >> b >> c; } total_inits += a; total_uses += b; kept_total += c; seqs.insert(desc);
        M().evals += b ? b - 1 : 0; ev("I01.history", hs(desc)); if (!ok) fail("I01.history-died", "history: " + desc + " " + m["L"] + ": " + why); for (auto &x : m) if (x.first[0] == 'V') fail(x.first.substr(1), "history: " + desc + " " + x.second);
        if (h % 4 == 0) mon::sample(desc);
    }
    M().events["initialisations performed"] += total_inits; M().events["parameter readings and operations compared"] += total_uses; M().events["values kept across re-initialisations and compared at the end"] += kept_total; M().events["distinct histories"] += seqs.size(); for (int g = 0; g < 6; ++g) M().events[std::string("parameters of ") + group_name(g)] = pbase[g].size();
    return mon::finish();
}
