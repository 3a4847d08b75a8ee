// B01: the results of every operation in this build configuration; the driver compares them across configurations.
#define MON_MAIN
#include "ops.hpp"
#include <libff/common/profiling.hpp>
using namespace lb; using namespace mon;
int main(int argc, char **argv) {
    mon::init(argc, argv); init_all(); const uint64_t seed = 1 + M().seed % 1000; const unsigned K = std::min<unsigned>(unsigned(Ops::K), 2 + M().scale);
    { std::vector<size_t> named{1, 2, 3}; print_vector(named); const std::vector<size_t> c{4}; print_vector(c); print_vector(std::vector<size_t>{5}); print_compilation_info(); at("B01.interface"); ev("B01.interface", 1); }
    for (int g = 0; g < G_ALL; ++g) { struct itimerval tv; memset(&tv, 0, sizeof tv); setitimer(ITIMER_PROF, &tv, nullptr); build_group(g, seed); tv.it_interval = {1, 0}; tv.it_value = {1, 0}; setitimer(ITIMER_PROF, &tv, nullptr); }
    for (unsigned k = 0; k < ops().v.size(); ++k) for (unsigned i = 0; i < K; ++i) {
        auto &o = ops().v[k]; at("B01.op:" + o.name); info("input " + std::to_string(i)); mon::entropy().r = Rng(k * 31 + i); std::string got; try { got = o.f(i)(); } catch (const std::exception &e) { got = std::string("exception ") + e.what(); }
        ev("B01.result:" + o.name, i + 100 * seed); M().notes["=" + o.name + "/" + std::to_string(i) + "@" + std::to_string(seed)] = std::to_string(hs(got)) + " " + got.substr(0, 160);
    }
    M().events["operations compared"] = ops().v.size(); return mon::finish();
}
