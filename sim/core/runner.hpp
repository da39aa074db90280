// Batch runner: one forked process per run, replay, gating of violations and minimisation.
#pragma once
#include "sched.hpp"
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

struct Op { int client; int kind; long a, b, c, d; };
struct Scenario {
    std::string prop;
    uint64_t seed = 0;
    std::map<std::string, double> cfg;
    std::vector<Op> ops;
    double get(const std::string& k, double def = 0) const { auto i = cfg.find(k); return i == cfg.end() ? def : i->second; }
};

struct System {
    virtual ~System() = default;
    virtual Scenario generate(const std::string& prop, uint64_t seed) = 0;
    virtual Config simConfig(const Scenario& s) = 0;
    virtual void prepare(const std::string& prop) {}            // in the parent, once
    virtual void execute(const Scenario& s) = 0;                // thread 0 of the run
    virtual std::string describe(const Op& o) = 0;
    virtual std::vector<const char*> counterNames() = 0;        // index = counter, "" = unused
    virtual bool nontrivial(const Shared& r) { return r.switches > 0; }
    virtual void afterRun() {}                                  // in the parent, after every run (temporary files)
};

int runnerMain(int argc, char** argv, System& sys);
Config configFrom(const Scenario& s);   // common schedule/fault keys
void drawSchedule(Scenario& s, Rng& r); // common schedule keys

} // namespace sim
