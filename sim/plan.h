// A plan is everything one simulated execution depends on besides the code under test:
// grids, variables, the history of calls, the faults, and the schedule (a seed, or an
// explicit list of switches).  It is a pure function of (property, seed) and has a text
// form, which is also the replay file.
#ifndef PLAN_H
#define PLAN_H
#include "qk_api.h"
#include "simrt.h"
#include <map>
#include <string>
#include <vector>

struct step: public api::op
{
    int w = 0;       // simulation (world) it belongs to
};

struct pfault
{
    int op = 0;         // id of the step it hits
    int kind = 0;
    uint64_t at = 1;    // position, or parts per million of the undisturbed length
    bool frac = false;
    int arg = 0;
    int caller = -1;
    int attempt = 0;    // which execution of the step
};

struct plan
{
    std::string prop;
    uint64_t seed = 0;
    std::map<std::string, long> cfg;
    std::vector<api::gridcfg> grids;
    std::vector<api::varspec> vars;
    std::vector<step> ops;
    std::vector<pfault> faults;
    sim::sched_cfg sched;
    bool explicit_sched = false;
    std::vector<sim::sw> switches;

    long get(const std::string & k, long d = 0) const
    {
        auto it = cfg.find(k);
        return it == cfg.end() ? d : it->second;
    }
};

std::string to_text(const plan & p);
plan from_text(const std::string & text);
plan generate(const std::string & prop, uint64_t seed, int tier); // gen.cpp

#endif
