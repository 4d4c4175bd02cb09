// One simulated execution of a plan, with the checks of its property.
#ifndef RUN_H
#define RUN_H
#include "plan.h"
#include <string>

struct result
{
    bool bad = false;
    std::string cls, text;    // violation class and description
    uint64_t event_hash = 0, sched_hash = 0, state_hash = 0;
    uint64_t ops = 0;         // library calls made
    uint64_t sim_ns = 0;
    sim::statistics st;
    std::vector<sim::sw> switches;
};

result execute(const plan & p, const std::string & value_binary); // in this process: call once per process

#endif
