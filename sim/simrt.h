// Deterministic simulation runtime for quikin.
//
// Everything the simulated system can observe and that is not a function of its
// inputs goes through this file: which (OpenMP or caller) thread runs next, what the
// allocator returns, what the disk answers, what the clock says, and what stale memory
// contains.  One process runs exactly one simulated execution; all choices come from
// the plan (a pure function of one integer seed) or from an explicit switch list.
#ifndef SIMRT_H
#define SIMRT_H

#include <cstdint>
#include <cstddef>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim
{

// ---------------------------------------------------------------- PRNG (splitmix64)
struct rng
{
    uint64_t s;
    explicit rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) {}
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // uniform in [lo,hi]
    int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(next() % uint64_t(hi - lo + 1)); }
    double unit() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    bool chance(double p) { return unit() < p; }
};

// ---------------------------------------------------------------- schedule control
enum sched_mode
{
    SCHED_SERIAL = 0,   // teams of one thread
    SCHED_ORDER = 1,    // threads run to completion, in an order drawn from the seed
    SCHED_SPARSE = 2,   // preempt at random shared accesses, rarely
    SCHED_DENSE = 3,    // preempt at random shared accesses, often
    SCHED_DIRECTED = 4, // preempt at accesses to locations recorded as conflicting
    SCHED_EXPLICIT = 5, // replay a recorded list of switches
    SCHED_CUTS = 6      // a few switches at drawn positions (PCT style)
};

struct sched_cfg
{
    sched_mode mode = SCHED_SERIAL;
    uint64_t seed = 1;
    int team = 8;               // upper bound for the size of a team
    int mean = 200;             // mean distance between preemptions (sparse / dense)
    bool record_conflicts = false;
};

struct sw
{ // one recorded scheduling decision
    int op;
    int pass;
    uint64_t step;
    int to;
};

// ---------------------------------------------------------------- faults
enum fault_kind
{
    F_NONE = 0,
    F_ALLOC,        // the n-th allocation of the operation fails
    F_OPEN,         // opening the n-th file fails
    F_SHORT,        // the n-th disk write accepts only part of the data
    F_EINTR,        // the n-th disk write is interrupted
    F_EIO,          // the n-th disk write fails with EIO
    F_ENOSPC,       // the disk becomes full during the n-th write (partial, then ENOSPC)
    F_CLOSE,        // the n-th close reports a deferred write error
    F_CRASH_IO,     // the process dies just before the n-th disk call
    F_CRASH_IO_MID, // the process dies in the middle of the n-th disk call
    F_CRASH_STEP,   // the process dies at the n-th shared memory access
    F_STALL,        // a stretch of simulated time passes (clock jump)
    F_KINDS
};
extern const char * fault_name[F_KINDS];

struct fault
{
    fault_kind kind;
    uint64_t at;   // 1-based position inside the operation
    int arg;       // errno, bytes, number of consecutive hits, ...
    int caller;    // -1: any caller
    fault(fault_kind k = F_NONE, uint64_t a = 0, int g = 0, int c = -1) : kind(k), at(a), arg(g), caller(c) {}
};

// ---------------------------------------------------------------- outcome of one operation
enum outcome_kind { OK = 0, EXC_QK, EXC_ALLOC, EXC_STD, EXC_OTHER, CRASHED, BUDGET, DEADLOCK };
extern const char * outcome_name[8];

struct outcome
{
    outcome_kind kind = OK;
    std::string what;
    bool finished() const { return kind < CRASHED; }
};

// Runs the given bodies as concurrently scheduled callers until all of them end (or the
// simulated process dies).  op / pass name the execution in switch lists and logs.
std::vector<outcome> run(const std::vector<std::function<void()>> & bodies, int op, int pass, const sched_cfg & cfg, const std::vector<fault> & faults = std::vector<fault>(),
    uint64_t budget = 50000000ull);
outcome run1(const std::function<void()> & body, int op, int pass, const sched_cfg & cfg, const std::vector<fault> & faults = std::vector<fault>(), uint64_t budget = 50000000ull);

// Code of the harness that runs inside a caller (not preemptible, allocates outside the arena)
struct harness_scope
{
    harness_scope();
    ~harness_scope();
    int saved;
};

extern std::vector<sw> recorded;               // switches taken (seeded modes)
extern std::vector<sw> explicit_switches;      // switches to take (explicit mode)
extern bool force_explicit;                    // replay: ignore seeded modes
size_t conflict_count();                       // conflicting locations seen since clear
void clear_conflicts();
std::string get_conflicts();
void set_conflicts(const std::string & s);

// ---------------------------------------------------------------- allocator
struct alloc_cfg
{
    uint64_t seed = 1;     // placement and poison
    int quarantine = 64;   // freed blocks kept before reuse
    int skew = 0;          // 0: 16-byte aligned anywhere; k: force (address mod 64) == 16*k
    uint64_t stack_fill = 0; // stale contents of simulated stacks
    bool keep_stack = false; // do not refill stacks (contents of earlier work stay)
};
extern alloc_cfg acfg;
struct mem_error
{
    bool hit = false;
    std::string text;
};
extern mem_error memerr;
size_t live_blocks();
size_t live_bytes();
uint64_t op_fired(fault_kind k); // faults of that kind that fired in the operation that ran last
uint64_t op_fired_hard();        // faults that make a disk operation or an allocation fail
size_t op_allocs();    // allocations made by the operation that ran last
size_t op_ios();       // disk calls made by the operation that ran last
uint64_t op_steps();   // shared accesses made by the operation that ran last

// ---------------------------------------------------------------- disk
struct disk_state
{
    std::map<std::string, std::string> files;
    std::set<std::string> missing_dirs;  // opening a file below one of these fails
    long capacity = -1;                  // total bytes, -1: unlimited
    uint64_t opens = 0, writes = 0, closes = 0;
    std::vector<std::string> finished;   // files in the order in which writing them ended
    long curtain = -1;                   // the program is stopped when it opens one more file for writing
};
extern disk_state disk;
extern bool disk_enabled;
void disk_drop_handles();

// the simulated program called exit(); -1: it did not
extern int exit_code;
void program_exit(int code);

// ---------------------------------------------------------------- clock
struct clock_cfg
{
    uint64_t seed = 1;
    int mode = 0; // 0 fixed tick, 1 random, 2 jumps, 3 frozen
};
extern clock_cfg ccfg;
extern uint64_t sim_now_ns;
extern uint64_t clock_reads;

// ---------------------------------------------------------------- log / statistics
extern uint64_t event_hash;
void event(const char * tag, uint64_t a = 0, uint64_t b = 0);
void event_bytes(const void * p, size_t n);
struct statistics
{
    uint64_t fired[F_KINDS];
    uint64_t switches, regions, steps, teams_max, conflicts, allocs, ios, tasks;
    uint64_t probe[32];
};
extern statistics st;
uint64_t sched_hash(); // of the switches of the run

} // namespace sim

#endif
