// See simrt.h.  This file is compiled without instrumentation.
#include "simrt.h"
#include "lib/exception.h"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <deque>
#include <dlfcn.h>
#include <fcntl.h>
#include <link.h>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/times.h>
#include <sys/uio.h>
#include <time.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

namespace sim
{

const char * fault_name[F_KINDS] = { "none", "alloc_fail", "open_fail", "short_write", "eintr", "eio", "enospc", "close_error", "crash_before_io", "crash_mid_io", "crash_at_access",
        "clock_jump" };
const char * outcome_name[8] = { "ok", "qk_exception", "bad_alloc", "std_exception", "other_exception", "crashed", "no_progress", "deadlock" };

uint64_t event_hash = 1469598103934665603ull;
statistics st;
std::vector<sw> recorded;
std::vector<sw> explicit_switches;
bool force_explicit = false;
alloc_cfg acfg;
mem_error memerr;
disk_state disk;
bool disk_enabled = true;
clock_cfg ccfg;
uint64_t sim_now_ns = 1000000000ull;
uint64_t clock_reads = 0;

static inline void hash_mix(uint64_t & h, uint64_t v)
{
    h ^= v;
    h *= 1099511628211ull;
    h ^= h >> 29;
}
void event(const char * tag, uint64_t a, uint64_t b)
{
    for (const char * c = tag; *c; ++c)
        hash_mix(event_hash, uint64_t(*c));
    hash_mix(event_hash, a);
    hash_mix(event_hash, b);
}
void event_bytes(const void * p, size_t n)
{
    const unsigned char * c = (const unsigned char *) p;
    uint64_t v = 0;
    while (n >= 8) {
        memcpy(&v, c, 8);
        hash_mix(event_hash, v);
        c += 8;
        n -= 8;
    }
    v = 0;
    memcpy(&v, c, n);
    hash_mix(event_hash, v + n);
}
static uint64_t shash = 99;
uint64_t sched_hash() { return shash; }

// ======================================================================= fibers
struct team_t;
enum fstate { RUNNABLE, BLOCKED, DONE };

struct team_ctx
{
    team_t * team;
    int tid;
    size_t ws; // work-share counter
};

struct eh_globals
{
    void * caught;
    unsigned int uncaught;
};

struct fiber
{
    void * sp;
    char * stack;
    size_t size;
    int label;
    int caller;
    fstate state;
    const void * wait_key;
    std::function<void()> body;
    std::vector<team_ctx> ctx;
    char * tls;
    eh_globals eh;
    int err;
    void * retval;
};

struct workshare
{
    bool init = false;
    bool ull = false;
    long next = 0, end = 0, incr = 1, chunk = 1;
    int kind = 0; // 0 dynamic, 1 guided, 2 static
    std::vector<long> static_pos;
    int taken_single = 0;
    unsigned section_next = 0, section_count = 0;
    void * copyprivate = nullptr;
    int ended = 0;
};

struct team_t
{
    int size;
    int remaining;
    fiber * parent;
    int barrier_waiting = 0;
    uint64_t barrier_gen = 0;
    std::deque<workshare> ws;
    workshare & share(size_t i)
    {
        while (ws.size() <= i)
            ws.emplace_back();
        return ws[i];
    }
};

static fiber * cur = nullptr;
static int hscope = 0;
static void * main_sp = nullptr;
static std::vector<fiber *> all_fibers;
static std::vector<fiber *> runnable; // label order
static std::vector<char *> stack_pool;
static const size_t STACK = 512 * 1024;
static const size_t STACK_FILL = 32 * 1024;
static char * main_tls = nullptr;
static eh_globals main_eh = { nullptr, 0 };
static int next_label = 0;

static sched_cfg cfg;
static rng srng(1);
static int cur_op, cur_pass;
static uint64_t steps, budget;
static uint64_t countdown;
static std::vector<sw> expl; // for this op/pass, by step
static size_t expl_pos;
static std::vector<fault> faults;
static uint64_t crash_step;
static outcome_kind death;
static bool dead;
static uint64_t n_allocs, n_ios;
static uint64_t caller_allocs[16], caller_ios[16];
static uint64_t fired_before[F_KINDS];
uint64_t op_fired(fault_kind k) { return st.fired[k] - fired_before[k]; }
uint64_t op_fired_hard()
{
    return op_fired(F_ALLOC) + op_fired(F_OPEN) + op_fired(F_EIO) + op_fired(F_ENOSPC) + op_fired(F_CLOSE);
}
static inline int slot_of(int caller) { return caller < 15 ? caller : 15; }
static int n_callers;

size_t op_allocs() { return n_allocs; }
size_t op_ios() { return n_ios; }
uint64_t op_steps() { return steps; }

extern "C" void sim_switch(void ** save, void * to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp,(%rdi)
    movq %rsi,%rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
)");

// ----- thread-local storage of the simulated program (one block per simulated thread)
static char * tls_block = nullptr;
static size_t tls_size = 0, tls_image_size = 0;
static const char * tls_image = nullptr;
static bool tls_known = false;
static int tls_cb(struct dl_phdr_info * info, size_t, void *)
{
    if (info->dlpi_name && info->dlpi_name[0])
        return 0; // only the executable: it contains all of the simulated program
    for (int i = 0; i < info->dlpi_phnum; i++) {
        if (info->dlpi_phdr[i].p_type == PT_TLS) {
            tls_block = (char *) info->dlpi_tls_data;
            tls_size = info->dlpi_phdr[i].p_memsz;
            tls_image_size = info->dlpi_phdr[i].p_filesz;
            tls_image = (const char *) (info->dlpi_addr + info->dlpi_phdr[i].p_vaddr);
        }
    }
    return 1;
}
static std::map<std::pair<int, int>, char *> worker_tls;
static char * tls_for(int caller, int tid)
{
    if (!tls_known) {
        dl_iterate_phdr(tls_cb, nullptr);
        tls_known = true;
        main_tls = (char *) malloc(tls_size + 1);
    }
    char *& p = worker_tls[std::make_pair(caller, tid)];
    if (!p) {
        p = (char *) calloc(1, tls_size + 1);
        if (tls_size)
            memcpy(p, tls_image, tls_image_size);
    }
    return p;
}

static inline eh_globals * ehg() { return (eh_globals *) abi::__cxa_get_globals(); }

static void swap_in(char * from_tls, eh_globals * from_eh, char * to_tls, eh_globals * to_eh)
{
    eh_globals * g = ehg();
    *from_eh = *g;
    *g = *to_eh;
    if (tls_size && from_tls != to_tls) {
        memcpy(from_tls, tls_block, tls_size);
        memcpy(tls_block, to_tls, tls_size);
    }
}

static void switch_to(fiber * f)
{
    fiber * from = cur;
    if (f == from)
        return;
    st.switches++;
    hash_mix(shash, uint64_t(f->label) * 1000003u + steps);
    cur = f;
    const int hs = hscope;
    from->err = errno;
    swap_in(from->tls, &from->eh, f->tls, &f->eh);
    sim_switch(&from->sp, f->sp);
    // running again as `from`
    hscope = hs;
    errno = from->err;
}

static void to_main()
{
    fiber * from = cur;
    cur = nullptr;
    swap_in(from->tls, &from->eh, main_tls, &main_eh);
    sim_switch(&from->sp, main_sp);
}

static void die(outcome_kind k)
{
    dead = true;
    death = k;
    to_main();
    abort();
}

int exit_code = -1;
void program_exit(int code)
{
    event("exit", uint64_t(code));
    exit_code = code;
    die(CRASHED);
}

static void make_runnable(fiber * f)
{
    f->state = RUNNABLE;
    runnable.insert(std::lower_bound(runnable.begin(), runnable.end(), f, [](fiber * a, fiber * b) {return a->label < b->label;}), f);
}
static void remove_runnable(fiber * f)
{
    runnable.erase(std::find(runnable.begin(), runnable.end(), f));
}

static void draw_countdown()
{
    switch (cfg.mode) {
    case SCHED_SPARSE:
    case SCHED_DENSE:
        countdown = 1 + srng.next() % uint64_t(2 * cfg.mean);
        break;
    case SCHED_CUTS:
        countdown = 1 + srng.next() % (1ull << (1 + srng.next() % 15));
        break;
    default:
        countdown = ~0ull;
    }
}

static inline bool use_explicit() { return force_explicit || cfg.mode == SCHED_EXPLICIT; }

static fiber * by_label(int l)
{
    for (fiber * f : runnable)
        if (f->label == l)
            return f;
    return nullptr;
}

static void note_switch(int to)
{
    sw s;
    s.op = cur_op;
    s.pass = cur_pass;
    s.step = steps;
    s.to = to;
    const int hs = hscope;
    hscope = 1;
    recorded.push_back(s);
    hscope = hs;
    hash_mix(event_hash, steps * 31 + uint64_t(to));
}

// the current fiber cannot continue: pick another
static void forced_switch()
{
    steps++;
    if (runnable.empty()) {
        bool all = true;
        for (fiber * f : all_fibers)
            if (f->state != DONE)
                all = false;
        if (all)
            to_main();
        else
            die(DEADLOCK);
        return;
    }
    fiber * dflt = runnable[0];
    fiber * to = dflt;
    if (use_explicit()) {
        while (expl_pos < expl.size() && expl[expl_pos].step < steps)
            expl_pos++;
        if (expl_pos < expl.size() && expl[expl_pos].step == steps) {
            fiber * f = by_label(expl[expl_pos].to);
            if (f)
                to = f;
            expl_pos++;
        }
    } else if (cfg.mode != SCHED_SERIAL) {
        to = runnable[srng.next() % runnable.size()];
        draw_countdown();
    }
    if (to != dflt)
        note_switch(to->label);
    switch_to(to);
}

static void block_on(const void * key)
{
    cur->state = BLOCKED;
    cur->wait_key = key;
    remove_runnable(cur);
    forced_switch();
}
static void wake_all(const void * key)
{
    for (fiber * f : all_fibers)
        if (f->state == BLOCKED && f->wait_key == key) {
            f->wait_key = nullptr;
            make_runnable(f);
        }
}

extern "C" void sim_fiber_entry()
{
    cur->body();
    fiber * me = cur;
    me->state = DONE;
    remove_runnable(me);
    if (!me->ctx.empty() && me->ctx.back().team) {
        team_t * t = me->ctx.back().team;
        if (--t->remaining == 0)
            wake_all(t);
    }
    wake_all(me);
    forced_switch();
    abort();
}

static char * get_stack()
{
    if (!stack_pool.empty()) {
        char * s = stack_pool.back();
        stack_pool.pop_back();
        return s;
    }
    char * s = (char *) mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (s == MAP_FAILED)
        abort();
    mprotect(s, 4096, PROT_NONE);
    return s;
}

static fiber * new_fiber(int caller, char * tls, const std::function<void()> & body)
{
    fiber * f = new fiber();
    f->stack = get_stack();
    f->size = STACK;
    f->label = next_label++;
    f->caller = caller;
    f->tls = tls;
    f->eh.caught = nullptr;
    f->eh.uncaught = 0;
    f->err = 0;
    f->retval = nullptr;
    f->wait_key = nullptr;
    f->body = body;
    if (!acfg.keep_stack) {
        uint64_t * lo = (uint64_t *) (f->stack + STACK - STACK_FILL);
        for (size_t i = 0; i < STACK_FILL / 8; i++)
            lo[i] = acfg.stack_fill;
    }
    uint64_t * top = (uint64_t *) (f->stack + STACK - 64);
    *--top = 0;                               // alignment, end of the call chain
    *--top = (uint64_t) (void *) &sim_fiber_entry;
    for (int i = 0; i < 6; i++)
        *--top = 0;
    f->sp = top;
    all_fibers.push_back(f);
    make_runnable(f);
    st.tasks++;
    return f;
}

harness_scope::harness_scope() : saved(hscope) { hscope = 1; }
harness_scope::~harness_scope() { hscope = saved; }

static void classify(outcome & o, const std::function<void()> & body)
{
    try {
        body();
        o.kind = OK;
    } catch (const qk::exception & e) {
        harness_scope h;
        o.kind = EXC_QK;
        // what() and the stream operator must both deliver the message; what() decides.
        const char * w = e.what();
        size_t n = 0;
        while (n < 4096 && w[n])
            n++;
        o.what.assign(w, n);
    } catch (const std::bad_alloc &) {
        harness_scope h;
        o.kind = EXC_ALLOC;
    } catch (const std::exception & e) {
        harness_scope h;
        o.kind = EXC_STD;
        o.what = std::string(typeid(e).name()) + ": " + e.what();
    } catch (...) {
        harness_scope h;
        o.kind = EXC_OTHER;
    }
}

static uint64_t conflict_epoch = 0;
static void locks_reset();

std::vector<outcome> run(const std::vector<std::function<void()>> & bodies, int op, int pass, const sched_cfg & c, const std::vector<fault> & fl, uint64_t bud)
{
    cfg = c;
    srng = rng(c.seed ^ (uint64_t(op) << 32) ^ uint64_t(pass) * 77777u);
    cur_op = op;
    cur_pass = pass;
    steps = 0;
    budget = bud;
    n_allocs = n_ios = 0;
    memset(caller_allocs, 0, sizeof caller_allocs);
    memset(caller_ios, 0, sizeof caller_ios);
    memcpy(fired_before, st.fired, sizeof fired_before);
    next_label = 0;
    dead = false;
    faults = fl;
    crash_step = ~0ull;
    for (const fault & f : faults) {
        if (f.kind == F_CRASH_STEP)
            crash_step = f.at;
        if (f.kind == F_STALL) {
            st.fired[F_STALL]++;
            sim_now_ns += uint64_t(f.arg) * 1000000000ull;
        }
    }
    expl.clear();
    expl_pos = 0;
    for (const sw & s : explicit_switches)
        if (s.op == op && s.pass == pass)
            expl.push_back(s);
    std::stable_sort(expl.begin(), expl.end(), [](const sw & a, const sw & b) {return a.step < b.step;});
    draw_countdown();
    conflict_epoch++;
    n_callers = int(bodies.size());
    all_fibers.clear();
    runnable.clear();
    std::vector<outcome> * out = new std::vector<outcome>(bodies.size());
    for (size_t i = 0; i < bodies.size(); i++) {
        outcome * slot = &(*out)[i];
        const std::function<void()> * b = &bodies[i];
        fiber * f = new_fiber(int(i), tls_for(int(i), 0), [slot, b]() {
            hscope = 0;
            classify(*slot, *b);
            hscope = 1;
        });
        f->ctx.clear();
        slot->kind = CRASHED; // until it ends
    }
    event("run", uint64_t(op), uint64_t(pass));
    // first caller: drawn in seeded modes
    fiber * first = runnable[0];
    if (use_explicit()) {
        if (expl_pos < expl.size() && expl[expl_pos].step == 0) {
            fiber * f = by_label(expl[expl_pos].to);
            if (f)
                first = f;
            expl_pos++;
        }
    } else if (cfg.mode != SCHED_SERIAL && runnable.size() > 1) {
        first = runnable[srng.next() % runnable.size()];
        if (first != runnable[0])
            note_switch(first->label);
    }
    int saved_h = hscope;
    hscope = 0;
    cur = first;
    swap_in(main_tls, &main_eh, first->tls, &first->eh);
    sim_switch(&main_sp, first->sp);
    cur = nullptr;
    hscope = saved_h;
    if (dead) {
        for (outcome & o : *out)
            if (o.kind == CRASHED)
                o.kind = death;
        disk_drop_handles();
        locks_reset();
        // stacks and objects of the dead process are abandoned
    } else {
        for (fiber * f : all_fibers) {
            stack_pool.push_back(f->stack);
            delete f;
        }
    }
    all_fibers.clear();
    runnable.clear();
    st.steps += steps;
    st.allocs += n_allocs;
    st.ios += n_ios;
    for (const outcome & o : *out) {
        event("out", o.kind);
        event_bytes(o.what.data(), o.what.size());
    }
    std::vector<outcome> r = *out;
    if (!dead)
        delete out;
    return r;
}

outcome run1(const std::function<void()> & body, int op, int pass, const sched_cfg & c, const std::vector<fault> & fl, uint64_t bud)
{
    std::vector<std::function<void()>> b(1, body);
    return run(b, op, pass, c, fl, bud)[0];
}

// ======================================================================= conflicts
struct cell
{
    uint64_t epoch;
    uint16_t writers, readers;
};
static std::unordered_map<uint64_t, cell> cmap;
static std::unordered_set<uint64_t> hot;
size_t conflict_count() { return hot.size(); }
std::string get_conflicts()
{
    std::vector<uint64_t> v(hot.begin(), hot.end());
    std::sort(v.begin(), v.end());
    return std::string((const char *) v.data(), v.size() * 8);
}
void set_conflicts(const std::string & s)
{
    hot.clear();
    for (size_t i = 0; i + 8 <= s.size(); i += 8) {
        uint64_t g;
        memcpy(&g, s.data() + i, 8);
        hot.insert(g);
    }
}
void clear_conflicts()
{
    hot.clear();
    cmap.clear();
}
static void note_access(const void * p, bool write)
{
    const uint64_t g = uint64_t(p) >> 3;
    cell & c = cmap[g];
    if (c.epoch != conflict_epoch) {
        c.epoch = conflict_epoch;
        c.writers = c.readers = 0;
    }
    // who meets: threads of a team, or callers if there are several
    const uint16_t bit = uint16_t(1u << ((n_callers > 1 ? cur->caller : cur->label) & 15));
    if (write)
        c.writers |= bit;
    else
        c.readers |= bit;
    if (c.writers && ((c.writers | c.readers) & ~bit) && ((c.writers & ~bit) || write)) {
        if (hot.insert(g).second)
            st.conflicts++;
    }
}

// ======================================================================= arena
static char * const ARENA = (char *) 0x200000000000ull;
static const size_t ARENA_SIZE = 1ull << 30;
static bool arena_up = false;
static size_t bump = 4096;
static uint8_t * shadow;    // per 16 bytes: addressable bytes
static uint32_t * block_of; // per 16 bytes: index of the block that starts here
struct block
{
    size_t off, size, cls;
    bool live;
};
static std::vector<block> * blocks;
static std::deque<uint32_t> * quarantine;
static std::unordered_map<size_t, std::vector<uint32_t>> * freelist;
static size_t live_n = 0, live_b = 0;
static uint64_t alloc_serial = 0;
size_t live_blocks() { return live_n; }
size_t live_bytes() { return live_b; }

static void arena_init()
{
    arena_up = true;
    void * p = mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != ARENA)
        abort();
    shadow = (uint8_t *) mmap(nullptr, ARENA_SIZE / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    block_of = (uint32_t *) mmap(nullptr, ARENA_SIZE / 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    blocks = new std::vector<block>(1);
    quarantine = new std::deque<uint32_t>();
    freelist = new std::unordered_map<size_t, std::vector<uint32_t>>();
}

static inline bool in_arena(const void * p) { return uint64_t(p) - uint64_t(ARENA) < ARENA_SIZE; }

static void mem_fault(const char * what, size_t size)
{
    if (memerr.hit)
        return;
    harness_scope h;
    memerr.hit = true;
    char b[200];
    snprintf(b, sizeof b, "%s of %zu bytes", what, size);
    memerr.text = b;
}

static void fill_pattern(char * p, size_t n, uint64_t v)
{
    size_t i = 0;
    for (; i + 8 <= n; i += 8)
        memcpy(p + i, &v, 8);
    memcpy(p + i, &v, n - i);
}

static void * arena_alloc(size_t n)
{
    if (!arena_up)
        arena_init();
    const size_t cls = (n + 15) & ~size_t(15);
    uint32_t id = 0;
    alloc_serial++;
    auto it = freelist->find(cls);
    if (it != freelist->end() && !it->second.empty()) {
        uint64_t h = acfg.seed;
        hash_mix(h, alloc_serial);
        size_t k = h % it->second.size();
        id = it->second[k];
        it->second.erase(it->second.begin() + long(k));
    } else {
        uint64_t h = acfg.seed;
        hash_mix(h, alloc_serial * 3);
        // the larger the block, the further away are its neighbours: an access a few rows outside of it
        // must not meet another one
        const size_t gap = cls >= 128 ? std::min<size_t>(2 * cls, 32768) : 0;
        size_t off = bump + gap + 32 + 16 * (h % 4);
        if (acfg.skew)
            while ((off & 63) != size_t(16 * (acfg.skew & 3)))
                off += 16;
        bump = off + cls + gap + 32;
        if (bump + 4096 > ARENA_SIZE)
            return nullptr;
        block b;
        b.off = off;
        b.cls = cls;
        b.live = false;
        b.size = 0;
        id = uint32_t(blocks->size());
        blocks->push_back(b);
        block_of[off >> 4] = id;
    }
    block & b = (*blocks)[id];
    b.size = n;
    b.live = true;
    for (size_t o = 0; o < cls; o += 16)
        shadow[(b.off + o) >> 4] = uint8_t(std::min<size_t>(16, n - o));
    static const uint64_t pats[6] = { 0xA5A5A5A5A5A5A5A5ull, 0x3FF8000000000000ull /*1.5*/, 0x7E37E43C8800759Cull /*1e300*/, 0x7FF8DEADBEEF0001ull /*nan*/, 0, 0xC0F869F000000000ull };
    fill_pattern(ARENA + b.off, n, pats[acfg.seed % 6]);
    live_n++;
    live_b += n;
    return ARENA + b.off;
}

static void arena_free(void * p)
{
    const size_t off = size_t((char *) p - ARENA);
    const uint32_t id = (off & 15) ? 0 : block_of[off >> 4];
    if (!id || !(*blocks)[id].live || (*blocks)[id].off != off) {
        mem_fault(id ? "second release of the same block" : "release of a pointer that is not a block", id ? (*blocks)[id].size : 0);
        return;
    }
    block & b = (*blocks)[id];
    b.live = false;
    live_n--;
    live_b -= b.size;
    if (cfg.record_conflicts && n_callers > 1) // the next owner of this storage does not meet the last one
        for (uint64_t g = uint64_t(p) >> 3; g <= (uint64_t(p) + b.size) >> 3; g++)
            cmap.erase(g);
    for (size_t o = 0; o < b.cls; o += 16)
        shadow[(off + o) >> 4] = 0;
    fill_pattern(ARENA + off, b.size, 0xDDDDDDDDDDDDDDDDull);
    quarantine->push_back(id);
    while (int(quarantine->size()) > acfg.quarantine) {
        uint32_t q = quarantine->front();
        quarantine->pop_front();
        (*freelist)[(*blocks)[q].cls].push_back(q);
    }
}

static inline void check_mem(const void * p, size_t n, bool write)
{
    const size_t off = size_t((const char *) p - ARENA);
    const size_t a = off & 15;
    bool ok;
    if (a + n <= 16) {
        ok = shadow[off >> 4] >= a + n;
    } else {
        ok = shadow[off >> 4] == 16;
        size_t e = off + n;
        for (size_t o = (off & ~size_t(15)) + 16; ok && o < e; o += 16)
            ok = shadow[o >> 4] >= std::min<size_t>(16, e - o);
    }
    if (!ok)
        mem_fault(write ? "write outside live storage" : "read outside live storage", n);
}

static void sync_point();
static void * sim_new(size_t n, bool nothrow)
{
    if (cur && !hscope) {
        sync_point(); // within the standard library nothing else is seen
        // allocations inside parallel loops are not counted: an exception cannot leave a loop body
        if (cur->ctx.empty()) {
            n_allocs++;
            caller_allocs[slot_of(cur->caller)]++;
        }
        for (fault & f : faults) {
            const uint64_t na = f.caller < 0 ? n_allocs : caller_allocs[slot_of(f.caller)];
            if (f.kind == F_ALLOC && cur->ctx.empty() && (f.caller < 0 || f.caller == cur->caller) && na >= f.at && na < f.at + uint64_t(std::max(1, f.arg))) {
                st.fired[F_ALLOC]++;
                event("allocfail", n_allocs);
                if (nothrow)
                    return nullptr;
                throw std::bad_alloc();
            }
        }
        int s = hscope;
        hscope = 1;
        void * p = arena_alloc(n);
        hscope = s;
        if (!p) {
            if (nothrow)
                return nullptr;
            throw std::bad_alloc();
        }
        return p;
    }
    void * p = malloc(n ? n : 1);
    if (!p && !nothrow)
        throw std::bad_alloc();
    return p;
}

static void sim_delete(void * p)
{
    if (!p)
        return;
    if (arena_up && in_arena(p)) {
        sync_point();
        int s = hscope;
        hscope = 1;
        arena_free(p);
        hscope = s;
    } else {
        free(p);
    }
}

// ======================================================================= accesses
static inline void preempt(const void * p)
{
    if (runnable.size() < 2)
        return;
    if (use_explicit()) {
        while (expl_pos < expl.size() && expl[expl_pos].step < steps)
            expl_pos++;
        if (expl_pos < expl.size() && expl[expl_pos].step == steps) {
            fiber * f = by_label(expl[expl_pos].to);
            expl_pos++;
            if (f && f != cur)
                switch_to(f);
        }
        return;
    }
    fiber * to = nullptr;
    if (cfg.mode == SCHED_DIRECTED) {
        if (p && hot.count(uint64_t(p) >> 3) && (srng.next() & 1))
            to = runnable[srng.next() % runnable.size()];
    } else if (--countdown == 0) {
        draw_countdown();
        to = runnable[srng.next() % runnable.size()];
    }
    if (to && to != cur) {
        note_switch(to->label);
        switch_to(to);
    }
}

static inline void access(const void * p, size_t n, bool write)
{
    if (!cur || hscope)
        return;
    if (in_arena(p))
        check_mem(p, n, write);
    else if (size_t((const char *) p - cur->stack) < cur->size)
        return; // own stack
    steps++;
    if (steps >= crash_step) {
        st.fired[F_CRASH_STEP]++;
        crash_step = ~0ull;
        event("crash_step", steps);
        die(CRASHED);
    }
    if (steps > budget)
        die(BUDGET);
    if (cfg.record_conflicts && runnable.size() > 1 && (n_callers > 1 || !cur->ctx.empty())) {
        hscope = 1;
        note_access(p, write);
        hscope = 0;
    }
    preempt(p);
}

// a point where a synchronisation call is made
static void sync_point()
{
    if (!cur || hscope)
        return;
    steps++;
    if (steps > budget)
        die(BUDGET);
    preempt(nullptr);
}

// ======================================================================= teams
static int team_size(unsigned requested)
{
    int n = requested ? int(requested) : 16;
    if (cfg.mode == SCHED_SERIAL)
        return 1;
    return std::max(1, std::min(n, cfg.team));
}

static void run_team(unsigned requested, const std::function<void(int)> & member, const std::function<void(team_t &)> & init)
{
    st.regions++;
    if (!cur) { // outside of the simulation: plain serial execution is not supported
        fprintf(stderr, "sim: parallel region outside a simulated caller\n");
        abort();
    }
    int saved = hscope;
    hscope = 1;
    team_t * t = new team_t();
    t->size = cur->ctx.size() ? 1 : team_size(requested);
    t->parent = cur;
    st.teams_max = std::max<uint64_t>(st.teams_max, uint64_t(t->size));
    if (n_callers == 1)
        conflict_epoch++;
    if (init)
        init(*t);
    if (t->size == 1) {
        team_ctx c = { t, 0, 0 };
        cur->ctx.push_back(c);
        hscope = saved;
        member(0);
        hscope = 1;
        cur->ctx.pop_back();
        delete t;
        hscope = saved;
        return;
    }
    t->remaining = t->size;
    const int caller = cur->caller;
    // tid 0 uses the thread-local storage of its caller
    for (int i = 0; i < t->size; i++) {
        char * tls = tls_for(caller, i);
        fiber * f = new_fiber(caller, tls, [i, &member]() {
            hscope = 0;
            member(i);
            hscope = 1;
        });
        team_ctx c = { t, i, 0 };
        f->ctx.push_back(c);
    }
    if (tls_size)
        memcpy(cur->tls, tls_block, tls_size); // publish, tid 0 shares this block
    fiber * me = cur;
    block_on(t);
    (void) me;
    // all members are done; their stacks can be reused
    for (size_t i = 0; i < all_fibers.size();) {
        fiber * f = all_fibers[i];
        if (f->state == DONE && !f->ctx.empty() && f->ctx.back().team == t) {
            stack_pool.push_back(f->stack);
            delete f;
            all_fibers.erase(all_fibers.begin() + long(i));
        } else {
            ++i;
        }
    }
    delete t;
    hscope = saved;
}

static team_ctx * tc()
{
    return (cur && !cur->ctx.empty()) ? &cur->ctx.back() : nullptr;
}

static void barrier()
{
    team_ctx * c = tc();
    if (!c || c->team->size == 1)
        return;
    int s = hscope;
    hscope = 1;
    team_t * t = c->team;
    t->barrier_waiting++;
    if (t->barrier_waiting == t->size) {
        t->barrier_waiting = 0;
        t->barrier_gen++;
        wake_all(&t->barrier_gen);
    } else {
        block_on(&t->barrier_gen);
    }
    hscope = s;
    sync_point();
}

// locks (critical sections, omp locks, pthread mutexes, static initialisation guards)
static std::map<const void *, int> * lock_owner; // address -> fiber label + 1, or -1 outside
static std::map<const void *, int> * lock_depth;
static void lock_init()
{
    if (!lock_owner) {
        lock_owner = new std::map<const void *, int>();
        lock_depth = new std::map<const void *, int>();
    }
}
static std::vector<uint64_t *> * guards_open;
static void locks_reset()
{
    if (lock_owner) {
        lock_owner->clear();
        lock_depth->clear();
    }
    if (guards_open) {
        for (uint64_t * g : *guards_open)
            ((volatile char *) g)[1] = 0;
        guards_open->clear();
    }
}
static void guard_note(uint64_t * g, bool open)
{
    int s = hscope;
    hscope = 1;
    if (!guards_open)
        guards_open = new std::vector<uint64_t *>();
    if (open)
        guards_open->push_back(g);
    else
        guards_open->erase(std::remove(guards_open->begin(), guards_open->end(), g), guards_open->end());
    hscope = s;
}
static bool lock_try(const void * k, bool recursive)
{
    int s = hscope;
    hscope = 1;
    lock_init();
    const int me = cur ? cur->label + 1 : -1;
    int & o = (*lock_owner)[k];
    bool ok = false;
    if (o == 0 || (recursive && o == me)) {
        o = me;
        (*lock_depth)[k]++;
        ok = true;
    }
    hscope = s;
    return ok;
}
static void lock_take(const void * k, bool recursive = false)
{
    sync_point();
    while (!lock_try(k, recursive)) {
        if (!cur)
            return;
        int s = hscope;
        hscope = 1;
        block_on(k);
        hscope = s;
    }
}
static void lock_drop(const void * k, bool pause = true)
{
    int s = hscope;
    hscope = 1;
    lock_init();
    if (--(*lock_depth)[k] <= 0) {
        lock_owner->erase(k);
        lock_depth->erase(k);
        if (cur)
            wake_all(k);
    }
    hscope = s;
    if (pause)
        sync_point();
}

// work sharing
static workshare & ws_enter(team_ctx * c, bool & first)
{
    workshare & w = c->team->share(c->ws++);
    first = !w.init;
    w.init = true;
    return w;
}

static bool ws_next(team_ctx * c, workshare & w, long * is, long * ie)
{
    const bool up = w.incr > 0;
    if (up ? w.next >= w.end : w.next <= w.end)
        return false;
    long total = up ? (w.end - w.next + w.incr - 1) / w.incr : (w.next - w.end - w.incr - 1) / -w.incr;
    long n = std::max(1l, w.chunk);
    if (w.kind == 1)
        n = std::max(n, total / c->team->size);
    n = std::min(n, total);
    *is = w.next;
    *ie = w.next + n * w.incr;
    if (up ? *ie > w.end : *ie < w.end)
        *ie = w.end;
    w.next += n * w.incr;
    return true;
}

// ======================================================================= disk
struct handle
{
    std::string path;
    size_t pos;
    bool append, writable, open, deferred;
    FILE * fp;
};
static std::map<int, handle> * handles;
static std::map<FILE *, int> * fps;
static int next_fd = 1 << 20;

void disk_drop_handles()
{
    if (handles)
        handles->clear();
    if (fps)
        fps->clear();
}

static void disk_init()
{
    if (!handles) {
        handles = new std::map<int, handle>();
        fps = new std::map<FILE *, int>();
    }
}

static bool in_sim() { return cur && disk_enabled; }
static bool sim_fd(int fd) { return fd >= (1 << 20); }

static long disk_used()
{
    long n = 0;
    for (auto & f : disk.files)
        n += long(f.second.size());
    return n;
}

// returns the fault to apply to this disk call, if any
static fault * due(uint64_t io, std::initializer_list<fault_kind> kinds)
{
    (void) io;
    for (fault & f : faults) {
        if (f.kind == F_NONE || (f.caller >= 0 && f.caller != cur->caller) || f.at > (f.caller < 0 ? n_ios : caller_ios[slot_of(f.caller)]))
            continue;
        for (fault_kind k : kinds)
            if (f.kind == k)
                return &f;
    }
    return nullptr;
}

static uint64_t io_begin()
{
    n_ios++;
    caller_ios[slot_of(cur->caller)]++;
    sim_now_ns += 1000;
    if (fault * f = due(n_ios, { F_CRASH_IO })) {
        st.fired[f->kind]++;
        event("crash_io", n_ios);
        die(CRASHED);
    }
    return n_ios;
}

static int disk_open(const char * path, int flags)
{
    harness_scope h;
    disk_init();
    uint64_t io = io_begin();
    if (fault * f = due(io, { F_OPEN })) {
        st.fired[F_OPEN]++;
        int e = f->arg ? f->arg : EACCES;
        f->kind = F_NONE;
        event("open_fail", uint64_t(e));
        errno = e;
        return -1;
    }
    std::string p(path);
    for (const std::string & d : disk.missing_dirs)
        if (p.compare(0, d.size(), d) == 0) {
            errno = ENOENT;
            return -1;
        }
    const int acc = flags & O_ACCMODE;
    if (acc != O_RDONLY && disk.curtain >= 0 && disk.curtain-- == 0) {
        event("curtain");
        die(CRASHED);
    }
    auto it = disk.files.find(p);
    if (it == disk.files.end()) {
        if (!(flags & O_CREAT)) {
            errno = ENOENT;
            return -1;
        }
        disk.files[p] = std::string();
    } else if ((flags & O_CREAT) && (flags & O_EXCL)) {
        errno = EEXIST;
        return -1;
    } else if ((flags & O_TRUNC) && acc != O_RDONLY) {
        it->second.clear();
    }
    disk.opens++;
    handle hd;
    hd.path = p;
    hd.pos = 0;
    hd.append = (flags & O_APPEND) != 0;
    hd.writable = acc != O_RDONLY;
    hd.open = true;
    hd.deferred = false;
    hd.fp = nullptr;
    int fd = next_fd++;
    (*handles)[fd] = hd;
    event("open");
    event_bytes(p.data(), p.size());
    return fd;
}

static void put(handle & h, const char * b, size_t n)
{
    std::string & c = disk.files[h.path];
    if (h.append)
        h.pos = c.size();
    if (c.size() < h.pos + n)
        c.resize(h.pos + n);
    memcpy(&c[h.pos], b, n);
    h.pos += n;
}

static ssize_t disk_write(int fd, const char * b, size_t n)
{
    harness_scope hs;
    disk_init();
    auto it = handles->find(fd);
    if (it == handles->end()) {
        errno = EBADF;
        return -1;
    }
    handle & h = it->second;
    uint64_t io = io_begin();
    disk.writes++;
    if (fault * f = due(io, { F_CRASH_IO_MID })) {
        st.fired[f->kind]++;
        put(h, b, n * size_t(f->arg & 1023) / 1024);
        event("crash_mid", io);
        die(CRASHED);
    }
    if (n > 1) {
        if (fault * f = due(io, { F_SHORT })) {
            st.fired[F_SHORT]++;
            size_t k = 1 + size_t(f->arg) % (n - 1);
            f->kind = F_NONE;
            event("short", k);
            put(h, b, k);
            return ssize_t(k);
        }
    }
    if (fault * f = due(io, { F_EINTR })) {
        st.fired[F_EINTR]++;
        if (--f->arg <= 0)
            f->kind = F_NONE;
        event("eintr");
        errno = EINTR;
        return -1;
    }
    if (fault * f = due(io, { F_EIO })) {
        st.fired[F_EIO]++;
        if (--f->arg <= 0)
            f->kind = F_NONE;
        event("eio");
        errno = EIO;
        return -1;
    }
    if (fault * f = due(io, { F_ENOSPC })) {
        st.fired[F_ENOSPC]++;
        f->kind = F_NONE;
        disk.capacity = disk_used() + long(n * size_t(f->arg & 1023) / 1024);
        event("enospc");
    }
    if (disk.capacity >= 0) {
        long room = disk.capacity - disk_used();
        if (room <= 0 && n > 0) {
            errno = ENOSPC;
            return -1;
        }
        if (long(n) > room)
            n = size_t(room);
    }
    put(h, b, n);
    event("write", n);
    return ssize_t(n);
}

static int disk_close(int fd)
{
    harness_scope hs;
    disk_init();
    auto it = handles->find(fd);
    if (it == handles->end()) {
        errno = EBADF;
        return -1;
    }
    uint64_t io = io_begin();
    disk.closes++;
    int r = 0;
    if (it->second.writable)
        if (fault * f = due(io, { F_CLOSE })) {
            // a deferred write error: the tail of the file did not reach the disk
            st.fired[F_CLOSE]++;
            f->kind = F_NONE;
            std::string & c = disk.files[it->second.path];
            c.resize(c.size() - std::min(c.size(), size_t(1 + (f->arg & 1023))));
            errno = EIO;
            event("close_error");
            r = -1;
        }
    if (it->second.fp)
        fps->erase(it->second.fp);
    if (it->second.writable)
        disk.finished.push_back(it->second.path);
    int e = errno;
    handles->erase(fd);
    errno = e;
    event("close");
    return r;
}

static ssize_t cookie_write(void * c, const char * b, size_t n)
{
    size_t done = 0;
    while (done < n) {
        ssize_t k = disk_write(int(intptr_t(c)), b + done, n - done);
        if (k < 0)
            return ssize_t(done);
        done += size_t(k);
    }
    return ssize_t(done);
}
static ssize_t disk_read(int fd, char * b, size_t n)
{
    harness_scope hs;
    disk_init();
    auto it = handles->find(fd);
    if (it == handles->end()) {
        errno = EBADF;
        return -1;
    }
    io_begin();
    const std::string & c = disk.files[it->second.path];
    size_t k = it->second.pos >= c.size() ? 0 : std::min(n, c.size() - it->second.pos);
    memcpy(b, c.data() + it->second.pos, k);
    it->second.pos += k;
    return ssize_t(k);
}
static ssize_t cookie_read(void * c, char * b, size_t n) { return disk_read(int(intptr_t(c)), b, n); }
static off_t disk_seek(int fd, off_t o, int whence)
{
    harness_scope hs;
    disk_init();
    auto it = handles->find(fd);
    if (it == handles->end()) {
        errno = EBADF;
        return -1;
    }
    long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? long(it->second.pos) : long(disk.files[it->second.path].size());
    if (base + o < 0) {
        errno = EINVAL;
        return -1;
    }
    it->second.pos = size_t(base + o);
    return off_t(it->second.pos);
}
static int cookie_seek(void * c, off64_t * o, int whence)
{
    off_t r = disk_seek(int(intptr_t(c)), *o, whence);
    if (r < 0)
        return -1;
    *o = r;
    return 0;
}
static int cookie_close(void * c) { return disk_close(int(intptr_t(c))); }

static FILE * disk_fopen(const char * path, const char * mode)
{
    harness_scope hs;
    int flags = 0;
    const bool plus = strchr(mode, '+') != nullptr;
    switch (mode[0]) {
    case 'w':
        flags = O_CREAT | O_TRUNC | (plus ? O_RDWR : O_WRONLY);
        break;
    case 'a':
        flags = O_CREAT | O_APPEND | (plus ? O_RDWR : O_WRONLY);
        break;
    default:
        flags = plus ? O_RDWR : O_RDONLY;
    }
    if (strchr(mode, 'x'))
        flags |= O_EXCL;
    int fd = disk_open(path, flags);
    if (fd < 0)
        return nullptr;
    cookie_io_functions_t io;
    io.read = cookie_read;
    io.write = cookie_write;
    io.seek = cookie_seek;
    io.close = cookie_close;
    FILE * f = fopencookie((void *) intptr_t(fd), mode, io);
    (*handles)[fd].fp = f;
    (*fps)[f] = fd;
    return f;
}

// ======================================================================= clock
static rng clk(7);
static bool clk_up = false;
static uint64_t read_clock()
{
    if (!clk_up) {
        clk = rng(ccfg.seed);
        clk_up = true;
    }
    clock_reads++;
    switch (ccfg.mode) {
    case 0:
        sim_now_ns += 1000;
        break;
    case 1:
        sim_now_ns += clk.next() % 2000000000ull;
        break;
    case 2:
        sim_now_ns += (clk.next() % 5 == 0) ? clk.next() % 86400000000000ull : 50;
        break;
    default:
        break;
    }
    return sim_now_ns;
}

} // namespace sim

using namespace sim;

// ======================================================================= operator new / delete
void * operator new(size_t n) { return sim_new(n, false); }
void * operator new[](size_t n) { return sim_new(n, false); }
void * operator new(size_t n, const std::nothrow_t &) noexcept { return sim_new(n, true); }
void * operator new[](size_t n, const std::nothrow_t &) noexcept { return sim_new(n, true); }
void operator delete(void * p) noexcept { sim_delete(p); }
void operator delete[](void * p) noexcept { sim_delete(p); }
void operator delete(void * p, size_t) noexcept { sim_delete(p); }
void operator delete[](void * p, size_t) noexcept { sim_delete(p); }
void operator delete(void * p, const std::nothrow_t &) noexcept { sim_delete(p); }
void operator delete[](void * p, const std::nothrow_t &) noexcept { sim_delete(p); }

// ======================================================================= instrumentation entry points
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void ** p, void *) { access(p, 8, true); }
void __tsan_vptr_read(void ** p) { access(p, 8, false); }
void __tsan_read_range(void * p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void * p, unsigned long n) { access(p, n, true); }
#define ACC(N) \
    void __tsan_read##N(void * p) { access(p, N, false); } \
    void __tsan_write##N(void * p) { access(p, N, true); } \
    void __tsan_volatile_read##N(void * p) { access(p, N, false); } \
    void __tsan_volatile_write##N(void * p) { access(p, N, true); }
#define UACC(N) \
    void __tsan_unaligned_read##N(void * p) { access(p, N, false); } \
    void __tsan_unaligned_write##N(void * p) { access(p, N, true); } \
    void __tsan_unaligned_volatile_read##N(void * p) { access(p, N, false); } \
    void __tsan_unaligned_volatile_write##N(void * p) { access(p, N, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
UACC(2) UACC(4) UACC(8) UACC(16)

#define ATOMICS(B, T) \
    T __tsan_atomic##B##_load(const volatile T * a, int) { access((const void *) a, sizeof(T), false); return *a; } \
    void __tsan_atomic##B##_store(volatile T * a, T v, int) { access((const void *) a, sizeof(T), true); *a = v; } \
    T __tsan_atomic##B##_exchange(volatile T * a, T v, int) { access((const void *) a, sizeof(T), true); T o = *a; *a = v; return o; } \
    T __tsan_atomic##B##_fetch_add(volatile T * a, T v, int) { access((const void *) a, sizeof(T), true); T o = *a; *a = T(o + v); return o; } \
    T __tsan_atomic##B##_fetch_sub(volatile T * a, T v, int) { access((const void *) a, sizeof(T), true); T o = *a; *a = T(o - v); return o; } \
    T __tsan_atomic##B##_fetch_and(volatile T * a, T v, int) { access((const void *) a, sizeof(T), true); T o = *a; *a = T(o & v); return o; } \
    T __tsan_atomic##B##_fetch_or(volatile T * a, T v, int) { access((const void *) a, sizeof(T), true); T o = *a; *a = T(o | v); return o; } \
    T __tsan_atomic##B##_fetch_xor(volatile T * a, T v, int) { access((const void *) a, sizeof(T), true); T o = *a; *a = T(o ^ v); return o; } \
    T __tsan_atomic##B##_fetch_nand(volatile T * a, T v, int) { access((const void *) a, sizeof(T), true); T o = *a; *a = T(~(o & v)); return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T * a, T * c, T v, int, int) { access((const void *) a, sizeof(T), true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T * a, T * c, T v, int, int) { access((const void *) a, sizeof(T), true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T * a, T c, T v, int, int) { access((const void *) a, sizeof(T), true); T o = *a; if (o == c) *a = v; return o; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
void __tsan_atomic_thread_fence(int) { sync_point(); }
void __tsan_atomic_signal_fence(int) {}

// block operations of the simulated program (renamed in its object files)
void * sim_memcpy(void * d, const void * s, size_t n)
{
    if (n) {
        access(s, n, false);
        access(d, n, true);
    }
    return memcpy(d, s, n);
}
void * sim_memmove(void * d, const void * s, size_t n)
{
    if (n) {
        access(s, n, false);
        access(d, n, true);
    }
    return memmove(d, s, n);
}
void * sim_memset(void * d, int v, size_t n)
{
    if (n)
        access(d, n, true);
    return memset(d, v, n);
}

// ======================================================================= OpenMP runtime
typedef void (*omp_fn)(void *);
void GOMP_parallel(omp_fn fn, void * data, unsigned n, unsigned)
{
    run_team(n, [fn, data](int) {fn(data);}, std::function<void(team_t &)>());
}
static void par_loop(omp_fn fn, void * data, unsigned n, long start, long end, long incr, long chunk, int kind)
{
    run_team(n, [fn, data](int) {
        tc()->ws = 1; // work share 0 was set up for the whole team
        fn(data);
    }, [=](team_t & t) {
        workshare & w = t.share(0);
        w.init = true;
        w.next = start;
        w.end = end;
        w.incr = incr;
        w.chunk = chunk;
        w.kind = kind;
    });
}
#define PAR_LOOP(NAME, KIND) \
    void GOMP_parallel_loop_##NAME(omp_fn fn, void * d, unsigned n, long s, long e, long i, long c, unsigned) { par_loop(fn, d, n, s, e, i, c, KIND); }
PAR_LOOP(static, 0) PAR_LOOP(dynamic, 0) PAR_LOOP(guided, 1) PAR_LOOP(nonmonotonic_dynamic, 0) PAR_LOOP(nonmonotonic_guided, 1)
#define PAR_LOOP_RT(NAME) \
    void GOMP_parallel_loop_##NAME(omp_fn fn, void * d, unsigned n, long s, long e, long i, unsigned) { par_loop(fn, d, n, s, e, i, 1, 0); }
PAR_LOOP_RT(runtime) PAR_LOOP_RT(nonmonotonic_runtime) PAR_LOOP_RT(maybe_nonmonotonic_runtime)

static bool loop_start(long s, long e, long i, long c, int kind, long * is, long * ie)
{
    sync_point();
    team_ctx * t = tc();
    int sv = hscope;
    hscope = 1;
    if (!t) { // orphaned: one thread takes everything
        hscope = sv;
        *is = s;
        *ie = e;
        return i > 0 ? s < e : s > e;
    }
    bool first;
    workshare & w = ws_enter(t, first);
    if (first) {
        w.next = s;
        w.end = e;
        w.incr = i;
        w.chunk = c;
        w.kind = kind;
    }
    bool r = ws_next(t, w, is, ie);
    hscope = sv;
    return r;
}
static bool loop_next(long * is, long * ie)
{
    sync_point();
    team_ctx * t = tc();
    if (!t)
        return false;
    int sv = hscope;
    hscope = 1;
    bool r = ws_next(t, t->team->share(t->ws ? t->ws - 1 : 0), is, ie);
    hscope = sv;
    return r;
}
#define LOOP(NAME, KIND) \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long c, long * is, long * ie) { return loop_start(s, e, i, c, KIND, is, ie); } \
    bool GOMP_loop_##NAME##_next(long * is, long * ie) { return loop_next(is, ie); } \
    bool GOMP_loop_ull_##NAME##_start(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long c, unsigned long * is, unsigned long * ie) { (void) up; return loop_start(long(s), long(e), long(i), long(c), KIND, (long *) is, (long *) ie); } \
    bool GOMP_loop_ull_##NAME##_next(unsigned long * is, unsigned long * ie) { return loop_next((long *) is, (long *) ie); }
LOOP(static, 0) LOOP(dynamic, 0) LOOP(guided, 1) LOOP(nonmonotonic_dynamic, 0) LOOP(nonmonotonic_guided, 1)
#define LOOP_RT(NAME) \
    bool GOMP_loop_##NAME##_start(long s, long e, long i, long * is, long * ie) { return loop_start(s, e, i, 1, 0, is, ie); } \
    bool GOMP_loop_##NAME##_next(long * is, long * ie) { return loop_next(is, ie); }
LOOP_RT(runtime) LOOP_RT(nonmonotonic_runtime) LOOP_RT(maybe_nonmonotonic_runtime)
bool GOMP_loop_ull_runtime_start(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long * is, unsigned long * ie) { (void) up; return loop_start(long(s), long(e), long(i), 1, 0, (long *) is, (long *) ie); }
bool GOMP_loop_ull_runtime_next(unsigned long * is, unsigned long * ie) { return loop_next((long *) is, (long *) ie); }
bool GOMP_loop_ull_nonmonotonic_runtime_start(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long * is, unsigned long * ie) { return GOMP_loop_ull_runtime_start(up, s, e, i, is, ie); }
bool GOMP_loop_ull_nonmonotonic_runtime_next(unsigned long * is, unsigned long * ie) { return loop_next((long *) is, (long *) ie); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_start(bool up, unsigned long s, unsigned long e, unsigned long i, unsigned long * is, unsigned long * ie) { return GOMP_loop_ull_runtime_start(up, s, e, i, is, ie); }
bool GOMP_loop_ull_maybe_nonmonotonic_runtime_next(unsigned long * is, unsigned long * ie) { return loop_next((long *) is, (long *) ie); }
// ordered loops: the first thread to arrive takes all iterations (a chunk as long as the loop)
#define LOOP_ORD(NAME) \
    bool GOMP_loop_ordered_##NAME##_start(long s, long e, long i, long, long * is, long * ie) { return loop_start(s, e, i, 1l << 60, 2, is, ie); } \
    bool GOMP_loop_ordered_##NAME##_next(long * is, long * ie) { return loop_next(is, ie); }
LOOP_ORD(static) LOOP_ORD(dynamic) LOOP_ORD(guided)
void GOMP_loop_end() { barrier(); }
void GOMP_loop_end_nowait() {}
bool GOMP_loop_end_cancel() { barrier(); return false; }
void GOMP_barrier() { barrier(); }
bool GOMP_single_start()
{
    sync_point();
    team_ctx * t = tc();
    if (!t)
        return true;
    int sv = hscope;
    hscope = 1;
    bool first;
    ws_enter(t, first);
    hscope = sv;
    return first;
}
void * GOMP_single_copy_start()
{
    sync_point();
    team_ctx * t = tc();
    if (!t)
        return nullptr;
    int sv = hscope;
    hscope = 1;
    bool first;
    workshare & w = ws_enter(t, first);
    hscope = sv;
    if (first)
        return nullptr;
    barrier();
    return w.copyprivate;
}
void GOMP_single_copy_end(void * data)
{
    team_ctx * t = tc();
    if (t)
        t->team->share(t->ws - 1).copyprivate = data;
    barrier();
}
unsigned GOMP_sections_start(unsigned n)
{
    sync_point();
    team_ctx * t = tc();
    if (!t)
        return n ? 1 : 0;
    int sv = hscope;
    hscope = 1;
    bool first;
    workshare & w = ws_enter(t, first);
    if (first)
        w.section_count = n;
    unsigned r = w.section_next < w.section_count ? ++w.section_next : 0;
    hscope = sv;
    return r;
}
unsigned GOMP_sections_next()
{
    sync_point();
    team_ctx * t = tc();
    if (!t)
        return 0;
    workshare & w = t->team->share(t->ws ? t->ws - 1 : 0);
    return w.section_next < w.section_count ? ++w.section_next : 0;
}
void GOMP_parallel_sections(omp_fn fn, void * data, unsigned n, unsigned count, unsigned)
{
    run_team(n, [fn, data](int) {tc()->ws = 1; fn(data);}, [=](team_t & t) {
        workshare & w = t.share(0);
        w.init = true;
        w.section_count = count;
    });
}
void GOMP_sections_end() { barrier(); }
void GOMP_sections_end_nowait() {}
static int crit_default, atomic_lock;
void GOMP_critical_start() { lock_take(&crit_default); }
void GOMP_critical_end() { lock_drop(&crit_default); }
void GOMP_critical_name_start(void ** p) { lock_take(p); }
void GOMP_critical_name_end(void ** p) { lock_drop(p); }
void GOMP_atomic_start() { lock_take(&atomic_lock); }
void GOMP_atomic_end() { lock_drop(&atomic_lock); }
void GOMP_task(omp_fn fn, void * data, void (*cpy)(void *, void *), long size, long align, bool, unsigned, void **, int)
{
    if (cpy) {
        char * buf = (char *) malloc(size_t(size + align));
        char * p = (char *) ((uintptr_t(buf) + uintptr_t(align) - 1) & ~(uintptr_t(align) - 1));
        cpy(p, data);
        fn(p);
        free(buf);
    } else {
        fn(data);
    }
}
void GOMP_taskloop(omp_fn fn, void * data, void (*cpy)(void *, void *), long size, long align, unsigned, unsigned long, int, long start, long end, long)
{
    // the task function takes its share of the iterations from the first two longs of its data: one task takes all
    std::vector<char> buf;
    char * p = (char *) data;
    if (cpy) {
        int sv = hscope;
        hscope = 1;
        buf.resize(size_t(size + align));
        hscope = sv;
        p = (char *) ((uintptr_t(buf.data()) + uintptr_t(align) - 1) & ~(uintptr_t(align) - 1));
        cpy(p, data);
    }
    ((long *) p)[0] = start;
    ((long *) p)[1] = end;
    fn(p);
    int sv = hscope;
    hscope = 1;
    std::vector<char>().swap(buf);
    hscope = sv;
}
void GOMP_taskwait() { sync_point(); }
void GOMP_taskyield() { sync_point(); }
void GOMP_taskgroup_start() {}
void GOMP_taskgroup_end() { sync_point(); }
void GOMP_ordered_start() { sync_point(); }
void GOMP_ordered_end() { sync_point(); }
bool GOMP_cancel(int, bool) { return false; }
bool GOMP_cancellation_point(int) { return false; }
int omp_get_thread_num() { team_ctx * t = tc(); return t ? t->tid : 0; }
int omp_get_num_threads() { team_ctx * t = tc(); return t ? t->team->size : 1; }
int omp_get_max_threads() { return sim::cfg.mode == SCHED_SERIAL ? 1 : sim::cfg.team; }
int omp_get_num_procs() { return 8; }
int omp_in_parallel() { team_ctx * t = tc(); return t && t->team->size > 1; }
int omp_get_level() { return cur ? int(cur->ctx.size()) : 0; }
void omp_set_num_threads(int) {}
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 1; }
void omp_set_nested(int) {}
int omp_get_nested() { return 0; }
int omp_get_active_level() { return cur && tc() && tc()->team->size > 1 ? 1 : 0; }
int omp_get_max_active_levels() { return 1; }
void omp_set_max_active_levels(int) {}
int omp_get_supported_active_levels() { return 1; }
int omp_get_ancestor_thread_num(int l) { team_ctx * t = tc(); return l == 0 ? 0 : t && cur && l == int(cur->ctx.size()) ? t->tid : -1; }
int omp_get_team_size(int l) { team_ctx * t = tc(); return l == 0 ? 1 : t && cur && l == int(cur->ctx.size()) ? t->team->size : -1; }
int omp_get_cancellation() { return 0; }
int omp_in_final() { return 0; }
int omp_get_num_teams() { return 1; }
int omp_get_team_num() { return 0; }
int omp_get_num_places() { return 0; }
int omp_get_proc_bind() { return 0; }
void omp_set_schedule(int, int) {}
void omp_get_schedule(int * k, int * c) { *k = 2; *c = 1; }
int omp_get_num_devices() { return 0; }
int omp_is_initial_device() { return 1; }
int omp_test_nest_lock(void * l) { sync_point(); return lock_try(l, true); }
int omp_get_thread_limit() { return 64; }
double omp_get_wtime() { return double(read_clock()) * 1e-9; }
double omp_get_wtick() { return 1e-9; }
void omp_init_lock(void *) {}
void omp_destroy_lock(void *) {}
void omp_set_lock(void * l) { lock_take(l); }
void omp_unset_lock(void * l) { lock_drop(l); }
int omp_test_lock(void * l) { sync_point(); return lock_try(l, false); }
void omp_init_nest_lock(void *) {}
void omp_destroy_nest_lock(void *) {}
void omp_set_nest_lock(void * l) { lock_take(l, true); }
void omp_unset_nest_lock(void * l) { lock_drop(l); }

// ======================================================================= pthread and static-init seams
static bool reentrant(const pthread_mutex_t * m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int pthread_mutex_lock(pthread_mutex_t * m) noexcept
{
    lock_take(m, reentrant(m));
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t * m) noexcept { sync_point(); return lock_try(m, reentrant(m)) ? 0 : EBUSY; }
int pthread_mutex_unlock(pthread_mutex_t * m) noexcept { lock_drop(m); return 0; }
int pthread_spin_lock(pthread_spinlock_t * l) noexcept { lock_take((const void *) l); return 0; }
int pthread_spin_trylock(pthread_spinlock_t * l) noexcept { sync_point(); return lock_try((const void *) l, false) ? 0 : EBUSY; }
int pthread_spin_unlock(pthread_spinlock_t * l) noexcept { lock_drop((const void *) l); return 0; }
int pthread_rwlock_rdlock(pthread_rwlock_t * l) noexcept { lock_take(l); return 0; } // readers exclude each other as well: fewer schedules, no false ones
int pthread_rwlock_wrlock(pthread_rwlock_t * l) noexcept { lock_take(l); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t * l) noexcept { lock_drop(l); return 0; }

static void wait_for(const void * key, pthread_mutex_t * m)
{
    lock_drop(m, false); // giving up the lock and waiting is one step
    if (cur) {
        int s = hscope;
        hscope = 1;
        block_on(key);
        hscope = s;
    }
    lock_take(m, reentrant(m));
}
static void wake_up(const void * key)
{
    if (cur) {
        int s = hscope;
        hscope = 1;
        wake_all(key); // a wake-up of more than one is a spurious one for the others, which they must expect
        hscope = s;
    }
    sync_point();
}
int pthread_cond_wait(pthread_cond_t * c, pthread_mutex_t * m)
{
    wait_for(c, m);
    return 0;
}
static int wait_until(pthread_mutex_t * m)
{
    lock_drop(m);
    sync_point();
    lock_take(m, reentrant(m));
    return ETIMEDOUT;
}
int pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t * m, const struct timespec *) { return wait_until(m); }
int pthread_cond_clockwait(pthread_cond_t *, pthread_mutex_t * m, clockid_t, const struct timespec *) { return wait_until(m); }
int pthread_cond_signal(pthread_cond_t * c) noexcept { wake_up(c); return 0; }
int pthread_cond_broadcast(pthread_cond_t * c) noexcept { wake_up(c); return 0; }
int pthread_once(pthread_once_t * o, void (*fn)())
{
    // 0 not yet, 1 running, 2 done
    volatile int * v = (volatile int *) o;
    for (;;) {
        sync_point();
        if (*v == 2)
            return 0;
        if (*v == 0)
            break;
        if (!cur)
            return 0;
        int s = hscope;
        hscope = 1;
        block_on(o);
        hscope = s;
    }
    *v = 1;
    struct settle
    {
        pthread_once_t * o;
        int to = 0;
        ~settle()
        {
            *(volatile int *) o = to;
            wake_up(o);
        }
    } g { o };
    fn();
    g.to = 2;
    return 0;
}

int __cxa_guard_acquire(long long * g)
{
    volatile char * b = (volatile char *) g;
    for (;;) {
        if (b[0])
            return 0;
        if (!b[1]) {
            b[1] = 1;
            if (cur)
                guard_note((uint64_t *) g, true);
            return 1;
        }
        if (!cur)
            abort();
        int s = hscope;
        hscope = 1;
        block_on(g);
        hscope = s;
    }
}
void __cxa_guard_release(long long * g)
{
    volatile char * b = (volatile char *) g;
    b[0] = 1;
    b[1] = 0;
    if (cur) {
        guard_note((uint64_t *) g, false);
        int s = hscope;
        hscope = 1;
        wake_all(g);
        hscope = s;
    }
}
void __cxa_guard_abort(long long * g)
{
    volatile char * b = (volatile char *) g;
    b[1] = 0;
    if (cur) {
        guard_note((uint64_t *) g, false);
        int s = hscope;
        hscope = 1;
        wake_all(g);
        hscope = s;
    }
}

static int pt_next = 1000;
static std::map<pthread_t, fiber *> * pts;
static std::map<pthread_t, bool> * pt_done;
int pthread_create(pthread_t * id, const pthread_attr_t *, void * (*fn)(void *), void * arg) noexcept
{
    if (!cur)
        return EAGAIN;
    harness_scope h;
    if (!pts) {
        pts = new std::map<pthread_t, fiber *>();
        pt_done = new std::map<pthread_t, bool>();
    }
    const int caller = pt_next++;
    char * const tls = tls_for(caller, 0);
    const pthread_t me = pthread_t(uintptr_t(tls));
    (*pt_done)[me] = false;
    fiber * f = new_fiber(caller, tls, [fn, arg, me]() {
        hscope = 0;
        fn(arg);
        hscope = 1;
        (*pt_done)[me] = true;
        wake_all(pt_done);
    });
    (*pts)[me] = f;
    *id = me;
    return 0;
}
int pthread_detach(pthread_t id) noexcept { return cur && pt_done && pt_done->count(id) ? 0 : EINVAL; }
pthread_t pthread_self() noexcept
{
    if (cur)
        return pthread_t(uintptr_t(cur->tls));
    static pthread_t (*real)() = (pthread_t (*)()) dlsym(RTLD_NEXT, "pthread_self");
    return real();
}
int pthread_equal(pthread_t a, pthread_t b) noexcept { return a == b; }
int pthread_join(pthread_t id, void **)
{
    if (!cur || !pt_done || !pt_done->count(id))
        return EINVAL;
    int s = hscope;
    hscope = 1;
    while (!(*pt_done)[id])
        block_on(pt_done);
    hscope = s;
    return 0;
}

// ======================================================================= file system seam
typedef FILE * (*fopen_t)(const char *, const char *);
FILE * fopen(const char * p, const char * m)
{
    if (in_sim())
        return disk_fopen(p, m);
    static fopen_t real = (fopen_t) dlsym(RTLD_NEXT, "fopen");
    return real(p, m);
}
FILE * fopen64(const char * p, const char * m) { return fopen(p, m); }
int fileno(FILE * f) noexcept
{
    if (in_sim() && fps) {
        auto it = fps->find(f);
        if (it != fps->end())
            return it->second;
    }
    static int (*real)(FILE *) = (int (*)(FILE *)) dlsym(RTLD_NEXT, "fileno");
    return real(f);
}
ssize_t write(int fd, const void * b, size_t n)
{
    if (in_sim() && sim_fd(fd))
        return disk_write(fd, (const char *) b, n);
    return syscall(SYS_write, fd, b, n);
}
ssize_t writev(int fd, const struct iovec * v, int c)
{
    if (in_sim() && sim_fd(fd)) {
        // one disk call, applied piecewise
        std::string all;
        {
            harness_scope h;
            for (int i = 0; i < c; i++)
                all.append((const char *) v[i].iov_base, v[i].iov_len);
        }
        ssize_t r = disk_write(fd, all.data(), all.size());
        {
            harness_scope h;
            std::string().swap(all);
        }
        return r;
    }
    return syscall(SYS_writev, fd, v, c);
}
ssize_t read(int fd, void * b, size_t n)
{
    if (in_sim() && sim_fd(fd))
        return disk_read(fd, (char *) b, n);
    return syscall(SYS_read, fd, b, n);
}
int close(int fd)
{
    if (in_sim() && sim_fd(fd))
        return disk_close(fd);
    return int(syscall(SYS_close, fd));
}
off_t lseek(int fd, off_t o, int w) noexcept
{
    if (in_sim() && sim_fd(fd))
        return disk_seek(fd, o, w);
    return syscall(SYS_lseek, fd, o, w);
}
off_t lseek64(int fd, off_t o, int w) noexcept { return lseek(fd, o, w); }
int fsync(int fd)
{
    if (in_sim() && sim_fd(fd)) {
        harness_scope h;
        io_begin();
        return 0;
    }
    return int(syscall(SYS_fsync, fd));
}
int fdatasync(int fd)
{
    if (in_sim() && sim_fd(fd)) {
        harness_scope h;
        io_begin();
        return 0;
    }
    return int(syscall(SYS_fdatasync, fd));
}
int open(const char * p, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    if (in_sim())
        return disk_open(p, flags);
    return int(syscall(SYS_openat, AT_FDCWD, p, flags, mode));
}
int open64(const char * p, int flags, ...)
{
    va_list ap;
    va_start(ap, flags);
    int mode = va_arg(ap, int);
    va_end(ap);
    return open(p, flags, mode);
}
int rename(const char * a, const char * b) noexcept
{
    if (in_sim()) {
        harness_scope h;
        io_begin();
        auto it = disk.files.find(a);
        if (it == disk.files.end()) {
            errno = ENOENT;
            return -1;
        }
        std::string c = it->second;
        disk.files.erase(it);
        disk.files[b] = c;
        for (std::string & n : disk.finished)
            if (n == a)
                n = b;
        event("rename");
        return 0;
    }
    return int(syscall(SYS_rename, a, b));
}
int unlink(const char * a) noexcept
{
    if (in_sim()) {
        harness_scope h;
        io_begin();
        event("unlink");
        if (!disk.files.erase(a)) {
            errno = ENOENT;
            return -1;
        }
        return 0;
    }
    return int(syscall(SYS_unlink, a));
}
int remove(const char * a) noexcept { return unlink(a); }

// ======================================================================= clock seam
int clock_gettime(clockid_t c, struct timespec * ts) noexcept
{
    if (cur) {
        uint64_t n = read_clock();
        ts->tv_sec = time_t(n / 1000000000ull);
        ts->tv_nsec = long(n % 1000000000ull);
        return 0;
    }
    return int(syscall(SYS_clock_gettime, c, ts));
}
int gettimeofday(struct timeval * tv, void *) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}
time_t time(time_t * t) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t)
        *t = ts.tv_sec;
    return ts.tv_sec;
}
// processor time: the library's only measure of its own speed
clock_t clock() noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
    return clock_t(ts.tv_sec) * CLOCKS_PER_SEC + clock_t(ts.tv_nsec / (1000000000 / CLOCKS_PER_SEC));
}
int timespec_get(struct timespec * ts, int base) noexcept
{
    clock_gettime(CLOCK_REALTIME, ts);
    return base;
}
clock_t times(struct tms * t) noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &ts);
    const clock_t c = clock_t(ts.tv_sec) * 100 + clock_t(ts.tv_nsec / 10000000);
    if (t) {
        t->tms_utime = c;
        t->tms_stime = t->tms_cutime = t->tms_cstime = 0;
    }
    return c;
}
int nanosleep(const struct timespec * r, struct timespec * rem)
{
    if (cur) {
        sim_now_ns += uint64_t(r->tv_sec) * 1000000000ull + uint64_t(r->tv_nsec);
        sync_point();
        return 0;
    }
    return int(syscall(SYS_nanosleep, r, rem));
}
int rand() noexcept { static uint64_t x = 12345; x = x * 6364136223846793005ull + 1442695040888963407ull; return int((x >> 33) & 0x7fffffff); }
} // extern "C"

namespace std
{
namespace chrono
{
inline namespace _V2
{
steady_clock::time_point steady_clock::now() noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return time_point(duration(chrono::seconds(ts.tv_sec) + chrono::nanoseconds(ts.tv_nsec)));
}
system_clock::time_point system_clock::now() noexcept
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    return time_point(chrono::duration_cast<duration>(chrono::seconds(ts.tv_sec) + chrono::nanoseconds(ts.tv_nsec)));
}
}
}
}
