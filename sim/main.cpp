// Command line of the simulator.
//   sim campaign PROP TIER FIRST COUNT STRIDE DEADLINE_S GATE [value-binary]
//       runs seeds FIRST, FIRST+STRIDE, ..; every GATE-th seed twice (determinism gate)
//   sim gen PROP TIER SEED            prints the plan
//   sim run PLAN [value-binary] [-rec FILE]   runs a plan (replay), FILE: the plan with its switches made explicit
#include "run.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <signal.h>
#include <sstream>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

static double wall()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}

static std::string escape(const std::string & s)
{
    std::string o;
    for (char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if ((unsigned char) c < 32 || (unsigned char) c > 126) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", (unsigned) (unsigned char) c);
            o += b;
        } else
            o += c;
    }
    return o;
}

static volatile sig_atomic_t stop_now = 0;
static void on_term(int) { stop_now = 1; }

struct pod
{
    bool bad;
    char cls[64], text[1600];
    uint64_t event_hash, sched_hash, state_hash, ops, sim_ns;
    sim::statistics st;
};

// one run in a process of its own; returns 0, or 7 when the harness itself failed
static int isolated(const plan & p, const std::string & vb, pod & r, const std::string & rec)
{
    int fd[2];
    if (pipe(fd))
        return 7;
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid < 0)
        return 7;
    if (pid == 0) {
        signal(SIGTERM, SIG_DFL);
        close(fd[0]);
        struct rlimit l;
        l.rlim_cur = 40;
        l.rlim_max = 45;
        setrlimit(RLIMIT_CPU, &l);
        l.rlim_cur = l.rlim_max = 0;
        setrlimit(RLIMIT_CORE, &l);
        int null = open("/dev/null", O_RDWR);
        dup2(null, 0);
        dup2(null, 1);
        const result x = execute(p, vb);
        pod o;
        memset(&o, 0, sizeof o);
        o.bad = x.bad;
        strncpy(o.cls, x.cls.c_str(), sizeof o.cls - 1);
        strncpy(o.text, x.text.c_str(), sizeof o.text - 1);
        o.event_hash = x.event_hash;
        o.sched_hash = x.sched_hash;
        o.state_hash = x.state_hash;
        o.ops = x.ops;
        o.sim_ns = x.sim_ns;
        o.st = x.st;
        if (!rec.empty()) {
            plan q = p;
            q.explicit_sched = true;
            q.switches = x.switches;
            std::ofstream f(rec.c_str());
            f << to_text(q);
        }
        ssize_t n = write(fd[1], &o, sizeof o);
        _exit(n == ssize_t(sizeof o) ? 0 : 7);
    }
    close(fd[1]);
    memset(&r, 0, sizeof r);
    size_t got = 0;
    while (got < sizeof r) {
        ssize_t n = read(fd[0], (char *) &r + got, sizeof r - got);
        if (n <= 0)
            break;
        got += size_t(n);
    }
    close(fd[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    if (WIFSIGNALED(status)) {
        memset(&r, 0, sizeof r);
        r.bad = true;
        const int s = WTERMSIG(status);
        strcpy(r.cls, s == SIGXCPU || s == SIGKILL ? "hang" : "signal");
        snprintf(r.text, sizeof r.text, "the simulated process was killed by signal %d (%s)", s, strsignal(s));
        return s == SIGKILL ? 7 : 0;
    }
    return WIFEXITED(status) && WEXITSTATUS(status) == 0 && got == sizeof r ? 0 : 7;
}

static std::string slurp(const char * f)
{
    std::ifstream i(f);
    std::ostringstream s;
    s << i.rdbuf();
    return s.str();
}

int main(int c, char ** v)
{
    // identical addresses in every process
    const int pers = personality(0xffffffff);
    if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
        personality((unsigned long) pers | ADDR_NO_RANDOMIZE);
        setenv("SIM_REEXEC", "1", 1);
        execv("/proc/self/exe", v);
    }
    if (c < 2)
        return 7;
    const std::string mode = v[1];
    if (mode == "gen" && c >= 5) {
        std::cout << to_text(generate(v[2], strtoull(v[4], nullptr, 10), atoi(v[3])));
        return 0;
    }
    if (mode == "run" && c >= 3) {
        std::string rec, vb;
        for (int i = 3; i < c; i++)
            if (!strcmp(v[i], "-rec") && i + 1 < c)
                rec = v[++i];
            else
                vb = v[i];
        const plan p = from_text(slurp(v[2]));
        pod r;
        if (isolated(p, vb, r, rec))
            return 7;
        printf("{\"bad\": %s, \"cls\": \"%s\", \"text\": \"%s\", \"event_hash\": \"%016llx\", \"ops\": %llu, \"switches\": %llu}\n", r.bad ? "true" : "false", r.cls, escape(r.text).c_str(),
            (unsigned long long) r.event_hash, (unsigned long long) r.ops, (unsigned long long) r.st.switches);
        return r.bad ? 1 : 0;
    }
    if (mode == "campaign" && c >= 9) {
        const std::string prop = v[2];
        const int tier = atoi(v[3]);
        const uint64_t first = strtoull(v[4], nullptr, 10), count = strtoull(v[5], nullptr, 10), stride = strtoull(v[6], nullptr, 10);
        const double deadline = wall() + atof(v[7]);
        const uint64_t gate = strtoull(v[8], nullptr, 10);
        const std::string vb = c > 9 ? v[9] : "";
        signal(SIGTERM, on_term);
        std::set<uint64_t> scheds, states;
        uint64_t runs = 0, gated = 0, mismatch = 0, bad = 0, ops = 0, ns = 0, lost = 0, faulty = 0;
        sim::statistics S;
        memset(&S, 0, sizeof S);
        std::string samples;
        std::map<std::string, int> per_class;
        for (uint64_t k = 0; k < count && wall() < deadline && !stop_now; k++) {
            const uint64_t seed = first + k * stride;
            const plan p = generate(prop, seed, tier);
            pod r, q;
            if (isolated(p, vb, r, "")) {
                if (stop_now)
                    break;
                lost++;
                fprintf(stderr, "seed %llu: harness failure (%s)\n", (unsigned long long) seed, r.text);
                continue;
            }
            if (gate && k % gate == 0) {
                gated++;
                if (isolated(p, vb, q, "") || q.event_hash != r.event_hash || q.bad != r.bad || strcmp(q.cls, r.cls) || q.state_hash != r.state_hash) {
                    mismatch++;
                    fprintf(stderr, "seed %llu: not deterministic\n", (unsigned long long) seed);
                }
            }
            runs++;
            ops += r.ops;
            ns += r.sim_ns;
            scheds.insert(r.sched_hash);
            states.insert(r.state_hash);
            uint64_t f = 0;
            for (int i = 0; i < sim::F_KINDS; i++) {
                S.fired[i] += r.st.fired[i];
                f += r.st.fired[i];
            }
            faulty += f > 0;
            S.switches += r.st.switches;
            S.regions += r.st.regions;
            S.steps += r.st.steps;
            S.conflicts += r.st.conflicts;
            S.allocs += r.st.allocs;
            S.ios += r.st.ios;
            S.tasks += r.st.tasks;
            if (r.st.teams_max > S.teams_max)
                S.teams_max = r.st.teams_max;
            for (int i = 0; i < 32; i++)
                S.probe[i] += r.st.probe[i];
            if (r.bad) {
                bad++;
                if (per_class[r.cls]++ < 3)
                    printf("V %llu %s %s\n", (unsigned long long) seed, r.cls, escape(r.text).c_str());
                fflush(stdout);
            }
            if (samples.size() < 4000 && (k % 97 == 0)) {
                char b[300];
                snprintf(b, sizeof b, "%s{\"seed\": %llu, \"calls\": %llu, \"switches\": %llu, \"faults\": %llu, \"teams\": %llu}", samples.empty() ? "" : ", ", (unsigned long long) seed, (unsigned long long) r.ops,
                    (unsigned long long) r.st.switches, (unsigned long long) f, (unsigned long long) r.st.teams_max);
                samples += b;
            }
            if (bad >= 40)
                break; // enough to work with
        }
        printf("J {\"runs\": %llu, \"gated\": %llu, \"mismatch\": %llu, \"lost\": %llu, \"bad\": %llu, \"ops\": %llu, \"sim_ns\": %llu, \"faulty_runs\": %llu, \"switches\": %llu, \"regions\": %llu, \"steps\": %llu, \"conflicts\": %llu, "
               "\"allocs\": %llu, \"ios\": %llu, \"tasks\": %llu, \"teams_max\": %llu", (unsigned long long) runs, (unsigned long long) gated, (unsigned long long) mismatch, (unsigned long long) lost, (unsigned long long) bad,
            (unsigned long long) ops, (unsigned long long) ns, (unsigned long long) faulty, (unsigned long long) S.switches, (unsigned long long) S.regions, (unsigned long long) S.steps, (unsigned long long) S.conflicts,
            (unsigned long long) S.allocs, (unsigned long long) S.ios, (unsigned long long) S.tasks, (unsigned long long) S.teams_max);
        printf(", \"fired\": {");
        for (int i = 1; i < sim::F_KINDS; i++)
            printf("%s\"%s\": %llu", i > 1 ? ", " : "", sim::fault_name[i], (unsigned long long) S.fired[i]);
        printf("}, \"probe\": [");
        for (int i = 0; i < 32; i++)
            printf("%s%llu", i ? ", " : "", (unsigned long long) S.probe[i]);
        printf("], \"samples\": [%s]", samples.c_str());
        printf(", \"scheds\": \"");
        for (uint64_t x : scheds)
            printf("%016llx", (unsigned long long) x);
        printf("\", \"states\": \"");
        for (uint64_t x : states)
            printf("%016llx", (unsigned long long) x);
        printf("\"}\n");
        return 0;
    }
    fprintf(stderr, "usage\n");
    return 7;
}
