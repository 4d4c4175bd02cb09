#include "run.h"
#include "model.h"
#include "state.h"
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <signal.h>
#include <sys/resource.h>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;
typedef std::vector<arr> states;

namespace
{

// probes: rare situations worth counting (index into statistics::probe)
enum { P_RETRY = 0, P_REFUSED, P_CRASH, P_RESTART, P_DIRECTED, P_CONFLICT, P_LONG, P_CREATED, P_CLASH, P_MISSING, P_FAILED_CREATE, P_KEPT, P_ACK, P_TORN, P_EXPORT_FAIL, P_EXPORT_OK, P_VALUE_BUILD, P_ILL, P_EXAMPLE, P_EXAMPLE_END, P_EXAMPLE_OPEN };

struct violation
{
    std::string cls, text;
};
[[noreturn]] void fail(const std::string & cls, const char * f, ...) __attribute__((format(printf, 2, 3)));
void fail(const std::string & cls, const char * f, ...)
{
    char b[1500];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    violation v;
    v.cls = cls;
    v.text = b;
    throw v;
}

result R;                // of this process
const plan * P;
std::string value_bin;
uint64_t phase_sched = 0; // schedules of the processes of a whole program

void mix(uint64_t v)
{
    R.state_hash ^= v;
    R.state_hash *= 1099511628211ull;
    R.state_hash ^= R.state_hash >> 31;
}

std::string title(const step & o)
{
    char b[200];
    snprintf(b, sizeof b, "call %d (%s)", o.id, o.kind.c_str());
    return b;
}

const sched_cfg & serial()
{
    static sched_cfg c;
    c.mode = SCHED_SERIAL;
    return c;
}

void must(const outcome & o, const char * what)
{
    if (o.kind != OK)
        fail("unexpected_failure", "%s ended with %s: %s", what, outcome_name[o.kind], o.what.c_str());
}

// variables a call writes
std::vector<int> outputs(const step & o)
{
    std::vector<int> v;
    const std::string & k = o.kind;
    if (k == "euler" || k == "maxwell")
        v.push_back(o.v[1]);
    else if (k == "lorentz" || k == "rk1")
        v.push_back(o.v[2]);
    else if (k == "current")
        v.push_back(o.v.back());
    else if (k == "rk3")
        v.push_back(o.v[size_t(2 + o.d[0])]);
    else if (k == "adv")
        v.push_back(o.v[size_t(1 + o.d[0])]);
    else if (k == "write" || k == "clock" || k == "set" || k == "work")
        ;
    else
        v = o.v;
    return v;
}

// ------------------------------------------------------------------ lanes
struct counts
{
    uint64_t allocs = 0, ios = 0, steps = 0;
};

arr blank(const arr & like)
{
    arr a = like;
    std::fill(a.a.begin(), a.a.end(), 0.);
    return a;
}

struct lane
{
    int index = 0;               // 0 reference, 1 subject
    int w = 0;                   // world
    api::world * world = nullptr;
    disk_state dsk;
    states S;
    std::set<int> made;          // variables that exist, as far as the history tells
    double time = 0, dt = 0;
    sched_cfg sched;

    void start(int idx, int which, const sched_cfg & sc)
    {
        index = idx;
        w = which;
        sched = sc;
        api::world ** slot = &world;
        const api::gridcfg * g = &P->grids[size_t(which)];
        must(run1([slot, g]() {*slot = api::make(*g);}, 0, index * 16, serial()), "creating a grid and a variable manager");
        snapshot();
    }
    void stop()
    {
        if (!world)
            return;
        api::world * x = world;
        world = nullptr;
        must(run1([x]() {api::destroy(x);}, 0, index * 16 + 1, serial()), "destroying a variable manager");
    }
    // state of all variables of the plan
    void snapshot()
    {
        const size_t n = P->vars.size();
        std::vector<api::layout> L(n);
        std::vector<char> ok(n, 0);
        api::world * x = world;
        double * t = &time, * d = &dt;
        std::vector<char> ask(n, 0);
        for (int v : made)
            ask[size_t(v)] = 1;
        outcome o = run1([&L, &ok, &ask, x, n, t, d]() {
            for (size_t i = 0; i < n; i++) {
                if (!ask[i])
                    continue;
                try {
                    api::look(x, P->vars[i], L[i]);
                    ok[i] = 1;
                } catch (const std::exception &) {
                    ok[i] = 0;
                }
            }
            *t = api::get_time(x);
            *d = api::get_dt(x);
        }, 0, index * 16 + 2, serial());
        must(o, "reading the variables");
        S.assign(n, arr());
        for (size_t i = 0; i < n; i++)
            if (ok[i]) {
                if (!sane(L[i], P->grids[size_t(w)], P->vars[i]))
                    fail("shape", "variable '%s' does not have the shape of the grid", P->vars[i].name.c_str());
                S[i] = read_layout(L[i]);
            }
    }
    void write(int v, const arr & a)
    {
        api::layout L;
        api::world * x = world;
        must(run1([&L, x, v]() {api::look(x, P->vars[size_t(v)], L);}, 0, index * 16 + 3, serial()), "looking up a variable");
        if (!sane(L, P->grids[size_t(w)], P->vars[size_t(v)]))
            fail("shape", "variable '%s' does not have the shape of the grid", P->vars[size_t(v)].name.c_str());
        write_layout(L, a);
    }
    void restore(const states & to)
    {
        for (size_t i = 0; i < to.size(); i++)
            if (to[i].present)
                write(int(i), to[i]);
            else if (S[i].present)
                write(int(i), blank(S[i]));
        snapshot();
    }
    // harness work on data
    bool local(const step & o)
    {
        if (o.kind != "set")
            return false;
        const int v = o.v[0];
        if (!S[size_t(v)].present)
            return true;
        arr a = S[size_t(v)];
        set_values(a, o.x.empty() ? 1.4 : o.x[0], o.d[0], uint64_t(o.d[1]));
        write(v, a);
        snapshot();
        return true;
    }
    outcome call(const step & o, int pass, const sched_cfg & sc, const std::vector<fault> & f)
    {
        api::world * x = world;
        std::swap(disk, dsk);
        outcome r = run1([x, &o]() {api::exec(x, o, P->vars);}, o.id, pass, sc, f);
        std::swap(disk, dsk);
        R.ops++;
        // a call that failed may have created what it was to write
        for (int v : outputs(o))
            made.insert(v);
        return r;
    }
};

bool has(const std::vector<int> & v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }

// everything not in `may` is as before
void unchanged(const step & o, const states & a, const states & b, const std::vector<int> & may, const char * cls)
{
    for (size_t i = 0; i < a.size(); i++) {
        if (has(may, int(i)))
            continue;
        if (!a[i].present && b[i].present && has(o.v, int(i)))
            continue; // created by the call
        const std::string d = first_difference(a[i], b[i]);
        if (!d.empty())
            fail(cls, "%s changed '%s', which it does not write: %s", title(o).c_str(), P->vars[i].name.c_str(), d.c_str());
    }
}

std::vector<fault> faults_for(const step & o, int attempt, const counts & c)
{
    std::vector<fault> r;
    for (const pfault & f : P->faults) {
        if (f.op != o.id || f.attempt != attempt)
            continue;
        fault x;
        x.kind = fault_kind(f.kind);
        x.arg = f.arg;
        x.caller = f.caller;
        x.at = f.at;
        if (f.frac) {
            const uint64_t len = f.kind == F_ALLOC ? c.allocs : f.kind == F_CRASH_STEP ? c.steps : c.ios;
            if (!len)
                continue;
            x.at = 1 + f.at * len / 1000001ull;
        }
        r.push_back(x);
    }
    return r;
}

bool pseudo(const step & o) { return o.kind == "set" || o.kind == "mark" || o.kind == "check" || o.kind == "exch"; }

void check_alive(const step & o, const outcome & r)
{
    if (r.kind == BUDGET)
        fail("no_progress", "%s did not end within its step budget", title(o).c_str());
    if (r.kind == DEADLOCK)
        fail("deadlock", "%s: all threads wait for each other", title(o).c_str());
}

struct hooks
{
    bool compare_ref = false;     // wants the reference lane in any case
    // before / after states; `failed`: ended with an exception caused by a fault
    std::function<void(size_t, const step &, const states &, lane &, const outcome &, bool)> after;
    std::function<bool(const step &, const states &, const outcome &)> allowed; // exceptions that are right without a fault
    std::function<void(const step &, lane &)> local;
    std::vector<states> ref;      // reference state after each step of the plan
    std::vector<counts> ref_counts;
    std::vector<disk_state> ref_disk;
};

// drives the history through a reference lane (serial, undisturbed) and the subject lane
void history(hooks & h, lane & ref, lane & sut, const sched_cfg & sc)
{
    const plan & p = *P;
    bool need_ref = h.compare_ref;
    for (const pfault & f : p.faults)
        need_ref |= f.frac;
    const bool fresh = h.ref.empty();
    if (need_ref && fresh)
        ref.start(0, 0, serial());
    sut.start(1, 0, sc);
    h.ref.resize(p.ops.size());
    h.ref_counts.resize(p.ops.size());
    size_t done = 0; // steps the reference lane has executed
    std::map<int, int> attempts;
    for (size_t i = 0; i < p.ops.size();) {
        const step & o = p.ops[i];
        if (need_ref && fresh && i >= done) {
            if (o.kind == "set")
                ref.local(o);
            else if (!pseudo(o)) {
                outcome r = ref.call(o, 0, serial(), std::vector<fault>());
                check_alive(o, r);
                h.ref_counts[i].allocs = op_allocs();
                h.ref_counts[i].ios = op_ios();
                h.ref_counts[i].steps = op_steps();
                const bool ok = h.allowed && h.allowed(o, ref.S, r);
                if (r.kind != OK && !ok)
                    fail("unexpected_failure", "%s ended with %s without any fault: %s", title(o).c_str(), outcome_name[r.kind], r.what.c_str());
                ref.snapshot();
            }
            h.ref[i] = ref.S;
            done = i + 1;
        }
        if (o.kind == "set") {
            sut.local(o);
            i++;
            continue;
        }
        if (pseudo(o)) {
            if (h.local)
                h.local(o, sut);
            i++;
            continue;
        }
        const states before = sut.S;
        const double t = sut.time, dt = sut.dt;
        const int attempt = attempts[o.group];
        sched_cfg c = sc;
        outcome r = sut.call(o, 16 + std::min(attempt, 15), c, faults_for(o, attempt, h.ref_counts[i]));
        const uint64_t hard = op_fired_hard();
        check_alive(o, r);
        if (sut.dsk.capacity >= 0 && r.kind != OK)
            sut.dsk.capacity = -1; // space is made before the next attempt
        bool failed = false;
        if (r.kind != OK) {
            const bool fine = h.allowed && h.allowed(o, before, r);
            if (!fine && !hard)
                fail("unexpected_failure", "%s ended with %s without any fault: %s", title(o).c_str(), outcome_name[r.kind], r.what.c_str());
            failed = !fine;
        }
        sut.snapshot();
        if (o.kind != "clock" && (memcmp(&t, &sut.time, 8) || memcmp(&dt, &sut.dt, 8)))
            fail("clock", "%s changed the simulation time or time step", title(o).c_str());
        if (h.after)
            h.after(i, o, before, sut, r, failed);
        if (failed) {
            st.probe[P_RETRY]++;
            if (++attempts[o.group] > 8)
                fail("no_progress", "%s still fails after 8 attempts", title(o).c_str());
            while (i > 0 && p.ops[i - 1].group == o.group)
                i--;
            continue;
        }
        i++;
    }
    for (const arr & a : sut.S)
        for (double v : a.a) {
            uint64_t b;
            memcpy(&b, &v, 8);
            mix(b);
        }
}

// ------------------------------------------------------------------ C01
void run_C01()
{
    hooks h;
    h.compare_ref = true;
    lane ref, sut;
    sched_cfg sc = P->sched;
    sc.record_conflicts = true;
    h.after = [&](size_t i, const step & o, const states & before, lane & s, const outcome &, bool) {
        auto compare = [&](const char * how) {
            for (size_t v = 0; v < s.S.size(); v++) {
                const std::string d = first_difference(h.ref[i][v], s.S[v]);
                if (!d.empty())
                    fail("schedule", "%s leaves other values in '%s' on one thread than on %d threads%s: %s", title(o).c_str(), P->vars[v].name.c_str(), P->sched.team, how, d.c_str());
            }
            unchanged(o, before, s.S, outputs(o), "input_changed");
        };
        compare("");
        if (conflict_count()) {
            st.probe[P_CONFLICT]++;
            // threads met on the same locations: steer the schedule to them
            for (int t = 0; t < 4; t++) {
                const states now = s.S;
                s.restore(before);
                sched_cfg d = sc;
                d.mode = SCHED_DIRECTED;
                d.record_conflicts = false;
                d.seed = sc.seed + uint64_t(t) * 7919;
                outcome r = s.call(o, 32 + t, d, std::vector<fault>());
                check_alive(o, r);
                if (r.kind != OK)
                    fail("unexpected_failure", "%s ended with %s without any fault: %s", title(o).c_str(), outcome_name[r.kind], r.what.c_str());
                s.snapshot();
                st.probe[P_DIRECTED]++;
                compare(" (steered)");
            }
            clear_conflicts();
        }
    };
    history(h, ref, sut, sc);
}

// ------------------------------------------------------------------ C02
struct total
{
    int kind;
    bool wall;
    double c;
    std::vector<double> sum, size;
    int age;
};
void totals(const arr & a, std::vector<double> & sum, std::vector<double> & size)
{
    sum.assign(size_t(a.nc), 0.);
    size.assign(size_t(a.nc), 0.);
    std::vector<long double> s(size_t(a.nc), 0.L);
    interior(a, [&](int i, int j, int k) {
        for (int m = 0; m < a.nc; m++) {
            s[size_t(m)] += a(i, j, k, m);
            size[size_t(m)] = std::max(size[size_t(m)], std::fabs(a(i, j, k, m)));
        }
    });
    for (size_t m = 0; m < s.size(); m++)
        sum[m] = double(s[m]);
}
void run_C02()
{
    std::map<int, total> T;
    hooks h;
    lane ref, sut;
    h.local = [&](const step & o, lane & s) {
        if (o.kind == "mark") {
            total t;
            t.kind = o.d[0];
            t.wall = o.d[1] != 0;
            t.c = o.x[0];
            t.age = 0;
            totals(s.S[size_t(o.v[0])], t.sum, t.size);
            T[o.v[0]] = t;
        } else if (o.kind == "check") {
            auto it = T.find(o.v[0]);
            if (it == T.end())
                return;
            total & t = it->second;
            const arr & a = s.S[size_t(o.v[0])];
            std::vector<double> sum, size;
            totals(a, sum, size);
            t.age++;
            double all = 0;
            for (size_t m = 0; m < size.size(); m++) {
                t.size[m] = std::max(t.size[m], size[m]);
                all = std::max(all, t.size[m]);
            }
            for (int m = 0; m < a.nc; m++) {
                if (t.kind == 0 && t.wall && m >= 1 && m <= 3)
                    continue;
                const double scale = t.kind == 2 ? t.size[size_t(m)] : all * (t.kind == 1 ? 1 + t.c * t.c : 1.);
                const double tol = 1e-12 * 2. * double(a.cells()) * (scale + 1e-300) * double(t.age + 1);
                const double d = sum[size_t(m)] - t.sum[size_t(m)];
                if (!std::isfinite(sum[size_t(m)]) || std::fabs(d) > tol)
                    fail("conservation", "total of component %d of '%s' went from %.17g to %.17g in %d steps (tolerance %.3g)", m, P->vars[size_t(o.v[0])].name.c_str(), t.sum[size_t(m)], sum[size_t(m)],
                        t.age, tol);
            }
        } else if (o.kind == "exch") {
            // work on the fluids + eps0 E . dE/dt = 0, cell by cell
            const size_t nf = o.v.size() - 2;
            const arr & q = s.S[size_t(o.v[nf])], & r = s.S[size_t(o.v[nf + 1])];
            interior(q, [&](int i, int j, int k) {
                double w = 0, sc = 0;
                for (size_t f = 0; f < nf; f++) {
                    const double x = s.S[size_t(o.v[f])](i, j, k, 4);
                    w += x;
                    sc += std::fabs(x);
                }
                for (int a = 0; a < 3; a++) {
                    const double x = o.x[0] * q(i, j, k, a) * r(i, j, k, a);
                    w += x;
                    sc += std::fabs(x);
                    // the parts may cancel within each term
                    sc += std::fabs(q(i, j, k, a)) * 1e-2;
                }
                if (!(std::fabs(w) <= 1e-10 * (sc + 1)))
                    fail("exchange", "in cell (%d,%d,%d) the fluids gain energy at a rate that differs from the loss of the field by %.3g", i, j, k, w);
            });
        }
    };
    history(h, ref, sut, P->sched);
}

// ------------------------------------------------------------------ C03
long first_mismatch(const arr & a, const arr & b)
{
    for (size_t i = 0; i < a.a.size(); i++)
        if (a.a[i] != b.a[i] && !(std::isnan(a.a[i]) && std::isnan(b.a[i])))
            return long(i);
    return -1;
}
void run_C03()
{
    hooks h;
    lane ref, sut;
    h.after = [&](size_t, const step & o, const states & before, lane & s, const outcome &, bool failed) {
        if (failed) {
            unchanged(o, before, s.S, outputs(o), "failed_call_effect");
            return;
        }
        if (o.kind == "clock") {
            if (s.time != o.x[0] || s.dt != o.x[1])
                fail("clock", "%s: time and time step are not what was set", title(o).c_str());
            unchanged(o, before, s.S, std::vector<int>(), "side_effect");
            return;
        }
        if (is_bc(o.kind)) {
            // interior cells stay; ghost cells are the subject of C04
            for (size_t v = 0; v < before.size(); v++) {
                if (!has(o.v, int(v)) || !before[v].present)
                    continue;
                interior(before[v], [&](int i, int j, int k) {
                    for (int m = 0; m < before[v].nc; m++) {
                        const double x = before[v](i, j, k, m), y = s.S[v](i, j, k, m);
                        if (memcmp(&x, &y, 8))
                            fail("side_effect", "%s changed interior cell (%d,%d,%d) of '%s'", title(o).c_str(), i, j, k, P->vars[v].name.c_str());
                    }
                });
            }
            unchanged(o, before, s.S, o.v, "side_effect");
            return;
        }
        if (!model_knows(o.kind)) {
            unchanged(o, before, s.S, outputs(o), "side_effect");
            return;
        }
        // storage the call itself created began with zeros; the other variables an integrator may
        // have created are not read in this stage
        states start = before;
        for (int v : o.v)
            if (!start[size_t(v)].present)
                start[size_t(v)] = blank(s.S[size_t(has(outputs(o), v) ? v : outputs(o)[0])]);
        const modelled m = model_step(o, P->grids[0], start, s.dt);
        for (size_t x = 0; x < m.out.size(); x++) {
            const expectation & e = m.expect[x];
            const arr & got = s.S[size_t(m.out[x])];
            if (e.exact && first_mismatch(got, e.value) >= 0) // filling and swapping include the ghost cells
                fail("model", "%s: value %ld of the storage of '%s' is %.17g instead of %.17g", title(o).c_str(), first_mismatch(got, e.value), P->vars[size_t(m.out[x])].name.c_str(), got.a[size_t(first_mismatch(got, e.value))], e.value.a[size_t(first_mismatch(got, e.value))]);
            interior(got, [&](int i, int j, int k) {
                for (int c = 0; c < got.nc; c++) {
                    const double y = got(i, j, k, c), want = e.value(i, j, k, c), sc = e.scale[e.value.at(i, j, k, c)];
                    if (std::isnan(sc)) {
                        st.probe[P_ILL]++;
                        continue;
                    }
                    bool ok;
                    if (e.exact)
                        ok = y == want || memcmp(&y, &want, 8) == 0;
                    else if (!std::isfinite(want))
                        ok = true;
                    else
                        ok = std::fabs(y - want) <= 1e-10 * sc + 1e-290;
                    if (!ok)
                        fail("model", "%s: cell (%d,%d,%d) component %d of '%s' is %.17g, the scheme gives %.17g (scale %.3g)", title(o).c_str(), i, j, k, c, P->vars[size_t(m.out[x])].name.c_str(), y, want, sc);
                }
            });
        }
        unchanged(o, before, s.S, m.out, "side_effect");
    };
    history(h, ref, sut, P->sched);
}

// ------------------------------------------------------------------ C04
void run_C04()
{
    hooks h;
    lane ref, sut;
    h.after = [&](size_t, const step & o, const states & before, lane & s, const outcome &, bool failed) {
        if (!is_bc(o.kind)) {
            if (o.kind == "touch" || o.kind == "swap")
                unchanged(o, before, s.S, outputs(o), "side_effect");
            return;
        }
        const std::vector<bc_expect> E = model_bc(o, before);
        for (const bc_expect & e : E) {
            const arr & b = before[size_t(e.var)], & a = s.S[size_t(e.var)];
            if (a.g != b.g || a.nd != b.nd || a.a.size() != b.a.size())
                fail("shape", "%s changed the shape of '%s'", title(o).c_str(), P->vars[size_t(e.var)].name.c_str());
            const int G = a.g;
            for (int i = -G; i < a.n[0] + G; i++)
                for (int j = (a.nd > 1 ? -G : 0); j < (a.nd > 1 ? a.n[1] + G : 1); j++)
                    for (int k = (a.nd > 2 ? -G : 0); k < (a.nd > 2 ? a.n[2] + G : 1); k++) {
                        const int c[3] = { i, j, k };
                        int outside = 0, dir = -1;
                        for (int d = 0; d < a.nd; d++)
                            if (c[d] < 0 || c[d] >= a.n[d]) {
                                outside++;
                                dir = d;
                            }
                        if (outside > 1)
                            continue; // edges and corners: not specified
                        for (int m = 0; m < a.nc; m++) {
                            const size_t at = a.at(i, j, k, m);
                            const double x = b.a[at], y = a.a[at];
                            if (!e.face[at]) {
                                if (memcmp(&x, &y, 8))
                                    fail("side_effect", "%s changed %s cell (%d,%d,%d) component %d of '%s' from %.17g to %.17g", title(o).c_str(), outside ? "ghost" : "interior", i, j, k, m,
                                        P->vars[size_t(e.var)].name.c_str(), x, y);
                                continue;
                            }
                            if (failed)
                                continue;
                            const double want = e.value.a[at];
                            const bool ok = y == want || (std::isnan(want) && std::isnan(y));
                            if (!ok)
                                fail("image", "%s: ghost cell (%d,%d,%d) of direction %d, component %d of '%s' is %.17g instead of %.17g", title(o).c_str(), i, j, k, dir, m, P->vars[size_t(e.var)].name.c_str(), y,
                                    want);
                        }
                    }
        }
        unchanged(o, before, s.S, o.v, "side_effect");
    };
    history(h, ref, sut, P->sched);
}

// ------------------------------------------------------------------ C05
bool exportable(const step & o, const states & S, std::string & why)
{
    for (int v : o.v) {
        if (P->vars[size_t(v)].basis != "va") {
            why = "a basis that cannot be exported";
            return false;
        }
        if (!S[size_t(v)].present) {
            why = "a variable that does not exist";
            return false;
        }
    }
    return true;
}
void run_C05()
{
    hooks h;
    lane ref, sut;
    h.allowed = [&](const step & o, const states & S, const outcome & r) {
        std::string why;
        return o.kind == "write" && r.kind == EXC_QK && !exportable(o, S, why);
    };
    h.after = [&](size_t, const step & o, const states & before, lane & s, const outcome & r, bool failed) {
        if (o.kind != "write")
            return;
        unchanged(o, before, s.S, std::vector<int>(), "export_changed_data");
        std::string why;
        if (!exportable(o, before, why)) {
            if (r.kind == OK)
                fail("export_accepted", "%s lists %s, but reported success", title(o).c_str(), why.c_str());
            st.probe[P_REFUSED]++;
            return;
        }
        if (failed) {
            st.probe[P_EXPORT_FAIL]++;
            return;
        }
        auto it = s.dsk.files.find(o.s);
        if (it == s.dsk.files.end())
            fail("export_missing", "%s reported success, but there is no file '%s'", title(o).c_str(), o.s.c_str());
        const std::string bad = check_vtk(it->second, P->grids[0], P->vars, o.v, before);
        if (!bad.empty())
            fail("export_content", "%s reported success, but the file is wrong: %s", title(o).c_str(), bad.c_str());
        st.probe[P_EXPORT_OK]++;
    };
    history(h, ref, sut, P->sched);
}

// ------------------------------------------------------------------ C07
void run_C07()
{
    size_t left[3] = { 0, 0, 0 };
    hooks h;
    h.compare_ref = true;
    // an undisturbed pass gives the reference
    lane ref;
    for (int round = 0; round < 3; round++) {
        lane sut;
        h.after = [&](size_t i, const step & o, const states & before, lane & s, const outcome &, bool failed) {
            if (memerr.hit)
                fail("memory", "%s: %s", title(o).c_str(), memerr.text.c_str());
            if (failed) {
                unchanged(o, before, s.S, outputs(o), "failed_call_effect");
                return;
            }
            for (size_t v = 0; v < s.S.size(); v++) {
                const arr & a = h.ref[i][v], & b = s.S[v];
                if (a.present != b.present)
                    continue; // within a stage that is being repeated
                if (!a.present || !has(outputs(o), int(v)))
                    continue;
                interior(a, [&](int x, int y, int z) {
                    for (int c = 0; c < a.nc; c++) {
                        const double m = a(x, y, z, c), n = b(x, y, z, c);
                        if (memcmp(&m, &n, 8) && !(std::isnan(m) && std::isnan(n)))
                            fail("recovery", "after failures and repetition %s leaves %.17g in cell (%d,%d,%d) component %d of '%s', an undisturbed run %.17g", title(o).c_str(), n, x, y, z, c,
                                P->vars[v].name.c_str(), m);
                    }
                });
            }
        };
        history(h, ref, sut, P->sched);
        sut.stop();
        if (round == 0)
            ref.stop();
        if (memerr.hit)
            fail("memory", "%s", memerr.text.c_str());
        left[round] = live_blocks();
    }
    if (left[1] > left[0] && left[2] > left[1])
        fail("leak", "each repetition of the history leaves %zu more blocks of storage behind", left[2] - left[1]);
}

// ------------------------------------------------------------------ C08
void run_C08()
{
    const plan & p = *P;
    typedef std::pair<std::string, std::pair<std::string, int>> key;
    struct entry
    {
        int spec;
        arr content;
    };
    std::map<key, entry> M;
    auto key_of = [&](int v) {
        const api::varspec & s = p.vars[size_t(v)];
        return key(s.name, std::make_pair(s.basis, s.points));
    };
    api::world * w = nullptr;
    api::world ** slot = &w;
    must(run1([slot]() {*slot = api::make(P->grids[0]);}, 0, 0, serial()), "creating a grid and a variable manager");
    auto clash_with = [&](int v) { // a known name with other components
        for (auto & e : M)
            if (e.first.first == p.vars[size_t(v)].name && p.vars[size_t(e.second.spec)].comps != p.vars[size_t(v)].comps)
                return true;
        return false;
    };
    auto verify = [&](const step & o) {
        for (auto & e : M) {
            api::layout L;
            const int v = e.second.spec;
            outcome r = run1([&L, w, v]() {api::look(w, P->vars[size_t(v)], L);}, 0, 2, serial());
            if (r.kind != OK)
                fail("registry_lost", "after %s variable '%s' cannot be found any more: %s %s", title(o).c_str(), p.vars[size_t(v)].name.c_str(), outcome_name[r.kind], r.what.c_str());
            if (!sane(L, p.grids[0], p.vars[size_t(v)]))
                fail("shape", "after %s variable '%s' does not have the shape of its request", title(o).c_str(), p.vars[size_t(v)].name.c_str());
            if (L.identity != e.second.content.identity)
                fail("registry_identity", "after %s the identifier of '%s' leads to another variable than before", title(o).c_str(), p.vars[size_t(v)].name.c_str());
            const std::string d = first_difference(e.second.content, read_layout(L));
            if (!d.empty())
                fail("registry_content", "%s disturbed '%s': %s", title(o).c_str(), p.vars[size_t(v)].name.c_str(), d.c_str());
        }
    };
    std::set<std::string> clones;
    for (const step & o : p.ops) {
        for (int attempt = 0;; attempt++) {
            if (attempt > 8)
                fail("no_progress", "%s still fails after 8 attempts", title(o).c_str());
            counts c;
            // the length of the call is not known in advance: positions are drawn from a typical length
            c.allocs = 30;
            const std::vector<fault> f = faults_for(o, attempt, c);
            R.ops++;
            if (o.kind == "out" || o.kind == "in") {
                const int v = o.v[0];
                api::layout L;
                const bool out = o.kind == "out";
                outcome r = run1([&L, w, v, out]() {
                    if (out)
                        api::touch(w, P->vars[size_t(v)], L);
                    else
                        api::look(w, P->vars[size_t(v)], L);
                }, o.id, 16 + attempt, p.sched, f);
                check_alive(o, r);
                const uint64_t hard = op_fired_hard();
                const bool clash = clash_with(v);
                auto it = M.find(key_of(v));
                const bool known = it != M.end();
                const std::string what = (out ? "requesting '" : "reading '") + p.vars[size_t(v)].name + "'";
                if (r.kind != OK) {
                    const bool due = r.kind == EXC_QK && (clash || (!known && !out));
                    if (!due && !hard)
                        fail("unexpected_failure", "%s ended with %s without any fault: %s", what.c_str(), outcome_name[r.kind], r.what.c_str());
                    st.probe[clash ? P_CLASH : !known && !out ? P_MISSING : P_FAILED_CREATE]++;
                    verify(o);
                    if (!known && !clash) { // must still be unknown
                        api::layout N;
                        outcome q = run1([&N, w, v]() {api::look(w, P->vars[size_t(v)], N);}, 0, 3, serial());
                        if (q.kind != EXC_QK)
                            fail("registry_half", "%s failed, but afterwards the identifier is known (%s)", what.c_str(), outcome_name[q.kind]);
                    }
                    if (due)
                        break;
                    continue;
                }
                if (clash)
                    fail("registry_clash", "%s with other component names than before was accepted", what.c_str());
                if (!known && !out)
                    fail("registry_missing", "%s succeeded, but it was never created", what.c_str());
                if (!sane(L, p.grids[0], p.vars[size_t(v)]))
                    fail("shape", "%s returned a variable that does not have the shape of the request", what.c_str());
                const arr a = read_layout(L);
                if (known) {
                    if (a.identity != it->second.content.identity)
                        fail("registry_identity", "%s returned another variable than before", what.c_str());
                    const std::string d = first_difference(it->second.content, a);
                    if (!d.empty())
                        fail("registry_content", "%s disturbed it: %s", what.c_str(), d.c_str());
                } else {
                    st.probe[P_CREATED]++;
                    for (auto & e : M)
                        if (e.second.content.identity == a.identity)
                            fail("registry_identity", "%s returned the variable of another identifier ('%s')", what.c_str(), e.first.first.c_str());
                    for (double x : a.a)
                        if (x != 0)
                            fail("registry_zero", "%s created a variable that holds %.17g instead of zero", what.c_str(), x);
                }
                verify(o);
                entry & e = M[key_of(v)];
                e.spec = v;
                e.content = a;
                if (out) { // unique contents from now on
                    set_values(e.content, 1.4, 9, uint64_t(o.d[0]));
                    write_layout(L, e.content);
                }
                break;
            } else if (o.kind == "fillall") {
                step q = o;
                q.kind = "fill";
                q.v.clear();
                for (auto & e : M)
                    q.v.push_back(e.second.spec);
                outcome r = run1([w, &q]() {api::exec(w, q, P->vars);}, o.id, 16 + attempt, p.sched, f);
                check_alive(o, r);
                if (r.kind != OK && !op_fired_hard())
                    fail("unexpected_failure", "filling all variables ended with %s without any fault: %s", outcome_name[r.kind], r.what.c_str());
                for (auto & e : M) {
                    api::layout L;
                    const int v = e.second.spec;
                    must(run1([&L, w, v]() {api::look(w, P->vars[size_t(v)], L);}, 0, 2, serial()), "looking up a variable");
                    if (!sane(L, p.grids[0], p.vars[size_t(v)]))
                        fail("shape", "after %s variable '%s' does not have the shape of its request", title(o).c_str(), p.vars[size_t(v)].name.c_str());
                    const arr a = read_layout(L);
                    if (r.kind == OK)
                        interior(a, [&](int i, int j, int k) {
                            for (int m = 0; m < a.nc; m++)
                                if (a(i, j, k, m) != o.x[0])
                                    fail("registry_content", "filling all variables with %g left %.17g in '%s'", o.x[0], a(i, j, k, m), p.vars[size_t(v)].name.c_str());
                        });
                    if (L.identity != e.second.content.identity)
                        fail("registry_identity", "after %s the identifier of '%s' leads to another variable than before", title(o).c_str(), p.vars[size_t(v)].name.c_str());
                    e.second.content = a;
                }
                if (r.kind == OK)
                    break;
            } else if (o.kind == "clone") {
                const int v = o.v[0];
                std::string n;
                outcome r = run1([&n, v]() {n = api::clone_name(P->vars[size_t(v)]);}, o.id, 16 + attempt, p.sched, f);
                check_alive(o, r);
                if (r.kind != OK && !op_fired_hard())
                    fail("unexpected_failure", "cloning an identifier ended with %s without any fault: %s", outcome_name[r.kind], r.what.c_str());
                verify(o);
                if (r.kind != OK)
                    continue;
                if (n == p.vars[size_t(v)].name || !clones.insert(n).second)
                    fail("clone_name", "the unique name '%s' was handed out before", n.c_str());
                for (int more = o.d.empty() ? 0 : o.d[0]; more > 1; more--) {
                    r = run1([&n, v]() {n = api::clone_name(P->vars[size_t(v)]);}, 0, 2, serial());
                    check_alive(o, r);
                    if (r.kind != OK)
                        fail("unexpected_failure", "cloning an identifier ended with %s without any fault: %s", outcome_name[r.kind], r.what.c_str());
                    if (n == p.vars[size_t(v)].name || !clones.insert(n).second)
                        fail("clone_name", "the unique name '%s' was handed out before", n.c_str());
                }
                break;
            } else if (o.kind == "cmp") {
                // 0 equal, 1 less, for every ordered pair of the three
                bool is[2][3][3];
                bool done = true;
                for (int q = 0; q < 18 && done; q++) {
                    const int what_of = q / 9, i = q / 3 % 3, j = q % 3;
                    const api::varspec & x = p.vars[size_t(o.v[size_t(i)])], & y = p.vars[size_t(o.v[size_t(j)])];
                    const bool mixed = x.name == y.name && x.comps != y.comps;
                    bool * to = &is[what_of][i][j];
                    *to = false;
                    const outcome r = run1([what_of, to, &x, &y]() {*to = what_of ? api::id_less(x, y) : api::id_equal(x, y);}, o.id, 16 + attempt, p.sched, q ? std::vector<fault>() : f);
                    check_alive(o, r);
                    if (r.kind != OK && op_fired_hard()) {
                        done = false;
                        break;
                    }
                    if (r.kind != (mixed ? EXC_QK : OK))
                        fail("identifier_order", "comparing '%s' with '%s' ended with %s", x.name.c_str(), y.name.c_str(), outcome_name[r.kind]);
                    if (!what_of && !mixed && *to != (x.name == y.name && x.basis == y.basis && x.points == y.points))
                        fail("identifier_equal", "identifiers '%s' (%s, %d) and '%s' (%s, %d) compare %s", x.name.c_str(), x.basis.c_str(), x.points, y.name.c_str(), y.basis.c_str(), y.points, *to ? "equal" : "unequal");
                }
                verify(o);
                if (!done)
                    continue;
                for (int i = 0; i < 3; i++)
                    for (int j = 0; j < 3; j++) {
                        const api::varspec & x = p.vars[size_t(o.v[size_t(i)])], & y = p.vars[size_t(o.v[size_t(j)])];
                        if (x.name == y.name && x.comps != y.comps)
                            continue;
                        if (int(is[0][i][j]) + int(is[1][i][j]) + int(is[1][j][i]) != 1)
                            fail("identifier_order", "identifiers '%s' and '%s' are not exactly one of equal, before and behind", x.name.c_str(), y.name.c_str());
                        for (int k = 0; k < 3; k++)
                            if (is[1][i][j] && is[1][j][k] && !is[1][i][k] && !(x.name == p.vars[size_t(o.v[size_t(k)])].name && x.comps != p.vars[size_t(o.v[size_t(k)])].comps))
                                fail("identifier_order", "the order of identifiers is not transitive");
                    }
                break;
            } else
                break;
        }
    }
    for (auto & e : M)
        mix(std::hash<std::string>()(e.first.first + "/" + e.first.second.first) + uint64_t(e.first.second.second) + uint64_t(e.second.content.a.size()));
    mix(M.size());
    must(run1([w]() {api::destroy(w);}, 0, 1, serial()), "destroying a variable manager");
}

// ------------------------------------------------------------------ C09
void run_C09()
{
    const plan & p = *P;
    lane s;
    s.start(1, 0, p.sched);
    struct held
    {
        api::kept * k;
        std::string text;
    };
    std::vector<held> H;
    auto read = [&](const held & x, const step & o) {
        api::kept_texts t;
        const api::kept * k = x.k;
        must(run1([&t, k]() {t = api::read_kept(k);}, 0, 40, serial()), "reading an exception");
        if (t.what != x.text || t.stream != x.text)
            fail("message_changed", "after %s a kept exception says '%.80s' (printed: '%.80s') instead of '%.80s'", title(o).c_str(), t.what.c_str(), t.stream.c_str(), x.text.c_str());
    };
    auto text_of = [&](const api::kept * k) {
        api::kept_texts t;
        must(run1([&t, k]() {t = api::read_kept(k);}, 0, 40, serial()), "reading an exception");
        return t.stream;
    };
    std::vector<void *> junk;
    for (const step & o : p.ops) {
        if (o.kind == "set") {
            s.local(o);
            continue;
        }
        for (int attempt = 0;; attempt++) {
            if (attempt > 8)
                fail("no_progress", "%s still fails after 8 attempts", title(o).c_str());
            counts c;
            c.allocs = 40;
            const std::vector<fault> f = faults_for(o, attempt, c);
            R.ops++;
            if (o.kind == "misuse") {
                const states before = s.S;
                const std::map<std::string, std::string> files = s.dsk.files;
                api::kept * k = nullptr;
                bool raised = false;
                api::world * w = s.world;
                std::swap(disk, s.dsk);
                outcome r = run1([&k, &raised, w, &o]() {k = api::keep_outcome(w, o, P->vars, raised);}, o.id, 16 + attempt, p.sched, f);
                std::swap(disk, s.dsk);
                check_alive(o, r);
                const char * n = api::misuse_name(o.d[0]);
                const uint64_t hard = op_fired_hard();
                if (r.kind != OK && !hard)
                    fail("misuse_kind", "%s ended with %s (%s) instead of the library's exception", n, outcome_name[r.kind], r.what.c_str());
                if (r.kind == OK && !raised)
                    fail("misuse_accepted", "%s was accepted", n);
                s.snapshot();
                step q = o;
                q.v.clear();
                unchanged(q, before, s.S, std::vector<int>(), "misuse_effect");
                st.probe[P_REFUSED]++;
                if (raised && r.kind == OK) {
                    held x;
                    x.k = k;
                    x.text = text_of(k);
                    if (x.text.empty() && !hard) // a text stream cuts its text short when it gets no memory
                        fail("message_empty", "%s raised an exception without a message", n);
                    H.push_back(x);
                    mix(uint64_t(o.d[0]) * 31 + uint64_t(o.d[1]));
                    break;
                }
            } else if (o.kind == "keep") {
                std::string t = "message " + std::to_string(o.d[0]);
                if (o.d[1] % 3)
                    t += std::string(size_t(o.d[1]), char('a' + o.d[1] % 26));
                static const char * const odd[] = { "", "%s%n%d", "two\nlines\t", "\xc3\xa9", " " };
                if (o.d[1] % 23 < 5)
                    t = odd[o.d[1] % 23];
                api::kept * k = nullptr;
                const int route = o.d[2];
                outcome r = run1([&k, &t, route]() {k = api::keep_text(t, route);}, o.id, 16 + attempt, p.sched, f);
                check_alive(o, r);
                if (r.kind != OK && !op_fired_hard())
                    fail("unexpected_failure", "building an exception ended with %s: %s", outcome_name[r.kind], r.what.c_str());
                if (r.kind == OK) {
                    held x;
                    x.k = k;
                    x.text = op_fired_hard() ? text_of(k) : t;
                    H.push_back(x);
                    break;
                }
            } else if (o.kind[0] == 'k') {
                if (H.empty())
                    break;
                held & a = H[size_t(o.d[0]) % H.size()], & b = H[size_t(o.d[1]) % H.size()];
                outcome r;
                if (o.kind == "kcopy") {
                    api::kept * k = nullptr;
                    const api::kept * from = a.k;
                    r = run1([&k, from]() {k = api::keep_copy(from);}, o.id, 16 + attempt, p.sched, f);
                    if (r.kind == OK) {
                        held x;
                        x.k = k;
                        x.text = a.text;
                        H.push_back(x);
                    }
                } else if (o.kind == "kassign") {
                    api::kept * to = a.k;
                    const api::kept * from = b.k;
                    r = run1([to, from]() {api::keep_assign(to, from);}, o.id, 16 + attempt, p.sched, std::vector<fault>());
                    a.text = b.text;
                } else if (o.kind == "kraise") {
                    api::kept * k = a.k;
                    const int depth = o.d[2];
                    r = run1([k, depth]() {api::keep_raise_and_catch(k, depth);}, o.id, 16 + attempt, p.sched, std::vector<fault>());
                } else if (o.kind == "kappend") {
                    api::kept * k = a.k;
                    const std::string more = " and more " + std::to_string(o.d[1]);
                    r = run1([k, &more]() {api::keep_append(k, more);}, o.id, 16 + attempt, p.sched, std::vector<fault>());
                    a.text += more;
                } else { // kdrop
                    api::kept * k = a.k;
                    r = run1([k]() {api::drop_kept(k);}, o.id, 16 + attempt, p.sched, std::vector<fault>());
                    H.erase(H.begin() + (&a - &H[0]));
                }
                check_alive(o, r);
                if (r.kind != OK && !op_fired_hard())
                    fail("unexpected_failure", "handling an exception object (%s) ended with %s: %s", o.kind.c_str(), outcome_name[r.kind], r.what.c_str());
                if (r.kind == OK)
                    break;
            } else if (o.kind == "churn") {
                const int n = o.d[0];
                std::vector<void *> * j = &junk;
                must(run1([n, j]() {
                    for (int i = 0; i < n; i++) {
                        void * x = ::operator new(size_t(1 + (i * 37) % 700));
                        memset(x, '#', size_t(1 + (i * 37) % 700));
                        ::operator delete(x);
                    }
                    (void) j;
                }, o.id, 16, p.sched), "other use of memory");
                break;
            } else {
                outcome r = s.call(o, 16 + attempt, p.sched, f);
                check_alive(o, r);
                if (r.kind != OK && !op_fired_hard())
                    fail("unexpected_failure", "%s ended with %s without any fault: %s", title(o).c_str(), outcome_name[r.kind], r.what.c_str());
                s.snapshot();
                if (r.kind == OK)
                    break;
            }
        }
        for (const held & x : H)
            read(x, o);
        if (H.size() > 1) {
            // a message taken from one exception stays readable while others are asked for theirs
            std::vector<const api::kept *> k;
            for (const held & x : H)
                k.push_back(x.k);
            std::vector<std::string> t;
            must(run1([&t, &k]() {t = api::read_all_kept(k);}, 0, 40, serial()), "reading several exceptions");
            for (size_t i = 0; i < H.size(); i++)
                if (t[i] != H[i].text)
                    fail("message_shared", "after %s a message taken from a kept exception reads '%.80s' instead of '%.80s' once the others are asked for theirs", title(o).c_str(), t[i].c_str(), H[i].text.c_str());
        }
        st.probe[P_KEPT] += H.size();
    }
    if (memerr.hit && memerr.text.find("release") != std::string::npos)
        fail("memory", "%s", memerr.text.c_str());
}

// ------------------------------------------------------------------ C17
// Bulk data: every chunk is a map from index tuples to values.
struct cmodel
{
    api::chunk * c = nullptr;
    int kind = 0, ghosts = 0;
    bool sized = false, used = false;
    api::box mesh, comps, range;
    std::vector<double> a; // row-major
};
size_t box_volume(const api::box & b)
{
    size_t n = b.lo.empty() ? 0 : 1;
    for (size_t i = 0; i < b.lo.size(); i++)
        n *= size_t(b.hi[i] - b.lo[i]);
    return n;
}
bool box_inside(const api::box & a, const api::box & b) // b within a
{
    if (a.lo.size() != b.lo.size())
        return false;
    for (size_t i = 0; i < a.lo.size(); i++)
        if (b.lo[i] < a.lo[i] || b.hi[i] > a.hi[i])
            return false;
    return true;
}
bool box_equal(const api::box & a, const api::box & b) { return a.lo == b.lo && a.hi == b.hi; }
// linear positions of the cells of b within a, in row-major order
std::vector<size_t> box_cells(const api::box & a, const api::box & b, std::vector<int> * tuples = nullptr)
{
    std::vector<size_t> r;
    const size_t n = a.lo.size();
    if (!box_volume(b))
        return r;
    std::vector<int> i = b.lo;
    while (true) {
        size_t l = 0;
        for (size_t k = 0; k < n; k++)
            l = l * size_t(a.hi[k] - a.lo[k]) + size_t(i[k] - a.lo[k]);
        r.push_back(l);
        if (tuples)
            tuples->insert(tuples->end(), i.begin(), i.end());
        size_t k = n;
        while (k > 0 && ++i[k - 1] == b.hi[k - 1]) {
            i[k - 1] = b.lo[k - 1];
            k--;
        }
        if (!k)
            return r;
    }
}
double odd_value(rng & g)
{
    static const double o[] = { 0., -0., HUGE_VAL, -HUGE_VAL, std::nan(""), 4.9e-324, -2.2e-308, 1.7e308, -1.7e308, 1. };
    return o[g.range(0, 9)];
}
api::box box_from(const std::vector<int> & d, size_t & at)
{
    api::box b;
    if (at >= d.size())
        return b;
    const size_t n = size_t(d[at++]);
    for (size_t i = 0; i < n && at < d.size(); i++)
        b.lo.push_back(d[at++]);
    for (size_t i = 0; i < n && at < d.size(); i++)
        b.hi.push_back(d[at++]);
    return b;
}
api::box box_grown(const api::box & b, int g)
{
    api::box r = b;
    for (size_t i = 0; i < r.lo.size(); i++) {
        r.lo[i] -= g;
        r.hi[i] += g;
    }
    return r;
}
api::box box_joined(const api::box & a, const api::box & b)
{
    api::box r = a;
    r.lo.insert(r.lo.end(), b.lo.begin(), b.lo.end());
    r.hi.insert(r.hi.end(), b.hi.begin(), b.hi.end());
    return r;
}

void run_C17()
{
    const plan & p = *P;
    std::map<int, cmodel> M;
    auto view = [&](const step & o, cmodel & m) {
        api::chunk_view v;
        api::chunk * c = m.c;
        outcome r = run1([&v, c]() {api::chunk_look(c, v);}, 0, 2, serial());
        if (r.kind != OK)
            fail("chunk_unusable", "after %s a chunk cannot be looked at: %s %s", title(o).c_str(), outcome_name[r.kind], r.what.c_str());
        return v;
    };
    auto well = [&](const step & o) {
        if (memerr.hit)
            fail("memory", "%s: %s", title(o).c_str(), memerr.text.c_str());
    };
    // compares a chunk with its model; cells listed in either may hold either value and are taken over
    auto verify = [&](const step & o, int id, const std::vector<size_t> * either = nullptr, const std::vector<double> * other = nullptr) {
        cmodel & m = M[id];
        if (!m.sized)
            return;
        api::chunk_view v = view(o, m);
        const size_t n = m.range.lo.size();
        bool ok = box_equal(v.range, m.range) && size_t(v.volume) == m.a.size() && v.stride.size() == n;
        for (size_t i = n; ok && i-- > 0;) {
            ok = v.length[i] == m.range.hi[i] - m.range.lo[i];
            ok = ok && v.stride[i] == (i + 1 == n ? 1 : v.stride[i + 1] * v.length[i + 1]);
        }
        if (!ok)
            fail("chunk_range", "after %s chunk %d does not have the range it was given", title(o).c_str(), id);
        if (m.kind) {
            if (v.ghosts != m.ghosts || !box_equal(v.internal, box_joined(m.mesh, m.comps)))
                fail("chunk_range", "after %s chunk %d reports another interior than it was given", title(o).c_str(), id);
            std::vector<api::box> f;
            api::chunk * c = m.c;
            const int nd = int(m.mesh.lo.size());
            must(run1([&f, c, nd]() {api::chunk_faces(c, nd, f);}, 0, 2, serial()), "asking for the faces of a chunk");
            for (int d = 0; d < nd; d++)
                for (int k = 0; k < 4; k++) {
                    api::box want = v.internal;
                    const size_t D = size_t(d);
                    const int lo = want.lo[D], hi = want.hi[D], g = m.ghosts;
                    want.lo[D] = k == 0 ? lo : k == 1 ? lo - g : k == 2 ? hi - g : hi;
                    want.hi[D] = k == 0 ? lo + g : k == 1 ? lo : k == 2 ? hi : hi + g;
                    if (!box_equal(want, f[D * 4 + size_t(k)]))
                        fail("chunk_range", "after %s chunk %d reports another face range %d in direction %d", title(o).c_str(), id, k, d);
                }
        }
        for (size_t i = 0; i < m.a.size(); i++) {
            const double x = v.data[i];
            if (x == m.a[i] || (std::isnan(x) && std::isnan(m.a[i])))
                continue;
            bool may = false;
            if (either)
                for (size_t k = 0; k < either->size() && !may; k++)
                    may = (*either)[k] == i && (*other)[k] == x;
            if (!may)
                fail("chunk_content", "after %s cell %zu of chunk %d holds %.17g instead of %.17g", title(o).c_str(), i, id, x, m.a[i]);
            m.a[i] = x;
        }
    };
    auto all_but = [&](const step & o, int a, int b = -1) {
        for (auto & e : M)
            if (e.first != a && e.first != b)
                verify(o, e.first);
    };
    for (const step & o : p.ops) {
        const std::vector<int> & d = o.d;
        const int k = d[0];
        if (o.kind != "cnew" && !M.count(k))
            continue; // its creation was minimised away
        const double x = o.x.empty() ? 0. : o.x[0];
        const int route = int(o.id * 7 % 25);
        for (int attempt = 0;; attempt++) {
            if (attempt > 8)
                fail("no_progress", "%s still fails after 8 attempts", title(o).c_str());
            counts cn;
            cn.allocs = o.kind == "cresize" || o.kind == "cassign" ? (M[k].kind ? 90 : 40) : 12;
            const std::vector<fault> f = faults_for(o, attempt, cn);
            R.ops++;
            outcome r;
            auto call = [&](std::function<void()> fn) {
                r = run1(fn, o.id, 16 + attempt, p.sched, f);
                check_alive(o, r);
                well(o);
                if (r.kind != OK)
                    st.probe[P_RETRY]++;
                return r.kind == OK;
            };
            auto due = [&](bool refused) { // a call that must be refused, or must not fail by itself
                const bool hard = op_fired_hard() != 0;
                if (refused && r.kind == OK)
                    fail("chunk_misuse", "%s was accepted although its ranges do not fit", title(o).c_str());
                if (refused && r.kind != EXC_QK && !hard)
                    fail("chunk_misuse", "%s ended with %s instead of the library's exception", title(o).c_str(), outcome_name[r.kind]);
                if (!refused && r.kind != OK && !hard)
                    fail("unexpected_failure", "%s ended with %s without any fault: %s", title(o).c_str(), outcome_name[r.kind], r.what.c_str());
                if (refused)
                    st.probe[P_REFUSED]++;
            };
            // an operation that gives the listed cells of chunk t new values
            auto apply = [&](int t, const std::vector<size_t> & cells, const std::vector<double> & values, std::function<void()> fn, bool refused) {
                cmodel & m = M[t];
                call(fn);
                due(refused);
                if (r.kind == OK)
                    for (size_t i = 0; i < cells.size(); i++)
                        m.a[cells[i]] = values[i];
                if (r.kind == OK || refused)
                    verify(o, t);
                else
                    verify(o, t, &cells, &values);
                all_but(o, t);
                return r.kind == OK || refused;
            };
            if (o.kind == "cnew") {
                if (M.count(k))
                    break;
                api::chunk * c = nullptr;
                const int kind = d[1];
                if (call([&c, kind]() {c = api::chunk_new(kind);})) {
                    cmodel m;
                    m.c = c;
                    m.kind = kind;
                    M[k] = m;
                    break;
                }
                due(false);
                all_but(o, -1);
            } else if (o.kind == "cset") {
                cmodel & m = M[k];
                if (!m.sized)
                    break;
                api::chunk_view v = view(o, m);
                rng g { uint64_t(d[1]) };
                for (size_t i = 0; i < m.a.size(); i++)
                    v.data[i] = m.a[i] = d.size() > 2 && d[2] && g.chance(0.2) ? odd_value(g) : double(g.range(-1000000, 1000000)) / 1024. + double(k) * 4096.;
                break;
            } else if (o.kind == "cresize" || o.kind == "cassign") {
                cmodel & m = M[k];
                cmodel want = m;
                api::chunk * c = m.c;
                bool zero = false;
                if (o.kind == "cresize") {
                    size_t at = 2;
                    want.mesh = box_from(d, at);
                    want.comps = box_from(d, at);
                    want.ghosts = m.kind ? d[1] : 0;
                    want.range = box_joined(box_grown(want.mesh, want.ghosts), want.comps);
                    want.a.assign(box_volume(want.range), 0.);
                    zero = !m.used;
                    const int g = want.ghosts;
                    call([c, &want, g, route]() {api::chunk_resize(c, want.mesh, want.comps, g, route);});
                } else {
                    if (!M.count(d[1]) || !M[d[1]].sized || M[d[1]].kind != m.kind || d[1] == k)
                        break;
                    const api::chunk * from = M[d[1]].c;
                    want = M[d[1]];
                    want.c = c;
                    call([c, from]() {api::chunk_assign(c, from);});
                }
                due(false);
                want.sized = true;
                m.used = want.used = true;
                if (r.kind == OK) {
                    m = want;
                    if (o.kind == "cresize" && !zero) { // what a chunk holds after it was resized again is not specified
                        api::chunk_view v = view(o, m);
                        if (box_equal(v.range, m.range))
                            m.a.assign(v.data, v.data + m.a.size());
                    }
                    verify(o, k);
                    all_but(o, k);
                    break;
                }
                // the attempt failed: the chunk has some range, and everything within it can be used
                m.sized = false;
                api::chunk_view v = view(o, m);
                bool sane = size_t(v.volume) == box_volume(v.range);
                for (size_t i = 0; i < v.range.lo.size(); i++)
                    sane = sane && v.range.hi[i] >= v.range.lo[i];
                if (!sane)
                    fail("chunk_range", "after a failed attempt of %s chunk %d has no consistent range", title(o).c_str(), k);
                const api::box whole = v.range;
                if (m.kind && m.used && m.mesh.lo.size() == want.mesh.lo.size() && m.comps.lo.size() == want.comps.lo.size() && !m.mesh.lo.empty()) {
                    // what it says about its interior and its faces fits that range
                    std::vector<api::box> f;
                    const int nd = int(m.mesh.lo.size());
                    const bool any = whole.lo.size() == m.mesh.lo.size() + m.comps.lo.size();
                    if (any && v.internal.lo.size() == whole.lo.size()) {
                        must(run1([&f, c, nd]() {api::chunk_faces(c, nd, f);}, 0, 2, serial()), "asking for the faces of a chunk");
                        well(o);
                    }
                    bool fits = f.size() == size_t(nd) * 4 && box_inside(whole, v.internal);
                    for (const api::box & b : f)
                        fits = fits && (!box_volume(v.internal) || b.lo.size() == whole.lo.size());
                    if (!fits)
                        fail("chunk_range", "after a failed attempt of %s the faces and the interior of chunk %d do not fit its range", title(o).c_str(), k);
                }
                api::walked w;
                outcome q = run1([c, &whole, &w]() {
                    api::chunk_fill(c, 1.5);
                    if (!whole.lo.empty()) {
                        api::chunk_fill(c, whole, 2.5, 0);
                        api::chunk_walk(c, whole, 0, 0, w);
                    }
                }, 0, 3, serial());
                well(o);
                if (q.kind != OK)
                    fail("chunk_unusable", "after a failed attempt of %s chunk %d cannot be filled: %s %s", title(o).c_str(), k, outcome_name[q.kind], q.what.c_str());
                if (w.value.size() == box_volume(whole) && !whole.lo.empty()) { // and it can be assigned
                    const int kind = m.kind;
                    api::chunk_view n;
                    std::vector<double> got;
                    q = run1([c, kind, &n, &got]() {
                        api::chunk * t = api::chunk_new(kind);
                        try {
                            api::chunk_assign(t, c);
                            api::chunk_look(t, n);
                            got.assign(n.data, n.data + (n.data ? n.volume : 0));
                        } catch (...) {
                            api::chunk_drop(t);
                            throw;
                        }
                        api::chunk_drop(t);
                    }, 0, 4, serial());
                    well(o);
                    if (q.kind != OK)
                        fail("chunk_unusable", "after a failed attempt of %s chunk %d cannot be assigned to another: %s %s", title(o).c_str(), k, outcome_name[q.kind], q.what.c_str());
                    bool equal = box_equal(n.range, whole) && got.size() == box_volume(whole);
                    for (double x : got)
                        equal = equal && x == 2.5;
                    if (!equal)
                        fail("chunk_unusable", "after a failed attempt of %s a chunk that chunk %d was assigned to differs from it", title(o).c_str(), k);
                }
                if (w.value.size() != box_volume(whole))
                    fail("chunk_unusable", "after a failed attempt of %s walking through chunk %d meets %zu of %zu cells", title(o).c_str(), k, w.value.size(), box_volume(whole));
                all_but(o, k);
            } else if (o.kind == "cfill") {
                cmodel & m = M[k];
                if (!m.sized)
                    break;
                api::chunk * c = m.c;
                if (apply(k, box_cells(m.range, m.range), std::vector<double>(m.a.size(), x), [c, x]() {api::chunk_fill(c, x);}, false))
                    break;
            } else if (o.kind == "cfillr" || o.kind == "cscale") {
                cmodel & m = M[k];
                size_t at = 1;
                const api::box b = box_from(d, at);
                const bool fill = o.kind == "cfillr", inside = box_inside(m.range, b);
                if (!m.sized || (!fill && !inside))
                    break;
                api::chunk * c = m.c;
                const std::vector<size_t> cells = inside ? box_cells(m.range, b) : std::vector<size_t>();
                std::vector<double> want;
                for (size_t i : cells)
                    want.push_back(fill ? x : m.a[i] * x);
                if (apply(k, cells, want, [c, &b, x, fill, route]() {
                    if (fill)
                        api::chunk_fill(c, b, x, route);
                    else
                        api::chunk_scale(c, b, x, route);
                }, !inside))
                    break;
            } else if (o.kind == "ccopy" || o.kind == "cpull") {
                const int t = d[1];
                if (!M.count(t) || !M[t].sized || !M[k].sized)
                    break;
                size_t at = 2;
                const api::box from = box_from(d, at), to = box_from(d, at);
                if (!box_inside(M[k].range, from) || !box_inside(M[t].range, to))
                    break;
                const bool refused = box_volume(from) != box_volume(to), copy = o.kind == "ccopy";
                std::vector<size_t> cells = box_cells(M[t].range, to);
                std::vector<double> want;
                if (!refused)
                    for (size_t i : box_cells(M[k].range, from))
                        want.push_back(M[k].a[i]);
                else
                    cells.clear();
                const api::chunk * a = M[k].c;
                api::chunk * c = M[t].c;
                if (apply(t, cells, want, [a, c, &from, &to, copy, route]() {
                    if (copy)
                        api::chunk_copy(a, from, c, to, route);
                    else
                        api::chunk_pull(c, to, a, from, route);
                }, refused))
                    break;
            } else if (o.kind == "cfull" || o.kind == "cpulla") {
                const int t = d[1];
                if (!M.count(t) || t == k || !M[t].sized || !M[k].sized)
                    break;
                const bool full = o.kind == "cfull", refused = M[k].a.size() != M[t].a.size();
                if (!full && !refused && !box_equal(M[k].range, M[t].range))
                    break;
                const api::chunk * a = M[k].c;
                api::chunk * c = M[t].c;
                if (apply(t, refused ? std::vector<size_t>() : box_cells(M[t].range, M[t].range), M[k].a, [a, c, full]() {
                    if (full)
                        api::chunk_full_copy(a, c);
                    else
                        api::chunk_pull(c, a);
                }, refused))
                    break;
            } else if (o.kind == "cswap") {
                const int t = d[1];
                if (!M.count(t) || t == k || !M[t].sized || !M[k].sized)
                    break;
                const bool refused = M[k].a.size() != M[t].a.size();
                if (!refused && !box_equal(M[k].range, M[t].range))
                    break;
                api::chunk * a = M[k].c, * c = M[t].c;
                call([a, c]() {api::chunk_swap(a, c);});
                due(refused);
                if (r.kind == OK)
                    M[k].a.swap(M[t].a);
                all_but(o, -1);
                if (r.kind == OK || refused)
                    break;
            } else if (o.kind == "cwalk") {
                cmodel & m = M[k];
                size_t at = 2;
                const int way = d[1];
                api::box b = box_from(d, at);
                if (!m.sized || !box_inside(m.range, b))
                    break;
                if (way % 6 == 3)
                    b = m.range;
                api::walked w;
                const api::chunk * c = m.c;
                if (call([c, &b, way, route, &w]() {api::chunk_walk(c, b, way, route, w);})) {
                    std::vector<int> tuples;
                    const std::vector<size_t> cells = box_cells(m.range, b, &tuples);
                    bool same = w.ended && w.agrees && w.value.size() == cells.size() && w.index == tuples;
                    for (size_t i = 0; same && i < cells.size(); i++)
                        same = w.value[i] == m.a[cells[i]] || (std::isnan(w.value[i]) && std::isnan(m.a[cells[i]]));
                    if (!same)
                        fail("chunk_walk", "%s (way %d) meets %zu cells%s%s; the range has %zu, in row-major order", title(o).c_str(), way % 6, w.value.size(), w.ended ? "" : " and does not end", w.agrees ? "" : ", with contradicting positions", cells.size());
                    all_but(o, -1);
                    break;
                }
                due(false);
                all_but(o, -1);
            } else if (o.kind == "cwrite") {
                cmodel & m = M[k];
                size_t at = 2;
                const api::box b = box_from(d, at);
                if (!m.sized || !box_inside(m.range, b) || m.comps.lo.size() != 1 || m.comps.lo[0] != 0 || b.hi.back() != b.lo.back() + 1)
                    break;
                std::string text;
                const api::chunk * c = m.c;
                if (call([c, &b, route, &text]() {api::chunk_write(c, b, route, text);})) {
                    // the first direction runs fastest in text
                    const size_t n = b.lo.size() - 1;
                    std::vector<size_t> cells;
                    std::vector<int> i = b.lo;
                    for (bool more = box_volume(b) > 0; more;) {
                        size_t l = 0;
                        for (size_t q = 0; q <= n; q++)
                            l = l * size_t(m.range.hi[q] - m.range.lo[q]) + size_t(i[q] - m.range.lo[q]);
                        cells.push_back(l);
                        size_t q = 0;
                        while (q < n && ++i[q] == b.hi[q]) {
                            i[q] = b.lo[q];
                            q++;
                        }
                        more = q < n;
                    }
                    const char * s = text.c_str();
                    const char head[] = "LOOKUP_TABLE default\n";
                    bool same = !strncmp(s, head, sizeof head - 1);
                    s += same ? sizeof head - 1 : 0;
                    size_t met = 0;
                    for (char * e; same; met++, s = e) {
                        const double v = strtod(s, &e);
                        if (e == s)
                            break;
                        const double w = met < cells.size() ? m.a[cells[met]] : 0.;
                        same = met < cells.size() && (v == w || (std::isnan(v) && std::isnan(w)));
                    }
                    while (*s == ' ' || *s == '\n')
                        s++;
                    if (!same || *s || met != cells.size())
                        fail("chunk_written", "%s writes other values than the %zu of its range, first direction fastest", title(o).c_str(), cells.size());
                    all_but(o, -1);
                    break;
                }
                due(false);
                all_but(o, -1);
            } else if (o.kind == "cdrop") {
                api::chunk * c = M[k].c;
                M.erase(k);
                must(run1([c]() {api::chunk_drop(c);}, o.id, 16, serial()), "destroying a chunk");
                well(o);
                all_but(o, -1);
                break;
            } else
                break;
        }
    }
    for (auto & e : M) {
        mix(uint64_t(e.first));
        for (double v : e.second.a) {
            uint64_t b;
            memcpy(&b, &v, 8);
            mix(b);
        }
        api::chunk * c = e.second.c;
        must(run1([c]() {api::chunk_drop(c);}, 0, 1, serial()), "destroying a chunk");
    }
    step last;
    well(last);
}

// ------------------------------------------------------------------ C13, C15
// calls outside of any simulation: repeated until they succeed
struct caller
{
    // returns false when the call was refused (by an exception of the library without any fault)
    bool run(const step & o, bool refused, std::function<void()> fn, std::function<void()> failed = std::function<void()>())
    {
        for (int attempt = 0;; attempt++) {
            if (attempt > 8)
                fail("no_progress", "%s still fails after 8 attempts", title(o).c_str());
            counts cn;
            cn.allocs = 12;
            const std::vector<fault> f = faults_for(o, attempt, cn);
            R.ops++;
            outcome r = run1(fn, o.id, 16 + attempt, P->sched, f);
            const bool hard = op_fired_hard() != 0;
            check_alive(o, r);
            if (memerr.hit)
                fail("memory", "%s: %s", title(o).c_str(), memerr.text.c_str());
            if (r.kind == OK) {
                if (refused)
                    fail("not_refused", "%s was accepted", title(o).c_str());
                return true;
            }
            if (!hard) {
                if (!refused)
                    fail("unexpected_failure", "%s ended with %s without any fault: %s", title(o).c_str(), outcome_name[r.kind], r.what.c_str());
                if (r.kind != EXC_QK)
                    fail("not_refused", "%s ended with %s instead of the library's exception", title(o).c_str(), outcome_name[r.kind]);
                st.probe[P_REFUSED]++;
                if (failed)
                    failed();
                return false;
            }
            st.probe[P_RETRY]++;
            if (failed)
                failed();
        }
    }
};

void run_C13()
{
    const plan & p = *P;
    struct model
    {
        api::rg * r = nullptr;
        api::box b;
    };
    std::map<int, model> M;
    std::map<int, api::rset *> sets;
    caller k;
    step none;
    auto verify = [&](const step & o) {
        for (auto & e : M) {
            api::rg_view v;
            const api::rg * r = e.second.r;
            must(run1([&v, r]() {api::rg_look(r, v);}, 0, 2, serial()), "looking at a range");
            const api::box & b = e.second.b;
            const size_t n = b.lo.size();
            bool ok = size_t(v.dims) == n && box_equal(v.b, b) && v.volume == int(box_volume(b));
            std::vector<int> want = b.lo;
            want.insert(want.end(), b.hi.begin(), b.hi.end());
            for (size_t i = n; ok && i-- > 0;)
                ok = v.length[i] == b.hi[i] - b.lo[i] && v.stride[i] == (i + 1 == n ? 1 : v.stride[i + 1] * v.length[i + 1]);
            if (!ok)
                fail("range", "after %s range %d is not what it should be", title(o).c_str(), e.first);
            std::vector<int> got;
            const std::string & t = v.text;
            for (size_t i = 0; i < t.size();)
                if (isdigit((unsigned char) t[i]) || (t[i] == '-' && i + 1 < t.size() && isdigit((unsigned char) t[i + 1]))) {
                    char * end;
                    got.push_back(int(strtol(t.c_str() + i, &end, 10)));
                    i = size_t(end - t.c_str());
                } else
                    i++;
            if (got != want || t.size() < 2 || t[0] != '<' || t[t.size() - 1] != '>')
                fail("range_text", "after %s range %d is printed as '%s'", title(o).c_str(), e.first, t.c_str());
        }
    };
    for (const step & o : p.ops) {
        const std::vector<int> & d = o.d;
        const int a = d[0];
        if (o.kind != "rnew" && !M.count(a))
            continue;
        auto same = [&]() {verify(o);}; // a range operation that runs out of memory changes nothing
        if (o.kind == "rnew") {
            if (M.count(a) || (d[1] == 3 && !M.count(d[2])))
                continue;
            size_t at = 3;
            model m;
            m.b = box_from(d, at);
            const int way = d[1];
            const api::rg * from = way == 3 ? M[d[2]].r : nullptr;
            if (way == 3)
                m.b = M[d[2]].b;
            k.run(o, false, [&m, way, from]() {m.r = api::rg_new(m.b, way, from);}, same);
            M[a] = m;
        } else if (o.kind == "rresize") {
            size_t at = 2;
            const api::box b = box_from(d, at);
            api::rg * r = M[a].r;
            const int way = d[1];
            k.run(o, false, [r, &b, way]() {api::rg_resize(r, b, way);}, same);
            M[a].b = b;
        } else if (o.kind == "rassign") {
            if (!M.count(d[1]))
                continue;
            api::rg * r = M[a].r;
            const api::rg * from = M[d[1]].r;
            k.run(o, false, [r, from]() {api::rg_assign(r, from);}, same);
            M[a].b = api::box(M[d[1]].b);
        } else if (o.kind == "rextrude") {
            api::rg * r = M[a].r;
            k.run(o, false, [r, &d]() {api::rg_extrude(r, d[1], d[2]);}, same);
            M[a].b.lo.push_back(d[1]);
            M[a].b.hi.push_back(d[2]);
        } else if (o.kind == "rexpand" || o.kind == "rshift" || o.kind == "rset") {
            model & m = M[a];
            const size_t D = size_t(d[1]);
            if (D >= m.b.lo.size())
                continue;
            api::box b = m.b;
            if (o.kind == "rexpand") {
                b.lo[D] += d[2];
                b.hi[D] += d[3];
            } else if (o.kind == "rshift") {
                b.lo[D] += d[2];
                b.hi[D] += d[2];
            } else {
                b.lo[D] = d[2];
                b.hi[D] = d[3];
            }
            if (b.hi[D] < b.lo[D])
                continue;
            api::rg * r = m.r;
            const int what = o.kind == "rexpand" ? 0 : o.kind == "rshift" ? 1 : 2;
            k.run(o, false, [r, &d, what]() {
                if (what == 0)
                    api::rg_expand(r, d[1], d[2], d[3]);
                else if (what == 1)
                    api::rg_shift(r, d[1], d[2]);
                else
                    api::rg_set(r, d[1], d[2], d[3]);
            }, same);
            m.b = b;
        } else if (o.kind == "rcmp") {
            if (!M.count(d[1]))
                continue;
            const api::rg * r = M[a].r, * q = M[d[1]].r;
            bool in = false, eq = false, ne = false;
            k.run(o, false, [&, r, q]() {api::rg_compare(r, q, in, eq, ne);});
            if (eq != box_equal(M[a].b, M[d[1]].b) || ne == eq)
                fail("range_compare", "%s: equal %d, unequal %d", title(o).c_str(), int(eq), int(ne));
            if (in != box_inside(M[a].b, M[d[1]].b))
                fail("range_compare", "%s: inclusion is reported as %d", title(o).c_str(), int(in));
        } else if (o.kind == "rwalk") { // d: sub sup way
            if (!M.count(d[1]))
                continue;
            const api::box & sub = M[a].b, & sup = M[d[1]].b;
            const api::rg * r = M[a].r, * q = M[d[1]].r;
            api::rg_walked w;
            k.run(o, false, [&w, r, q, &d]() {
                w = api::rg_walked();
                api::rg_walk(r, q, d[2], w);
            }, same);
            std::vector<int> tuples;
            std::vector<size_t> cells;
            if (box_inside(sup, sub))
                cells = box_cells(sup, sub, &tuples);
            bool ok = w.ended && w.agrees && w.index == tuples && w.linear.size() == cells.size();
            for (size_t i = 0; ok && i < cells.size(); i++)
                ok = w.linear[i] == int(cells[i]);
            if (ok && !cells.empty())
                ok = w.last == int(cells.back()) + 1;
            if (!ok)
                fail("walk", "%s meets %zu cells%s%s, last %d; the range has %zu", title(o).c_str(), w.linear.size(), w.ended ? "" : " and does not end", w.agrees ? "" : ", with contradicting positions", w.last, cells.size());
        } else if (o.kind == "rdiv") { // d: range way set parts..
            const api::box & b = M[a].b;
            const size_t n = b.lo.size();
            const std::vector<int> parts(d.begin() + 3, d.end());
            if (parts.size() != n || !n)
                continue;
            const api::rg * r = M[a].r;
            api::rset *& s = sets[d[2]];
            const int way = d[1];
            if (s && way == 2) {
                api::rset * t = s;
                k.run(o, false, [t, r, &parts]() {api::rset_setup(t, r, parts);}, same);
            } else {
                if (s) {
                    api::rset * t = s;
                    s = nullptr;
                    must(run1([t]() {api::rset_drop(t);}, 0, 2, serial()), "destroying a set of ranges");
                }
                api::rset * t = nullptr;
                k.run(o, false, [&t, r, &parts, way]() {t = api::rset_new(r, parts, way);}, same);
                s = t;
            }
            std::vector<api::box> got;
            std::vector<int> index;
            const api::rset * t = s;
            must(run1([t, &got, &index]() {api::rset_look(t, got, index);}, 0, 2, serial()), "looking at a set of ranges");
            size_t total = 1, cells = 0;
            for (int x : parts)
                total *= size_t(x);
            bool uneven = false;
            bool ok = got.size() == total && index.size() == total * n;
            for (size_t i = 0; ok && i < total; i++) {
                const api::box & x = got[i];
                ok = x.lo.size() == n;
                for (size_t j = 0; ok && j < n; j++) {
                    ok = x.lo[j] <= x.hi[j] && x.lo[j] >= b.lo[j] && x.hi[j] <= b.hi[j];
                    // its neighbour above begins where it ends
                    size_t step = 1;
                    for (size_t m = j + 1; m < n; m++)
                        step *= size_t(parts[m]);
                    const int at = index[i * n + j];
                    ok = ok && at == int(i / step % size_t(parts[j]));
                    ok = ok && (at ? x.lo[j] == got[i - step].hi[j] : x.lo[j] == b.lo[j]);
                    ok = ok && (at + 1 < parts[j] || x.hi[j] == b.hi[j]);
                    // and all parts with the same index in this direction have the same bounds in it
                    const api::box & y = got[size_t(at) * step];
                    ok = ok && y.lo[j] == x.lo[j] && y.hi[j] == x.hi[j];
                    // what can be divided evenly is
                    const int len = b.hi[j] - b.lo[j];
                    if (len % parts[j] == 0 && x.hi[j] - x.lo[j] != len / parts[j])
                        uneven = true;
                }
                cells += box_volume(x);
            }
            if (ok && uneven)
                fail("division_uneven", "%s: the parts are not equally large although the number of parts divides the length", title(o).c_str());
            if (!ok || cells != box_volume(b))
                fail("division", "%s: the parts do not cover every cell exactly once", title(o).c_str());
        } else if (o.kind == "rdrop") {
            api::rg * r = M[a].r;
            M.erase(a);
            must(run1([r]() {api::rg_drop(r);}, o.id, 16, serial()), "destroying a range");
        }
        verify(o);
    }
    for (auto & e : M) {
        for (int x : e.second.b.lo)
            mix(uint64_t(x));
        for (int x : e.second.b.hi)
            mix(uint64_t(x));
        api::rg * r = e.second.r;
        must(run1([r]() {api::rg_drop(r);}, 0, 1, serial()), "destroying a range");
    }
    for (auto & e : sets) {
        api::rset * t = e.second;
        if (t)
            must(run1([t]() {api::rset_drop(t);}, 0, 1, serial()), "destroying a set of ranges");
    }
    if (memerr.hit)
        fail("memory", "at the end: %s", memerr.text.c_str());
}

void run_C15()
{
    const plan & p = *P;
    struct model
    {
        api::gr * g = nullptr;
        int kind = 0;
        api::gridcfg c;
        std::vector<double> size[3]; // of the cells, in units of the width
    };
    std::map<int, model> M;
    caller k;
    auto verify = [&](const step & o) {
        for (auto & e : M) {
            const model & m = e.second;
            api::gr_view v;
            const api::gr * g = m.g;
            must(run1([&v, g]() {api::gr_look(g, v);}, 0, 2, serial()), "looking at a grid");
            if (int(v.n.size()) != m.c.nd)
                fail("geometry", "after %s grid %d has %zu directions", title(o).c_str(), e.first, v.n.size());
            for (int d = 0; d < m.c.nd; d++) {
                const size_t D = size_t(d);
                const double W = m.c.width[d], S = m.c.start[d], tol = 1e-9 * (W + 1e-3 * std::fabs(S));
                if (v.n[D] != m.c.n[d] || v.lo[D] != m.c.lo[d] || v.start[D] != S || v.width[D] != W)
                    fail("geometry", "after %s grid %d reports other extents in direction %d", title(o).c_str(), e.first, d);
                double at = S;
                for (int i = 0; i < m.c.n[d]; i++) {
                    const size_t I = size_t(i);
                    const double h = m.size[d][I] * W;
                    if (!(std::fabs(v.size[D][I] - h) <= 1e-9 * W) || !(v.size[D][I] > 0.))
                        fail("geometry", "after %s cell %d of direction %d of grid %d is %.17g wide instead of %.17g", title(o).c_str(), i, d, e.first, v.size[D][I], h);
                    if (!(std::fabs(v.centre[D][I] - (at + 0.5 * h)) <= tol))
                        fail("geometry", "after %s the centre of cell %d of direction %d of grid %d is %.17g instead of %.17g", title(o).c_str(), i, d, e.first, v.centre[D][I], at + 0.5 * h);
                    at += h;
                }
            }
            if (m.kind)
                continue;
            size_t q = 0;
            int n[3], ix[3];
            for (int d = 0; d < 3; d++)
                n[d] = d < m.c.nd ? m.c.n[d] + 4 : 1;
            for (ix[0] = 0; ix[0] < n[0]; ix[0]++)
                for (ix[1] = 0; ix[1] < n[1]; ix[1]++)
                    for (ix[2] = 0; ix[2] < n[2]; ix[2]++, q += 3)
                        for (int d = 0; d < 3; d++) {
                            const double want = d < m.c.nd ? m.c.start[d] + (double(ix[d]) - 1.5) * m.c.width[d] / double(m.c.n[d]) : -7.;
                            if (q + 2 >= v.xc.size() || !(std::fabs(v.xc[q + size_t(d)] - want) <= (d < m.c.nd ? 1e-9 * (m.c.width[d] + 1e-3 * std::fabs(m.c.start[d])) : 0.)))
                                fail("geometry", "after %s the coordinate %d of cell (%d,%d,%d) of grid %d is not %.17g", title(o).c_str(), d, ix[0] - 2, ix[1] - 2, ix[2] - 2, e.first, want);
                        }
            if (q != v.xc.size())
                fail("geometry", "after %s grid %d has another number of cells", title(o).c_str(), e.first);
        }
    };
    for (const step & o : p.ops) {
        const std::vector<int> & d = o.d;
        const int a = d[0];
        if (o.kind != "gnew" && o.kind != "gcopy" && !M.count(a))
            continue;
        auto same = [&]() {verify(o);};
        if (o.kind == "gnew") {
            if (M.count(a))
                continue;
            model m;
            m.kind = d[1];
            m.c.nd = d[2];
            for (int i = 0; i < m.c.nd; i++) {
                m.c.n[i] = d[size_t(3 + i)];
                m.c.start[i] = o.x[size_t(2 * i)];
                m.c.width[i] = o.x[size_t(2 * i + 1)];
                m.c.lo[i] = d[size_t(3 + m.c.nd + i)];
                m.size[i].assign(size_t(m.c.n[i]), 1. / m.c.n[i]);
            }
            k.run(o, false, [&m]() {m.g = api::gr_new(m.kind, m.c);}, same);
            M[a] = m;
        } else if (o.kind == "gcopy" || o.kind == "gassign") {
            if (!M.count(d[1]) || (o.kind == "gcopy" ? M.count(a) : M[a].kind != M[d[1]].kind))
                continue;
            const api::gr * from = M[d[1]].g;
            model m = M[d[1]];
            if (o.kind == "gcopy")
                k.run(o, false, [&m, from]() {m.g = api::gr_copy(from);}, same);
            else {
                api::gr * g = m.g = M[a].g;
                const model old = M[a];
                k.run(o, false, [g, from]() {api::gr_assign(g, from);}, [&]() {
                    // without memory it stays what it was, or is what it should become
                    api::gr_view v;
                    must(run1([&v, g]() {api::gr_extents(g, v);}, 0, 2, serial()), "looking at a grid");
                    if (memerr.hit)
                        fail("memory", "after a failed attempt of %s: %s", title(o).c_str(), memerr.text.c_str());
                    bool was = int(v.n.size()) == old.c.nd;
                    for (int i = 0; was && i < old.c.nd; i++) {
                        const size_t I = size_t(i);
                        was = v.n[I] == old.c.n[i] && v.lo[I] == old.c.lo[i] && v.start[I] == old.c.start[i] && v.width[I] == old.c.width[i];
                    }
                    M[a] = was ? old : m;
                    verify(o);
                    if (memerr.hit)
                        fail("memory", "after a failed attempt of %s: %s", title(o).c_str(), memerr.text.c_str());
                });
            }
            M[a] = m;
        } else if (o.kind == "gbias") { // d: grid, direction, symmetric; x: power
            model & m = M[a];
            const int dim = d[1];
            const bool sym = d[2] != 0;
            const double power = o.x[0];
            if (!m.kind)
                continue;
            const bool refused = dim < 0 || dim >= m.c.nd || (sym && m.c.n[dim] % 2 == 1);
            api::gr * g = m.g;
            if (k.run(o, refused, [g, dim, power, sym]() {api::gr_bias(g, dim, power, sym);})) {
                const int n = m.c.n[dim], h = sym ? n / 2 : n;
                for (int i = 0; i < h; i++) {
                    const double w = std::pow(double(i + 1) / h, 1. / power) - std::pow(double(i) / h, 1. / power);
                    if (sym)
                        m.size[dim][size_t(i)] = m.size[dim][size_t(n - 1 - i)] = 0.5 * w;
                    else
                        m.size[dim][size_t(n - 1 - i)] = w;
                }
            }
        } else if (o.kind == "gask") { // d: grid, direction, index, what
            const model & m = M[a];
            const bool refused = d[1] < 0 || d[1] >= m.c.nd || ((m.kind || d[3] == 0) && (d[2] < 0 || d[2] >= m.c.n[d[1]]));
            const api::gr * g = m.g;
            k.run(o, refused, [g, &d]() {api::gr_ask(g, d[1], d[2], d[3]);});
        } else if (o.kind == "gdrop") {
            api::gr * g = M[a].g;
            M.erase(a);
            must(run1([g]() {api::gr_drop(g);}, o.id, 16, serial()), "destroying a grid");
        }
        verify(o);
    }
    for (auto & e : M) {
        for (int i = 0; i < e.second.c.nd; i++)
            for (double v : e.second.size[i]) {
                uint64_t b;
                memcpy(&b, &v, 8);
                mix(b);
            }
        api::gr * g = e.second.g;
        must(run1([g]() {api::gr_drop(g);}, 0, 1, serial()), "destroying a grid");
    }
    if (memerr.hit)
        fail("memory", "at the end: %s", memerr.text.c_str());
}

// ------------------------------------------------------------------ C14
void run_C14()
{
    hooks h;
    lane ref, sut;
    h.after = [&](size_t, const step & o, const states & before, lane & s, const outcome &, bool failed) {
        if (!is_initial(o.kind)) {
            unchanged(o, before, s.S, outputs(o), "side_effect");
            return;
        }
        unchanged(o, before, s.S, o.v, "side_effect");
        if (failed)
            return;
        for (int v : o.v)
            if (!s.S[size_t(v)].present)
                return;
        const modelled m = model_initial(o, P->grids[0], s.S);
        for (size_t x = 0; x < m.out.size(); x++) {
            const expectation & e = m.expect[x];
            const arr & got = s.S[size_t(m.out[x])];
            interior(got, [&](int i, int j, int k) {
                for (int c = 0; c < got.nc; c++) {
                    const double y = got(i, j, k, c), want = e.value(i, j, k, c);
                    if (std::isnan(want))
                        st.probe[P_ILL]++;
                    else if (!(std::fabs(y - want) <= e.scale[e.value.at(i, j, k, c)]))
                        fail("profile", "%s: cell (%d,%d,%d) component %d of '%s' is %.17g, its profile has %.17g there", title(o).c_str(), i, j, k, c, P->vars[size_t(m.out[x])].name.c_str(), y, want);
                }
            });
        }
    };
    history(h, ref, sut, P->sched);
}

// ------------------------------------------------------------------ whole programs
// A program runs in a process of its own; only the disk survives it.
struct image
{
    std::map<std::string, std::string> files;
    std::map<std::string, std::string> acked;      // frames whose export had returned
    std::vector<counts> len;                       // per step
    std::vector<uint64_t> state;                   // hash of all variables after each step
    std::vector<std::vector<double>> last;         // final values
    int stopped = -1;                              // index of the step that ended the program early
    int kind = OK;                                 // how
    std::string what;
    result r;
};

void put(std::string & b, const void * p, size_t n) { b.append((const char *) p, n); }
void put(std::string & b, uint64_t v) { put(b, &v, 8); }
void put(std::string & b, const std::string & s)
{
    put(b, uint64_t(s.size()));
    b += s;
}
struct reader
{
    const std::string & b;
    size_t at = 0;
    bool bad = false;
    explicit reader(const std::string & s) : b(s) {}
    void get(void * p, size_t n)
    {
        if (at + n > b.size()) {
            bad = true;
            memset(p, 0, n);
            return;
        }
        memcpy(p, b.data() + at, n);
        at += n;
    }
    uint64_t num()
    {
        uint64_t v;
        get(&v, 8);
        return v;
    }
    std::string str()
    {
        uint64_t n = num();
        if (bad || at + n > b.size()) {
            bad = true;
            return std::string();
        }
        std::string s = b.substr(at, n);
        at += n;
        return s;
    }
};
void put(std::string & b, const std::map<std::string, std::string> & m)
{
    put(b, uint64_t(m.size()));
    for (auto & x : m) {
        put(b, x.first);
        put(b, x.second);
    }
}
std::map<std::string, std::string> get_map(reader & r)
{
    std::map<std::string, std::string> m;
    for (uint64_t n = r.num(); n && !r.bad; n--) {
        std::string k = r.str();
        m[k] = r.str();
    }
    return m;
}

std::string pack(const image & i)
{
    std::string b;
    put(b, i.files);
    put(b, i.acked);
    put(b, uint64_t(i.len.size()));
    for (auto & c : i.len)
        put(b, &c, sizeof c);
    put(b, uint64_t(i.state.size()));
    for (uint64_t x : i.state)
        put(b, x);
    put(b, uint64_t(i.last.size()));
    for (auto & v : i.last) {
        put(b, uint64_t(v.size()));
        put(b, v.data(), v.size() * 8);
    }
    put(b, uint64_t(int64_t(i.stopped)));
    put(b, uint64_t(i.kind));
    put(b, i.what);
    put(b, uint64_t(i.r.bad));
    put(b, i.r.cls);
    put(b, i.r.text);
    put(b, i.r.event_hash);
    put(b, i.r.sched_hash);
    put(b, i.r.state_hash);
    put(b, i.r.ops);
    put(b, i.r.sim_ns);
    put(b, &i.r.st, sizeof i.r.st);
    put(b, uint64_t(i.r.switches.size()));
    for (auto & s : i.r.switches)
        put(b, &s, sizeof s);
    return b;
}
bool unpack(const std::string & b, image & i)
{
    reader r(b);
    i.files = get_map(r);
    i.acked = get_map(r);
    for (uint64_t n = r.num(); n && !r.bad; n--) {
        counts c;
        r.get(&c, sizeof c);
        i.len.push_back(c);
    }
    for (uint64_t n = r.num(); n && !r.bad; n--)
        i.state.push_back(r.num());
    for (uint64_t n = r.num(); n && !r.bad; n--) {
        uint64_t k = r.num();
        if (r.bad || k > b.size())
            return false;
        i.last.emplace_back(k);
        r.get(i.last.back().data(), k * 8);
    }
    i.stopped = int(int64_t(r.num()));
    i.kind = int(r.num());
    i.what = r.str();
    i.r.bad = r.num() != 0;
    i.r.cls = r.str();
    i.r.text = r.str();
    i.r.event_hash = r.num();
    i.r.sched_hash = r.num();
    i.r.state_hash = r.num();
    i.r.ops = r.num();
    i.r.sim_ns = r.num();
    r.get(&i.r.st, sizeof i.r.st);
    for (uint64_t n = r.num(); n && !r.bad; n--) {
        sw s;
        r.get(&s, sizeof s);
        i.r.switches.push_back(s);
    }
    return !r.bad;
}

void finish_result()
{
    R.event_hash = event_hash;
    R.sched_hash = sched_hash();
    R.sim_ns = sim_now_ns - 1000000000ull;
    R.st = st;
    R.switches = recorded;
}

// runs f in a fresh copy of this (pristine) process
image in_process(const char * what, const std::function<void(image &)> & f)
{
    int fd[2];
    if (pipe(fd))
        abort();
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]);
        R = result();
        memset(&st, 0, sizeof st);
        recorded.clear();
        image i;
        try {
            f(i);
        } catch (const violation & v) {
            i.r.bad = true;
            R.bad = true;
            R.cls = v.cls;
            R.text = v.text;
        }
        finish_result();
        i.r = R;
        const std::string b = pack(i);
        size_t at = 0;
        while (at < b.size()) {
            ssize_t n = ::write(fd[1], b.data() + at, b.size() - at);
            if (n <= 0)
                _exit(9);
            at += size_t(n);
        }
        _exit(0);
    }
    close(fd[1]);
    std::string b;
    char buf[65536];
    ssize_t n;
    while ((n = ::read(fd[0], buf, sizeof buf)) > 0)
        b.append(buf, size_t(n));
    close(fd[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    image i;
    if (WIFSIGNALED(status))
        fail(WTERMSIG(status) == SIGXCPU ? "hang" : "signal", "%s: the process was killed by signal %d (%s)", what, WTERMSIG(status), strsignal(WTERMSIG(status)));
    if (!WIFEXITED(status) || WEXITSTATUS(status) != 0 || !unpack(b, i)) {
        fprintf(stderr, "harness: lost a phase (status %d)\n", status);
        _exit(7);
    }
    // merge what it observed
    R.ops += i.r.ops;
    R.sim_ns += i.r.sim_ns;
    event("phase", i.r.event_hash, i.r.sched_hash);
    mix(i.r.state_hash);
    phase_sched = (phase_sched ^ i.r.sched_hash) * 1099511628211ull + 1;
    for (int k = 0; k < F_KINDS; k++)
        st.fired[k] += i.r.st.fired[k];
    st.switches += i.r.st.switches;
    st.regions += i.r.st.regions;
    st.steps += i.r.st.steps;
    st.teams_max = std::max(st.teams_max, i.r.st.teams_max);
    st.allocs += i.r.st.allocs;
    st.ios += i.r.st.ios;
    st.tasks += i.r.st.tasks;
    for (int k = 0; k < 32; k++)
        st.probe[k] += i.r.st.probe[k];
    recorded.insert(recorded.end(), i.r.switches.begin(), i.r.switches.end());
    if (i.r.bad)
        fail(i.r.cls, "%s: %s", what, i.r.text.c_str());
    return i;
}

uint64_t hash_states(const states & S)
{
    uint64_t h = 1469598103934665603ull;
    for (const arr & a : S) {
        h = (h ^ uint64_t(a.present)) * 1099511628211ull;
        for (double v : a.a) {
            uint64_t b;
            memcpy(&b, &v, 8);
            h = (h ^ b) * 1099511628211ull;
            h ^= h >> 29;
        }
    }
    return h;
}

struct program
{
    sched_cfg sched;
    int start = 0;                  // number of the program start, for faults and switch lists
    bool faults = false;
    bool retry = false;             // repeat the stage after a failed call (C06), else stop (C11)
    bool keep_values = false;
    const std::vector<counts> * len = nullptr;
    std::map<std::string, std::string> disk0;
};

void run_program(const program & g, image & out)
{
    const plan & p = *P;
    std::set<std::string> frames;
    for (const step & o : p.ops)
        if (o.kind == "write")
            frames.insert(o.s);
    lane s;
    s.dsk.files = g.disk0;
    s.start(1, 0, g.sched);
    out.len.resize(p.ops.size());
    std::map<int, int> attempts;
    std::set<std::string> mine; // written by this start
    for (size_t i = 0; i < p.ops.size();) {
        const step & o = p.ops[i];
        if (o.kind == "set") {
            s.local(o);
            out.state.push_back(hash_states(s.S));
            i++;
            continue;
        }
        if (o.kind == "work") {
            std::string report;
            std::string * to = &report;
            must(run1([to, &o]() {
                const std::string t = api::private_work(uint64_t(o.d[0]), o.d[1]);
                harness_scope hs;
                to->assign(t.data(), t.size());
            }, o.id, 16, g.sched), "work on objects of its own");
            uint64_t x = 1469598103934665603ull;
            for (char c : report)
                x = (x ^ uint64_t((unsigned char) c)) * 1099511628211ull;
            out.state.push_back(x);
            i++;
            continue;
        }
        const std::map<std::string, std::string> files = s.dsk.files;
        const int attempt = g.retry ? attempts[o.group] : g.start;
        std::vector<fault> f;
        if (g.faults)
            f = faults_for(o, attempt, g.len ? (*g.len)[i] : counts());
        // faults of a later attempt must not strike twice in one stage
        const states before = s.S;
        outcome r = s.call(o, 16 + g.start * 16 + (g.retry ? std::min(attempt, 15) : 0), g.sched, f);
        out.len[i].allocs = op_allocs();
        out.len[i].ios = op_ios();
        out.len[i].steps = op_steps();
        const uint64_t hard = op_fired_hard();
        check_alive(o, r);
        for (const std::string & n : frames) {
            if (o.kind == "write" && n == o.s)
                continue;
            const auto a = files.find(n);
            const auto b = s.dsk.files.find(n);
            const bool ea = a != files.end(), eb = b != s.dsk.files.end();
            if (ea != eb || (ea && a->second != b->second))
                fail("frame_altered", "%s %s the file of another frame, '%s'", title(o).c_str(), ea ? (eb ? "altered" : "removed") : "created", n.c_str());
        }
        if (r.kind == CRASHED) {
            st.probe[P_CRASH]++;
            out.files = s.dsk.files;
            out.stopped = int(i);
            out.kind = CRASHED;
            return;
        }
        if (r.kind != OK) {
            if (!hard)
                fail("unexpected_failure", "%s ended with %s without any fault: %s", title(o).c_str(), outcome_name[r.kind], r.what.c_str());
            s.dsk.capacity = -1;
            if (!g.retry) {
                out.files = s.dsk.files;
                out.stopped = int(i);
                out.kind = r.kind;
                out.what = r.what;
                return;
            }
            if (++attempts[o.group] > 8)
                fail("no_progress", "%s still fails after 8 attempts", title(o).c_str());
            s.snapshot();
            while (i > 0 && p.ops[i - 1].group == o.group) {
                i--;
                out.state.pop_back();
            }
            continue;
        }
        s.snapshot();
        if (o.kind == "write") {
            auto it = s.dsk.files.find(o.s);
            if (it == s.dsk.files.end())
                fail("export_missing", "%s reported success, but there is no file '%s'", title(o).c_str(), o.s.c_str());
            const std::string bad = check_vtk(it->second, p.grids[0], p.vars, o.v, before);
            if (!bad.empty())
                fail("export_content", "%s reported success, but the file is wrong: %s", title(o).c_str(), bad.c_str());
            out.acked[o.s] = it->second;
            mine.insert(o.s);
            st.probe[P_ACK]++;
        }
        out.state.push_back(hash_states(s.S));
        i++;
    }
    out.files = s.dsk.files;
    mix(out.state.empty() ? 0 : out.state.back());
    if (g.keep_values)
        for (const arr & a : s.S) {
            std::vector<double> v;
            if (a.present)
                interior(a, [&](int i, int j, int k) {
                    for (int m = 0; m < a.nc; m++)
                        v.push_back(a(i, j, k, m));
                });
            out.last.push_back(v);
        }
}

void set_clock_mode(int m)
{
    ccfg.mode = m;
    ccfg.seed = P->seed;
}

// ------------------------------------------------------------------ C06
void run_C06()
{
    program g;
    g.sched = serial();
    const image ref = in_process("undisturbed run", [&](image & i) {run_program(g, i);});
    program c;
    c.sched = P->sched;
    c.faults = true;
    c.retry = true;
    c.len = &ref.len;
    const image dead = in_process("run with crash", [&](image & i) {run_program(c, i);});
    for (auto & a : dead.acked) {
        auto it = dead.files.find(a.first);
        if (it == dead.files.end())
            fail("frame_lost", "frame '%s' had been reported as exported, but is gone after the crash", a.first.c_str());
        if (it->second != a.second)
            fail("frame_torn", "frame '%s' had been reported as exported, but is different after the crash (%zu against %zu bytes)", a.first.c_str(), it->second.size(), a.second.size());
        auto r = ref.acked.find(a.first);
        if (r != ref.acked.end() && r->second != a.second)
            fail("frame_content", "frame '%s' of the disturbed run differs from the undisturbed run", a.first.c_str());
    }
    for (auto & f : dead.files)
        if (!dead.acked.count(f.first))
            st.probe[P_TORN]++;
    program a;
    a.sched = P->sched;
    a.start = 1;
    a.disk0 = dead.files;
    const image again = in_process("run after restart", [&](image & i) {run_program(a, i);});
    st.probe[P_RESTART]++;
    for (auto & f : ref.acked) {
        auto it = again.files.find(f.first);
        if (it == again.files.end() || it->second != f.second)
            fail("restart", "after the restart frame '%s' is %s", f.first.c_str(), it == again.files.end() ? "missing" : "different");
    }
}

// ------------------------------------------------------------------ C11
void run_example();
void run_C11()
{
    if (P->get("examples")) {
        if (api::example)
            run_example();
        return;
    }
    program g;
    g.sched = serial();
    const image ref = in_process("undisturbed run", [&](image & i) {run_program(g, i);});
    std::map<std::string, std::string> dsk;
    int starts = 1;
    for (const pfault & f : P->faults)
        starts = std::max(starts, f.attempt + 2);
    bool complete = false;
    for (int k = 0; k < starts + 1 && !complete; k++) {
        program c;
        c.sched = P->sched;
        c.faults = true;
        c.start = k;
        c.len = &ref.len;
        c.disk0 = dsk;
        const image i = in_process(k ? "run after restart" : "run", [&](image & x) {
            set_clock_mode(int(P->get("clock")));
            acfg.seed = P->seed % 97 + 2;
            run_program(c, x);
        });
        if (k)
            st.probe[P_RESTART]++;
        // what it had announced is there and equal to the undisturbed run
        for (auto & a : i.acked) {
            auto d = i.files.find(a.first);
            auto r = ref.acked.find(a.first);
            if (d == i.files.end() || d->second != a.second)
                fail("frame_torn", "frame '%s' was exported, but its file changed later", a.first.c_str());
            if (r == ref.acked.end() || r->second != a.second)
                fail("frame_content", "frame '%s' differs from the same frame of an undisturbed run", a.first.c_str());
        }
        if (i.stopped >= 0 && i.kind != CRASHED) {
            const step & o = P->ops[size_t(i.stopped)];
            if (o.kind == "write" && i.kind != EXC_QK)
                fail("stop_kind", "the disk failed, and %s ended with %s instead of the library's exception", title(o).c_str(), outcome_name[i.kind]);
            st.probe[P_EXPORT_FAIL]++;
        }
        complete = i.stopped < 0;
        if (complete) {
            for (size_t s = 0; s < ref.state.size() && s < i.state.size(); s++)
                if (ref.state[s] != i.state[s])
                    fail("not_reproducible", "after %s the variables differ from those of an undisturbed run", title(P->ops[s]).c_str());
            for (auto & f : ref.files) {
                auto it = i.files.find(f.first);
                if (it == i.files.end() || it->second != f.second)
                    fail("frame_content", "in the end frame '%s' is %s", f.first.c_str(), it == i.files.end() ? "missing" : "different from an undisturbed run");
            }
        }
        dsk = i.files;
    }
    if (!complete)
        fail("no_progress", "the program does not reach its end although no faults are left");
}

// The example programs of the library, run end to end.  cfg: example, cap (cells per direction),
// frames (after so many frames the observation ends, -1: the program runs to its end).
const int announced[api::example_kinds] = { 100, 100, 100, 100, 1000, 100, 100, 1000 };   // frames after the initial one

std::string shape_of(const std::string & t)
{
    // everything but the values: header lines, and the number of values after each
    std::string s;
    size_t at = 0, values = 0;
    bool data = false;
    while (at < t.size()) {
        size_t e = t.find('\n', at);
        if (e == std::string::npos)
            e = t.size();
        const std::string l = t.substr(at, e - at);
        at = e + 1;
        if (!l.empty() && (isupper((unsigned char) l[0]) || l[0] == '#')) {
            if (data)
                s += std::to_string(values) + " values\n";
            data = l.compare(0, 6, "LOOKUP") == 0;
            values = 0;
            s += l + '\n';
        } else if (data) {
            bool in = false;
            for (char c : l) {
                const bool x = !isspace((unsigned char) c);
                values += x && !in;
                in = x;
            }
        } else
            s += l + '\n';
    }
    if (data)
        s += std::to_string(values) + " values\n";
    return s;
}
bool complete_frame(const std::string & t, std::string & why)
{
    std::vector<std::string> w;
    std::string s;
    long want = -1;
    std::istringstream i(shape_of(t));
    int sets = 0;
    while (std::getline(i, s)) {
        if (s.compare(0, 10, "CELL_DATA ") == 0)
            want = atol(s.c_str() + 10);
        else if (s.compare(0, 8, "SCALARS ") == 0)
            sets++;
        else if (s.size() > 7 && s.compare(s.size() - 7, 7, " values") == 0) {
            if (atol(s.c_str()) != want) {
                why = s + " where " + std::to_string(want) + " were announced";
                return false;
            }
            sets += 1 << 16;
        }
    }
    if (want <= 0 || !sets || (sets >> 16) != (sets & 0xffff)) {
        why = "no complete set of values";
        return false;
    }
    return true;
}

// names of the frames in the order in which they were finished
std::vector<std::string> sequence(const std::vector<std::string> & fin)
{
    std::vector<std::string> r;
    for (const std::string & f : fin)
        if (f.size() > 4 && f.compare(f.size() - 4, 4, ".vtk") == 0)
            r.push_back(f);
    return r;
}

void check_sequence(const std::vector<std::string> & q, const char * what)
{
    if (q.empty())
        return;
    const std::string & f0 = q[0];
    if (f0.size() < 6 || f0.compare(f0.size() - 6, 6, "_0.vtk") != 0)
        fail("frame_order", "%s: the first frame is '%s'", what, f0.c_str());
    const std::string stem = f0.substr(0, f0.size() - 5);
    for (size_t k = 1; k < q.size(); k++)
        if (q[k] != stem + std::to_string(k) + ".vtk")
            fail("frame_order", "%s: after %zu frames '%s' is written instead of frame %zu", what, k, q[k].c_str(), k);
}

void run_example()
{
    const int which = int(P->get("example")), cap = int(P->get("cap", 6));
    const long frames = P->get("frames", 2);
    const step & o = P->ops[0];
    auto once = [&](image & out, int start, const sched_cfg & c, const std::map<std::string, std::string> & d0, const std::vector<fault> & f) {
        disk = disk_state();
        disk.files = d0;
        disk.curtain = frames < 0 ? -1 : frames + 1;
        const std::string dir = "/sim/example";
        exit_code = -1;
        outcome r = run1([which, cap, &dir]() {api::example(which, cap, dir);}, o.id, 16 + 16 * start, c, f, 400000000ull);
        if (r.kind == CRASHED && exit_code >= 0) // the program ended itself, and says how
            r.kind = exit_code ? EXC_QK : OK;
        counts n;
        n.allocs = op_allocs();
        n.ios = op_ios();
        n.steps = op_steps();
        out.len.push_back(n);
        out.files = disk.files;
        for (const std::string & s : disk.finished)
            out.what += s + '\n';
        out.kind = r.kind;
        out.stopped = int(op_fired_hard() ? 1 : 0);
        out.acked["text"] = r.what;
        if (memerr.hit)
            fail("memory", "example %d: %s", which, memerr.text.c_str());
        R.ops++;
    };
    auto finished = [](const image & i) {
        std::vector<std::string> v;
        std::istringstream s(i.what);
        std::string l;
        while (std::getline(s, l))
            v.push_back(l);
        return sequence(v);
    };
    const image ref = in_process("undisturbed program", [&](image & i) {once(i, 0, serial(), std::map<std::string, std::string>(), std::vector<fault>());});
    if (ref.kind == BUDGET) {
        st.probe[P_EXAMPLE_OPEN]++;
        return; // too large to observe: no answer
    }
    if (ref.kind != OK && ref.kind != CRASHED)
        fail("unexpected_failure", "example program %d ends with %s without any fault: %s", which, outcome_name[ref.kind], ref.acked.at("text").c_str());
    const std::vector<std::string> want = finished(ref);
    check_sequence(want, "undisturbed program");
    const size_t count = size_t(frames < 0 ? announced[which] : std::min(long(announced[which]), frames)) + 1;
    if (want.size() != count)
        fail("frame_count", "example program %d %s %zu frames, %zu expected", which, ref.kind == OK ? "ends with" : "is seen to write", want.size(), count);
    std::string shape;
    for (const std::string & n : want) {
        auto it = ref.files.find(n);
        std::string why;
        if (it == ref.files.end())
            fail("frame_lost", "frame '%s' is gone", n.c_str());
        if (!complete_frame(it->second, why))
            fail("frame_incomplete", "frame '%s' is not a complete data set: %s", n.c_str(), why.c_str());
        const std::string s = shape_of(it->second);
        if (shape.empty())
            shape = s;
        else if (s != shape)
            fail("frame_shape", "frame '%s' has another header or other variables than the frames before", n.c_str());
    }
    st.probe[P_EXAMPLE]++;
    st.probe[P_EXAMPLE_END] += ref.kind == OK;
    int starts = 1;
    for (const pfault & f : P->faults)
        starts = std::max(starts, f.attempt + 2);
    std::map<std::string, std::string> dsk;
    bool complete = false;
    for (int k = 0; k < starts + 1 && !complete; k++) {
        const std::vector<fault> f = faults_for(o, k, ref.len[0]);
        const char * title = k ? "program after restart" : "program";
        const image i = in_process(title, [&](image & x) {
            set_clock_mode(int(P->get("clock")));
            acfg.seed = P->seed % 97 + 2;
            acfg.stack_fill = P->get("stack") ? 0x3FF0000000000000ull + (P->seed % 5) * 0x0010100000000000ull : 0;
            once(x, k + 1, P->sched, dsk, f);
        });
        if (i.kind == BUDGET) {
            st.probe[P_EXAMPLE_OPEN]++;
            return;
        }
        if (k)
            st.probe[P_RESTART]++;
        std::vector<std::string> got = finished(i);
        const bool failed = i.kind != OK && i.kind != CRASHED;
        if (failed) {
            if (!i.stopped)
                fail("unexpected_failure", "example program %d ends with %s without any fault: %s", which, outcome_name[i.kind], i.acked.at("text").c_str());
            if (i.kind != EXC_QK)
                fail("stop_kind", "the disk failed, and example program %d ended with %s instead of the library's exception", which, outcome_name[i.kind]);
            st.probe[P_EXPORT_FAIL]++;
        } else if (i.stopped)
            fail("ran_on", "the disk failed while example program %d was writing a frame, but the program went on", which);
        check_sequence(got, title);
        if (failed && got.size() && i.files.count(got.back()) && i.files.at(got.back()) != ref.files.at(want[got.size() - 1]))
            got.pop_back(); // the frame that failed
        if (got.size() > want.size())
            fail("frame_count", "example program %d writes more frames than in an undisturbed run", which);
        for (size_t m = 0; m < got.size(); m++) {
            auto a = i.files.find(want[m]);
            if (got[m] != want[m] || a == i.files.end())
                fail("frame_lost", "%s: frame '%s' is missing", title, want[m].c_str());
            if (a->second != ref.files.at(want[m]))
                fail("frame_content", "%s: frame '%s' differs from the same frame of an undisturbed run", title, want[m].c_str());
        }
        for (size_t m = 0; m < got.size(); m++)
            st.probe[P_ACK]++;
        complete = !failed && got.size() == want.size();
        if (i.kind == CRASHED && !complete)
            st.probe[P_CRASH]++;
        dsk = i.files;
        for (auto & x : i.files)
            event_bytes(x.second.data(), x.second.size());
    }
    if (!complete)
        fail("no_progress", "example program %d does not write its frames although no faults are left", which);
    mix(uint64_t(which * 1000 + cap * 10 + frames));
}

// ------------------------------------------------------------------ C12
std::vector<std::vector<double>> value_build()
{
    // the same history through another build of the library (optimised, vectorised, no range checks)
    int in[2], out[2];
    if (pipe(in) || pipe(out))
        abort();
    fflush(nullptr);
    const pid_t pid = fork();
    if (pid == 0) {
        dup2(in[0], 0);
        dup2(out[1], 1);
        close(in[0]);
        close(in[1]);
        close(out[0]);
        close(out[1]);
        execl(value_bin.c_str(), value_bin.c_str(), (char *) nullptr);
        _exit(9);
    }
    close(in[0]);
    close(out[1]);
    signal(SIGPIPE, SIG_IGN);
    const std::string t = to_text(*P);
    size_t at = 0;
    while (at < t.size()) {
        ssize_t n = ::write(in[1], t.data() + at, t.size() - at);
        if (n <= 0)
            break;
        at += size_t(n);
    }
    close(in[1]);
    std::string b;
    char buf[65536];
    ssize_t n;
    while ((n = ::read(out[0], buf, sizeof buf)) > 0)
        b.append(buf, size_t(n));
    close(out[0]);
    int status = 0;
    waitpid(pid, &status, 0);
    if (WIFSIGNALED(status))
        fail("value_build", "the optimised build is killed by signal %d (%s) in this history", WTERMSIG(status), strsignal(WTERMSIG(status)));
    if (WEXITSTATUS(status) == 5)
        fail("value_build", "the optimised build fails in this history: %.300s", b.c_str());
    if (WEXITSTATUS(status) != 0) {
        fprintf(stderr, "harness: value build ended with status %d\n", status);
        _exit(7);
    }
    std::vector<std::vector<double>> r;
    reader x(b);
    for (uint64_t k = x.num(); k && !x.bad; k--) {
        uint64_t m = x.num();
        if (x.bad || m > b.size())
            break;
        r.emplace_back(m);
        x.get(r.back().data(), m * 8);
    }
    return r;
}

void run_C12()
{
    program g;
    g.sched = serial();
    g.keep_values = true;
    const image ref = in_process("plain run", [&](image & i) {run_program(g, i);});
    program c;
    c.sched = P->sched;
    const image other = in_process("run in other surroundings", [&](image & i) {
        acfg.seed = uint64_t(P->get("aseed", 2));
        acfg.skew = int(P->get("skew"));
        acfg.quarantine = int(P->get("quarantine", 64));
        static const uint64_t fills[6] = { 0, 0x3FF0000000000000ull, 0x7FF8000000000001ull, 0xC059000000000000ull, 0xFFFFFFFFFFFFFFFFull, 0x4340000000000000ull };
        acfg.stack_fill = fills[P->get("stack") % 6];
        acfg.keep_stack = P->get("keep") != 0;
        set_clock_mode(int(P->get("clock")));
        for (long k = 0; k < P->get("prework"); k++) {
            // earlier work of the process: part of the same program on other data, perhaps on
            // another grid (of other dimensions) and with other parameters
            lane x;
            const int which = P->grids.size() > 1 && (k > 2 || k == P->get("other")) ? 1 : 0;
            const int nd = P->grids[size_t(which)].nd;
            x.start(2, which, serial());
            for (const step & o : P->ops) {
                step q = o;
                if (o.kind == "work") {
                    q.d[0] += 12345 * int(k + 1);
                    x.call(q, 900, serial(), std::vector<fault>());
                    continue;
                }
                if (which && o.kind != "set") {
                    for (double & v : q.x)
                        v *= 1.25;
                    if (is_bc(q.kind))
                        q.d.erase(std::remove_if(q.d.begin(), q.d.end(), [nd](int d) {return d >= nd;}), q.d.end());
                    if (q.kind == "wave" && q.d[0] >= nd)
                        q.d[0] = 0;
                    if (is_bc(q.kind) && q.d.empty())
                        continue;
                }
                if (o.kind == "set") {
                    q.d[1] += 12345;
                    x.local(q);
                } else
                    x.call(q, 900, serial(), std::vector<fault>());
                if (o.id > int(P->ops.size()) / 2 + 2 && k)
                    break;
            }
            if (k == 0)
                x.stop();
        }
        run_program(c, i);
    });
    if (ref.state.size() != other.state.size())
        fail("hidden_state", "the program takes another course in other surroundings");
    for (size_t s = 0; s < ref.state.size(); s++)
        if (ref.state[s] != other.state[s])
            fail("hidden_state", "%s gives other values when memory, stack, clock or earlier work differ", title(P->ops[s]).c_str());
    for (auto & f : ref.files) {
        auto it = other.files.find(f.first);
        if (it == other.files.end() || it->second != f.second)
            fail("hidden_state", "file '%s' differs when memory, stack, clock or earlier work differ", f.first.c_str());
    }
    if (!value_bin.empty()) {
        st.probe[P_VALUE_BUILD]++;
        const std::vector<std::vector<double>> v = value_build();
        if (v.size() != ref.last.size())
            fail("value_build", "the optimised build creates other variables");
        for (size_t i = 0; i < v.size(); i++) {
            const std::vector<double> & a = ref.last[i], & b = v[i];
            if (a.size() != b.size())
                fail("value_build", "variable '%s' has another size in the optimised build", P->vars[i].name.c_str());
            double m = 0;
            for (double x : a)
                if (std::isfinite(x))
                    m = std::max(m, std::fabs(x));
            for (size_t k = 0; k < a.size(); k++) {
                const bool fa = std::isfinite(a[k]), fb = std::isfinite(b[k]);
                if (fa != fb || (fa && std::fabs(a[k] - b[k]) > 1e-9 * m))
                    fail("value_build", "value %zu of '%s' is %.17g, in the optimised build %.17g", k, P->vars[i].name.c_str(), a[k], b[k]);
            }
        }
    }
}

// ------------------------------------------------------------------ C10
struct caller_log
{
    std::vector<outcome> out;
    std::vector<std::string> clones;
    std::vector<uint64_t> state;
    uint64_t fired = 0;
};

void run_C10()
{
    const plan & p = *P;
    const int n = int(p.get("callers", 2));
    const bool share = p.get("share", 1) != 0;
    // one pass: every caller (alone or together), each with a manager of its own
    auto pass = [&](int only, image & img, int steered = 0) {
        sched_cfg sc = p.sched;
        if (steered) {
            sc.mode = SCHED_DIRECTED;
            sc.seed += uint64_t(steered) * 7919;
        } else
            sc.record_conflicts = only < 0;
        std::vector<api::world *> W(size_t(n), nullptr);
        std::vector<lane> L((size_t(n)));
        for (int c = 0; c < n; c++)
            if (only < 0 || only == c) {
                L[size_t(c)].start(1, c, serial());
                W[size_t(c)] = L[size_t(c)].world;
            }
        // solver objects, shared between callers that configure the same step
        std::map<std::string, api::prepared *> prep;
        std::vector<api::prepared *> use(p.ops.size(), nullptr);
        if (share)
            for (size_t i = 0; i < p.ops.size(); i++) {
                const step & o = p.ops[i];
                if (pseudo(o) || o.kind == "clone" || o.kind == "work")
                    continue;
                std::string key = o.kind + "/" + o.s;
                for (int x : o.v)
                    key += "," + std::to_string(x);
                for (int x : o.d)
                    key += ";" + std::to_string(x);
                for (double x : o.x) {
                    char b[40];
                    snprintf(b, sizeof b, ":%a", x);
                    key += b;
                }
                auto it = prep.find(key);
                if (it == prep.end()) {
                    api::prepared * q = nullptr;
                    api::prepared ** slot = &q;
                    must(run1([slot, &o]() {*slot = api::prepare(o, P->vars);}, 0, 4, serial()), "configuring a solver");
                    it = prep.insert(std::make_pair(key, q)).first;
                }
                use[i] = it->second;
            }
        std::vector<std::vector<outcome>> out((size_t(n)));
        std::vector<std::vector<std::string>> clones((size_t(n)));
        std::vector<std::function<void()>> bodies;
        for (int c = 0; c < n; c++) {
            if (only >= 0 && only != c) {
                bodies.push_back([]() {});
                continue;
            }
            bodies.push_back([&, c]() {
                std::vector<std::pair<std::exception_ptr, std::pair<const char *, std::string>>> caught;
                for (size_t i = 0; i < P->ops.size(); i++) {
                    const step & o = P->ops[i];
                    if (o.w != c)
                        continue;
                    outcome r;
                    if (o.kind == "set") {
                        api::layout l;
                        try {
                            api::look(W[size_t(c)], P->vars[size_t(o.v[0])], l);
                        } catch (const std::exception &) {
                            continue; // was never created, because creating it failed
                        }
                        harness_scope hs;
                        arr a = read_layout(l);
                        set_values(a, o.x.empty() ? 1.4 : o.x[0], o.d[0], uint64_t(o.d[1]));
                        write_layout(l, a);
                        continue;
                    }
                    try {
                        if (o.kind == "clone") {
                            for (int more = o.d.empty() ? 1 : o.d[0]; more > 0; more--) {
                                std::string s = api::clone_name(P->vars[size_t(o.v[0])]);
                                harness_scope hs;
                                clones[size_t(c)].push_back(std::string(s.c_str()));
                            }
                        } else if (o.kind == "work") {
                            const std::string s = api::private_work(uint64_t(o.d[0]), o.d[1]);
                            harness_scope hs;
                            r.what.assign(s.data(), s.size());
                        } else if (use[i])
                            api::call(W[size_t(c)], use[i]);
                        else
                            api::exec(W[size_t(c)], o, P->vars);
                    } catch (const std::bad_alloc &) {
                        harness_scope hs;
                        r.kind = EXC_ALLOC;
                    } catch (const std::exception & e) {
                        harness_scope hs;
                        r.kind = EXC_QK;
                        const char * w = e.what();
                        size_t k = 0;
                        while (k < 4096 && w[k])
                            k++;
                        r.what.assign(w, k);
                        caught.push_back(std::make_pair(std::current_exception(), std::make_pair(w, r.what)));
                    }
                    harness_scope hs;
                    r.what = std::to_string(o.id) + " " + o.kind + ": " + r.what;
                    out[size_t(c)].push_back(r);
                }
                harness_scope hs;
                for (const auto & x : caught)
                    if (strncmp(x.second.first, x.second.second.c_str(), x.second.second.size() + 1)) {
                        outcome r;
                        r.kind = EXC_QK;
                        r.what = "a kept message changed from " + x.second.second;
                        out[size_t(c)].push_back(r);
                    }
                caught.clear();
            });
        }
        std::vector<fault> f;
        for (const pfault & x : p.faults)
            f.push_back(fault(fault_kind(x.kind), x.at, x.arg, x.caller));
        std::vector<outcome> r = run(bodies, 1, 16 + (only < 0 ? 16 * steered : 1 + only), sc, f, 400000000ull);
        for (int c = 0; c < n; c++) {
            if (r[size_t(c)].kind == BUDGET)
                fail("no_progress", "caller %d did not end within its step budget", c);
            if (r[size_t(c)].kind == DEADLOCK)
                fail("deadlock", "caller %d and others wait for each other", c);
            if (r[size_t(c)].kind != OK)
                fail("unexpected_failure", "caller %d ended with %s: %s", c, outcome_name[r[size_t(c)].kind], r[size_t(c)].what.c_str());
        }
        // pack: outcomes, clones and states per caller
        for (int c = 0; c < n; c++) {
            if (only >= 0 && only != c)
                continue;
            std::string b;
            for (auto & o : out[size_t(c)])
                b += std::string(outcome_name[o.kind]) + " " + o.what + "\n";
            img.acked["out" + std::to_string(c)] = b;
            b.clear();
            for (auto & s : clones[size_t(c)])
                b += s + "\n";
            img.acked["clones" + std::to_string(c)] = b;
            L[size_t(c)].snapshot();
            for (size_t v = 0; v < P->vars.size(); v++) {
                const arr & a = L[size_t(c)].S[v];
                img.acked["state" + std::to_string(c) + " " + P->vars[v].name] = std::string((const char *) a.a.data(), a.a.size() * 8);
            }
        }
        img.files = disk.files;
        if (only < 0 && !steered)
            img.what = get_conflicts();
        R.ops += p.ops.size();
    };
    int victim = -1;
    for (const pfault & f : p.faults)
        victim = f.caller;
    std::vector<image> solos;
    for (int c = 0; c < n; c++)
        solos.push_back(c == victim ? image() : in_process("simulation alone", [&](image & i) {pass(c, i);}));
    auto compare = [&](image & all) {
        std::set<std::string> names;
        for (int c = 0; c < n; c++) {
            std::string s = all.acked["clones" + std::to_string(c)], t;
            for (char x : s) {
                if (x != '\n') {
                    t += x;
                    continue;
                }
                if (!names.insert(t).second)
                    fail("clone_name", "the unique name '%s' was handed out twice", t.c_str());
                t.clear();
            }
        }
        for (int c = 0; c < n; c++) {
            if (c == victim) // its own failures strike at counted calls, which may fall elsewhere
                continue;
            image & solo = solos[size_t(c)];
            const std::string me = std::to_string(c);
            if (solo.acked["out" + me] != all.acked["out" + me]) {
                const std::string & a = solo.acked["out" + me], & b = all.acked["out" + me];
                size_t k = 0;
                while (k < a.size() && k < b.size() && a[k] == b[k])
                    k++;
                const size_t f = a.rfind('\n', k), g = b.rfind('\n', k);
                fail("independence", "simulation %d reports '%.100s' when it runs beside others, and '%.100s' alone", c, b.substr(g == std::string::npos ? 0 : g + 1).c_str(), a.substr(f == std::string::npos ? 0 : f + 1).c_str());
            }
            for (auto & e : solo.acked)
                if (e.first.compare(0, 5 + me.size() + 1, "state" + me + " ") == 0 && all.acked[e.first] != e.second)
                    fail("independence", "simulation %d has other values in '%s' when it runs beside others", c, e.first.c_str() + 6 + me.size());
            const std::string dir = "/sim/c" + me + "/";
            for (auto & f : solo.files)
                if (f.first.compare(0, dir.size(), dir) == 0 && all.files[f.first] != f.second)
                    fail("independence", "file '%s' of simulation %d is different when it runs beside others", f.first.c_str(), c);
            for (auto & f : all.files)
                if (f.first.compare(0, dir.size(), dir) == 0 && !solo.files.count(f.first))
                    fail("independence", "file '%s' of simulation %d appears only when it runs beside others", f.first.c_str(), c);
        }
    };
    image all = in_process("concurrent simulations", [&](image & i) {pass(-1, i);});
    compare(all);
    if (!all.what.empty()) {
        st.probe[P_CONFLICT]++;
        // simulations met on the same locations: steer the schedule to them
        for (int t = 1; t <= 4; t++) {
            image again = in_process("concurrent simulations (steered)", [&](image & i) {
                set_conflicts(all.what);
                pass(-1, i, t);
            });
            st.probe[P_DIRECTED]++;
            compare(again);
        }
    }
}

} // namespace

result execute(const plan & p, const std::string & vb)
{
    P = &p;
    value_bin = vb;
    R = result();
    memset(&st, 0, sizeof st);
    if (p.explicit_sched) {
        force_explicit = true;
        explicit_switches = p.switches;
    }
    acfg.seed = 1;
    api::keep_solvers = int(p.get("pool", 0));
    try {
        if (p.prop == "C01")
            run_C01();
        else if (p.prop == "C02")
            run_C02();
        else if (p.prop == "C03")
            run_C03();
        else if (p.prop == "C04")
            run_C04();
        else if (p.prop == "C05")
            run_C05();
        else if (p.prop == "C06")
            run_C06();
        else if (p.prop == "C07")
            run_C07();
        else if (p.prop == "C08")
            run_C08();
        else if (p.prop == "C13")
            run_C13();
        else if (p.prop == "C14")
            run_C14();
        else if (p.prop == "C15")
            run_C15();
        else if (p.prop == "C17")
            run_C17();
        else if (p.prop == "C09")
            run_C09();
        else if (p.prop == "C10")
            run_C10();
        else if (p.prop == "C11")
            run_C11();
        else if (p.prop == "C12")
            run_C12();
        else {
            fprintf(stderr, "harness: no runner for %s\n", p.prop.c_str());
            _exit(7);
        }
    } catch (const violation & v) {
        R.bad = true;
        R.cls = v.cls;
        R.text = v.text;
    }
    const uint64_t ns = R.sim_ns;
    finish_result();
    if (ns)
        R.sim_ns = ns;
    if (phase_sched)
        R.sched_hash = phase_sched;
    return R;
}
