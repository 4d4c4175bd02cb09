// Plans from seeds: generate(property, seed, tier) is a pure function.
#include "plan.h"
#include <algorithm>
#include <cerrno>
#include <cmath>
#include <cstring>
#include <stdexcept>

using namespace sim;
typedef std::vector<int> ints;
typedef std::vector<double> reals;

namespace
{

const std::vector<std::string> FLUID = { "rho", "px", "py", "pz", "e" };
const std::vector<std::string> FIELD = { "ex", "ey", "ez", "bx", "by", "bz" };

struct actor
{
    int kind;               // 0 fluid, 1 field, 2 scalar
    bool three;             // three stages (fluid, field)
    ints q;                 // q0 q1 q2 q3 (fluid, field) or q0 q1 q2 (scalar)
    int rhs = -1;
    double gamma = 1.4, light = 1., charge = 1., mass = 1.;
    reals velocity;
    std::vector<std::pair<std::string, ints>> bcs;
};

struct builder
{
    plan p;
    rng r;
    int block = 0, group = 0, id = 0, world = 0;
    double dt = 0.01, time = 0.;
    std::vector<actor> actors;
    bool coupled = false;
    bool tiny_values = false; // cells that hold subnormal numbers
    bool vary_dt = false; // the time step changes from step to step
    double dt_first = 0.;
    bool odd_dt = false; // time steps that are zero or negative
    bool late_creation = false; // some storage is created by the call that writes it first
    bool closed = false; // only boundary conditions that keep totals

    explicit builder(const std::string & prop, uint64_t seed) : r(seed * 1000003ull + (prop.empty() ? 0 : std::hash<std::string>()(prop) % 1000000007ull))
    {
        p.prop = prop;
        p.seed = seed;
    }

    step & op(const std::string & kind, const ints & v = ints(), const reals & x = reals(), const ints & d = ints(), const std::string & s = std::string())
    {
        step o;
        o.id = ++id;
        o.w = world;
        o.block = block;
        o.group = group;
        o.kind = kind;
        o.v = v;
        o.x = x;
        o.d = d;
        o.s = s;
        p.ops.push_back(o);
        return p.ops.back();
    }
    int var(const std::string & name, const std::vector<std::string> & comps, const std::string & basis = "va", int points = 1)
    {
        for (size_t i = 0; i < p.vars.size(); i++)
            if (p.vars[i].name == name && p.vars[i].basis == basis && p.vars[i].points == points)
                return int(i);
        api::varspec v;
        v.name = name;
        v.comps = comps;
        v.basis = basis;
        v.points = points;
        p.vars.push_back(v);
        return int(p.vars.size()) - 1;
    }

    api::gridcfg grid(int size, int fixed_nd = 0) // size 0 tiny, 1 small, 2 large, 3 more than 2^15 values in a variable
    {
        api::gridcfg g;
        g.nd = fixed_nd ? fixed_nd : int(r.range(1, 3));
        static const int top[4][3] = { { 12, 5, 3 }, { 40, 11, 5 }, { 300, 40, 11 }, { 12000, 110, 24 } };
        const int m = top[size][g.nd - 1];
        for (int d = 0; d < g.nd; d++) {
            g.n[d] = int(r.range(2, m));
            if (r.chance(0.15))
                g.n[d] = int(r.range(2, 3));
            if (r.chance(0.15)) // powers of two and their neighbours
                g.n[d] = std::max(2, std::min(m, (1 << r.range(1, 8)) + int(r.range(-1, 1))));
            g.start[d] = r.chance(0.3) ? 0. : double(r.range(-8, 8)) * 0.25;
            g.width[d] = r.chance(0.3) ? 1. : 0.25 * double(r.range(1, 24));
        }
        if (size == 3) {
            for (int d = 0; d < g.nd; d++)
                g.n[d] = m - int(r.range(0, m / 12));
            return g;
        }
        if (size == 2 && g.nd > 1 && r.chance(0.5)) { // long and thin
            for (int d = 0; d < g.nd; d++)
                g.n[d] = int(r.range(2, 4));
            g.n[r.range(0, g.nd - 1)] = int(r.range(30, 200));
        }
        if (p.prop != "C02" && p.prop != "C09" && r.chance(0.1)) // a single cell across
            g.n[r.range(0, g.nd - 1)] = 1;
        if (r.chance(0.3)) // the range of the cells does not begin at zero
            for (int d = 0; d < g.nd; d++)
                g.lo[d] = int(r.chance(0.15) ? r.range(-2000, 2000) : r.range(-6, 6));
        return g;
    }
    const api::gridcfg & g() const { return p.grids[size_t(world)]; }
    double dxmin() const
    {
        double m = 1e300;
        for (int d = 0; d < g().nd; d++)
            m = std::min(m, g().width[d] / g().n[d]);
        return m;
    }

    std::string name(const char * stem, int i)
    {
        static const std::string odd[] = { "", "_a", ".x", "-1", "Q", "", "_%s%n%d", "_" + std::string(120, 'w'), "[m/s]", "\xcf\x81", "/2", "\\n" };
        return std::string(stem) + (i ? std::to_string(i) : std::string()) + odd[p.seed % 12];
    }

    // boundary conditions for all directions
    void choose_bcs(actor & a)
    {
        static const std::vector<std::string> open[3] = { { "periodic", "copyout", "noslip", "freeslip" }, { "periodic", "copyout", "wall" }, { "periodic", "copyout" } };
        static const std::vector<std::string> shut[3] = { { "periodic", "noslip", "freeslip" }, { "periodic" }, { "periodic" } };
        const std::vector<std::string> & pool = (closed ? shut : open)[a.kind];
        std::map<std::string, ints> m;
        const bool uniform = r.chance(0.4);
        const std::string one = pool[size_t(r.range(0, long(pool.size()) - 1))];
        ints dims;
        for (int d = 0; d < g().nd; d++)
            if (g().n[d] > 1) // fewer cells than ghost layers: the conditions do not apply
                dims.push_back(d);
        for (size_t i = dims.size(); i > 1; i--)
            std::swap(dims[i - 1], dims[size_t(r.range(0, long(i) - 1))]);
        for (int d : dims)
            m[uniform ? one : pool[size_t(r.range(0, long(pool.size()) - 1))]].push_back(d);
        for (auto & x : m)
            a.bcs.push_back(x);
    }

    void add_actor(int kind, int index)
    {
        actor a;
        a.kind = kind;
        a.three = r.chance(0.65);
        static const char * stem[3] = { "fluid", "field", "n" };
        std::vector<std::string> comps = kind == 0 ? FLUID : FIELD;
        if (kind == 2) {
            comps.clear();
            const int nc = r.chance(0.6) ? 1 : int(r.range(2, r.chance(0.08) ? 20 : 4));
            for (int c = 0; c < nc; c++)
                comps.push_back("s" + std::to_string(c));
        }
        const std::string base = name(stem[kind], index);
        const int stages = kind == 2 ? 3 : a.three ? 4 : 2;
        for (int s = 0; s < stages; s++)
            a.q.push_back(var(s ? base + "_" + std::to_string(s) : base, comps));
        if (kind != 2)
            a.rhs = var(base + "_rhs", comps);
        static const double gammas[4] = { 1.4, 5. / 3., 2., 1.2 };
        a.gamma = gammas[r.range(0, 3)];
        static const double lights[4] = { 1., 0.5, 3., 2. };
        a.light = (r.chance(0.12) ? -1. : 1.) * lights[r.range(0, 3)];      // the scheme depends on its square and magnitude
        a.charge = (r.chance(0.5) ? 1. : -1.) * (1. + 0.5 * double(r.range(0, 3)));
        a.mass = r.chance(0.5) ? 1. : 0.25 * double(r.range(1, 8));
        if (r.chance(0.25)) { // less round, neutral, light
            a.gamma = 1.05 + 1.5 * r.unit();
            a.light = (a.light < 0. ? -1. : 1.) * std::pow(10., double(r.range(-2, 1))) * (1. + r.unit());
            a.charge = r.chance(0.25) ? 0. : a.charge * (0.5 + r.unit());
            a.mass = r.chance(0.3) ? 1. / 1836. : 0.1 + 2. * r.unit();
        }
        for (int d = 0; d < 3; d++)
            a.velocity.push_back(r.chance(0.12) ? 0. : (r.chance(0.5) ? 1. : -1.) * (r.chance(0.12) ? std::pow(10., double(r.range(-9, -2))) : 0.25 + r.unit()));
        choose_bcs(a);
        actors.push_back(a);
    }

    // who takes part
    void cast(double plasma = 0.25)
    {
        coupled = r.chance(plasma);
        int n[3] = { 0, 0, 0 };
        auto add = [&](int k) {add_actor(k, n[k]++);};
        if (coupled) {
            add(0);
            if (r.chance(0.7))
                add(0);
            if (n[0] == 2 && r.chance(0.25))
                for (int more = int(r.range(1, 2)); more > 0; more--)
                    add(0);
            add(1);
            if (r.chance(0.2))
                add(2);
            // a coupled system advances in one rhythm
            for (actor & a : actors)
                if (a.kind != 2 && a.three != actors[0].three) {
                    a.three = actors[0].three;
                    const std::string base = p.vars[size_t(a.q[0])].name;
                    const std::vector<std::string> comps = p.vars[size_t(a.q[0])].comps;
                    a.q.resize(1);
                    for (int s = 1; s < (a.three ? 4 : 2); s++)
                        a.q.push_back(var(base + "_" + std::to_string(s), comps));
                }
        } else {
            add(int(r.range(0, 2)));
            while (r.chance(0.3) && actors.size() < 4)
                add(int(r.range(0, 2)));
        }
    }

    int style()
    {
        static const int w[] = { 0, 0, 0, 1, 2, 2, 3, 3, 4, 5, 5, 6, 7, 8, 10, 13, 15 };
        if (tiny_values && r.chance(0.15))
            return 11;
        return w[r.range(0, 16)];
    }

    void setup_ops(bool mild)
    {
        block = 0;
        group = 0;
        // some histories leave the creation of intermediate storage to the calls that write it
        const bool late = late_creation && r.chance(0.2);
        ints all;
        for (size_t i = 0; i < p.vars.size(); i++) {
            bool first = !late || std::find(aux.begin(), aux.end(), int(i)) != aux.end();
            for (const actor & a : actors)
                first |= a.q[0] == int(i);
            if (first)
                all.push_back(int(i));
        }
        if (r.chance(0.5)) {
            group++;
            op("touch", all);
        } else {
            for (int v : all) {
                group++;
                op("touch", ints(1, v));
            }
        }
        group++;
        bool fast = false;
        for (const actor & a : actors) {
            int s = mild ? (r.chance(0.7) ? 0 : 1) : style();
            if (mild && a.kind == 0 && r.chance(0.4)) {
                bool walls = false;
                for (auto & bc : a.bcs)
                    walls |= bc.first == "noslip" || bc.first == "freeslip";
                if (!walls && r.chance(0.7))
                    s = r.chance(0.75) ? 8 : 15;
                else
                    s = r.chance(0.25) ? 5 : r.chance(0.3) ? 14 : r.chance(0.3) && !walls ? 10 : 2;
                fast |= s == 8 || s == 10 || s == 15;
            }
            if (mild && a.kind != 0 && r.chance(0.4)) {
                static const int other[] = { 2, 3, 5, 7, 13 };
                s = other[r.range(0, 4)];
            }
            op("set", ints(1, a.q[0]), reals(1, a.gamma), ints { s, int(r.range(1, 1000000)) });
        }
        // intermediate storage starts with old contents
        for (const actor & a : actors)
            if (r.chance(0.5) && !late) {
                for (size_t s = 1; s < a.q.size(); s++)
                    op("set", ints(1, a.q[s]), reals(1, a.gamma), ints { 0, int(r.range(1, 1000000)) });
                if (a.rhs >= 0 && r.chance(0.5))
                    op("set", ints(1, a.rhs), reals(1, a.gamma), ints { 0, int(r.range(1, 1000000)) });
            }
        double speed = 0.1;
        for (const actor & a : actors)
            speed = std::max(speed, a.kind == 0 ? (mild && !fast ? 4. : 9.) : a.kind == 1 ? std::fabs(a.light) : 1.25);
        dt = (mild ? 0.15 : 0.25) * dxmin() / (speed * g().nd);
        if (coupled)
            dt = std::min(dt, 0.01);
        if (odd_dt && r.chance(0.08))
            dt = 0.;
        bool scalar = false;
        for (const actor & a : actors)
            scalar |= a.kind == 2;
        if (odd_dt && !scalar && r.chance(0.06)) // backwards; the flux of an advected scalar has no direction of time
            dt = -0.25 * dt;
        time = r.chance(0.5) ? 0. : r.unit();
        op("clock", ints(), reals { time, dt });
    }

    ints pick(const ints & a) { return a; }

    void bc_ops(const std::vector<const actor *> & who, int stage)
    {
        // one step per actor and kind, or shared by the actors whose list agrees
        const bool share = r.chance(0.3);
        std::vector<std::pair<std::string, ints>> done;
        for (size_t i = 0; i < who.size(); i++)
            for (auto & b : who[i]->bcs) {
                ints v(1, who[i]->q[size_t(stage)]);
                if (late_creation && r.chance(0.06)) // once would do
                    v.push_back(v[0]);
                if (share) {
                    bool dup = false;
                    for (auto & x : done)
                        dup |= x == b;
                    if (dup)
                        continue;
                    done.push_back(b);
                    for (size_t j = i + 1; j < who.size(); j++)
                        for (auto & c : who[j]->bcs)
                            if (c == b)
                                v.push_back(who[j]->q[size_t(stage)]);
                    // those before i that have the same entry came first, so they are covered
                }
                op(b.first, v, reals(), b.second);
            }
    }

    // calls in no particular order: terms added more than once or with other parameters, other
    // velocities, fills with anything, states set anew
    void loose_calls()
    {
        block++;
        for (int n = int(r.range(1, 5)); n > 0; n--) {
            group++;
            const actor & a = actors[size_t(r.range(0, long(actors.size()) - 1))];
            const actor * f = nullptr, * q = nullptr;
            for (const actor & x : actors) {
                if (x.kind == 1)
                    f = &x;
                if (x.kind == 0 && (!q || r.chance(0.5)))
                    q = &x;
            }
            const double u = r.unit();
            if (u < 0.3) {
                ints v;
                for (const actor & x : actors)
                    for (int k : x.q)
                        if (k != x.q[0] && r.chance(0.3))
                            v.push_back(k);
                if (a.kind != 2)
                    v.push_back(a.rhs);
                if (!v.empty())
                    op("fill", v, reals(1, fill_value()));
            } else if (u < 0.6) {
                bc_ops(std::vector<const actor *>(1, &a), 0);
                const int times = int(r.range(1, 2));
                for (int k = 0; k < times; k++)
                    if (a.kind == 0)
                        op("euler", ints { a.q[0], a.rhs }, reals(1, r.chance(0.5) ? a.gamma : 1.1 + r.unit()));
                    else if (a.kind == 1)
                        op("maxwell", ints { a.q[0], a.rhs }, reals(1, r.chance(0.5) ? a.light : 4. * r.unit() - 2.));
                    else {
                        reals w;
                        for (int d = 0; d < 3; d++)
                            w.push_back(2. * r.unit() - 1.);
                        op("adv", a.q, r.chance(0.5) ? a.velocity : w, ints(1, 0));
                    }
            } else if (u < 0.85) {
                if (!f || !q)
                    continue;
                if (r.chance(0.5))
                    op("lorentz", ints { q->q[0], f->q[0], q->rhs }, reals { 4. * r.unit() - 2., 0.1 + 2. * r.unit() });
                else {
                    ints v;
                    reals x(1, 0.2 + 2. * r.unit()), ma;
                    for (const actor & y : actors)
                        if (y.kind == 0 && (&y == q || r.chance(0.5))) {
                            v.push_back(y.q[0]);
                            x.push_back(r.chance(0.5) ? y.charge : 4. * r.unit() - 2.);
                            ma.push_back(r.chance(0.5) ? y.mass : 0.1 + 2. * r.unit());
                        }
                    if (r.chance(0.15)) // many species in a single call
                        for (int more = int(r.range(1, 12)); more > 0; more--) {
                            v.push_back(v[size_t(r.range(0, long(v.size()) - 1))]);
                            x.push_back(4. * r.unit() - 2.);
                            ma.push_back(0.1 + 2. * r.unit());
                        }
                    x.insert(x.end(), ma.begin(), ma.end());
                    v.push_back(f->rhs);
                    op("current", v, x);
                }
            } else
                op("set", ints(1, a.q[0]), reals(1, a.gamma), ints { style(), int(r.range(1, 1000000)) });
        }
    }

    double fill_value()
    {
        const double u = r.unit();
        return u < 0.1 ? 0. : u < 0.2 ? -0. : u < 0.25 ? std::nan("") : u < 0.3 ? HUGE_VAL * (r.chance(0.5) ? 1. : -1.) : (2. * r.unit() - 1.) * std::pow(10., double(r.range(-3, 3)));
    }

    // variables of any shape that no equation belongs to: integrators, fills and swaps work on them too
    ints aux;
    void add_aux()
    {
        std::vector<std::string> c;
        for (int n = int(r.chance(0.2) ? r.range(10, 17) : r.range(1, 9)), k = 0; k < n; k++)
            c.push_back("a" + std::to_string(k));
        const int points = r.chance(0.4) ? int(r.range(1, 4)) : 0;
        for (int k = 0; k < 5; k++) {
            std::vector<std::string> mine = c;
            if (r.chance(0.2))
                mine[0] = "other";
            aux.push_back(points ? var(name("aux", k), mine, "nodes", points) : var(name("aux", k), mine));
        }
    }
    void aux_calls()
    {
        block++;
        for (int n = int(r.range(1, 4)); n > 0; n--) {
            group++;
            ints v = aux;
            for (size_t i = v.size(); i > 1; i--)
                std::swap(v[i - 1], v[size_t(r.range(0, long(i) - 1))]);
            switch (r.range(0, 4)) {
            case 0:
                op("set", ints(1, v[0]), reals(1, 1.4), ints { r.chance(0.3) ? 9 : style(), int(r.range(1, 1000000)) });
                break;
            case 1:
                v.resize(3);
                op("rk1", v);
                break;
            case 2:
                op("rk3", v, reals(), ints(1, int(r.range(0, 2))));
                break;
            case 3:
                v.resize(size_t(r.range(1, 4)));
                if (r.chance(0.2)) // one of them twice
                    v.push_back(v[0]);
                op("fill", v, reals(1, fill_value()));
                break;
            default:
                v.resize(4);
                op("swap", v);
            }
        }
    }

    // one complete time step of everything
    void time_step()
    {
        block++;
        // scalars
        for (const actor & a : actors)
            if (a.kind == 2) {
                std::vector<const actor *> me(1, &a);
                group++;
                bc_ops(me, 0);
                op("adv", a.q, a.velocity, ints(1, 0));
                group++;
                bc_ops(me, 1);
                op("adv", a.q, a.velocity, ints(1, 1));
            }
        // fluids and fields
        std::vector<std::vector<const actor *>> sets;
        if (coupled) {
            sets.resize(1);
            for (const actor & a : actors)
                if (a.kind != 2)
                    sets[0].push_back(&a);
        } else {
            for (const actor & a : actors)
                if (a.kind != 2)
                    sets.push_back(std::vector<const actor *>(1, &a));
        }
        for (auto & who : sets) {
            const bool three = who[0]->three;
            for (int s = 0; s < (three ? 3 : 1); s++) {
                group++;
                const bool bc_first = r.chance(0.5);
                if (bc_first)
                    bc_ops(who, s);
                ints rhs;
                for (const actor * a : who)
                    rhs.push_back(a->rhs);
                if (r.chance(0.5))
                    op("fill", rhs, reals(1, 0.));
                else
                    for (int v : rhs)
                        op("fill", ints(1, v), reals(1, 0.));
                if (!bc_first)
                    bc_ops(who, s);
                std::vector<step> terms;
                const size_t mark = p.ops.size();
                for (const actor * a : who)
                    if (a->kind == 0)
                        op("euler", ints { a->q[size_t(s)], a->rhs }, reals(1, a->gamma));
                    else
                        op("maxwell", ints { a->q[size_t(s)], a->rhs }, reals(1, a->light));
                if (coupled) {
                    const actor * f = nullptr;
                    for (const actor * a : who)
                        if (a->kind == 1)
                            f = a;
                    ints cv;
                    reals ch, ma;
                    for (const actor * a : who)
                        if (a->kind == 0) {
                            op("lorentz", ints { a->q[size_t(s)], f->q[size_t(s)], a->rhs }, reals { a->charge, a->mass });
                            cv.push_back(a->q[size_t(s)]);
                            ch.push_back(a->charge);
                            ma.push_back(a->mass);
                        }
                    cv.push_back(f->rhs);
                    reals x(1, 1. + 0.5 * double(p.seed % 3));
                    x.insert(x.end(), ch.begin(), ch.end());
                    x.insert(x.end(), ma.begin(), ma.end());
                    op("current", cv, x);
                }
                // flux and source terms commute
                for (size_t i = p.ops.size() - mark; i > 1; i--) {
                    const size_t j = size_t(r.range(0, long(i) - 1));
                    std::swap(p.ops[mark + i - 1], p.ops[mark + j]);
                }
                for (const actor * a : who)
                    if (three)
                        op("rk3", ints { a->q[0], a->rhs, a->q[1], a->q[2], a->q[3] }, reals(), ints(1, s));
                    else
                        op("rk1", ints { a->q[0], a->rhs, a->q[1] });
            }
        }
        ints pairs;
        group++;
        for (const actor & a : actors) {
            pairs.push_back(a.q[0]);
            pairs.push_back(a.q.back());
            if (r.chance(0.5)) { // several pairs at once, or each alone
                op("swap", pairs);
                pairs.clear();
                group++;
            }
        }
        if (!pairs.empty())
            op("swap", pairs);
        if (r.chance(0.5)) {
            group++;
            time += dt;
            if (vary_dt && r.chance(0.5)) {
                if (dt_first == 0.)
                    dt_first = dt;
                dt = dt_first * (r.chance(0.2) ? 1. : 0.3 + 0.7 * r.unit());
            }
            op("clock", ints(), reals { time, dt });
        }
    }

    void schedule(double serial = 0.1)
    {
        sched_cfg & s = p.sched;
        s.seed = r.next() >> 1;
        const double u = r.unit();
        s.mode = u < serial ? SCHED_SERIAL : u < 0.35 ? SCHED_ORDER : u < 0.6 ? SCHED_SPARSE : u < 0.8 ? SCHED_CUTS : SCHED_DENSE;
        s.team = int(r.range(2, 8));
        s.mean = s.mode == SCHED_DENSE ? int(r.range(1, 12)) : int(r.range(20, 2000));
    }

    // failing allocations inside some of the library calls
    void alloc_faults(double rate, int most, const char * only = nullptr)
    {
        int n = 0;
        for (const step & o : p.ops) {
            if (only && !strstr(only, (" " + o.kind + " ").c_str()))
                continue;
            if (o.kind == "set" || o.kind == "clock" || o.kind == "mark" || o.kind == "check" || n >= most)
                continue;
            if (!r.chance(rate))
                continue;
            const int tries = r.chance(0.2) ? 2 : 1;
            for (int t = 0; t < tries; t++) {
                pfault f;
                f.op = o.id;
                f.kind = F_ALLOC;
                f.frac = true;
                f.at = uint64_t(r.range(0, 1000000));
                if (r.chance(0.25)) {
                    f.frac = false;
                    f.at = uint64_t(r.range(1, 6));
                }
                f.arg = r.chance(0.8) ? 1 : int(r.range(2, 5));
                f.attempt = t;
                p.faults.push_back(f);
            }
            n++;
        }
    }
    void disk_fault(const step & o, int attempt)
    {
        static const int kinds[] = { F_OPEN, F_SHORT, F_EINTR, F_EIO, F_ENOSPC, F_CLOSE, F_ENOSPC, F_EIO };
        pfault f;
        f.op = o.id;
        f.kind = kinds[r.range(0, 7)];
        f.frac = f.kind != F_OPEN;
        f.at = f.kind == F_OPEN ? 1 : uint64_t(r.range(0, 1000000));
        switch (f.kind) {
        case F_OPEN: {
            static const int e[] = { EACCES, ENOENT, EMFILE, ENOSPC, EROFS };
            f.arg = e[r.range(0, 4)];
            break;
        }
        case F_EINTR:
            f.arg = int(r.range(1, 3));
            break;
        case F_EIO:
            f.arg = r.chance(0.7) ? 1 : 5;
            break;
        default:
            f.arg = int(r.range(0, 1000000));
        }
        f.attempt = attempt;
        p.faults.push_back(f);
    }
    ints all_q()
    {
        ints v;
        for (const actor & a : actors)
            for (int q : a.q)
                v.push_back(q);
        return v;
    }
    ints some(const ints & from, int least)
    {
        ints v;
        for (int x : from)
            if (r.chance(0.5))
                v.push_back(x);
        while (int(v.size()) < least)
            v.push_back(from[size_t(r.range(0, long(from.size()) - 1))]);
        for (size_t i = v.size(); i > 1; i--)
            std::swap(v[i - 1], v[size_t(r.range(0, long(i) - 1))]);
        return v;
    }
};

// ------------------------------------------------------------------ per property
int size_class(rng & r, int tier)
{
    const double u = r.unit();
    if (tier == 0)
        return u < 0.5 ? 0 : u < 0.95 ? 1 : 2;
    return u < 0.35 ? 0 : u < 0.85 ? 1 : 2;
}

int any_size(rng & r, int tier)
{
    return r.chance(tier ? 0.004 : 0.003) ? 3 : size_class(r, tier);
}

void initial_condition(builder & b, int world_nd); // below
void plasma_condition(builder & b);

plan gen_C01(uint64_t seed, int tier)
{
    builder b("C01", seed);
    b.p.grids.push_back(b.grid(any_size(b.r, tier)));
    b.cast(0.3);
    b.tiny_values = b.vary_dt = b.odd_dt = b.late_creation = true;
    if (b.r.chance(0.2))
        b.add_aux();
    b.setup_ops(false);
    const bool tiny = b.g().n[0] * (b.g().nd > 1 ? b.g().n[1] : 1) * (b.g().nd > 2 ? b.g().n[2] : 1) < 40;
    const bool huge = b.g().n[0] > 400 || (b.g().nd == 2 && b.g().n[1] > 90) || (b.g().nd == 3 && b.g().n[2] > 20);
    const int steps = int(b.r.range(1, tiny ? 4 : huge ? 1 : 2));
    for (int s = 0; s < steps; s++) {
        if (!b.aux.empty() && b.r.chance(0.6))
            b.aux_calls();
        b.time_step();
    }
    b.schedule(0.);
    b.p.cfg["minops"] = 1;
    return b.p;
}

plan gen_C02(uint64_t seed, int tier)
{
    builder b("C02", seed);
    const int sz = size_class(b.r, tier);
    b.p.grids.push_back(b.grid(sz));
    b.closed = true;
    b.vary_dt = b.late_creation = true;
    b.cast(0.);
    if (b.r.chance(0.2)) { // exchange between fluids and field
        b.actors.clear();
        b.p.vars.clear();
        b.coupled = true;
        b.add_actor(0, 0);
        for (int more = b.r.chance(0.7) ? int(b.r.range(1, 3)) : 0, k = 1; k <= more; k++)
            b.add_actor(0, k);
        b.add_actor(1, 0);
        for (actor & a : b.actors)
            a.three = false;
        b.setup_ops(b.r.chance(0.4));
        b.group++;
        const actor & f = b.actors.back();
        ints rhs, cv;
        reals ch, ma;
        for (const actor & a : b.actors)
            rhs.push_back(a.rhs);
        b.block++;
        b.op("fill", rhs, reals(1, 0.));
        for (const actor & a : b.actors)
            if (a.kind == 0) {
                b.op("lorentz", ints { a.q[0], f.q[0], a.rhs }, reals { a.charge, a.mass });
                cv.push_back(a.q[0]);
                ch.push_back(a.charge);
                ma.push_back(a.mass);
            }
        cv.push_back(f.rhs);
        const double eps0 = 0.5 * double(b.r.range(1, 6));
        reals x(1, eps0);
        x.insert(x.end(), ch.begin(), ch.end());
        x.insert(x.end(), ma.begin(), ma.end());
        b.op("current", cv, x);
        b.group++;
        ints ev;
        for (const actor & a : b.actors)
            if (a.kind == 0)
                ev.push_back(a.rhs);
        ev.push_back(f.q[0]);
        ev.push_back(f.rhs);
        b.op("exch", ev, reals(1, eps0));
        b.schedule();
        b.alloc_faults(0.3, 3);
        return b.p;
    }
    b.setup_ops(true);
    const int steps = int(b.r.range(1, sz == 0 ? 10 : sz == 1 ? 4 : 2));
    for (const actor & a : b.actors) {
        bool wall = false;
        for (auto & bc : a.bcs)
            wall |= bc.first != "periodic";
        b.group++;
        b.op("mark", ints(1, a.q[0]), reals(1, a.kind == 1 ? a.light : 1.), ints { a.kind, wall });
    }
    for (int s = 0; s < steps; s++) {
        b.time_step();
        for (const actor & a : b.actors) {
            b.group++;
            b.op("check", ints(1, a.q[0]));
        }
    }
    b.schedule();
    if (b.r.chance(0.5))
        b.alloc_faults(2. / double(b.p.ops.size()), 4);
    return b.p;
}

plan gen_C03(uint64_t seed, int tier)
{
    builder b("C03", seed);
    int sz = any_size(b.r, tier);
    b.p.grids.push_back(b.grid(sz));
    b.cast(0.35);
    b.vary_dt = b.odd_dt = b.late_creation = true;
    if (sz < 3 && b.r.chance(0.35))
        b.add_aux();
    b.setup_ops(false);
    if (!b.aux.empty()) {
        b.group++;
        for (int v : b.aux)
            b.op("set", ints(1, v), reals(1, 1.4), ints { b.style(), int(b.r.range(1, 1000000)) });
    }
    int steps = int(b.r.range(1, sz == 0 ? 8 : sz == 1 ? 3 : sz == 2 ? 2 : 1));
    if (sz == 0 && b.r.chance(0.1))
        steps = int(b.r.range(10, 25)); // long history
    for (int s = 0; s < steps; s++) {
        if (sz < 3 && b.r.chance(0.25))
            b.loose_calls();
        if (!b.aux.empty() && b.r.chance(0.5))
            b.aux_calls();
        b.time_step();
        if (b.r.chance(0.12)) { // pairs that share variables, one after the other
            b.block++;
            b.group++;
            const actor & a = b.actors[size_t(b.r.range(0, long(b.actors.size()) - 1))];
            ints l;
            for (int k = int(b.r.range(1, 4)); k > 0; k--) {
                l.push_back(a.q[size_t(b.r.range(0, long(a.q.size()) - 1))]);
                l.push_back(a.q[size_t(b.r.range(0, long(a.q.size()) - 1))]);
            }
            b.op("swap", l);
        }
    }
    b.schedule(0.3);
    if (b.r.chance(0.4))
        b.alloc_faults(2. / double(b.p.ops.size()), 4);
    b.p.cfg["minops"] = 1;
    return b.p;
}

plan gen_C04(uint64_t seed, int tier)
{
    builder b("C04", seed);
    b.p.grids.push_back(b.grid(any_size(b.r, tier)));
    const int nd = b.g().nd;
    ints fluids, fields, others;
    for (int i = 0, end = int(b.r.range(1, 2)); i < end; i++)
        fluids.push_back(b.var(b.name("fluid", i), FLUID));
    for (int i = 0, end = int(b.r.range(1, 2)); i < end; i++)
        fields.push_back(b.var(b.name("field", i), FIELD));
    for (int i = 0, end = int(b.r.range(0, 2)); i < end; i++) {
        std::vector<std::string> c;
        for (int k = 0, end = int(b.r.range(1, 7)); k < end; k++)
            c.push_back("c" + std::to_string(k));
        if (b.r.chance(0.2))
            others.push_back(b.var(b.name("other", i), c, "pts", int(b.r.range(2, 3))));
        else
            others.push_back(b.var(b.name("other", i), c));
    }
    ints all = fluids;
    all.insert(all.end(), fields.begin(), fields.end());
    all.insert(all.end(), others.begin(), others.end());
    b.group++;
    b.op("touch", all);
    for (int v : all)
        b.op("set", ints(1, v), reals(1, 1.4), ints { b.r.chance(0.15) ? 12 : 9, int(b.r.range(1, 1000000)) });
    const int n = int(b.r.range(3, 14));
    for (int k = 0; k < n; k++) {
        b.block++;
        b.group++;
        const double u = b.r.unit();
        if (u < 0.12 && all.size() > 1) {
            // swap two of equal shape
            const ints & pool = b.r.chance(0.5) ? fluids : fields;
            if (pool.size() > 1)
                b.op("swap", ints { pool[0], pool[1] });
            continue;
        }
        if (u < 0.22) {
            b.op("set", ints(1, all[size_t(b.r.range(0, long(all.size()) - 1))]), reals(1, 1.4), ints { b.r.chance(0.15) ? 12 : 9, int(b.r.range(1, 1000000)) });
            continue;
        }
        static const char * kinds[5] = { "periodic", "copyout", "noslip", "freeslip", "wall" };
        const std::string kind = kinds[b.r.range(0, 4)];
        const ints & pool = kind == "wall" ? fields : kind == "noslip" || kind == "freeslip" ? fluids : all;
        ints dims;
        for (int d = 0; d < nd; d++)
            if (b.r.chance(0.6) && b.g().n[d] > 1)
                dims.push_back(d);
        for (size_t i = dims.size(); i > 1; i--)
            std::swap(dims[i - 1], dims[size_t(b.r.range(0, long(i) - 1))]);
        b.op(kind, b.some(pool, b.r.chance(0.95) ? 1 : 0), reals(), dims);
        if (b.r.chance(0.2)) { // again
            const step o = b.p.ops.back();
            b.op(o.kind, o.v, o.x, o.d);
        }
    }
    b.schedule(0.5);
    if (b.r.chance(0.6))
        b.alloc_faults(0.3, 5);
    b.p.cfg["minops"] = 1;
    return b.p;
}

// variables and data for export histories
void export_world(builder & b, ints & exportable, ints & unsupported, bool long_run = false)
{
    const int n = long_run ? 1 : int(b.r.range(1, b.r.chance(0.03) ? 40 : 5));
    for (int i = 0; i < n; i++) {
        const double u = b.r.unit();
        if (u < 0.35)
            exportable.push_back(b.var(b.name("fluid", i), FLUID));
        else if (u < 0.6)
            exportable.push_back(b.var(b.name("field", i), FIELD));
        else {
            std::vector<std::string> c;
            static const std::string odd[] = { "%d", "T[keV]", "a/b", "\xc3\xa9", std::string(90, 'k'), "0", "-" };
            for (int k = 0, end = int(b.r.range(1, b.r.chance(0.1) ? b.r.chance(0.3) ? 70 : 12 : 3)); k < end; k++)
                c.push_back((b.r.chance(0.2) ? odd[b.r.range(0, 6)] : "c") + std::to_string(k));
            exportable.push_back(b.var(b.name("n", i), c));
        }
    }
    if (b.r.chance(0.3))
        unsupported.push_back(b.var(b.name("pts", 0), std::vector<std::string>(1, "a"), "pts", 2));
    b.group++;
    ints all = exportable;
    all.insert(all.end(), unsupported.begin(), unsupported.end());
    b.op("touch", all);
    for (int v : all)
        b.op("set", ints(1, v), reals(1, 1.4), ints { b.r.chance(0.2) ? 12 : b.r.chance(0.5) ? 9 : 0, int(b.r.range(1, 1000000)) });
}
// where the name of the file is split into prefix and suffix
ints split(rng & r) { return r.chance(0.5) ? ints() : ints(1, int(r.range(0, 3))); }
std::string frame_name(const builder & b, int i)
{
    static const std::string dirs[] = { "/sim/out/frame_", "/sim/out/frame_", "/sim/frame_", "/sim/out/long name.d/x_", "/sim/%s%n/%d_", "/sim/" + std::string(200, 'd') + "/" + std::string(150, 'f') };
    return dirs[b.p.seed / 12 % 6] + std::to_string(i) + ".vtk";
}

plan gen_C05(uint64_t seed, int tier)
{
    builder b("C05", seed);
    const bool long_run = b.r.chance(0.006); // hundreds of frames from one program
    int sz = long_run ? 0 : any_size(b.r, tier);
    b.p.grids.push_back(b.grid(sz));
    ints ex, un;
    export_world(b, ex, un, long_run);
    const int missing = b.var("never_created", FLUID);
    const int frames = int(long_run ? b.r.range(50, 400) : b.r.range(1, sz >= 2 ? 2 : 5));
    const bool faulty = b.r.chance(0.75);
    for (int f = 0; f < frames; f++) {
        b.block++;
        b.group++;
        ints l = b.some(ex, 1);
        if (b.r.chance(0.1)) // listed twice, written twice
            l.insert(l.begin() + b.r.range(0, long(l.size())), l[size_t(b.r.range(0, long(l.size()) - 1))]);
        if (b.r.chance(0.06))
            l.insert(l.begin() + b.r.range(0, long(l.size())), missing);
        else if (!un.empty() && b.r.chance(0.15)) {
            if (b.r.chance(0.5))
                l = un;
            else
                l.push_back(un[0]);
        }
        const int number = b.r.chance(0.85) ? f : int(b.r.range(0, f)); // sometimes an earlier frame again
        b.op("write", l, reals(), split(b.r), frame_name(b, number));
        const step w = b.p.ops.back();
        if (faulty && b.r.chance(0.6))
            for (int t = 0, end = int(b.r.range(1, 2)); t < end; t++)
                b.disk_fault(w, t);
        if (faulty && b.r.chance(0.1)) {
            pfault x;
            x.op = w.id;
            x.kind = F_ALLOC;
            x.frac = true;
            x.at = uint64_t(b.r.range(0, 1000000));
            x.arg = 1;
            b.p.faults.push_back(x);
        }
        if (b.r.chance(0.5)) {
            b.group++;
            b.op("set", ints(1, ex[size_t(b.r.range(0, long(ex.size()) - 1))]), reals(1, 1.4), ints { b.r.chance(0.5) ? 9 : 0, int(b.r.range(1, 1000000)) });
        }
    }
    b.schedule(0.7);
    return b.p;
}

plan gen_C06(uint64_t seed, int tier)
{
    builder b("C06", seed);
    const bool long_run = b.r.chance(0.006);
    b.p.grids.push_back(b.grid(long_run || b.r.chance(0.75) ? 0 : 1));
    (void) tier;
    const bool steps = !long_run && b.r.chance(0.5);
    ints ex, un;
    if (steps) {
        b.cast(0.2);
        b.setup_ops(true);
        ex = b.all_q();
    } else {
        export_world(b, ex, un, long_run);
    }
    const int frames = int(long_run ? b.r.range(50, 300) : b.r.range(1, 6));
    ints ids;
    for (int f = 0; f < frames; f++) {
        b.block++;
        b.group++;
        if (steps)
            b.time_step();
        b.group++;
        b.op("write", steps ? ints(1, b.actors[0].q[0]) : b.some(ex, 1), reals(), split(b.r), frame_name(b, f));
        ids.push_back(b.id);
        if (!steps && b.r.chance(0.5)) {
            b.group++;
            b.op("set", ints(1, ex[0]), reals(1, 1.4), ints { b.r.chance(0.15) ? 12 : 9, int(b.r.range(1, 1000000)) });
        }
    }
    // optional disk errors before the crash
    if (b.r.chance(0.35)) {
        for (const step & o : std::vector<step>(b.p.ops))
            if (o.kind == "write" && b.r.chance(0.4))
                b.disk_fault(o, 0);
    }
    // the crash: inside some step (mostly the late ones)
    pfault c;
    const size_t at = b.r.chance(0.4) ? b.p.ops.size() - 1 - size_t(b.r.range(0, std::min<long>(3, long(b.p.ops.size()) - 1))) : size_t(b.r.range(0, long(b.p.ops.size()) - 1));
    const step * o = &b.p.ops[at];
    if (b.r.chance(0.6))
        for (const step & s : b.p.ops)
            if (s.id == ids[size_t(b.r.range(0, long(ids.size()) - 1))])
                o = &s;
    c.op = o->id;
    c.frac = true;
    c.at = uint64_t(b.r.range(0, 1000000));
    if (o->kind == "write")
        c.kind = b.r.chance(0.35) ? F_CRASH_IO : b.r.chance(0.6) ? F_CRASH_IO_MID : F_CRASH_STEP;
    else
        c.kind = F_CRASH_STEP;
    c.arg = int(b.r.range(0, 1023));
    b.p.faults.push_back(c);
    b.schedule(0.6);
    return b.p;
}

plan gen_C07(uint64_t seed, int tier)
{
    builder b("C07", seed);
    const int sz = b.r.chance(0.7) ? 0 : 1;
    (void) tier;
    b.p.grids.push_back(b.grid(sz));
    b.cast(0.3);
    b.setup_ops(true);
    // initial conditions and exports take part
    const int steps = int(b.r.range(1, 2));
    for (int s = 0; s < steps; s++) {
        b.time_step();
        if (b.r.chance(0.5)) {
            b.group++;
            b.op("write", b.some(b.all_q(), 1), reals(), split(b.r), frame_name(b, s));
        }
        if (b.r.chance(0.4)) { // variables that come into being within the call
            const actor & a = b.actors[size_t(b.r.range(0, long(b.actors.size()) - 1))];
            const std::vector<std::string> comps = b.p.vars[size_t(a.q[0])].comps;
            const int x = b.var("late_" + std::to_string(s), comps), y = b.var("later_" + std::to_string(s), comps);
            b.group++;
            const int first = a.q[0], second = a.q.back();
            switch (b.r.range(0, 3)) {
            case 0:
                b.op("swap", ints { first, second, x, y });
                break;
            case 1:
                b.op("swap", ints { x, y, first, second });
                break;
            case 2:
                b.op("fill", ints { x, y, second }, reals(1, 3.5));
                break;
            default:
                b.op("touch", ints { x, y });
            }
        }
    }
    b.schedule(0.5);
    if (b.r.chance(0.85))
        b.alloc_faults(0.15 + 0.5 * b.r.unit(), 12);
    return b.p;
}

// Histories of bulk data operations.  Shapes are tracked so that most calls fit.
// ranges, their division and walks through them
plan gen_C13(uint64_t seed, int)
{
    builder b("C13", seed);
    b.p.grids.push_back(b.grid(0));
    std::map<int, api::box> S;
    const int slots = int(b.r.range(1, 4));
    const bool empties = b.r.chance(0.3), big = b.r.chance(0.2);
    const bool huge = !big && b.r.chance(0.12); // more cells than a single-precision number counts
    const int deepest = b.r.chance(0.15) ? 8 : 5;
    auto put = [](ints & d, const api::box & x) {
        d.push_back(int(x.lo.size()));
        d.insert(d.end(), x.lo.begin(), x.lo.end());
        d.insert(d.end(), x.hi.begin(), x.hi.end());
    };
    auto some_box = [&](int dims, bool zero) {
        api::box x;
        for (int i = 0; i < dims; i++) {
            const int lo = zero ? 0 : int(b.r.range(-6, 6)), most = big && dims < 3 ? 30 : dims < 4 ? 6 : 3;
            x.lo.push_back(lo);
            x.hi.push_back(lo + int(b.r.range(empties && b.r.chance(0.1) ? 0 : 1, most)));
        }
        if (huge && dims && b.r.chance(0.5)) {
            long rest = 1;
            const size_t at = size_t(b.r.range(0, dims - 1));
            for (size_t i = 0; i < size_t(dims); i++)
                if (i != at)
                    rest *= std::max(1, x.hi[i] - x.lo[i]);
            const long most = 2000000000l / rest;
            x.hi[at] = x.lo[at] + int(std::min(most, b.r.chance(0.5) ? (1l << b.r.range(16, 30)) + b.r.range(-2, 2) : b.r.range(1, most)));
        }
        return x;
    };
    auto large = [&](const api::box & x) {
        long v = 1;
        for (size_t i = 0; i < x.lo.size(); i++)
            v *= std::max(1, x.hi[i] - x.lo[i]);
        return v > (huge ? 2000000000l : 3000l);
    };
    auto long_way = [](const api::box & x) {
        double v = 1;
        for (size_t i = 0; i < x.lo.size(); i++)
            v *= x.hi[i] - x.lo[i];
        return v > 3000;
    };
    int sets = 0;
    const int n = int(b.r.range(6, 50));
    for (int q = 0; q < n; q++) {
        b.block++;
        b.group++;
        const int k = int(b.r.range(0, slots - 1));
        auto other = [&]() {
            auto it = S.begin();
            std::advance(it, b.r.range(0, long(S.size()) - 1));
            return it->first;
        };
        if (!S.count(k)) {
            int way = int(b.r.range(0, 3));
            if (way == 3 && S.empty())
                way = 2;
            ints d { k, way, way == 3 ? other() : 0 };
            api::box x = way == 0 ? api::box() : way == 3 ? S[d[2]] : some_box(int(b.r.range(1, deepest)), way == 1);
            put(d, x);
            b.op("rnew", ints(), reals(), d);
            S[k] = x;
            continue;
        }
        api::box & m = S[k];
        const int dims = int(m.lo.size());
        const double u = b.r.unit();
        if (u < 0.08) {
            m = some_box(int(b.r.range(1, deepest)), false);
            ints d { k, int(b.r.range(0, 1)) };
            put(d, m);
            b.op("rresize", ints(), reals(), d);
        } else if (u < 0.16) {
            const int from = other();
            b.op("rassign", ints(), reals(), ints { k, from });
            m = api::box(S[from]);
        } else if (u < 0.24) {
            if (dims >= deepest)
                continue;
            const api::box x = some_box(1, false);
            api::box y = m;
            y.lo.push_back(x.lo[0]);
            y.hi.push_back(x.hi[0]);
            if (large(y))
                continue;
            b.op("rextrude", ints(), reals(), ints { k, x.lo[0], x.hi[0] });
            m.lo.push_back(x.lo[0]);
            m.hi.push_back(x.hi[0]);
        } else if (u < 0.44) {
            if (!dims)
                continue;
            const int d = int(b.r.range(0, dims - 1));
            const size_t D = size_t(d);
            const int what = int(b.r.range(0, 2));
            if (what == 0) {
                const int lo = int(b.r.range(-2, 2)), hi = int(b.r.range(-2, 2));
                api::box y = m;
                y.lo[D] += lo;
                y.hi[D] += hi;
                if (y.hi[D] < y.lo[D] || (!empties && y.hi[D] == y.lo[D]) || large(y))
                    continue;
                b.op("rexpand", ints(), reals(), ints { k, d, lo, hi });
                m.lo[D] += lo;
                m.hi[D] += hi;
            } else if (what == 1) {
                const int by = int(b.r.range(-5, 5));
                b.op("rshift", ints(), reals(), ints { k, d, by });
                m.lo[D] += by;
                m.hi[D] += by;
            } else {
                const api::box x = some_box(1, false);
                api::box y = m;
                y.lo[D] = x.lo[0];
                y.hi[D] = x.hi[0];
                if (large(y))
                    continue;
                b.op("rset", ints(), reals(), ints { k, d, x.lo[0], x.hi[0] });
                m.lo[D] = x.lo[0];
                m.hi[D] = x.hi[0];
            }
        } else if (u < 0.56)
            b.op("rcmp", ints(), reals(), ints { k, other() });
        else if (u < 0.82) {
            // a part of this range, or any other
            const int sub = slots + int(b.r.range(0, 2));
            if (b.r.chance(0.8) && dims) {
                api::box x = m;
                for (int i = 0; i < dims; i++) {
                    const size_t D = size_t(i);
                    if (b.r.chance(0.3) || m.lo[D] == m.hi[D])
                        continue;
                    x.lo[D] = int(b.r.range(m.lo[D], m.hi[D] - 1));
                    x.hi[D] = int(b.r.range(x.lo[D] + (empties && b.r.chance(0.1) ? 0 : 1), m.hi[D]));
                }
                if (b.r.chance(0.1)) {
                    const size_t D = size_t(b.r.range(0, dims - 1));
                    if (b.r.chance(0.5))
                        x.lo[D] -= int(b.r.range(1, 3));
                    else
                        x.hi[D] += int(b.r.range(1, 3));
                }
                ints d { sub, 2, 0 };
                put(d, x);
                if (S.count(sub)) {
                    d.erase(d.begin() + 2);
                    d[1] = 0;
                    b.op("rresize", ints(), reals(), d);
                } else
                    b.op("rnew", ints(), reals(), d);
                S[sub] = x;
                b.group++;
                if (b.r.chance(0.3)) {
                    b.op("rcmp", ints(), reals(), ints { k, sub });
                    b.group++;
                }
                if (!long_way(x))
                    b.op("rwalk", ints(), reals(), ints { sub, k, int(b.r.range(0, 4)) });
            } else {
                const int way = b.r.chance(0.5) ? k : other();
                if (!long_way(S[way]))
                    b.op("rwalk", ints(), reals(), ints { way, k, int(b.r.range(0, 4)) });
            }
        } else if (u < 0.95) {
            if (!dims)
                continue;
            long total = 1;
            ints d { k, int(b.r.range(0, 2)), int(b.r.range(0, std::min(sets, 2))) };
            if (d[2] == sets)
                sets++;
            for (int i = 0; i < dims; i++) {
                const int len = m.hi[size_t(i)] - m.lo[size_t(i)];
                int parts = len > 300 ? int(b.r.range(1, 40)) : b.r.chance(0.2) ? len + int(b.r.range(0, 3)) : int(b.r.range(1, std::max(1, len)));
                if (parts < 1 || total * parts > 300)
                    parts = 1;
                total *= parts;
                d.push_back(parts);
            }
            b.op("rdiv", ints(), reals(), d);
        } else {
            b.op("rdrop", ints(), reals(), ints(1, k));
            S.erase(k);
        }
    }
    b.schedule(0.8);
    if (b.r.chance(0.6))
        b.alloc_faults(0.3, 8);
    b.p.cfg["minops"] = 1;
    return b.p;
}

// initial conditions over old contents
void plasma_condition(builder & b);
plan gen_C14(uint64_t seed, int tier)
{
    builder b("C14", seed);
    b.p.grids.push_back(b.grid(any_size(b.r, tier)));
    const api::gridcfg & g = b.g();
    ints fluids, fields, others;
    for (int i = 0, end = int(b.r.range(1, 3)); i < end; i++)
        fluids.push_back(b.var(b.name("fluid", i), FLUID));
    for (int i = 0, end = int(b.r.range(1, 2)); i < end; i++)
        fields.push_back(b.var(b.name("field", i), FIELD));
    for (int i = 0, end = int(b.r.range(1, 3)); i < end; i++) {
        std::vector<std::string> c;
        for (int k = 0, end = int(b.r.range(1, 4)); k < end; k++)
            c.push_back("c" + std::to_string(k));
        const bool points = b.r.chance(0.15);
        others.push_back(points ? b.var(b.name("points", i), c, "pts", 2) : b.var(b.name("n", i), c));
    }
    ints all = fluids;
    all.insert(all.end(), fields.begin(), fields.end());
    all.insert(all.end(), others.begin(), others.end());
    b.group++;
    b.op("touch", all);
    for (int v : all)
        if (b.r.chance(0.7))
            b.op("set", ints(1, v), reals(1, 1.4), ints { 12, int(b.r.range(1, 1000000)) });
    auto centre = [&]() {
        reals c;
        const int n = int(b.r.range(b.r.chance(0.2) ? 0 : 1, 3));
        for (int d = 0; d < n; d++)
            c.push_back(d < g.nd ? g.start[d] + g.width[d] * b.r.unit() : b.r.chance(0.5) ? 0. : 0.2 * b.r.unit());
        return c;
    };
    const int n = int(b.r.range(2, 9));
    for (int k = 0; k < n; k++) {
        b.block++;
        b.group++;
        const double gamma = b.r.chance(0.3) ? 2. : 1.1 + 0.9 * b.r.unit();
        switch (b.r.range(0, 7)) {
        case 0:
            b.op("shock", b.some(fluids, 1), b.r.chance(0.3) ? reals() : reals { 0.1 + 4. * b.r.unit(), 0.1 + 4. * b.r.unit(), gamma });
            break;
        case 1: {
            reals x;
            if (b.r.chance(0.85)) {
                x = { g.width[0] * (0.1 + 0.5 * b.r.unit()), 0.1 + 4. * b.r.unit(), 0.1 + 4. * b.r.unit(), gamma };
                const reals c = centre();
                x.insert(x.end(), c.begin(), c.end());
            }
            b.op("radial", b.some(fluids, 1), x);
            break;
        }
        case 2:
            b.op("pulse", b.some(fields, 1), reals { 2. * b.r.unit() - 1., g.width[0] * (0.05 + b.r.unit()) });
            break;
        case 3:
            b.op("wave", b.some(fields, 1), b.r.chance(0.15) ? reals() : reals { b.r.chance(0.2) ? 1. : 0.2 + 3. * b.r.unit(), 2. * M_PI * double(b.r.range(1, 4)) / g.width[0], 2. * b.r.unit() - 1., 2. * b.r.unit() - 1., 2. * b.r.unit() - 1. }, ints(1, int(b.r.range(0, b.r.chance(0.1) ? 2 : g.nd - 1))));
            break;
        case 4:
        case 5: {
            reals x { 2. * b.r.unit() - 1., g.width[0] * (0.1 + b.r.unit()) };
            const reals c = centre();
            x.insert(x.end(), c.begin(), c.end());
            b.op("gaussian", b.some(b.r.chance(0.7) ? others : all, 1), x);
            break;
        }
        default: {
            if (fluids.size() < 2)
                continue;
            ints f = fluids;
            for (size_t i = f.size(); i > 1; i--)
                std::swap(f[i - 1], f[size_t(b.r.range(0, long(i) - 1))]);
            const ints v { f[0], f[1], fields[size_t(b.r.range(0, long(fields.size()) - 1))] };
            if (b.r.chance(0.5)) {
                reals x;
                if (b.r.chance(0.7)) {
                    x.push_back(gamma);
                    for (int i = 0; i < 6; i++)
                        x.push_back(0.05 + 2. * b.r.unit());
                    x.push_back(2. * b.r.unit() - 1.);
                    x.push_back(2. * b.r.unit() - 1.);
                }
                b.op("briowu", v, x);
            } else {
                reals x;
                for (int i = 0; i < 14; i++)
                    x.push_back(0.2 + 2. * b.r.unit());
                x[4] = gamma;
                x[5] = -x[5];
                x[1] = g.width[0] * (0.3 + b.r.unit());
                b.op("gem", v, x);
            }
        }
        }
        if (b.r.chance(0.25)) { // signs, zeros and extremes
            step & o = b.p.ops.back();
            const double s = b.r.chance(0.5) ? -1. : 1., z = b.r.chance(0.3) ? 0. : 1., far = std::pow(10., double(b.r.range(-6, 3)));
            if (o.kind == "wave" && !o.x.empty()) {
                o.x[0] *= s;
                o.x[1] *= b.r.chance(0.5) ? -1. : 1.;
                o.x[size_t(b.r.range(2, 4))] *= z;
            } else if (o.kind == "gaussian" || o.kind == "pulse")
                o.x[0] *= z == 0. ? 0. : far;
            else if (o.kind == "shock" && !o.x.empty())
                o.x[size_t(b.r.range(0, 1))] = z == 0. ? 1. : far;
            else if (o.kind == "radial" && !o.x.empty())
                o.x[size_t(b.r.range(1, 2))] = z == 0. ? 1. : far;
            else if (o.kind == "gem")
                o.x[size_t(b.r.range(5, 6))] *= s;
        }
        if (b.r.chance(0.25)) { // some parameters that agree
            step & o = b.p.ops.back();
            for (int k = o.kind == "gaussian" || o.kind == "radial" ? 0 : int(b.r.range(1, 6)); k > 0 && o.x.size() > 2; k--) {
                const size_t i = size_t(b.r.range(0, long(o.x.size()) - 1)), j = size_t(b.r.range(0, long(o.x.size()) - 1));
                if ((o.kind != "gem" || (i != 4 && j != 4 && i != 5 && j != 5)) && (o.kind != "wave") && (o.kind != "briowu" || (i > 0 && i < 7 && j > 0 && j < 7)) && (o.kind != "shock" || (i < 2 && j < 2)))
                    o.x[i] = o.x[j];
            }
        }
        if (b.r.chance(0.15)) { // over its own result
            const step o = b.p.ops.back();
            b.op(o.kind, o.v, o.x, o.d);
        }
    }
    b.schedule(0.6);
    if (b.r.chance(0.6))
        b.alloc_faults(0.3, 6);
    b.p.cfg["minops"] = 1;
    return b.p;
}

// grids: made, copied, biased, asked
plan gen_C15(uint64_t seed, int)
{
    builder b("C15", seed);
    b.p.grids.push_back(b.grid(0));
    struct g1
    {
        int kind;
        api::gridcfg c;
    };
    std::map<int, g1> S;
    const int n = int(b.r.range(3, 24)), slots = int(b.r.range(1, 4));
    for (int q = 0; q < n; q++) {
        b.block++;
        b.group++;
        const int k = int(b.r.range(0, slots - 1));
        if (!S.count(k)) {
            g1 m;
            m.kind = b.r.chance(0.6);
            m.c = b.grid(b.r.chance(0.9) ? 0 : 1);
            for (int d = 0; d < m.c.nd; d++) {
                if (b.r.chance(0.15))
                    m.c.n[d] = 1;
                if (m.kind && b.r.chance(0.6))
                    m.c.n[d] += m.c.n[d] & 1;
                if (b.r.chance(0.3)) {
                    m.c.start[d] = 20. * b.r.unit() - 10.;
                    m.c.width[d] = std::pow(10., double(b.r.range(-3, 2))) * (1. + b.r.unit());
                }
                if (b.r.chance(0.05)) { // any unit of length
                    m.c.width[d] = std::pow(10., double(b.r.range(-25, 25))) * (1. + b.r.unit());
                    m.c.start[d] = b.r.chance(0.3) ? 0. : m.c.width[d] * (10. * b.r.unit() - 5.);
                }
            }
            if (b.r.chance(0.04)) { // long in one direction
                const int d = int(b.r.range(0, m.c.nd - 1));
                for (int i = 0; i < m.c.nd; i++)
                    m.c.n[i] = i == d ? int(b.r.range(1, b.r.chance(0.3) ? 3000 : 400)) : std::min(m.c.n[i], 2);
            }
            ints d { k, m.kind, m.c.nd };
            reals x;
            for (int i = 0; i < m.c.nd; i++) {
                d.push_back(m.c.n[i]);
                x.push_back(m.c.start[i]);
                x.push_back(m.c.width[i]);
            }
            d.insert(d.end(), m.c.lo, m.c.lo + m.c.nd);
            b.op("gnew", ints(), x, d);
            S[k] = m;
            continue;
        }
        g1 & m = S[k];
        const double u = b.r.unit();
        if (u < 0.45 && m.kind) {
            static const double powers[] = { 1., 2., 3., 1.5, 2.5, 0.5, 4. };
            const int d = int(b.r.range(0, b.r.chance(0.08) ? 3 : m.c.nd - 1));
            b.op("gbias", ints(), reals(1, b.r.chance(0.2) ? 0.3 + 7. * b.r.unit() : powers[b.r.range(0, 6)]), ints { k, b.r.chance(0.04) ? -1 : d, int(b.r.range(0, 1)) });
        } else if (u < 0.65) {
            const int d = int(b.r.range(0, m.c.nd - 1));
            int dim = d, index = int(b.r.range(0, m.c.n[d] - 1));
            const int off = int(b.r.range(0, 4));
            if (off == 0)
                dim = b.r.chance(0.5) ? -1 : m.c.nd + int(b.r.range(0, 1));
            else if (off == 1)
                index = -1 - int(b.r.range(0, 3));
            else if (off == 2)
                index = m.c.n[d] + int(b.r.range(0, 2));
            b.op("gask", ints(), reals(), ints { k, dim, index, int(b.r.range(0, 1)) });
        } else if (u < 0.8) {
            const int t = int(b.r.range(0, slots - 1));
            if (t == k)
                continue;
            if (!S.count(t))
                b.op("gcopy", ints(), reals(), ints { t, k });
            else if (S[t].kind == m.kind)
                b.op("gassign", ints(), reals(), ints { t, k });
            else
                continue;
            S[t] = g1(S[k]);
        } else if (u < 0.86) {
            b.op("gdrop", ints(), reals(), ints(1, k));
            S.erase(k);
        }
    }
    b.schedule(0.8);
    if (b.r.chance(0.6))
        b.alloc_faults(0.3, 6);
    b.p.cfg["minops"] = 1;
    return b.p;
}

plan gen_C17(uint64_t seed, int)
{
    builder b("C17", seed);
    b.p.grids.push_back(b.grid(0));
    struct shape
    {
        int kind = 0;
        bool sized = false;
        api::box mesh, comps, range;
        int g = 0;
    };
    std::map<int, shape> S;
    const int slots = int(b.r.range(1, 4));
    const bool offsets = b.r.chance(0.6), empties = b.r.chance(0.25);
    auto put = [](ints & d, const api::box & x) {
        d.push_back(int(x.lo.size()));
        d.insert(d.end(), x.lo.begin(), x.lo.end());
        d.insert(d.end(), x.hi.begin(), x.hi.end());
    };
    auto some_box = [&](int dims, int most, bool shift) {
        api::box x;
        for (int i = 0; i < dims; i++) {
            const int lo = shift ? int(b.r.range(-4, 6)) : 0;
            x.lo.push_back(lo);
            x.hi.push_back(lo + int(b.r.range(1, most)));
        }
        return x;
    };
    auto part_of = [&](const api::box & x) {
        api::box r;
        for (size_t i = 0; i < x.lo.size(); i++) {
            int lo = int(b.r.range(x.lo[i], x.hi[i] - 1)), hi = int(b.r.range(lo + 1, x.hi[i]));
            if (b.r.chance(0.3)) {
                lo = x.lo[i];
                hi = x.hi[i];
            }
            if (empties && b.r.chance(0.06))
                hi = lo;
            r.lo.push_back(lo);
            r.hi.push_back(hi);
        }
        return r;
    };
    auto volume = [](const api::box & x) {
        long n = 1;
        for (size_t i = 0; i < x.lo.size(); i++)
            n *= x.hi[i] - x.lo[i];
        return n;
    };
    auto meet = [](const api::box & x, const api::box & y) {
        for (size_t i = 0; i < x.lo.size(); i++)
            if (x.hi[i] <= y.lo[i] || y.hi[i] <= x.lo[i])
                return false;
        return true;
    };
    auto set = [&](int k) {b.op("cset", ints(), reals(), ints { k, int(b.r.range(1, 1000000)), b.r.chance(0.15) });};
    const int n = int(b.r.range(5, 45));
    for (int q = 0; q < n; q++) {
        b.block++;
        b.group++;
        const int k = int(b.r.range(0, slots - 1));
        if (!S.count(k)) {
            shape s;
            s.kind = b.r.chance(0.5);
            S[k] = s;
            b.op("cnew", ints(), reals(), ints { k, s.kind });
            b.group++;
        }
        shape & s = S[k];
        std::vector<int> twins; // same range
        std::vector<int> sized;
        for (auto & e : S)
            if (e.second.sized) {
                sized.push_back(e.first);
                if (e.first != k && s.sized && e.second.range.lo == s.range.lo && e.second.range.hi == s.range.hi)
                    twins.push_back(e.first);
            }
        const double u = b.r.unit();
        if (!s.sized || u < 0.1) {
            // often the shape of another chunk
            if (!sized.empty() && b.r.chance(0.4)) {
                const shape & o = S[sized[size_t(b.r.range(0, long(sized.size()) - 1))]];
                s.mesh = o.mesh;
                s.comps = o.comps;
                s.g = s.kind ? o.g : 0;
                if (s.kind != o.kind && s.kind) // same total range, part of it ghost layers
                    s.g = 0;
                else if (s.kind != o.kind) {
                    s.mesh.lo.assign(o.range.lo.begin(), o.range.lo.begin() + long(o.mesh.lo.size()));
                    s.mesh.hi.assign(o.range.hi.begin(), o.range.hi.begin() + long(o.mesh.hi.size()));
                }
            } else {
                const int dims = int(b.r.range(1, 3));
                const bool big = b.r.chance(0.03);
                s.mesh = some_box(dims, !big ? 5 : dims == 1 ? (b.r.chance(0.05) ? 20000 : 1500) : dims == 2 ? 40 : 12, offsets);
                const bool wide = !big && b.r.chance(0.04);
                s.comps = wide ? some_box(1, 200, offsets && b.r.chance(0.3)) : some_box(int(b.r.range(1, 2)), 4, offsets && b.r.chance(0.3));
                s.g = !s.kind ? 0 : b.r.chance(0.6) ? 2 : int(b.r.range(0, !big && !wide && b.r.chance(0.1) ? 8 : 3));
            }
            s.range = s.mesh;
            for (size_t i = 0; i < s.range.lo.size(); i++) {
                s.range.lo[i] -= s.g;
                s.range.hi[i] += s.g;
            }
            s.range.lo.insert(s.range.lo.end(), s.comps.lo.begin(), s.comps.lo.end());
            s.range.hi.insert(s.range.hi.end(), s.comps.hi.begin(), s.comps.hi.end());
            ints d { k, s.g };
            put(d, s.mesh);
            put(d, s.comps);
            b.op("cresize", ints(), reals(), d);
            s.sized = true;
            b.group++;
            set(k);
        } else if (u < 0.18) {
            std::vector<int> kin;
            for (auto & e : S)
                if (e.first != k && e.second.sized && e.second.kind == s.kind)
                    kin.push_back(e.first);
            if (kin.empty())
                continue;
            const int from = kin[size_t(b.r.range(0, long(kin.size()) - 1))];
            b.op("cassign", ints(), reals(), ints { k, from });
            s = S[from];
        } else if (u < 0.24)
            b.op("cfill", ints(), reals(1, b.r.chance(0.15) ? b.fill_value() : double(b.r.range(-50, 50)) / 8.), ints(1, k));
        else if (u < 0.34) {
            ints d(1, k);
            api::box x = part_of(s.range);
            if (b.r.chance(0.15)) { // reaches outside
                const size_t i = size_t(b.r.range(0, long(x.lo.size()) - 1));
                if (b.r.chance(0.5))
                    x.lo[i] = s.range.lo[i] - int(b.r.range(1, 3));
                else
                    x.hi[i] = s.range.hi[i] + int(b.r.range(1, 3));
            }
            put(d, x);
            b.op("cfillr", ints(), reals(1, b.r.chance(0.15) ? b.fill_value() : double(b.r.range(-50, 50)) / 8.), d);
        } else if (u < 0.44) {
            ints d(1, k);
            put(d, part_of(s.range));
            static const double factor[] = { -1., 0., 2., 0.5, -0.25, 3., 1., 1. / 3., 1.e-310, 1.e300 };
            b.op("cscale", ints(), reals(1, b.r.chance(0.1) ? b.fill_value() : factor[b.r.range(0, 9)]), d);
        } else if (u < 0.68) {
            const int t = sized[size_t(b.r.range(0, long(sized.size()) - 1))];
            api::box from = part_of(s.range), to = part_of(S[t].range);
            const bool unequal = b.r.chance(0.1);
            for (int i = 0; i < 40 && !unequal && volume(from) != volume(to); i++) {
                from = part_of(s.range);
                to = part_of(S[t].range);
                if (from.lo.size() == to.lo.size() && b.r.chance(0.7)) { // the same box elsewhere
                    to = from;
                    for (size_t j = 0; j < to.lo.size(); j++) {
                        const int len = to.hi[j] - to.lo[j], room = S[t].range.hi[j] - S[t].range.lo[j] - len;
                        if (room < 0)
                            continue;
                        to.lo[j] = S[t].range.lo[j] + int(b.r.range(0, room));
                        to.hi[j] = to.lo[j] + len;
                    }
                }
            }
            if (t == k && meet(from, to))
                continue;
            ints d { k, t };
            put(d, from);
            put(d, to);
            b.op(b.r.chance(0.5) ? "ccopy" : "cpull", ints(), reals(), d);
        } else if (u < 0.84 && sized.size() > 1) {
            const int t = !twins.empty() && b.r.chance(0.8) ? twins[size_t(b.r.range(0, long(twins.size()) - 1))] : sized[size_t(b.r.range(0, long(sized.size()) - 1))];
            static const char * what[] = { "cfull", "cpulla", "cswap" };
            b.op(what[b.r.range(0, 2)], ints(), reals(), ints { k, t });
        } else if (u < 0.94) {
            ints d { k, int(b.r.range(0, 5)) };
            api::box x = part_of(s.range);
            const bool written = s.comps.lo.size() == 1 && s.comps.lo[0] == 0 && volume(x) > 0 && b.r.chance(0.25);
            if (written) // one component
                x.hi.back() = x.lo.back() + 1;
            put(d, x);
            b.op(written ? "cwrite" : "cwalk", ints(), reals(), d);
        } else if (u < 0.97)
            set(k);
        else {
            b.op("cdrop", ints(), reals(), ints(1, k));
            S.erase(k);
        }
    }
    b.schedule(0.8);
    if (b.r.chance(0.3))
        b.alloc_faults(0.5, 10, " cresize cassign "); // the calls that change more than values
    else if (b.r.chance(0.5))
        b.alloc_faults(0.25, 6);
    b.p.cfg["minops"] = 1;
    return b.p;
}

plan gen_C08(uint64_t seed, int)
{
    builder b("C08", seed);
    b.p.grids.push_back(b.grid(0));
    // overlapping names, component lists and bases; sometimes very many
    const bool many = b.r.chance(0.02);
    const int names = int(many ? b.r.range(40, 150) : b.r.range(1, 6)), lists = int(b.r.range(1, 3)), bases = int(b.r.range(1, 5));
    std::vector<std::string> nm;
    static const char * stems[] = { "a", "b", "ab", "A", "a1", "rho", "fluid", "fluid_1", "fluid_10", "z", "electron_fluid_of_the_upper_half_domain", "electron_fluid_of_the_upper_half", "electron_fluid_of_the_lower_half_domain", "electrons.rho", "electrons rho", "", "\xc3\xa9", "e" };
    static const std::string nul[] = { std::string("a\0b", 3), std::string("a\0c", 3), std::string("a\0", 2), std::string("\0", 1) };
    const bool wide = b.r.chance(0.3);
    for (int i = 0; i < names; i++)
        nm.push_back((wide && b.r.chance(0.3) ? nul[b.r.range(0, 3)] : std::string(stems[wide ? b.r.range(10, 17) : b.r.range(0, 9)])) + (many ? std::to_string(b.r.range(0, 400)) : b.r.chance(0.3) ? std::to_string(b.r.range(0, 3)) : std::string()));
    // names that differ from another one in as little as names can differ in
    const auto nearly = [&](const std::string & s) {
        std::string t = s;
        switch (b.r.range(0, 8)) {
        case 0: return t + " ";
        case 1: return " " + t;
        case 2: return t + std::string(1, char(b.r.range(0, 255)));
        case 3: return t.empty() ? t : t.substr(0, t.size() - 1);
        case 4: return t.empty() ? t : t.substr(1);
        case 5: return t + t;
        case 6:
            if (!t.empty())
                t[size_t(b.r.range(0, long(t.size()) - 1))] ^= char(1 << b.r.range(0, 7));
            return t;
        case 7: return std::string(t.rbegin(), t.rend());
        default:
            if (!t.empty())
                t[size_t(b.r.range(0, long(t.size()) - 1))] = ' ';
            return t;
        }
    };
    const bool near = b.r.chance(0.5);
    if (near)
        for (int i = 1; i < names; i++)
            if (b.r.chance(0.5))
                nm[size_t(i)] = nearly(nm[size_t(b.r.range(0, i - 1))]);
    std::vector<std::vector<std::string>> cl;
    for (int i = 0; i < lists; i++) {
        std::vector<std::string> c;
        if (near && i && b.r.chance(0.6)) {
            c = cl[size_t(b.r.range(0, i - 1))];
            switch (b.r.range(0, 3)) {
            case 0: c.push_back(c[0]); break;
            case 1:
                if (c.size() > 1)
                    c.pop_back();
                break;
            case 2: std::swap(c[0], c.back()); break;
            default: {
                std::string & e = c[size_t(b.r.range(0, long(c.size()) - 1))];
                e = nearly(e);
            }
            }
        } else
            for (int k = 0, end = int(b.r.range(1, 6)); k < end; k++)
                c.push_back("c" + std::to_string(b.r.range(0, 2)));
        cl.push_back(c);
    }
    std::vector<std::pair<std::string, int>> bs;
    bs.push_back(std::make_pair(std::string("va"), 1));
    static const char * bn[] = { "p", "q", "volume_averag", "volume_averaged", "b", "face" };
    static const int points[] = { 1, 2, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33 };
    for (int i = 1; i < bases; i++)
        if (near && b.r.chance(0.6)) {
            bs.push_back(bs[size_t(b.r.range(0, i - 1))]);
            if (bs.back().first == "va")
                bs.back().first = "volume_averaged";
            if (b.r.chance(0.4))
                bs.back().first = nearly(bs.back().first);
            else
                bs.back().second = points[b.r.range(0, 13)];
            if (bs.back().first == "va" || bs.back().first == "volume_average") // the basis of the library, under its own name
                bs.back().first += "d";
        } else
            bs.push_back(std::make_pair(std::string(bn[b.r.range(0, 5)]), int(b.r.range(1, 4))));
    const int n = int(many ? b.r.range(100, 400) : b.r.range(4, 40));
    const bool clash = b.r.chance(0.6);
    std::map<std::string, int> first;
    for (int k = 0; k < n; k++) {
        b.block++;
        b.group++;
        const std::string & name = nm[size_t(b.r.range(0, names - 1))];
        if (!first.count(name))
            first[name] = int(b.r.range(0, lists - 1));
        const int list = clash && b.r.chance(0.2) ? int(b.r.range(0, lists - 1)) : first[name];
        const auto & basis = bs[size_t(b.r.range(0, long(bs.size()) - 1))];
        int v = -1;
        for (size_t i = 0; i < b.p.vars.size(); i++)
            if (b.p.vars[i].name == name && b.p.vars[i].comps == cl[size_t(list)] && b.p.vars[i].basis == basis.first && b.p.vars[i].points == basis.second)
                v = int(i);
        if (v < 0) {
            api::varspec s;
            s.name = name;
            s.comps = cl[size_t(list)];
            s.basis = basis.first;
            s.points = basis.second;
            b.p.vars.push_back(s);
            v = int(b.p.vars.size()) - 1;
        }
        b.op(b.r.chance(0.65) ? "out" : "in", ints(1, v), reals(), ints(1, int(b.r.range(1, 1000000))));
        if (b.r.chance(0.1)) { // a step on what exists
            b.group++;
            b.op("fillall", ints(), reals(1, double(b.r.range(1, 9))));
        }
        if (b.r.chance(0.06)) { // the identifiers handed out are unique and leave the original alone
            b.group++;
            ints d;
            if (b.r.chance(0.1))
                d.push_back(int(b.r.range(2, 700)));
            b.op("clone", ints(1, v), reals(), d);
        }
        if (b.r.chance(0.12)) {
            b.group++;
            ints three;
            for (int i = 0; i < 3; i++)
                three.push_back(int(b.r.range(0, long(b.p.vars.size()) - 1)));
            b.op("cmp", three);
        }
    }
    b.schedule(0.8);
    if (b.r.chance(0.6))
        b.alloc_faults(0.25, 6);
    b.p.cfg["minops"] = 1;
    return b.p;
}

plan gen_C09(uint64_t seed, int)
{
    builder b("C09", seed);
    b.p.grids.push_back(b.grid(0));
    ints v;
    v.push_back(b.var("fluid_a", FLUID));
    v.push_back(b.var("fluid_b", FLUID));
    v.push_back(b.var("field_a", FIELD));
    v.push_back(b.var("field_b", FIELD));
    v.push_back(b.var("n_a", std::vector<std::string>(1, "n")));
    v.push_back(b.var("n_b", std::vector<std::string>(1, "n")));
    b.group++;
    b.op("touch", v);
    b.op("clock", ints(), reals { 0., 0.01 });
    for (int x : v)
        b.op("set", ints(1, x), reals(1, 1.4), ints { 0, int(b.r.range(1, 1000000)) });
    const int n = int(b.r.range(3, 16));
    const int kinds = api::misuse_kinds();
    for (int k = 0; k < n; k++) {
        b.block++;
        b.group++;
        const double u = b.r.unit();
        if (u < 0.6)
            b.op("misuse", v, reals(), ints { int((seed * 7 + uint64_t(k) * 13 + uint64_t(b.r.range(0, kinds - 1))) % uint64_t(kinds)), int(b.r.range(0, b.r.chance(0.4) ? 11 : 9999)) });
        else if (u < 0.8) {
            static const char * kept[] = { "keep", "kcopy", "kassign", "kraise", "kappend", "kdrop" };
            b.op(kept[b.r.range(0, 5)], ints(), reals(), ints { int(b.r.range(0, 999)), int(b.r.range(0, 999)), int(b.r.range(0, 4)) });
        } else if (u < 0.9)
            b.op("fill", ints(1, v[size_t(b.r.range(0, 5))]), reals(1, double(b.r.range(1, 9))));
        else
            b.op("churn", ints(), reals(), ints(1, int(b.r.range(1, 400))));
    }
    b.schedule(0.8);
    if (b.r.chance(0.4))
        b.alloc_faults(0.25, 4);
    b.p.cfg["minops"] = 1;
    return b.p;
}

plan gen_C10(uint64_t seed, int tier)
{
    builder b("C10", seed);
    const int callers = int(b.r.range(2, 4));
    (void) tier;
    const int nd = int(b.r.range(1, 3));
    const bool same_grid = b.r.chance(0.4);
    for (int c = 0; c < callers; c++)
        b.p.grids.push_back(c && same_grid ? b.p.grids[0] : b.grid(b.r.chance(0.85) ? 0 : 1, nd));
    // one cast; every caller owns its copy of the variables in its own manager
    b.cast(0.3);
    b.p.cfg["callers"] = callers;
    const int mode = int(b.r.range(0, 9));
    if (mode == 0)
        b.p.cfg["share"] = 0; // every caller configures its own solvers while running
    else
        b.p.cfg["share"] = 1;
    // history of each caller
    const bool same_history = b.r.chance(0.3);
    std::vector<step> shared_ops;
    for (int c = 0; c < callers; c++) {
        b.world = c;
        b.setup_ops(true);
        if (b.r.chance(0.5)) {
            b.group++;
            if (b.coupled && b.r.chance(0.5))
                plasma_condition(b);
            else
                initial_condition(b, 0);
        }
        const int steps = int(b.r.range(1, 2));
        for (int s = 0; s < steps; s++) {
            b.time_step();
            if (b.r.chance(0.4)) {
                b.group++;
                b.op("write", b.some(b.all_q(), 1), reals(), ints(), "/sim/c" + std::to_string(c) + "/frame_" + std::to_string(s) + ".vtk");
            }
            if (b.r.chance(0.4)) {
                b.group++;
                ints many;
                if (b.r.chance(0.1))
                    many.push_back(int(b.r.range(2, 300)));
                b.op("clone", ints(1, b.actors[0].q[0]), reals(), many);
            }
            if (b.r.chance(0.3)) // refused
                for (int again = int(b.r.chance(0.3) ? b.r.range(2, 8) : 1); again > 0; again--) {
                    b.group++;
                    if (b.r.chance(0.5))
                        b.op("swap", ints(b.r.chance(0.5) ? 1 : 3, b.actors[0].q[0]));
                    else
                        b.op("write", ints { b.actors[0].q[0], b.var("missing_" + std::to_string(c), std::vector<std::string>(1, "n")) }, reals(), ints(), "/sim/c" + std::to_string(c) + "/refused.vtk");
                }
        }
    }
    // callers that only work on objects of their own, and fail a lot
    if (b.r.chance(0.15)) {
        for (int c = 0; c < callers; c++) {
            b.world = c;
            if (b.r.chance(0.5))
                b.p.ops.erase(std::remove_if(b.p.ops.begin(), b.p.ops.end(), [c](const step & o) {return o.w == c;}), b.p.ops.end());
            for (int k = 0, end = int(b.r.range(1, 6)); k < end; k++) {
                b.group++;
                b.op("work", ints(), reals(), ints { int(b.r.range(1, 1000000)), int(b.r.range(5, 40)) });
            }
        }
    } else if (b.r.chance(0.2)) {
        b.world = int(b.r.range(0, callers - 1));
        b.group++;
        b.op("work", ints(), reals(), ints { int(b.r.range(1, 1000000)), int(b.r.range(5, 60)) });
    }
    (void) same_history;
    b.schedule(0.);
    sched_cfg & s = b.p.sched;
    const double u = b.r.unit();
    s.mode = u < 0.2 ? SCHED_ORDER : u < 0.55 ? SCHED_SPARSE : u < 0.8 ? SCHED_DENSE : SCHED_CUTS;
    s.team = b.r.chance(0.5) ? 1 : int(b.r.range(2, 4));
    s.mean = s.mode == SCHED_DENSE ? int(b.r.range(2, 30)) : int(b.r.range(50, 3000));
    if (b.r.chance(0.4)) {
        const int victim = int(b.r.range(0, callers - 1));
        for (int k = 0, end = int(b.r.range(1, 3)); k < end; k++) {
            pfault f;
            f.op = 0;
            f.caller = victim;
            f.kind = F_ALLOC;
            f.at = uint64_t(b.r.range(1, 3000));
            f.arg = 1;
            b.p.faults.push_back(f);
        }
        if (b.r.chance(0.5)) {
            pfault f;
            f.caller = victim;
            f.kind = b.r.chance(0.5) ? F_EIO : F_OPEN;
            f.at = uint64_t(b.r.range(1, 4));
            f.arg = f.kind == F_EIO ? 1 : EACCES;
            b.p.faults.push_back(f);
        }
    }
    return b.p;
}

// programs: initial condition, frames of steps, exports
void initial_condition(builder & b, int)
{
    for (const actor & a : b.actors) {
        const int nd = b.g().nd;
        reals centre;
        for (int d = 0; d < 3; d++)
            centre.push_back(b.g().start[d < nd ? d : 0] + 0.5 * b.g().width[d < nd ? d : 0] + 0.1 * double(b.r.range(-2, 2)));
        centre.resize(size_t(nd));
        if (a.kind == 0) {
            if (b.r.chance(0.5))
                b.op("shock", ints(1, a.q[0]), b.r.chance(0.3) ? reals() : reals { 1. + 0.5 * double(b.r.range(1, 6)), 1. + 0.5 * double(b.r.range(1, 6)), a.gamma });
            else {
                reals x { 0.3 * b.g().width[0], 2., 3., a.gamma };
                x.insert(x.end(), centre.begin(), centre.end());
                b.op("radial", ints(1, a.q[0]), x);
            }
        } else if (a.kind == 1) {
            if (b.r.chance(0.5))
                b.op("pulse", ints(1, a.q[0]), reals { 0.5 + b.r.unit(), 0.2 * b.g().width[0] });
            else
                b.op("wave", ints(1, a.q[0]), b.r.chance(0.3) ? reals() : reals { a.light, 2. * M_PI / b.g().width[0], 0., 1., 0.5 }, ints(1, int(b.r.range(0, nd - 1))));
        } else {
            reals x { 1. + b.r.unit(), 0.2 * b.g().width[0] };
            x.insert(x.end(), centre.begin(), centre.end());
            b.op("gaussian", ints(1, a.q[0]), x);
        }
    }
}

void plasma_condition(builder & b)
{
    // two fluids and a field set up together
    ints v;
    for (const actor & a : b.actors)
        if (a.kind == 0)
            v.push_back(a.q[0]);
    for (const actor & a : b.actors)
        if (a.kind == 1)
            v.push_back(a.q[0]);
    if (v.size() != 3)
        return;
    if (b.r.chance(0.5))
        b.op("briowu", v);
    else {
        // see src/example/plasma/gem_challenge.cpp
        reals x;
        for (int i = 0; i < 14; i++)
            x.push_back(0.5 + 0.25 * double(b.r.range(0, 6)));
        x[4] = 5. / 3.;     // the ratio of specific heats
        b.op("gem", v, x);
    }
}

plan gen_C11(uint64_t seed, int tier)
{
    builder b("C11", seed);
    if (b.r.chance(1. / 16.)) { // an example program of the library
        b.p.cfg["examples"] = 1;
        const int which = int(b.r.range(0, api::example_kinds - 1));
        b.p.cfg["example"] = which;
        b.p.cfg["cap"] = b.r.range(4, 7);
        b.p.cfg["frames"] = which == 4 || which == 5 || which == 7 ? b.r.range(1, 2) : b.r.chance(0.2) ? -1 : b.r.range(1, 6);
        if (which == 5 && tier && b.r.chance(0.02))
            b.p.cfg["frames"] = -1;
        b.p.cfg["clock"] = long(b.r.range(0, 3));
        b.p.cfg["stack"] = b.r.range(0, 1);
        b.p.grids.push_back(b.grid(0));
        b.op("example", ints(), reals(), ints(1, which));
        const int crashes = int(b.r.range(0, 2));
        for (int k = 0; k < crashes; k++) {
            pfault c;
            c.op = b.p.ops[0].id;
            c.frac = true;
            c.at = uint64_t(b.r.range(0, 1000000));
            c.kind = b.r.chance(0.3) ? F_CRASH_IO : b.r.chance(0.5) ? F_CRASH_IO_MID : F_CRASH_STEP;
            c.arg = int(b.r.range(0, 1023));
            c.attempt = k;
            b.p.faults.push_back(c);
        }
        if (b.r.chance(0.6))
            b.disk_fault(b.p.ops[0], crashes);
        if (b.r.chance(0.5)) {
            pfault c;
            c.op = b.p.ops[0].id;
            c.kind = F_STALL;
            c.at = 1;
            c.arg = int(b.r.range(1, 1000000));
            b.p.faults.push_back(c);
        }
        b.schedule(0.);
        return b.p;
    }
    (void) tier;
    b.p.grids.push_back(b.grid(b.r.chance(0.8) ? 0 : 1));
    b.cast(0.25);
    b.setup_ops(true);
    b.group++;
    initial_condition(b, 0);
    ints frame;
    for (const actor & a : b.actors)
        frame.push_back(a.q[0]);
    const int frames = int(b.r.range(1, 4));
    b.group++;
    b.op("write", frame, reals(), split(b.r), frame_name(b, 0));
    for (int f = 1; f <= frames; f++) {
        for (int s = 0, end = int(b.r.range(1, 2)); s < end; s++)
            b.time_step();
        b.group++;
        b.block++;
        b.op("write", frame, reals(), split(b.r), frame_name(b, f));
    }
    // crashes (the program is started again afterwards) and, sometimes, a disk that stops accepting data
    const int crashes = int(b.r.range(0, 3));
    for (int k = 0; k < crashes; k++) {
        const step & o = b.p.ops[size_t(b.r.range(0, long(b.p.ops.size()) - 1))];
        pfault c;
        c.op = o.id;
        c.frac = true;
        c.at = uint64_t(b.r.range(0, 1000000));
        c.kind = o.kind == "write" ? (b.r.chance(0.5) ? F_CRASH_IO : F_CRASH_IO_MID) : F_CRASH_STEP;
        c.arg = int(b.r.range(0, 1023));
        c.attempt = k; // in the k-th start of the program
        b.p.faults.push_back(c);
    }
    if (b.r.chance(0.4)) {
        std::vector<step> w;
        for (const step & o : b.p.ops)
            if (o.kind == "write")
                w.push_back(o);
        b.disk_fault(w[size_t(b.r.range(0, long(w.size()) - 1))], crashes);
    }
    b.p.cfg["clock"] = long(b.r.range(0, 3));
    b.schedule(0.);
    return b.p;
}

plan gen_C12(uint64_t seed, int tier)
{
    builder b("C12", seed);
    b.p.grids.push_back(b.grid(any_size(b.r, tier)));
    b.cast(0.35);
    b.setup_ops(true);
    b.group++;
    if (b.coupled && b.r.chance(0.6))
        plasma_condition(b);
    else if (b.r.chance(0.85))
        initial_condition(b, 0);
    const int steps = int(b.r.range(0, 2));
    for (int s = 0; s < steps; s++)
        b.time_step();
    if (b.r.chance(0.5)) {
        b.group++;
        b.op("write", b.some(b.all_q(), 1), reals(), split(b.r), frame_name(b, 0));
    }
    if (b.r.chance(0.3)) {
        b.group++;
        b.op("work", ints(), reals(), ints { int(b.r.range(1, 1000000)), int(b.r.range(5, 60)) });
    }
    b.schedule(0.5);
    // the lanes: different stale memory, placement, stack contents, clock, earlier work
    b.p.cfg["aseed"] = long(b.r.range(1, 1000));
    b.p.cfg["skew"] = long(b.r.range(0, 3));
    b.p.cfg["stack"] = long(b.r.range(0, 5));
    b.p.cfg["keep"] = long(b.r.range(0, 1));
    b.p.cfg["clock"] = long(b.r.range(0, 3));
    b.p.cfg["prework"] = b.r.chance(0.15) ? long(b.r.range(3, 16)) : long(b.r.range(0, 2));
    b.p.cfg["other"] = long(b.r.range(0, 1));
    b.p.grids.push_back(b.grid(0, int(b.r.range(1, 3))));
    b.p.cfg["quarantine"] = long(b.r.range(0, 200));
    return b.p;
}

} // namespace

static plan generate_one(const std::string & prop, uint64_t seed, int tier)
{
    if (prop == "C01")
        return gen_C01(seed, tier);
    if (prop == "C02")
        return gen_C02(seed, tier);
    if (prop == "C03")
        return gen_C03(seed, tier);
    if (prop == "C04")
        return gen_C04(seed, tier);
    if (prop == "C05")
        return gen_C05(seed, tier);
    if (prop == "C06")
        return gen_C06(seed, tier);
    if (prop == "C07")
        return gen_C07(seed, tier);
    if (prop == "C08")
        return gen_C08(seed, tier);
    if (prop == "C13")
        return gen_C13(seed, tier);
    if (prop == "C14")
        return gen_C14(seed, tier);
    if (prop == "C15")
        return gen_C15(seed, tier);
    if (prop == "C17")
        return gen_C17(seed, tier);
    if (prop == "C09")
        return gen_C09(seed, tier);
    if (prop == "C10")
        return gen_C10(seed, tier);
    if (prop == "C11")
        return gen_C11(seed, tier);
    if (prop == "C12")
        return gen_C12(seed, tier);
    throw std::runtime_error("no generator for " + prop);
}

plan generate(const std::string & prop, uint64_t seed, int tier)
{
    plan p = generate_one(prop, seed, tier);
    if ((seed / 5000000) & 1) // for the library compiled without optimisation (see check.py)
        p.cfg["unoptimised"] = 1;
    if (prop != "C10" && prop != "C13" && prop != "C15" && prop != "C17")
        p.cfg["pool"] = long((seed * 0x9e3779b97f4a7c15ull >> 40) % 3); // see api::exec
    return p;
}
