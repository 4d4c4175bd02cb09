#include "plan.h"
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <stdexcept>

static std::string hex(double v)
{
    char b[64];
    snprintf(b, sizeof b, "%a", v);
    return b;
}

// names may hold any character
static std::string enc(const std::string & t)
{
    std::string o;
    for (unsigned char c : t)
        if (c <= 32 || c == '%' || c > 126) {
            char b[8];
            snprintf(b, sizeof b, "%%%02x", unsigned(c));
            o += b;
        } else
            o += char(c);
    return o.empty() ? "%" : o;
}
static std::string dec(const std::string & t)
{
    std::string o;
    if (t == "%")
        return o;
    for (size_t i = 0; i < t.size(); i++)
        if (t[i] == '%' && i + 2 < t.size()) {
            o += char(strtol(t.substr(i + 1, 2).c_str(), nullptr, 16));
            i += 2;
        } else
            o += t[i];
    return o;
}

std::string to_text(const plan & p)
{
    std::ostringstream s;
    s << "prop " << p.prop << "\nseed " << p.seed << "\n";
    for (auto & c : p.cfg)
        s << "cfg " << c.first << " " << c.second << "\n";
    for (auto & g : p.grids) {
        s << "grid " << g.nd;
        for (int d = 0; d < 3; d++)
            s << " " << g.n[d] << " " << hex(g.start[d]) << " " << hex(g.width[d]);
        if (g.lo[0] || g.lo[1] || g.lo[2])
            s << " " << g.lo[0] << " " << g.lo[1] << " " << g.lo[2];
        s << "\n";
    }
    for (auto & v : p.vars) {
        s << "var " << enc(v.name) << " " << enc(v.basis) << " " << v.points;
        for (auto & c : v.comps)
            s << " " << enc(c);
        s << "\n";
    }
    for (auto & o : p.ops) {
        s << "op " << o.id << " " << o.w << " " << o.block << " " << o.group << " " << o.kind;
        for (int i : o.v)
            s << " v=" << i;
        for (double x : o.x)
            s << " x=" << hex(x);
        for (int d : o.d)
            s << " d=" << d;
        if (!o.s.empty())
            s << " s=" << enc(o.s);
        s << "\n";
    }
    for (auto & f : p.faults)
        s << "fault " << f.op << " " << f.kind << " " << f.at << " " << f.frac << " " << f.arg << " " << f.caller << " " << f.attempt << " " << sim::fault_name[f.kind] << "\n";
    s << "sched " << int(p.sched.mode) << " " << p.sched.seed << " " << p.sched.team << " " << p.sched.mean << "\n";
    s << "explicit " << p.explicit_sched << "\n";
    for (auto & w : p.switches)
        s << "switch " << w.op << " " << w.pass << " " << w.step << " " << w.to << "\n";
    return s.str();
}

static double num(const std::string & t) { return strtod(t.c_str(), nullptr); }

plan from_text(const std::string & text)
{
    plan p;
    std::istringstream in(text);
    std::string line;
    while (std::getline(in, line)) {
        std::istringstream l(line);
        std::string k;
        if (!(l >> k) || k[0] == '#')
            continue;
        if (k == "prop")
            l >> p.prop;
        else if (k == "seed")
            l >> p.seed;
        else if (k == "cfg") {
            std::string n;
            long v;
            l >> n >> v;
            p.cfg[n] = v;
        } else if (k == "grid") {
            api::gridcfg g;
            l >> g.nd;
            for (int d = 0; d < 3; d++) {
                std::string a, b;
                l >> g.n[d] >> a >> b;
                g.start[d] = num(a);
                g.width[d] = num(b);
            }
            for (int d = 0; d < 3; d++)
                if (!(l >> g.lo[d]))
                    g.lo[d] = 0;
            p.grids.push_back(g);
        } else if (k == "var") {
            api::varspec v;
            std::string c;
            l >> c;
            v.name = dec(c);
            l >> c >> v.points;
            v.basis = dec(c);
            while (l >> c)
                v.comps.push_back(dec(c));
            p.vars.push_back(v);
        } else if (k == "op") {
            step o;
            l >> o.id >> o.w >> o.block >> o.group >> o.kind;
            std::string t;
            while (l >> t) {
                const std::string v = t.substr(2);
                switch (t[0]) {
                case 'v':
                    o.v.push_back(atoi(v.c_str()));
                    break;
                case 'x':
                    o.x.push_back(num(v));
                    break;
                case 'd':
                    o.d.push_back(atoi(v.c_str()));
                    break;
                default:
                    o.s = dec(v);
                }
            }
            p.ops.push_back(o);
        } else if (k == "fault") {
            pfault f;
            l >> f.op >> f.kind >> f.at >> f.frac >> f.arg >> f.caller >> f.attempt;
            p.faults.push_back(f);
        } else if (k == "sched") {
            int m;
            l >> m >> p.sched.seed >> p.sched.team >> p.sched.mean;
            p.sched.mode = sim::sched_mode(m);
        } else if (k == "explicit")
            l >> p.explicit_sched;
        else if (k == "switch") {
            sim::sw w;
            l >> w.op >> w.pass >> w.step >> w.to;
            p.switches.push_back(w);
        } else
            throw std::runtime_error("plan: unknown line " + line);
    }
    return p;
}
