#include "model.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>

static const double NA = std::nan("");

// ------------------------------------------------------------------ finite volumes
// van Albada limited states left and right of a face from four cells in a row
static void face_states(double a, double b, double c, double d, double & l, double & r)
{
    const double tiny = 1.e-12;
    const double rl = (c - b) / (b - a + tiny), rr = (c - b) / (d - c + tiny);
    l = b + 0.5 * ((rl * rl + rl) / (rl * rl + 1)) * (b - a);
    r = c + 0.5 * ((rr * rr + rr) / (rr * rr + 1)) * (c - d);
}

struct cellref
{
    int i[3];
};
static double val(const arr & q, cellref c, int dim, int shift, int comp)
{
    c.i[dim] += shift;
    return q(c.i[0], c.i[1], c.i[2], comp);
}

// flux through the face below cell c in direction dim; s: magnitude of its terms
static void hll(const arr & q, const cellref & c, int dim, double gamma, double * F, double * s)
{
    double l[5], r[5];
    for (int j = 0; j < 5; j++)
        face_states(val(q, c, dim, -2, j), val(q, c, dim, -1, j), val(q, c, dim, 0, j), val(q, c, dim, 1, j), l[j], r[j]);
    const double pl = (gamma - 1) * (l[4] - 0.5 * (l[1] * l[1] + l[2] * l[2] + l[3] * l[3]) / l[0]);
    const double pr = (gamma - 1) * (r[4] - 0.5 * (r[1] * r[1] + r[2] * r[2] + r[3] * r[3]) / r[0]);
    const double ul = l[1 + dim] / l[0], ur = r[1 + dim] / r[0];
    const double sl = ul - std::sqrt(gamma * pl / l[0]), sr = ur + std::sqrt(gamma * pr / r[0]);
    double fl[5], fr[5];
    for (int j = 0; j < 5; j++) {
        fl[j] = j == 0 ? l[1 + dim] : (l[j] + (j == 4 ? pl : 0)) * ul;
        fr[j] = j == 0 ? r[1 + dim] : (r[j] + (j == 4 ? pr : 0)) * ur;
    }
    fl[1 + dim] += pl;
    fr[1 + dim] += pr;
    // badly conditioned states: pressure or density lost to cancellation
    const bool ill = !(pl > 1e-5 * std::fabs(l[4])) || !(pr > 1e-5 * std::fabs(r[4])) || !(l[0] > 0) || !(r[0] > 0);
    double big = 0;
    for (int j = 0; j < 5; j++)
        big = std::max(big, std::max(std::fabs(l[j]), std::fabs(r[j])));
    const double speed = std::max(std::fabs(sl), std::fabs(sr));
    for (int j = 0; j < 5; j++) {
        double f = 0;
        if (sr >= 0 && sl <= 0)
            f += (sr * fl[j] - sl * fr[j] + sl * sr * (r[j] - l[j])) / (sr - sl);
        if (sl > 0)
            f += fl[j];
        if (sr < 0)
            f += fr[j];
        F[j] = f;
        s[j] = ill ? NA : (std::fabs(fl[j]) + std::fabs(fr[j]) + speed * (std::fabs(l[j]) + std::fabs(r[j]))) + 1e-3 * big * speed;
    }
}

static int levi(int a, int b, int c)
{
    return (a - b) * (b - c) * (c - a) / 2;
}
static void rusanov(const arr & q, const cellref & c, int dim, double light, double * F, double * s)
{
    double l[6], r[6];
    double big = 0;
    for (int j = 0; j < 6; j++) {
        face_states(val(q, c, dim, -2, j), val(q, c, dim, -1, j), val(q, c, dim, 0, j), val(q, c, dim, 1, j), l[j], r[j]);
        big = std::max(big, std::max(std::fabs(l[j]), std::fabs(r[j])));
    }
    // dE/dt = c^2 curl B, dB/dt = -curl E:  F_E = -c^2 n x B, F_B = n x E in components
    const double lam = std::fabs(light);
    for (int a = 0; a < 3; a++) {
        double fe = 0, fb = 0;
        for (int b = 0; b < 3; b++) {
            const int e = levi(a, dim, b); // (n x V)_a = e_{a dim b} V_b
            fe -= light * light * e * 0.5 * (l[3 + b] + r[3 + b]);
            fb += e * 0.5 * (l[b] + r[b]);
        }
        F[a] = a == dim ? 0 : fe - 0.5 * lam * (r[a] - l[a]);
        F[3 + a] = a == dim ? 0 : fb - 0.5 * lam * (r[3 + a] - l[3 + a]);
    }
    for (int j = 0; j < 6; j++)
        s[j] = (j < 3 ? light * light : 1.) * big + lam * big;
}

static double width(const api::gridcfg & g, int d) { return g.width[d] / double(g.n[d]); }

static expectation same(const arr & a)
{
    expectation e;
    e.value = a;
    e.scale.assign(a.a.size(), 0.);
    for (size_t i = 0; i < a.a.size(); i++)
        e.scale[i] = std::fabs(a.a[i]);
    return e;
}

template<typename FLUX> static expectation divergence(const api::gridcfg & g, const arr & q, const arr & rhs, int nc, FLUX flux)
{
    expectation e = same(rhs);
    interior(rhs, [&](int i, int j, int k) {
        for (int d = 0; d < g.nd; d++) {
            double lo[6], hi[6], sl[6], sh[6];
            cellref c = { {i, j, k}};
            flux(q, c, d, lo, sl);
            c.i[d]++;
            flux(q, c, d, hi, sh);
            const double h = width(g, d);
            for (int m = 0; m < nc; m++) {
                e.value(i, j, k, m) += (lo[m] - hi[m]) / h;
                e.scale[e.value.at(i, j, k, m)] += (sl[m] + sh[m]) / std::fabs(h);
            }
        }
    });
    return e;
}

static double upwind(double n, double c, double p, double & s)
{
    const double r = p != c ? (c - n) / (p - c) : 1.;
    s = std::fabs(c) + std::fabs(p) + std::fabs(n);
    return c + 0.25 * (r * (r + 1.) / (r * r + 1.)) * (p - n);
}

static void advect(expectation & e, const api::gridcfg & g, const arr & q, const std::vector<double> & v, double dt)
{
    interior(q, [&](int i, int j, int k) {
        for (int d = 0; d < g.nd; d++) {
            const double co = std::fabs(dt * v[size_t(d)] / width(g, d));
            const int down = v[size_t(d)] > 0 ? 1 : -1;
            for (int m = 0; m < q.nc; m++) {
                const cellref c = { {i, j, k}};
                double s1, s2;
                const double in = upwind(val(q, c, d, -2 * down, m), val(q, c, d, -down, m), val(q, c, d, 0, m), s1);
                const double out = upwind(val(q, c, d, -down, m), val(q, c, d, 0, m), val(q, c, d, down, m), s2);
                e.value(i, j, k, m) += co * in;
                e.value(i, j, k, m) -= co * out;
                e.scale[e.value.at(i, j, k, m)] += co * (s1 + s2);
            }
        }
    });
}

bool model_knows(const std::string & k)
{
    static const char * known[] = { "euler", "maxwell", "lorentz", "current", "rk1", "rk3", "adv", "fill", "swap" };
    for (const char * n : known)
        if (k == n)
            return true;
    return false;
}

static expectation combine(const arr & shape, const std::vector<std::pair<double, const arr *>> & terms)
{
    expectation e;
    e.value = shape;
    e.scale.assign(shape.a.size(), 0.);
    for (size_t i = 0; i < shape.a.size(); i++) {
        double v = 0, s = 0;
        for (auto & t : terms) {
            v += t.first * t.second->a[i];
            s += std::fabs(t.first * t.second->a[i]);
        }
        e.value.a[i] = v;
        e.scale[i] = s;
    }
    return e;
}

modelled model_step(const step & o, const api::gridcfg & g, const std::vector<arr> & S, double dt)
{
    modelled m;
    auto var = [&](size_t i) -> const arr & {return S[size_t(o.v[i])];};
    auto add = [&](size_t i, const expectation & e) {
        m.out.push_back(o.v[i]);
        m.expect.push_back(e);
    };
    if (o.kind == "euler") {
        const double gamma = o.x[0];
        add(1, divergence(g, var(0), var(1), 5, [gamma](const arr & q, const cellref & c, int d, double * F, double * s) {hll(q, c, d, gamma, F, s);}));
    } else if (o.kind == "maxwell") {
        const double light = o.x[0];
        add(1, divergence(g, var(0), var(1), 6, [light](const arr & q, const cellref & c, int d, double * F, double * s) {rusanov(q, c, d, light, F, s);}));
    } else if (o.kind == "lorentz") {
        expectation e = same(var(2));
        const arr & q = var(0), & f = var(1);
        const double com = o.x[0] / o.x[1];
        interior(q, [&](int i, int j, int k) {
            double work = 0, ws = 0;
            for (int a = 0; a < 3; a++) {
                double force = q(i, j, k, 0) * f(i, j, k, a), fs = std::fabs(force);
                for (int b = 0; b < 3; b++)
                    for (int c = 0; c < 3; c++) {
                        const double t = levi(a, b, c) * q(i, j, k, 1 + b) * f(i, j, k, 3 + c);
                        force += t;
                        fs += std::fabs(t);
                    }
                const double w = q(i, j, k, 1 + a) * f(i, j, k, a);
                work += w;
                ws += std::fabs(w);
                e.value(i, j, k, 1 + a) += com * force;
                e.scale[e.value.at(i, j, k, 1 + a)] += std::fabs(com) * fs;
            }
            e.value(i, j, k, 4) += com * work;
            e.scale[e.value.at(i, j, k, 4)] += std::fabs(com) * ws;
        });
        add(2, e);
    } else if (o.kind == "current") {
        const size_t nf = o.v.size() - 1;
        expectation e = same(var(nf));
        for (size_t s = 0; s < nf; s++) {
            const double mult = -o.x[1 + s] / o.x[1 + nf + s] / o.x[0];
            const arr & q = var(s);
            interior(q, [&](int i, int j, int k) {
                for (int a = 0; a < 3; a++) {
                    const double t = mult * q(i, j, k, 1 + a);
                    e.value(i, j, k, a) += t;
                    e.scale[e.value.at(i, j, k, a)] += std::fabs(t);
                }
            });
        }
        add(nf, e);
    } else if (o.kind == "rk1") {
        add(2, combine(var(2), { { 1., &var(0) }, { dt, &var(1) } }));
    } else if (o.kind == "rk3") {
        if (o.d[0] == 0)
            add(2, combine(var(2), { { 1., &var(0) }, { dt, &var(1) } }));
        else if (o.d[0] == 1)
            add(3, combine(var(3), { { 0.75, &var(0) }, { 0.25, &var(2) }, { 0.25 * dt, &var(1) } }));
        else
            add(4, combine(var(4), { { 1. / 3., &var(0) }, { 2. / 3., &var(3) }, { 2. * dt / 3., &var(1) } }));
    } else if (o.kind == "adv") {
        if (o.d[0] == 0) {
            expectation e = same(var(0));
            advect(e, g, var(0), o.x, dt);
            add(1, e);
        } else {
            expectation e = combine(var(2), { { 0.5, &var(0) }, { 0.5, &var(1) } });
            advect(e, g, var(1), o.x, 0.5 * dt);
            add(2, e);
        }
    } else if (o.kind == "fill") {
        for (size_t i = 0; i < o.v.size(); i++) {
            expectation e = same(var(i));
            std::fill(e.value.a.begin(), e.value.a.end(), o.x[0]);
            e.exact = true;
            add(i, e);
        }
    } else if (o.kind == "swap") {
        std::vector<arr> t = S;
        for (size_t i = 0; i + 1 < o.v.size(); i += 2)
            std::swap(t[size_t(o.v[i])].a, t[size_t(o.v[i + 1])].a);
        for (size_t i = 0; i < o.v.size(); i++) {
            expectation e = same(t[size_t(o.v[i])]);
            e.exact = true;
            add(i, e);
        }
    }
    return m;
}

// ------------------------------------------------------------------ initial conditions
bool is_initial(const std::string & k) { return k == "shock" || k == "radial" || k == "pulse" || k == "wave" || k == "gaussian" || k == "briowu" || k == "gem"; }

modelled model_initial(const step & o, const api::gridcfg & g, const std::vector<arr> & S)
{
    modelled m;
    const std::vector<double> & p = o.x;
    const std::string & kind = o.kind;
    const bool preset = p.empty();
    const double pi = 3.14159265358979323846;
    for (size_t v = 0; v < o.v.size(); v++) {
        expectation e;
        e.value = S[size_t(o.v[v])];
        e.scale.assign(e.value.a.size(), 1e-11);
        arr & a = e.value;
        interior(a, [&](int i, int j, int k) {
            const int ix[3] = { i, j, k };
            double x[3] = { 0, 0, 0 };
            for (int d = 0; d < g.nd; d++)
                x[d] = g.start[d] + (double(ix[d]) + 0.5) * g.width[d] / double(g.n[d]);
            std::vector<double> want(size_t(a.nc), 0.);
            double tol = 1e-11, size = 1.;
            const bool edge = std::fabs(x[0]) < 1e-9, left = x[0] < 0;
            if (kind == "gaussian") {
                double s = 0;
                for (int d = 0; d < 3; d++) {
                    const double c = size_t(d) + 2 < p.size() ? p[size_t(d) + 2] : 0.;
                    s += (x[d] - c) * (x[d] - c) / (p[1] * p[1]);
                }
                for (double & w : want)
                    w = p[0] * std::exp(-s);
                tol = 1e-10;
            } else if (kind == "shock") {
                const double rj = preset ? 0.125 : p[0], pj = preset ? 0.1 : p[1], ga = preset ? 1.4 : p[2];
                want[0] = edge ? NA : left ? 1. : rj;
                want[4] = edge ? NA : (left ? 1. : pj) / (ga - 1.);
                size = 1. / (ga - 1.);
            } else if (kind == "radial") {
                const double R = preset ? 0.125 : p[0], rj = preset ? 0.125 : p[1], pj = preset ? 0.1 : p[2], ga = preset ? 1.4 : p[3];
                double r2 = 0;
                for (int d = 0; d < 3; d++) {
                    const double c = size_t(d) + 4 < p.size() ? p[size_t(d) + 4] : 0.;
                    r2 += (x[d] - c) * (x[d] - c);
                }
                const bool at = std::fabs(r2 - R * R) < 1e-9 * (1. + r2), in = r2 < R * R;
                want[0] = at ? NA : in ? 1. : rj;
                want[4] = at ? NA : (in ? 1. : pj) / (ga - 1.);
                size = 1. / (ga - 1.);
            } else if (kind == "pulse") {
                want[5] = p[0] * std::exp(-0.5 * (x[0] * x[0] + x[1] * x[1] + x[2] * x[2]) / p[1]);
                tol = 1e-10;
            } else if (kind == "wave") {
                // a plane wave along one axis: E = c B x n, all transverse parts in phase
                const int n = preset ? 0 : o.d[0];
                const double c = preset ? 1. : p[0], kk = preset ? 2. * pi : p[1];
                double B[3] = { preset ? 0. : p[2], preset ? 1. : p[3], preset ? 1. : p[4] }, E[3];
                const double s = std::sin(kk * x[n]);
                const int t = (n + 1) % 3, u = (n + 2) % 3;
                for (int d = 0; d < 3; d++)
                    if (d != n)
                        B[d] *= s;
                E[n] = 0.;
                E[t] = c * B[u];
                E[u] = -c * B[t];
                for (int d = 0; d < 3; d++) {
                    want[size_t(d)] = E[d];
                    want[size_t(3 + d)] = B[d];
                }
                size = 1. + std::fabs(c);
                tol = preset ? 1e-6 : 1e-10; // its own wave number holds eight digits of pi
            } else if (kind == "briowu") {
                const double ga = preset ? 2. : p[0], me = preset ? 0.04 : p[1], mi = preset ? 1. : p[2], nl = preset ? 1. : p[3], nr = preset ? 0.125 : p[4], Pl = preset ? 1. : p[5], Pr = preset ? 0.1 : p[6], Bx = preset ? 0.75 : p[7], By = preset ? 1. : p[8];
                if (v < 2) {
                    want[0] = edge ? NA : (v ? mi : me) * (left ? nl : nr);
                    want[4] = edge ? NA : (left ? Pl : Pr) / (ga - 1.);
                    size = 2. + 2. / (ga - 1.);
                } else {
                    want[3] = Bx;
                    want[4] = edge ? NA : left ? By : -By;
                }
            } else if (kind == "gem") {
                const double lambda = p[0], Lx = p[1], n0 = p[2], n1 = p[3], ga = p[4], qe = p[5], me = p[6], Te = p[8], qi = p[9], mi = p[10], Ti = p[12], B0 = p[13];
                const double kx = pi / Lx, ky = 2. * pi / (2. * Lx);
                const double sech2 = 1. / (std::cosh(x[0] / lambda) * std::cosh(x[0] / lambda));
                const double dens = n0 * sech2 + n1;
                if (v < 2) {
                    const double q = v ? qi : qe, mass = v ? mi : me, T = v ? Ti : Te;
                    // the current of a Harris sheet: carried by the part of the density that is not background
                    const double drift = 2. * T / (q * lambda * B0) * n0 * sech2 / dens;
                    want[0] = mass * dens;
                    want[3] = mass * dens * drift;
                    want[4] = dens * T / (ga - 1.) + 0.5 * mass * dens * drift * drift;
                    size = std::fabs(want[0]) + std::fabs(want[3]) + std::fabs(want[4]);
                } else {
                    want[3] = 0.1 * B0 * ky * std::cos(kx * x[0]) * std::sin(ky * x[1]);
                    want[4] = B0 * std::tanh(x[0] / lambda) - 0.1 * B0 * kx * std::sin(kx * x[0]) * std::cos(ky * x[1]);
                    size = std::fabs(B0) * (1. + 0.1 * (kx + ky));
                    tol = 1e-6 * (1. + std::fabs(kx * x[0]) + std::fabs(ky * x[1])); // eight digits of pi
                }
                if (v < 2)
                    tol = 1e-10;
            }
            for (int c = 0; c < a.nc; c++) {
                a(i, j, k, c) = want[size_t(c)];
                e.scale[a.at(i, j, k, c)] = tol * (size + std::fabs(want[size_t(c)]));
            }
        });
        m.out.push_back(o.v[v]);
        m.expect.push_back(e);
    }
    return m;
}

// ------------------------------------------------------------------ boundary conditions
bool is_bc(const std::string & k) { return k == "periodic" || k == "copyout" || k == "noslip" || k == "freeslip" || k == "wall"; }

std::vector<bc_expect> model_bc(const step & o, const std::vector<arr> & S)
{
    std::vector<bc_expect> r;
    for (int v : o.v) {
        bool seen = false;
        for (auto & b : r)
            seen |= b.var == v;
        if (seen)
            continue;
        bc_expect b;
        b.var = v;
        b.value = S[size_t(v)];
        arr & q = b.value;
        b.face.assign(q.a.size(), 0);
        b.negated.assign(q.a.size(), 0);
        for (int d : o.d)
            for (int side = 0; side < 2; side++)
                for (int layer = 0; layer < q.g; layer++) {
                    const int ghost = side ? q.n[d] + layer : -1 - layer;
                    int image;
                    if (o.kind == "periodic")
                        image = side ? layer : q.n[d] - 1 - layer;
                    else
                        image = side ? q.n[d] - 1 - layer : layer;
                    interior(q, [&](int i, int j, int k) {
                        int c[3] = { i, j, k };
                        if (c[d] != 0)
                            return; // once per line
                        c[d] = ghost;
                        int f[3] = { i, j, k };
                        f[d] = image;
                        for (int m = 0; m < q.nc; m++) {
                            bool neg = false;
                            if (o.kind == "noslip")
                                neg = m >= 1 && m <= 3;
                            else if (o.kind == "freeslip")
                                neg = m == 1 + d;
                            else if (o.kind == "wall")
                                neg = m < 3 || m == 3 + d;
                            const size_t at = q.at(c[0], c[1], c[2], m);
                            const double x = q(f[0], f[1], f[2], m);
                            q.a[at] = neg ? -x : x;
                            b.face[at] = 1;
                            b.negated[at] = neg;
                        }
                    });
                }
        r.push_back(b);
    }
    return r;
}

// ------------------------------------------------------------------ legacy VTK
static std::string fmt(const char * f, ...) __attribute__((format(printf, 1, 2)));
#include <cstdarg>
static std::string fmt(const char * f, ...)
{
    char b[300];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

static bool number(const std::string & t, double & v)
{
    if (t.empty())
        return false;
    char * e;
    v = strtod(t.c_str(), &e);
    return *e == 0;
}
static bool close_to(double a, double b, double rel)
{
    if (std::isnan(b))
        return std::isnan(a);
    if (std::isinf(b))
        return a == b;
    return std::fabs(a - b) <= rel * std::fabs(b) || (std::fabs(b) < 1e-300 && std::fabs(a - b) < 1e-300);
}

std::string check_vtk(const std::string & text, const api::gridcfg & g, const std::vector<api::varspec> & vars, const std::vector<int> & list, const std::vector<arr> & state)
{
    std::istringstream in(text);
    std::string t, line;
    if (!std::getline(in, line) || line.compare(0, 22, "# vtk DataFile Version") != 0)
        return "header line is missing";
    if (!std::getline(in, line))
        return "title line is missing";
    if (!(in >> t) || t != "ASCII")
        return "ASCII keyword is missing";
    if (!(in >> t) || t != "DATASET" || !(in >> t) || t != "STRUCTURED_POINTS")
        return "data set keyword is missing";
    const double rel = 5.1e-15; // half a unit of the 15th digit, at worst
    double v;
    bool dims = false, spacing = false;
    while (in >> t && t != "CELL_DATA") {
        if (t == "DIMENSIONS") {
            for (int d = 0; d < 3; d++) {
                const double want = d < g.nd ? g.n[d] + 1 : 1;
                if (!(in >> t) || !number(t, v) || v != want)
                    return fmt("point count in direction %d is '%s' instead of %g", d, t.c_str(), want);
            }
            dims = true;
        } else if (t == "SPACING") {
            for (int d = 0; d < 3; d++) {
                if (!(in >> t) || !number(t, v))
                    return "spacing is not a number";
                if (d < g.nd && !close_to(v, g.width[d] / g.n[d], rel))
                    return fmt("spacing in direction %d is %s instead of %.17g", d, t.c_str(), g.width[d] / g.n[d]);
            }
            spacing = true;
        } else if (t == "ORIGIN") {
            for (int d = 0; d < 3; d++)
                if (!(in >> t) || !number(t, v))
                    return "origin is not a number";
        }
    }
    if (!dims || !spacing)
        return "grid description is incomplete";
    long cells = 1;
    for (int d = 0; d < g.nd; d++)
        cells *= g.n[d];
    if (t != "CELL_DATA" || !(in >> t) || !number(t, v) || v != double(cells))
        return "cell count is missing or wrong";
    for (int vi : list) {
        const api::varspec & s = vars[size_t(vi)];
        const arr & a = state[size_t(vi)];
        for (size_t c = 0; c < s.comps.size(); c++) {
            const std::string want = s.name + "." + s.comps[c];
            if (!(in >> t) || t != "SCALARS")
                return "component " + want + ": SCALARS expected, found '" + t.substr(0, 30) + "'";
            if (!(in >> t) || t != want)
                return "component " + want + ": found name '" + t.substr(0, 60) + "'";
            bool table = false;
            for (int k = 0; k < 3 && !table && in >> t; k++)
                table = t == "LOOKUP_TABLE";
            if (!table || !(in >> t))
                return "component " + want + ": lookup table line is missing";
            for (int z = 0; z < (g.nd > 2 ? g.n[2] : 1); z++)
                for (int y = 0; y < (g.nd > 1 ? g.n[1] : 1); y++)
                    for (int x = 0; x < g.n[0]; x++) {
                        if (!(in >> t) || !number(t, v))
                            return fmt("component %s: value of cell (%d,%d,%d) is missing", want.c_str(), x, y, z);
                        const double is = a(x, y, z, int(c));
                        if (!close_to(v, is, rel))
                            return fmt("component %s: cell (%d,%d,%d) is written as %s but holds %.17g", want.c_str(), x, y, z, t.c_str(), is);
                    }
        }
    }
    if (in >> t)
        return "text after the last value: '" + t.substr(0, 30) + "'";
    return std::string();
}
