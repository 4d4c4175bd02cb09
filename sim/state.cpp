#include "state.h"
#include <cmath>
#include <cstdio>
#include <cstring>

bool sane(const api::layout & l, const api::gridcfg & g, const api::varspec & v)
{
    if (!l.consistent || l.nd != g.nd || l.g < 2 || l.g > 8 || !l.base)
        return false;
    for (int d = 0; d < g.nd; d++)
        if (l.n[d] != g.n[d])
            return false;
    if (l.nc != int(v.comps.size()) || l.points != v.points || l.comps != v.comps || l.name != v.name)
        return false;
    long far = 0, vol = 1;
    for (int d = 0; d < l.nd; d++) {
        if (l.stride[d] <= 0)
            return false;
        far += long(l.stride[d]) * (l.n[d] + 2 * l.g - 1);
        vol *= l.n[d] + 2 * l.g;
    }
    far += long(l.pstride) * (l.points - 1) + long(l.cstride) * (l.nc - 1);
    vol *= long(l.points) * l.nc;
    return far < l.total && vol == l.total;
}

template<typename F> static void each(const api::layout & l, const arr & a, F f)
{
    const int g = l.g;
    for (int i = -g; i < l.n[0] + g; i++)
        for (int j = (l.nd > 1 ? -g : 0); j < (l.nd > 1 ? l.n[1] + g : 1); j++)
            for (int k = (l.nd > 2 ? -g : 0); k < (l.nd > 2 ? l.n[2] + g : 1); k++) {
                double * p = l.base + (i + g) * l.stride[0] + (l.nd > 1 ? (j + g) * l.stride[1] : 0) + (l.nd > 2 ? (k + g) * l.stride[2] : 0);
                for (int s = 0; s < l.points; s++)
                    for (int c = 0; c < l.nc; c++)
                        f(p[s * l.pstride + c * l.cstride], a.at(i, j, k, s * l.nc + c));
            }
}

arr read_layout(const api::layout & l)
{
    arr a;
    a.present = true;
    a.nd = l.nd;
    a.g = l.g;
    a.nc = l.nc * l.points;
    for (int d = 0; d < 3; d++)
        a.n[d] = d < l.nd ? l.n[d] : 1;
    a.identity = l.identity;
    a.a.resize(size_t(a.ext(0)) * size_t(a.ext(1)) * size_t(a.ext(2)) * size_t(a.nc));
    each(l, a, [&](double & x, size_t at) {a.a[at] = x;});
    return a;
}

void write_layout(const api::layout & l, const arr & a)
{
    each(l, a, [&](double & x, size_t at) {x = a.a[at];});
}

bool same_bits(const std::vector<double> & a, const std::vector<double> & b)
{
    return a.size() == b.size() && (a.empty() || memcmp(a.data(), b.data(), a.size() * sizeof(double)) == 0);
}

std::string first_difference(const arr & a, const arr & b)
{
    if (a.present != b.present)
        return "one of them does not exist";
    if (a.a.size() != b.a.size())
        return "sizes differ";
    if (same_bits(a.a, b.a))
        return std::string();
    for (int i = -a.g; i < a.n[0] + a.g; i++)
        for (int j = (a.nd > 1 ? -a.g : 0); j < (a.nd > 1 ? a.n[1] + a.g : 1); j++)
            for (int k = (a.nd > 2 ? -a.g : 0); k < (a.nd > 2 ? a.n[2] + a.g : 1); k++)
                for (int c = 0; c < a.nc; c++) {
                    const double x = a(i, j, k, c), y = b(i, j, k, c);
                    if (memcmp(&x, &y, 8) != 0) {
                        char t[200];
                        snprintf(t, sizeof t, "cell (%d,%d,%d) component %d: %.17g against %.17g", i, j, k, c, x, y);
                        return t;
                    }
                }
    return std::string();
}

static double wild(sim::rng & r, bool beyond)
{
    const double s = r.chance(0.5) ? 1. : -1.;
    if (beyond && r.chance(0.15)) // what an unstable run leaves behind
        return r.chance(0.5) ? s * HUGE_VAL : std::nan("");
    switch (r.range(0, 9)) {
    case 0:
        return s * 0.;
    case 1:
        return s * double(r.range(0, 1000));
    case 2:
        return s * std::pow(10., double(r.range(-300, 300))) * (1. + r.unit());
    case 3:
        return s * std::pow(10., double(r.range(-12, 12))) * (1. + r.unit());
    case 4:
        return s * 4.9406564584124654e-324 * double(r.range(1, 100000));
    case 5:
        return s * (1. + double(r.range(0, 64)) * 2.220446049250313e-16);
    default:
        return s * r.unit();
    }
}

void set_values(arr & a, double gamma, int style, uint64_t seed)
{
    sim::rng r(seed * 77 + uint64_t(style));
    const double ph[3] = { r.unit() * 6, r.unit() * 6, r.unit() * 6 };
    const double flow[3] = { 2. * r.unit() - 1., 2. * r.unit() - 1., 2. * r.unit() - 1. };
    const double scale = style == 5 ? std::pow(10., double(r.range(-9, 5))) : 1.;
    const int jump_dim = int(r.range(0, a.nd - 1));
    const int special = int(r.range(0, a.n[0] - 1));
    const bool fluid = a.nc == 5, field = a.nc == 6;
    for (int i = -a.g; i < a.n[0] + a.g; i++)
        for (int j = (a.nd > 1 ? -a.g : 0); j < (a.nd > 1 ? a.n[1] + a.g : 1); j++)
            for (int k = (a.nd > 2 ? -a.g : 0); k < (a.nd > 2 ? a.n[2] + a.g : 1); k++) {
                if (style == 9 || style == 12) {
                    for (int c = 0; c < a.nc; c++)
                        a(i, j, k, c) = wild(r, style == 12);
                    continue;
                }
                const int ix[3] = { i, j, k };
                double wave = 0;
                for (int d = 0; d < a.nd; d++)
                    wave += std::sin(6.283185307179586 * (ix[d] + 0.5) / a.n[d] + ph[d]) / a.nd;
                const bool high = ix[jump_dim] < (a.n[jump_dim] + 1) / 2;
                const bool odd = i == special;
                double rho = 1., pr = 1., u[3] = { 0, 0, 0 };
                double noise[8];
                for (double & z : noise)
                    z = 2. * r.unit() - 1.;
                switch (style) {
                case 0:
                    rho = 1. + 0.2 * wave + 0.05 * noise[0];
                    pr = 1. - 0.2 * wave + 0.05 * noise[1];
                    for (int d = 0; d < 3; d++)
                        u[d] = 0.5 * flow[d] + 0.2 * wave + 0.05 * noise[2 + d];
                    break;
                case 1:
                    for (int d = 0; d < 3; d++)
                        u[d] = flow[d];
                    break;
                case 2:
                    rho = high ? 3. : 1.;
                    pr = high ? 3. : 1.;
                    for (int d = 0; d < 3; d++)
                        u[d] = 0.3 * flow[d];
                    break;
                case 3: // supersonic, both directions
                    rho = 1. + 0.1 * wave;
                    for (int d = 0; d < 3; d++)
                        u[d] = 4. * flow[d] * (seed & 1 ? 1. : wave) + 0.05 * noise[d];
                    break;
                case 4:
                    rho = 1. + 0.3 * noise[0];
                    break;
                case 5:
                    rho = scale * (1. + 0.2 * wave + 0.05 * noise[0]);
                    pr = scale * (1. + 0.1 * noise[1]);
                    for (int d = 0; d < 3; d++)
                        u[d] = 0.5 * noise[2 + d];
                    break;
                case 6:
                    rho = 1. + 0.6 * noise[0];
                    pr = 1. + 0.6 * noise[1];
                    for (int d = 0; d < 3; d++)
                        u[d] = noise[2 + d];
                    break;
                case 8: // supersonic in one direction everywhere
                    rho = 1. + 0.1 * wave + 0.02 * noise[0];
                    pr = 1. + 0.02 * noise[1];
                    for (int d = 0; d < 3; d++)
                        u[d] = 0.3 * flow[d] + 0.02 * noise[2 + d];
                    u[jump_dim] = (flow[jump_dim] < 0 ? -1. : 1.) * (2.5 + 2. * std::fabs(flow[jump_dim]));
                    break;
                case 10: // the flow has exactly the speed of sound in most cells
                    rho = seed & 2 ? 1. : 4.;
                    pr = rho / gamma * (seed & 4 ? 4. : 1.);
                    u[jump_dim] = (seed & 8 ? -1. : 1.) * (seed & 4 ? 2. : 1.);
                    if (odd && (seed & 1))
                        rho *= 1.5;
                    break;
                case 15: // supersonic flow runs into gas at rest
                    rho = 1. + 0.1 * wave;
                    pr = 1. + 0.02 * noise[1];
                    for (int d = 0; d < 3; d++)
                        u[d] = 0.05 * noise[2 + d];
                    if (high == bool(seed & 1))
                        u[jump_dim] += (seed & 1 ? 1. : -1.) * (1.8 + std::fabs(flow[jump_dim]));
                    break;
                case 14: // heavy gas beside light gas, in balance
                    rho = high ? 1. + 8. * double(1 + (seed & 3)) : 1.;
                    for (int d = 0; d < 3; d++)
                        u[d] = noise[3 + d] < 0 ? -0. : 0.;
                    break;
                case 13: // light and heavy gas side by side, much of it at rest (+0 and -0)
                    rho = noise[0] < 0 ? 1. : 1. + 40. * (noise[1] + 1.);
                    pr = 1. + 0.1 * noise[2];
                    for (int d = 0; d < 3; d++)
                        u[d] = noise[3 + d] < -0.3 ? -0. : noise[3 + d] < 0.3 ? 0. : 0.1 * flow[d];
                    break;
                case 11:
                    rho = 1. + 0.2 * wave;
                    for (int d = 0; d < 3; d++)
                        u[d] = noise[d] < 0 ? 4.9406564584124654e-324 * double(1 + (i + j + k + 9) % 7) : noise[3 + d] < 0 ? 1e-305 * noise[2 + d] : 0.1 * noise[2 + d];
                    break;
                default:
                    rho = odd ? 2. : 1.;
                    pr = odd ? 2. : 1.;
                    u[0] = odd ? 0.5 : 0.;
                }
                if (fluid) {
                    a(i, j, k, 0) = rho;
                    double ke = 0;
                    for (int d = 0; d < 3; d++) {
                        a(i, j, k, 1 + d) = rho * u[d];
                        ke += 0.5 * rho * u[d] * u[d];
                    }
                    a(i, j, k, 4) = pr / (gamma - 1.) + ke;
                } else {
                    for (int c = 0; c < a.nc; c++) {
                        double x;
                        switch (style) {
                        case 0:
                            x = flow[c % 3] + 0.3 * wave * (c & 1 ? 1. : -1.) + 0.05 * noise[c % 8];
                            break;
                        case 1:
                            x = flow[c % 3];
                            break;
                        case 2:
                            x = high ? 1. : -0.5;
                            break;
                        case 4:
                            x = c == 0 ? noise[0] : 0.;
                            break;
                        case 5:
                            x = scale * noise[c % 8];
                            break;
                        case 11:
                            x = noise[c % 8] < 0 ? 4.9406564584124654e-324 * double(1 + (i + j + k + 9) % 7) : noise[(c + 1) % 8] < 0 ? 1e-305 * noise[c % 8] : noise[c % 8];
                            break;
                        case 13:
                            x = noise[c % 8] < -0.5 ? -0. : noise[c % 8] < 0. ? 0. : noise[(c + 3) % 8] * (noise[(c + 1) % 8] < 0 ? 1. : 50.);
                            break;
                        case 7:
                            x = odd ? 1. : 0.;
                            break;
                        default:
                            x = noise[c % 8];
                        }
                        a(i, j, k, c) = x;
                    }
                    (void) field;
                }
            }
}
