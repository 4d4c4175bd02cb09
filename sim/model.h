// Reference model: plain sequential code over arrays with ghost cells, written from the
// equations, used as the oracle of the history checks.
#ifndef MODEL_H
#define MODEL_H
#include "plan.h"
#include <string>
#include <vector>

struct arr
{
    bool present = false;
    int nd = 1, g = 0, nc = 1; // nc: components x points per cell
    int n[3] = { 1, 1, 1 };
    const void * identity = nullptr;
    std::vector<double> a;

    int ext(int d) const { return d < nd ? n[d] + 2 * g : 1; }
    // cell indices count from -g to n+g-1 in active directions, 0 in the others
    size_t at(int i, int j, int k, int c) const
    {
        const int I = i + g, J = nd > 1 ? j + g : 0, K = nd > 2 ? k + g : 0;
        return ((size_t(I) * size_t(ext(1)) + size_t(J)) * size_t(ext(2)) + size_t(K)) * size_t(nc) + size_t(c);
    }
    double & operator()(int i, int j, int k, int c) { return a[at(i, j, k, c)]; }
    double operator()(int i, int j, int k, int c) const { return a[at(i, j, k, c)]; }
    size_t cells() const { return size_t(n[0]) * size_t(nd > 1 ? n[1] : 1) * size_t(nd > 2 ? n[2] : 1); }
};

template<typename F> void interior(const arr & r, F f)
{
    for (int i = 0; i < r.n[0]; i++)
        for (int j = 0; j < (r.nd > 1 ? r.n[1] : 1); j++)
            for (int k = 0; k < (r.nd > 2 ? r.n[2] : 1); k++)
                f(i, j, k);
}

// expected values of the interior of `out`, with the magnitude of the terms they were
// computed from; NaN in `tol` marks cells where the scheme itself is not well conditioned
struct expectation
{
    arr value;
    std::vector<double> scale; // same indexing as value.a
    bool exact = false;        // compare bitwise
};

// computes what one call does; returns indices of the variables it may change, in order
// of `expect`
struct modelled
{
    std::vector<int> out;               // plan variable index
    std::vector<expectation> expect;
};
bool model_knows(const std::string & kind);
modelled model_step(const step & o, const api::gridcfg & g, const std::vector<arr> & state, double dt);

// initial conditions: interior values, NaN where rounding decides on which side of a jump a cell lies
bool is_initial(const std::string & kind);
modelled model_initial(const step & o, const api::gridcfg & g, const std::vector<arr> & state);

// ghost cells after a boundary condition: fills faces of expect, and marks them
struct bc_expect
{
    int var;
    arr value;
    std::vector<char> face;     // cell is a face ghost of a listed direction
    std::vector<char> negated;  // component is reversed there
};
bool is_bc(const std::string & kind);
std::vector<bc_expect> model_bc(const step & o, const std::vector<arr> & state);

// legacy VTK: empty string when the file is complete and faithful
std::string check_vtk(const std::string & text, const api::gridcfg & g, const std::vector<api::varspec> & vars, const std::vector<int> & list, const std::vector<arr> & state);

#endif
