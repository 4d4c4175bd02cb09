// The only file of the harness that talks to quikin.  qk_api.cpp is compiled with the same
// instrumentation as quikin itself, so header-inline code of the library runs simulated too.
#ifndef QK_API_H
#define QK_API_H
#include <cstdint>
#include <string>
#include <vector>

namespace api
{

struct gridcfg
{
    int nd = 1;
    int n[3] = { 2, 1, 1 };
    double start[3] = { 0, 0, 0 };
    double width[3] = { 1, 1, 1 };
    int lo[3] = { 0, 0, 0 };    // index of the first cell
};

struct varspec
{
    std::string name;
    std::vector<std::string> comps;
    std::string basis = "va"; // "va": the library's volume average; anything else: a basis of that name
    int points = 1;
};

// one call into the library
struct op
{
    int id = 0, block = 0, group = 0;
    std::string kind;
    std::vector<int> v;      // variables
    std::vector<double> x;   // real parameters
    std::vector<int> d;      // integer parameters
    std::string s;           // text parameter
};

struct world; // one simulation: grid and variable manager

world * make(const gridcfg & g);
void destroy(world * w);
void set_clock(world * w, double time, double dt);
double get_time(world * w);
double get_dt(world * w);

struct prepared; // a configured solver object
prepared * prepare(const op & o, const std::vector<varspec> & vars, prepared * again = nullptr); // again: configured anew
void unprepare(prepared * p);
void call(world * w, const prepared * p);
void exec(world * w, const op & o, const std::vector<varspec> & vars); // configure and call
extern int keep_solvers; // 0: a new solver object for every call, 1: one per configuration, 2: configured anew for others of its kind

// variables
struct layout
{
    int nd = 0, g = 0;
    int n[3] = { 1, 1, 1 };   // interior cells
    int nc = 0, points = 0;
    double * base = nullptr;  // storage of the lowest ghost cell, component 0
    int stride[3] = { 0, 0, 0 };
    int cstride = 1, pstride = 1;
    const void * identity = nullptr;
    int total = 0;            // doubles in storage
    std::string name;
    std::vector<std::string> comps;
    std::string basis;
    bool consistent = true;   // ranges agree with each other
};
void touch(world * w, const varspec & v, layout & l);        // request for output
void look(world * w, const varspec & v, layout & l);         // request for input
void export_frame(world * w, const std::string & prefix, const std::string & suffix, const std::vector<varspec> & list);

// names
std::string clone_name(const varspec & v);
int tag();
bool id_less(const varspec & a, const varspec & b);
bool id_equal(const varspec & a, const varspec & b);

// exceptions kept beyond their handler
struct kept;
struct kept_texts
{
    std::string what, stream;
};
kept * keep_text(const std::string & text, int route); // built from text, through copies / assignment
kept * keep_copy(const kept * k);
void keep_assign(kept * to, const kept * from);
void keep_append(kept * k, const std::string & more);
void keep_raise_and_catch(kept * k, int depth);   // throw a copy, catch, rethrow depth times, keep the caught one
kept * keep_outcome(world * w, const op & o, const std::vector<varspec> & vars, bool & raised); // call and keep the exception it raises
void drop_kept(kept * k);
kept_texts read_kept(const kept * k);
std::vector<std::string> read_all_kept(const std::vector<const kept *> & k); // every what() is taken before any is read

// bulk data
struct chunk;
struct box
{
    std::vector<int> lo, hi;
};
struct chunk_view
{
    box range, internal;
    std::vector<int> stride, length;
    int volume = 0, ghosts = 0;
    double * data = nullptr;
};
struct walked
{
    std::vector<int> index;        // of all cells, one after the other
    std::vector<double> value;
    bool ended = true, agrees = true;
};
chunk * chunk_new(int kind);       // 0: plain, 1: with ghost layers
void chunk_drop(chunk * c);
void chunk_resize(chunk * c, const box & mesh, const box & data, int ghosts, int route);
void chunk_assign(chunk * to, const chunk * from);
void chunk_fill(chunk * c, double v);
void chunk_fill(chunk * c, const box & b, double v, int route);
void chunk_scale(chunk * c, const box & b, double v, int route);
void chunk_copy(const chunk * from, const box & b, chunk * to, const box & t, int route);
void chunk_full_copy(const chunk * from, chunk * to);
void chunk_pull(chunk * to, const box & t, const chunk * from, const box & b, int route);
void chunk_pull(chunk * to, const chunk * from);
void chunk_swap(chunk * a, chunk * b);
void chunk_look(chunk * c, chunk_view & v);
void chunk_faces(const chunk * c, int dims, std::vector<box> & f); // per direction: lower internal, lower external, upper internal, upper external
void chunk_walk(const chunk * c, const box & b, int way, int route, walked & w);
void chunk_write(const chunk * c, const box & b, int route, std::string & text); // one component, as text

// ranges
struct rg;
struct rg_view
{
    box b;
    std::vector<int> stride, length;
    int dims = 0, volume = 0;
    std::string text;              // as it is printed
};
rg * rg_new(const box & b, int way, const rg * from); // 0 empty, 1 sizes only, 2 bounds, 3 copy of another
void rg_drop(rg * r);
void rg_resize(rg * r, const box & b, int way);       // 0 bounds, 1 another range
void rg_assign(rg * r, const rg * from);
void rg_extrude(rg * r, int lo, int hi);
void rg_expand(rg * r, int dim, int lo, int hi);
void rg_shift(rg * r, int dim, int by);
void rg_set(rg * r, int dim, int lo, int hi);
void rg_look(const rg * r, rg_view & v);
void rg_compare(const rg * a, const rg * b, bool & includes, bool & equal, bool & unequal);
// walks through `sub` within `sup`; positions in `sup` go to `linear`
struct rg_walked
{
    std::vector<int> index, linear;
    int last = 0;                  // one past the last position
    bool ended = true, agrees = true;
};
void rg_walk(const rg * sub, const rg * sup, int way, rg_walked & w);
// a set of ranges that divide one
struct rset;
rset * rset_new(const rg * r, const std::vector<int> & parts, int way);
void rset_setup(rset * s, const rg * r, const std::vector<int> & parts);
void rset_drop(rset * s);
void rset_look(const rset * s, std::vector<box> & b, std::vector<int> & index);

// grids
struct gr;
struct gr_view
{
    std::vector<int> n, lo;
    std::vector<double> start, width;
    std::vector<std::vector<double>> centre, size; // per direction
    std::vector<double> xc;        // of all cells, row-major (uniform grids, with two cells beyond each side)
};
gr * gr_new(int kind, const gridcfg & g); // 0: uniform, 1: biased
void gr_drop(gr * g);
void gr_assign(gr * to, const gr * from);
gr * gr_copy(const gr * from);
void gr_bias(gr * g, int dim, double power, bool symmetric);
void gr_extents(const gr * g, gr_view & v);
void gr_look(const gr * g, gr_view & v);
void gr_ask(const gr * g, int dim, int index, int what); // 0: centre, 1: size

// a report of work on ranges, chunks, grids, identifiers and exceptions of its own
std::string private_work(uint64_t seed, int steps);

// misuse of the interface; returns normally when the library accepted it
int misuse_kinds();
const char * misuse_name(int k);
void misuse(int k, world * w, const op & o, const std::vector<varspec> & vars);

// the example programs and the shipped main program (absent when they do not compile)
const int example_kinds = 8;
void example(int which, int cap, const std::string & dir) __attribute__((weak));

} // namespace api
#endif
