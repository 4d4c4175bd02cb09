#include "qk_api.h"

#include "basis/volume_average.h"
#include "grid/rectilinear.h"
#include "grid/structured.h"
#include "lib/exception.h"
#include "lib/range_set.h"
#include "variable/variable.h"
#include "variable/variable_id.h"
#include "variable/variable_manager.h"
#include "data/functions.h"

#include "solver/bc_conducting_wall.h"
#include "solver/bc_copy_out.h"
#undef _qk_solver_bc_copy_out_H
#include "solver/bc_free_slip.h"
#undef _qk_solver_bc_copy_out_H
#include "solver/bc_no_slip.h"
#include "solver/bc_periodic.h"
#include "solver/brio_wu_shock_tube.h"
#include "solver/current_source.h"
#include "basis/face_basis.h"
#include "solver/electromagnetic_wave_1D.h"
#include "solver/euler.h"
#include "solver/fill.h"
#include "solver/gaussian.h"
#include "solver/gem_challenge.h"
#include "solver/lorentz_force.h"
#include "solver/magnetic_pulse.h"
#include "solver/maxwell.h"
#include "solver/radial_shock_tube.h"
#include "solver/rk1.h"
#include "solver/shock_tube.h"
#include "solver/ssprk2_advection.h"
#include "solver/ssprk3.h"
#include "solver/swap.h"

#include <algorithm>
#include <memory>
#include <sstream>
#include <stdexcept>

namespace api
{

typedef qk::variable::variable_id vid;

struct prepared;
struct kept_solver // a solver object a simulation goes on using
{
    prepared * p = nullptr;
    uint64_t conf = 0;
    int kind = 0;
};
static qk::range cells_of(const gridcfg & g)
{
    int upper[3];
    bool shifted = false;
    for (int d = 0; d < g.nd; d++) {
        upper[d] = g.lo[d] + g.n[d];
        shifted |= g.lo[d] != 0;
    }
    return shifted ? qk::range(g.nd, g.lo, upper) : qk::range(g.nd, g.n);
}
struct world
{
    qk::grid::rectilinear grid;
    qk::variable::variable_manager manager;
    kept_solver pool[32];
    ~world();
    explicit world(const gridcfg & g) :
            grid(cells_of(g), g.start, g.width),
            manager(grid)
    {
        manager.set_time(0.);
        manager.set_dt(0.);
    }
};

static qk::basis::basis make_basis(const varspec & v)
{
    if (v.basis == "va")
        return qk::basis::volume_average();
    return qk::basis::basis(v.basis, v.points);
}
static vid make_id(const varspec & v) { return vid(v.name, v.comps, make_basis(v)); }

world * make(const gridcfg & g) { return new world(g); }
void destroy(world * w) { delete w; }
void set_clock(world * w, double t, double dt)
{
    w->manager.set_time(t);
    w->manager.set_dt(dt);
}
double get_time(world * w) { return w->manager.time(); }
double get_dt(world * w) { return w->manager.dt(); }

struct prepared
{
    std::unique_ptr<qk::solver::solver> s;
    int tag = 0;
    bool clock = false;
    double time = 0, dt = 0;
    bool frame = false;
    std::string prefix, suffix;
    std::vector<vid> list;
};

template<typename T> static void inputs(T & s, const op & o, const std::vector<varspec> & vars, int from, int count)
{
    for (int i = 0; i < count; i++)
        s.add_input_variable(make_id(vars[size_t(o.v[size_t(from + i)])]));
}
template<typename T> static void outputs(T & s, const op & o, const std::vector<varspec> & vars, int from, int count)
{
    for (int i = 0; i < count; i++)
        s.add_output_variable(make_id(vars[size_t(o.v[size_t(from + i)])]));
}
// half of the calls configure solvers through the list setters
template<typename T> static void io(T & s, const op & o, const std::vector<varspec> & vars, const prepared * again, int ni, int no)
{
    if ((o.id & 1) && !again) {
        inputs(s, o, vars, 0, ni);
        outputs(s, o, vars, ni, no);
    } else {
        std::vector<vid> a, b;
        for (int i = 0; i < ni; i++)
            a.push_back(make_id(vars[size_t(o.v[size_t(i)])]));
        for (int i = 0; i < no; i++)
            b.push_back(make_id(vars[size_t(o.v[size_t(ni + i)])]));
        s.set_input_variables(a);
        s.set_output_variables(b);
    }
}
// a solver object: a new one or, to be configured anew, the one of an earlier call; where objects are
// kept, some of them are copies of the one configured (programs keep solvers in vectors)
template<typename T> struct solver_object
{
    std::unique_ptr<T> own;
    T * t, * over = nullptr;
    const int way;
    solver_object(prepared * again, const op & o) : way(keep_solvers ? (o.id >> 1) % 4 : 0)
    {
        T * const old = again ? static_cast<T *>(again->s.get()) : nullptr;
        if (old && (way != 1 && way != 2))
            t = old;
        else {
            own.reset(t = new T());
            over = old;
        }
    }
    T * operator->() { return t; }
    T & operator*() { return *t; }
    void into(prepared * q)
    {
        if (over)
            *over = *own;
        else if (own && way == 1)
            q->s.reset(new T(*own));
        else if (own && way == 2) {
            std::unique_ptr<T> copy(new T());
            *copy = *own;
            q->s.reset(copy.release());
        } else if (own)
            q->s.reset(own.release());
    }
};
template<typename T> static prepared * bc(const op & o, const std::vector<varspec> & vars, prepared * again)
{
    std::unique_ptr<prepared> p(again ? nullptr : new prepared());
    prepared * const q = again ? again : p.get();
    solver_object<T> s(again, o);
    s->setup(o.d);
    io(*s, o, vars, again, 0, int(o.v.size()));
    s.into(q);
    p.release();
    return q;
}

static int stage_tag(const op & o)
{
    using namespace qk::solver;
    static const int st[3] = { ssprk3::STAGE_0, ssprk3::STAGE_1, ssprk3::STAGE_2 };
    return o.kind == "rk3" ? st[o.d[0]] : o.d[0] ? ssprk2_advection::STAGE_1 : ssprk2_advection::STAGE_0;
}

prepared * prepare(const op & o, const std::vector<varspec> & vars, prepared * again)
{
    using namespace qk::solver;
    const std::string & k = o.kind;
    const int nv = int(o.v.size());
    if (k == "periodic")
        return bc<bc_periodic>(o, vars, again);
    if (k == "copyout")
        return bc<bc_copy_out>(o, vars, again);
    if (k == "noslip")
        return bc<bc_no_slip>(o, vars, again);
    if (k == "freeslip")
        return bc<bc_free_slip>(o, vars, again);
    if (k == "wall")
        return bc<bc_conducting_wall>(o, vars, again);
    std::unique_ptr<prepared> p(again ? nullptr : new prepared());
    prepared * const q = again ? again : p.get();
    if (k == "fill") {
        solver_object<fill> s(again, o);
        s->setup(o.x[0]);
        io(*s, o, vars, again, 0, nv);
        s.into(q);
    } else if (k == "swap") {
        solver_object<qk::solver::swap> s(again, o);
        io(*s, o, vars, again, 0, nv);
        s.into(q);
    } else if (k == "euler") {
        solver_object<euler> s(again, o);
        s->setup(o.x[0]);
        io(*s, o, vars, again, 1, 1);
        s.into(q);
    } else if (k == "maxwell") {
        solver_object<maxwell> s(again, o);
        s->setup(o.x[0]);
        io(*s, o, vars, again, 1, 1);
        s.into(q);
    } else if (k == "lorentz") {
        solver_object<lorentz_force> s(again, o);
        s->setup(o.x[0], o.x[1]);
        io(*s, o, vars, again, 2, 1);
        s.into(q);
    } else if (k == "current") { // x: eps0, charges.., masses..
        solver_object<current_source> s(again, o);
        const size_t n = (o.x.size() - 1) / 2;
        s->setup(o.x[0], std::vector<double>(o.x.begin() + 1, o.x.begin() + 1 + long(n)), std::vector<double>(o.x.begin() + 1 + long(n), o.x.end()));
        io(*s, o, vars, again, nv - 1, 1);
        s.into(q);
    } else if (k == "rk1") {
        solver_object<rk1> s(again, o);
        io(*s, o, vars, again, 2, 1);
        s.into(q);
        q->tag = rk1::STAGE_0;
    } else if (k == "rk3") { // d: stage
        solver_object<ssprk3> s(again, o);
        io(*s, o, vars, again, 2, 3);
        s.into(q);
        q->tag = stage_tag(o);
    } else if (k == "adv") { // d: stage, x: velocity
        solver_object<ssprk2_advection> s(again, o);
        s->setup(o.x);
        io(*s, o, vars, again, 1, 2);
        s.into(q);
        q->tag = stage_tag(o);
    } else if (k == "gaussian") { // x: amplitude, sd, average..
        solver_object<gaussian> s(again, o);
        s->setup(o.x[0], std::vector<double>(o.x.begin() + 2, o.x.end()), o.x[1]);
        io(*s, o, vars, again, 0, nv);
        s.into(q);
    } else if (k == "shock") {
        solver_object<shock_tube> s(again, o);
        if (!o.x.empty())
            s->setup(o.x[0], o.x[1], o.x[2]);
        io(*s, o, vars, again, 0, nv);
        s.into(q);
    } else if (k == "radial") { // x: r, density jump, pressure jump, gamma, centre..
        solver_object<radial_shock_tube> s(again, o);
        if (!o.x.empty())
            s->setup(o.x[0], o.x[1], o.x[2], o.x[3], std::vector<double>(o.x.begin() + 4, o.x.end()));
        io(*s, o, vars, again, 0, nv);
        s.into(q);
    } else if (k == "pulse") {
        solver_object<magnetic_pulse> s(again, o);
        s->setup(o.x[0], o.x[1]);
        io(*s, o, vars, again, 0, nv);
        s.into(q);
    } else if (k == "wave") { // d: direction, x: c k Bx By Bz
        solver_object<electromagnetic_wave_1D> s(again, o);
        if (!o.x.empty())
            s->setup(o.d[0], o.x[0], o.x[1], o.x[2], o.x[3], o.x[4]);
        io(*s, o, vars, again, 0, nv);
        s.into(q);
    } else if (k == "briowu") { // v: electrons ions field
        solver_object<brio_wu_shock_tube> s(again, o);
        if (!o.x.empty())
            s->setup(o.x[0], o.x[1], o.x[2], o.x[3], o.x[4], o.x[5], o.x[6], o.x[7], o.x[8]);
        io(*s, o, vars, again, 0, nv);
        s.into(q);
    } else if (k == "gem") {
        solver_object<gem_challenge> s(again, o);
        s->setup(o.x[0], o.x[1], o.x[2], o.x[3], o.x[4], o.x[5], o.x[6], o.x[7], o.x[8], o.x[9], o.x[10], o.x[11], o.x[12], o.x[13]);
        io(*s, o, vars, again, 0, nv);
        s.into(q);
    } else if (k == "clock") { // x: time, dt
        q->clock = true;
        q->time = o.x[0];
        q->dt = o.x[1];
    } else if (k == "write") {
        q->frame = true;
        size_t cut = o.s.rfind('_');
        if (!o.d.empty()) // any split of the name will do
            cut = o.d[0] == 0 ? o.s.size() : o.d[0] == 1 ? 0 : o.d[0] == 2 ? o.s.rfind('.') : o.s.rfind('/');
        q->prefix = o.s.substr(0, cut);
        q->suffix = cut == std::string::npos ? std::string() : o.s.substr(cut);
        for (int i : o.v)
            q->list.push_back(make_id(vars[size_t(i)]));
    } else if (k == "touch") {
        for (int i : o.v)
            q->list.push_back(make_id(vars[size_t(i)]));
    } else {
        throw std::logic_error("unknown call " + k);
    }
    p.release();
    return q;
}
void unprepare(prepared * p) { delete p; }
world::~world()
{
    for (kept_solver & k : pool)
        delete k.p;
}

void call(world * w, const prepared * p)
{
    if (p->s)
        p->s->solve(w->manager, p->tag);
    else if (p->clock) {
        w->manager.set_time(p->time);
        w->manager.set_dt(p->dt);
    } else if (p->frame)
        w->manager.write_vtk(p->prefix, p->suffix, p->list);
    else
        for (const vid & id : p->list)
            w->manager.output_variable(id);
}

int keep_solvers = 0;

static bool staged(const op & o) { return o.kind == "rk3" || o.kind == "adv"; }
static uint64_t configuration(const op & o)
{
    uint64_t h = 14695981039346656037ull;
    auto mix = [&h](const void * p, size_t n) {
        for (size_t i = 0; i < n; i++)
            h = (h ^ ((const unsigned char *) p)[i]) * 1099511628211ull;
        h = (h ^ n) * 1099511628211ull;
    };
    mix(o.kind.data(), o.kind.size());
    mix(o.v.data(), o.v.size() * sizeof o.v[0]);
    if (!staged(o)) // one integrator does all its stages
        mix(o.d.data(), o.d.size() * sizeof o.d[0]);
    mix(o.x.data(), o.x.size() * sizeof o.x[0]);
    return h | 1;
}
static int kind_of(const std::string & k)
{
    static const char * const name[] = { "periodic", "copyout", "noslip", "freeslip", "wall", "fill", "swap", "euler", "maxwell", "lorentz", "current", "rk1", "rk3", "adv", "gaussian", "shock", "radial", "pulse", "wave", "briowu", "gem" };
    for (int i = 0; i < int(sizeof name / sizeof name[0]); i++)
        if (k == name[i])
            return i;
    return -1;
}

// The solver objects of a simulation are made once per configuration and used again, as programs do
// (keep_solvers 1), some of them configured anew for another call of their kind (keep_solvers 2).
void exec(world * w, const op & o, const std::vector<varspec> & vars)
{
    if (o.kind == "work") {
        private_work(uint64_t(o.d[0]), o.d[1]);
        return;
    }
    const int kind = keep_solvers ? kind_of(o.kind) : -1;
    if (kind < 0) {
        std::unique_ptr<prepared> p(prepare(o, vars));
        call(w, p.get());
        return;
    }
    const uint64_t want = configuration(o);
    kept_solver * free = nullptr, * old = nullptr;
    for (kept_solver & k : w->pool) {
        if (k.p && k.conf == want) {
            if (staged(o))
                k.p->tag = stage_tag(o);
            call(w, k.p);
            return;
        }
        if (!k.p)
            free = &k;
        else if (k.kind == kind)
            old = &k;
    }
    const bool defaults = o.x.empty() && (o.kind == "shock" || o.kind == "radial" || o.kind == "wave" || o.kind == "briowu");
    if (keep_solvers == 2 && old && !defaults) {
        old->conf = 0; // of no use before it is configured completely
        prepare(o, vars, old->p);
        old->conf = want;
        call(w, old->p);
        return;
    }
    if (!free) {
        std::unique_ptr<prepared> p(prepare(o, vars));
        call(w, p.get());
        return;
    }
    free->p = prepare(o, vars);
    free->kind = kind;
    free->conf = want;
    call(w, free->p);
}

static void describe(const qk::variable::variable & var, layout & l)
{
    int chunks = 0;
    for (qk::indexer i = var.indexer(); i.exists(); i.next())
        chunks++;
    l.consistent = chunks == 1;
    qk::indexer first = var.indexer();
    const qk::data::extended_datachunk & c = var[first];
    const qk::range & r = c.range();
    const qk::range & in = c.internal_range();
    l.identity = &var;
    l.nd = r.num_dims() - 2;
    l.g = c.num_ghost_layers();
    if (l.nd < 1 || l.nd > 3 || in.num_dims() != r.num_dims()) {
        l.consistent = false;
        return;
    }
    for (int d = 0; d < l.nd; d++) {
        l.n[d] = in.length(d);
        l.stride[d] = r.stride(d);
        if (r.lower(d) != in.lower(d) - l.g || r.upper(d) != in.upper(d) + l.g)
            l.consistent = false;
    }
    l.points = r.length(l.nd);
    l.nc = r.length(l.nd + 1);
    l.pstride = r.stride(l.nd);
    l.cstride = r.stride(l.nd + 1);
    l.total = r.volume();
    int low[5];
    for (int d = 0; d < r.num_dims(); d++)
        low[d] = r.lower(d);
    l.base = const_cast<double *>(c.data(low));
    l.name = var.name();
    l.comps = var.component_names();
    l.basis = var.basis().name();
}
void touch(world * w, const varspec & v, layout & l) { describe(w->manager.output_variable(make_id(v)), l); }
void look(world * w, const varspec & v, layout & l) { describe(w->manager.input_variable(make_id(v)), l); }
void export_frame(world * w, const std::string & prefix, const std::string & suffix, const std::vector<varspec> & list)
{
    std::vector<vid> ids;
    for (const varspec & v : list)
        ids.push_back(make_id(v));
    w->manager.write_vtk(prefix, suffix, ids);
}

std::string clone_name(const varspec & v) { return make_id(v).unique_clone().name(); }
int tag() { return vid::unique_tag(); }
bool id_less(const varspec & a, const varspec & b) { return make_id(a) < make_id(b); }
bool id_equal(const varspec & a, const varspec & b) { return make_id(a) == make_id(b); }

// ------------------------------------------------------------------ exceptions
struct kept
{
    qk::exception e;
    kept(const qk::exception & x) : e(x) {}
};
static qk::exception by_value(const std::string & t) { return qk::exception(t); }
kept * keep_text(const std::string & text, int route)
{
    switch (route % 5) {
    case 0:
        return new kept(qk::exception(text));
    case 1: {
        qk::exception a(text);
        qk::exception b(a);
        qk::exception c(b);
        return new kept(c);
    }
    case 2: {
        qk::exception a("something else entirely");
        a = by_value(text);
        return new kept(a);
    }
    case 3: {
        qk::exception a;
        a << text;
        return new kept(a);
    }
    default: {
        std::runtime_error r(text);
        const std::exception & s = r;
        return new kept(qk::exception(s));
    }
    }
}
kept * keep_copy(const kept * k) { return new kept(*k); }
void keep_assign(kept * to, const kept * from) { to->e = from->e; }
void keep_append(kept * k, const std::string & more) { k->e << more; }
static void raise(const qk::exception & e, int depth)
{
    try {
        throw e;
    } catch (const qk::exception & c) {
        if (depth > 0)
            raise(c, depth - 1);
        throw;
    }
}
void keep_raise_and_catch(kept * k, int depth)
{
    try {
        raise(k->e, depth);
    } catch (const qk::exception & c) {
        k->e = c;
    }
}
kept * keep_outcome(world * w, const op & o, const std::vector<varspec> & vars, bool & raised)
{
    raised = false;
    try {
        if (o.kind == "misuse")
            misuse(o.d[0], w, o, vars);
        else
            exec(w, o, vars);
    } catch (const qk::exception & e) {
        raised = true;
        return new kept(e);
    }
    return nullptr;
}
void drop_kept(kept * k) { delete k; }
kept_texts read_kept(const kept * k)
{
    kept_texts t;
    const char * w = k->e.what();
    t.what = std::string(w);
    std::ostringstream s;
    s << k->e;
    t.stream = s.str();
    return t;
}

std::vector<std::string> read_all_kept(const std::vector<const kept *> & k)
{
    std::vector<const char *> w;
    for (const kept * x : k)
        w.push_back(x->e.what());
    std::vector<std::string> t;
    for (const char * x : w)
        t.push_back(std::string(x));
    return t;
}

// ------------------------------------------------------------------ bulk data
struct chunk
{
    int kind;
    qk::data::datachunk * d;               // the object, whatever it is
    qk::data::extended_datachunk * e;      // the same, when it has ghost layers
};

// the same range along different ways
static qk::range range_of(const box & b, int route)
{
    const int n = int(b.lo.size());
    switch (route % 5) {
    case 0:
        return qk::range(n, b.lo.data(), b.hi.data());
    case 1: {
        qk::range r;
        for (int i = 0; i < n; i++)
            r.extrude(b.lo[size_t(i)], b.hi[size_t(i)]);
        return r;
    }
    case 2: {
        std::vector<int> len;
        for (int i = 0; i < n; i++)
            len.push_back(b.hi[size_t(i)] - b.lo[size_t(i)]);
        qk::range r(n, len.data());
        for (int i = 0; i < n; i++)
            r.shift(i, b.lo[size_t(i)]);
        return r;
    }
    case 3: {
        std::vector<int> at(size_t(n), 7);
        qk::range r(n, at.data(), at.data());
        for (int i = n - 1; i >= 0; i--)
            r.expand(i, b.lo[size_t(i)] - 7, b.hi[size_t(i)] - 7);
        return r;
    }
    default: {
        std::vector<int> one(size_t(n), 1);
        qk::range r(n, one.data());
        for (int i = 0; i < n; i++)
            r.set(i, b.lo[size_t(i)], b.hi[size_t(i)]);
        qk::range q;
        q = r;
        return q;
    }
    }
}
static box box_of(const qk::range & r)
{
    box b;
    for (int i = 0; i < r.num_dims(); i++) {
        b.lo.push_back(r.lower(i));
        b.hi.push_back(r.upper(i));
    }
    return b;
}

chunk * chunk_new(int kind)
{
    std::unique_ptr<chunk> c(new chunk());
    c->kind = kind;
    c->e = kind ? new qk::data::extended_datachunk() : nullptr;
    c->d = kind ? c->e : new qk::data::datachunk();
    return c.release();
}
void chunk_drop(chunk * c)
{
    delete c->d;
    delete c;
}
void chunk_resize(chunk * c, const box & mesh, const box & data, int ghosts, int route)
{
    if (c->e && ghosts == 2 && route % 2)
        c->e->resize(range_of(mesh, route), range_of(data, route / 5));
    else if (c->e)
        c->e->resize(range_of(mesh, route), range_of(data, route / 5), ghosts);
    else
        c->d->resize(range_of(mesh, route), range_of(data, route / 5));
}
void chunk_assign(chunk * to, const chunk * from)
{
    if (to->e)
        *to->e = *from->e;
    else
        *to->d = *from->d;
}
void chunk_fill(chunk * c, double v) { c->d->fill(v); }
void chunk_fill(chunk * c, const box & b, double v, int route) { c->d->fill(range_of(b, route), v); }
void chunk_scale(chunk * c, const box & b, double v, int route) { c->d->multiply_by_scalar(range_of(b, route), v); }
void chunk_copy(const chunk * from, const box & b, chunk * to, const box & t, int route)
{
    qk::data::copy_to(*from->d, range_of(b, route), *to->d, range_of(t, route / 5));
}
void chunk_full_copy(const chunk * from, chunk * to) { qk::data::full_copy(*from->d, *to->d); }
void chunk_pull(chunk * to, const box & t, const chunk * from, const box & b, int route)
{
    to->d->pull(*from->d, range_of(b, route), range_of(t, route / 5));
}
void chunk_pull(chunk * to, const chunk * from) { to->d->pull(*from->d); }
void chunk_swap(chunk * a, chunk * b) { a->d->swap(*b->d); }
void chunk_look(chunk * c, chunk_view & v)
{
    const qk::range & r = c->d->range();
    v.range = box_of(r);
    v.volume = r.volume();
    for (int i = 0; i < r.num_dims(); i++) {
        v.stride.push_back(r.stride(i));
        v.length.push_back(r.length(i));
    }
    v.data = v.volume > 0 ? c->d->data() : nullptr;
    if (c->e) {
        v.ghosts = c->e->num_ghost_layers();
        v.internal = box_of(c->e->internal_range());
    }
}
void chunk_faces(const chunk * c, int dims, std::vector<box> & f)
{
    for (int i = 0; i < dims; i++) {
        f.push_back(box_of(c->e->lower_internal_range(i)));
        f.push_back(box_of(c->e->lower_external_range(i)));
        f.push_back(box_of(c->e->upper_internal_range(i)));
        f.push_back(box_of(c->e->upper_external_range(i)));
    }
}
void chunk_walk(const chunk * c, const box & b, int way, int route, walked & w)
{
    qk::data::datachunk & mine = *c->d; // the same accessors, of an object that may be written
    const qk::data::datachunk & d = mine;
    const int n = int(b.lo.size());
    const qk::range r = range_of(b, route);
    long limit = 1;
    for (int i = 0; i < n; i++)
        limit *= b.hi[size_t(i)] - b.lo[size_t(i)];
    std::vector<int> at((size_t(n)));
    qk::indexer i = way % 6 == 3 ? d.indexer() : d.indexer(r);
    long k = 0;
    for (; i.exists() && k <= limit; k++) {
        for (int m = 0; m < n; m++) {
            at[size_t(m)] = i[m];
            w.index.push_back(i[m]);
            w.agrees = w.agrees && i.index(m) == i[m];
        }
        w.value.push_back(d[i]);
        w.agrees = w.agrees && d.data(i) == &d[i] && d.data(at.data()) == &d[i] && d.data() + i.linear_index() == &d[i];
        w.agrees = w.agrees && mine.data(i) == &d[i] && mine.data(at.data()) == &d[i] && &mine[i] == &d[i] && mine.data() == d.data();
        switch (way % 6) {
        case 0:
        case 3:
            i.next();
            break;
        case 1:
            ++i;
            break;
        case 2: { // a copy goes on where the original stood
            qk::indexer j(i);
            ++i;
            ++j;
            i = j;
            break;
        }
        case 4: { // a copy is independent
            qk::indexer j;
            j = i;
            ++j;
            w.agrees = w.agrees && d.data(i) == d.data(at.data());
            ++i;
            w.agrees = w.agrees && i.exists() == j.exists() && i.linear_index() == j.linear_index();
            break;
        }
        default: // a step aside and back
            for (int m = 0; m < n; m++)
                if (at[size_t(m)] + 1 < d.range().upper(m)) {
                    i.increment(m);
                    w.agrees = w.agrees && i.linear_index() == int(&d[i] - d.data()) && i[m] == at[size_t(m)] + 1 && i.linear_index() == int(d.data(at.data()) - d.data()) + d.range().stride(m);
                    i.decrement(m);
                }
            i.next();
        }
    }
    w.ended = !i.exists();
}

void chunk_write(const chunk * c, const box & b, int route, std::string & text)
{
    std::stringbuf to;
    std::ofstream file;
    static_cast<std::ios &>(file).rdbuf(&to); // without a disk
    file.exceptions(std::ios::badbit);
    file.precision(17);
    c->d->write_VTK(file, range_of(b, route));
    text = to.str();
}

// ------------------------------------------------------------------ ranges
struct rg
{
    qk::range r;
    rg() {}
    explicit rg(const qk::range & x) : r(x) {}
};
static rg * made(const qk::range & r) { return new rg(r); }
rg * rg_new(const box & b, int way, const rg * from)
{
    const int n = int(b.lo.size());
    if (way == 0)
        return new rg();
    if (way == 1) {
        std::vector<int> len;
        for (int i = 0; i < n; i++)
            len.push_back(b.hi[size_t(i)] - b.lo[size_t(i)]);
        return made(qk::range(n, len.data()));
    }
    if (way == 2)
        return made(qk::range(n, b.lo.data(), b.hi.data()));
    return made(from->r);
}
void rg_drop(rg * r) { delete r; }
void rg_resize(rg * r, const box & b, int way)
{
    const int n = int(b.lo.size());
    if (way)
        r->r.resize(qk::range(n, b.lo.data(), b.hi.data()));
    else
        r->r.resize(n, b.lo.data(), b.hi.data());
}
void rg_assign(rg * r, const rg * from) { r->r = from->r; }
void rg_extrude(rg * r, int lo, int hi) { r->r.extrude(lo, hi); }
void rg_expand(rg * r, int dim, int lo, int hi) { r->r.expand(dim, lo, hi); }
void rg_shift(rg * r, int dim, int by) { r->r.shift(dim, by); }
void rg_set(rg * r, int dim, int lo, int hi) { r->r.set(dim, lo, hi); }
void rg_look(const rg * r, rg_view & v)
{
    v.b = box_of(r->r);
    v.dims = r->r.num_dims();
    v.volume = r->r.volume();
    for (int i = 0; i < v.dims; i++) {
        v.stride.push_back(r->r.stride(i));
        v.length.push_back(r->r.length(i));
    }
    std::ostringstream t;
    t.precision(9);
    t.fill('*');
    t.setf(std::ios::left, std::ios::adjustfield);
    const std::ios::fmtflags flags = t.flags();
    t << "<" << r->r << ">";
    v.text = t.flags() == flags && t.precision() == 9 && t.fill() == '*' && t.good() ? t.str() : "with other settings of the stream";
}
void rg_compare(const rg * a, const rg * b, bool & includes, bool & equal, bool & unequal)
{
    includes = a->r.includes(b->r);
    equal = a->r == b->r;
    unequal = a->r != b->r;
}
void rg_walk(const rg * sub, const rg * sup, int way, rg_walked & w)
{
    const int n = sup->r.num_dims();
    qk::indexer i(sub->r, sup->r);
    qk::indexer spare;
    if (spare.exists())
        w.agrees = false;
    if (way == 1) { // through an assigned indexer that was somewhere else before
        spare = qk::indexer(sup->r, sup->r);
        if (spare.exists())
            spare.next();
        spare = i;
        i = qk::indexer();
        i = spare;
    } else if (way == 4) { // through one that walks as many other cells
        qk::range other(sub->r);
        for (int m = 0; m < n && m < other.num_dims(); m++)
            if (sub->r.lower(m) > sup->r.lower(m))
                other.shift(m, -1);
            else if (sub->r.upper(m) < sup->r.upper(m))
                other.shift(m, 1);
        spare = qk::indexer(other, sup->r);
        spare = i;
        for (int m = 0; m < n; m++)
            i = qk::indexer(sup->r, sup->r);
        i = spare;
    }
    if (!(i == sup->r))
        w.agrees = false;
    long limit = 1;
    for (int k = 0; k < n; k++)
        limit *= std::max(0, sup->r.length(k));
    if (i.exists())
        w.last = i.final_linear_index();
    for (long k = 0; i.exists() && k <= limit; k++) {
        for (int m = 0; m < n; m++) {
            w.index.push_back(i[m]);
            w.agrees = w.agrees && i.index(m) == i[m];
        }
        w.linear.push_back(i.linear_index());
        w.agrees = w.agrees && i.final_linear_index() == w.last;
        if (way == 2) { // a copy goes on, the original stays
            qk::indexer j(i);
            const int at = i.linear_index();
            ++j;
            w.agrees = w.agrees && i.exists() && i.linear_index() == at;
            i = j;
        } else if (way == 3) { // steps aside and back, in any direction
            const int at = i.linear_index();
            for (int m = 0; m < n; m++) {
                i.decrement(m);
                w.agrees = w.agrees && i.linear_index() == at - sup->r.stride(m) && i[m] == w.index[w.index.size() - size_t(n) + size_t(m)] - 1;
                i.increment(m);
                i.increment(m);
                w.agrees = w.agrees && i.linear_index() == at + sup->r.stride(m);
                i.decrement(m);
            }
            i.next();
        } else
            i.next();
    }
    w.ended = !i.exists();
}
struct rset
{
    qk::range_set s;
    rset() {}
    rset(const qk::range & r, const int * parts) : s(r, parts) {}
};
rset * rset_new(const rg * r, const std::vector<int> & parts, int way)
{
    if (way)
        return new rset(r->r, parts.data());
    std::unique_ptr<rset> s(new rset());
    s->s.setup(r->r, parts.data());
    return s.release();
}
void rset_setup(rset * s, const rg * r, const std::vector<int> & parts) { s->s.setup(r->r, parts.data()); }
void rset_drop(rset * s) { delete s; }
void rset_look(const rset * s, std::vector<box> & b, std::vector<int> & index)
{
    for (qk::indexer i = s->s.indexer(); i.exists(); ++i) {
        b.push_back(box_of(s->s[i]));
        for (int k = 0; k < i.num_dims(); k++)
            index.push_back(i[k]);
    }
}

// ------------------------------------------------------------------ grids
struct structured_probe: public qk::grid::structured
{
    structured_probe(const qk::range & r, const double * s, const double * w) : qk::grid::structured(r, s, w) {}
    void write_vtk(std::ofstream &, const qk::basis::basis &) const {}
};
struct gr
{
    std::unique_ptr<qk::grid::rectilinear> u;
    std::unique_ptr<structured_probe> s;
    const qk::grid::grid & any() const { return u ? static_cast<const qk::grid::grid &>(*u) : static_cast<const qk::grid::grid &>(*s); }
};
gr * gr_new(int kind, const gridcfg & g)
{
    std::unique_ptr<gr> r(new gr());
    const qk::range cells(cells_of(g));
    if (kind)
        r->s.reset(new structured_probe(cells, g.start, g.width));
    else
        r->u.reset(new qk::grid::rectilinear(cells, g.start, g.width));
    return r.release();
}
void gr_drop(gr * g) { delete g; }
void gr_assign(gr * to, const gr * from)
{
    if (to->u)
        *to->u = *from->u;
    else
        *to->s = *from->s;
}
gr * gr_copy(const gr * from)
{
    std::unique_ptr<gr> r(new gr());
    if (from->u)
        r->u.reset(new qk::grid::rectilinear(*from->u));
    else
        r->s.reset(new structured_probe(*from->s));
    return r.release();
}
void gr_bias(gr * g, int dim, double power, bool symmetric)
{
    if (symmetric)
        g->s->apply_bias_symmetric(dim, power);
    else
        g->s->apply_bias_linear(dim, power);
}
void gr_extents(const gr * g, gr_view & v)
{
    const qk::grid::grid & a = g->any();
    for (int d = 0; d < a.num_dims(); d++) {
        v.n.push_back(a.length(d));
        v.lo.push_back(a.lower(d));
        v.start.push_back(a.start(d));
        v.width.push_back(a.width(d));
    }
}
void gr_look(const gr * g, gr_view & v)
{
    const qk::grid::grid & a = g->any();
    const int nd = a.num_dims();
    qk::range wide(a.range());
    gr_extents(g, v);
    for (int d = 0; d < nd; d++) {
        std::vector<double> c, w;
        for (int i = a.lower(d); i < a.upper(d); i++) {
            c.push_back(g->u ? g->u->centroid(d, i) : g->s->centroid(d, i));
            w.push_back(g->u ? g->u->dx(d) : g->s->dx(d, i));
        }
        v.centre.push_back(c);
        v.size.push_back(w);
        wide.expand(d, -2, 2);
    }
    if (g->u)
        for (qk::indexer i(wide, wide); i.exists(); ++i) {
            double x[3] = { -7, -7, -7 };
            a.xc(i, x);
            v.xc.insert(v.xc.end(), x, x + 3);
        }
}
void gr_ask(const gr * g, int dim, int index, int what)
{
    volatile double x;
    if (dim >= 0 && dim < g->any().num_dims())
        index += g->any().lower(dim);
    if (what == 0)
        x = g->u ? g->u->centroid(dim, index) : g->s->centroid(dim, index);
    else
        x = g->u ? g->u->dx(dim) : g->s->dx(dim, index);
    (void) x;
}

// ------------------------------------------------------------------ private work
namespace
{
uint64_t pick(uint64_t & h, uint64_t n)
{
    h ^= h << 13;
    h ^= h >> 7;
    h ^= h << 17;
    return (h >> 11) % n;
}

qk::range small_box(uint64_t & h, int nd)
{
    box b;
    for (int i = 0; i < nd; i++) {
        b.lo.push_back(int(pick(h, 9)) - 4);
        b.hi.push_back(b.lo.back() + 1 + int(pick(h, 4)));
    }
    return range_of(b, int(pick(h, 5)));
}
qk::range inner_box(uint64_t & h, const qk::range & in)
{
    qk::range r = in;
    for (int i = 0; i < in.num_dims(); i++) {
        const int len = 1 + int(pick(h, uint64_t(in.length(i))));
        const int lo = in.lower(i) + int(pick(h, uint64_t(in.length(i) - len + 1)));
        r.set(i, lo, lo + len);
    }
    return r;
}
}
// ranges, indexers, divisions, chunks, grids, identifiers and refused calls on objects of its own; the
// report of what came out is a function of the seed
std::string private_work(uint64_t seed, int steps)
{
    uint64_t h = seed * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
    std::ostringstream t;
    t.precision(17);
    qk::range r = small_box(h, 1 + int(pick(h, 3)));
    for (int k = 0; k < steps; k++) {
        t << "\n" << k << ": ";
        try {
            switch (pick(h, 11)) {
            case 0:
                r = small_box(h, 1 + int(pick(h, 4)));
                t << r;
                break;
            case 1: {
                const int d = int(pick(h, uint64_t(r.num_dims())));
                if (pick(h, 2))
                    r.shift(d, int(pick(h, 5)) - 2);
                else
                    r.expand(d, -1, int(pick(h, 2)));
                t << r << r.volume();
                for (int i = 0; i < r.num_dims(); i++)
                    t << " " << r.stride(i) << " " << r.length(i);
                if (r.volume() > 2000)
                    r = small_box(h, 2);
                break;
            }
            case 2: {
                const qk::range sub = inner_box(h, r);
                for (qk::indexer i(sub, r); i.exists(); ++i) {
                    t << " " << i.linear_index();
                    for (int m = 0; m < r.num_dims(); m++)
                        t << "," << i[m];
                }
                t << r.includes(sub) << sub.includes(r) << (r == sub) << (r != sub);
                break;
            }
            case 3: {
                std::vector<int> parts;
                for (int i = 0; i < r.num_dims(); i++)
                    parts.push_back(1 + int(pick(h, 4)));
                qk::range_set set(r, parts.data());
                for (qk::indexer i = set.indexer(); i.exists(); ++i)
                    t << " " << set[i];
                break;
            }
            case 4:
            case 5: {
                const int nd = 1 + int(pick(h, 2)), ghosts = int(pick(h, 3));
                qk::range mesh = small_box(h, nd);
                qk::range data = small_box(h, 1);
                data.shift(0, -data.lower(0));
                qk::data::extended_datachunk a, b;
                a.resize(mesh, data, ghosts);
                b.resize(mesh, data, ghosts);
                const double v = double(pick(h, 1000)) / 7.;
                a.fill(v);
                const qk::range sub = inner_box(h, a.range());
                b.fill(sub, v + 1);
                a.multiply_by_scalar(inner_box(h, a.range()), 1. / 3.);
                qk::data::copy_to(a, sub, b, sub);
                b.multiply_by_scalar(sub, 3.);
                a.pull(b, sub, sub);
                if (pick(h, 2))
                    a.swap(b);
                for (int i = 0; i < nd; i++)
                    t << a.lower_internal_range(i) << a.upper_external_range(i);
                t << a.internal_range() << a.range();
                for (qk::indexer i = a.indexer(); i.exists(); ++i)
                    t << " " << a[i] << "/" << b[i];
                break;
            }
            case 6: {
                const int nd = 1 + int(pick(h, 3));
                qk::range cells = small_box(h, nd);
                double start[3], width[3];
                for (int i = 0; i < 3; i++) {
                    start[i] = double(pick(h, 100)) / 9. - 5.;
                    width[i] = double(1 + pick(h, 100)) / 11.;
                }
                qk::grid::rectilinear g(cells, start, width), f(g);
                for (qk::indexer i(cells, cells); i.exists(); ++i) {
                    double x[3] = { 0, 0, 0 };
                    f.xc(i, x);
                    t << " " << x[0] << "," << x[1] << "," << x[2];
                }
                for (int i = 0; i < nd; i++)
                    t << " " << g.dx(i) << " " << g.start(i) << " " << g.width(i);
                break;
            }
            case 7: {
                qk::range cells = small_box(h, 2);
                double start[2] = { double(pick(h, 100)) / 9., -1.5 }, width[2] = { 2., double(1 + pick(h, 9)) };
                structured_probe g(cells, start, width);
                const double p = 1. + double(pick(h, 4));
                g.apply_bias_linear(int(pick(h, 2)), p);
                for (int d = 0; d < 2; d++)
                    for (int i = cells.lower(d); i < cells.upper(d); i++)
                        t << " " << g.dx(d, i) << "@" << g.centroid(d, i);
                g.apply_bias_symmetric(int(pick(h, 2)), p);
                for (int d = 0; d < 2; d++)
                    for (int i = cells.lower(d); i < cells.upper(d); i++)
                        t << " " << g.dx(d, i) << "@" << g.centroid(d, i);
                break;
            }
            case 8: {
                const std::string n = "name_" + std::to_string(pick(h, 6));
                const std::string m = "name_" + std::to_string(pick(h, 6));
                qk::basis::volume_average basis;
                std::vector<std::string> c(1 + size_t(pick(h, 3)), "c");
                const vid a(n, c, basis), b(m, c, basis);
                t << a.name() << (a < b) << (b < a) << (a == b) << a.component_names().size();
                break;
            }
            case 9: {
                // text of its own, long enough to be held on the heap
                std::string text = "refused for reason " + std::to_string(pick(h, 1000000));
                text += std::string(size_t(pick(h, 90)), '.');
                const qk::exception e(text);
                try {
                    throw e;
                } catch (const qk::exception & x) {
                    qk::exception y;
                    y = x;
                    y << " again";
                    t << x.what() << "|" << y.what() << "|" << e;
                }
                break;
            }
            default: { // refused
                qk::data::datachunk a, b;
                qk::range one = small_box(h, 1), two(one);
                two.expand(0, -1 - int(pick(h, 3)), 0);
                a.resize(one, one);
                b.resize(two, one);
                if (pick(h, 3) == 0)
                    a.swap(b);
                else if (pick(h, 2))
                    a.pull(b);
                else
                    qk::data::full_copy(a, b);
                t << "accepted";
            }
            }
        } catch (const qk::exception & e) {
            t << "refused: " << e.what();
        }
    }
    return t.str();
}

// ------------------------------------------------------------------ misuse
static const char * misuse_names[] = {
    "euler without input", "euler with two inputs", "euler without output", "euler with two outputs",            // 0-3
    "maxwell without input", "maxwell with two inputs", "maxwell without output", "maxwell with two outputs",    // 4-7
    "lorentz with one input", "lorentz with three inputs", "lorentz without output", "lorentz with two outputs", // 8-11
    "current with too few fluids", "current with too many fluids", "current without output", "current with two outputs", // 12-15
    "rk1 with one input", "rk1 with three inputs", "rk1 without output",                                         // 16-18
    "rk3 with one input", "rk3 with three inputs", "rk3 with two outputs", "rk3 without output",                 // 19-22
    "advection without input", "advection with two inputs", "advection with one output", "advection with three outputs", // 23-26
    "swap of three variables", "swap of one variable", "charges and masses of different length",                 // 27-29
    "brio-wu with two outputs", "brio-wu with four outputs",                                                     // 30-31
    "missing input of euler", "missing input of maxwell", "missing input of rk1", "missing field of lorentz", "missing input of advection", "missing fluid of current", // 32-37
    "lookup of a missing variable", "export of a missing variable", "export of an unsupported basis", "export of two bases", // 38-41
    "copy between unequal ranges", "copy between unequal chunks", "fill outside of the data", "pull between unequal ranges", // 42-45
    "component mismatch on output", "component mismatch on input", "synchronisation",                            // 46-48
    "width of a missing direction", "start of a missing direction", "cell size of a missing direction", "centre of a missing cell", // 49-52
    "swap of unequal chunks", "biasing an odd grid", "missing second fluid of current",                          // 53-55
    "index of a missing direction", "subscript of a missing direction", "increment of a missing direction", "decrement of a missing direction", // 56-59
    "swap of unequal variables", "swap with an unequal second pair", "gem with two outputs", "gem with four outputs",   // 60-63
    "address of a cell behind the data", "address of a cell behind data that is only read",                            // 64-65
    "several face points per direction", "comparing identifiers with other components",                                // 66-67
};
int misuse_kinds() { return int(sizeof misuse_names / sizeof misuse_names[0]); }
const char * misuse_name(int k) { return misuse_names[k]; }

namespace
{
}

template<typename T> static void solve_with(T & s, world * w, const std::vector<vid> & in, const std::vector<vid> & out, int tag)
{
    for (const vid & i : in)
        s.add_input_variable(i);
    for (const vid & i : out)
        s.add_output_variable(i);
    s.solve(w->manager, tag);
}

// a box of at least one value inside of another one
static qk::range some_box(const qk::range & in, uint64_t & h)
{
    qk::range r = in;
    const bool small = pick(h, 3) == 0;
    for (int i = 0; i < in.num_dims(); i++) {
        const int len = small ? 1 + int(pick(h, uint64_t(std::min(2, in.length(i))))) : 1 + int(pick(h, uint64_t(in.length(i))));
        const int lo = in.lower(i) + int(pick(h, uint64_t(in.length(i) - len + 1)));
        r.set(i, lo, lo + len);
    }
    return r;
}

static int missing_direction(const op & o, int dims)
{
    static const int far[] = { 0, 1, 2, 7, 13, 254, 255, 256, 65535, 65536, 2147483600 };
    const int e = o.d.size() > 1 ? o.d[1] : 0, by = e < 12 ? 0 : far[e / 2 % 11];
    return e & 1 ? -1 - by : dims + by;
}

// o.v: fluid, fluid2, field, field2, scalar, scalar2 (all exist)
void misuse(int k, world * w, const op & o, const std::vector<varspec> & vars)
{
    using namespace qk::solver;
    auto id = [&](int i) {return make_id(vars[size_t(o.v[size_t(i)])]);};
    auto ids = [&](std::initializer_list<int> l) {
        std::vector<vid> r;
        for (int i : l)
            r.push_back(id(i));
        return r;
    };
    varspec ms;
    ms.name = "never_created";
    ms.comps = vars[size_t(o.v[0])].comps;
    const vid missing = make_id(ms);
    varspec mf = ms;
    mf.comps = vars[size_t(o.v[2])].comps;
    const vid missing_field = make_id(mf);
    varspec mc = ms;
    mc.comps = vars[size_t(o.v[4])].comps;
    const vid missing_scalar = make_id(mc);
    qk::variable::variable_manager & m = w->manager;
    const std::vector<vid> none;
    const std::vector<double> vel(3, 1.);
    switch (k) {
    case 0: case 1: case 2: case 3: {
        euler s;
        s.setup(1.4);
        solve_with(s, w, k == 0 ? none : k == 1 ? ids({ 0, 1 }) : ids({ 0 }), k == 2 ? none : k == 3 ? ids({ 1, 0 }) : ids({ 1 }), 0);
        return;
    }
    case 4: case 5: case 6: case 7: {
        maxwell s;
        s.setup(1.);
        solve_with(s, w, k == 4 ? none : k == 5 ? ids({ 2, 3 }) : ids({ 2 }), k == 6 ? none : k == 7 ? ids({ 3, 2 }) : ids({ 3 }), 0);
        return;
    }
    case 8: case 9: case 10: case 11: {
        lorentz_force s;
        s.setup(1., 1.);
        solve_with(s, w, k == 8 ? ids({ 0 }) : k == 9 ? ids({ 0, 2, 3 }) : ids({ 0, 2 }), k == 10 ? none : k == 11 ? ids({ 1, 0 }) : ids({ 1 }), 0);
        return;
    }
    case 12: case 13: case 14: case 15: {
        current_source s;
        s.setup(1., std::vector<double>(2, 1.), std::vector<double>(2, 1.));
        solve_with(s, w, k == 12 ? ids({ 0 }) : k == 13 ? ids({ 0, 1, 0 }) : ids({ 0, 1 }), k == 14 ? none : k == 15 ? ids({ 3, 2 }) : ids({ 3 }), 0);
        return;
    }
    case 16: case 17: case 18: {
        rk1 s;
        solve_with(s, w, k == 16 ? ids({ 0 }) : k == 17 ? ids({ 0, 1, 1 }) : ids({ 0, 1 }), k == 18 ? none : ids({ 1 }), 0);
        return;
    }
    case 19: case 20: case 21: case 22: {
        ssprk3 s;
        solve_with(s, w, k == 19 ? ids({ 0 }) : k == 20 ? ids({ 0, 1, 1 }) : ids({ 0, 1 }), k == 21 ? ids({ 1, 0 }) : k == 22 ? none : ids({ 1, 1, 1 }), o.d.size() > 1 ? o.d[1] % 3 : 0);
        return;
    }
    case 23: case 24: case 25: case 26: {
        ssprk2_advection s;
        s.setup(vel);
        solve_with(s, w, k == 23 ? none : k == 24 ? ids({ 4, 5 }) : ids({ 4 }), k == 25 ? ids({ 5 }) : k == 26 ? ids({ 5, 5, 5 }) : ids({ 5, 5 }), o.d.size() > 1 ? o.d[1] % 2 : 0);
        return;
    }
    case 27: case 28: {
        qk::solver::swap s;
        solve_with(s, w, none, k == 27 ? ids({ 0, 1, 0 }) : ids({ 0 }), 0);
        return;
    }
    case 29: {
        current_source s;
        s.setup(1., std::vector<double>(2, 1.), std::vector<double>(3, 1.));
        return;
    }
    case 30: case 31: {
        brio_wu_shock_tube s;
        solve_with(s, w, none, k == 30 ? ids({ 0, 1 }) : ids({ 0, 1, 2, 3 }), 0);
        return;
    }
    case 32: {
        euler s;
        s.setup(1.4);
        solve_with(s, w, std::vector<vid>(1, missing), ids({ 1 }), 0);
        return;
    }
    case 33: {
        maxwell s;
        solve_with(s, w, std::vector<vid>(1, missing_field), ids({ 3 }), 0);
        return;
    }
    case 34: {
        rk1 s;
        std::vector<vid> in(1, missing);
        in.push_back(id(0));
        solve_with(s, w, in, ids({ 1 }), 0);
        return;
    }
    case 35: {
        lorentz_force s;
        std::vector<vid> in(1, id(0));
        in.push_back(missing_field);
        solve_with(s, w, in, ids({ 1 }), 0);
        return;
    }
    case 36: {
        ssprk2_advection s;
        s.setup(vel);
        solve_with(s, w, std::vector<vid>(1, missing_scalar), ids({ 4, 5 }), 0);
        return;
    }
    case 37: {
        current_source s;
        s.setup(1., std::vector<double>(1, 1.), std::vector<double>(1, 1.));
        solve_with(s, w, std::vector<vid>(1, missing), ids({ 3 }), 0);
        return;
    }
    case 38:
        m.input_variable(missing);
        return;
    case 39: {
        std::vector<vid> l = ids({ 0 });
        l.push_back(missing);
        m.write_vtk("/sim/misuse", "_39.vtk", l);
        return;
    }
    case 40: {
        varspec u = ms;
        u.basis = "other";
        u.points = 2;
        m.write_vtk("/sim/misuse", "_40.vtk", std::vector<vid>(1, make_id(u)));
        return;
    }
    case 41: {
        varspec u = ms;
        u.basis = "other";
        u.points = 2;
        std::vector<vid> l = ids({ 0 });
        l.push_back(make_id(u));
        m.write_vtk("/sim/misuse", "_41.vtk", l);
        return;
    }
    case 42: case 43: case 44: case 45: case 53: {
        qk::variable::variable & a = m.output_variable(id(0));
        qk::variable::variable & b = m.output_variable(id(2));
        const bool turn = k != 44 && o.d.size() > 1 && (o.d[1] & 1);    // both directions
        qk::data::extended_datachunk & ca = turn ? b[b.indexer()] : a[a.indexer()];
        qk::data::extended_datachunk & cb = turn ? a[a.indexer()] : b[b.indexer()];
        const uint64_t e1 = o.d.size() > 1 ? uint64_t(o.d[1]) : 0;
        qk::range fr = ca.internal_range(), tr = cb.internal_range();
        if (e1 >= 12) { // any two boxes that do not hold as many values
            uint64_t h = e1 * 0x9e3779b97f4a7c15ull + 1;
            fr = some_box(ca.range(), h);
            tr = some_box(cb.range(), h);
            if (pick(h, 6) == 0) { // one of them empty
                qk::range & none = pick(h, 2) ? fr : tr;
                const int at = int(pick(h, uint64_t(none.num_dims())));
                none.set(at, none.lower(at), none.lower(at));
            }
            if (fr.volume() == tr.volume())
                fr = fr.volume() == ca.range().volume() ? some_box(ca.internal_range(), h) : ca.range();
            if (fr.volume() == tr.volume())
                throw qk::exception("nothing to refuse");
        }
        if (k == 42)
            qk::data::copy_to(ca, fr, cb, tr);
        else if (k == 43)
            qk::data::full_copy(ca, cb);
        else if (k == 44) {
            qk::range r = ca.range();
            const int e = o.d.size() > 1 ? o.d[1] : 0;
            const int dim = e % (r.num_dims() - 2);
            if (e >= 12) { // any box that sticks out somewhere
                uint64_t h = uint64_t(e) * 0x9e3779b97f4a7c15ull + 1;
                r = some_box(ca.range(), h);
                const int at = int(pick(h, uint64_t(r.num_dims()))), far = 1 + int(pick(h, pick(h, 4) ? 3 : 100000));
                const int len = r.length(at);
                if (pick(h, 2))
                    r.set(at, ca.range().upper(at) + far - len, ca.range().upper(at) + far);
                else
                    r.set(at, ca.range().lower(at) - far, ca.range().lower(at) - far + len);
            } else if (e % 4 == 3) { // a single layer on either side, of fewer cells than there are
                r = ca.internal_range();
                if (e & 4)
                    r.set(dim, ca.range().upper(dim) - 1, ca.range().upper(dim) + 1);
                else
                    r.set(dim, ca.range().lower(dim) - 2, ca.range().lower(dim));
            } else if (e % 4 == 2)
                r.expand(dim, -1, 0);
            else
                r.expand(dim, 0, 1);
            ca.fill(r, 77.);
        } else if (k == 45 && e1 >= 12)
            ca.pull(cb, tr, fr);
        else if (k == 45)
            ca.pull(cb);
        else
            ca.swap(cb);
        return;
    }
    case 46: case 47: {
        varspec u = vars[size_t(o.v[0])];
        const int e = o.d.size() > 1 ? o.d[1] : 0;
        std::string & at = u.comps[size_t(e / 8) % u.comps.size()];
        if (e < 12 ? e & 1 : e % 8 == 0)
            u.comps.push_back("extra");
        else if (e < 12)
            u.comps[u.comps.size() - 1] += "x";
        else if (e % 8 == 1)
            u.comps.push_back(at);
        else if (e % 8 == 2)
            u.comps.erase(u.comps.begin() + (e / 8) % int(u.comps.size()));
        else if (e % 8 == 3)
            at = "";
        else if (e % 8 == 4)
            at[0] ^= 0x20;
        else if (e % 8 == 5)
            std::rotate(u.comps.begin(), u.comps.begin() + 1, u.comps.end()), u.comps.push_back("");
        else if (e % 8 == 6)
            u.comps.clear();
        else
            at += ' ';
        if (k == 46)
            m.output_variable(make_id(u));
        else
            m.input_variable(make_id(u));
        return;
    }
    case 48:
        m.output_variable(id(0)).sync();
        return;
    case 49:
        w->grid.width(missing_direction(o, w->grid.num_dims()));
        return;
    case 50:
        w->grid.start(missing_direction(o, w->grid.num_dims()));
        return;
    case 51:
        w->grid.dx(missing_direction(o, w->grid.num_dims()));
        return;
    case 52: {
        const int e = o.d.size() > 1 ? o.d[1] : 0, dim = e < 12 ? 0 : e / 2 % w->grid.num_dims(), far = e < 12 ? 0 : e / 6 % 3 == 0 ? 0 : e / 6 % 3 == 1 ? e : 1000000 * (e % 2000);
        w->grid.centroid(dim, e & 1 ? w->grid.lower(dim) - 1 - far : w->grid.upper(dim) + far);
        return;
    }
    case 54: {
        const int n[1] = { 3 };
        const double s[1] = { 0. }, wd[1] = { 3. };
        structured_probe g(qk::range(1, n), s, wd);
        g.apply_bias_symmetric(0, 2.);
        return;
    }
    case 55: {
        current_source s;
        s.setup(1., std::vector<double>(2, 1.), std::vector<double>(2, 1.));
        std::vector<vid> in(1, id(0));
        in.push_back(missing);
        solve_with(s, w, in, ids({ 3 }), 0);
        return;
    }
    case 56: case 57: case 58: case 59: {
        qk::variable::variable & a = m.output_variable(id(0));
        qk::indexer i = a[a.indexer()].indexer();
        const int bad = missing_direction(o, i.num_dims());
        if (k == 56)
            i.index(bad);
        else if (k == 57)
            i[bad];
        else if (k == 58)
            i.increment(bad);
        else
            i.decrement(bad);
        return;
    }
    case 60: case 61: {
        qk::solver::swap s;
        const bool more = o.d.size() > 1 && (o.d[1] & 1);
        solve_with(s, w, none, k == 60 ? (more ? ids({ 0, 2 }) : ids({ 5, 3 })) : (more ? ids({ 0, 1, 2, 4 }) : ids({ 2, 3, 0, 1, 1, 3 })), 0);
        return;
    }
    case 62: case 63: {
        gem_challenge s;
        s.setup(0.5, 1., 1., 0.2, 5. / 3., -1., 0.04, 1., 0.1, 1., 1., 1., 0.5, 1.);
        solve_with(s, w, none, k == 62 ? ids({ 0, 1 }) : ids({ 0, 1, 2, 3 }), 0);
        return;
    }
    case 64: case 65: {
        const int e = o.d.size() > 1 ? o.d[1] : 0, far = e < 12 ? 0 : e % 7 ? e : 1000 * e;
        const int len[2] = { 1 + e % 4, 1 + e / 4 % 3 };
        qk::data::datachunk c;
        c.resize(qk::range(1, len), qk::range(1, len + 1));
        const qk::data::datachunk & only_read = c;
        const int at = c.volume() + far, lo[1] = { at }, hi[1] = { at + 1 }, all[1] = { at + 1 };
        const qk::indexer i(qk::range(1, lo, hi), qk::range(1, all));
        if (k == 64)
            c.data(i);
        else
            only_read.data(i);
        return;
    }
    case 66: {
        const int e = o.d.size() > 1 ? o.d[1] : 0;
        qk::basis::face_basis b;
        b.setup(1 + e % 3, e < 12 ? 2 : e % 5 == 0 ? 0 : e % 5 == 1 ? -e : e + 2);
        return;
    }
    case 67: {
        const varspec & v = vars[size_t(o.v[0])];
        varspec u = v;
        if (o.d.size() > 1 && (o.d[1] & 1))
            u.comps.back() += 'x';
        else
            u.comps.push_back("one more");
        const vid a = make_id(v), b = make_id(u);
        volatile bool x = o.d.size() > 1 && (o.d[1] & 2) ? a == b : o.d.size() > 1 && (o.d[1] & 4) ? b < a : a < b;
        (void) x;
        return;
    }
    default:
        throw std::logic_error("unknown misuse");
    }
}

} // namespace api
