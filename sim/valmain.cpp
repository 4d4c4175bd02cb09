// Plain driver: reads a plan, executes its calls natively (no simulation runtime), writes the
// interior values of all variables.  Linked with another build of the library (see build.sh).
#include "plan.h"
#include "state.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <iterator>
#include <new>
#include <unistd.h>

namespace sim
{
const char * fault_name[F_KINDS] = { "", "", "", "", "", "", "", "", "", "", "", "" };
}

// storage at addresses that are aligned as operator new promises, and not better
void * operator new(size_t n)
{
    char * p = (char *) aligned_alloc(64, ((n + 16 + 63) / 64 + 1) * 64);
    if (!p)
        throw std::bad_alloc();
    memset(p + 16, 0x7f, n);
    return p + 16;
}
void * operator new[](size_t n) { return operator new(n); }
void operator delete(void * p) noexcept
{
    if (p)
        free((char *) p - 16);
}
void operator delete[](void * p) noexcept { operator delete(p); }
void operator delete(void * p, size_t) noexcept { operator delete(p); }
void operator delete[](void * p, size_t) noexcept { operator delete(p); }

static void put(std::string & b, uint64_t v) { b.append((const char *) &v, 8); }

int main()
{
    std::istreambuf_iterator<char> a(std::cin), e;
    const std::string text(a, e);
    const plan p = from_text(text);
    std::string out;
    try {
        api::world * w = api::make(p.grids[0]);
        for (const step & o : p.ops) {
            if (o.kind == "set") {
                api::layout l;
                api::look(w, p.vars[size_t(o.v[0])], l);
                arr x = read_layout(l);
                set_values(x, o.x.empty() ? 1.4 : o.x[0], o.d[0], uint64_t(o.d[1]));
                write_layout(l, x);
            } else if (o.kind != "write" && o.kind != "work")
                api::exec(w, o, p.vars);
        }
        put(out, p.vars.size());
        for (const api::varspec & v : p.vars) {
            api::layout l;
            std::vector<double> d;
            try {
                api::look(w, v, l);
                const arr x = read_layout(l);
                interior(x, [&](int i, int j, int k) {
                    for (int m = 0; m < x.nc; m++)
                        d.push_back(x(i, j, k, m));
                });
            } catch (const std::exception &) {
            }
            put(out, d.size());
            out.append((const char *) d.data(), d.size() * 8);
        }
    } catch (const std::exception & x) {
        std::cout << x.what() << std::flush;
        return 5;
    }
    std::cout.write(out.data(), std::streamsize(out.size()));
    std::cout.flush();
    return 0;
}
