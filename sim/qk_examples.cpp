// Runs the example programs of the library.  Their grids are capped (see build.sh: the linker
// redirects the grid constructor), everything else is the real program.
#include "qk_api.h"
#include "example/advection/advect_gaussian.h"
#include "example/euler/sod_shock_tube.h"
#include "example/maxwell/gaussian_pulse.h"
#include "example/maxwell/wave_1D.h"
#include "example/plasma/gem_challenge.h"
#include "example/plasma/harris_current_sheet.h"
#include "example/plasma/two_fluid_brio_wu.h"
#include "grid/rectilinear.h"
#include <string>

static int cap = 0;

extern "C" void __real__ZN2qk4grid11rectilinearC1ERKNS_5rangeEPKdS6_(void *, const qk::range &, const double *, const double *);
extern "C" void __wrap__ZN2qk4grid11rectilinearC1ERKNS_5rangeEPKdS6_(void * self, const qk::range & r, const double * s, const double * w)
{
    if (!cap) {
        __real__ZN2qk4grid11rectilinearC1ERKNS_5rangeEPKdS6_(self, r, s, w);
        return;
    }
    int n[3] = { 1, 1, 1 };
    const int nd = r.num_dims() < 3 ? r.num_dims() : 3;
    for (int d = 0; d < nd; d++)
        n[d] = r.length(d) < cap ? r.length(d) : cap;
    __real__ZN2qk4grid11rectilinearC1ERKNS_5rangeEPKdS6_(self, qk::range(nd, n), s, w);
}

// the shipped program: main.cpp with main and exit renamed in its object file
int quikin_main_plain() __asm__("quikin_main");
namespace sim
{
void program_exit(int code);
}
extern "C" void sim_exit(int code) { sim::program_exit(code); }

namespace api
{

static void program()
{
    if (quikin_main_plain())
        sim::program_exit(1);
}

void example(int which, int c, const std::string & dir)
{
    cap = c;
    switch (which) {
    case 0:
        qk::example::advection::advect_gaussian();
        break;
    case 1:
        qk::example::euler::sod_shock_tube(dir);
        break;
    case 2:
        qk::example::maxwell::gaussian_pulse();
        break;
    case 3:
        qk::example::maxwell::wave_1D(dir);
        break;
    case 4:
        qk::example::plasma::gem_challenge(dir);
        break;
    case 5:
        qk::example::plasma::harris_current_sheet();
        break;
    case 6:
        qk::example::plasma::two_fluid_brio_wu();
        break;
    default:
        program();
    }
}

} // namespace api
