From 4ca3c6f545c205e45e4615c928b3afb85888e3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:19 +0000
Subject: [PATCH 01/31] fix: data race in the advection flux scatter

Each iteration of the parallel loop updated two cells, so neighbouring
iterations on different threads lost updates. Compute the fluxes in
parallel and apply them in order.
---
 src/solver/ssprk2_advection.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/solver/ssprk2_advection.cpp b/src/solver/ssprk2_advection.cpp
index 82fbcba..fb3ef3d 100644
--- a/src/solver/ssprk2_advection.cpp
+++ b/src/solver/ssprk2_advection.cpp
@@ -3,6 +3,7 @@
 // STL include
 #include <sstream>
 #include <fstream>
+#include <algorithm>
 #include <cmath>
 #include <ctime>
 #include <chrono>
@@ -38,6 +39,10 @@ void advection_iterate(const int start,
     const double * __restrict__ a = n;        //(const double *) __builtin_assume_aligned((const void *) n, 32);
     double * __restrict__ b = np;        //(double *) __builtin_assume_aligned((void *) np, 32);
 
+    // The update scatters each face flux to two cells, so iterations of the flux loop must not
+    // write to b: store the fluxes first and apply them in order afterwards.
+    std::vector<double> flux(std::max(0, end - start));
+
     // Iterate - should autovectorize
 #pragma omp parallel for
     for (int i = start; i < end; i++) {
@@ -60,9 +65,13 @@ void advection_iterate(const int start,
 //                printf("(% e, % e, % e) : phi % e, Flux % e\n", vn, vc, vp, phi, dflux);
 //            }
 
-        b[i - downstream_stride] -= dflux; // 1 add : 1 FLO
-        b[i] += dflux; // 1 add : 1FLO
+        flux[i - start] = dflux;
+
+    }
 
+    for (int i = start; i < end; i++) {
+        b[i - downstream_stride] -= flux[i - start]; // 1 add : 1 FLO
+        b[i] += flux[i - start]; // 1 add : 1FLO
     }
 }
 
-- 
2.43.0


From 12686ecc231d7dbdcb7b99ca09aeb01fb9e9b06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:19 +0000
Subject: [PATCH 02/31] fix: exception::what() returned a dangling pointer

what() pointed into a destroyed temporary, and assignment appended to
the old message instead of replacing it. Keep the message as a string.
---
 src/lib/exception.h | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/lib/exception.h b/src/lib/exception.h
index 295c9b6..81669d0 100644
--- a/src/lib/exception.h
+++ b/src/lib/exception.h
@@ -3,7 +3,9 @@
 
 // STL includes
 #include <exception>
+#include <ostream>
 #include <sstream>
+#include <string>
 
 namespace qk
 {
@@ -19,17 +21,17 @@ public:
 
     exception(const std::string error)
     {
-        _what << error;
+        _what = error;
     }
 
     exception(const std::exception & other)
     {
-        _what << std::string(other.what());
+        _what = other.what();
     }
 
     exception(const qk::exception & other)
     {
-        _what << other._what.str();
+        _what = other._what;
     }
 
     virtual ~exception() throw()
@@ -40,32 +42,31 @@ public:
 
     const char* what() const noexcept
     {
-        return _what.str().c_str();
+        return _what.c_str();
     }
 
     exception& operator=(const qk::exception & other)
     {
-        this->_what.clear();
-        *this << std::string(other.what());
+        _what = other._what;
         return *this;
     }
 
     friend std::ostream& operator<<(std::ostream& os, const qk::exception& qke)
     {
-        os << qke._what.str();
+        os << qke._what;
         return os;
     }
 
     exception &
     operator<<(const std::string & s)
     {
-        _what << s;
+        _what += s;
         return *this;
     }
 
 protected:
 
-    std::stringstream _what;
+    std::string _what;
 };
 
 }
-- 
2.43.0


From 267a5ca258ced0894d67e60cf729adc72d3e09d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:19 +0000
Subject: [PATCH 03/31] fix: looking up a missing variable dereferenced end()

The exceptions were constructed but never thrown.
---
 src/variable/variable_manager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variable/variable_manager.cpp b/src/variable/variable_manager.cpp
index 3be3c21..566326c 100644
--- a/src/variable/variable_manager.cpp
+++ b/src/variable/variable_manager.cpp
@@ -35,7 +35,7 @@ variable_manager::output_variable(const qk::variable::variable_id & var)
        add_variable(var);
        itr = _variables.find(var);
        if (itr == _variables.end()) {
-           qk::exception("qk::variable::variable_manager::output_variable : Couldn't allocate variable.");
+           throw qk::exception("qk::variable::variable_manager::output_variable : Couldn't allocate variable.");
        }
     }
     return *(itr->second);
@@ -46,7 +46,7 @@ variable_manager::input_variable(const qk::variable::variable_id & var) const
 {
     const auto & itr = _variables.find(var);
     if (itr == _variables.end()) {
-       qk::exception("qk::variable::variable_manager::input_variable : Variable '"+var.name()+"' does not exist.");
+       throw qk::exception("qk::variable::variable_manager::input_variable : Variable '"+var.name()+"' does not exist.");
     }
     return *(itr->second);
 }
-- 
2.43.0


From d92dd5a45c77db64365199b778f3a1c5b266e1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:19 +0000
Subject: [PATCH 04/31] fix: write_vtk reported success after a failed write

Errors while writing or closing the file (disk full, I/O error) were
never looked at.
---
 src/variable/variable_manager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/variable/variable_manager.cpp b/src/variable/variable_manager.cpp
index 566326c..588f55b 100644
--- a/src/variable/variable_manager.cpp
+++ b/src/variable/variable_manager.cpp
@@ -105,6 +105,9 @@ void variable_manager::write_vtk(const std::string & prefix,
         }
 
         file.close();
+        if(!file){
+            throw qk::exception("qk::variable::variable_manager::write_VTK : File '" + filename + "' could not be written");
+        }
     }
 
 }
-- 
2.43.0


From 9ee08e68bd4b8114252134c1912befe8dd9415d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:19 +0000
Subject: [PATCH 05/31] fix: failed variable creation leaked or left a null
 entry

If the map insertion or the construction ran out of memory the variable
leaked, or a null pointer stayed registered under its name.
---
 src/variable/variable_manager.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/variable/variable_manager.cpp b/src/variable/variable_manager.cpp
index 588f55b..dac4a53 100644
--- a/src/variable/variable_manager.cpp
+++ b/src/variable/variable_manager.cpp
@@ -3,6 +3,7 @@
 // STL includes
 #include <fstream>
 #include <iomanip>
+#include <memory>
 
 // QK includes
 #include "variable/variable.h"
@@ -57,7 +58,9 @@ variable_manager::add_variable(const qk::variable::variable_id & var)
     if(_variables.find(var) != _variables.end()){
         throw qk::exception("qk::variable::variable_manager::add_variable : Variable already exists.");
     }
-    _variables[var] = new qk::variable::variable(var.name(), var.component_names(), var.basis(), _grid);
+    std::unique_ptr<qk::variable::variable> new_variable(new qk::variable::variable(var.name(), var.component_names(), var.basis(), _grid));
+    _variables.insert(std::make_pair(var, new_variable.get()));
+    new_variable.release();
 }
 
 void variable_manager::write_vtk(const std::string & prefix,
-- 
2.43.0


From 68db401e984d33825a2ff97eb80c72dcde50ad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:19 +0000
Subject: [PATCH 06/31] fix: basis operator< was not a strict weak ordering

Two bases could each be less than the other, so maps keyed by a
variable id lost entries.
---
 src/basis/basis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basis/basis.h b/src/basis/basis.h
index 639920c..54fed6a 100644
--- a/src/basis/basis.h
+++ b/src/basis/basis.h
@@ -45,8 +45,8 @@ public:
     friend bool operator <(const basis & a, const basis & b)
     {
         // Test if they have the same name
-        if (a._name < b._name) {
-            return true;
+        if (a._name != b._name) {
+            return a._name < b._name;
         }
 
         return a._num_points < b._num_points;
-- 
2.43.0


From ff568b9631a90e7b9630819209003196f15e3603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:19 +0000
Subject: [PATCH 07/31] fix: initial conditions read uninitialised coordinates
 below 3 dimensions

The grid only sets as many coordinates as it has dimensions.
---
 src/solver/gaussian.cpp          | 2 +-
 src/solver/magnetic_pulse.cpp    | 2 +-
 src/solver/radial_shock_tube.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solver/gaussian.cpp b/src/solver/gaussian.cpp
index d16c2a9..45685ab 100644
--- a/src/solver/gaussian.cpp
+++ b/src/solver/gaussian.cpp
@@ -38,7 +38,7 @@ gaussian::solve(qk::variable::variable_manager & variable_manager, const int tag
 
     const qk::grid::grid & grid = variable_manager.grid();
 
-    double x[3];
+    double x[3] = {0.,0.,0.};
     double w[3];
 
     for(int i = 0; i < _output_variable_ids.size(); i++){
diff --git a/src/solver/magnetic_pulse.cpp b/src/solver/magnetic_pulse.cpp
index 05cb095..3a25d4f 100644
--- a/src/solver/magnetic_pulse.cpp
+++ b/src/solver/magnetic_pulse.cpp
@@ -17,7 +17,7 @@ void magnetic_pulse::solve(qk::variable::variable_manager & variable_manager, co
 
     const qk::grid::grid & grid = variable_manager.grid();
 
-    double x[3];
+    double x[3] = {0.,0.,0.};
     const double Bz = _amplitude;
 
     for (int i = 0; i < _output_variable_ids.size(); i++) {
diff --git a/src/solver/radial_shock_tube.cpp b/src/solver/radial_shock_tube.cpp
index 53e3784..f32be64 100644
--- a/src/solver/radial_shock_tube.cpp
+++ b/src/solver/radial_shock_tube.cpp
@@ -32,7 +32,7 @@ void radial_shock_tube::solve(qk::variable::variable_manager & variable_manager,
 
     const qk::grid::grid & grid = variable_manager.grid();
 
-    double x[3];
+    double x[3] = {0.,0.,0.};
     const double R2 = _radius*_radius;
     const double rho0 = 1.;
     const double e0 = 1. / (_gamma-1.);
-- 
2.43.0


From 116d013a70bf5d4bcc778a1cd7c8cecd5168a6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:19 +0000
Subject: [PATCH 08/31] fix: radial shock tube distance mixed up y and z

---
 src/solver/radial_shock_tube.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/radial_shock_tube.cpp b/src/solver/radial_shock_tube.cpp
index f32be64..b1b5ee4 100644
--- a/src/solver/radial_shock_tube.cpp
+++ b/src/solver/radial_shock_tube.cpp
@@ -54,7 +54,7 @@ void radial_shock_tube::solve(qk::variable::variable_manager & variable_manager,
 
                 double r2 = (x[0]-_center[0])*(x[0]-_center[0]);
                 r2 += (x[1]-_center[1])*(x[1]-_center[1]);
-                r2 += (x[2]-_center[2])*(x[1]-_center[2]);
+                r2 += (x[2]-_center[2])*(x[2]-_center[2]);
 
                 const double rho = (r2 < R2) ? rho0 : rho0 * _rho_jump;
                 const double e = (r2 < R2) ? e0 : e0 * _P_jump;
-- 
2.43.0


From 5758cbb56390fcb523ca9420f5c8a3563856360d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:19 +0000
Subject: [PATCH 09/31] fix: conducting wall reversed Bx on the y and z walls

It is the normal component that is reversed, whichever the direction.
---
 src/solver/bc_conducting_wall.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/solver/bc_conducting_wall.cpp b/src/solver/bc_conducting_wall.cpp
index 7ce71ef..39c95f7 100644
--- a/src/solver/bc_conducting_wall.cpp
+++ b/src/solver/bc_conducting_wall.cpp
@@ -61,20 +61,24 @@ bc_conducting_wall::solve(qk::variable::variable_manager & variable_manager, con
                     qk::data::copy_to(chunk, from_rng, chunk, to_rng);
                 }
 
-                // Reverse the electric field
+                // Reverse the electric field and the normal magnetic field
 
                 // Lower boundary
                 {
-                    qk::range efield_rng(lower_external_range);
-                    efield_rng.set(lower_external_range.num_dims()-1, 0,4);
-                    chunk.multiply_by_scalar(efield_rng, -1.);
+                    qk::range field_rng(lower_external_range);
+                    field_rng.set(lower_external_range.num_dims()-1, 0,3);
+                    chunk.multiply_by_scalar(field_rng, -1.);
+                    field_rng.set(lower_external_range.num_dims()-1, 3+i,4+i);
+                    chunk.multiply_by_scalar(field_rng, -1.);
                 }
 
                 // Upper boundary
                 {
-                    qk::range efield_rng(upper_external_range);
-                    efield_rng.set(upper_external_range.num_dims()-1, 0,4);
-                    chunk.multiply_by_scalar(efield_rng, -1.);
+                    qk::range field_rng(upper_external_range);
+                    field_rng.set(upper_external_range.num_dims()-1, 0,3);
+                    chunk.multiply_by_scalar(field_rng, -1.);
+                    field_rng.set(upper_external_range.num_dims()-1, 3+i,4+i);
+                    chunk.multiply_by_scalar(field_rng, -1.);
                 }
             }
         }
-- 
2.43.0


From 310eb98105f959b64f60eaa2d855fdd28890039a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:19 +0000
Subject: [PATCH 10/31] fix: free-slip wall reversed the tangential momentum
 too

That made it identical to the no-slip wall.
---
 src/solver/bc_free_slip.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/bc_free_slip.cpp b/src/solver/bc_free_slip.cpp
index 7292f03..cdf51a3 100644
--- a/src/solver/bc_free_slip.cpp
+++ b/src/solver/bc_free_slip.cpp
@@ -66,14 +66,14 @@ bc_free_slip::solve(qk::variable::variable_manager & variable_manager, const int
                 // Lower boundary
                 {
                     qk::range efield_rng(lower_external_range);
-                    efield_rng.set(lower_external_range.num_dims()-1, 1,4);
+                    efield_rng.set(lower_external_range.num_dims()-1, 1+i,2+i);
                     chunk.multiply_by_scalar(efield_rng, -1.);
                 }
 
                 // Upper boundary
                 {
                     qk::range efield_rng(upper_external_range);
-                    efield_rng.set(upper_external_range.num_dims()-1, 1,4);
+                    efield_rng.set(upper_external_range.num_dims()-1, 1+i,2+i);
                     chunk.multiply_by_scalar(efield_rng, -1.);
                 }
             }
-- 
2.43.0


From f0393cf001517db7ef885c7194beb78c379b4dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:19 +0000
Subject: [PATCH 11/31] fix: false alignment promise to the compiler

The pointers handed to __builtin_assume_aligned are only aligned to a
double, so vectorised builds crashed on aligned loads and stores.
---
 src/lib/parallelization.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/parallelization.h b/src/lib/parallelization.h
index 91a5107..5b8436d 100644
--- a/src/lib/parallelization.h
+++ b/src/lib/parallelization.h
@@ -2,7 +2,8 @@
 
 #define _QK_NUM_THREADS_ 8
 
-#define _QK_DOUBLE_ALIGNMENT_ 64
+// Data pointers start at any cell of an ordinary allocation
+#define _QK_DOUBLE_ALIGNMENT_ 8
 #define _QK_ASSUME_ALIGNED(ptr) (double*)__builtin_assume_aligned(ptr,_QK_DOUBLE_ALIGNMENT_)
 #define _QK_ASSUME_ALIGNED_CONST(ptr) (const double*)__builtin_assume_aligned(ptr,_QK_DOUBLE_ALIGNMENT_)
 
-- 
2.43.0


From bf89c7c48a059b9539ef055253714504104abd78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:19 +0000
Subject: [PATCH 12/31] fix: unique names repeated when requested from several
 threads

---
 src/variable/variable_id.cpp | 2 +-
 src/variable/variable_id.h   | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/variable/variable_id.cpp b/src/variable/variable_id.cpp
index be04d13..8f3976b 100644
--- a/src/variable/variable_id.cpp
+++ b/src/variable/variable_id.cpp
@@ -5,7 +5,7 @@ namespace qk
 namespace variable
 {
 
-int variable_id::_tag = 0;
+std::atomic<int> variable_id::_tag(0);
 
 variable_id::variable_id()
 {
diff --git a/src/variable/variable_id.h b/src/variable/variable_id.h
index 160165d..76705ac 100644
--- a/src/variable/variable_id.h
+++ b/src/variable/variable_id.h
@@ -2,6 +2,7 @@
 #define _qk_variable_variable_id_H
 
 // STL includes
+#include <atomic>
 #include <string>
 #include <vector>
 
@@ -81,7 +82,7 @@ public:
 
 protected:
 
-    static int _tag;
+    static std::atomic<int> _tag;
     std::string _name;
     qk::basis::basis _basis;
     std::vector<std::string> _component_names;
-- 
2.43.0


From 6f710b7d9001d8aac6171a55cc53aaf6e4f93826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:19 +0000
Subject: [PATCH 13/31] fix: current source applied some fluids before noticing
 a missing one

---
 src/solver/current_source.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/solver/current_source.cpp b/src/solver/current_source.cpp
index 49f75ad..1cae9dc 100644
--- a/src/solver/current_source.cpp
+++ b/src/solver/current_source.cpp
@@ -85,6 +85,11 @@ void current_source::solve(qk::variable::variable_manager & variable_manager, co
         throw qk::exception("qk::solver::current_source::solve : Output must contain one variable (rhs).");
     }
 
+    // Find all inputs before anything is added to the output
+    for(const qk::variable::variable_id & fluid_id : _input_variable_ids){
+        variable_manager.input_variable(fluid_id);
+    }
+
     qk::variable::variable & rhs = variable_manager.output_variable(_output_variable_ids[0]);
 
     for(int i = 0; i < _multipliers.size(); ++i){
-- 
2.43.0


From 3e58d459d9cd865ba5742bef81680ddd98533f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:19 +0000
Subject: [PATCH 14/31] fix: indexer range checks let one dimension too many
 through

---
 src/lib/indexer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/indexer.cpp b/src/lib/indexer.cpp
index d3253f7..bc54292 100644
--- a/src/lib/indexer.cpp
+++ b/src/lib/indexer.cpp
@@ -46,7 +46,7 @@ const int &
 indexer::operator[](const int & dim) const
 {
 #if _QK_RANGE_CHECK_
-    if(dim < 0 or dim > _num_dims){
+    if(dim < 0 or dim >= _num_dims){
         throw qk::exception("qk::indexer::operator[] : Dimension out of range.");
     }
 #endif
@@ -56,7 +56,7 @@ indexer::operator[](const int & dim) const
 int indexer::index(const int dim) const
 {
 #if _QK_RANGE_CHECK_
-    if(dim < 0 or dim > _num_dims){
+    if(dim < 0 or dim >= _num_dims){
         throw qk::exception("qk::indexer::index : Dimension out of range.");
     }
 #endif
@@ -87,7 +87,7 @@ indexer::operator++()
 void indexer::increment(const int dim)
 {
 #if _QK_RANGE_CHECK_
-    if(dim < 0 or dim > _num_dims){
+    if(dim < 0 or dim >= _num_dims){
         throw qk::exception("qk::indexer::increment : Dimension out of range.");
     }
 #endif
@@ -98,7 +98,7 @@ void indexer::increment(const int dim)
 void indexer::decrement(const int dim)
 {
 #if _QK_RANGE_CHECK_
-    if(dim < 0 or dim > _num_dims){
+    if(dim < 0 or dim >= _num_dims){
         throw qk::exception("qk::indexer::decrement : Dimension out of range.");
     }
 #endif
-- 
2.43.0


From e8510877b5e71285a885e11f023077498549a737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:31 +0000
Subject: [PATCH 15/31] fix: swap left some pairs swapped when a later pair
 failed

Creating a later variable can run out of memory; repeating the step then
swapped the earlier pairs back. Variables of different sizes were also
swapped silently. Look up and compare all variables before swapping any.
---
 src/solver/swap.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/solver/swap.cpp b/src/solver/swap.cpp
index b9adae3..daa74f9 100644
--- a/src/solver/swap.cpp
+++ b/src/solver/swap.cpp
@@ -35,10 +35,17 @@ swap::solve(qk::variable::variable_manager & variable_manager, const int tag) co
         qk::variable::variable & a = variable_manager.output_variable(_output_variable_ids[2*i]);
         qk::variable::variable & b = variable_manager.output_variable(_output_variable_ids[2*i+1]);
 
-        a.swap(b);
+        if(a.component_names().size() != b.component_names().size() or a.basis() != b.basis()){
+            throw qk::exception("qk::solver::swap::solve : Variables must have the same basis and number of components.");
+        }
 
     }
 
+    // Every variable exists and fits its partner - nothing can fail half way from here
+    for(int i = 0; i < _output_variable_ids.size()/2; i++){
+        variable_manager.output_variable(_output_variable_ids[2*i]).swap(variable_manager.output_variable(_output_variable_ids[2*i+1]));
+    }
+
 }
 
 }
-- 
2.43.0


From b1bcb47081440514b2643837f2792c63b34110f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:31 +0000
Subject: [PATCH 16/31] fix: gem_challenge read past its list of outputs

Refuse a wrong number of variables like brio_wu_shock_tube does.
---
 src/solver/gem_challenge.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/gem_challenge.cpp b/src/solver/gem_challenge.cpp
index 8a74c48..9eb9874 100644
--- a/src/solver/gem_challenge.cpp
+++ b/src/solver/gem_challenge.cpp
@@ -26,6 +26,10 @@ gem_challenge::~gem_challenge()
 void gem_challenge::solve(qk::variable::variable_manager & variable_manager, const int tag) const
 {
 
+    if (_output_variable_ids.size() != 3) {
+        throw qk::exception("qk::solver::gem_challenge::solve : Output must contain three variables (electrons, ions, field).");
+    }
+
     double * __restrict__ e;
     double * __restrict__ i;
     double * __restrict__ f;
-- 
2.43.0


From 16679b9bddbf5724e97ad5d69bebb22661cac133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:57 +0000
Subject: [PATCH 17/31] fix: resizing data or a range left it broken when
 memory ran out

---
 src/lib/indexer_interface.h |  2 ++
 src/lib/range.cpp           | 32 ++++++++++++--------------------
 2 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/src/lib/indexer_interface.h b/src/lib/indexer_interface.h
index d847a64..6d9a607 100644
--- a/src/lib/indexer_interface.h
+++ b/src/lib/indexer_interface.h
@@ -76,6 +76,8 @@ public:
 
     virtual void resize(const qk::range & range)
     {
+        // Get the memory first: range and data must not disagree if there is none
+        _data.reserve(range.volume());
         qk::range::resize(range);
         _data.resize(volume());
     }
diff --git a/src/lib/range.cpp b/src/lib/range.cpp
index f495daa..96adabe 100644
--- a/src/lib/range.cpp
+++ b/src/lib/range.cpp
@@ -73,28 +73,20 @@ range::includes(const qk::range & rng) const
 void
 range::setup(const int num_dims, const int *lower, const int *upper)
 {
-    // initialize
-    _num_dims = num_dims;
-    _lower.clear();
-    _upper.clear();
-    _stride.clear();
-
-    // Setup new range
-
-    if(_num_dims>0){
-        _lower.resize(_num_dims,0);
-        _upper.resize(_num_dims,0);
-        _stride.resize(_num_dims,0);
-        for(int i = 0; i < _num_dims; ++i){
-            _lower[i] = lower[i];
-            _upper[i] = upper[i];
-        }
-        _stride[_num_dims-1] = 1;
-        for(int i = _num_dims-2; i >= 0; --i){
-            _stride[i] = _stride[i+1] * length(i+1);
-        }
+    // Build the new range first: if memory runs out this one stays as it is
+    const int size = num_dims > 0 ? num_dims : 0;
+    std::vector<int> new_lower(lower, lower + size);
+    std::vector<int> new_upper(upper, upper + size);
+    std::vector<int> new_stride(size, 1);
+    for(int i = size-2; i >= 0; --i){
+        new_stride[i] = new_stride[i+1] * (new_upper[i+1] - new_lower[i+1]);
     }
 
+    _num_dims = num_dims;
+    _lower.swap(new_lower);
+    _upper.swap(new_upper);
+    _stride.swap(new_stride);
+
 }
 
 void
-- 
2.43.0


From 367b5c728a0bbff978d91a91675e8a173582bb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:29 +0000
Subject: [PATCH 18/31] fix: walking through or copying an empty range ran past
 the data

---
 src/data/functions.h | 5 +----
 src/lib/indexer.cpp  | 2 +-
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/data/functions.h b/src/data/functions.h
index 37fc657..67c9dc7 100644
--- a/src/data/functions.h
+++ b/src/data/functions.h
@@ -25,16 +25,13 @@ namespace data
         qk::indexer from_idx = from_chunk.indexer(from_range);
         qk::indexer to_idx = to_chunk.indexer(to_range);
 
-        while(true){
+        while(to_idx.exists()){
 
             to_chunk[to_idx] = from_chunk[from_idx];
 
             to_idx.next();
             from_idx.next();
 
-            if(!to_idx.exists()){
-                break;
-            }
         }
     }
 
diff --git a/src/lib/indexer.cpp b/src/lib/indexer.cpp
index bc54292..4284e81 100644
--- a/src/lib/indexer.cpp
+++ b/src/lib/indexer.cpp
@@ -24,7 +24,7 @@ indexer::indexer(const qk::range & sub_range, const qk::range & sup_range) :
     _index.resize(_num_dims,0);
 
     if (_num_dims > 0) {
-        _exists = this->includes(_sub_range);
+        _exists = this->includes(_sub_range) and _sub_range.volume() > 0;
         if(_exists){
             for(int i = 0; i < _num_dims; i++){
                 _index[i] = sub_range.lower(i);
-- 
2.43.0


From 8f411abe63b5173c4589bc8c3739d28643df05fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:54 +0000
Subject: [PATCH 19/31] fix: printing a range did not return the stream

---
 src/lib/range.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/range.h b/src/lib/range.h
index 2c58532..9892c5a 100644
--- a/src/lib/range.h
+++ b/src/lib/range.h
@@ -61,6 +61,7 @@ public:
             }
         }
         os<<"]";
+        return os;
     }
 
 protected:
-- 
2.43.0


From 99803eb4048ae20cafc5b33f04c0287d44ba0dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:54 +0000
Subject: [PATCH 20/31] fix: dividing a range into uneven parts gave parts of
 negative length

---
 src/lib/range_set.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/range_set.cpp b/src/lib/range_set.cpp
index fe618f7..a692457 100644
--- a/src/lib/range_set.cpp
+++ b/src/lib/range_set.cpp
@@ -1,6 +1,7 @@
 #include "range_set.h"
 
 // STL includes
+#include <algorithm>
 #include <cmath>
 
 namespace qk
@@ -38,7 +39,8 @@ range_set::setup(const qk::range &superRange, const int *numSubdivisions)
 
     for(qk::indexer indexer = this->indexer(); indexer.exists(); indexer.next()){
         for(int i = 0; i < _num_dims; i++){
-            lowers[i] = _superRange.lower(i) + indexer[i] * subRangeSizePerDivision[i];
+            // Trailing subdivisions may have nothing left to cover
+            lowers[i] = std::min(_superRange.lower(i) + indexer[i] * subRangeSizePerDivision[i], _superRange.upper(i));
             uppers[i] = std::min(lowers[i] + subRangeSizePerDivision[i], _superRange.upper(i));
         }
 
-- 
2.43.0


From f7b86002dff9d8a9d016f93a44f19e2ad739e994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:54 +0000
Subject: [PATCH 21/31] fix: biasing a grid truncated its width and the bias to
 whole numbers

---
 src/grid/structured.cpp | 8 ++++----
 src/grid/structured.h   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/grid/structured.cpp b/src/grid/structured.cpp
index eb6a532..20c34f0 100644
--- a/src/grid/structured.cpp
+++ b/src/grid/structured.cpp
@@ -41,13 +41,13 @@ structured::~structured()
 }
 
 void
-structured::bias_array(double * dxs, const int size, const int pow)
+structured::bias_array(double * dxs, const int size, const double pow)
 {
     // Thi
     double xs[size+1];
     xs[0] = 0.;
     const double dV = 1.0 / double(size);
-    const double invPow = 1. / double(pow);
+    const double invPow = 1. / pow;
     for(int i = 0; i < size; i++){
         xs[i+1]=std::pow(std::pow(xs[i],pow) + dV, invPow);
         dxs[i] = xs[i+1]-xs[i];
@@ -62,7 +62,7 @@ structured::apply_bias_symmetric(const int dim, const double pow)
         throw qk::exception("qk::grid::structured::apply_bias_symmetric : Requested dimension out of range.");
     }
 #endif
-    const int L = width(dim)/2.;
+    const double L = width(dim)/2.;
     const int N = length(dim);
 
     if(N %2 == 1){
@@ -89,7 +89,7 @@ structured::apply_bias_linear(const int dim, const double pow)
         throw qk::exception("qk::grid::structured::apply_bias_linear : Requested dimension out of range.");
     }
 #endif
-    const int L = width(dim);
+    const double L = width(dim);
     const int N = length(dim);
     double n_dxs[N];
     bias_array(n_dxs,N,pow);
diff --git a/src/grid/structured.h b/src/grid/structured.h
index 6450af6..26d9400 100644
--- a/src/grid/structured.h
+++ b/src/grid/structured.h
@@ -32,7 +32,7 @@ public:
 
 protected:
 
-    void bias_array(double * dxs, const int size, const int pow);
+    void bias_array(double * dxs, const int size, const double pow);
     void recalculate_xcs(const int dim);
 
     std::vector<std::vector<double> > _dxs;
-- 
2.43.0


From 831d10b34db76c13b2514ce4972f0beb777f8151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:54 +0000
Subject: [PATCH 22/31] fix: the Brio-Wu magnetic field was scaled like a
 pressure

---
 src/solver/brio_wu_shock_tube.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/brio_wu_shock_tube.cpp b/src/solver/brio_wu_shock_tube.cpp
index f2e3cd3..d1a76f5 100644
--- a/src/solver/brio_wu_shock_tube.cpp
+++ b/src/solver/brio_wu_shock_tube.cpp
@@ -79,7 +79,7 @@ void brio_wu_shock_tube::solve(qk::variable::variable_manager & variable_manager
         for (qk::indexer idx = field.indexer(By_range); idx.exists(); idx.next()) {
             grid.xc(idx, x);
 
-            const double By = _By * ((x[0] < 0.) ? 1. : -1.) * P_mult;
+            const double By = _By * ((x[0] < 0.) ? 1. : -1.);
             field[idx] = By;
         }
 
-- 
2.43.0


From 2521ce8157f8e9df65bc0746ee5d8db33d08ac31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:54 +0000
Subject: [PATCH 23/31] fix: a radial shock tube with its default parameters
 read a centre it did not have

---
 src/solver/radial_shock_tube.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/radial_shock_tube.cpp b/src/solver/radial_shock_tube.cpp
index b1b5ee4..6550543 100644
--- a/src/solver/radial_shock_tube.cpp
+++ b/src/solver/radial_shock_tube.cpp
@@ -13,6 +13,7 @@ namespace solver
 {
 
 radial_shock_tube::radial_shock_tube():
+    _center(3,0.),
     _radius(0.125),
     _rho_jump(0.125),
     _P_jump(0.1),
-- 
2.43.0


From 6ac35e37fd30c4e84b3da2275f25e5a2ede99731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:54 +0000
Subject: [PATCH 24/31] fix: a wave along a direction the grid does not have
 read an uninitialised coordinate

---
 src/solver/electromagnetic_wave_1D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/electromagnetic_wave_1D.cpp b/src/solver/electromagnetic_wave_1D.cpp
index 8d68a0b..67b030f 100644
--- a/src/solver/electromagnetic_wave_1D.cpp
+++ b/src/solver/electromagnetic_wave_1D.cpp
@@ -17,7 +17,7 @@ void electromagnetic_wave_1D::solve(qk::variable::variable_manager & variable_ma
 
     const qk::grid::grid & grid = variable_manager.grid();
 
-    double x[3];
+    double x[3] = {0.,0.,0.};
     double * __restrict__ f;
 
     for (const qk::variable::variable_id var_id : _output_variable_ids) {
-- 
2.43.0


From 2f0b4b48c10c7d12cdd8b75cf80bf72198a92bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:03 +0000
Subject: [PATCH 25/31] fix: cells of a grid whose range does not begin at zero
 were centred outside its domain

---
 src/grid/rectilinear.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grid/rectilinear.cpp b/src/grid/rectilinear.cpp
index 126e13f..56156c7 100644
--- a/src/grid/rectilinear.cpp
+++ b/src/grid/rectilinear.cpp
@@ -72,7 +72,7 @@ void
 rectilinear::xc(const qk::indexer & idx, double * x) const
 {
     for(int i=0;i<this->num_dims();i++){
-        x[i] = _startxs[i] + (idx.index(i)+0.5)*_dxs[i];
+        x[i] = _startxs[i] + (idx.index(i)-lower(i)+0.5)*_dxs[i];
     }
 }
 
@@ -87,7 +87,7 @@ rectilinear::centroid(const int dim, const int index) const
         throw qk::exception("qk::grid::rectilinear::centroid : Requested index out of range.");
     }
 #endif
-    return _startxs[dim] + (index+0.5)*_dxs[dim];
+    return _startxs[dim] + (index-lower(dim)+0.5)*_dxs[dim];
 }
 
 double
-- 
2.43.0


From 71937e356deb5e892f02d64341865658c8f2b5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:03 +0000
Subject: [PATCH 26/31] fix: a biased grid whose range does not begin at zero
 read cell sizes and centres past their end

---
 src/grid/structured.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grid/structured.cpp b/src/grid/structured.cpp
index 20c34f0..34946c9 100644
--- a/src/grid/structured.cpp
+++ b/src/grid/structured.cpp
@@ -113,7 +113,7 @@ structured::centroid(const int dim, const int index) const
         throw qk::exception("qk::grid::structured::centroid : Requested index out of range.");
     }
 #endif
-    return _xcs[dim][index];
+    return _xcs[dim][index-lower(dim)];
 }
 
 double
@@ -127,7 +127,7 @@ structured::dx(const int dim, const int index) const
         throw qk::exception("qk::grid::structured::dx : Requested index out of range.");
     }
 #endif
-    return _dxs[dim][index];
+    return _dxs[dim][index-lower(dim)];
 }
 
 void
-- 
2.43.0


From 000747ef1ba0dc12159247bb246d95b8e7e64fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:34 +0000
Subject: [PATCH 27/31] fix: dividing a range of more than 2^24 cells lost
 cells or divided unevenly

---
 src/lib/range_set.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/range_set.cpp b/src/lib/range_set.cpp
index a692457..bfc9146 100644
--- a/src/lib/range_set.cpp
+++ b/src/lib/range_set.cpp
@@ -31,7 +31,7 @@ range_set::setup(const qk::range &superRange, const int *numSubdivisions)
 
     int subRangeSizePerDivision[_num_dims];
     for(int i = 0; i < _num_dims; i++){
-        subRangeSizePerDivision[i] = int(std::ceil(float(superRange.length(i)) / float(numSubdivisions[i])));
+        subRangeSizePerDivision[i] = int(std::ceil(double(superRange.length(i)) / double(numSubdivisions[i])));
     }
 
     int lowers[_num_dims];
-- 
2.43.0


From 399ac9705311cd7d77f11c3c8910cceaf29c9888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:07 +0000
Subject: [PATCH 28/31] fix: a chunk whose resize ran out of memory could not
 be assigned any more

---
 src/data/datachunk.cpp | 12 ++++++++----
 src/lib/range.cpp      |  9 +++++++++
 src/lib/range.h        |  3 +++
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/data/datachunk.cpp b/src/data/datachunk.cpp
index 5ed06a3..aefd1b1 100644
--- a/src/data/datachunk.cpp
+++ b/src/data/datachunk.cpp
@@ -76,16 +76,20 @@ datachunk::write_VTK(std::ofstream & file, const qk::range & range) const
 void
 datachunk::resize(const qk::range & mesh_range, const qk::range & data_range)
 {
-    _mesh_range = mesh_range;
-    _data_range = data_range;
+    qk::range new_mesh_range(mesh_range);
+    qk::range new_data_range(data_range);
 
-    qk::range range = _mesh_range;
-    for(int i = 0; i < _data_range.num_dims(); ++i){
+    qk::range range(mesh_range);
+    for(int i = 0; i < data_range.num_dims(); ++i){
         range.extrude(data_range.lower(i), data_range.upper(i));
     }
 
     qk::indexer_interface<double>::resize(range);
 
+    // Only now: the ranges must describe the data even if there is no memory for the new one
+    _mesh_range.swap(new_mesh_range);
+    _data_range.swap(new_data_range);
+
 }
 
 void
diff --git a/src/lib/range.cpp b/src/lib/range.cpp
index 96adabe..a152813 100644
--- a/src/lib/range.cpp
+++ b/src/lib/range.cpp
@@ -162,6 +162,15 @@ range::operator=(const range & rng)
     return *this;
 }
 
+void
+range::swap(range & rng)
+{
+    std::swap(_num_dims, rng._num_dims);
+    _lower.swap(rng._lower);
+    _upper.swap(rng._upper);
+    _stride.swap(rng._stride);
+}
+
 }
 
 // rangeSet
diff --git a/src/lib/range.h b/src/lib/range.h
index 9892c5a..f525895 100644
--- a/src/lib/range.h
+++ b/src/lib/range.h
@@ -43,6 +43,9 @@ public:
 
     range & operator=(const range & range);
 
+    // Exchange contents with another range - this cannot fail
+    void swap(range & range);
+
     friend std::ostream &
     operator<<(std::ostream & os, const qk::range & range)
     {
-- 
2.43.0


From 057b0c81f7ec36a4afc178a2d26b00bc21e762a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:32 +0000
Subject: [PATCH 29/31] fix: a failed resize or assignment left a chunk with
 ghost layers without faces

---
 src/data/extended_datachunk.cpp | 78 ++++++++++++++++++++++-----------
 src/data/extended_datachunk.h   |  2 +
 2 files changed, 54 insertions(+), 26 deletions(-)

diff --git a/src/data/extended_datachunk.cpp b/src/data/extended_datachunk.cpp
index 1043a17..3231f51 100644
--- a/src/data/extended_datachunk.cpp
+++ b/src/data/extended_datachunk.cpp
@@ -24,53 +24,79 @@ extended_datachunk::~extended_datachunk()
     // Nothing to do - data array is cleared by indexer interface
 }
 
+extended_datachunk &
+extended_datachunk::operator=(const extended_datachunk & chunk)
+{
+    // Copies first: the ranges must describe the data even if there is no memory for the new one
+    qk::range internal_range(chunk._internal_range);
+    std::vector<qk::range> lower_internal_ranges(chunk._lower_internal_ranges);
+    std::vector<qk::range> lower_external_ranges(chunk._lower_external_ranges);
+    std::vector<qk::range> upper_internal_ranges(chunk._upper_internal_ranges);
+    std::vector<qk::range> upper_external_ranges(chunk._upper_external_ranges);
+
+    qk::data::datachunk::operator=(chunk);
+
+    _num_ghost_layers = chunk._num_ghost_layers;
+    _internal_range.swap(internal_range);
+    _lower_internal_ranges.swap(lower_internal_ranges);
+    _lower_external_ranges.swap(lower_external_ranges);
+    _upper_internal_ranges.swap(upper_internal_ranges);
+    _upper_external_ranges.swap(upper_external_ranges);
+
+    return *this;
+}
+
 void
 extended_datachunk::resize(const qk::range & mesh_range, const qk::range & data_range, const int num_ghost_layers)
 {
-    _num_ghost_layers = num_ghost_layers;
-
     qk::range extended_mesh_range = mesh_range;
     for(int i = 0; i < extended_mesh_range.num_dims(); i++){
-        extended_mesh_range.expand(i, -this->num_ghost_layers(), this->num_ghost_layers());
+        extended_mesh_range.expand(i, -num_ghost_layers, num_ghost_layers);
     }
 
-    qk::data::datachunk::resize(extended_mesh_range, data_range);
-
-    const qk::range & range = this->range();
-
     // While the interior range is what the dataset owns, the QKIndexInterface must contain ghost layers
+    // Everything is built first: the ranges must describe the data even if there is no memory for the new one
 
-    _internal_range = qk::range();
+    qk::range internal_range;
     for(int i = 0; i < mesh_range.num_dims(); i++){
-        _internal_range.extrude(mesh_range.lower(i), mesh_range.upper(i));
+        internal_range.extrude(mesh_range.lower(i), mesh_range.upper(i));
     }
     for(int i = 0; i < data_range.num_dims(); i++){
-        _internal_range.extrude(data_range.lower(i), data_range.upper(i));
+        internal_range.extrude(data_range.lower(i), data_range.upper(i));
     }
 
-    _lower_internal_ranges.clear();
-    _lower_external_ranges.clear();
-    _upper_internal_ranges.clear();
-    _upper_external_ranges.clear();
+    std::vector<qk::range> lower_internal_ranges;
+    std::vector<qk::range> lower_external_ranges;
+    std::vector<qk::range> upper_internal_ranges;
+    std::vector<qk::range> upper_external_ranges;
 
     for(int i = 0; i < extended_mesh_range.num_dims(); i++){
-        qk::range lower_external_range(_internal_range);
-        lower_external_range.set(i, lower_external_range.lower(i) - this->num_ghost_layers(), lower_external_range.lower(i));
-        _lower_external_ranges.push_back(lower_external_range);
+        qk::range lower_external_range(internal_range);
+        lower_external_range.set(i, lower_external_range.lower(i) - num_ghost_layers, lower_external_range.lower(i));
+        lower_external_ranges.push_back(lower_external_range);
 
-        qk::range lower_internal_range(_internal_range);
-        lower_internal_range.set(i, lower_internal_range.lower(i), lower_internal_range.lower(i) + this->num_ghost_layers());
-        _lower_internal_ranges.push_back(lower_internal_range);
+        qk::range lower_internal_range(internal_range);
+        lower_internal_range.set(i, lower_internal_range.lower(i), lower_internal_range.lower(i) + num_ghost_layers);
+        lower_internal_ranges.push_back(lower_internal_range);
 
-        qk::range upper_internal_range(_internal_range);
-        upper_internal_range.set(i, upper_internal_range.upper(i) - this->num_ghost_layers(), upper_internal_range.upper(i));
-        _upper_internal_ranges.push_back(upper_internal_range);
+        qk::range upper_internal_range(internal_range);
+        upper_internal_range.set(i, upper_internal_range.upper(i) - num_ghost_layers, upper_internal_range.upper(i));
+        upper_internal_ranges.push_back(upper_internal_range);
 
-        qk::range upper_external_range(_internal_range);
-        upper_external_range.set(i, upper_external_range.upper(i), upper_external_range.upper(i) + this->num_ghost_layers());
-        _upper_external_ranges.push_back(upper_external_range);
+        qk::range upper_external_range(internal_range);
+        upper_external_range.set(i, upper_external_range.upper(i), upper_external_range.upper(i) + num_ghost_layers);
+        upper_external_ranges.push_back(upper_external_range);
     }
 
+    qk::data::datachunk::resize(extended_mesh_range, data_range);
+
+    _num_ghost_layers = num_ghost_layers;
+    _internal_range.swap(internal_range);
+    _lower_internal_ranges.swap(lower_internal_ranges);
+    _lower_external_ranges.swap(lower_external_ranges);
+    _upper_internal_ranges.swap(upper_internal_ranges);
+    _upper_external_ranges.swap(upper_external_ranges);
+
 }
 
 void
diff --git a/src/data/extended_datachunk.h b/src/data/extended_datachunk.h
index d63d1a1..bbbf2ad 100644
--- a/src/data/extended_datachunk.h
+++ b/src/data/extended_datachunk.h
@@ -22,6 +22,8 @@ public:
     extended_datachunk();
     ~extended_datachunk();
 
+    extended_datachunk & operator=(const extended_datachunk & chunk);
+
     void resize(const qk::range & mesh_range, const qk::range & data_range, const int num_ghost_layers=2);
 
     void
-- 
2.43.0


From 0f5c00c98c7315466b5577cf537725354540b450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:03 +0000
Subject: [PATCH 30/31] fix: a grid whose assignment ran out of memory mixed
 two grids

---
 src/grid/grid.cpp        | 15 +++++++++++++++
 src/grid/grid.h          |  2 ++
 src/grid/rectilinear.cpp |  9 +++++++++
 src/grid/rectilinear.h   |  2 ++
 src/grid/structured.cpp  | 11 +++++++++++
 src/grid/structured.h    |  2 ++
 6 files changed, 41 insertions(+)

diff --git a/src/grid/grid.cpp b/src/grid/grid.cpp
index 0bccd98..3ffc59b 100644
--- a/src/grid/grid.cpp
+++ b/src/grid/grid.cpp
@@ -31,6 +31,21 @@ grid::~grid()
 
 }
 
+grid &
+grid::operator=(const grid & other)
+{
+    // Copies first: extents and cells must belong together even if there is no memory for the new ones
+    qk::range range(other);
+    std::vector<double> startxs(other._startxs);
+    std::vector<double> widths(other._widths);
+
+    qk::range::swap(range);
+    _startxs.swap(startxs);
+    _widths.swap(widths);
+
+    return *this;
+}
+
 void
 grid::setup(const qk::range & range, const double *startxs, const double *widths)
 {
diff --git a/src/grid/grid.h b/src/grid/grid.h
index 3973e80..6cff67f 100644
--- a/src/grid/grid.h
+++ b/src/grid/grid.h
@@ -24,6 +24,8 @@ public:
 
     virtual ~grid();
 
+    grid & operator=(const grid & other);
+
     virtual void xc(const qk::indexer & idx, double * x) const = 0;
 
     virtual double start(const int dim) const;
diff --git a/src/grid/rectilinear.cpp b/src/grid/rectilinear.cpp
index 56156c7..96bb4e0 100644
--- a/src/grid/rectilinear.cpp
+++ b/src/grid/rectilinear.cpp
@@ -35,6 +35,15 @@ rectilinear::~rectilinear()
 
 }
 
+rectilinear &
+rectilinear::operator=(const rectilinear & other)
+{
+    std::vector<double> dxs(other._dxs);
+    qk::grid::grid::operator=(other);
+    _dxs.swap(dxs);
+    return *this;
+}
+
 void
 rectilinear::write_vtk(std::ofstream & file, const qk::basis::basis & basis) const
 {
diff --git a/src/grid/rectilinear.h b/src/grid/rectilinear.h
index 103bbba..35f6d94 100644
--- a/src/grid/rectilinear.h
+++ b/src/grid/rectilinear.h
@@ -19,6 +19,8 @@ public:
 
     ~rectilinear();
 
+    rectilinear & operator=(const rectilinear & other);
+
     void xc(const qk::indexer & idx, double * x) const;
 
     double centroid(const int dim, const int index) const;
diff --git a/src/grid/structured.cpp b/src/grid/structured.cpp
index 34946c9..cfbcf45 100644
--- a/src/grid/structured.cpp
+++ b/src/grid/structured.cpp
@@ -40,6 +40,17 @@ structured::~structured()
 
 }
 
+structured &
+structured::operator=(const structured & other)
+{
+    std::vector<std::vector<double> > dxs(other._dxs);
+    std::vector<std::vector<double> > xcs(other._xcs);
+    qk::grid::grid::operator=(other);
+    _dxs.swap(dxs);
+    _xcs.swap(xcs);
+    return *this;
+}
+
 void
 structured::bias_array(double * dxs, const int size, const double pow)
 {
diff --git a/src/grid/structured.h b/src/grid/structured.h
index 26d9400..21cfb99 100644
--- a/src/grid/structured.h
+++ b/src/grid/structured.h
@@ -19,6 +19,8 @@ public:
 
     ~structured();
 
+    structured & operator=(const structured & other);
+
     void apply_bias_symmetric(const int dim, const double pow);
     void apply_bias_linear(const int dim, const double pow);
 
-- 
2.43.0


From 933fb6d736fe7c754593ed50afe7d8b250a73a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:42 +0000
Subject: [PATCH 31/31] fix: an assignment without memory for its copy left a
 chunk with ghost layers without faces

---
 src/data/datachunk.h            | 4 +++-
 src/data/extended_datachunk.cpp | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/data/datachunk.h b/src/data/datachunk.h
index 332b918..1240845 100644
--- a/src/data/datachunk.h
+++ b/src/data/datachunk.h
@@ -30,11 +30,13 @@ public:
     void
     multiply_by_scalar(const qk::range & rng, const double scalar);
 
-private:
+protected:
 
     qk::range _mesh_range;
     qk::range _data_range;
 
+private:
+
     using qk::indexer_interface<double>::resize;
 
 };
diff --git a/src/data/extended_datachunk.cpp b/src/data/extended_datachunk.cpp
index 3231f51..425899b 100644
--- a/src/data/extended_datachunk.cpp
+++ b/src/data/extended_datachunk.cpp
@@ -34,7 +34,7 @@ extended_datachunk::operator=(const extended_datachunk & chunk)
     std::vector<qk::range> upper_internal_ranges(chunk._upper_internal_ranges);
     std::vector<qk::range> upper_external_ranges(chunk._upper_external_ranges);
 
-    qk::data::datachunk::operator=(chunk);
+    qk::data::datachunk::resize(chunk._mesh_range, chunk._data_range);
 
     _num_ghost_layers = chunk._num_ghost_layers;
     _internal_range.swap(internal_range);
@@ -43,6 +43,9 @@ extended_datachunk::operator=(const extended_datachunk & chunk)
     _upper_internal_ranges.swap(upper_internal_ranges);
     _upper_external_ranges.swap(upper_external_ranges);
 
+    // Last: there may be no memory for the indexers of the copy either
+    pull(chunk);
+
     return *this;
 }
 
-- 
2.43.0

