From 4440422c69799fdf851c29671b6c93ee7e7c9a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:00 +0000
Subject: [PATCH 1/9] fix: take the number of lines to skip from its own
 argument

ezip converted the name of the uncertainty file instead of argv[3].
---
 src/main/cxx/apps/ezip.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cxx/apps/ezip.cxx b/src/main/cxx/apps/ezip.cxx
index 1b09c7f..07be4c6 100644
--- a/src/main/cxx/apps/ezip.cxx
+++ b/src/main/cxx/apps/ezip.cxx
@@ -66,7 +66,7 @@ main (int argc, char *argv[])
 
       if (argc == 4)
         {
-          skip = especia::convert<natural> (string (argv[2]));
+          skip = especia::convert<natural> (string (argv[3]));
         }
 
       valarray<real> x;
-- 
2.43.0


From 737a62c6344c5a2d22c236788cdd5b6c5ab98e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:00 +0000
Subject: [PATCH 2/9] fix: keep the optional third column aligned with its rows

A row without third column shifted all later values to earlier rows.
---
 src/main/cxx/core/dataio.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/cxx/core/dataio.cxx b/src/main/cxx/core/dataio.cxx
index 4612c72..ec13aa5 100644
--- a/src/main/cxx/core/dataio.cxx
+++ b/src/main/cxx/core/dataio.cxx
@@ -101,6 +101,8 @@ especia::get (istream &is, valarray<real> &x, valarray<real> &y,
               v.push_back (b);
               if (ist >> c)
                 w.push_back (c);
+              else
+                w.push_back (0.0); // keeps the columns aligned
 
               ++n;
             }
-- 
2.43.0


From fa7f4722d894da5d2011cd678cbc9defdd180f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:17 +0000
Subject: [PATCH 3/9] fix: deliver exceptions of concurrent evaluations to the
 caller

An objective that threw (e.g. a singular continuum) terminated the process.
---
 src/main/cxx/core/optimize.h | 89 ++++++++++++++++++++++++++++++++----
 1 file changed, 79 insertions(+), 10 deletions(-)

diff --git a/src/main/cxx/core/optimize.h b/src/main/cxx/core/optimize.h
index 3334019..e212934 100644
--- a/src/main/cxx/core/optimize.h
+++ b/src/main/cxx/core/optimize.h
@@ -8,6 +8,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <exception>
 #include <limits>
 #include <thread>
 #include <valarray>
@@ -121,9 +122,12 @@ optimize (const F &f, const Constraint &constraint, natural n,
           const Compare &compare, const Tracing &tracer)
 {
   using std::accumulate;
+  using std::current_exception;
+  using std::exception_ptr;
   using std::exp;
   using std::numeric_limits;
   using std::partial_sort;
+  using std::rethrow_exception;
   using std::sqrt;
   using std::thread;
   using std::valarray;
@@ -174,11 +178,20 @@ optimize (const F &f, const Constraint &constraint, natural n,
               vw = v[k];
             }
         }
+      // An exception must not leave a thread, the first one is rethrown below
+      vector<exception_ptr> errors (population_size);
 #ifdef _OPENMP
 #pragma omp parallel for
       for (natural k = 0; k < population_size; ++k)
         {
-          y[k] = f (&x[k][0], n) + constraint.cost (&x[k][0], n);
+          try
+            {
+              y[k] = f (&x[k][0], n) + constraint.cost (&x[k][0], n);
+            }
+          catch (...)
+            {
+              errors[k] = current_exception ();
+            }
           indexes[k] = k;
         }
 #else // C++-11
@@ -186,9 +199,17 @@ optimize (const F &f, const Constraint &constraint, natural n,
       threads.reserve (population_size);
       for (natural k = 0; k < population_size; ++k)
         {
-          threads.push_back (thread ([k, &f, &constraint, &x, n, &y] () {
-            y[k] = f (&x[k][0], n) + constraint.cost (&x[k][0], n);
-          }));
+          threads.push_back (
+              thread ([k, &f, &constraint, &x, n, &y, &errors] () {
+                try
+                  {
+                    y[k] = f (&x[k][0], n) + constraint.cost (&x[k][0], n);
+                  }
+                catch (...)
+                  {
+                    errors[k] = current_exception ();
+                  }
+              }));
         }
       for (natural k = 0; k < population_size; ++k)
         {
@@ -196,6 +217,13 @@ optimize (const F &f, const Constraint &constraint, natural n,
           indexes[k] = k;
         }
 #endif
+      for (natural k = 0; k < population_size; ++k)
+        {
+          if (errors[k])
+            {
+              rethrow_exception (errors[k]);
+            }
+        }
       partial_sort (&indexes[0], &indexes[parent_number],
                     &indexes[population_size],
                     Index_Compare<real, Compare> (y, compare));
@@ -323,8 +351,11 @@ postopti (const F &f, const Constraint &constraint, natural n, const real x[],
           real z[])
 {
   using std::abs;
+  using std::current_exception;
+  using std::exception_ptr;
   using std::exp;
   using std::log;
+  using std::rethrow_exception;
   using std::sqrt;
   using std::thread;
   using std::valarray;
@@ -351,27 +382,65 @@ postopti (const F &f, const Constraint &constraint, natural n, const real x[],
             }
           real zp;
           real zq;
+          exception_ptr ep;
+          exception_ptr eq;
 #ifdef _OPENMP
 #pragma omp parallel
           {
 #pragma omp sections
             {
 #pragma omp section
-              zp = f (&p[0], n) + constraint.cost (&p[0], n);
+              try
+                {
+                  zp = f (&p[0], n) + constraint.cost (&p[0], n);
+                }
+              catch (...)
+                {
+                  ep = current_exception ();
+                }
 #pragma omp section
-              zq = f (&q[0], n) + constraint.cost (&q[0], n);
+              try
+                {
+                  zq = f (&q[0], n) + constraint.cost (&q[0], n);
+                }
+              catch (...)
+                {
+                  eq = current_exception ();
+                }
             }
           }
 #else // C++-11
-          thread tp ([&f, &constraint, &p, n, &zp] () {
-            zp = f (&p[0], n) + constraint.cost (&p[0], n);
+          thread tp ([&f, &constraint, &p, n, &zp, &ep] () {
+            try
+              {
+                zp = f (&p[0], n) + constraint.cost (&p[0], n);
+              }
+            catch (...)
+              {
+                ep = current_exception ();
+              }
           });
-          thread tq ([&f, &constraint, &q, n, &zq] () {
-            zq = f (&q[0], n) + constraint.cost (&q[0], n);
+          thread tq ([&f, &constraint, &q, n, &zq, &eq] () {
+            try
+              {
+                zq = f (&q[0], n) + constraint.cost (&q[0], n);
+              }
+            catch (...)
+              {
+                eq = current_exception ();
+              }
           });
           tp.join ();
           tq.join ();
 #endif
+          if (ep)
+            {
+              rethrow_exception (ep);
+            }
+          if (eq)
+            {
+              rethrow_exception (eq);
+            }
           // Compute the rescaled global step size
           g[j] = c / sqrt (abs ((zp + zq) - (zx + zx)));
 
-- 
2.43.0


From 3dca5469f5bf3fb015b8870d09af5a1230816d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:41 +0000
Subject: [PATCH 4/9] fix: join evaluation threads when another one cannot be
 started

Destroying a joinable thread terminated the process.
---
 src/main/cxx/core/optimize.h | 65 ++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 22 deletions(-)

diff --git a/src/main/cxx/core/optimize.h b/src/main/cxx/core/optimize.h
index e212934..b329518 100644
--- a/src/main/cxx/core/optimize.h
+++ b/src/main/cxx/core/optimize.h
@@ -197,19 +197,31 @@ optimize (const F &f, const Constraint &constraint, natural n,
 #else // C++-11
       vector<thread> threads;
       threads.reserve (population_size);
-      for (natural k = 0; k < population_size; ++k)
+      try
         {
-          threads.push_back (
-              thread ([k, &f, &constraint, &x, n, &y, &errors] () {
-                try
-                  {
-                    y[k] = f (&x[k][0], n) + constraint.cost (&x[k][0], n);
-                  }
-                catch (...)
-                  {
-                    errors[k] = current_exception ();
-                  }
-              }));
+          for (natural k = 0; k < population_size; ++k)
+            {
+              threads.push_back (
+                  thread ([k, &f, &constraint, &x, n, &y, &errors] () {
+                    try
+                      {
+                        y[k] = f (&x[k][0], n) + constraint.cost (&x[k][0], n);
+                      }
+                    catch (...)
+                      {
+                        errors[k] = current_exception ();
+                      }
+                  }));
+            }
+        }
+      catch (...)
+        {
+          // A thread could not be started, the others must not outlive it
+          for (natural k = 0; k < threads.size (); ++k)
+            {
+              threads[k].join ();
+            }
+          throw;
         }
       for (natural k = 0; k < population_size; ++k)
         {
@@ -420,16 +432,25 @@ postopti (const F &f, const Constraint &constraint, natural n, const real x[],
                 ep = current_exception ();
               }
           });
-          thread tq ([&f, &constraint, &q, n, &zq, &eq] () {
-            try
-              {
-                zq = f (&q[0], n) + constraint.cost (&q[0], n);
-              }
-            catch (...)
-              {
-                eq = current_exception ();
-              }
-          });
+          thread tq;
+          try
+            {
+              tq = thread ([&f, &constraint, &q, n, &zq, &eq] () {
+                try
+                  {
+                    zq = f (&q[0], n) + constraint.cost (&q[0], n);
+                  }
+                catch (...)
+                  {
+                    eq = current_exception ();
+                  }
+              });
+            }
+          catch (...)
+            {
+              tp.join ();
+              throw;
+            }
           tp.join ();
           tq.join ();
 #endif
-- 
2.43.0


From 3f3078039c38dcbd11eee2374e62bacecffb1f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:41 +0000
Subject: [PATCH 5/9] fix: honour the markers passed to Model::parse()

The arguments were accepted and ignored.
---
 src/main/cxx/core/model.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index c714935..ba60e2d 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -105,7 +105,7 @@ public:
     using std::runtime_error;
 
     Model<Function> model;
-    model.get (is, os);
+    model.get (is, os, comment_mark, begin_of_section, end_of_section);
 
     if (is.fail ())
       {
-- 
2.43.0


From 120f75354e9bf0bf75b4da5f661900c7357a3896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:41 +0000
Subject: [PATCH 6/9] fix: refuse circular references in a model definition

A cycle that did not include the referring parameter was followed forever.
---
 src/main/cxx/core/model.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index ba60e2d..993d3bd 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -657,9 +657,17 @@ private:
              i != section_name_map.end (); ++i)
           {
             const natural j = isc[i->second];
+            size_t hops = 0;
 
             while (!ref[j].empty ())
               {
+                if (hops++ > section_name_map.size ())
+                  {
+                    is.setstate (ios_base::failbit);
+                    cerr << errmsg << ref[j] << srfmsg << endl;
+
+                    return is;
+                  }
                 if (section_name_map.find (ref[j]) != section_name_map.end ())
                   {
                     const natural k = isc[section_name_map[ref[j]]];
@@ -702,9 +710,17 @@ private:
           for (natural j = 0; j < Function::parameter_count (); ++j)
             {
               const natural k = i->second + j;
+              size_t hops = 0;
 
               while (!ref[k].empty ())
                 {
+                  if (hops++ > profile_name_map.size ())
+                    {
+                      is.setstate (ios_base::failbit);
+                      cerr << errmsg << ref[k] << srfmsg << endl;
+
+                      return is;
+                    }
                   if (profile_name_map.find (ref[k])
                       != profile_name_map.end ())
                     {
-- 
2.43.0


From ae76cf55f0c4c86ed7342cc317f57ee999b955d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:06 +0000
Subject: [PATCH 7/9] fix: refuse model definitions without or with
 unterminated sections

An empty definition was accessed out of bounds, an unterminated section was
silently dropped.
---
 src/main/cxx/core/model.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index 993d3bd..0f04872 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -632,6 +632,21 @@ private:
               return is;
             }
         }
+      else if (line.find (begin_of_section) != string::npos)
+        {
+          is.setstate (ios_base::badbit | ios_base::failbit);
+          cerr << errmsg << synmsg << endl;
+
+          return is;
+        }
+
+    if (sections.empty ())
+      {
+        is.setstate (ios_base::badbit | ios_base::failbit);
+        cerr << errmsg << synmsg << endl;
+
+        return is;
+      }
 
     if (!st.bad () and st.eof ())
       {
-- 
2.43.0


From f759293eeb048704b8fcc8ce4eda0c349d80a1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:06 +0000
Subject: [PATCH 8/9] fix: refuse optimizer settings that lead to accesses out
 of bounds

No parents, a population not larger than the number of parents, or vectors
shorter than the problem dimension were read and written beyond their ends.
---
 src/main/cxx/core/optimizer.cxx | 15 +++++++++++++++
 src/main/cxx/core/optimizer.h   |  8 ++++++++
 2 files changed, 23 insertions(+)

diff --git a/src/main/cxx/core/optimizer.cxx b/src/main/cxx/core/optimizer.cxx
index 56e12fb..6e413cf 100644
--- a/src/main/cxx/core/optimizer.cxx
+++ b/src/main/cxx/core/optimizer.cxx
@@ -4,6 +4,7 @@
 /// @date 2024
 /// @copyright MIT License
 #include <cmath>
+#include <stdexcept>
 
 #include "optimizer.h"
 
@@ -93,6 +94,20 @@ especia::Optimizer::Builder::with_stop_generation (natural stop_generation)
 especia::Optimizer
 especia::Optimizer::Builder::build ()
 {
+  using std::invalid_argument;
+
+  if (n == 0 or parent_number == 0 or update_modulus == 0)
+    {
+      throw invalid_argument ("especia::Optimizer::Builder::build() Error: "
+                              "an invalid setting was supplied");
+    }
+  if (population_size / 2 < parent_number)
+    {
+      throw invalid_argument ("especia::Optimizer::Builder::build() Error: "
+                              "the population size is less than twice the "
+                              "parent number");
+    }
+
   return Optimizer (*this);
 }
 
diff --git a/src/main/cxx/core/optimizer.h b/src/main/cxx/core/optimizer.h
index ae0ff4e..9648091 100644
--- a/src/main/cxx/core/optimizer.h
+++ b/src/main/cxx/core/optimizer.h
@@ -8,6 +8,7 @@
 
 #include <cstddef>
 #include <functional>
+#include <stdexcept>
 
 #include "decompose.h"
 #include "deviates.h"
@@ -724,6 +725,13 @@ private:
 
     const natural n = config.get_problem_dimension ();
 
+    if (x.size () != n or d.size () != n)
+      {
+        throw std::invalid_argument (
+            "especia::Optimizer::optimize() Error: the number of initial "
+            "values or step sizes does not match the problem dimension");
+      }
+
     Result result (n, x, d, s);
 
     optimize (
-- 
2.43.0


From dafe773294e8e58496028abdc4b427f74aa95112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:31 +0000
Subject: [PATCH 9/9] fix: free the parts of an integral when the integrand
 throws

---
 src/main/cxx/core/integrator.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/main/cxx/core/integrator.h b/src/main/cxx/core/integrator.h
index 886dbdf..97f89cf 100644
--- a/src/main/cxx/core/integrator.h
+++ b/src/main/cxx/core/integrator.h
@@ -8,6 +8,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <memory>
 #include <valarray>
 #include <vector>
 
@@ -211,7 +212,7 @@ private:
     Part *
     new_lower_part () const
     {
-      auto *part = new Part (this, a, c);
+      std::unique_ptr<Part> part (new Part (this, a, c));
 
       part->yu[0] = yl[2];
       part->yu[1] = yl[7];
@@ -260,7 +261,7 @@ private:
 
       part->evaluate ();
 
-      return part;
+      return part.release ();
     }
 
     /// Creates a new part from the upper half of this part.
@@ -269,7 +270,7 @@ private:
     Part *
     new_upper_part () const
     {
-      auto *part = new Part (this, c, b);
+      std::unique_ptr<Part> part (new Part (this, c, b));
 
       part->yl[0] = yu[2];
       part->yl[1] = yu[7];
@@ -318,7 +319,7 @@ private:
 
       part->evaluate ();
 
-      return part;
+      return part.release ();
     }
 
   private:
@@ -514,11 +515,9 @@ private:
     void
     refine ()
     {
-      P *popped = pop_part ();
+      const std::unique_ptr<P> popped (pop_part ());
       add_part (popped->new_lower_part ());
       add_part (popped->new_upper_part ());
-
-      delete popped;
     }
 
   private:
@@ -547,7 +546,9 @@ private:
     {
       using std::push_heap;
 
+      std::unique_ptr<P> owner (part);
       parts.push_back (part);
+      owner.release ();
       push_heap (parts.begin (), parts.end (), part_compare);
     }
 
-- 
2.43.0

