From 2745441a741b2b7ac57acb3438d0be6bb1530ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 01/11] fix: ezip takes the number of lines to skip from the
 third argument

---
 src/main/cxx/apps/ezip.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cxx/apps/ezip.cxx b/src/main/cxx/apps/ezip.cxx
index 1b09c7f..07be4c6 100644
--- a/src/main/cxx/apps/ezip.cxx
+++ b/src/main/cxx/apps/ezip.cxx
@@ -66,7 +66,7 @@ main (int argc, char *argv[])
 
       if (argc == 4)
         {
-          skip = especia::convert<natural> (string (argv[2]));
+          skip = especia::convert<natural> (string (argv[3]));
         }
 
       valarray<real> x;
-- 
2.43.0


From 720037d2b990181e9a45697981a17c5783ca1472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:45 +0000
Subject: [PATCH 02/11] fix: keep the uncertainty column aligned when a row has
 no third value

---
 src/main/cxx/core/dataio.cxx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/main/cxx/core/dataio.cxx b/src/main/cxx/core/dataio.cxx
index 4612c72..267af79 100644
--- a/src/main/cxx/core/dataio.cxx
+++ b/src/main/cxx/core/dataio.cxx
@@ -99,8 +99,7 @@ especia::get (istream &is, valarray<real> &x, valarray<real> &y,
             {
               u.push_back (a);
               v.push_back (b);
-              if (ist >> c)
-                w.push_back (c);
+              w.push_back (ist >> c ? c : real (0.0));
 
               ++n;
             }
-- 
2.43.0


From 3ffbccafa78e870bc336aa1310bac80f2368575f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:10 +0000
Subject: [PATCH 03/11] fix: write an empty list of sections without reading
 beyond its end

---
 src/main/cxx/core/section.cxx | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/main/cxx/core/section.cxx b/src/main/cxx/core/section.cxx
index fc6f667..7152b49 100644
--- a/src/main/cxx/core/section.cxx
+++ b/src/main/cxx/core/section.cxx
@@ -403,13 +403,14 @@ especia::operator>> (std::istream &is, std::vector<Section> &sections)
 std::ostream &
 especia::operator<< (std::ostream &os, const std::vector<Section> &sections)
 {
-  size_t i;
-
-  for (i = 0; i + 1 < sections.size (); ++i)
+  for (size_t i = 0; i < sections.size (); ++i)
     {
-      os << sections[i] << '\n';
+      if (i > 0)
+        {
+          os << '\n';
+        }
+      os << sections[i];
     }
-  os << sections[i];
 
   return os;
 }
-- 
2.43.0


From 28ec733fccdd6c84f41e5d696a2132457fcc55ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:22 +0000
Subject: [PATCH 04/11] fix: report cyclic parameter references instead of
 following them forever

---
 src/main/cxx/core/model.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index c714935..7b803f2 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -657,6 +657,8 @@ private:
              i != section_name_map.end (); ++i)
           {
             const natural j = isc[i->second];
+            // A chain of references longer than this is a cycle.
+            size_t links = section_name_map.size ();
 
             while (!ref[j].empty ())
               {
@@ -664,7 +666,7 @@ private:
                   {
                     const natural k = isc[section_name_map[ref[j]]];
 
-                    if (j != k)
+                    if (j != k and links-- > 0)
                       {
                         if (ref[k].empty ())
                           {
@@ -702,6 +704,8 @@ private:
           for (natural j = 0; j < Function::parameter_count (); ++j)
             {
               const natural k = i->second + j;
+              // A chain of references longer than this is a cycle.
+              size_t links = profile_name_map.size ();
 
               while (!ref[k].empty ())
                 {
@@ -710,7 +714,7 @@ private:
                     {
                       const natural l = profile_name_map[ref[k]] + j;
 
-                      if (k != l)
+                      if (k != l and links-- > 0)
                         {
                           if (ref[l].empty ())
                             {
-- 
2.43.0


From 20c844242c33d71e303307a0d66d693f2795b3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:22 +0000
Subject: [PATCH 05/11] fix: parse model definitions with the marks passed to
 Model::parse()

---
 src/main/cxx/core/model.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index 7b803f2..e89b88b 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -105,7 +105,7 @@ public:
     using std::runtime_error;
 
     Model<Function> model;
-    model.get (is, os);
+    model.get (is, os, comment_mark, begin_of_section, end_of_section);
 
     if (is.fail ())
       {
-- 
2.43.0


From d7cd48c3ec623e33d21beb3bc1a2a85f75822497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:22 +0000
Subject: [PATCH 06/11] fix: name the offending line reference in the error
 message

---
 src/main/cxx/core/model.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index e89b88b..3b7251e 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -731,7 +731,7 @@ private:
                       else
                         {
                           is.setstate (ios_base::failbit);
-                          cerr << errmsg << ref[j] << srfmsg << endl;
+                          cerr << errmsg << ref[k] << srfmsg << endl;
 
                           return is;
                         }
@@ -739,7 +739,7 @@ private:
                   else
                     {
                       is.setstate (ios_base::failbit);
-                      cerr << errmsg << ref[j] << rnfmsg << endl;
+                      cerr << errmsg << ref[k] << rnfmsg << endl;
 
                       return is;
                     }
-- 
2.43.0


From 5065b6a0b1f62ef845bdb401aeb559d1d0fc2dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:41 +0000
Subject: [PATCH 07/11] fix: report a model section that is not closed instead
 of ignoring it

---
 src/main/cxx/core/model.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index 3b7251e..1969693 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -632,6 +632,14 @@ private:
               return is;
             }
         }
+      else if (line.find (begin_of_section) != string::npos)
+        {
+          // The last section is not closed
+          is.setstate (ios_base::badbit | ios_base::failbit);
+          cerr << errmsg << synmsg << endl;
+
+          return is;
+        }
 
     if (!st.bad () and st.eof ())
       {
-- 
2.43.0


From 48ec0e756352b6e8790f665e96bcb5b320902ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:41 +0000
Subject: [PATCH 08/11] fix: reject a model definition without any section

---
 src/main/cxx/core/model.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/cxx/core/model.h b/src/main/cxx/core/model.h
index 1969693..530d272 100644
--- a/src/main/cxx/core/model.h
+++ b/src/main/cxx/core/model.h
@@ -641,6 +641,14 @@ private:
           return is;
         }
 
+    if (sections.empty ())
+      {
+        is.setstate (ios_base::badbit | ios_base::failbit);
+        cerr << errmsg << synmsg << endl;
+
+        return is;
+      }
+
     if (!st.bad () and st.eof ())
       {
         // Index unique parameters
-- 
2.43.0


From 05526bcf5185c809f92b6a9ccb6c827d4875dd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:55 +0000
Subject: [PATCH 09/11] =?UTF-8?q?fix:=20return=20the=20rank-1=20and=20rank?=
 =?UTF-8?q?-=C2=B5=20covariance=20matrix=20adaption=20rates=20under=20thei?=
 =?UTF-8?q?r=20own=20names?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The builder returned the rank-µ rate as the rank-1 rate and vice versa. The
optimizer itself used the rates correctly.
---
 src/main/cxx/core/optimize.h  |  4 ++--
 src/main/cxx/core/optimizer.h | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/main/cxx/core/optimize.h b/src/main/cxx/core/optimize.h
index 3334019..9cc7f69 100644
--- a/src/main/cxx/core/optimize.h
+++ b/src/main/cxx/core/optimize.h
@@ -86,8 +86,8 @@ private:
 /// @param[in] step_size_damping The step size damping.
 /// @param[in] cs The step size cumulation rate.
 /// @param[in] cc The distribution cumulation rate.
-/// @param[in] ccov The rank-1 covariance matrix adaption rate.
-/// @param[in] acov The rank-µ covariance matrix adaption rate.
+/// @param[in] ccov The rank-µ covariance matrix adaption rate.
+/// @param[in] acov The rank-1 covariance matrix adaption rate.
 /// @param[in] update_modulus The covariance matrix update modulus.
 /// @param[in] accuracy_goal The accuracy goal.
 /// @param[in] stop_generation The stop generation.
diff --git a/src/main/cxx/core/optimizer.h b/src/main/cxx/core/optimizer.h
index ae0ff4e..1e0c4ff 100644
--- a/src/main/cxx/core/optimizer.h
+++ b/src/main/cxx/core/optimizer.h
@@ -214,7 +214,7 @@ public:
     real
     get_rank_1_covariance_matrix_adaption_rate () const
     {
-      return ccov;
+      return acov;
     }
 
     /// Returns the rank-µ covariance matrix adaption rate.
@@ -223,7 +223,7 @@ public:
     real
     get_rank_m_covariance_matrix_adaption_rate () const
     {
-      return acov;
+      return ccov;
     }
 
     /// Returns the step size damping.
@@ -334,10 +334,10 @@ public:
     /// The distribution cumulation rate.
     real cc;
 
-    /// The rank-µ covariance matrix adaption rate.
+    /// The rank-1 covariance matrix adaption rate.
     real acov;
 
-    /// The rank-1 covariance matrix adaption rate.
+    /// The rank-µ covariance matrix adaption rate.
     real ccov;
 
     /// The step size damping.
@@ -732,8 +732,8 @@ private:
         config.get_step_size_damping (),
         config.get_step_size_cumulation_rate (),
         config.get_distribution_cumulation_rate (),
-        config.get_rank_1_covariance_matrix_adaption_rate (),
         config.get_rank_m_covariance_matrix_adaption_rate (),
+        config.get_rank_1_covariance_matrix_adaption_rate (),
         config.get_covariance_update_modulus (), config.get_accuracy_goal (),
         config.get_stop_generation (), result.__generation_number (),
         result.get_parameter_values_pointer (), result.__global_step_size (),
-- 
2.43.0


From 0cf92b105aa47cff648225f2c02fb2975a8ada32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:48 +0000
Subject: [PATCH 10/11] fix: hand an exception thrown by an evaluation over to
 the thread that optimizes

An exception leaving the function of a std::thread terminates the process,
instead of being reported with the runtime error exit code.
---
 src/main/cxx/core/optimize.h | 87 ++++++++++++++++++++++++++++++++----
 1 file changed, 78 insertions(+), 9 deletions(-)

diff --git a/src/main/cxx/core/optimize.h b/src/main/cxx/core/optimize.h
index 9cc7f69..56ea083 100644
--- a/src/main/cxx/core/optimize.h
+++ b/src/main/cxx/core/optimize.h
@@ -8,6 +8,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <exception>
 #include <limits>
 #include <thread>
 #include <valarray>
@@ -121,9 +122,12 @@ optimize (const F &f, const Constraint &constraint, natural n,
           const Compare &compare, const Tracing &tracer)
 {
   using std::accumulate;
+  using std::current_exception;
+  using std::exception_ptr;
   using std::exp;
   using std::numeric_limits;
   using std::partial_sort;
+  using std::rethrow_exception;
   using std::sqrt;
   using std::thread;
   using std::valarray;
@@ -174,11 +178,20 @@ optimize (const F &f, const Constraint &constraint, natural n,
               vw = v[k];
             }
         }
+      // An exception must not leave the thread it is thrown in
+      vector<exception_ptr> errors (population_size);
 #ifdef _OPENMP
 #pragma omp parallel for
       for (natural k = 0; k < population_size; ++k)
         {
-          y[k] = f (&x[k][0], n) + constraint.cost (&x[k][0], n);
+          try
+            {
+              y[k] = f (&x[k][0], n) + constraint.cost (&x[k][0], n);
+            }
+          catch (...)
+            {
+              errors[k] = current_exception ();
+            }
           indexes[k] = k;
         }
 #else // C++-11
@@ -186,8 +199,15 @@ optimize (const F &f, const Constraint &constraint, natural n,
       threads.reserve (population_size);
       for (natural k = 0; k < population_size; ++k)
         {
-          threads.push_back (thread ([k, &f, &constraint, &x, n, &y] () {
-            y[k] = f (&x[k][0], n) + constraint.cost (&x[k][0], n);
+          threads.push_back (thread ([k, &f, &constraint, &x, n, &y, &errors] () {
+            try
+              {
+                y[k] = f (&x[k][0], n) + constraint.cost (&x[k][0], n);
+              }
+            catch (...)
+              {
+                errors[k] = current_exception ();
+              }
           }));
         }
       for (natural k = 0; k < population_size; ++k)
@@ -196,6 +216,13 @@ optimize (const F &f, const Constraint &constraint, natural n,
           indexes[k] = k;
         }
 #endif
+      for (natural k = 0; k < population_size; ++k)
+        {
+          if (errors[k])
+            {
+              rethrow_exception (errors[k]);
+            }
+        }
       partial_sort (&indexes[0], &indexes[parent_number],
                     &indexes[population_size],
                     Index_Compare<real, Compare> (y, compare));
@@ -323,8 +350,11 @@ postopti (const F &f, const Constraint &constraint, natural n, const real x[],
           real z[])
 {
   using std::abs;
+  using std::current_exception;
+  using std::exception_ptr;
   using std::exp;
   using std::log;
+  using std::rethrow_exception;
   using std::sqrt;
   using std::thread;
   using std::valarray;
@@ -351,27 +381,66 @@ postopti (const F &f, const Constraint &constraint, natural n, const real x[],
             }
           real zp;
           real zq;
+          // An exception must not leave the thread it is thrown in
+          exception_ptr ep;
+          exception_ptr eq;
 #ifdef _OPENMP
 #pragma omp parallel
           {
 #pragma omp sections
             {
 #pragma omp section
-              zp = f (&p[0], n) + constraint.cost (&p[0], n);
+              try
+                {
+                  zp = f (&p[0], n) + constraint.cost (&p[0], n);
+                }
+              catch (...)
+                {
+                  ep = current_exception ();
+                }
 #pragma omp section
-              zq = f (&q[0], n) + constraint.cost (&q[0], n);
+              try
+                {
+                  zq = f (&q[0], n) + constraint.cost (&q[0], n);
+                }
+              catch (...)
+                {
+                  eq = current_exception ();
+                }
             }
           }
 #else // C++-11
-          thread tp ([&f, &constraint, &p, n, &zp] () {
-            zp = f (&p[0], n) + constraint.cost (&p[0], n);
+          thread tp ([&f, &constraint, &p, n, &zp, &ep] () {
+            try
+              {
+                zp = f (&p[0], n) + constraint.cost (&p[0], n);
+              }
+            catch (...)
+              {
+                ep = current_exception ();
+              }
           });
-          thread tq ([&f, &constraint, &q, n, &zq] () {
-            zq = f (&q[0], n) + constraint.cost (&q[0], n);
+          thread tq ([&f, &constraint, &q, n, &zq, &eq] () {
+            try
+              {
+                zq = f (&q[0], n) + constraint.cost (&q[0], n);
+              }
+            catch (...)
+              {
+                eq = current_exception ();
+              }
           });
           tp.join ();
           tq.join ();
 #endif
+          if (ep)
+            {
+              rethrow_exception (ep);
+            }
+          if (eq)
+            {
+              rethrow_exception (eq);
+            }
           // Compute the rescaled global step size
           g[j] = c / sqrt (abs ((zp + zq) - (zx + zx)));
 
-- 
2.43.0


From 6550200420e4470ade8d8ba6bb6ead51a5df1a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:46 +0000
Subject: [PATCH 11/11] fix: reject a population that does not exceed the
 number of parents

The fitness of the first discarded individual was read beyond the end of
the population.
---
 src/main/cxx/core/runner.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/main/cxx/core/runner.h b/src/main/cxx/core/runner.h
index 056e5d3..eec6bcc 100644
--- a/src/main/cxx/core/runner.h
+++ b/src/main/cxx/core/runner.h
@@ -175,6 +175,13 @@ public:
     const natural stop_generation = parse_stop_generation ();
     const natural trace_modulus = parse_trace_modulus ();
 
+    // The fitness of the best and the first discarded individual are compared
+    if (population_size <= parent_number)
+      {
+        throw invalid_argument ("especia::Runner::run() Error: the population "
+                                "size must exceed the number of parents");
+      }
+
     M model = M::parse (cin, cout);
 
     const Optimizer optimizer
-- 
2.43.0

