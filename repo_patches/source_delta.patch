From c5e89d25f47d349eb21f86fe17b015dafcfdc830 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:52:34 +0000
Subject: [PATCH 001/124] fix: reallocate the solver memory of a task when its
 dimension changes

---
 src/sot/sot.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 88ee365..e49be0f 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -399,7 +399,10 @@ bool isFullPostureTask(Task *task, const Matrix::Index &nDof,
 MemoryTaskSOT *getMemory(TaskAbstract &t, const Matrix::Index &tDim,
                          const Matrix::Index &nDof) {
   MemoryTaskSOT *mem = dynamic_cast<MemoryTaskSOT *>(t.memoryInternal);
-  if (NULL == mem) {
+  // The memory is sized for a given problem: allocate it again when the
+  // dimension of the task or the number of joints has changed.
+  if (NULL == mem || mem->tmpTask.size() != tDim ||
+      mem->tmpControl.size() != nDof) {
     if (NULL != t.memoryInternal) delete t.memoryInternal;
     mem = new MemoryTaskSOT(tDim, nDof);
     t.memoryInternal = mem;
-- 
2.43.0


From d573b08b47e78e39ea2152bfde0c036842ac2c3c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:52:34 +0000
Subject: [PATCH 002/124] fix: a discarded first task does not disable the
 tasks of lower priority

---
 src/sot/sot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index e49be0f..57776ab 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -636,7 +636,7 @@ dynamicgraph::Vector &Sot::computeControlLaw(dynamicgraph::Vector &control,
     sotPRINTCOUNTER(4);
     sotPRINTCOUNTER(5);
     sotPRINTCOUNTER(6);
-    if (last || kernel.cols() == 0) break;
+    if (last || (has_kernel && kernel.cols() == 0)) break;
   }
 
   sotCHRONO1;
-- 
2.43.0


From f9de86fe193054cef783871c9ec9b42e09f113de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:19 +0000
Subject: [PATCH 003/124] fix: FeatureGeneric follows the dimension of its
 input error

---
 src/feature/feature-generic.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/feature/feature-generic.cpp b/src/feature/feature-generic.cpp
index a330dc7..77c20eb 100644
--- a/src/feature/feature-generic.cpp
+++ b/src/feature/feature-generic.cpp
@@ -36,6 +36,7 @@ FeatureGeneric::FeatureGeneric(const string &pointName)
 {
   jacobianSOUT.addDependency(jacobianSIN);
   errorSOUT.addDependency(errorSIN);
+  dimensionSOUT.addDependency(errorSIN);
 
   signalRegistration(errorSIN << jacobianSIN << errordotSIN << errordotSOUT);
 }
@@ -65,7 +66,7 @@ unsigned int &FeatureGeneric::getDimension(unsigned int &dim, int time) {
 
   const Flags &fl = selectionSIN.access(time);
 
-  if (dimensionDefault == 0) dimensionDefault = errorSIN.access(time).size();
+  dimensionDefault = errorSIN.access(time).size();
 
   dim = 0;
   for (unsigned int i = 0; i < dimensionDefault; ++i)
-- 
2.43.0


From 3832f6a144a8b9b8f780ed9bb2a25d6b76887ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:19 +0000
Subject: [PATCH 004/124] fix: Task accepts features whose number of columns
 has changed since the last evaluation

---
 src/task/task.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/task/task.cpp b/src/task/task.cpp
index 7bf4f65..a033634 100644
--- a/src/task/task.cpp
+++ b/src/task/task.cpp
@@ -258,11 +258,10 @@ dynamicgraph::Matrix &Task::computeJacobian(dynamicgraph::Matrix &J, int time) {
 
   try {
     dynamicgraph::Matrix::Index dimJ = J.rows();
-    dynamicgraph::Matrix::Index nbc = J.cols();
-    if (0 == dimJ) {
-      dimJ = 1;
-      J.resize(dimJ, nbc);
-    }
+    // The number of columns is given by the first feature: it may differ from
+    // the one of the previous evaluation.
+    dynamicgraph::Matrix::Index nbc = 0;
+    if (0 == dimJ) dimJ = 1;
 
     dynamicgraph::Matrix::Index cursorJ = 0;
     // const Flags& selection = controlSelectionSIN(time);
@@ -280,7 +279,7 @@ dynamicgraph::Matrix &Task::computeJacobian(dynamicgraph::Matrix &J, int time) {
 
       if (0 == nbc) {
         nbc = partialJacobian.cols();
-        J.resize(nbc, dimJ);
+        J.resize(dimJ, nbc);
       } else if (partialJacobian.cols() != nbc)
         throw ExceptionTask(
             ExceptionTask::NON_ADEQUATE_FEATURES,
-- 
2.43.0


From d63be74c2e53f15b92062c2f23155950aeb110c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:19 +0000
Subject: [PATCH 005/124] fix: Task keeps the errors of the first features when
 its dimension grows

---
 src/task/task.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/task/task.cpp b/src/task/task.cpp
index a033634..847e505 100644
--- a/src/task/task.cpp
+++ b/src/task/task.cpp
@@ -191,8 +191,7 @@ dynamicgraph::Vector &Task::computeError(dynamicgraph::Vector &error,
       while (cursorError + dim > dimError)  // DEBUG It was >=
       {
         dimError *= 2;
-        error.resize(dimError);
-        error.setZero();
+        error.conservativeResize(dimError);
       }
 
       for (int k = 0; k < dim; ++k) {
-- 
2.43.0


From cf375275438240e07730d7c93cf90cb1bd809276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 006/124] fix: accelerated posture task when no task of higher
 priority defines a kernel

---
 src/sot/sot.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 57776ab..d6a9e09 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -559,9 +559,12 @@ dynamicgraph::Vector &Sot::computeControlLaw(dynamicgraph::Vector &control,
 
       /* --- COMPUTE QDOT AND P --- */
       if (!controlIsZero) mem->err.noalias() -= control.tail(nbJoints - 6);
-      mem->tmpVar.head(rankJ).noalias() =
-          kernel.transpose().rightCols(nbJoints - 6) * mem->err;
-      control.noalias() += kernel * mem->tmpVar.head(rankJ);
+      if (has_kernel) {
+        mem->tmpVar.head(rankJ).noalias() =
+            kernel.transpose().rightCols(nbJoints - 6) * mem->err;
+        control.noalias() += kernel * mem->tmpVar.head(rankJ);
+      } else
+        control.tail(nbJoints - 6) += mem->err;
       controlIsZero = false;
     } else {
       assert(taskA.jacobianSOUT.accessCopy().cols() == nbJoints);
-- 
2.43.0


From 432908bafc87cded1c6f7abd2dba33ac14717830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:50 +0000
Subject: [PATCH 007/124] fix: do not dereference a null posture feature in the
 assertion of isFullPostureTask

---
 src/sot/sot.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index d6a9e09..2f6bd11 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -392,7 +392,7 @@ bool isFullPostureTask(Task *task, const Matrix::Index &nDof,
   FeaturePosture *posture =
       dynamic_cast<FeaturePosture *>(task->getFeatureList().front());
 
-  assert(posture->dimensionSOUT(iterTime) <= nDof - 6);
+  assert(posture == NULL || posture->dimensionSOUT(iterTime) <= nDof - 6);
   return posture != NULL && posture->dimensionSOUT(iterTime) == nDof - 6;
 }
 
-- 
2.43.0


From 596be0db054f9e03f12fb3318919566b2d0d7379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:48 +0000
Subject: [PATCH 008/124] fix: read the closing parenthesis of an empty vector
 of bounds

---
 src/task/multi-bound.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/task/multi-bound.cpp b/src/task/multi-bound.cpp
index 650d132..7884221 100644
--- a/src/task/multi-bound.cpp
+++ b/src/task/multi-bound.cpp
@@ -247,13 +247,10 @@ std::istream &operator>>(std::istream &is, VectorMultiBound &v) {
   /* Loop for the vals. */
   SOT_MULTI_BOUND_CHECK_C(is, '(', v);
   for (unsigned int i = 0; i < vali; ++i) {
+    if (i != 0) SOT_MULTI_BOUND_CHECK_C(is, ',', v);
     is >> v[i];
-    if (i != vali - 1) {
-      SOT_MULTI_BOUND_CHECK_C(is, ',', v);
-    } else {
-      SOT_MULTI_BOUND_CHECK_C(is, ')', v);
-    }
   }
+  SOT_MULTI_BOUND_CHECK_C(is, ')', v);
 
   return is;
 }
-- 
2.43.0


From 34ba6a78e2188290b48491b0f4fd738944a05a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:18 +0000
Subject: [PATCH 009/124] fix: do not use uninitialized values when a text of
 bounds is truncated

---
 src/task/multi-bound.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task/multi-bound.cpp b/src/task/multi-bound.cpp
index 7884221..bc1e671 100644
--- a/src/task/multi-bound.cpp
+++ b/src/task/multi-bound.cpp
@@ -129,7 +129,7 @@ void MultiBound::setSingleBound(double boundValue) {
 
 inline static void SOT_MULTI_BOUND_CHECK_C(std::istream &is, char check,
                                            VectorMultiBound &v) {
-  char c;
+  char c = 0;
   is.get(c);
   if (c != check) {
     v.resize(0);
@@ -236,7 +236,7 @@ std::ostream &operator<<(std::ostream &os, const VectorMultiBound &v) {
 }
 
 std::istream &operator>>(std::istream &is, VectorMultiBound &v) {
-  unsigned int vali;
+  unsigned int vali = 0;
 
   /* Read the vector size. */
   SOT_MULTI_BOUND_CHECK_C(is, '[', v);
-- 
2.43.0


From 5f4ca6fd5d9b71636ab21090b5140c6d7cf23008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:06 +0000
Subject: [PATCH 010/124] fix: Stopwatch::pause measures with the clock of the
 selected mode

---
 src/utils/stop-watch.cpp | 628 ++++++++++++++++++++-------------------
 1 file changed, 315 insertions(+), 313 deletions(-)

diff --git a/src/utils/stop-watch.cpp b/src/utils/stop-watch.cpp
index 0157fce..715a0db 100644
--- a/src/utils/stop-watch.cpp
+++ b/src/utils/stop-watch.cpp
@@ -1,313 +1,315 @@
-/*
-Copyright (c) 2010-2013 Tommaso Urli
-
-Tommaso Urli    tommaso.urli@uniud.it   University of Udine
-
-Permission is hereby granted, free of charge, to any person obtaining
-a copy of this software and associated documentation files (the
-"Software"), to deal in the Software without restriction, including
-without limitation the rights to use, copy, modify, merge, publish,
-distribute, sublicense, and/or sell copies of the Software, and to
-permit persons to whom the Software is furnished to do so, subject to
-the following conditions:
-
-The above copyright notice and this permission notice shall be
-included in all copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND,
-EXPRESS OR IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF
-MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND
-NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR COPYRIGHT HOLDERS BE
-LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION
-OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
-WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
-
-*/
-
-#ifndef WIN32
-#include <sys/time.h>
-#else
-#include <Windows.h>
-
-#include <iomanip>
-#endif
-
-#include <iomanip>  // std::setprecision
-
-#include "sot/core/stop-watch.hh"
-
-using std::map;
-using std::ostringstream;
-using std::string;
-
-//#define START_PROFILER(name) getProfiler().start(name)
-//#define STOP_PROFILER(name) getProfiler().stop(name)
-
-Stopwatch &getProfiler() {
-  static Stopwatch s(REAL_TIME);  // alternatives are CPU_TIME and REAL_TIME
-  return s;
-}
-
-Stopwatch::Stopwatch(StopwatchMode _mode) : active(true), mode(_mode) {
-  records_of = new map<string, PerformanceData>();
-}
-
-Stopwatch::~Stopwatch() { delete records_of; }
-
-void Stopwatch::set_mode(StopwatchMode new_mode) { mode = new_mode; }
-
-bool Stopwatch::performance_exists(string perf_name) {
-  return (records_of->find(perf_name) != records_of->end());
-}
-
-long double Stopwatch::take_time() {
-  if (mode == CPU_TIME) {
-    // Use ctime
-    return clock();
-
-  } else if (mode == REAL_TIME) {
-    // Query operating system
-
-#ifdef WIN32
-    /* In case of usage under Windows */
-    FILETIME ft;
-    LARGE_INTEGER intervals;
-
-    // Get the amount of 100 nanoseconds intervals elapsed since January 1, 1601
-    // (UTC)
-    GetSystemTimeAsFileTime(&ft);
-    intervals.LowPart = ft.dwLowDateTime;
-    intervals.HighPart = ft.dwHighDateTime;
-
-    long double measure = intervals.QuadPart;
-    measure -= 116444736000000000.0;  // Convert to UNIX epoch time
-    measure /= 10000000.0;            // Convert to seconds
-
-    return measure;
-#else
-    /* Linux, MacOS, ... */
-    struct timeval tv;
-    gettimeofday(&tv, NULL);
-
-    long double measure = tv.tv_usec;
-    measure /= 1000000.0;  // Convert to seconds
-    measure += tv.tv_sec;  // Add seconds part
-
-    return measure;
-#endif
-
-  } else {
-    // If mode == NONE, clock has not been initialized, then throw exception
-    throw StopwatchException("Clock not initialized to a time taking mode!");
-  }
-}
-
-void Stopwatch::start(string perf_name) {
-  if (!active) return;
-
-  // Just works if not already present
-  records_of->insert(make_pair(perf_name, PerformanceData()));
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  // Take ctime
-  perf_info.clock_start = take_time();
-
-  // If this is a new start (i.e. not a restart)
-  //  if (!perf_info.paused)
-  //    perf_info.last_time = 0;
-
-  perf_info.paused = false;
-}
-
-void Stopwatch::stop(string perf_name) {
-  if (!active) return;
-
-  long double clock_end = take_time();
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  // check whether the performance has been reset
-  if (perf_info.clock_start == 0) return;
-
-  perf_info.stops++;
-  long double lapse = clock_end - perf_info.clock_start;
-
-  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
-
-  // Update last time
-  perf_info.last_time = lapse;
-
-  // Update min/max time
-  if (lapse >= perf_info.max_time) perf_info.max_time = lapse;
-  if (lapse <= perf_info.min_time || perf_info.min_time == 0)
-    perf_info.min_time = lapse;
-
-  // Update total time
-  perf_info.total_time += lapse;
-}
-
-void Stopwatch::pause(string perf_name) {
-  if (!active) return;
-
-  long double clock_end = clock();
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  // check whether the performance has been reset
-  if (perf_info.clock_start == 0) return;
-
-  long double lapse = clock_end - perf_info.clock_start;
-
-  // Update total time
-  perf_info.last_time += lapse;
-  perf_info.total_time += lapse;
-}
-
-void Stopwatch::reset_all() {
-  if (!active) return;
-
-  map<string, PerformanceData>::iterator it;
-
-  for (it = records_of->begin(); it != records_of->end(); ++it) {
-    reset(it->first);
-  }
-}
-
-void Stopwatch::report_all(int precision, std::ostream &output) {
-  if (!active) return;
-
-  output << "\n*** PROFILING RESULTS [ms] (min - avg - max - lastTime - "
-            "nSamples - totalTime) ***\n";
-  map<string, PerformanceData>::iterator it;
-  for (it = records_of->begin(); it != records_of->end(); ++it) {
-    report(it->first, precision, output);
-  }
-}
-
-void Stopwatch::reset(string perf_name) {
-  if (!active) return;
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  perf_info.clock_start = 0;
-  perf_info.total_time = 0;
-  perf_info.min_time = 0;
-  perf_info.max_time = 0;
-  perf_info.last_time = 0;
-  perf_info.paused = false;
-  perf_info.stops = 0;
-}
-
-void Stopwatch::turn_on() {
-  std::cout << "Stopwatch active." << std::endl;
-  active = true;
-}
-
-void Stopwatch::turn_off() {
-  std::cout << "Stopwatch inactive." << std::endl;
-  active = false;
-}
-
-void Stopwatch::report(string perf_name, int precision, std::ostream &output) {
-  if (!active) return;
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  string pad = "";
-  for (size_t i = perf_name.length(); i < STOP_WATCH_MAX_NAME_LENGTH; i++)
-    pad.append(" ");
-
-  output << perf_name << pad;
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.min_time * 1e3) << "\t";
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.total_time * 1e3 / (long double)perf_info.stops) << "\t";
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.max_time * 1e3) << "\t";
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.last_time * 1e3) << "\t";
-  output << std::fixed << std::setprecision(precision) << perf_info.stops
-         << std::endl;
-  output << std::fixed << std::setprecision(precision)
-         << perf_info.total_time * 1e3 << std::endl;
-}
-
-long double Stopwatch::get_time_so_far(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  long double lapse =
-      (take_time() - (records_of->find(perf_name)->second).clock_start);
-
-  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
-
-  return lapse;
-}
-
-long double Stopwatch::get_total_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.total_time;
-}
-
-long double Stopwatch::get_average_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return (perf_info.total_time / (long double)perf_info.stops);
-}
-
-long double Stopwatch::get_min_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.min_time;
-}
-
-long double Stopwatch::get_max_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.max_time;
-}
-
-long double Stopwatch::get_last_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.last_time;
-}
+/*
+Copyright (c) 2010-2013 Tommaso Urli
+
+Tommaso Urli    tommaso.urli@uniud.it   University of Udine
+
+Permission is hereby granted, free of charge, to any person obtaining
+a copy of this software and associated documentation files (the
+"Software"), to deal in the Software without restriction, including
+without limitation the rights to use, copy, modify, merge, publish,
+distribute, sublicense, and/or sell copies of the Software, and to
+permit persons to whom the Software is furnished to do so, subject to
+the following conditions:
+
+The above copyright notice and this permission notice shall be
+included in all copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND,
+EXPRESS OR IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF
+MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND
+NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR COPYRIGHT HOLDERS BE
+LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION
+OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
+WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
+
+*/
+
+#ifndef WIN32
+#include <sys/time.h>
+#else
+#include <Windows.h>
+
+#include <iomanip>
+#endif
+
+#include <iomanip>  // std::setprecision
+
+#include "sot/core/stop-watch.hh"
+
+using std::map;
+using std::ostringstream;
+using std::string;
+
+//#define START_PROFILER(name) getProfiler().start(name)
+//#define STOP_PROFILER(name) getProfiler().stop(name)
+
+Stopwatch &getProfiler() {
+  static Stopwatch s(REAL_TIME);  // alternatives are CPU_TIME and REAL_TIME
+  return s;
+}
+
+Stopwatch::Stopwatch(StopwatchMode _mode) : active(true), mode(_mode) {
+  records_of = new map<string, PerformanceData>();
+}
+
+Stopwatch::~Stopwatch() { delete records_of; }
+
+void Stopwatch::set_mode(StopwatchMode new_mode) { mode = new_mode; }
+
+bool Stopwatch::performance_exists(string perf_name) {
+  return (records_of->find(perf_name) != records_of->end());
+}
+
+long double Stopwatch::take_time() {
+  if (mode == CPU_TIME) {
+    // Use ctime
+    return clock();
+
+  } else if (mode == REAL_TIME) {
+    // Query operating system
+
+#ifdef WIN32
+    /* In case of usage under Windows */
+    FILETIME ft;
+    LARGE_INTEGER intervals;
+
+    // Get the amount of 100 nanoseconds intervals elapsed since January 1, 1601
+    // (UTC)
+    GetSystemTimeAsFileTime(&ft);
+    intervals.LowPart = ft.dwLowDateTime;
+    intervals.HighPart = ft.dwHighDateTime;
+
+    long double measure = intervals.QuadPart;
+    measure -= 116444736000000000.0;  // Convert to UNIX epoch time
+    measure /= 10000000.0;            // Convert to seconds
+
+    return measure;
+#else
+    /* Linux, MacOS, ... */
+    struct timeval tv;
+    gettimeofday(&tv, NULL);
+
+    long double measure = tv.tv_usec;
+    measure /= 1000000.0;  // Convert to seconds
+    measure += tv.tv_sec;  // Add seconds part
+
+    return measure;
+#endif
+
+  } else {
+    // If mode == NONE, clock has not been initialized, then throw exception
+    throw StopwatchException("Clock not initialized to a time taking mode!");
+  }
+}
+
+void Stopwatch::start(string perf_name) {
+  if (!active) return;
+
+  // Just works if not already present
+  records_of->insert(make_pair(perf_name, PerformanceData()));
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  // Take ctime
+  perf_info.clock_start = take_time();
+
+  // If this is a new start (i.e. not a restart)
+  //  if (!perf_info.paused)
+  //    perf_info.last_time = 0;
+
+  perf_info.paused = false;
+}
+
+void Stopwatch::stop(string perf_name) {
+  if (!active) return;
+
+  long double clock_end = take_time();
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  // check whether the performance has been reset
+  if (perf_info.clock_start == 0) return;
+
+  perf_info.stops++;
+  long double lapse = clock_end - perf_info.clock_start;
+
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
+  // Update last time
+  perf_info.last_time = lapse;
+
+  // Update min/max time
+  if (lapse >= perf_info.max_time) perf_info.max_time = lapse;
+  if (lapse <= perf_info.min_time || perf_info.min_time == 0)
+    perf_info.min_time = lapse;
+
+  // Update total time
+  perf_info.total_time += lapse;
+}
+
+void Stopwatch::pause(string perf_name) {
+  if (!active) return;
+
+  long double clock_end = take_time();
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  // check whether the performance has been reset
+  if (perf_info.clock_start == 0) return;
+
+  long double lapse = clock_end - perf_info.clock_start;
+
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
+  // Update total time
+  perf_info.last_time += lapse;
+  perf_info.total_time += lapse;
+}
+
+void Stopwatch::reset_all() {
+  if (!active) return;
+
+  map<string, PerformanceData>::iterator it;
+
+  for (it = records_of->begin(); it != records_of->end(); ++it) {
+    reset(it->first);
+  }
+}
+
+void Stopwatch::report_all(int precision, std::ostream &output) {
+  if (!active) return;
+
+  output << "\n*** PROFILING RESULTS [ms] (min - avg - max - lastTime - "
+            "nSamples - totalTime) ***\n";
+  map<string, PerformanceData>::iterator it;
+  for (it = records_of->begin(); it != records_of->end(); ++it) {
+    report(it->first, precision, output);
+  }
+}
+
+void Stopwatch::reset(string perf_name) {
+  if (!active) return;
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  perf_info.clock_start = 0;
+  perf_info.total_time = 0;
+  perf_info.min_time = 0;
+  perf_info.max_time = 0;
+  perf_info.last_time = 0;
+  perf_info.paused = false;
+  perf_info.stops = 0;
+}
+
+void Stopwatch::turn_on() {
+  std::cout << "Stopwatch active." << std::endl;
+  active = true;
+}
+
+void Stopwatch::turn_off() {
+  std::cout << "Stopwatch inactive." << std::endl;
+  active = false;
+}
+
+void Stopwatch::report(string perf_name, int precision, std::ostream &output) {
+  if (!active) return;
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  string pad = "";
+  for (size_t i = perf_name.length(); i < STOP_WATCH_MAX_NAME_LENGTH; i++)
+    pad.append(" ");
+
+  output << perf_name << pad;
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.min_time * 1e3) << "\t";
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.total_time * 1e3 / (long double)perf_info.stops) << "\t";
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.max_time * 1e3) << "\t";
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.last_time * 1e3) << "\t";
+  output << std::fixed << std::setprecision(precision) << perf_info.stops
+         << std::endl;
+  output << std::fixed << std::setprecision(precision)
+         << perf_info.total_time * 1e3 << std::endl;
+}
+
+long double Stopwatch::get_time_so_far(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  long double lapse =
+      (take_time() - (records_of->find(perf_name)->second).clock_start);
+
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
+  return lapse;
+}
+
+long double Stopwatch::get_total_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.total_time;
+}
+
+long double Stopwatch::get_average_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return (perf_info.total_time / (long double)perf_info.stops);
+}
+
+long double Stopwatch::get_min_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.min_time;
+}
+
+long double Stopwatch::get_max_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.max_time;
+}
+
+long double Stopwatch::get_last_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.last_time;
+}
-- 
2.43.0


From 540b7f9f320559f0ca410818500ad061bf95d0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:06 +0000
Subject: [PATCH 011/124] fix: the minimum of a stopwatch keeps measurements of
 zero length

---
 src/utils/stop-watch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/stop-watch.cpp b/src/utils/stop-watch.cpp
index 715a0db..15ddcc8 100644
--- a/src/utils/stop-watch.cpp
+++ b/src/utils/stop-watch.cpp
@@ -144,7 +144,7 @@ void Stopwatch::stop(string perf_name) {
 
   // Update min/max time
   if (lapse >= perf_info.max_time) perf_info.max_time = lapse;
-  if (lapse <= perf_info.min_time || perf_info.min_time == 0)
+  if (lapse <= perf_info.min_time || perf_info.stops == 1)
     perf_info.min_time = lapse;
 
   // Update total time
-- 
2.43.0


From d7203b17d6435531030feea4de8b043fc643bb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:06 +0000
Subject: [PATCH 012/124] fix: formatted feature errors keep their message

---
 src/exception/exception-feature.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exception/exception-feature.cpp b/src/exception/exception-feature.cpp
index 4c8c556..97f8a76 100644
--- a/src/exception/exception-feature.cpp
+++ b/src/exception/exception-feature.cpp
@@ -35,7 +35,7 @@ ExceptionFeature::ExceptionFeature(
   char buffer[SIZE];
   vsnprintf(buffer, SIZE, format, args);
 
-  message = buffer;
+  message += buffer;
 
   va_end(args);
 }
-- 
2.43.0


From 29c87b4f58268df7cbd4e11795afccf3050f52e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:06 +0000
Subject: [PATCH 013/124] fix: formatted task errors keep their message

---
 src/exception/exception-task.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exception/exception-task.cpp b/src/exception/exception-task.cpp
index 0d916fd..3868d0a 100644
--- a/src/exception/exception-task.cpp
+++ b/src/exception/exception-task.cpp
@@ -34,7 +34,7 @@ ExceptionTask::ExceptionTask(const ExceptionTask::ErrorCodeEnum &errcode,
   char buffer[SIZE];
   vsnprintf(buffer, SIZE, format, args);
 
-  message = buffer;
+  message += buffer;
 
   va_end(args);
 }
-- 
2.43.0


From e9d4414070ecdb3ca14b2c6e47a7ee9d6f495ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:06 +0000
Subject: [PATCH 014/124] fix: CausalFilter::switch_filter restarts from the
 last sample, not from the oldest one

---
 src/filters/causal-filter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/filters/causal-filter.cpp b/src/filters/causal-filter.cpp
index 0ace0ad..2635eee 100644
--- a/src/filters/causal-filter.cpp
+++ b/src/filters/causal-filter.cpp
@@ -108,7 +108,9 @@ void CausalFilter::switch_filter(const Eigen::VectorXd &filter_numerator,
   Eigen::VectorXd::Index filter_order_m = filter_numerator.size();
   Eigen::VectorXd::Index filter_order_n = filter_denominator.size();
 
-  Eigen::VectorXd current_x(m_input_buffer.col(m_pt_numerator));
+  // The last sample is just before the place of the next one.
+  Eigen::VectorXd current_x(m_input_buffer.col(
+      (m_pt_numerator == 0) ? m_filter_order_m - 1 : m_pt_numerator - 1));
 
   m_input_buffer.resize(Eigen::NoChange, filter_order_m);
   m_output_buffer.resize(Eigen::NoChange, filter_order_n - 1);
-- 
2.43.0


From fcb02e959672ff28025af9c18c09e9fe1ab48ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:06 +0000
Subject: [PATCH 015/124] fix: CausalFilter accepts denominators of size one
 and two

---
 src/filters/causal-filter.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/filters/causal-filter.cpp b/src/filters/causal-filter.cpp
index 2635eee..dab85ff 100644
--- a/src/filters/causal-filter.cpp
+++ b/src/filters/causal-filter.cpp
@@ -33,6 +33,15 @@ N is the sample number
 
 */
 
+// The last two outputs are needed for the finite differences: denominators that
+// are too short are completed with null coefficients.
+static Eigen::VectorXd completeDenominator(const Eigen::VectorXd &denominator) {
+  if (denominator.size() >= 3) return denominator;
+  Eigen::VectorXd res(Eigen::VectorXd::Zero(3));
+  res.head(denominator.size()) = denominator;
+  return res;
+}
+
 CausalFilter::CausalFilter(const double &timestep, const int &xSize,
                            const Eigen::VectorXd &filter_numerator,
                            const Eigen::VectorXd &filter_denominator)
@@ -40,15 +49,15 @@ CausalFilter::CausalFilter(const double &timestep, const int &xSize,
     : m_dt(timestep),
       m_x_size(xSize),
       m_filter_order_m(filter_numerator.size()),
-      m_filter_order_n(filter_denominator.size()),
+      m_filter_order_n(completeDenominator(filter_denominator).size()),
       m_filter_numerator(filter_numerator),
-      m_filter_denominator(filter_denominator),
+      m_filter_denominator(completeDenominator(filter_denominator)),
       m_first_sample(true),
       m_pt_numerator(0),
       m_pt_denominator(0),
       m_input_buffer(Eigen::MatrixXd::Zero(xSize, filter_numerator.size())),
       m_output_buffer(
-          Eigen::MatrixXd::Zero(xSize, filter_denominator.size() - 1)) {
+          Eigen::MatrixXd::Zero(xSize, m_filter_order_n - 1)) {
   assert(timestep > 0.0 && "Timestep should be > 0");
   assert(m_filter_numerator.size() == m_filter_order_m);
   assert(m_filter_denominator.size() == m_filter_order_n);
@@ -104,7 +113,8 @@ void CausalFilter::get_x_dx_ddx(const Eigen::VectorXd &base_x,
 }
 
 void CausalFilter::switch_filter(const Eigen::VectorXd &filter_numerator,
-                                 const Eigen::VectorXd &filter_denominator) {
+                                 const Eigen::VectorXd &denominator) {
+  const Eigen::VectorXd filter_denominator(completeDenominator(denominator));
   Eigen::VectorXd::Index filter_order_m = filter_numerator.size();
   Eigen::VectorXd::Index filter_order_n = filter_denominator.size();
 
-- 
2.43.0


From 8dbf200466836c3f98fcfe31107ad25da959ed1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:45 +0000
Subject: [PATCH 016/124] fix: Contiifstream reads empty, long and partially
 written lines

---
 src/debug/contiifstream.cpp | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/debug/contiifstream.cpp b/src/debug/contiifstream.cpp
index 3774a84..045c65a 100644
--- a/src/debug/contiifstream.cpp
+++ b/src/debug/contiifstream.cpp
@@ -26,19 +26,13 @@ bool Contiifstream::loop(void) {
   file.seekg(cursor);
   file.sync();
 
-  while (1) {
-    file.get(buffer, BUFFER_SIZE);
-    if (file.gcount()) {
-      res = true;
-      std::string line(buffer);
-      if (!first) reader.push_back(line);
-      cursor = file.tellg();
-      cursor++;
-      file.get(*buffer);  // get the last char ( = '\n')
-      sotDEBUG(15) << "line: " << line << std::endl;
-    } else {
-      break;
-    }
+  // Only complete lines are read: the end of the last one may be written later.
+  std::string line;
+  while (std::getline(file, line) && !file.eof()) {
+    res = true;
+    if (!first) reader.push_back(line);
+    cursor += line.size() + 1;
+    sotDEBUG(15) << "line: " << line << std::endl;
   }
 
   first = false;
-- 
2.43.0


From d6f6dd9827a1e2395f0e62c722e46edb6ecfe649 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:34:12 +0000
Subject: [PATCH 017/124] fix: the debug file can be closed and opened again
 after a write error

---
 src/debug/debug.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/debug/debug.cpp b/src/debug/debug.cpp
index c6e44bc..07d20a7 100644
--- a/src/debug/debug.cpp
+++ b/src/debug/debug.cpp
@@ -45,13 +45,13 @@ __sotDebug_init __sotDebug_initialisator;
 } /* namespace dynamicgraph */
 
 void DebugTrace::openFile(const char *filename) {
-  if (debugfile.good() && debugfile.is_open()) debugfile.close();
+  if (debugfile.is_open()) debugfile.close();
   debugfile.clear();
   debugfile.open(filename, std::ios::trunc & std::ios::out);
 }
 
 void DebugTrace::closeFile(const char *) {
-  if (debugfile.good() && debugfile.is_open()) debugfile.close();
+  if (debugfile.is_open()) debugfile.close();
   debugfile.setstate(std::ios::failbit);
 }
 
-- 
2.43.0


From 4478b3b09d0b3da6af491887039a1d01420ba5f5 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:52:23 +0000
Subject: [PATCH 018/124] fix: restore the line endings of stop-watch.cpp

---
 src/utils/stop-watch.cpp | 630 +++++++++++++++++++--------------------
 1 file changed, 315 insertions(+), 315 deletions(-)

diff --git a/src/utils/stop-watch.cpp b/src/utils/stop-watch.cpp
index 15ddcc8..b2d5dbe 100644
--- a/src/utils/stop-watch.cpp
+++ b/src/utils/stop-watch.cpp
@@ -1,315 +1,315 @@
-/*
-Copyright (c) 2010-2013 Tommaso Urli
-
-Tommaso Urli    tommaso.urli@uniud.it   University of Udine
-
-Permission is hereby granted, free of charge, to any person obtaining
-a copy of this software and associated documentation files (the
-"Software"), to deal in the Software without restriction, including
-without limitation the rights to use, copy, modify, merge, publish,
-distribute, sublicense, and/or sell copies of the Software, and to
-permit persons to whom the Software is furnished to do so, subject to
-the following conditions:
-
-The above copyright notice and this permission notice shall be
-included in all copies or substantial portions of the Software.
-
-THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND,
-EXPRESS OR IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF
-MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND
-NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR COPYRIGHT HOLDERS BE
-LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION
-OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
-WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
-
-*/
-
-#ifndef WIN32
-#include <sys/time.h>
-#else
-#include <Windows.h>
-
-#include <iomanip>
-#endif
-
-#include <iomanip>  // std::setprecision
-
-#include "sot/core/stop-watch.hh"
-
-using std::map;
-using std::ostringstream;
-using std::string;
-
-//#define START_PROFILER(name) getProfiler().start(name)
-//#define STOP_PROFILER(name) getProfiler().stop(name)
-
-Stopwatch &getProfiler() {
-  static Stopwatch s(REAL_TIME);  // alternatives are CPU_TIME and REAL_TIME
-  return s;
-}
-
-Stopwatch::Stopwatch(StopwatchMode _mode) : active(true), mode(_mode) {
-  records_of = new map<string, PerformanceData>();
-}
-
-Stopwatch::~Stopwatch() { delete records_of; }
-
-void Stopwatch::set_mode(StopwatchMode new_mode) { mode = new_mode; }
-
-bool Stopwatch::performance_exists(string perf_name) {
-  return (records_of->find(perf_name) != records_of->end());
-}
-
-long double Stopwatch::take_time() {
-  if (mode == CPU_TIME) {
-    // Use ctime
-    return clock();
-
-  } else if (mode == REAL_TIME) {
-    // Query operating system
-
-#ifdef WIN32
-    /* In case of usage under Windows */
-    FILETIME ft;
-    LARGE_INTEGER intervals;
-
-    // Get the amount of 100 nanoseconds intervals elapsed since January 1, 1601
-    // (UTC)
-    GetSystemTimeAsFileTime(&ft);
-    intervals.LowPart = ft.dwLowDateTime;
-    intervals.HighPart = ft.dwHighDateTime;
-
-    long double measure = intervals.QuadPart;
-    measure -= 116444736000000000.0;  // Convert to UNIX epoch time
-    measure /= 10000000.0;            // Convert to seconds
-
-    return measure;
-#else
-    /* Linux, MacOS, ... */
-    struct timeval tv;
-    gettimeofday(&tv, NULL);
-
-    long double measure = tv.tv_usec;
-    measure /= 1000000.0;  // Convert to seconds
-    measure += tv.tv_sec;  // Add seconds part
-
-    return measure;
-#endif
-
-  } else {
-    // If mode == NONE, clock has not been initialized, then throw exception
-    throw StopwatchException("Clock not initialized to a time taking mode!");
-  }
-}
-
-void Stopwatch::start(string perf_name) {
-  if (!active) return;
-
-  // Just works if not already present
-  records_of->insert(make_pair(perf_name, PerformanceData()));
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  // Take ctime
-  perf_info.clock_start = take_time();
-
-  // If this is a new start (i.e. not a restart)
-  //  if (!perf_info.paused)
-  //    perf_info.last_time = 0;
-
-  perf_info.paused = false;
-}
-
-void Stopwatch::stop(string perf_name) {
-  if (!active) return;
-
-  long double clock_end = take_time();
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  // check whether the performance has been reset
-  if (perf_info.clock_start == 0) return;
-
-  perf_info.stops++;
-  long double lapse = clock_end - perf_info.clock_start;
-
-  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
-
-  // Update last time
-  perf_info.last_time = lapse;
-
-  // Update min/max time
-  if (lapse >= perf_info.max_time) perf_info.max_time = lapse;
-  if (lapse <= perf_info.min_time || perf_info.stops == 1)
-    perf_info.min_time = lapse;
-
-  // Update total time
-  perf_info.total_time += lapse;
-}
-
-void Stopwatch::pause(string perf_name) {
-  if (!active) return;
-
-  long double clock_end = take_time();
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  // check whether the performance has been reset
-  if (perf_info.clock_start == 0) return;
-
-  long double lapse = clock_end - perf_info.clock_start;
-
-  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
-
-  // Update total time
-  perf_info.last_time += lapse;
-  perf_info.total_time += lapse;
-}
-
-void Stopwatch::reset_all() {
-  if (!active) return;
-
-  map<string, PerformanceData>::iterator it;
-
-  for (it = records_of->begin(); it != records_of->end(); ++it) {
-    reset(it->first);
-  }
-}
-
-void Stopwatch::report_all(int precision, std::ostream &output) {
-  if (!active) return;
-
-  output << "\n*** PROFILING RESULTS [ms] (min - avg - max - lastTime - "
-            "nSamples - totalTime) ***\n";
-  map<string, PerformanceData>::iterator it;
-  for (it = records_of->begin(); it != records_of->end(); ++it) {
-    report(it->first, precision, output);
-  }
-}
-
-void Stopwatch::reset(string perf_name) {
-  if (!active) return;
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  perf_info.clock_start = 0;
-  perf_info.total_time = 0;
-  perf_info.min_time = 0;
-  perf_info.max_time = 0;
-  perf_info.last_time = 0;
-  perf_info.paused = false;
-  perf_info.stops = 0;
-}
-
-void Stopwatch::turn_on() {
-  std::cout << "Stopwatch active." << std::endl;
-  active = true;
-}
-
-void Stopwatch::turn_off() {
-  std::cout << "Stopwatch inactive." << std::endl;
-  active = false;
-}
-
-void Stopwatch::report(string perf_name, int precision, std::ostream &output) {
-  if (!active) return;
-
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  string pad = "";
-  for (size_t i = perf_name.length(); i < STOP_WATCH_MAX_NAME_LENGTH; i++)
-    pad.append(" ");
-
-  output << perf_name << pad;
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.min_time * 1e3) << "\t";
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.total_time * 1e3 / (long double)perf_info.stops) << "\t";
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.max_time * 1e3) << "\t";
-  output << std::fixed << std::setprecision(precision)
-         << (perf_info.last_time * 1e3) << "\t";
-  output << std::fixed << std::setprecision(precision) << perf_info.stops
-         << std::endl;
-  output << std::fixed << std::setprecision(precision)
-         << perf_info.total_time * 1e3 << std::endl;
-}
-
-long double Stopwatch::get_time_so_far(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  long double lapse =
-      (take_time() - (records_of->find(perf_name)->second).clock_start);
-
-  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
-
-  return lapse;
-}
-
-long double Stopwatch::get_total_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.total_time;
-}
-
-long double Stopwatch::get_average_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return (perf_info.total_time / (long double)perf_info.stops);
-}
-
-long double Stopwatch::get_min_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.min_time;
-}
-
-long double Stopwatch::get_max_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.max_time;
-}
-
-long double Stopwatch::get_last_time(string perf_name) {
-  // Try to recover performance data
-  if (!performance_exists(perf_name))
-    throw StopwatchException("Performance not initialized.");
-
-  PerformanceData &perf_info = records_of->find(perf_name)->second;
-
-  return perf_info.last_time;
-}
+/*
+Copyright (c) 2010-2013 Tommaso Urli
+
+Tommaso Urli    tommaso.urli@uniud.it   University of Udine
+
+Permission is hereby granted, free of charge, to any person obtaining
+a copy of this software and associated documentation files (the
+"Software"), to deal in the Software without restriction, including
+without limitation the rights to use, copy, modify, merge, publish,
+distribute, sublicense, and/or sell copies of the Software, and to
+permit persons to whom the Software is furnished to do so, subject to
+the following conditions:
+
+The above copyright notice and this permission notice shall be
+included in all copies or substantial portions of the Software.
+
+THE SOFTWARE IS PROVIDED "AS IS", WITHOUT WARRANTY OF ANY KIND,
+EXPRESS OR IMPLIED, INCLUDING BUT NOT LIMITED TO THE WARRANTIES OF
+MERCHANTABILITY, FITNESS FOR A PARTICULAR PURPOSE AND
+NONINFRINGEMENT. IN NO EVENT SHALL THE AUTHORS OR COPYRIGHT HOLDERS BE
+LIABLE FOR ANY CLAIM, DAMAGES OR OTHER LIABILITY, WHETHER IN AN ACTION
+OF CONTRACT, TORT OR OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION
+WITH THE SOFTWARE OR THE USE OR OTHER DEALINGS IN THE SOFTWARE.
+
+*/
+
+#ifndef WIN32
+#include <sys/time.h>
+#else
+#include <Windows.h>
+
+#include <iomanip>
+#endif
+
+#include <iomanip>  // std::setprecision
+
+#include "sot/core/stop-watch.hh"
+
+using std::map;
+using std::ostringstream;
+using std::string;
+
+//#define START_PROFILER(name) getProfiler().start(name)
+//#define STOP_PROFILER(name) getProfiler().stop(name)
+
+Stopwatch &getProfiler() {
+  static Stopwatch s(REAL_TIME);  // alternatives are CPU_TIME and REAL_TIME
+  return s;
+}
+
+Stopwatch::Stopwatch(StopwatchMode _mode) : active(true), mode(_mode) {
+  records_of = new map<string, PerformanceData>();
+}
+
+Stopwatch::~Stopwatch() { delete records_of; }
+
+void Stopwatch::set_mode(StopwatchMode new_mode) { mode = new_mode; }
+
+bool Stopwatch::performance_exists(string perf_name) {
+  return (records_of->find(perf_name) != records_of->end());
+}
+
+long double Stopwatch::take_time() {
+  if (mode == CPU_TIME) {
+    // Use ctime
+    return clock();
+
+  } else if (mode == REAL_TIME) {
+    // Query operating system
+
+#ifdef WIN32
+    /* In case of usage under Windows */
+    FILETIME ft;
+    LARGE_INTEGER intervals;
+
+    // Get the amount of 100 nanoseconds intervals elapsed since January 1, 1601
+    // (UTC)
+    GetSystemTimeAsFileTime(&ft);
+    intervals.LowPart = ft.dwLowDateTime;
+    intervals.HighPart = ft.dwHighDateTime;
+
+    long double measure = intervals.QuadPart;
+    measure -= 116444736000000000.0;  // Convert to UNIX epoch time
+    measure /= 10000000.0;            // Convert to seconds
+
+    return measure;
+#else
+    /* Linux, MacOS, ... */
+    struct timeval tv;
+    gettimeofday(&tv, NULL);
+
+    long double measure = tv.tv_usec;
+    measure /= 1000000.0;  // Convert to seconds
+    measure += tv.tv_sec;  // Add seconds part
+
+    return measure;
+#endif
+
+  } else {
+    // If mode == NONE, clock has not been initialized, then throw exception
+    throw StopwatchException("Clock not initialized to a time taking mode!");
+  }
+}
+
+void Stopwatch::start(string perf_name) {
+  if (!active) return;
+
+  // Just works if not already present
+  records_of->insert(make_pair(perf_name, PerformanceData()));
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  // Take ctime
+  perf_info.clock_start = take_time();
+
+  // If this is a new start (i.e. not a restart)
+  //  if (!perf_info.paused)
+  //    perf_info.last_time = 0;
+
+  perf_info.paused = false;
+}
+
+void Stopwatch::stop(string perf_name) {
+  if (!active) return;
+
+  long double clock_end = take_time();
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  // check whether the performance has been reset
+  if (perf_info.clock_start == 0) return;
+
+  perf_info.stops++;
+  long double lapse = clock_end - perf_info.clock_start;
+
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
+  // Update last time
+  perf_info.last_time = lapse;
+
+  // Update min/max time
+  if (lapse >= perf_info.max_time) perf_info.max_time = lapse;
+  if (lapse <= perf_info.min_time || perf_info.stops == 1)
+    perf_info.min_time = lapse;
+
+  // Update total time
+  perf_info.total_time += lapse;
+}
+
+void Stopwatch::pause(string perf_name) {
+  if (!active) return;
+
+  long double clock_end = take_time();
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  // check whether the performance has been reset
+  if (perf_info.clock_start == 0) return;
+
+  long double lapse = clock_end - perf_info.clock_start;
+
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
+  // Update total time
+  perf_info.last_time += lapse;
+  perf_info.total_time += lapse;
+}
+
+void Stopwatch::reset_all() {
+  if (!active) return;
+
+  map<string, PerformanceData>::iterator it;
+
+  for (it = records_of->begin(); it != records_of->end(); ++it) {
+    reset(it->first);
+  }
+}
+
+void Stopwatch::report_all(int precision, std::ostream &output) {
+  if (!active) return;
+
+  output << "\n*** PROFILING RESULTS [ms] (min - avg - max - lastTime - "
+            "nSamples - totalTime) ***\n";
+  map<string, PerformanceData>::iterator it;
+  for (it = records_of->begin(); it != records_of->end(); ++it) {
+    report(it->first, precision, output);
+  }
+}
+
+void Stopwatch::reset(string perf_name) {
+  if (!active) return;
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  perf_info.clock_start = 0;
+  perf_info.total_time = 0;
+  perf_info.min_time = 0;
+  perf_info.max_time = 0;
+  perf_info.last_time = 0;
+  perf_info.paused = false;
+  perf_info.stops = 0;
+}
+
+void Stopwatch::turn_on() {
+  std::cout << "Stopwatch active." << std::endl;
+  active = true;
+}
+
+void Stopwatch::turn_off() {
+  std::cout << "Stopwatch inactive." << std::endl;
+  active = false;
+}
+
+void Stopwatch::report(string perf_name, int precision, std::ostream &output) {
+  if (!active) return;
+
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  string pad = "";
+  for (size_t i = perf_name.length(); i < STOP_WATCH_MAX_NAME_LENGTH; i++)
+    pad.append(" ");
+
+  output << perf_name << pad;
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.min_time * 1e3) << "\t";
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.total_time * 1e3 / (long double)perf_info.stops) << "\t";
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.max_time * 1e3) << "\t";
+  output << std::fixed << std::setprecision(precision)
+         << (perf_info.last_time * 1e3) << "\t";
+  output << std::fixed << std::setprecision(precision) << perf_info.stops
+         << std::endl;
+  output << std::fixed << std::setprecision(precision)
+         << perf_info.total_time * 1e3 << std::endl;
+}
+
+long double Stopwatch::get_time_so_far(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  long double lapse =
+      (take_time() - (records_of->find(perf_name)->second).clock_start);
+
+  if (mode == CPU_TIME) lapse /= (double)CLOCKS_PER_SEC;
+
+  return lapse;
+}
+
+long double Stopwatch::get_total_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.total_time;
+}
+
+long double Stopwatch::get_average_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return (perf_info.total_time / (long double)perf_info.stops);
+}
+
+long double Stopwatch::get_min_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.min_time;
+}
+
+long double Stopwatch::get_max_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.max_time;
+}
+
+long double Stopwatch::get_last_time(string perf_name) {
+  // Try to recover performance data
+  if (!performance_exists(perf_name))
+    throw StopwatchException("Performance not initialized.");
+
+  PerformanceData &perf_info = records_of->find(perf_name)->second;
+
+  return perf_info.last_time;
+}
-- 
2.43.0


From cb7e499987c6781b3247974cc54c68fe6032a414 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:55:13 +0000
Subject: [PATCH 019/124] fix: generateOrthonormalM returns a direct basis

---
 src/dynamic_graph/sot/core/matrix_util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/matrix_util.py b/src/dynamic_graph/sot/core/matrix_util.py
index 2d90144..2c92c5d 100644
--- a/src/dynamic_graph/sot/core/matrix_util.py
+++ b/src/dynamic_graph/sot/core/matrix_util.py
@@ -5,7 +5,7 @@ Tiny matrix functions, taken from Oscar source code.
 from math import atan2
 from random import random
 
-from numpy import array, cos, inner, matrix, pi, sin, sqrt
+from numpy import array, cos, cross, inner, matrix, pi, sin, sqrt
 from numpy.linalg import norm
 
 
@@ -59,6 +59,8 @@ def generateOrthonormalM(v1):
 
     u3 = v3 - inner(v3, e1) * e1 - inner(v3, e2) * e2
     e3 = u3 / norm(u3)
+    if inner(cross(e1, e2), e3) < 0:
+        e3 = -e3
 
     e1 = e1.tolist()
     e2 = e2.tolist()
-- 
2.43.0


From 662ffe898b0798f81d925619fd984c8b87f5f788 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:57:44 +0000
Subject: [PATCH 020/124] fix: a calendar can be printed

---
 src/dynamic_graph/sot/core/utils/attime.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/attime.py b/src/dynamic_graph/sot/core/utils/attime.py
index 3ac1548..cf8d03e 100644
--- a/src/dynamic_graph/sot/core/utils/attime.py
+++ b/src/dynamic_graph/sot/core/utils/attime.py
@@ -33,11 +33,17 @@ class Calendar:
 
     def __repr__(self):
         res = ""
-        for iter, funpairs in sorted(self.events.iteritems()):
+        # ALWAYS and STOP are not comparable with the times: they come last
+        for iter, funpairs in sorted(
+            self.events.items(),
+            key=lambda event: (True, 0)
+            if event[0] in (ALWAYS, STOP)
+            else (False, event[0]),
+        ):
             res += str(iter) + ": \n"
             for funpair in funpairs:
                 if funpair[1] == "":
-                    res += funpair[0] + "\n"
+                    res += str(funpair[0]) + "\n"
                 else:
                     res += str(funpair[1]) + "\n"
         return res
-- 
2.43.0


From dcc413409f78895db1c0902c566e0582d2cbd0be Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 22:57:45 +0000
Subject: [PATCH 021/124] fix: a periodic action that stops itself does not
 skip the next one

---
 src/dynamic_graph/sot/core/utils/attime.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/utils/attime.py b/src/dynamic_graph/sot/core/utils/attime.py
index cf8d03e..78ef55b 100644
--- a/src/dynamic_graph/sot/core/utils/attime.py
+++ b/src/dynamic_graph/sot/core/utils/attime.py
@@ -88,7 +88,8 @@ class Calendar:
 
     def run(self, iter, *args):
         if ALWAYS in self.events:
-            for fun, doc in self.events[ALWAYS]:
+            # an action may stop itself, which changes the list
+            for fun, doc in list(self.events[ALWAYS]):
                 fun(*args)
         if iter in self.events:
             self.callPing()
-- 
2.43.0


From 10eb4922446ece8debc6be11360ed5fb86d1670b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:01 +0000
Subject: [PATCH 022/124] fix: history can record a ZMP given as a numpy array

---
 src/dynamic_graph/sot/core/utils/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/utils/history.py b/src/dynamic_graph/sot/core/utils/history.py
index 2e6dcd8..a575b31 100644
--- a/src/dynamic_graph/sot/core/utils/history.py
+++ b/src/dynamic_graph/sot/core/utils/history.py
@@ -24,7 +24,7 @@ class History:
             self.qdot.append(self.dynEnt.velocity.value)
             if self.withZmp:
                 waMwo = matrix(self.dynEnt.waist.value).I
-                wo_z = matrix(self.zmpSig.value + (1,)).T
+                wo_z = matrix(list(self.zmpSig.value) + [1]).T
                 self.zmp.append(list(vectorToTuple(waMwo * wo_z)))
 
     def restore(self, t):
-- 
2.43.0


From f5805f01dbd3e5af8490edf00a8ad9f7b721c4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:01 +0000
Subject: [PATCH 023/124] fix: history restores the time of the sample, not its
 index

---
 src/dynamic_graph/sot/core/utils/history.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/history.py b/src/dynamic_graph/sot/core/utils/history.py
index a575b31..4f47f66 100644
--- a/src/dynamic_graph/sot/core/utils/history.py
+++ b/src/dynamic_graph/sot/core/utils/history.py
@@ -28,10 +28,10 @@ class History:
                 self.zmp.append(list(vectorToTuple(waMwo * wo_z)))
 
     def restore(self, t):
-        t = int(t / self.freq)
-        print("robot.set(", self.q[t], ")")
-        print("robot.setVelocity(", self.qdot[t], ")")
-        print("T0 = ", t)
+        i = int(t / self.freq)
+        print("robot.set(", self.q[i], ")")
+        print("robot.setVelocity(", self.qdot[i], ")")
+        print("T0 = ", i * self.freq)
         print("robot.state.time = T0")
         print("[ t.feature.position.recompute(T0) for t in refreshTaskList]")
         print("attime.fastForward(T0)")
-- 
2.43.0


From ce4a566864bfef8a007bfcedfed177a5fa36d305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:57 +0000
Subject: [PATCH 024/124] fix: MetaTaskVisualPoint can look for its operational
 point

---
 src/dynamic_graph/sot/core/meta_task_visual_point.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/dynamic_graph/sot/core/meta_task_visual_point.py b/src/dynamic_graph/sot/core/meta_task_visual_point.py
index a5629b3..096073d 100644
--- a/src/dynamic_graph/sot/core/meta_task_visual_point.py
+++ b/src/dynamic_graph/sot/core/meta_task_visual_point.py
@@ -17,12 +17,10 @@ class MetaTaskVisualPoint(object):
     proj = 0
 
     def opPointExist(self, opPoint):
-        sigsP = filter(
-            lambda x: x.getName().split(":")[-1] == opPoint, self.dyn.signals()
-        )
-        sigsJ = filter(
-            lambda x: x.getName().split(":")[-1] == "J" + opPoint, self.dyn.signals()
-        )
+        sigsP = [x for x in self.dyn.signals() if x.getName().split(":")[-1] == opPoint]
+        sigsJ = [
+            x for x in self.dyn.signals() if x.getName().split(":")[-1] == "J" + opPoint
+        ]
         return len(sigsP) == 1 & len(sigsJ) == 1
 
     def defineDynEntities(self, dyn):
-- 
2.43.0


From 95e540b97be8cfa8e82c41720f05327cd7fdecec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:57 +0000
Subject: [PATCH 025/124] fix: MetaTaskVisualPoint selects its components with
 flags

---
 src/dynamic_graph/sot/core/meta_task_visual_point.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/meta_task_visual_point.py b/src/dynamic_graph/sot/core/meta_task_visual_point.py
index 096073d..191aab7 100644
--- a/src/dynamic_graph/sot/core/meta_task_visual_point.py
+++ b/src/dynamic_graph/sot/core/meta_task_visual_point.py
@@ -1,4 +1,5 @@
 from dynamic_graph import plug
+from dynamic_graph.sot.core import Flags
 from dynamic_graph.sot.core.feature_visual_point import FeatureVisualPoint
 from dynamic_graph.sot.core.gain_adaptive import GainAdaptive
 from dynamic_graph.sot.core.meta_tasks import setGain
@@ -43,7 +44,7 @@ class MetaTaskVisualPoint(object):
     def createFeatures(self):
         self.feature = FeatureVisualPoint("feature" + self.name)
         self.featureDes = FeatureVisualPoint("feature" + self.name + "_ref")
-        self.feature.selec.value = "11"
+        self.feature.selec.value = Flags("11")
 
     def createTask(self):
         self.task = Task("task" + self.name)
@@ -117,5 +118,7 @@ class MetaTaskVisualPoint(object):
         if ref2D is not None:
             self.ref = ref2D
         if selec is not None:
+            if not isinstance(selec, Flags):
+                selec = Flags(selec)
             self.feature.selec.value = selec
         setGain(self.gain, gain)
-- 
2.43.0


From eb9de5a9e4074844bdb470fc8b2bf18f5337189d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:57 +0000
Subject: [PATCH 026/124] fix: each posture task uses the number of joints of
 its own robot

---
 src/dynamic_graph/sot/core/meta_task_posture.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dynamic_graph/sot/core/meta_task_posture.py b/src/dynamic_graph/sot/core/meta_task_posture.py
index 0109cb8..5ffd28b 100644
--- a/src/dynamic_graph/sot/core/meta_task_posture.py
+++ b/src/dynamic_graph/sot/core/meta_task_posture.py
@@ -60,17 +60,17 @@ class MetaTaskPosture(object):
 
     def gotoq(self, gain=None, qdes=None, **kwargs):
         act = list()
+        if self.nbDof is None:
+            self.nbDof = len(self.feature.errorIN.value)
         if qdes is not None:
             if isinstance(qdes, tuple):
                 qdes = matrix(qdes).T
         else:
-            if MetaTaskPosture.nbDof is None:
-                MetaTaskPosture.nbDof = len(self.feature.errorIN.value)
-            qdes = zeros((MetaTaskPosture.nbDof, 1))
+            qdes = zeros((self.nbDof, 1))
 
         act = [
             False,
-        ] * MetaTaskPosture.nbDof
+        ] * self.nbDof
         for limbName, jointValues in kwargs.items():
             limbRange = self.postureRange[limbName]
             for i in limbRange:
-- 
2.43.0


From be629f5fb1a02053dd2ac287100a22058c41ae69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:57 +0000
Subject: [PATCH 027/124] fix: gotoq keeps the values it is given, and the
 vectors of its caller

---
 src/dynamic_graph/sot/core/meta_task_posture.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dynamic_graph/sot/core/meta_task_posture.py b/src/dynamic_graph/sot/core/meta_task_posture.py
index 5ffd28b..bfbd208 100644
--- a/src/dynamic_graph/sot/core/meta_task_posture.py
+++ b/src/dynamic_graph/sot/core/meta_task_posture.py
@@ -6,7 +6,7 @@ from dynamic_graph.sot.core.matrix_util import matrixToTuple, vectorToTuple
 from dynamic_graph.sot.core.meta_task_6d import toFlags  # noqa
 from dynamic_graph.sot.core.meta_tasks import setGain
 from dynamic_graph.sot.core.task import Task
-from numpy import identity, matrix, zeros
+from numpy import array, identity, matrix, zeros
 
 
 class MetaTaskPosture(object):
@@ -63,8 +63,8 @@ class MetaTaskPosture(object):
         if self.nbDof is None:
             self.nbDof = len(self.feature.errorIN.value)
         if qdes is not None:
-            if isinstance(qdes, tuple):
-                qdes = matrix(qdes).T
+            # A column of real numbers that does not belong to the caller.
+            qdes = array(qdes, dtype=float).reshape(-1, 1)
         else:
             qdes = zeros((self.nbDof, 1))
 
@@ -75,7 +75,7 @@ class MetaTaskPosture(object):
             limbRange = self.postureRange[limbName]
             for i in limbRange:
                 act[i] = True
-            if jointValues != []:
+            if not isinstance(jointValues, list) or jointValues:
                 if isinstance(jointValues, matrix):
                     qdes[limbRange, 0] = vectorToTuple(jointValues)
                 else:
-- 
2.43.0


From 75e8fab08afc5bf8904e2e91ed38bdd78096ab61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:57 +0000
Subject: [PATCH 028/124] fix: a position can be given as a column matrix

---
 src/dynamic_graph/sot/core/meta_tasks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/meta_tasks.py b/src/dynamic_graph/sot/core/meta_tasks.py
index bd38750..b5c1834 100644
--- a/src/dynamic_graph/sot/core/meta_tasks.py
+++ b/src/dynamic_graph/sot/core/meta_tasks.py
@@ -52,7 +52,7 @@ def setGain(gain, val):
 def generic6dReference(p):
     M = eye(4)
     if isinstance(p, (matrix, ndarray)) and p.size == 3:
-        M[0:3, 3] = p
+        M[0:3, 3] = array(p).flatten()
     elif isinstance(p, tuple) and len(p) == 3:
         M[0:3, 3] = p
     elif isinstance(p, (matrix, ndarray)) and p.shape == (4, 4):
-- 
2.43.0


From 83dd319f5dbae58b2ddc3819a6cfb9ed879b49a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:57 +0000
Subject: [PATCH 029/124] fix: FeaturePosition accepts a reference given as an
 array

---
 src/dynamic_graph/sot/core/feature_position.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/feature_position.py b/src/dynamic_graph/sot/core/feature_position.py
index 3cc632e..3a7a12c 100644
--- a/src/dynamic_graph/sot/core/feature_position.py
+++ b/src/dynamic_graph/sot/core/feature_position.py
@@ -34,7 +34,7 @@ class FeaturePosition(Entity):
         self._feature = FeaturePoint6d(name)
         self.obj = self._feature.obj
         self._reference = FeaturePoint6d(name + "_ref")
-        if referencePosition:
+        if referencePosition is not None:
             self._reference.signal("position").value = tuple(referencePosition)
         if signalPosition:
             plug(signalPosition, self._feature.signal("position"))
-- 
2.43.0


From 7de899c8cef430f21b3ff2e47867a0ebabfd3cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:49 +0000
Subject: [PATCH 030/124] fix: a loop can be commanded before its thread has
 begun

---
 src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py b/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
index 7b937c0..c204a54 100644
--- a/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
+++ b/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
@@ -37,7 +37,7 @@ class ThreadInterruptibleLoop(threading.Thread):
         self.isPlay = mode
 
     def play(self):
-        if not self.isRunning:
+        if not self.is_alive():
             self.start()
         self.isOnce = False
         self.setPlay(True)
@@ -50,7 +50,6 @@ class ThreadInterruptibleLoop(threading.Thread):
         self.setPlay(True)
 
     def run(self):
-        self.isQuit = False
         self.isRunning = True
         while not self.isQuit:
             if self.isPlay:
@@ -64,6 +63,7 @@ class ThreadInterruptibleLoop(threading.Thread):
 
     def start(self):
         self.setPlay(True)
+        self.isQuit = False
         threading.Thread.start(self)
 
     def restart(self):
-- 
2.43.0


From e40a5b75834ba33a41ee2d14a5e2f6ccb6f3ce69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:49 +0000
Subject: [PATCH 031/124] fix: a loop that has ended can be restarted

---
 .../sot/core/utils/thread_interruptible_loop.py              | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py b/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
index c204a54..c51eb6b 100644
--- a/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
+++ b/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
@@ -68,9 +68,10 @@ class ThreadInterruptibleLoop(threading.Thread):
 
     def restart(self):
         self.join()
+        # A thread can be started only once: make a new one of it.
+        threading.Thread.__init__(self)
+        self.daemon = True
         self.play()
-        self.setSigHandler()
-        threading.Thread.start(self)
 
     def loop(self):
         None
-- 
2.43.0


From 9095ef9992ea62673cf7e6fa4b5dd3e76c123a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:49 +0000
Subject: [PATCH 032/124] fix: the robot named robot is shown as hrp

---
 src/dynamic_graph/sot/core/utils/viewer_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/utils/viewer_helper.py b/src/dynamic_graph/sot/core/utils/viewer_helper.py
index ca78b11..3de355a 100644
--- a/src/dynamic_graph/sot/core/utils/viewer_helper.py
+++ b/src/dynamic_graph/sot/core/utils/viewer_helper.py
@@ -13,7 +13,7 @@ def stateFullSize(robot, additionalData=()):
 def refreshView(robot):
     if robot.name == "robot":
         name = "hrp"
-    if robot.name == "robot_device":
+    elif robot.name == "robot_device":
         name = "hrp"
     else:
         name = robot.name
-- 
2.43.0


From 88959f5f1f84665c15bd35ec4e9220a235775a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:49 +0000
Subject: [PATCH 033/124] fix: the state of the robot shown can be a numpy
 array

---
 src/dynamic_graph/sot/core/utils/viewer_helper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamic_graph/sot/core/utils/viewer_helper.py b/src/dynamic_graph/sot/core/utils/viewer_helper.py
index 3de355a..d87f5a6 100644
--- a/src/dynamic_graph/sot/core/utils/viewer_helper.py
+++ b/src/dynamic_graph/sot/core/utils/viewer_helper.py
@@ -7,7 +7,7 @@ class RobotViewerFaked:
 
 
 def stateFullSize(robot, additionalData=()):
-    return [float(val) for val in robot.state.value + additionalData]
+    return [float(val) for val in list(robot.state.value) + list(additionalData)]
 
 
 def refreshView(robot):
-- 
2.43.0


From db5bae2dd96f291b7a4ae9caf245a54050ca85cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:49 +0000
Subject: [PATCH 034/124] fix: a robot can be attached to a viewer more than
 once

---
 src/dynamic_graph/sot/core/utils/viewer_helper.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/viewer_helper.py b/src/dynamic_graph/sot/core/utils/viewer_helper.py
index d87f5a6..e5dd1b3 100644
--- a/src/dynamic_graph/sot/core/utils/viewer_helper.py
+++ b/src/dynamic_graph/sot/core/utils/viewer_helper.py
@@ -63,10 +63,12 @@ def addRobotViewer(robot, **args):
         robot.viewer = robotviewer.client(server)
 
         RobotClass.refresh = refreshView
-        RobotClass.incrementNoView = RobotClass.increment
-        RobotClass.increment = incrementView
-        RobotClass.setNoView = RobotClass.set
-        RobotClass.set = setView
+        if RobotClass.increment is not incrementView:
+            RobotClass.incrementNoView = RobotClass.increment
+            RobotClass.increment = incrementView
+        if RobotClass.set is not setView:
+            RobotClass.setNoView = RobotClass.set
+            RobotClass.set = setView
 
         robot.displayList = []
 
-- 
2.43.0


From 42f5bb8b97053ad01b50e2bfef17d90b49b11000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:51 +0000
Subject: [PATCH 035/124] fix: a robot without viewer can be moved when another
 robot of its class has one

---
 src/dynamic_graph/sot/core/utils/viewer_helper.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/viewer_helper.py b/src/dynamic_graph/sot/core/utils/viewer_helper.py
index e5dd1b3..9061536 100644
--- a/src/dynamic_graph/sot/core/utils/viewer_helper.py
+++ b/src/dynamic_graph/sot/core/utils/viewer_helper.py
@@ -48,6 +48,8 @@ def addRobotViewer(robot, **args):
     small_extra = args.get("small_extra", 10)
     server = args.get("server", "XML-RPC")
 
+    robot.displayList = []
+
     try:
         import robotviewer
 
@@ -70,8 +72,6 @@ def addRobotViewer(robot, **args):
             RobotClass.setNoView = RobotClass.set
             RobotClass.set = setView
 
-        robot.displayList = []
-
         # Check the connection
         if args.get("dorefresh", True):
             robot.refresh()
-- 
2.43.0


From e7c38dae79fdf7de57c694acbe7370fb7e8bf2ae Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:37:43 +0000
Subject: [PATCH 036/124] fix: derivative of a feature error reads or writes
 out of bounds when sizes differ

---
 src/feature/feature-abstract.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/feature/feature-abstract.cpp b/src/feature/feature-abstract.cpp
index 42c0791..c4fbf71 100644
--- a/src/feature/feature-abstract.cpp
+++ b/src/feature/feature-abstract.cpp
@@ -106,16 +106,17 @@ dynamicgraph::Vector &FeatureAbstract::computeErrorDot(
     const dynamicgraph::Vector &errdotDes =
         getReferenceAbstract()->errordotSIN(time);
     sotDEBUG(15) << "Err* = " << errdotDes;
-    if (errdotDes.size() < dim) {
-      SOT_THROW ExceptionFeature(
-          ExceptionFeature::UNCOMPATIBLE_SIZE,
-          "Error: dimension uncompatible with des->errorIN size."
-          " (while considering feature <%s>).",
-          getName().c_str());
-    }
-
-    for (int i = 0; i < errdotDes.size(); ++i)
-      if (fl(i)) res(curr++) = -errdotDes(i);
+    for (int i = 0; (int)curr < dim; ++i)
+      if (fl(i)) {
+        if (errdotDes.size() <= i) {
+          SOT_THROW ExceptionFeature(
+              ExceptionFeature::UNCOMPATIBLE_SIZE,
+              "Error: dimension uncompatible with des->errorIN size."
+              " (while considering feature <%s>).",
+              getName().c_str());
+        }
+        res(curr++) = -errdotDes(i);
+      }
   } else
     res.setZero();
 
-- 
2.43.0


From 871cfddbb944538c334c7688d5ea340d2917f713 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:37:43 +0000
Subject: [PATCH 037/124] fix: generic feature reads beyond a shorter reference

---
 src/feature/feature-generic.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/feature/feature-generic.cpp b/src/feature/feature-generic.cpp
index 77c20eb..eb70ec5 100644
--- a/src/feature/feature-generic.cpp
+++ b/src/feature/feature-generic.cpp
@@ -97,17 +97,17 @@ Vector &FeatureGeneric::computeError(Vector &res, int time) {
   if (isReferenceSet()) {
     const Vector &errDes = getReference()->errorSIN(time);
     sotDEBUG(15) << "Err* = " << errDes;
-    if (errDes.size() < dim) {
-      SOT_THROW ExceptionFeature(
-          ExceptionFeature::UNCOMPATIBLE_SIZE,
-          "Error: dimension uncompatible with des->errorIN size."
-          " (while considering feature <%s>).",
-          getName().c_str());
-    }
-
     for (int i = 0; i < err.size(); ++i)
-      if (fl(i))
-        if (fl(i)) res(curr++) = err(i) - errDes(i);
+      if (fl(i)) {
+        if (errDes.size() <= i) {
+          SOT_THROW ExceptionFeature(
+              ExceptionFeature::UNCOMPATIBLE_SIZE,
+              "Error: dimension uncompatible with des->errorIN size."
+              " (while considering feature <%s>).",
+              getName().c_str());
+        }
+        res(curr++) = err(i) - errDes(i);
+      }
   } else {
     for (int i = 0; i < err.size(); ++i)
       if (fl(i)) res(curr++) = err(i);
-- 
2.43.0


From 391d4e92b572572ff9222f3085924c9636f0ce1d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:37:43 +0000
Subject: [PATCH 038/124] fix: generic feature reads beyond a Jacobian with too
 few rows

---
 src/feature/feature-generic.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/feature/feature-generic.cpp b/src/feature/feature-generic.cpp
index eb70ec5..170ba1c 100644
--- a/src/feature/feature-generic.cpp
+++ b/src/feature/feature-generic.cpp
@@ -128,6 +128,13 @@ Matrix &FeatureGeneric::computeJacobian(Matrix &res, int time) {
 
   for (unsigned int i = 0; curr < dim; ++i)
     if (fl(i)) {
+      if (Jac.rows() <= i) {
+        SOT_THROW ExceptionFeature(
+            ExceptionFeature::UNCOMPATIBLE_SIZE,
+            "Error: dimension uncompatible with jacobianIN size."
+            " (while considering feature <%s>).",
+            getName().c_str());
+      }
       for (int j = 0; j < Jac.cols(); ++j) res(curr, j) = Jac(i, j);
       curr++;
     }
-- 
2.43.0


From f1e072d8305946086573f1c6a7bbdb5b9516eeca Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:37:43 +0000
Subject: [PATCH 039/124] fix: changing the reference of a feature keeps the
 dependencies on the old one

---
 include/sot/core/feature-abstract.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sot/core/feature-abstract.hh b/include/sot/core/feature-abstract.hh
index 18fea95..225f345 100644
--- a/include/sot/core/feature-abstract.hh
+++ b/include/sot/core/feature-abstract.hh
@@ -257,6 +257,7 @@ void FeatureReferenceHelper<FeatureSpecialized>::setReference(
       SP::unsetReference();                                         \
     } else {                                                        \
       /* SET */                                                     \
+      if (SP::isReferenceSet()) removeDependenciesFromReference();  \
       SP::setReference(sdes);                                       \
       if (SP::isReferenceSet()) addDependenciesFromReference();     \
     }                                                               \
-- 
2.43.0


From 34f5b17289593ba60e50f077a62f38868754391f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:38:26 +0000
Subject: [PATCH 040/124] fix: outputs of a feature keep their old size when
 its dimension changes

---
 src/feature/feature-abstract.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/feature/feature-abstract.cpp b/src/feature/feature-abstract.cpp
index c4fbf71..02b8462 100644
--- a/src/feature/feature-abstract.cpp
+++ b/src/feature/feature-abstract.cpp
@@ -43,6 +43,9 @@ FeatureAbstract::FeatureAbstract(const std::string &name)
                     selectionSIN,
                     "sotFeatureAbstract(" + name + ")::output(uint)::dim") {
   selectionSIN = true;
+  errorSOUT.addDependency(dimensionSOUT);
+  errordotSOUT.addDependency(dimensionSOUT);
+  jacobianSOUT.addDependency(dimensionSOUT);
   signalRegistration(selectionSIN << errorSOUT << jacobianSOUT
                                   << dimensionSOUT);
   featureRegistration();
-- 
2.43.0


From cb386ae89ef4dbc9ee2b118177599d026a8915bd Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:38:26 +0000
Subject: [PATCH 041/124] fix: Jacobian of Feature1D does not follow its error

---
 src/feature/feature-1d.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/feature/feature-1d.cpp b/src/feature/feature-1d.cpp
index 9635784..e1530d5 100644
--- a/src/feature/feature-1d.cpp
+++ b/src/feature/feature-1d.cpp
@@ -33,6 +33,7 @@ Feature1D::Feature1D(const string &pointName)
       jacobianSIN(NULL,
                   "sotFeature1D(" + name + ")::input(matrix)::jacobianIN") {
   jacobianSOUT.addDependency(jacobianSIN);
+  jacobianSOUT.addDependency(errorSIN);
   errorSOUT.addDependency(errorSIN);
 
   signalRegistration(errorSIN << jacobianSIN);
-- 
2.43.0


From 9826cce634cc8875f7f43b9a436dd3218a66a28a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:38:26 +0000
Subject: [PATCH 042/124] fix: Jacobian of FeatureVector3 does not follow its
 vector

---
 src/feature/feature-vector3.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/feature/feature-vector3.cpp b/src/feature/feature-vector3.cpp
index 9b7899d..70de434 100644
--- a/src/feature/feature-vector3.cpp
+++ b/src/feature/feature-vector3.cpp
@@ -40,6 +40,7 @@ FeatureVector3::FeatureVector3(const string &pointName)
           NULL, "sotFeatureVector3(" + name + ")::input(matrix)::Jq"),
       positionRefSIN(
           NULL, "sotFeatureVector3(" + name + ")::input(vector)::positionRef") {
+  jacobianSOUT.addDependency(vectorSIN);
   jacobianSOUT.addDependency(positionSIN);
   jacobianSOUT.addDependency(articularJacobianSIN);
 
-- 
2.43.0


From 314a7386f22781169c4ffe83eb377c01a403ee6d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:38:26 +0000
Subject: [PATCH 043/124] fix: error of FeaturePosture does not follow its
 posture and selection

---
 src/feature/feature-posture.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/feature/feature-posture.cpp b/src/feature/feature-posture.cpp
index ca60c5c..4a66fed 100644
--- a/src/feature/feature-posture.cpp
+++ b/src/feature/feature-posture.cpp
@@ -44,6 +44,8 @@ FeaturePosture::FeaturePosture(const std::string &name)
   signalRegistration(state_ << posture_ << postureDot_);
 
   errorSOUT.addDependency(state_);
+  errorSOUT.addDependency(posture_);
+  errordotSOUT.addDependency(postureDot_);
   jacobianSOUT.setConstant(Matrix());
 
   std::string docstring;
@@ -147,6 +149,9 @@ void FeaturePosture::selectDof(unsigned dofId, bool control) {
   }
 
   jacobianSOUT.setConstant(J);
+  dimensionSOUT.setReady();
+  errorSOUT.setReady();
+  errordotSOUT.setReady();
 }
 
 DYNAMICGRAPH_FACTORY_ENTITY_PLUGIN(FeaturePosture, "FeaturePosture");
-- 
2.43.0


From c8ec1d61290b756cc1a50bfbb56742bb61c558e3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:38:26 +0000
Subject: [PATCH 044/124] fix: dimension and Jacobian of FeatureJointLimits do
 not follow its limits

---
 src/feature/feature-joint-limits.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/feature/feature-joint-limits.cpp b/src/feature/feature-joint-limits.cpp
index c36ef57..e3b2875 100644
--- a/src/feature/feature-joint-limits.cpp
+++ b/src/feature/feature-joint-limits.cpp
@@ -49,6 +49,9 @@ FeatureJointLimits::FeatureJointLimits(const string &fName)
   errorSOUT.addDependency(jointSIN);
   errorSOUT.addDependency(upperJlSIN);
   errorSOUT.addDependency(lowerJlSIN);
+  dimensionSOUT.addDependency(upperJlSIN);
+  jacobianSOUT.addDependency(jointSIN);
+  jacobianSOUT.addDependency(widthJlSINTERN);
 
   signalRegistration(jointSIN << upperJlSIN << lowerJlSIN << widthJlSINTERN);
 
-- 
2.43.0


From ac00587bb2728827425eafd63f49b2524d1a712e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:38:26 +0000
Subject: [PATCH 045/124] fix: Jacobian of FeatureJointLimits is half the
 derivative of its error

---
 src/feature/feature-joint-limits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/feature/feature-joint-limits.cpp b/src/feature/feature-joint-limits.cpp
index e3b2875..14db31f 100644
--- a/src/feature/feature-joint-limits.cpp
+++ b/src/feature/feature-joint-limits.cpp
@@ -125,7 +125,7 @@ Matrix &FeatureJointLimits::computeJacobian(Matrix &J, int time) {
   for (unsigned int i = 0; i < SIZE_TOTAL; ++i) {
     if (fl(i)) {
       if (fabs(WJL(i)) > 1e-3)
-        J(idx, i) = 1 / WJL(i);
+        J(idx, i) = 2 / WJL(i);
       else
         J(idx, i) = 1.;
       idx++;
-- 
2.43.0


From 347cc969e797a242a98793b0835b0f115dccd3e2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:38:26 +0000
Subject: [PATCH 046/124] fix: actuate of FeatureJointLimits selects nothing

---
 src/feature/feature-joint-limits-command.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/feature/feature-joint-limits-command.h b/src/feature/feature-joint-limits-command.h
index 08fface..f0054c2 100644
--- a/src/feature/feature-joint-limits-command.h
+++ b/src/feature/feature-joint-limits-command.h
@@ -33,7 +33,7 @@ class Actuate : public Command {
       : Command(entity, std::vector<Value::Type>(), docstring) {}
   virtual Value doExecute() {
     FeatureJointLimits &fjl = static_cast<FeatureJointLimits &>(owner());
-    Flags fl(63);  // 0x0000003f = 00000000000000000000000000111111
+    Flags fl("111111");  // the free-flyer
     fjl.selectionSIN = (!fl);
     // return void
     return Value();
-- 
2.43.0


From 843f3df24db8628d29f8f53cba15aa44bc1d6e72 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:42:20 +0000
Subject: [PATCH 047/124] fix: rethrown errors lose their class

---
 include/sot/core/exception-abstract.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sot/core/exception-abstract.hh b/include/sot/core/exception-abstract.hh
index dc9c907..46a70c4 100644
--- a/include/sot/core/exception-abstract.hh
+++ b/include/sot/core/exception-abstract.hh
@@ -120,7 +120,7 @@ class SOT_CORE_EXPORT ExceptionAbstract : public std::exception {
 };
 
 #define SOT_RETHROW \
-  (const ExceptionAbstract &err) { throw err; }
+  (const ExceptionAbstract &) { throw; }
 
 #ifdef SOT_EXCEPTION_PASSING_PARAM
 #define SOT_THROW \
-- 
2.43.0


From 9a6392bd03cb1351941557470e73746bdad5cbfa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:42:20 +0000
Subject: [PATCH 048/124] fix: TaskConti terminates the program when its
 control does not match the Jacobian

---
 src/task/task-conti.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/task-conti.cpp b/src/task/task-conti.cpp
index 4129f95..538216c 100644
--- a/src/task/task-conti.cpp
+++ b/src/task/task-conti.cpp
@@ -51,7 +51,7 @@ VectorMultiBound &TaskConti::computeContiDesiredVelocity(
     dynamicgraph::Vector deref(J.rows());
     sotDEBUG(15) << "q0 = " << q0 << std::endl;
     sotDEBUG(25) << "J = " << J << std::endl;
-    if (q0.size() != (J.cols() - 6)) throw;  // TODO
+    if (q0.size() != (J.cols() - 6)) throw 1;  // TODO
     for (int i = 0; i < J.rows(); ++i) {
       deref(i) = 0;
       for (int j = 6; j < J.cols(); ++j) deref(i) += J(i, j) * q0(j - 6);
-- 
2.43.0


From 4bfc9a784a5b258c0a540fab53213b306122f343 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:47:58 +0000
Subject: [PATCH 049/124] fix: integration of a device reads out of bounds when
 limits are not set

---
 src/tools/device.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index d07de74..de7d129 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -532,7 +532,7 @@ void Device::integrate(const double &dt) {
   }
 
   // Velocity bounds check
-  if (sanityCheck_) {
+  if (sanityCheck_ && lowerVelocity_.size() == velocity_.size()) {
     CHECK_BOUNDS(velocity_, lowerVelocity_, upperVelocity_, "velocity");
   }
 
@@ -547,7 +547,7 @@ void Device::integrate(const double &dt) {
   }
 
   // Position bounds check
-  if (sanityCheck_) {
+  if (sanityCheck_ && lowerPosition_.size() == state_.size()) {
     CHECK_BOUNDS(state_, lowerPosition_, upperPosition_, "position");
   }
 }
-- 
2.43.0


From fd5399882e88b0ab7d8152b3c92da26a11ee0ed0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:47:58 +0000
Subject: [PATCH 050/124] fix: velocity control of a device is not limited to
 the velocity bounds

---
 src/tools/device.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index de7d129..5207245 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -532,6 +532,11 @@ void Device::integrate(const double &dt) {
   }
 
   // Velocity bounds check
+  if (sanityCheck_ && controlInputType_ == CONTROL_INPUT_ONE_INTEGRATION &&
+      lowerVelocity_.size() == state_.size()) {
+    CHECK_BOUNDS(vel_control_, lowerVelocity_.tail(vel_control_.size()),
+                 upperVelocity_.tail(vel_control_.size()), "velocity");
+  }
   if (sanityCheck_ && lowerVelocity_.size() == velocity_.size()) {
     CHECK_BOUNDS(velocity_, lowerVelocity_, upperVelocity_, "velocity");
   }
-- 
2.43.0


From 030db73136c538c5e411af12e0f24b46a74576e8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:47:58 +0000
Subject: [PATCH 051/124] fix: position control of a device is not limited to
 the position bounds

---
 src/tools/device.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index 5207245..e3cc13d 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -512,6 +512,9 @@ void Device::integrate(const double &dt) {
 
   if (controlInputType_ == CONTROL_INPUT_NO_INTEGRATION) {
     state_.tail(controlIN.size()) = controlIN;
+    if (sanityCheck_ && lowerPosition_.size() == state_.size()) {
+      CHECK_BOUNDS(state_, lowerPosition_, upperPosition_, "position");
+    }
     return;
   }
 
-- 
2.43.0


From 7209494c48cb9cef4ca17031d027c4204227a70f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 23:47:58 +0000
Subject: [PATCH 052/124] fix: setRoot of a device writes out of bounds and
 does not set the root

---
 src/tools/device.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/device.cpp b/src/tools/device.cpp
index e3cc13d..a221c8b 100644
--- a/src/tools/device.cpp
+++ b/src/tools/device.cpp
@@ -298,8 +298,9 @@ void Device::setRoot(const Matrix &root) {
 void Device::setRoot(const MatrixHomogeneous &worldMwaist) {
   VectorRollPitchYaw r = (worldMwaist.linear().eulerAngles(2, 1, 0)).reverse();
   Vector q = state_;
-  q = worldMwaist.translation();  // abusive ... but working.
+  q.head<3>() = worldMwaist.translation();
   for (unsigned int i = 0; i < 3; ++i) q(i + 3) = r(i);
+  setState(q);
 }
 
 void Device::setSecondOrderIntegration() {
-- 
2.43.0


From 67d0a2acf488d0121048dfb0d937d9fcf27a437e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:08:20 +0000
Subject: [PATCH 053/124] fix: first evaluation of Event depends on the value
 of the condition

lastVal_ was meant to be different from both true and false at start, but
it was stored in a bool.
---
 include/sot/core/event.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sot/core/event.hh b/include/sot/core/event.hh
index c2196af..ccef1da 100644
--- a/include/sot/core/event.hh
+++ b/include/sot/core/event.hh
@@ -115,7 +115,7 @@ class SOT_CORE_DLLAPI Event : public dynamicgraph::Entity {
   Triggers_t triggers;
   SignalPtr<bool, int> conditionSIN;
 
-  bool lastVal_;
+  int lastVal_;
   int timeSinceUp_, repeatAfterNIterations_;
 };
 }  // namespace sot
-- 
2.43.0


From d94a98159fafa81aae160c874060da140147d750 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:08:20 +0000
Subject: [PATCH 054/124] fix: Event triggers while its condition is false when
 repeat is lowered

---
 src/tools/event.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/event.cpp b/src/tools/event.cpp
index ae388ca..683d4d7 100644
--- a/src/tools/event.cpp
+++ b/src/tools/event.cpp
@@ -18,7 +18,7 @@ bool &Event::check(bool &ret, const int &time) {
     ++timeSinceUp_;
   }
   // If repetition is activated, trigger again after given number of iterations
-  bool trigger = up || (repeatAfterNIterations_ > 0 &&
+  bool trigger = up || (val && repeatAfterNIterations_ > 0 &&
                         timeSinceUp_ >= repeatAfterNIterations_);
   if (ret) {
     lastVal_ = val;
-- 
2.43.0


From 4f6cdc61ec4c6ba239149a8d1e4739a44923f3f2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:08:29 +0000
Subject: [PATCH 055/124] fix: periodic call of a signal with downsampling 0
 divides by zero

---
 src/tools/periodic-call.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tools/periodic-call.cpp b/src/tools/periodic-call.cpp
index 9790808..70e079a 100644
--- a/src/tools/periodic-call.cpp
+++ b/src/tools/periodic-call.cpp
@@ -50,6 +50,9 @@ void PeriodicCall::addSignal(const std::string &sigpath) {
 void PeriodicCall::addDownsampledSignal(
     const std::string &name, SignalBase<int> &sig,
     const unsigned int &downsamplingFactor) {
+  if (downsamplingFactor == 0)
+    throw ExceptionTools(ExceptionTools::GENERIC,
+                         "downsampling factor should not be zero");
   signalMap[name] = SignalToCall(&sig, downsamplingFactor);
   return;
 }
-- 
2.43.0


From d8caf36f808e66e3c682076700f2d25b51e5a98f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:11:21 +0000
Subject: [PATCH 056/124] fix: Mailbox goes back to an older message while
 another one is posted

---
 include/sot/core/mailbox.hxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sot/core/mailbox.hxx b/include/sot/core/mailbox.hxx
index 110a712..c0504e0 100644
--- a/include/sot/core/mailbox.hxx
+++ b/include/sot/core/mailbox.hxx
@@ -68,6 +68,10 @@ typename Mailbox<Object>::sotTimestampedObject &Mailbox<Object>::get(
 
     update = false;
     res.obj = this->mainObject;
+  } else {
+    // A message is being posted: keep the last one. res is only the work
+    // buffer of the signal, and holds an older value.
+    res = SOUT.accessCopy();
   }
 
   return res;
-- 
2.43.0


From aa66ac6205de4ba193c924cd8fef7c75de1260ee Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:28:59 +0000
Subject: [PATCH 057/124] fix: number of joints of a robot is not initialised

---
 src/tools/robot-utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/robot-utils.cpp b/src/tools/robot-utils.cpp
index f628855..09033e9 100644
--- a/src/tools/robot-utils.cpp
+++ b/src/tools/robot-utils.cpp
@@ -226,7 +226,7 @@ void ForceUtil::display(std::ostream &os) const {
 }
 
 /**************** FromURDFToSot *************************/
-RobotUtil::RobotUtil() {}
+RobotUtil::RobotUtil() : m_nbJoints(0) {}
 
 void RobotUtil::set_joint_limits_for_id(const Index &idx, const double &lq,
                                         const double &uq) {
-- 
2.43.0


From a624c9c0757f039c7c28fd30958f3c1689a41b81 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:28:59 +0000
Subject: [PATCH 058/124] fix: force ids of hands and feet are not initialised

---
 include/sot/core/robot-utils.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/sot/core/robot-utils.hh b/include/sot/core/robot-utils.hh
index fa256e7..2573b04 100644
--- a/include/sot/core/robot-utils.hh
+++ b/include/sot/core/robot-utils.hh
@@ -76,6 +76,12 @@ struct SOT_CORE_EXPORT ForceUtil {
   Index m_Force_Id_Left_Hand, m_Force_Id_Right_Hand, m_Force_Id_Left_Foot,
       m_Force_Id_Right_Foot;
 
+  ForceUtil()
+      : m_Force_Id_Left_Hand(-1),
+        m_Force_Id_Right_Hand(-1),
+        m_Force_Id_Left_Foot(-1),
+        m_Force_Id_Right_Foot(-1) {}
+
   void set_name_to_force_id(const std::string &name, const Index &force_id);
 
   void set_force_id_to_limits(const Index &force_id,
-- 
2.43.0


From 628b3921f31055fc0d9236e91eae26a02b8c4669 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:28:59 +0000
Subject: [PATCH 059/124] fix: the name of an id remains when the name gets
 another id

---
 src/tools/robot-utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/robot-utils.cpp b/src/tools/robot-utils.cpp
index 09033e9..51e3d91 100644
--- a/src/tools/robot-utils.cpp
+++ b/src/tools/robot-utils.cpp
@@ -174,6 +174,7 @@ std::string ForceUtil::cp_get_name_from_id(Index idx) {
 }
 void ForceUtil::create_force_id_to_name_map() {
   std::map<std::string, Index>::const_iterator it;
+  m_force_id_to_name.clear();
   for (it = m_name_to_force_id.begin(); it != m_name_to_force_id.end(); it++)
     m_force_id_to_name[it->second] = it->first;
 }
@@ -251,6 +252,7 @@ void RobotUtil::set_name_to_id(const std::string &jointName,
 
 void RobotUtil::create_id_to_name_map() {
   std::map<std::string, Index>::const_iterator it;
+  m_id_to_name.clear();
   for (it = m_name_to_id.begin(); it != m_name_to_id.end(); it++)
     m_id_to_name[it->second] = it->first;
 }
-- 
2.43.0


From 4e27be73cf07b6fa83af04156c8187fd07d7a59e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:29:00 +0000
Subject: [PATCH 060/124] fix: a parameter server is used without robot when
 init_simple fails

---
 src/tools/parameter-server.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/tools/parameter-server.cpp b/src/tools/parameter-server.cpp
index face65a..c55382a 100644
--- a/src/tools/parameter-server.cpp
+++ b/src/tools/parameter-server.cpp
@@ -207,11 +207,6 @@ ParameterServer::ParameterServer(const std::string &name)
 void ParameterServer::init_simple(const double &dt) {
   if (dt <= 0.0) return SEND_MSG("Timestep must be positive", MSG_TYPE_ERROR);
 
-  m_dt = dt;
-
-  m_emergency_stop_triggered = false;
-  m_initSucceeded = true;
-
   std::string localName("robot");
   std::shared_ptr<std::vector<std::string> > listOfRobots =
       sot::getListOfRobots();
@@ -232,6 +227,10 @@ void ParameterServer::init_simple(const double &dt) {
     m_robot_util = getRobotUtil(localName);
   }
 
+  m_dt = dt;
+  m_emergency_stop_triggered = false;
+  m_initSucceeded = true;
+
   addCommand(
       "getJointsUrdfToSot",
       makeDirectGetter(*this, &m_robot_util->m_dgv_urdf_to_sot,
-- 
2.43.0


From 4f2d52f172c2f4971987dc3973b033e02f1184ea Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:29:00 +0000
Subject: [PATCH 061/124] fix: displayRobotUtil terminates the program before
 init

---
 src/tools/parameter-server.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tools/parameter-server.cpp b/src/tools/parameter-server.cpp
index c55382a..4f5e311 100644
--- a/src/tools/parameter-server.cpp
+++ b/src/tools/parameter-server.cpp
@@ -374,7 +374,13 @@ void ParameterServer::setImuJointName(const std::string &JointName) {
   m_robot_util->m_imu_joint_name = JointName;
 }
 
-void ParameterServer::displayRobotUtil() { m_robot_util->display(std::cout); }
+void ParameterServer::displayRobotUtil() {
+  if (!m_initSucceeded) {
+    SEND_WARNING_STREAM_MSG("Cannot display robot util before initialization!");
+    return;
+  }
+  m_robot_util->display(std::cout);
+}
 
 /* --- PROTECTED MEMBER METHODS
  * ---------------------------------------------------------- */
-- 
2.43.0


From 92034cc975eef3f5bf00d510871c3d332a032eaa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:41:21 +0000
Subject: [PATCH 062/124] fix: time stamp of a trajectory is not read

---
 src/tools/trajectory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/trajectory.cpp b/src/tools/trajectory.cpp
index 3036a5d..45512ee 100644
--- a/src/tools/trajectory.cpp
+++ b/src/tools/trajectory.cpp
@@ -104,8 +104,10 @@ void RulesJointTrajectory::parse_header(std::string &trajectory,
   if (search_exp_sub_string(trajectory, what, header_re, sub_text1)) {
     is.str(what[1]);
     is >> TrajectoryToFill_.header_.seq_;
+    is.clear();
     is.str(what[2]);
     is >> TrajectoryToFill_.header_.stamp_.secs_;
+    is.clear();
     is.str(what[3]);
     is >> TrajectoryToFill_.header_.stamp_.nsecs_;
     TrajectoryToFill_.header_.frame_id_ = what[4];
-- 
2.43.0


From ecbd84a2a17c00cfe102b9d054eb82b9c758c3ef Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:41:21 +0000
Subject: [PATCH 063/124] fix: reading a trajectory never ends when the list of
 joints is not closed

---
 src/tools/trajectory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/trajectory.cpp b/src/tools/trajectory.cpp
index 45512ee..a54f083 100644
--- a/src/tools/trajectory.cpp
+++ b/src/tools/trajectory.cpp
@@ -147,7 +147,8 @@ void RulesJointTrajectory::parse_joint_names(
                   << std::endl;
         std::cout << "sub_text1:" << sub_text1 << std::endl;
       }
-    }
+    } else
+      joint_names_loop = false;
     trajectory = sub_text1;
 
   } while (joint_names_loop);
-- 
2.43.0


From 5b1d11af34885e0955e55a29d726235e309c7506 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:41:21 +0000
Subject: [PATCH 064/124] fix: copy of a trajectory loses the names of the
 joints

---
 src/tools/trajectory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tools/trajectory.cpp b/src/tools/trajectory.cpp
index a54f083..372ee7e 100644
--- a/src/tools/trajectory.cpp
+++ b/src/tools/trajectory.cpp
@@ -284,9 +284,10 @@ void RulesJointTrajectory::parse_string(std::string &atext) {
   parse_points(sub_text1, sub_text2);
 }
 
-Trajectory::Trajectory(void) {}
+Trajectory::Trajectory(void) : time_from_start_(0.) {}
 
 Trajectory::Trajectory(const Trajectory &copy) {
+  joint_names_ = copy.joint_names_;
   header_ = copy.header_;
   time_from_start_ = copy.time_from_start_;
   points_ = copy.points_;
-- 
2.43.0


From c87279dbec5ab4bc275c1b7cfbf70c8be2fc0af4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:41:21 +0000
Subject: [PATCH 065/124] fix: reading a trajectory keeps the joints and the
 points of the previous one

---
 src/tools/trajectory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/trajectory.cpp b/src/tools/trajectory.cpp
index 372ee7e..8ebf7b0 100644
--- a/src/tools/trajectory.cpp
+++ b/src/tools/trajectory.cpp
@@ -297,6 +297,8 @@ Trajectory::~Trajectory(void) {}
 
 int Trajectory::deserialize(std::istringstream &is) {
   std::string aStr = is.str();
+  joint_names_.clear();
+  points_.clear();
   RulesJointTrajectory aRJT(*this);
   aRJT.parse_string(aStr);
 
-- 
2.43.0


From 4d1b2cc77e0188ad3278d94f957915ae16b17e81 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:41:21 +0000
Subject: [PATCH 066/124] fix: joint trajectory entity reads an empty queue
 when it has no initial trajectory

---
 src/tools/joint-trajectory-entity.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/tools/joint-trajectory-entity.cpp b/src/tools/joint-trajectory-entity.cpp
index 18317b5..ad2e0f8 100644
--- a/src/tools/joint-trajectory-entity.cpp
+++ b/src/tools/joint-trajectory-entity.cpp
@@ -206,10 +206,11 @@ void SotJointTrajectoryEntity::UpdateTrajectory(const Trajectory &aTrajectory) {
 int &SotJointTrajectoryEntity::OneStepOfUpdate(int &dummy, const int &time) {
   sotDEBUGIN(4);
   const Trajectory &atraj = trajectorySIN(time);
-  if ((atraj.header_.stamp_.secs_ !=
-       deque_traj_.front().header_.stamp_.secs_) ||
-      (atraj.header_.stamp_.nsecs_ !=
-       deque_traj_.front().header_.stamp_.nsecs_)) {
+  if (!deque_traj_.empty() &&
+      ((atraj.header_.stamp_.secs_ !=
+        deque_traj_.front().header_.stamp_.secs_) ||
+       (atraj.header_.stamp_.nsecs_ !=
+        deque_traj_.front().header_.stamp_.nsecs_))) {
     if (index_ < deque_traj_.front().points_.size() - 1) {
       sotDEBUG(4) << "Overwrite trajectory without completion." << index_ << " "
                   << deque_traj_.front().points_.size() << std::endl;
-- 
2.43.0


From 383d4550a7bac0bf74ef69f8c88c1800fca4556f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:41:21 +0000
Subject: [PATCH 067/124] fix: joint trajectory entity reads out of bounds and
 outputs uninitialised values

---
 src/tools/joint-trajectory-entity.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tools/joint-trajectory-entity.cpp b/src/tools/joint-trajectory-entity.cpp
index ad2e0f8..f455838 100644
--- a/src/tools/joint-trajectory-entity.cpp
+++ b/src/tools/joint-trajectory-entity.cpp
@@ -91,9 +91,10 @@ void SotJointTrajectoryEntity::UpdatePoint(const JointTrajectoryPoint &aJTP) {
   sotDEBUGIN(5);
   // Posture
   std::vector<JointTrajectoryPoint>::size_type possize = aJTP.positions_.size();
-  if (possize == 0) return;
+  // The last five values are the center of mass and the center of pressure.
+  if (possize < 5) return;
 
-  pose_.resize(aJTP.positions_.size());
+  pose_.resize(possize - 5);
   for (std::vector<JointTrajectoryPoint>::size_type i = 0; i < possize - 5;
        i++) {
     pose_(i) = aJTP.positions_[i];
-- 
2.43.0


From 0302f23626021692eb5bd90dd5afd05ebf6cc2eb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:41:21 +0000
Subject: [PATCH 068/124] fix: position of the waist is turned by its
 orientation

---
 src/tools/joint-trajectory-entity.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/joint-trajectory-entity.cpp b/src/tools/joint-trajectory-entity.cpp
index f455838..26143af 100644
--- a/src/tools/joint-trajectory-entity.cpp
+++ b/src/tools/joint-trajectory-entity.cpp
@@ -237,7 +237,7 @@ sot::MatrixHomogeneous SotJointTrajectoryEntity::XYZThetaToMatrixHomogeneous(
   trans = Eigen::Translation3d(t);
   Eigen::Affine3d _Rd(Eigen::AngleAxisd(xyztheta(3), Eigen::Vector3d::UnitZ()));
   sot::MatrixHomogeneous res;
-  res = _Rd * trans;
+  res = trans * _Rd;
   return res;
 }
 
-- 
2.43.0


From ad8f7ad2f7e1fc403d714d4355c725746a8138a7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:41:21 +0000
Subject: [PATCH 069/124] fix: waist is not initialised before the first point
 of a trajectory

---
 src/tools/joint-trajectory-entity.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tools/joint-trajectory-entity.cpp b/src/tools/joint-trajectory-entity.cpp
index 26143af..c774281 100644
--- a/src/tools/joint-trajectory-entity.cpp
+++ b/src/tools/joint-trajectory-entity.cpp
@@ -66,6 +66,7 @@ SotJointTrajectoryEntity::SotJointTrajectoryEntity(const std::string &n)
       deque_traj_(0) {
   using namespace command;
   sotDEBUGIN(5);
+  waist_.setIdentity();
 
   signalRegistration(positionSOUT << comSOUT << zmpSOUT << waistSOUT
                                   << seqIdSOUT << trajectorySIN);
-- 
2.43.0


From aabc1f54d155dc83840c97fadaeded1f4a9adccc Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:43:19 +0000
Subject: [PATCH 070/124] fix: filter of numbers adds its previous outputs

---
 src/matrix/fir-filter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matrix/fir-filter.cpp b/src/matrix/fir-filter.cpp
index 358cf45..a6ed1ce 100644
--- a/src/matrix/fir-filter.cpp
+++ b/src/matrix/fir-filter.cpp
@@ -51,6 +51,11 @@ SOT_FACTORY_TEMPLATE_ENTITY_PLUGIN(FIRFilter, Vector, double, vec_double,
 SOT_FACTORY_TEMPLATE_ENTITY_PLUGIN(FIRFilter, Vector, Matrix, vec_mat,
                                    "FIRFilter")
 
+template <>
+void FIRFilter<double, double>::reset_signal(double &res, const double &) {
+  res = 0;
+}
+
 template <>
 void FIRFilter<Vector, double>::reset_signal(Vector &res,
                                              const Vector &sample) {
-- 
2.43.0


From e8222569f3fe3135fc2a8ccfd6bb39345cb93d7e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:43:19 +0000
Subject: [PATCH 071/124] fix: filter without coefficient writes out of bounds

---
 include/sot/core/fir-filter.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sot/core/fir-filter.hh b/include/sot/core/fir-filter.hh
index 26a48a2..66ae435 100644
--- a/include/sot/core/fir-filter.hh
+++ b/include/sot/core/fir-filter.hh
@@ -33,6 +33,7 @@ class circular_buffer {
  public:
   circular_buffer() : buf(1), start(0), numel(0) {}
   void push_front(const T &data) {
+    if (buf.empty()) return;
     if (start) {
       --start;
     } else {
-- 
2.43.0


From 7f1b182986bd01701bbbde76a1ac12d42ecf2fdf Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:43:19 +0000
Subject: [PATCH 072/124] fix: coefficient beyond the size of a filter is read
 or written out of bounds

---
 include/sot/core/fir-filter.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sot/core/fir-filter.hh b/include/sot/core/fir-filter.hh
index 66ae435..482690a 100644
--- a/include/sot/core/fir-filter.hh
+++ b/include/sot/core/fir-filter.hh
@@ -186,10 +186,10 @@ class FIRFilter : public Entity {
   }
 
   void setElement(const unsigned int &rank, const coefT &coef) {
-    coefs[rank] = coef;
+    coefs.at(rank) = coef;
   }
 
-  coefT getElement(const unsigned int &rank) const { return coefs[rank]; }
+  coefT getElement(const unsigned int &rank) const { return coefs.at(rank); }
 
   static void reset_signal(sigT & /*res*/, const sigT & /*sample*/) {}
 
-- 
2.43.0


From 410869a501e2fb3545539a04f176afb70c190339 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:43:20 +0000
Subject: [PATCH 073/124] fix: integrator accesses memory out of bounds when it
 is not initialized

---
 include/sot/core/integrator-euler.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/sot/core/integrator-euler.hh b/include/sot/core/integrator-euler.hh
index 92b761b..8c9a3a3 100644
--- a/include/sot/core/integrator-euler.hh
+++ b/include/sot/core/integrator-euler.hh
@@ -106,6 +106,12 @@ class IntegratorEuler : public IntegratorAbstract<sigT, coefT> {
   sigT &integrate(sigT &res, int time) {
     sotDEBUG(15) << "# In {" << std::endl;
 
+    if (inputMemory.empty() || inputMemory.size() != numerator.size() ||
+        outputMemory.size() != denominator.size())
+      throw dynamicgraph::ExceptionSignal(
+          dynamicgraph::ExceptionSignal::GENERIC,
+          "Integrator is not initialized with its coefficients.");
+
     sigT sum;
     sigT tmp1, tmp2;
     const std::vector<coefT> &num = numerator;
-- 
2.43.0


From 6aec488fadc2fe4c6b976676db6eb11da6a9146d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:43:20 +0000
Subject: [PATCH 074/124] fix: removing a coefficient of an integrator that has
 none corrupts memory

---
 include/sot/core/integrator-abstract.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/sot/core/integrator-abstract.hh b/include/sot/core/integrator-abstract.hh
index 840797b..226a190 100644
--- a/include/sot/core/integrator-abstract.hh
+++ b/include/sot/core/integrator-abstract.hh
@@ -88,8 +88,12 @@ class IntegratorAbstract : public dynamicgraph::Entity {
   void pushDenomCoef(const coefT &denomCoef) {
     denominator.push_back(denomCoef);
   }
-  void popNumCoef() { numerator.pop_back(); }
-  void popDenomCoef() { denominator.pop_back(); }
+  void popNumCoef() {
+    if (!numerator.empty()) numerator.pop_back();
+  }
+  void popDenomCoef() {
+    if (!denominator.empty()) denominator.pop_back();
+  }
 
   const std::vector<coefT> &numCoeffs() const { return numerator; }
   void numCoeffs(const std::vector<coefT> &coeffs) { numerator = coeffs; }
-- 
2.43.0


From 3a14675fcd60395a7fdc711a266bbc500960a781 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:43:20 +0000
Subject: [PATCH 075/124] fix: filter differentiator is used before
 initialization, and loses its filter

---
 src/filters/filter-differentiator.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/filters/filter-differentiator.cpp b/src/filters/filter-differentiator.cpp
index 4769606..bb4b0ac 100644
--- a/src/filters/filter-differentiator.cpp
+++ b/src/filters/filter-differentiator.cpp
@@ -61,7 +61,10 @@ FilterDifferentiator::FilterDifferentiator(const std::string &name)
       CONSTRUCT_SIGNAL_OUT(x_filtered, dynamicgraph::Vector, m_x_dx_ddxSINNER),
       CONSTRUCT_SIGNAL_OUT(dx, dynamicgraph::Vector, m_x_dx_ddxSINNER),
       CONSTRUCT_SIGNAL_OUT(ddx, dynamicgraph::Vector, m_x_dx_ddxSINNER),
-      CONSTRUCT_SIGNAL_INNER(x_dx_ddx, dynamicgraph::Vector, m_xSIN) {
+      CONSTRUCT_SIGNAL_INNER(x_dx_ddx, dynamicgraph::Vector, m_xSIN),
+      m_dt(0.),
+      m_x_size(0),
+      m_filter(NULL) {
   Entity::signalRegistration(ALL_INPUT_SIGNALS << ALL_OUTPUT_SIGNALS);
 
   /* Commands. */
@@ -94,6 +97,7 @@ void FilterDifferentiator::init(const double &timestep, const int &xSize,
                                 const Eigen::VectorXd &filter_denominator) {
   m_x_size = xSize;
   m_dt = timestep;
+  delete m_filter;
   m_filter =
       new CausalFilter(timestep, xSize, filter_numerator, filter_denominator);
 
@@ -106,6 +110,9 @@ void FilterDifferentiator::init(const double &timestep, const int &xSize,
 void FilterDifferentiator::switch_filter(
     const Eigen::VectorXd &filter_numerator,
     const Eigen::VectorXd &filter_denominator) {
+  if (m_filter == NULL)
+    throw ExceptionSignal(ExceptionSignal::NOT_INITIALIZED,
+                          "Cannot switch filter before initialization.");
   LOG("Filter switched with "
       << "Numerator " << filter_numerator << std::endl
       << "Denominator" << filter_denominator << std::endl
@@ -119,6 +126,9 @@ void FilterDifferentiator::switch_filter(
 
 DEFINE_SIGNAL_INNER_FUNCTION(x_dx_ddx, dynamicgraph::Vector) {
   sotDEBUG(15) << "Compute x_dx inner signal " << iter << std::endl;
+  if (m_filter == NULL)
+    throw ExceptionSignal(ExceptionSignal::NOT_INITIALIZED,
+                          "Cannot filter before initialization.");
   if (s.size() != 3 * m_x_size) s.resize(3 * m_x_size);
   // read encoders
   const dynamicgraph::Vector &base_x = m_xSIN(iter);
-- 
2.43.0


From 41ddb31841e93a383cd23207c1b3440679e4d7c9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:50:20 +0000
Subject: [PATCH 076/124] fix: derivator without input is marked as initialized

---
 include/sot/core/derivator.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sot/core/derivator.hh b/include/sot/core/derivator.hh
index ea72dcd..17c560e 100644
--- a/include/sot/core/derivator.hh
+++ b/include/sot/core/derivator.hh
@@ -81,8 +81,8 @@ class Derivator : public dynamicgraph::Entity {
       res += memory;
       if (timestep != 1.) res *= (1. / timestep);
     } else {
-      initialized = true;
       memory = SIN(time);
+      initialized = true;
       res = memory;
       res *= 0;
     }
@@ -100,8 +100,8 @@ VectorQuaternion &Derivator<VectorQuaternion>::computeDerivation(
     res.coeffs() += memory.coeffs();
     if (timestep != 1.) res.coeffs() *= (1. / timestep);
   } else {
-    initialized = true;
     memory = SIN(time);
+    initialized = true;
     res = memory;
     res.coeffs() *= 0;
   }
-- 
2.43.0


From 394bbf987c16c62c0ee3ce487abab6c92660ef11 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 00:50:20 +0000
Subject: [PATCH 077/124] fix: integrator without input is marked as
 initialized

---
 include/sot/core/integrator-euler.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sot/core/integrator-euler.hh b/include/sot/core/integrator-euler.hh
index 8c9a3a3..039ef15 100644
--- a/include/sot/core/integrator-euler.hh
+++ b/include/sot/core/integrator-euler.hh
@@ -187,10 +187,12 @@ class IntegratorEuler : public IntegratorAbstract<sigT, coefT> {
           "The coefficient of the highest order derivative of denominator "
           "should be 1 (the last pushDenomCoef should be the identity).");
 
+    const sigT input(SIN.accessCopy());
+
     std::size_t numsize = numerator.size();
     inputMemory.resize(numsize);
 
-    inputMemory[0] = SIN.accessCopy();
+    inputMemory[0] = input;
     for (std::size_t i = 1; i < numsize; ++i) {
       inputMemory[i] = inputMemory[0];
     }
-- 
2.43.0


From 4f21e8c7272a0e554824080f888e9e92ab4ab948 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:07:39 +0000
Subject: [PATCH 078/124] fix: vector of a skew symmetric matrix has the wrong
 sign

---
 src/matrix/operator.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/matrix/operator.hh b/src/matrix/operator.hh
index bd11c8b..43936a0 100644
--- a/src/matrix/operator.hh
+++ b/src/matrix/operator.hh
@@ -298,9 +298,9 @@ struct MatrixHomoToPoseUTheta
 struct SkewSymToVector : public UnaryOpHeader<Matrix, Vector> {
   inline void operator()(const Matrix &M, Vector &res) {
     res.resize(3);
-    res(0) = M(7);
-    res(1) = M(2);
-    res(2) = M(3);
+    res(0) = M(2, 1);
+    res(1) = M(0, 2);
+    res(2) = M(1, 0);
   }
 };
 
-- 
2.43.0


From a98e2545f1fe612204a9d58e6b20c5184ea1a42d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:07:39 +0000
Subject: [PATCH 079/124] fix: output size of MatrixDiagonal is ignored

---
 src/matrix/operator.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/matrix/operator.hh b/src/matrix/operator.hh
index 43936a0..6c14497 100644
--- a/src/matrix/operator.hh
+++ b/src/matrix/operator.hh
@@ -224,7 +224,13 @@ struct MatrixTranspose : public UnaryOpHeader<dg::Matrix, dg::Matrix> {
 /* ---------------------------------------------------------------------- */
 struct Diagonalizer : public UnaryOpHeader<Vector, Matrix> {
   inline void operator()(const dg::Vector &r, dg::Matrix &res) {
-    res = r.asDiagonal();
+    if (nbr != 0 && nbc != 0) {
+      res = Matrix::Zero(nbr, nbc);
+      const Matrix::Index n =
+          std::min(r.size(), std::min(res.rows(), res.cols()));
+      res.diagonal().head(n) = r.head(n);
+    } else
+      res = r.asDiagonal();
   }
 
  public:
-- 
2.43.0


From 8329c7704d8b9e267f6c3354fd767da6d58d86fa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:07:39 +0000
Subject: [PATCH 080/124] fix: parameters of selection, stack and weighted sum
 are not initialised

---
 src/matrix/operator.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/matrix/operator.hh b/src/matrix/operator.hh
index 6c14497..dac9d2f 100644
--- a/src/matrix/operator.hh
+++ b/src/matrix/operator.hh
@@ -116,6 +116,7 @@ struct VectorComponent : public UnaryOpHeader<dg::Vector, double> {
   }
 
   int index;
+  VectorComponent() : index(0) {}
   inline void setIndex(const int &m) { index = m; }
 
   inline void addSpecificCommands(Entity &ent,
@@ -151,6 +152,7 @@ struct MatrixSelector : public UnaryOpHeader<dg::Matrix, dg::Matrix> {
   int imin, imax;
   int jmin, jmax;
 
+  MatrixSelector() : imin(0), imax(0), jmin(0), jmax(0) {}
   inline void setBoundsRow(const int &m, const int &M) {
     imin = m;
     imax = M;
@@ -192,6 +194,7 @@ struct MatrixColumnSelector : public UnaryOpHeader<dg::Matrix, dg::Vector> {
 
   int imin, imax;
   int jcol;
+  MatrixColumnSelector() : imin(0), imax(0), jcol(0) {}
   inline void selectCol(const int &m) { jcol = m; }
   inline void setBoundsRow(const int &m, const int &M) {
     imin = m;
@@ -602,6 +605,7 @@ struct VectorStack
  public:
   int v1min, v1max;
   int v2min, v2max;
+  VectorStack() : v1min(0), v1max(0), v2min(0), v2max(0) {}
   inline void operator()(const dynamicgraph::Vector &v1,
                          const dynamicgraph::Vector &v2,
                          dynamicgraph::Vector &res) const {
@@ -789,6 +793,7 @@ template <typename T>
 struct WeightedAdder : public BinaryOpHeader<T, T, T> {
  public:
   double gain1, gain2;
+  WeightedAdder() : gain1(1.), gain2(1.) {}
   inline void operator()(const T &v1, const T &v2, T &res) const {
     res = v1;
     res *= gain1;
-- 
2.43.0


From 20b5be50778ef62bf4bcee92110371bdf603526d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:07:39 +0000
Subject: [PATCH 081/124] fix: transformation of OpPointModifier is not
 initialised

---
 src/math/op-point-modifier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/op-point-modifier.cpp b/src/math/op-point-modifier.cpp
index f77af94..22ad40c 100644
--- a/src/math/op-point-modifier.cpp
+++ b/src/math/op-point-modifier.cpp
@@ -38,7 +38,7 @@ OpPointModifier::OpPointModifier(const std::string &name)
           boost::bind(&OpPointModifier::positionSOUT_function, this, _1, _2),
           positionSIN,
           "OpPointModifior(" + name + ")::output(matrixhomo)::position"),
-      transformation(),
+      transformation(MatrixHomogeneous::Identity()),
       isEndEffector(true) {
   sotDEBUGIN(15);
 
-- 
2.43.0


From e2c5692d18884254c54d1b75a0fc8bcc19c1ba4c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:07:39 +0000
Subject: [PATCH 082/124] fix: Jacobian of OpPointModifier does not follow the
 position

---
 src/math/op-point-modifier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/math/op-point-modifier.cpp b/src/math/op-point-modifier.cpp
index 22ad40c..8d7698a 100644
--- a/src/math/op-point-modifier.cpp
+++ b/src/math/op-point-modifier.cpp
@@ -32,7 +32,7 @@ OpPointModifier::OpPointModifier(const std::string &name)
           NULL, "OpPointModifior(" + name + ")::input(matrixhomo)::positionIN"),
       jacobianSOUT(
           boost::bind(&OpPointModifier::jacobianSOUT_function, this, _1, _2),
-          jacobianSIN,
+          jacobianSIN << positionSIN,
           "OpPointModifior(" + name + ")::output(matrix)::jacobian"),
       positionSOUT(
           boost::bind(&OpPointModifier::positionSOUT_function, this, _1, _2),
-- 
2.43.0


From 879a06c14e16030a9c6b34509026952f045ebb8b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:07:39 +0000
Subject: [PATCH 083/124] fix: coefficients of a sum do not follow the inputs
 added and removed

---
 include/sot/core/variadic-op.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sot/core/variadic-op.hh b/include/sot/core/variadic-op.hh
index 034660e..36a914a 100644
--- a/include/sot/core/variadic-op.hh
+++ b/include/sot/core/variadic-op.hh
@@ -72,6 +72,7 @@ class VariadicAbstract : public Entity {
       _declareSignal(sig);
       signalsIN.push_back(sig);
       // names.push_back (name);
+      updateSignalNumber((int)signalsIN.size());
       return signalsIN.size() - 1;
     } catch (const ExceptionAbstract &) {
       delete sig;
@@ -84,6 +85,7 @@ class VariadicAbstract : public Entity {
     _removeSignal(signalsIN.size() - 1);
     // names.pop_back();
     signalsIN.pop_back();
+    updateSignalNumber((int)signalsIN.size());
   }
 
   void setSignalNumber(const int &n) {
-- 
2.43.0


From b0e20f994438008e166a7dfa2369da66ab2301d4 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:07:39 +0000
Subject: [PATCH 084/124] fix: number of inputs is wrong when the name of an
 input is taken

---
 include/sot/core/variadic-op.hh | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/sot/core/variadic-op.hh b/include/sot/core/variadic-op.hh
index 36a914a..e29451f 100644
--- a/include/sot/core/variadic-op.hh
+++ b/include/sot/core/variadic-op.hh
@@ -74,7 +74,7 @@ class VariadicAbstract : public Entity {
       // names.push_back (name);
       updateSignalNumber((int)signalsIN.size());
       return signalsIN.size() - 1;
-    } catch (const ExceptionAbstract &) {
+    } catch (...) {
       delete sig;
       throw;
     }
@@ -102,8 +102,15 @@ class VariadicAbstract : public Entity {
       // names[i] = oss.str();
       // signal_t* s = new signal_t (NULL,names[i]);
       signal_t *s = new signal_t(NULL, oss.str());
+      try {
+        _declareSignal(s);
+      } catch (...) {
+        delete s;
+        signalsIN.resize(i);
+        updateSignalNumber((int)i);
+        throw;
+      }
       signalsIN[i] = s;
-      _declareSignal(s);
     }
     updateSignalNumber(n);
   }
-- 
2.43.0


From cadb3218851aefeb1ea00ed024a5ec211a66f515 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:29:17 +0000
Subject: [PATCH 085/124] fix: MotionPeriod is wrong before the initial date

The difference of dates was computed modulo 2^32.
---
 src/tools/motion-period.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tools/motion-period.cpp b/src/tools/motion-period.cpp
index 7c7bc05..9e6a671 100644
--- a/src/tools/motion-period.cpp
+++ b/src/tools/motion-period.cpp
@@ -50,7 +50,10 @@ dynamicgraph::Vector &MotionPeriod::computeMotion(dynamicgraph::Vector &res,
   res.resize(size);
   for (unsigned int i = 0; i < size; ++i) {
     const sotMotionParam &p = motionParams[i];
-    double x = ((((time - p.initPeriod) % p.period) + 0.0) / (p.period + 0.0));
+    const int period = (int)p.period;
+    // phase in the period, also before the initial date
+    const int phase = ((time - (int)p.initPeriod) % period + period) % period;
+    double x = ((phase + 0.0) / (period + 0.0));
     res(i) = p.initAmplitude;
     switch (p.motionType) {
       case MOTION_CONSTANT: {
-- 
2.43.0


From c12627695707965e090fa6b0f2a0f258c6da9846 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:29:17 +0000
Subject: [PATCH 086/124] fix: CoMFreezer does not see the end of the motion

The previous state of the pattern generator was recorded inverted.
---
 src/tools/com-freezer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tools/com-freezer.cpp b/src/tools/com-freezer.cpp
index 700e344..87d9972 100644
--- a/src/tools/com-freezer.cpp
+++ b/src/tools/com-freezer.cpp
@@ -51,13 +51,13 @@ dynamicgraph::Vector &CoMFreezer::computeFreezedCoM(
   if (PGInProcess) /* CoM unfreezed */
   {
     m_lastCoM = CoMRefSIN(time);
-    m_previousPGInProcess = (PGInProcess == 0);
+    m_previousPGInProcess = (PGInProcess != 0);
   } else {
     if (m_previousPGInProcess) /* pg.inprocess switch from 1 to 0 */
     {
       m_lastStopTime = time;
       m_lastCoM = CoMRefSIN(time);
-      m_previousPGInProcess = (PGInProcess == 0);
+      m_previousPGInProcess = (PGInProcess != 0);
     } else if (time < m_lastStopTime + 200) /* keep updating for 1s */
     {
       m_lastCoM = CoMRefSIN(time);
-- 
2.43.0


From 0c63caec4ac3504810d530b9856baf52605c6a16 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:29:17 +0000
Subject: [PATCH 087/124] fix: ExpMovingAvg checks the previous coefficient,
 not the new one

---
 src/tools/exp-moving-avg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/exp-moving-avg.cpp b/src/tools/exp-moving-avg.cpp
index 1efca5c..9f9d38b 100644
--- a/src/tools/exp-moving-avg.cpp
+++ b/src/tools/exp-moving-avg.cpp
@@ -59,7 +59,7 @@ ExpMovingAvg::~ExpMovingAvg() {}
 /* --- COMPUTE ----------------------------------------------------------- */
 
 void ExpMovingAvg::setAlpha(const double &alpha_) {
-  assert(alpha <= 1. && alpha >= 0.);
+  assert(alpha_ <= 1. && alpha_ >= 0.);
   alpha = alpha_;
 }
 
-- 
2.43.0


From 6a907e9e3144aafd3716bb7643e9482feec62b0a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:29:17 +0000
Subject: [PATCH 088/124] fix: GripperControl multiplies two column vectors

The velocity has to be scaled element by element.
---
 src/tools/gripper-control.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/gripper-control.cpp b/src/tools/gripper-control.cpp
index 29fb5fb..4afe5eb 100644
--- a/src/tools/gripper-control.cpp
+++ b/src/tools/gripper-control.cpp
@@ -148,7 +148,7 @@ dynamicgraph::Vector &GripperControl::computeDesiredPosition(
 
   // multiply the velocity elmt per elmt
   dynamicgraph::Vector weightedVel(SIZE);
-  weightedVel = velocity * factor;
+  weightedVel = velocity.cwiseProduct(factor);
   sotDEBUG(25) << " weightedVel " << weightedVel << std::endl;
 
   // integrate the desired velocity
-- 
2.43.0


From f9811f81a19e5b75b9aead5d0110a408cdc35964 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:29:17 +0000
Subject: [PATCH 089/124] fix: NeckLimitation bounds the tilt with the wrong
 sign

With a negative sign of tilt, the bound was applied on the other side.
---
 src/tools/neck-limitation.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tools/neck-limitation.cpp b/src/tools/neck-limitation.cpp
index a0f43a3..17d9d02 100644
--- a/src/tools/neck-limitation.cpp
+++ b/src/tools/neck-limitation.cpp
@@ -74,7 +74,7 @@ dynamicgraph::Vector &NeckLimitation::computeJointLimitation(
   {
     sotDEBUG(15) << "Pan = 0" << std::endl;
     if (tilt * signTilt > coeffAffinePan) {
-      tiltLimited = coeffAffinePan;
+      tiltLimited = signTilt * coeffAffinePan;
     } else {
       tiltLimited = tilt;
     }
@@ -95,7 +95,7 @@ dynamicgraph::Vector &NeckLimitation::computeJointLimitation(
       // 	      panLimited=(tmp2-coeffAffinePan*coeffLinearPan)*tmp;
       // 	      tiltLimited=(coeffLinearPan*tmp2+coeffAffinePan)*tmp;
       // 	    }
-      tiltLimited = (pan * coeffLinearPan + coeffAffinePan);
+      tiltLimited = signTilt * (pan * coeffLinearPan + coeffAffinePan);
       panLimited = pan;
     } else {
       tiltLimited = tilt;
@@ -121,7 +121,7 @@ dynamicgraph::Vector &NeckLimitation::computeJointLimitation(
       // 	      panLimited=(tmp2+coeffAffinePan*coeffLinearPan)*tmp;
       // 	      tiltLimited=(-coeffLinearPan*tmp2+coeffAffinePan)*tmp;
       // 	    }
-      tiltLimited = (-pan * coeffLinearPan + coeffAffinePan);
+      tiltLimited = signTilt * (-pan * coeffLinearPan + coeffAffinePan);
       panLimited = pan;
     } else {
       tiltLimited = tilt;
-- 
2.43.0


From a1c287b14d514139f3a748f958563c0f07daa208 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:29:17 +0000
Subject: [PATCH 090/124] fix: ClampWorkspace returns an uninitialised frame at
 time zero

---
 src/tools/clamp-workspace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/clamp-workspace.cpp b/src/tools/clamp-workspace.cpp
index 02c73d2..430c39d 100644
--- a/src/tools/clamp-workspace.cpp
+++ b/src/tools/clamp-workspace.cpp
@@ -41,7 +41,7 @@ ClampWorkspace::ClampWorkspace(const string &fName)
                   "ClampWorkspace(" + name + ")::output(vector)::ref")
 
       ,
-      timeUpdate(0)
+      timeUpdate(-1)
 
       ,
       alpha(6, 6),
-- 
2.43.0


From fd58fe0f99f1124a59db5ce5d68cc2cb080b367f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:32:06 +0000
Subject: [PATCH 091/124] fix: AdmittanceControlOpPoint::resetDq reads an
 uninitialised size

---
 src/control/admittance-control-op-point.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/control/admittance-control-op-point.cpp b/src/control/admittance-control-op-point.cpp
index 5b0b01d..a41e7b6 100644
--- a/src/control/admittance-control-op-point.cpp
+++ b/src/control/admittance-control-op-point.cpp
@@ -65,7 +65,9 @@ AdmittanceControlOpPoint::AdmittanceControlOpPoint(const std::string &name)
       CONSTRUCT_SIGNAL_INNER(w_dq, dynamicgraph::Vector,
                              INPUT_SIGNALS << m_w_forceSINNER),
       CONSTRUCT_SIGNAL_OUT(dq, dynamicgraph::Vector, m_w_dqSINNER),
-      m_initSucceeded(false) {
+      m_n(6),
+      m_initSucceeded(false),
+      m_dt(0.) {
   Entity::signalRegistration(INPUT_SIGNALS << INNER_SIGNALS << OUTPUT_SIGNALS);
 
   /* Commands. */
-- 
2.43.0


From a6491e7e68413b5db8c392bbd555226e4a402d20 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:32:06 +0000
Subject: [PATCH 092/124] fix: gain of the Kalman filter ignores changes of H
 and R

The variance update reads both, without depending on them.
---
 src/tools/kalman.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/kalman.cpp b/src/tools/kalman.cpp
index 84defc4..8487b62 100644
--- a/src/tools/kalman.cpp
+++ b/src/tools/kalman.cpp
@@ -78,6 +78,8 @@ Matrix &Kalman::computeVarianceUpdate(Matrix &Pk_k, const int &time) {
     // Set dependency to input signals for latter computations
     varianceUpdateSOUT.addDependency(noiseTransitionSIN);
     varianceUpdateSOUT.addDependency(modelTransitionSIN);
+    varianceUpdateSOUT.addDependency(noiseMeasureSIN);
+    varianceUpdateSOUT.addDependency(modelMeasureSIN);
   } else {
     const Matrix &Q = noiseTransitionSIN(time);
     const Matrix &R = noiseMeasureSIN(time);
-- 
2.43.0


From ccc24c855a88d3f78f793d84d37b922ad73cd23c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:57:02 +0000
Subject: [PATCH 093/124] fix: FeaturePoint6dRelative registers errordot twice:
 it cannot be created

---
 src/feature/feature-point6d-relative.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/feature/feature-point6d-relative.cpp b/src/feature/feature-point6d-relative.cpp
index 471d5e1..54cd3c6 100644
--- a/src/feature/feature-point6d-relative.cpp
+++ b/src/feature/feature-point6d-relative.cpp
@@ -57,7 +57,7 @@ FeaturePoint6dRelative::FeaturePoint6dRelative(const string &pointName)
 
   signalRegistration(positionReferenceSIN << articularJacobianReferenceSIN);
 
-  signalRegistration(dotpositionSIN << dotpositionReferenceSIN << errordotSOUT);
+  signalRegistration(dotpositionSIN << dotpositionReferenceSIN);
 
   errordotSOUT.setFunction(
       boost::bind(&FeaturePoint6dRelative::computeErrordot, this, _1, _2));
-- 
2.43.0


From 5962049e27ec6fbc7548dd712f8a906af8892ca6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:57:02 +0000
Subject: [PATCH 094/124] fix: FeaturePoint6d: errordot depends on the velocity
 of the reference

---
 src/feature/feature-point6d.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/feature/feature-point6d.cpp b/src/feature/feature-point6d.cpp
index 6e63116..58dedb1 100644
--- a/src/feature/feature-point6d.cpp
+++ b/src/feature/feature-point6d.cpp
@@ -116,12 +116,14 @@ void FeaturePoint6d::addDependenciesFromReference(void) {
   assert(isReferenceSet());
   errorSOUT.addDependency(getReference()->positionSIN);
   jacobianSOUT.addDependency(getReference()->positionSIN);
+  errordotSOUT.addDependency(getReference()->velocitySIN);
 }
 
 void FeaturePoint6d::removeDependenciesFromReference(void) {
   assert(isReferenceSet());
   errorSOUT.removeDependency(getReference()->positionSIN);
   jacobianSOUT.removeDependency(getReference()->positionSIN);
+  errordotSOUT.removeDependency(getReference()->velocitySIN);
 }
 
 /* --------------------------------------------------------------------- */
-- 
2.43.0


From 35458317646904472aa03e707234264982b83c3e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:57:02 +0000
Subject: [PATCH 095/124] fix: FeatureLineDistance: error and Jacobian depend
 on the vector and the reference line

---
 src/feature/feature-line-distance.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/feature/feature-line-distance.cpp b/src/feature/feature-line-distance.cpp
index 48d2b24..686db60 100644
--- a/src/feature/feature-line-distance.cpp
+++ b/src/feature/feature-line-distance.cpp
@@ -41,12 +41,16 @@ FeatureLineDistance::FeatureLineDistance(const string &pointName)
                 "sotFeatureVector3(" + name + ")::input(vector3)::vector"),
       lineSOUT(boost::bind(&FeatureLineDistance::computeLineCoordinates, this,
                            _1, _2),
-               positionSIN << positionRefSIN,
+               positionSIN << vectorSIN,
                "sotFeatureAbstract(" + name + ")::output(vector)::line") {
   jacobianSOUT.addDependency(positionSIN);
   jacobianSOUT.addDependency(articularJacobianSIN);
+  jacobianSOUT.addDependency(vectorSIN);
+  jacobianSOUT.addDependency(positionRefSIN);
 
   errorSOUT.addDependency(positionSIN);
+  errorSOUT.addDependency(vectorSIN);
+  errorSOUT.addDependency(positionRefSIN);
 
   signalRegistration(positionSIN << articularJacobianSIN << positionRefSIN
                                  << lineSOUT << vectorSIN);
-- 
2.43.0


From 8aa0e3be0e2c429b4c60fc1a0cfbb90685072f55 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:57:15 +0000
Subject: [PATCH 096/124] fix: FeatureLineDistance: the Jacobian omits the
 derivative along the third component of the direction

---
 src/feature/feature-line-distance.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/feature/feature-line-distance.cpp b/src/feature/feature-line-distance.cpp
index 686db60..1beafca 100644
--- a/src/feature/feature-line-distance.cpp
+++ b/src/feature/feature-line-distance.cpp
@@ -222,6 +222,14 @@ Matrix &FeatureLineDistance::computeJacobian(Matrix &J, int time) {
       2 * a0 * b1 * z0 * b0 * c1 * c1 - 2 * a0 * b1 * b1 * z0 * c1 * c0 -
       2 * a0 * b1 * z1 * b0 * c1 * c1 + 2 * a0 * b1 * b1 * z1 * c1 * c0;
 
+  /* Derivative of N / K, with N = (p1 - p0).(v0 x v1), wrt c0. */
+  const double N =
+      (x1 - x0) * -diffx0 + (y1 - y0) * -diffy0 + (z1 - z0) * -diffz0;
+  const double dN = a1 * (y1 - y0) - b1 * (x1 - x0);
+  const double dK =
+      2 * ((a1 * a1 + b1 * b1) * c0 - (a0 * a1 + b0 * b1) * c1);
+  const double diffc0 = dN * K - N * dK;
+
   Matrix diffh(1, 6);
   diffh(0, 0) = diffx0 / K;
   diffh(0, 1) = diffy0 / K;
@@ -229,7 +237,7 @@ Matrix &FeatureLineDistance::computeJacobian(Matrix &J, int time) {
   K *= K;
   diffh(0, 3) = diffa0 / K;
   diffh(0, 4) = diffb0 / K;
-  diffh(0, 5) = 0;
+  diffh(0, 5) = diffc0 / K;
 
   /* --- Multiply Jline=dline/dq with diffh=de/dline --- */
   J.resize(1, J.cols());
-- 
2.43.0


From 4f6f58e45d3d8620ec00780a41388e3f006b0117 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 01:57:15 +0000
Subject: [PATCH 097/124] fix: VisualPointProjecter multiplies a 4x4 matrix by
 a 3-vector

---
 src/feature/visual-point-projecter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/feature/visual-point-projecter.cpp b/src/feature/visual-point-projecter.cpp
index 6f1c500..4ec2012 100644
--- a/src/feature/visual-point-projecter.cpp
+++ b/src/feature/visual-point-projecter.cpp
@@ -51,7 +51,7 @@ dynamicgraph::Vector &VisualPointProjecter::point3DgazeSOUT_function(
   const MatrixHomogeneous &M = m_transfoSIN(iter);
   MatrixHomogeneous Mi;
   Mi = M.inverse(Eigen::Affine);
-  p3g = Mi.matrix() * p3;
+  p3g = Mi.linear() * p3 + Mi.translation();
   return p3g;
 }
 
-- 
2.43.0


From fd700404e4c53dbf3b6a04f8268e04fd9eaae6e0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:05:50 +0000
Subject: [PATCH 098/124] fix: Reader loses the end of a file from its first
 line of 1024 characters

---
 src/traces/reader.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/traces/reader.cpp b/src/traces/reader.cpp
index def2806..4198406 100644
--- a/src/traces/reader.cpp
+++ b/src/traces/reader.cpp
@@ -57,14 +57,9 @@ void sotReader::load(const string &filename) {
   sotDEBUGIN(15);
 
   std::ifstream datafile(filename.c_str());
-  const unsigned int SIZE = 1024;
-  char buffer[SIZE];
+  std::string buffer;
   std::vector<double> newline;
-  while (datafile.good()) {
-    datafile.getline(buffer, SIZE);
-    const unsigned int gcount = (unsigned int)(datafile.gcount());
-    if (gcount >= SIZE) { /* TODO read error, line to long. */
-    }
+  while (std::getline(datafile, buffer)) {
     std::istringstream iss(buffer);
     newline.clear();
     sotDEBUG(25) << "Get line = '" << buffer << "'" << std::endl;
-- 
2.43.0


From 0cfb331c5d3d9cc5573488e64954ea7bd1cc4b52 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:05:50 +0000
Subject: [PATCH 099/124] fix: Reader returns an old row past the end of the
 data, and none of the data loaded afterwards

---
 src/traces/reader.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/traces/reader.cpp b/src/traces/reader.cpp
index 4198406..ddbbf56 100644
--- a/src/traces/reader.cpp
+++ b/src/traces/reader.cpp
@@ -97,17 +97,20 @@ dynamicgraph::Vector &sotReader::getNextData(dynamicgraph::Vector &res,
                                              const unsigned int time) {
   sotDEBUGIN(15);
 
+  if (dataSet.empty()) {
+    res.resize(0);
+    sotDEBUGOUT(15);
+    return res;
+  }
+
   if (!iteratorSet) {
     sotDEBUG(15) << "Start the list" << std::endl;
     currentData = dataSet.begin();
     iteratorSet = true;
-  } else if (currentData != dataSet.end()) {
-    ++currentData;
-  }
-
-  if (currentData == dataSet.end()) {
-    sotDEBUGOUT(15);
-    return res;
+  } else {
+    // hold the last value when the end of the data is reached.
+    DataType::const_iterator next = currentData;
+    if (++next != dataSet.end()) currentData = next;
   }
 
   const Flags &selection = selectionSIN(time);
-- 
2.43.0


From 427d5e88f426440d969ef89cf99617e73fefc171 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:06:46 +0000
Subject: [PATCH 100/124] fix: the pool keeps features and tasks that were
 destroyed

---
 include/sot/core/feature-abstract.hh |  2 +-
 include/sot/core/pool.hh             |  7 ++++---
 include/sot/core/task-abstract.hh    |  1 +
 src/factory/pool.cpp                 | 12 ++++++++++++
 src/feature/feature-abstract.cpp     |  4 ++++
 src/task/task-abstract.cpp           |  4 ++++
 6 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/sot/core/feature-abstract.hh b/include/sot/core/feature-abstract.hh
index 225f345..d4ac560 100644
--- a/include/sot/core/feature-abstract.hh
+++ b/include/sot/core/feature-abstract.hh
@@ -90,7 +90,7 @@ class SOT_CORE_EXPORT FeatureAbstract : public Entity {
   /*! \brief Default constructor: the name of the class should be given. */
   FeatureAbstract(const std::string &name);
   /*! \brief Default destructor */
-  virtual ~FeatureAbstract(void){};
+  virtual ~FeatureAbstract(void);
 
   /*! \name Methods returning the dimension of the feature.
     @{ */
diff --git a/include/sot/core/pool.hh b/include/sot/core/pool.hh
index f68118d..cd2b7eb 100644
--- a/include/sot/core/pool.hh
+++ b/include/sot/core/pool.hh
@@ -52,9 +52,6 @@ class TaskAbstract;
   As tasks and features derived from Entities, they should be registered
   as such.
 
-  \note From the code it is not very clear why we should not unregister
-  from the tasks and the features...
-
   The role of this class is also to look for the object supporting
   a command, and to apply this command.
 
@@ -100,6 +97,8 @@ class SOT_CORE_EXPORT PoolStorage {
    */
   /*! \brief Registering a feature. */
   void registerFeature(const std::string &entname, FeatureAbstract *ent);
+  /*! \brief Forget a feature, if it is the one registered with this name. */
+  void deregisterFeature(const std::string &entname, FeatureAbstract *ent);
 
   /*! \brief Get a reference to a feature. */
   FeatureAbstract &getFeature(const std::string &name);
@@ -110,6 +109,8 @@ class SOT_CORE_EXPORT PoolStorage {
    */
   /*! \brief Registering a task. */
   void registerTask(const std::string &entname, TaskAbstract *ent);
+  /*! \brief Forget a task, if it is the one registered with this name. */
+  void deregisterTask(const std::string &entname, TaskAbstract *ent);
   /*! \brief Get a reference to a task. */
   TaskAbstract &getTask(const std::string &name);
   /*! @} */
diff --git a/include/sot/core/task-abstract.hh b/include/sot/core/task-abstract.hh
index 99000b0..718709e 100644
--- a/include/sot/core/task-abstract.hh
+++ b/include/sot/core/task-abstract.hh
@@ -76,6 +76,7 @@ class SOT_CORE_EXPORT TaskAbstract : public dynamicgraph::Entity {
 
  public:
   TaskAbstract(const std::string &n);
+  virtual ~TaskAbstract(void);
 
  public: /* --- SIGNALS --- */
   dynamicgraph::SignalTimeDependent<VectorMultiBound, int> taskSOUT;
diff --git a/src/factory/pool.cpp b/src/factory/pool.cpp
index c77cd8c..61721de 100644
--- a/src/factory/pool.cpp
+++ b/src/factory/pool.cpp
@@ -52,6 +52,12 @@ void PoolStorage::registerTask(const std::string &entname, TaskAbstract *ent) {
   }
 }
 
+void PoolStorage::deregisterTask(const std::string &entname,
+                                 TaskAbstract *ent) {
+  Tasks::iterator entkey = task.find(entname);
+  if (entkey != task.end() && entkey->second == ent) task.erase(entkey);
+}
+
 TaskAbstract &PoolStorage::getTask(const std::string &name) {
   Tasks::iterator entPtr = task.find(name);
   if (entPtr == task.end()) {
@@ -79,6 +85,12 @@ void PoolStorage::registerFeature(const std::string &entname,
   }
 }
 
+void PoolStorage::deregisterFeature(const std::string &entname,
+                                    FeatureAbstract *ent) {
+  Features::iterator entkey = feature.find(entname);
+  if (entkey != feature.end() && entkey->second == ent) feature.erase(entkey);
+}
+
 FeatureAbstract &PoolStorage::getFeature(const std::string &name) {
   Features::iterator entPtr = feature.find(name);
   if (entPtr == feature.end()) {
diff --git a/src/feature/feature-abstract.cpp b/src/feature/feature-abstract.cpp
index 02b8462..73cd681 100644
--- a/src/feature/feature-abstract.cpp
+++ b/src/feature/feature-abstract.cpp
@@ -66,6 +66,10 @@ void FeatureAbstract::initCommands(void) {
                  "(feature name)."));
 }
 
+FeatureAbstract::~FeatureAbstract(void) {
+  PoolStorage::getInstance()->deregisterFeature(name, this);
+}
+
 void FeatureAbstract::featureRegistration(void) {
   PoolStorage::getInstance()->registerFeature(name, this);
 }
diff --git a/src/task/task-abstract.cpp b/src/task/task-abstract.cpp
index 7070b93..ea8a874 100644
--- a/src/task/task-abstract.cpp
+++ b/src/task/task-abstract.cpp
@@ -31,6 +31,10 @@ TaskAbstract::TaskAbstract(const std::string &n)
   signalRegistration(taskSOUT << jacobianSOUT);
 }
 
+TaskAbstract::~TaskAbstract(void) {
+  PoolStorage::getInstance()->deregisterTask(name, this);
+}
+
 void TaskAbstract::taskRegistration(void) {
   PoolStorage::getInstance()->registerTask(name, this);
 }
-- 
2.43.0


From 26778c997ade7ed968a1f0961f0e06dd9ecdb21f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:06:46 +0000
Subject: [PATCH 101/124] fix: PoolStorage::writeGraph fails on, or misnames,
 graphs of files in other directories

---
 src/factory/pool.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/factory/pool.cpp b/src/factory/pool.cpp
index 61721de..ba38da5 100644
--- a/src/factory/pool.cpp
+++ b/src/factory/pool.cpp
@@ -102,14 +102,12 @@ FeatureAbstract &PoolStorage::getFeature(const std::string &name) {
 }
 
 void PoolStorage::writeGraph(const std::string &aFileName) {
-  size_t IdxPointFound = aFileName.rfind(".");
-  std::string tmp1 = aFileName.substr(0, IdxPointFound);
+  // Name of the file without its directories and extension.
   size_t IdxSeparatorFound = aFileName.rfind("/");
-  std::string GenericName;
-  if (IdxSeparatorFound != std::string::npos)
-    GenericName = tmp1.substr(IdxSeparatorFound, tmp1.length());
-  else
-    GenericName = tmp1;
+  std::string GenericName = IdxSeparatorFound != std::string::npos
+                                ? aFileName.substr(IdxSeparatorFound + 1)
+                                : aFileName;
+  GenericName = GenericName.substr(0, GenericName.rfind("."));
 
   /* Reading local time */
   time_t ltime;
@@ -131,7 +129,7 @@ void PoolStorage::writeGraph(const std::string &aFileName) {
             << " Time: " << ltimeformatted.tm_hour << ":"
             << ltimeformatted.tm_min;
   GraphFile << " */" << std::endl;
-  GraphFile << "digraph " << GenericName << " { ";
+  GraphFile << "digraph \"" << GenericName << "\" { ";
   GraphFile << "\t graph [ label=\"" << GenericName
             << "\" bgcolor = white rankdir=LR ]" << std::endl
             << "\t node [ fontcolor = black, color = black, "
-- 
2.43.0


From efee98accee98d44094ea53c4572926392c09d4b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:06:46 +0000
Subject: [PATCH 102/124] fix: PoolStorage::writeGraph does not close the graph
 nor quote the names of tasks

---
 src/factory/pool.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/factory/pool.cpp b/src/factory/pool.cpp
index ba38da5..f9832d5 100644
--- a/src/factory/pool.cpp
+++ b/src/factory/pool.cpp
@@ -140,13 +140,14 @@ void PoolStorage::writeGraph(const std::string &aFileName) {
 
   for (Tasks::iterator iter = task.begin(); iter != task.end(); iter++) {
     TaskAbstract *ent = iter->second;
-    GraphFile << "\t\t" << ent->getName() << " [ label = \"" << ent->getName()
+    GraphFile << "\t\t\"" << ent->getName() << "\" [ label = \"" << ent->getName()
               << "\" ," << std::endl
               << "\t\t   fontcolor = black, color = black, "
                  "fillcolor = magenta, style=filled, shape=box ]"
               << std::endl;
   }
 
+  GraphFile << "\t}" << std::endl;
   GraphFile << "}" << std::endl;
 
   GraphFile.close();
-- 
2.43.0


From 6f52d57e0c016e98fc30ee2694393ebc547af0f7 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:06:46 +0000
Subject: [PATCH 103/124] fix: FeatureAbstract::writeGraph prints a debugging
 message on the standard output

---
 src/feature/feature-abstract.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/feature/feature-abstract.cpp b/src/feature/feature-abstract.cpp
index 73cd681..87e59b2 100644
--- a/src/feature/feature-abstract.cpp
+++ b/src/feature/feature-abstract.cpp
@@ -81,8 +81,7 @@ std::ostream &FeatureAbstract::writeGraph(std::ostream &os) const {
     const FeatureAbstract *asotFA = getReferenceAbstract();
     os << "\t\"" << asotFA->getName() << "\" -> \"" << getName() << "\""
        << "[ color=darkseagreen4 ]" << std::endl;
-  } else
-    std::cout << "asotFAT : 0" << std::endl;
+  }
 
   return os;
 }
-- 
2.43.0


From 78a28eaf1b41a78fdac22500a03c2ff9b6e9a138 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:14:21 +0000
Subject: [PATCH 104/124] fix: AdmittanceControlOpPoint w_force ignores changes
 of the sensor pose

The signal is computed from sensorPose, which it did not declare as a
dependency: a new pose was used only once the force changed as well.
---
 src/control/admittance-control-op-point.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/control/admittance-control-op-point.cpp b/src/control/admittance-control-op-point.cpp
index a41e7b6..b713d04 100644
--- a/src/control/admittance-control-op-point.cpp
+++ b/src/control/admittance-control-op-point.cpp
@@ -61,7 +61,8 @@ AdmittanceControlOpPoint::AdmittanceControlOpPoint(const std::string &name)
       CONSTRUCT_SIGNAL_IN(w_forceDes, dynamicgraph::Vector),
       CONSTRUCT_SIGNAL_IN(opPose, dynamicgraph::sot::MatrixHomogeneous),
       CONSTRUCT_SIGNAL_IN(sensorPose, dynamicgraph::sot::MatrixHomogeneous),
-      CONSTRUCT_SIGNAL_INNER(w_force, dynamicgraph::Vector, m_forceSIN),
+      CONSTRUCT_SIGNAL_INNER(w_force, dynamicgraph::Vector,
+                             m_forceSIN << m_sensorPoseSIN),
       CONSTRUCT_SIGNAL_INNER(w_dq, dynamicgraph::Vector,
                              INPUT_SIGNALS << m_w_forceSINNER),
       CONSTRUCT_SIGNAL_OUT(dq, dynamicgraph::Vector, m_w_dqSINNER),
-- 
2.43.0


From 17484addfdf8c20f8ab2b2ef2cd092b3378566fa Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:14:21 +0000
Subject: [PATCH 105/124] fix: SotLoader refuses --help

The option was declared twice, so that giving it was reported as ambiguous.
---
 src/tools/sot-loader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/sot-loader.cpp b/src/tools/sot-loader.cpp
index e94a364..3ddc20c 100644
--- a/src/tools/sot-loader.cpp
+++ b/src/tools/sot-loader.cpp
@@ -44,7 +44,7 @@ int SotLoader::parseOptions(int argc, char *argv[]) {
   po::options_description desc("Allowed options");
   desc.add_options()("help", "produce help message")(
       "sot-dynamic-library", po::value<std::string>(), "Library to load");
-  desc.add_options()("help", "produce help message")(
+  desc.add_options()(
       "input-file", po::value<std::string>(), "Library to load");
 
   // Input variable map from the command line (int argc, char* argv[]).
-- 
2.43.0


From 8fce200a7fb110f5360324f12ccf868df068b375 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:14:21 +0000
Subject: [PATCH 106/124] fix: SotLoader keeps a library it refused loaded

---
 src/tools/sot-loader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tools/sot-loader.cpp b/src/tools/sot-loader.cpp
index 3ddc20c..284e30b 100644
--- a/src/tools/sot-loader.cpp
+++ b/src/tools/sot-loader.cpp
@@ -86,6 +86,8 @@ bool SotLoader::initialization() {
   const char *dlsym_error = dlerror();
   if (dlsym_error) {
     std::cerr << "Cannot load symbol create: " << dlsym_error << '\n';
+    dlclose(sot_dynamic_library_);
+    sot_dynamic_library_ = nullptr;
     return false;
   }
 
-- 
2.43.0


From cc193fb0bbb11023e9bfc7cee71e56a9e1f9ae99 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:14:21 +0000
Subject: [PATCH 107/124] fix: SotLoader::oneIteration loses the exception of
 the graph

It threw a copy of the base class: the caller got neither the type nor the
message.
---
 src/tools/sot-loader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/sot-loader.cpp b/src/tools/sot-loader.cpp
index 284e30b..10a0267 100644
--- a/src/tools/sot-loader.cpp
+++ b/src/tools/sot-loader.cpp
@@ -180,7 +180,7 @@ void SotLoader::oneIteration(
     } catch (std::exception &e) {
       std::cout << "Exception while running the graph:\n"
                 << e.what() << std::endl;
-      throw e;
+      throw;
     }
   }
 }
-- 
2.43.0


From f34144478f17a1428504e928ceae2ae5642c4a11 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:14:21 +0000
Subject: [PATCH 108/124] fix: SotLoader ends the program when it is cleaned up
 before its destruction

The device was deregistered again, which throws in the destructor when the
device is not in the pool any more.
---
 src/tools/sot-loader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tools/sot-loader.cpp b/src/tools/sot-loader.cpp
index 10a0267..fcc2871 100644
--- a/src/tools/sot-loader.cpp
+++ b/src/tools/sot-loader.cpp
@@ -133,9 +133,11 @@ bool SotLoader::initialization() {
 void SotLoader::cleanUp() {
   // Unregister the device first if it exists to avoid a double destruction from
   // the pool of entity and the class that handle the Device pointer.
-  if (device_name_ != "") {
+  if (device_name_ != "" &&
+      PoolStorage::getInstance()->existEntity(device_name_)) {
     PoolStorage::getInstance()->deregisterEntity(device_name_);
   }
+  device_name_ = "";
 
   // We do not destroy the FactoryStorage singleton because the module will not
   // be reloaded at next initialization (because Python C API cannot safely
-- 
2.43.0


From e1fc7d115e396bc84840fa508726ba20e470159d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:58:51 +0000
Subject: [PATCH 109/124] fix: Mailbox announces a message before it can be
 read

---
 include/sot/core/mailbox.hxx | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/sot/core/mailbox.hxx b/include/sot/core/mailbox.hxx
index c0504e0..7099cf1 100644
--- a/include/sot/core/mailbox.hxx
+++ b/include/sot/core/mailbox.hxx
@@ -80,10 +80,14 @@ typename Mailbox<Object>::sotTimestampedObject &Mailbox<Object>::get(
 /* -------------------------------------------------------------------------- */
 template <class Object>
 void Mailbox<Object>::post(const Object &value) {
-  boost::timed_mutex::scoped_lock lockMain(this->mainObjectMutex);
-  mainObject = value;
-  gettimeofday(&this->mainTimeStamp, NULL);
-  update = true;
+  {
+    boost::timed_mutex::scoped_lock lockMain(this->mainObjectMutex);
+    mainObject = value;
+    gettimeofday(&this->mainTimeStamp, NULL);
+    update = true;
+  }
+  // Once the message can be read: a reader that finds the mailbox locked does
+  // not come back before the next message.
   SOUT.setReady();
 
   return;
-- 
2.43.0


From 1861805e416db6f9c23f2a7ae11591453c7a7ce9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 02:59:16 +0000
Subject: [PATCH 110/124] fix: Task does not take an added or removed feature
 into account

---
 include/sot/core/task.hh | 3 +++
 src/task/task.cpp        | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/include/sot/core/task.hh b/include/sot/core/task.hh
index 8fd4772..f1522da 100644
--- a/include/sot/core/task.hh
+++ b/include/sot/core/task.hh
@@ -77,6 +77,9 @@ class SOTTASK_EXPORT Task : public TaskAbstract {
   FeatureList_t featureList;
   bool withDerivative;
 
+  /// The outputs have to be evaluated again with the new list of features.
+  void featureListChanged(void);
+
   DYNAMIC_GRAPH_ENTITY_DECL();
 
  public:
diff --git a/src/task/task.cpp b/src/task/task.cpp
index 847e505..0f0b31b 100644
--- a/src/task/task.cpp
+++ b/src/task/task.cpp
@@ -110,6 +110,7 @@ void Task::addFeature(FeatureAbstract &s) {
   jacobianSOUT.addDependency(s.jacobianSOUT);
   errorSOUT.addDependency(s.errorSOUT);
   errorTimeDerivativeSOUT.addDependency(s.getErrorDot());
+  featureListChanged();
 }
 
 void Task::addFeatureFromName(const std::string &featureName) {
@@ -128,6 +129,13 @@ void Task::clearFeatureList(void) {
   }
 
   featureList.clear();
+  featureListChanged();
+}
+
+void Task::featureListChanged(void) {
+  errorSOUT.setReady();
+  errorTimeDerivativeSOUT.setReady();
+  jacobianSOUT.setReady();
 }
 
 void Task::setControlSelection(const Flags &act) { controlSelectionSIN = act; }
-- 
2.43.0


From 2d8a1c20f78f3fe7e07e21dcb33c5cff58be1aa6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:01:25 +0000
Subject: [PATCH 111/124] fix: FeaturePosture forgets its selection when a
 selection is refused

---
 src/feature/feature-posture.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/feature/feature-posture.cpp b/src/feature/feature-posture.cpp
index 4a66fed..2e847c9 100644
--- a/src/feature/feature-posture.cpp
+++ b/src/feature/feature-posture.cpp
@@ -112,12 +112,6 @@ void FeaturePosture::selectDof(unsigned dofId, bool control) {
   if (dim != (std::size_t)posture.size()) {
     throw std::runtime_error("Posture and State should have same dimension.");
   }
-  // If activeDof_ vector not initialized, initialize it
-  if (activeDofs_.size() != dim) {
-    activeDofs_ = std::vector<bool>(dim, false);
-    nbActiveDofs_ = 0;
-  }
-
   // Check that selected dof id is valid
   if (dofId >= dim) {
     std::ostringstream oss;
@@ -126,6 +120,12 @@ void FeaturePosture::selectDof(unsigned dofId, bool control) {
     throw ExceptionAbstract(ExceptionAbstract::TOOLS, oss.str());
   }
 
+  // If activeDof_ vector not initialized, initialize it
+  if (activeDofs_.size() != dim) {
+    activeDofs_ = std::vector<bool>(dim, false);
+    nbActiveDofs_ = 0;
+  }
+
   if (control) {
     if (!activeDofs_[dofId]) {
       activeDofs_[dofId] = true;
-- 
2.43.0


From 5340719d03d225c155adbec9cf0c7f0d419d15ae Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:01:37 +0000
Subject: [PATCH 112/124] fix: FeaturePosture reads degrees of freedom which do
 not exist

---
 include/sot/core/feature-posture.hh |  3 +++
 src/feature/feature-posture.cpp     | 10 ++++++++++
 2 files changed, 13 insertions(+)

diff --git a/include/sot/core/feature-posture.hh b/include/sot/core/feature-posture.hh
index d89054c..6354115 100644
--- a/include/sot/core/feature-posture.hh
+++ b/include/sot/core/feature-posture.hh
@@ -76,6 +76,9 @@ class SOTFEATUREPOSTURE_EXPORT FeaturePosture : public FeatureAbstract {
   signalOut_t error_;
 
  private:
+  /// Throw unless v has a value for each degree of freedom.
+  void checkSize(const dynamicgraph::Vector &v) const;
+
   std::vector<bool> activeDofs_;
   std::size_t nbActiveDofs_;
 };  // class FeaturePosture
diff --git a/src/feature/feature-posture.cpp b/src/feature/feature-posture.cpp
index 2e847c9..0fceb61 100644
--- a/src/feature/feature-posture.cpp
+++ b/src/feature/feature-posture.cpp
@@ -7,6 +7,7 @@
 
 #include <boost/assign/list_of.hpp>
 #include <boost/numeric/conversion/cast.hpp>
+#include <sot/core/exception-feature.hh>
 #include <sot/core/feature-posture.hh>
 #include <string>
 namespace dg = ::dynamicgraph;
@@ -72,10 +73,18 @@ unsigned int &FeaturePosture::getDimension(unsigned int &res, int) {
   return res;
 }
 
+void FeaturePosture::checkSize(const dg::Vector &v) const {
+  if ((std::size_t)v.size() < activeDofs_.size())
+    throw ExceptionFeature(ExceptionFeature::UNCOMPATIBLE_SIZE,
+                           "Selected degrees of freedom are missing.");
+}
+
 dg::Vector &FeaturePosture::computeError(dg::Vector &res, int t) {
   const dg::Vector &state = state_.access(t);
   const dg::Vector &posture = posture_.access(t);
 
+  checkSize(state);
+  checkSize(posture);
   res.resize(nbActiveDofs_);
   std::size_t index = 0;
   for (std::size_t i = 0; i < activeDofs_.size(); ++i) {
@@ -96,6 +105,7 @@ dg::Matrix &FeaturePosture::computeJacobian(dg::Matrix &, int) {
 dg::Vector &FeaturePosture::computeErrorDot(dg::Vector &res, int t) {
   const Vector &postureDot = postureDot_.access(t);
 
+  checkSize(postureDot);
   res.resize(nbActiveDofs_);
   std::size_t index = 0;
   for (std::size_t i = 0; i < activeDofs_.size(); ++i) {
-- 
2.43.0


From ea0d92d41783ec5709922533cd864476efec98ef Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:21:20 +0000
Subject: [PATCH 113/124] fix: a thread loop which fails says that it is still
 running

---
 .../core/utils/thread_interruptible_loop.py    | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py b/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
index c51eb6b..40afb0e 100644
--- a/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
+++ b/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
@@ -51,14 +51,16 @@ class ThreadInterruptibleLoop(threading.Thread):
 
     def run(self):
         self.isRunning = True
-        while not self.isQuit:
-            if self.isPlay:
-                self.loop()
-                self.iter += 1
-                if self.isOnce:
-                    self.pause()
-            time.sleep(self.sleepTime)
-        self.isRunning = False
+        try:
+            while not self.isQuit:
+                if self.isPlay:
+                    self.loop()
+                    self.iter += 1
+                    if self.isOnce:
+                        self.pause()
+                time.sleep(self.sleepTime)
+        finally:
+            self.isRunning = False
         print("Thread loop will now end.")
 
     def start(self):
-- 
2.43.0


From 5c3fad551af5bc130f10ff53802e99f9858c6685 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 03:21:59 +0000
Subject: [PATCH 114/124] fix: a thread loop loses the play asked at the end of
 a single run

---
 .../sot/core/utils/thread_interruptible_loop.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py b/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
index 40afb0e..14d5b32 100644
--- a/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
+++ b/src/dynamic_graph/sot/core/utils/thread_interruptible_loop.py
@@ -29,6 +29,8 @@ class ThreadInterruptibleLoop(threading.Thread):
     def __init__(self):
         threading.Thread.__init__(self)
         self.daemon = True
+        # A command is not cut in two by the end of a run, and conversely.
+        self.lock = threading.RLock()
 
     def quit(self):
         self.isQuit = True
@@ -39,15 +41,17 @@ class ThreadInterruptibleLoop(threading.Thread):
     def play(self):
         if not self.is_alive():
             self.start()
-        self.isOnce = False
-        self.setPlay(True)
+        with self.lock:
+            self.isOnce = False
+            self.setPlay(True)
 
     def pause(self):
         self.setPlay(False)
 
     def once(self):
-        self.isOnce = True
-        self.setPlay(True)
+        with self.lock:
+            self.isOnce = True
+            self.setPlay(True)
 
     def run(self):
         self.isRunning = True
@@ -56,8 +60,9 @@ class ThreadInterruptibleLoop(threading.Thread):
                 if self.isPlay:
                     self.loop()
                     self.iter += 1
-                    if self.isOnce:
-                        self.pause()
+                    with self.lock:
+                        if self.isOnce:
+                            self.pause()
                 time.sleep(self.sleepTime)
         finally:
             self.isRunning = False
-- 
2.43.0


From cf20c86f90a3d193228f1b2ce5393c1153dc64b2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 04:12:14 +0000
Subject: [PATCH 115/124] fix: gains built with values register their error
 signal like default-built ones

---
 src/task/gain-adaptive.cpp   | 4 ++--
 src/task/gain-hyperbolic.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/task/gain-adaptive.cpp b/src/task/gain-adaptive.cpp
index 1acfce7..9b6af3a 100644
--- a/src/task/gain-adaptive.cpp
+++ b/src/task/gain-adaptive.cpp
@@ -88,7 +88,7 @@ GainAdaptive::GainAdaptive(const std::string &name)
 GainAdaptive::GainAdaptive(const std::string &name, const double &lambda)
     : __SOT_GAIN_ADAPTATIVE_INIT {
   init(lambda);
-  Entity::signalRegistration(gainSOUT);
+  Entity::signalRegistration(gainSOUT << errorSIN);
   addCommands();
 }
 
@@ -96,7 +96,7 @@ GainAdaptive::GainAdaptive(const std::string &name, const double &valueAt0,
                            const double &valueAtInfty, const double &tanAt0)
     : __SOT_GAIN_ADAPTATIVE_INIT {
   init(valueAt0, valueAtInfty, tanAt0);
-  Entity::signalRegistration(gainSOUT);
+  Entity::signalRegistration(gainSOUT << errorSIN);
   addCommands();
 }
 
diff --git a/src/task/gain-hyperbolic.cpp b/src/task/gain-hyperbolic.cpp
index 2c8ec22..528ef88 100644
--- a/src/task/gain-hyperbolic.cpp
+++ b/src/task/gain-hyperbolic.cpp
@@ -48,7 +48,7 @@ GainHyperbolic::GainHyperbolic(const std::string &name)
 GainHyperbolic::GainHyperbolic(const std::string &name, const double &lambda)
     : __SOT_GAIN_HYPERBOLIC_INIT {
   init(lambda);
-  Entity::signalRegistration(gainSOUT);
+  Entity::signalRegistration(gainSOUT << errorSIN);
 }
 
 GainHyperbolic::GainHyperbolic(const std::string &name, const double &valueAt0,
@@ -56,7 +56,7 @@ GainHyperbolic::GainHyperbolic(const std::string &name, const double &valueAt0,
                                const double &decal0)
     : __SOT_GAIN_HYPERBOLIC_INIT {
   init(valueAt0, valueAtInfty, tanAt0, decal0);
-  Entity::signalRegistration(gainSOUT);
+  Entity::signalRegistration(gainSOUT << errorSIN);
 }
 
 void GainHyperbolic::init(const double &valueAt0, const double &valueAtInfty,
-- 
2.43.0


From 603ddfd74ff2e8828e718cc664262fe0e313ef90 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:16:51 +0000
Subject: [PATCH 116/124] fix: a feature keeps its former outputs after its
 reference is set or unset

---
 include/sot/core/feature-abstract.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sot/core/feature-abstract.hh b/include/sot/core/feature-abstract.hh
index d4ac560..1f8f58f 100644
--- a/include/sot/core/feature-abstract.hh
+++ b/include/sot/core/feature-abstract.hh
@@ -261,6 +261,10 @@ void FeatureReferenceHelper<FeatureSpecialized>::setReference(
       SP::setReference(sdes);                                       \
       if (SP::isReferenceSet()) addDependenciesFromReference();     \
     }                                                               \
+    /* The outputs depend on the reference. */                      \
+    errorSOUT.setReady();                                           \
+    errordotSOUT.setReady();                                        \
+    jacobianSOUT.setReady();                                        \
   }                                                                 \
   virtual const FeatureAbstract *getReferenceAbstract(void) const { \
     return SP::getReference();                                      \
-- 
2.43.0


From 99da5cd0ee29432a81227414af278008be8c83b2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:16:52 +0000
Subject: [PATCH 117/124] fix: changing the computation frame of a 6d point
 keeps its former outputs

---
 src/feature/feature-point6d.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/feature/feature-point6d.cpp b/src/feature/feature-point6d.cpp
index 58dedb1..86a7670 100644
--- a/src/feature/feature-point6d.cpp
+++ b/src/feature/feature-point6d.cpp
@@ -140,6 +140,9 @@ void FeaturePoint6d::computationFrame(const std::string &inFrame) {
                     "expecting 'current' or 'desired'");
     throw ExceptionFeature(ExceptionFeature::GENERIC, msg);
   }
+  errorSOUT.setReady();
+  errordotSOUT.setReady();
+  jacobianSOUT.setReady();
 }
 
 /// \brief Get computation frame
-- 
2.43.0


From cd855762a454a91d775648d1b555367b99548de8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:30:03 +0000
Subject: [PATCH 118/124] fix: tasks keep their former output when their
 parameters change

---
 include/sot/core/task-pd.hh | 1 +
 src/task/task-pd.cpp        | 8 +++++++-
 src/task/task.cpp           | 7 +++++--
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/sot/core/task-pd.hh b/include/sot/core/task-pd.hh
index a9ade83..580e57a 100644
--- a/include/sot/core/task-pd.hh
+++ b/include/sot/core/task-pd.hh
@@ -60,6 +60,7 @@ class SOTTASKPD_EXPORT TaskPD : public Task {
 
   /* --- PARAMS --- */
   void initCommand(void);
+  void setBeta(const double &value);
 };
 
 } /* namespace sot */
diff --git a/src/task/task-pd.cpp b/src/task/task-pd.cpp
index 73d2aeb..b665676 100644
--- a/src/task/task-pd.cpp
+++ b/src/task/task-pd.cpp
@@ -92,5 +92,11 @@ VectorMultiBound &TaskPD::computeTaskModif(VectorMultiBound &task, int time) {
 void TaskPD::initCommand(void) {
   using namespace command;
   addCommand("setBeta",
-             makeDirectSetter(*this, &beta, docDirectSetter("beta", "double")));
+             makeCommandVoid1(*this, &TaskPD::setBeta,
+                              docDirectSetter("beta", "double")));
+}
+
+void TaskPD::setBeta(const double &value) {
+  beta = value;
+  taskSOUT.setReady();
 }
diff --git a/src/task/task.cpp b/src/task/task.cpp
index 0f0b31b..02a0fc2 100644
--- a/src/task/task.cpp
+++ b/src/task/task.cpp
@@ -83,7 +83,7 @@ void Task::initCommands(void) {
              makeCommandVoid1(*this, &Task::addFeatureFromName, docstring));
 
   addCommand("setWithDerivative",
-             makeDirectSetter(*this, &withDerivative,
+             makeCommandVoid1(*this, &Task::setWithDerivative,
                               docDirectSetter("withDerivative", "bool")));
   addCommand("getWithDerivative",
              makeDirectGetter(*this, &withDerivative,
@@ -146,7 +146,10 @@ void Task::addControlSelection(const Flags &act) {
 }
 void Task::clearControlSelection(void) { controlSelectionSIN = Flags(false); }
 
-void Task::setWithDerivative(const bool &s) { withDerivative = s; }
+void Task::setWithDerivative(const bool &s) {
+  withDerivative = s;
+  taskSOUT.setReady();
+}
 bool Task::getWithDerivative(void) { return withDerivative; }
 
 /* --- COMPUTATION ---------------------------------------------------------- */
-- 
2.43.0


From fcca51bc0f5a1e64ec86a2f4e6b562df514d1e98 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:30:03 +0000
Subject: [PATCH 119/124] fix: a modified operational point keeps its former
 outputs when its parameters change

---
 include/sot/core/op-point-modifier.hh |  1 +
 src/math/op-point-modifier.cpp        | 10 ++++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/sot/core/op-point-modifier.hh b/include/sot/core/op-point-modifier.hh
index 5ac5fdc..59ed35e 100644
--- a/include/sot/core/op-point-modifier.hh
+++ b/include/sot/core/op-point-modifier.hh
@@ -69,6 +69,7 @@ class SOTOPPOINTMODIFIER_EXPORT OpPointModifier : public dynamicgraph::Entity {
   void setTransformation(const Eigen::Matrix4d &tr);
   void setTransformationBySignalName(std::istringstream &cmdArgs);
   const Eigen::Matrix4d &getTransformation(void);
+  void setEndEffector(const bool &value);
 
  private:
   MatrixHomogeneous transformation;
diff --git a/src/math/op-point-modifier.cpp b/src/math/op-point-modifier.cpp
index 8d7698a..fe0280f 100644
--- a/src/math/op-point-modifier.cpp
+++ b/src/math/op-point-modifier.cpp
@@ -52,13 +52,13 @@ OpPointModifier::OpPointModifier(const std::string &name)
                          docDirectGetter("transformation", "matrix 4x4 homo")));
     addCommand(
         "setTransformation",
-        makeDirectSetter(*this, &transformation.matrix(),
+        makeCommandVoid1(*this, &OpPointModifier::setTransformation,
                          docDirectSetter("dimension", "matrix 4x4 homo")));
     addCommand("getEndEffector",
                makeDirectGetter(*this, &isEndEffector,
                                 docDirectGetter("end effector mode", "bool")));
     addCommand("setEndEffector",
-               makeDirectSetter(*this, &isEndEffector,
+               makeCommandVoid1(*this, &OpPointModifier::setEndEffector,
                                 docDirectSetter("end effector mode", "bool")));
   }
 
@@ -123,6 +123,12 @@ MatrixHomogeneous &OpPointModifier::positionSOUT_function(
 
 void OpPointModifier::setTransformation(const Eigen::Matrix4d &tr) {
   transformation.matrix() = tr;
+  jacobianSOUT.setReady();
+  positionSOUT.setReady();
+}
+void OpPointModifier::setEndEffector(const bool &value) {
+  isEndEffector = value;
+  jacobianSOUT.setReady();
 }
 const Eigen::Matrix4d &OpPointModifier::getTransformation(void) {
   return transformation.matrix();
-- 
2.43.0


From 7ac9cb309ed428af33f58fb84caa576ebe509253 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:30:03 +0000
Subject: [PATCH 120/124] fix: the solver keeps its former control when its
 parameters change

---
 include/sot/core/sot.hh |  6 ++++++
 src/sot/sot.cpp         | 19 +++++++++++++++----
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/sot/core/sot.hh b/include/sot/core/sot.hh
index 349d652..10a1cee 100644
--- a/include/sot/core/sot.hh
+++ b/include/sot/core/sot.hh
@@ -149,6 +149,12 @@ class SOTSOT_CORE_EXPORT Sot : public Entity {
   /*! \brief This method defines the part of the state vector
     which correspond to the free flyer of the robot. */
   virtual void defineNbDof(const unsigned int &nbDof);
+
+  /*! \brief Enable or disable the option enablePostureTaskAcceleration. */
+  void setPostureTaskAcceleration(const bool &enable);
+
+  /*! \brief Set the maximum allowed squared norm of control increment. */
+  void setMaxControlIncrementSquaredNorm(const double &max);
   virtual const unsigned int &getNbDof() const { return nbJoints; }
 
   /*! @} */
diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 2f6bd11..9ced9e8 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -24,6 +24,7 @@ class sotSOT__INIT {
 sotSOT__INIT sotSOT_initiator;
 #endif  //#ifdef VP_DEBUG
 
+#include <dynamic-graph/command-bind.h>
 #include <dynamic-graph/command-direct-getter.h>
 #include <dynamic-graph/command-direct-setter.h>
 
@@ -104,8 +105,8 @@ Sot::Sot(const std::string &name)
                  *this, &Sot::getNbDof, docstring));
 
   addCommand("enablePostureTaskAcceleration",
-             dynamicgraph::command::makeDirectSetter(
-                 *this, &enablePostureTaskAcceleration,
+             dynamicgraph::command::makeCommandVoid1(
+                 *this, &Sot::setPostureTaskAcceleration,
                  dynamicgraph::command::docDirectSetter(
                      "option to bypass SVD computation for the posture task at "
                      "the last"
@@ -133,8 +134,8 @@ Sot::Sot(const std::string &name)
       "    \n";
 
   addCommand("setMaxControlIncrementSquaredNorm",
-             dynamicgraph::command::makeDirectSetter(
-                 *this, &maxControlIncrementSquaredNorm,
+             dynamicgraph::command::makeCommandVoid1(
+                 *this, &Sot::setMaxControlIncrementSquaredNorm,
                  docstring + "     Input:\n"
                              "       - a strictly positive double\n"
                              "    \n"));
@@ -321,6 +322,16 @@ void Sot::defineNbDof(const unsigned int &nbDof) {
   controlSOUT.setReady();
 }
 
+void Sot::setPostureTaskAcceleration(const bool &enable) {
+  enablePostureTaskAcceleration = enable;
+  controlSOUT.setReady();
+}
+
+void Sot::setMaxControlIncrementSquaredNorm(const double &max) {
+  maxControlIncrementSquaredNorm = max;
+  controlSOUT.setReady();
+}
+
 /* --------------------------------------------------------------------- */
 /* --------------------------------------------------------------------- */
 /* --------------------------------------------------------------------- */
-- 
2.43.0


From 368d544060a321ccafc78b564c1ecff3150b0ec1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:34:43 +0000
Subject: [PATCH 121/124] fix: a task pushed twice in the solver loses its
 dependencies when it is removed once

---
 src/sot/sot.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 9ced9e8..2922128 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -220,9 +220,7 @@ void Sot::push(TaskAbstract &task) {
 TaskAbstract &Sot::pop(void) {
   TaskAbstract *res = stack.back();
   stack.pop_back();
-  controlSOUT.removeDependency(res->taskSOUT);
-  controlSOUT.removeDependency(res->jacobianSOUT);
-  controlSOUT.setReady();
+  removeDependency(*res);
   return *res;
 }
 bool Sot::exist(const TaskAbstract &key) {
@@ -252,8 +250,11 @@ void Sot::remove(const TaskAbstract &key) {
 }
 
 void Sot::removeDependency(const TaskAbstract &key) {
-  controlSOUT.removeDependency(key.taskSOUT);
-  controlSOUT.removeDependency(key.jacobianSOUT);
+  // A task that was pushed several times may still be in the stack.
+  if (!exist(key)) {
+    controlSOUT.removeDependency(key.taskSOUT);
+    controlSOUT.removeDependency(key.jacobianSOUT);
+  }
   controlSOUT.setReady();
 }
 
@@ -310,11 +311,7 @@ void Sot::down(const TaskAbstract &key) {
 }
 
 void Sot::clear(void) {
-  for (StackType::iterator it = stack.begin(); stack.end() != it; ++it) {
-    removeDependency(**it);
-  }
-  stack.clear();
-  controlSOUT.setReady();
+  while (!stack.empty()) pop();
 }
 
 void Sot::defineNbDof(const unsigned int &nbDof) {
-- 
2.43.0


From 2b34e31c825bf8b85565b6dcf58adae614e5a928 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:34:43 +0000
Subject: [PATCH 122/124] fix: the kernel of a task that comes twice in the
 stack is overwritten while it is used

---
 src/sot/sot.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sot/sot.cpp b/src/sot/sot.cpp
index 2922128..f3f49bb 100644
--- a/src/sot/sot.cpp
+++ b/src/sot/sot.cpp
@@ -612,7 +612,12 @@ dynamicgraph::Vector &Sot::computeControlLaw(dynamicgraph::Vector &control,
 
         if (!last) {
           Matrix::Index cols = svd.matrixV().cols() - rankJ;
-          if (has_kernel)
+          if (has_kernel && kernel.data() == mem->kernel.data()) {
+            // The same task comes twice: kernel is stored in this memory.
+            const Matrix previous(kernel);
+            mem->getKernel(nbJoints, cols).noalias() =
+                previous * svd.matrixV().rightCols(cols);
+          } else if (has_kernel)
             mem->getKernel(nbJoints, cols).noalias() =
                 kernel * svd.matrixV().rightCols(cols);
           else
-- 
2.43.0


From 4426858cbf2506d0a61a7ba9e96f38f1a68bb7ba Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 05:43:58 +0000
Subject: [PATCH 123/124] fix: a PD task ignores a new derivative of the error
 given from outside

---
 src/task/task-pd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/task/task-pd.cpp b/src/task/task-pd.cpp
index b665676..b1ff247 100644
--- a/src/task/task-pd.cpp
+++ b/src/task/task-pd.cpp
@@ -38,7 +38,7 @@ TaskPD::TaskPD(const std::string &n)
                    "sotTaskPD(" + n + ")::output(vector)::errorDotOUT"),
       errorDotSIN(NULL, "sotTaskPD(" + n + ")::input(vector)::errorDot") {
   taskSOUT.setFunction(boost::bind(&TaskPD::computeTaskModif, this, _1, _2));
-  taskSOUT.addDependency(errorDotSOUT);
+  taskSOUT.addDependency(errorDotSIN);
 
   signalRegistration(errorDotSOUT << errorDotSIN);
   initCommand();
-- 
2.43.0


From 1588b068c8f0109ca0e0ab6f86787d860f6cf380 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 06:14:10 +0000
Subject: [PATCH 124/124] fix: the outputs of the admittance control read
 before its initialization stay empty

---
 src/control/admittance-control-op-point.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/control/admittance-control-op-point.cpp b/src/control/admittance-control-op-point.cpp
index b713d04..0f35d71 100644
--- a/src/control/admittance-control-op-point.cpp
+++ b/src/control/admittance-control-op-point.cpp
@@ -104,6 +104,10 @@ void AdmittanceControlOpPoint::init(const double &dt) {
   m_dt = dt;
   m_w_dq.setZero(m_n);
   m_initSucceeded = true;
+  // The outputs read before the initialization are empty.
+  m_w_forceSINNER.setReady();
+  m_w_dqSINNER.setReady();
+  m_dqSOUT.setReady();
 }
 
 void AdmittanceControlOpPoint::resetDq() {
-- 
2.43.0

