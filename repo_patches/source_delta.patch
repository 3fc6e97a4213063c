From c3d60c9a22a10f0ef9929e79c1bdd94f5f3b941c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 01/85] fix: signal_handler::stop gives the signals back to the
 handlers found by start

---
 c++/triqs/utility/signal_handler.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/c++/triqs/utility/signal_handler.cpp b/c++/triqs/utility/signal_handler.cpp
index 9693d11..1ad9ac9 100644
--- a/c++/triqs/utility/signal_handler.cpp
+++ b/c++/triqs/utility/signal_handler.cpp
@@ -30,6 +30,10 @@ namespace triqs {
       std::vector<int> signals_list;
       bool initialized = false;
 
+      constexpr int handled[]   = {SIGINT, SIGTERM, SIGXCPU, SIGQUIT, SIGUSR1, SIGUSR2};
+      constexpr int n_handled   = sizeof(handled) / sizeof(handled[0]);
+      struct sigaction previous[n_handled]; // the dispositions found by start
+
       void slot(int signal) {
         std::cerr << "TRIQS : Received signal " << signal << std::endl;
         signals_list.push_back(signal);
@@ -41,17 +45,14 @@ namespace triqs {
       static struct sigaction action;
       memset(&action, 0, sizeof(action));
       action.sa_handler = slot;
-      sigaction(SIGINT, &action, NULL);
-      sigaction(SIGTERM, &action, NULL);
-      sigaction(SIGXCPU, &action, NULL);
-      sigaction(SIGQUIT, &action, NULL);
-      sigaction(SIGUSR1, &action, NULL);
-      sigaction(SIGUSR2, &action, NULL);
-      sigaction(SIGSTOP, &action, NULL);
+      for (int i = 0; i < n_handled; ++i) sigaction(handled[i], &action, &previous[i]);
       initialized = true;
     }
 
     void stop() {
+      // give the signals back to whoever handled them before start
+      if (initialized)
+        for (int i = 0; i < n_handled; ++i) sigaction(handled[i], &previous[i], NULL);
       signals_list.clear();
       initialized = false;
     }
-- 
2.43.0


From 7e417be53fa097f9d7f85376674d096332a99ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 02/85] fix: the signal handler neither allocates nor prints
 through streams, and pop cannot lose a signal arriving meanwhile

---
 c++/triqs/utility/signal_handler.cpp | 34 ++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/c++/triqs/utility/signal_handler.cpp b/c++/triqs/utility/signal_handler.cpp
index 1ad9ac9..368ac61 100644
--- a/c++/triqs/utility/signal_handler.cpp
+++ b/c++/triqs/utility/signal_handler.cpp
@@ -19,15 +19,20 @@
 
 #include "signal_handler.hpp"
 #include <signal.h>
+#include <errno.h>
 #include <string.h>
-#include <vector>
-#include <iostream>
+#include <unistd.h>
+#include <atomic>
 namespace triqs {
   namespace signal_handler {
 
     namespace {
 
-      std::vector<int> signals_list;
+      // The list is filled from the signal handler, at any point of the program: no allocation,
+      // no stream, no lock there. If more than max_signals are pending, the later ones are ignored.
+      constexpr int max_signals = 256;
+      std::atomic<int> signals_list[max_signals];
+      std::atomic<int> n_signals{0};
       bool initialized = false;
 
       constexpr int handled[]   = {SIGINT, SIGTERM, SIGXCPU, SIGQUIT, SIGUSR1, SIGUSR2};
@@ -35,8 +40,17 @@ namespace triqs {
       struct sigaction previous[n_handled]; // the dispositions found by start
 
       void slot(int signal) {
-        std::cerr << "TRIQS : Received signal " << signal << std::endl;
-        signals_list.push_back(signal);
+        int const saved_errno = errno;
+        char msg[] = "TRIQS : Received signal    \n";
+        msg[24]    = char('0' + (signal / 10) % 10);
+        msg[25]    = char('0' + signal % 10);
+        [[maybe_unused]] auto r = write(STDERR_FILENO, msg, sizeof(msg) - 1);
+        errno = saved_errno;
+        int n = n_signals.load();
+        do {
+          if (n >= max_signals) return;
+        } while (!n_signals.compare_exchange_weak(n, n + 1));
+        signals_list[n] = signal;
       }
     } // namespace
 
@@ -53,18 +67,20 @@ namespace triqs {
       // give the signals back to whoever handled them before start
       if (initialized)
         for (int i = 0; i < n_handled; ++i) sigaction(handled[i], &previous[i], NULL);
-      signals_list.clear();
+      n_signals   = 0;
       initialized = false;
     }
 
     bool received(bool pop_) {
       //if (!initialized) start();
-      bool r = signals_list.size() != 0;
+      bool r = n_signals > 0;
       if (r && pop_) pop();
       return r;
     }
 
-    int last() { return signals_list.back(); }
-    void pop() { return signals_list.pop_back(); }
+    int last() { return signals_list[n_signals - 1]; }
+    void pop() {
+      if (n_signals > 0) --n_signals;
+    }
   } // namespace signal_handler
 } // namespace triqs
-- 
2.43.0


From db0ff0bc3aa54b32ce1a84438365198823254c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 03/85] fix: an exception in a Monte Carlo run without MPI
 environment is rethrown instead of dereferencing a null monitor

---
 c++/triqs/mc_tools/mc_generic.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/mc_tools/mc_generic.hpp b/c++/triqs/mc_tools/mc_generic.hpp
index 073c9e6..95212d3 100644
--- a/c++/triqs/mc_tools/mc_generic.hpp
+++ b/c++/triqs/mc_tools/mc_generic.hpp
@@ -252,6 +252,7 @@ namespace triqs::mc_tools {
       done_percent = 0;
       nmeasures    = 0;
       bool stop_it = false, finished = false, infinite = (n_cycles < 0);
+      bool local_emergency  = false; // an exception was caught, and there is no monitor to report it to
       int NC                = 0;
       double next_info_time = 0.1;
 
@@ -286,8 +287,10 @@ namespace triqs::mc_tools {
         } catch (std::exception const &err) {
           // log the error and node number
           std::cerr << "mc_generic: Exception occurs on node " << c.rank() << "\n" << err.what() << std::endl;
-          if (rethrow_exception)
+          if (node_monitor)
             node_monitor->request_emergency_stop();
+          else if (rethrow_exception)
+            local_emergency = true;
           else
             c.abort(2);
         }
@@ -309,6 +312,7 @@ namespace triqs::mc_tools {
 
         // Stop if an emergeny occured on any node
         if (node_monitor) stop_it |= node_monitor->emergency_occured();
+        stop_it |= local_emergency;
 
       } // end main NC loop
 
@@ -320,8 +324,9 @@ namespace triqs::mc_tools {
 
       if (node_monitor) {
         node_monitor->finalize_communications();
-        if (node_monitor->emergency_occured()) TRIQS_RUNTIME_ERROR << "mc_generic stops because the calculation raised an exception on one node";
+        local_emergency = node_monitor->emergency_occured();
       }
+      if (local_emergency) TRIQS_RUNTIME_ERROR << "mc_generic stops because the calculation raised an exception on one node";
 
       // final reporting
       if (status == 1) report << "mc_generic stops because of stop_callback" << std::endl;
-- 
2.43.0


From 4f87911b406b5c3231b0f2b6443c24e9d40480ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 04/85] fix: a Monte Carlo run of zero cycles stops its timer,
 and the number of measures is initialised

---
 c++/triqs/mc_tools/mc_generic.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/mc_tools/mc_generic.hpp b/c++/triqs/mc_tools/mc_generic.hpp
index 95212d3..0842cc5 100644
--- a/c++/triqs/mc_tools/mc_generic.hpp
+++ b/c++/triqs/mc_tools/mc_generic.hpp
@@ -247,7 +247,10 @@ namespace triqs::mc_tools {
 
       timer_run = {};
       timer_run.start();
-      if (n_cycles == 0) return 0;
+      if (n_cycles == 0) {
+        timer_run.stop();
+        return 0;
+      }
       triqs::signal_handler::start();
       done_percent = 0;
       nmeasures    = 0;
@@ -436,7 +439,7 @@ namespace triqs::mc_tools {
     measure_set<MCSignType> AllMeasures;
     std::vector<measure_aux> AllMeasuresAux;
     utility::report_stream report;
-    int64_t nmeasures, current_cycle_number = 0;
+    int64_t nmeasures = 0, current_cycle_number = 0;
     utility::timer timer_run, timer_accumulation, timer_warmup;
     std::function<void()> after_cycle_duty;
     MCSignType sign        = 1;
-- 
2.43.0


From df1a6a3e2395015198e6107ba1cb0e2985dae10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 05/85] fix: a Monte Carlo run whose last cycle is interrupted
 by a signal does not report that it ran until the end

---
 c++/triqs/mc_tools/mc_generic.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/mc_tools/mc_generic.hpp b/c++/triqs/mc_tools/mc_generic.hpp
index 0842cc5..b560caa 100644
--- a/c++/triqs/mc_tools/mc_generic.hpp
+++ b/c++/triqs/mc_tools/mc_generic.hpp
@@ -263,6 +263,7 @@ namespace triqs::mc_tools {
       if (rethrow_exception and mpi::has_env) node_monitor = std::make_unique<mpi::monitor>(c);
 
       for (; !stop_it; ++NC) { // do NOT reinit NC to 0
+        bool interrupted = false;
         try {
           // Metropolis loop. Switch here for HeatBath, etc...
           for (int64_t k = 1; (k <= length_cycle); k++) {
@@ -287,6 +288,7 @@ namespace triqs::mc_tools {
         } catch (triqs::signal_handler::exception const &) {
           std::cerr << "mc_generic: Signal caught on node " << c.rank() << "\n" << std::endl;
           // current cycle interrupted, stop calculation below
+          interrupted = true;
         } catch (std::exception const &err) {
           // log the error and node number
           std::cerr << "mc_generic: Exception occurs on node " << c.rank() << "\n" << err.what() << std::endl;
@@ -310,7 +312,7 @@ namespace triqs::mc_tools {
           if (do_measure) report(3) << AllMeasures.report();
           next_info_time = 1.25 * timer_run + 2.0; // Increase time interval non-linearly
         }
-        finished = NC + 1 >= n_cycles and not infinite;
+        finished = NC + 1 >= n_cycles and not infinite and not interrupted;
         stop_it  = (stop_callback() || triqs::signal_handler::received() || finished);
 
         // Stop if an emergeny occured on any node
-- 
2.43.0


From 5fc37b3c0df03df186d7b09bea9a79761178c92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 06/85] fix: the Monte Carlo cycle and configuration numbers
 are not truncated to 32 bits

---
 c++/triqs/mc_tools/mc_generic.hpp | 6 +++---
 c++/triqs/utility/timestamp.hpp   | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/c++/triqs/mc_tools/mc_generic.hpp b/c++/triqs/mc_tools/mc_generic.hpp
index b560caa..4eb4cfb 100644
--- a/c++/triqs/mc_tools/mc_generic.hpp
+++ b/c++/triqs/mc_tools/mc_generic.hpp
@@ -256,7 +256,7 @@ namespace triqs::mc_tools {
       nmeasures    = 0;
       bool stop_it = false, finished = false, infinite = (n_cycles < 0);
       bool local_emergency  = false; // an exception was caught, and there is no monitor to report it to
-      int NC                = 0;
+      int64_t NC            = 0;
       double next_info_time = 0.1;
 
       std::unique_ptr<mpi::monitor> node_monitor;
@@ -378,12 +378,12 @@ namespace triqs::mc_tools {
     /**
    * The current cycle number
    */
-    int get_current_cycle_number() const { return current_cycle_number; }
+    int64_t get_current_cycle_number() const { return current_cycle_number; }
 
     /**
    * The current number of the visited configuration. Updated after each accept/reject.
    */
-    int get_config_id() const { return config_id; }
+    int64_t get_config_id() const { return config_id; }
 
     /**
    * The duration of the last run in seconds
diff --git a/c++/triqs/utility/timestamp.hpp b/c++/triqs/utility/timestamp.hpp
index 4e95661..4897278 100644
--- a/c++/triqs/utility/timestamp.hpp
+++ b/c++/triqs/utility/timestamp.hpp
@@ -21,6 +21,7 @@
 #pragma once
 
 #include <iomanip>
+#include <cstdint>
 #include <chrono>
 #include <sstream>
 
@@ -36,7 +37,7 @@ namespace triqs {
     }
 
     std::string inline hours_minutes_seconds_from_seconds(double sec) {
-      auto s = std::chrono::seconds{int(sec)};
+      auto s = std::chrono::seconds{int64_t(sec)};
       auto h = std::chrono::duration_cast<std::chrono::hours>(s);
       auto m = std::chrono::duration_cast<std::chrono::minutes>(s -= h);
       s -= m;
@@ -46,7 +47,7 @@ namespace triqs {
       return os.str();
     }
 
-    std::string inline estimate_time_left(int Ntot, int iter, timer &Timer) {
+    std::string inline estimate_time_left(int64_t Ntot, int64_t iter, timer &Timer) {
       double eta = (Ntot - 1 - iter) * double(Timer) / (iter + 1);
       return hours_minutes_seconds_from_seconds(eta);
     }
-- 
2.43.0


From cd0c76358b2b2db153d18595fc30166f29006dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 07/85] fix: time limits and durations do not depend on jumps
 of the wall clock

---
 c++/triqs/utility/callbacks.cpp | 4 ++--
 c++/triqs/utility/timer.hpp     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/utility/callbacks.cpp b/c++/triqs/utility/callbacks.cpp
index 2a1a5ac..dad6256 100644
--- a/c++/triqs/utility/callbacks.cpp
+++ b/c++/triqs/utility/callbacks.cpp
@@ -28,8 +28,8 @@ namespace triqs {
       signal_handler::start();
       if (time_in_seconds <= 0) return []() { return false; };
 
-      auto end_time = std::chrono::system_clock::now() + std::chrono::seconds(time_in_seconds);
-      return [end_time]() { return (std::chrono::system_clock::now() > end_time); };
+      auto end_time = std::chrono::steady_clock::now() + std::chrono::seconds(time_in_seconds);
+      return [end_time]() { return (std::chrono::steady_clock::now() > end_time); };
     }
   } // namespace utility
 } // namespace triqs
diff --git a/c++/triqs/utility/timer.hpp b/c++/triqs/utility/timer.hpp
index ba32263..b8b0cd1 100644
--- a/c++/triqs/utility/timer.hpp
+++ b/c++/triqs/utility/timer.hpp
@@ -27,7 +27,7 @@ namespace triqs {
 
     class timer {
       public:
-      using clock_t = std::chrono::high_resolution_clock;
+      using clock_t = std::chrono::steady_clock; // durations must not depend on changes of the wall clock
 
       private:
       clock_t::time_point start_time;
-- 
2.43.0


From 88da7a644560f6416342dae6f7384b8cde987486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 08/85] fix: no deadlock in warmup_and_accumulate when only
 some of the nodes are stopped in the warmup

---
 c++/triqs/mc_tools/mc_generic.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/mc_tools/mc_generic.hpp b/c++/triqs/mc_tools/mc_generic.hpp
index 4eb4cfb..1903777 100644
--- a/c++/triqs/mc_tools/mc_generic.hpp
+++ b/c++/triqs/mc_tools/mc_generic.hpp
@@ -190,6 +190,8 @@ namespace triqs::mc_tools {
     int warmup_and_accumulate(int64_t n_warmup_cycles, int64_t n_accumulation_cycles, int64_t length_cycle, std::function<bool()> stop_callback,
                               mpi::communicator c = mpi::communicator{}) {
       int status = warmup(n_warmup_cycles, length_cycle, stop_callback, c);
+      // The accumulation communicates: either all nodes start it, or none
+      if (rethrow_exception and mpi::has_env) status = mpi::all_reduce(status, c, MPI_MAX);
       if (status == 0) status = accumulate(n_accumulation_cycles, length_cycle, stop_callback, c);
       return status;
     }
-- 
2.43.0


From 2c78fc3d261615d98336f96f551edb8f9e7a8cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:42 +0000
Subject: [PATCH 09/85] fix: an empty buffered_function throws, as documented,
 instead of reading an uninitialised index

---
 c++/triqs/utility/buffered_function.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/utility/buffered_function.hpp b/c++/triqs/utility/buffered_function.hpp
index 7be2d61..2518290 100644
--- a/c++/triqs/utility/buffered_function.hpp
+++ b/c++/triqs/utility/buffered_function.hpp
@@ -54,18 +54,18 @@ namespace triqs {
 
       /// Returns the next element. Refills the buffer if necessary.
       R operator()() {
-        if (index > buffer.size() - 1) refill(this);
+        if (index >= buffer.size()) refill(this);
         return buffer[index++];
       }
 
       /// Returns the future next element, without increasing the index. Refills the buffer if necessary.
       R preview() {
-        if (index > buffer.size() - 1) refill(this);
+        if (index >= buffer.size()) refill(this);
         return buffer[index];
       }
 
       private:
-      size_t index;
+      size_t index = 0;
       std::vector<R> buffer;
       std::function<void(buffered_function *)> refill; // this refills the buffer and reset index of a buffered_function.
                                                        // NB : cannot capture this in refill because we want the object to be copyable and movable
-- 
2.43.0


From 48643f372352df74957dfc841c46ee8744148b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:44 +0000
Subject: [PATCH 10/85] fix: random generators can be copied, and a copy
 continues the stream

---
 c++/triqs/mc_tools/MersenneRNG.hpp      | 13 ++++++++++++-
 c++/triqs/mc_tools/random_generator.hpp |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/mc_tools/MersenneRNG.hpp b/c++/triqs/mc_tools/MersenneRNG.hpp
index 4ed6581..83e24a2 100644
--- a/c++/triqs/mc_tools/MersenneRNG.hpp
+++ b/c++/triqs/mc_tools/MersenneRNG.hpp
@@ -142,7 +142,17 @@ namespace triqs {
 
         RandMT(uint32 seed) { seedMT(seed); }
 
-        RandMT(RandMT const &R) { seedMT(R.seed_save); }
+        // a copy continues the stream of R
+        RandMT(RandMT const &R) { *this = R; }
+
+        RandMT &operator=(RandMT const &R) {
+          for (int i = 0; i < N + 1; ++i) state[i] = R.state[i];
+          next      = state + (R.next - R.state);
+          initseed  = R.initseed;
+          left      = R.left;
+          seed_save = R.seed_save;
+          return *this;
+        }
 
         void seedMT(uint32 seed) {
 
@@ -198,6 +208,7 @@ namespace triqs {
           uint32 x = (seed | 1U) & 0xFFFFFFFFU, *s = state;
           int j;
           left = 0;
+          next = state;
           for (*s++ = x, j = N; --j; *s++ = (x *= 69069U) & 0xFFFFFFFFU)
             ;
         }
diff --git a/c++/triqs/mc_tools/random_generator.hpp b/c++/triqs/mc_tools/random_generator.hpp
index df0610f..0a71fd7 100644
--- a/c++/triqs/mc_tools/random_generator.hpp
+++ b/c++/triqs/mc_tools/random_generator.hpp
@@ -54,7 +54,7 @@ namespace triqs {
       random_generator() : random_generator("mt19937", 198) {}
 
       ///
-      random_generator(random_generator const &p);
+      random_generator(random_generator const &) = default;
 
       random_generator(random_generator &&) = default;
 
-- 
2.43.0


From 8b8e581df246cb7fbe677b21efa3f8e921fdae05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:21 +0000
Subject: [PATCH 11/85] fix: compressing linear bins into a single bin does not
 move an array onto itself

---
 c++/triqs/stat/accumulator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/stat/accumulator.hpp b/c++/triqs/stat/accumulator.hpp
index d2753ac..0c48adb 100644
--- a/c++/triqs/stat/accumulator.hpp
+++ b/c++/triqs/stat/accumulator.hpp
@@ -94,7 +94,7 @@ namespace triqs::stat {
         // Last new bin is special: last old bin could be filled below capacity
         int new_last_bin_count = last_bin_count + (n_bins_last_chunk - 1) * bin_capacity;
         auto &new_last_bin     = bins[n_bins_new - 1];
-        new_last_bin           = std::move(bins[compression_factor * (n_bins_new - 1)]);
+        if (n_bins_new > 1) new_last_bin = std::move(bins[compression_factor * (n_bins_new - 1)]); // otherwise it is already in place
         // If n_bins_last_chunk == 1, we have already copied its value above
         if (n_bins_last_chunk > 1) {
           for (int j = 1; j < n_bins_last_chunk - 1; j++) { new_last_bin += bins[compression_factor * (n_bins_new - 1) + j]; }
-- 
2.43.0


From fc44a5a486a5596ffac8d84f00ff0ec35ffb2716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:21 +0000
Subject: [PATCH 12/85] fix: the maximum number of logarithmic bins is stored
 with an accumulator, which otherwise ignores data once read back

---
 c++/triqs/stat/accumulator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/stat/accumulator.hpp b/c++/triqs/stat/accumulator.hpp
index 0c48adb..c06e7bd 100644
--- a/c++/triqs/stat/accumulator.hpp
+++ b/c++/triqs/stat/accumulator.hpp
@@ -239,6 +239,7 @@ namespace triqs::stat {
       h5_write(gr, "acc", l.acc);
       h5_write(gr, "count", l.count);
       h5_write(gr, "acc_count", l.acc_count);
+      h5_write(gr, "max_n_bins", l.max_n_bins);
     }
 
     template <typename T> void h5_read(h5::group g, std::string const &name, log_binning<T> &l) {
@@ -248,6 +249,7 @@ namespace triqs::stat {
       h5_read(gr, "acc", l.acc);
       h5_read(gr, "count", l.count);
       h5_read(gr, "acc_count", l.acc_count);
+      if (gr.has_key("max_n_bins")) h5_read(gr, "max_n_bins", l.max_n_bins);
     }
 
   } // namespace details
-- 
2.43.0


From 2e57a812007853aa08a86d1e3b742181a0807181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:21 +0000
Subject: [PATCH 13/85] fix: no integer overflow in the logarithmic binning of
 2^31 data

---
 c++/triqs/stat/accumulator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/stat/accumulator.hpp b/c++/triqs/stat/accumulator.hpp
index c06e7bd..6382fa6 100644
--- a/c++/triqs/stat/accumulator.hpp
+++ b/c++/triqs/stat/accumulator.hpp
@@ -195,7 +195,7 @@ namespace triqs::stat {
 
           // When reaching power of 2 nr data points, add a new pair of (Mk, Qk) = (acc.back(), 0)
           // and add an extra space in acc, acc_count
-          if (count == (1 << acc.size()) && (max_n_bins < 0 || n_bins() < max_n_bins)) {
+          if (count == (1l << acc.size()) && (max_n_bins < 0 || n_bins() < max_n_bins)) {
             T last_acc = acc.back(); // Force copy
 
             if (max_n_bins < 0 || n_bins() < (max_n_bins - 1)) {
-- 
2.43.0


From 1f58df2fc2c2a225fc56f96215b26dcee7615a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:21 +0000
Subject: [PATCH 14/85] fix: jackknife_mpi knows the number of data on all
 nodes, and corrects the bias with it

---
 c++/triqs/stat/jackknife.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/stat/jackknife.hpp b/c++/triqs/stat/jackknife.hpp
index ada5545..0b782e5 100644
--- a/c++/triqs/stat/jackknife.hpp
+++ b/c++/triqs/stat/jackknife.hpp
@@ -91,7 +91,7 @@ namespace triqs::stat {
       // Now the reduction over the nodes.
       long Ntot = N;
       if (c) { // MPI version
-        Ntot = mpi::reduce(N, *c);
+        Ntot = mpi::all_reduce(N, *c);
 
         M *= double(N) / Ntot; // remove the 1/N
         M = mpi::all_reduce(M, *c);
@@ -109,7 +109,7 @@ namespace triqs::stat {
 
       auto f_on_averages = make_regular(f(ja.average()...));
       auto std_err       = make_regular(std::sqrt((Ntot - 1) / double(Ntot)) * sqrt(Q));
-      auto average       = make_regular(N * (f_on_averages - M) + M);
+      auto average       = make_regular(Ntot * (f_on_averages - M) + M);
       return std::make_tuple(average, std_err, M, f_on_averages);
     }
 
-- 
2.43.0


From 6aaf4fdf424facbc8856b2b92167fc375b03a8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:21 +0000
Subject: [PATCH 15/85] fix: a NaN sampled into a histogram is lost instead of
 written out of bounds

---
 c++/triqs/stat/histograms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/stat/histograms.cpp b/c++/triqs/stat/histograms.cpp
index 0129103..9c5d8b0 100644
--- a/c++/triqs/stat/histograms.cpp
+++ b/c++/triqs/stat/histograms.cpp
@@ -37,7 +37,7 @@ namespace triqs::stat {
   }
 
   histogram &histogram::operator<<(double x) {
-    if ((x < a) || (x > b))
+    if (not(x >= a and x <= b)) // also a NaN
       ++_n_lost_pts;
     else {
       auto n = int(std::floor(((x - a) * _step) + 0.5));
-- 
2.43.0


From 4b258ca84b7fa31fde31897187431a5024385ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:26 +0000
Subject: [PATCH 16/85] fix: det_manip refuses k-fold operations on invalid
 indices, the last one included, without leaving them pending

---
 c++/triqs/det_manip/det_manip.hpp | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index cd24620..41aaa52 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -614,8 +614,6 @@ namespace triqs {
         TRIQS_ASSERT(x.size() == y.size());
 
         k = i.size();
-        reserve(N + k, k);
-        last_try = InsertK;
 
         auto const argsort = [](auto const &vec) {
           std::vector<long> idx(vec.size());
@@ -626,6 +624,15 @@ namespace triqs {
         std::vector<long> idx = argsort(i);
         std::vector<long> idy = argsort(j);
 
+        // check consistency
+        for (long l = 0; l < k; ++l) {
+          TRIQS_ASSERT(0 <= i[idx[l]] and i[idx[l]] < N + k and (l == 0 or i[idx[l - 1]] != i[idx[l]]));
+          TRIQS_ASSERT(0 <= j[idy[l]] and j[idy[l]] < N + k and (l == 0 or j[idy[l - 1]] != j[idy[l]]));
+        }
+
+        reserve(N + k, k);
+        last_try = InsertK;
+
         // store it for complete_operation
         for (long l = 0; l < k; ++l) {
           wk.i[l] = i[idx[l]];
@@ -634,12 +641,6 @@ namespace triqs {
           wk.y[l] = y[idy[l]];
         };
 
-        // check consistency
-        for (int l = 0; l < k - 1; ++l) {
-          TRIQS_ASSERT(wk.i[l] != wk.i[l + 1] and 0 <= wk.i[l] and wk.i[l] < N + k);
-          TRIQS_ASSERT(wk.j[l] != wk.j[l + 1] and 0 <= wk.j[l] and wk.j[l] < N + k);
-        }
-
         // w1.ksi = Delta(x_values,y_values) - Cw.MB using BLAS
         for (long m = 0; m < k; ++m) {
           for (long n = 0; n < k; ++n) { wk.ksi(m, n) = f(wk.x[m], wk.y[n]); }
@@ -819,15 +820,16 @@ namespace triqs {
         TRIQS_ASSERT(i.size() == j.size());
 
         k = i.size();
-        reserve(N - k, k);
-        last_try = RemoveK;
 
         // check inputs
-        for (int l = 0; l < k - 1; ++l) {
-          TRIQS_ASSERT(i[l] != i[l + 1] and 0 <= i[l] and i[l] < N);
-          TRIQS_ASSERT(j[l] != j[l + 1] and 0 <= j[l] and j[l] < N);
+        for (long l = 0; l < k; ++l) {
+          TRIQS_ASSERT(0 <= i[l] and i[l] < N and (l == 0 or i[l - 1] != i[l]));
+          TRIQS_ASSERT(0 <= j[l] and j[l] < N and (l == 0 or j[l - 1] != j[l]));
         }
 
+        reserve(N - k, k);
+        last_try = RemoveK;
+
         for (long l = 0; l < k; ++l) {
           wk.i[l]     = i[l];
           wk.j[l]     = j[l];
-- 
2.43.0


From 8fca48dc937d0ea6c0595068398f25726055946e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:26 +0000
Subject: [PATCH 17/85] fix: working space for k-fold operations of det_manip
 with k = 1

---
 c++/triqs/det_manip/det_manip.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index 41aaa52..20513d9 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -21,6 +21,7 @@
 #pragma once
 
 #include <triqs/utility/first_include.hpp>
+#include <algorithm>
 #include <vector>
 #include <iterator>
 #include <numeric>
@@ -630,7 +631,7 @@ namespace triqs {
           TRIQS_ASSERT(0 <= j[idy[l]] and j[idy[l]] < N + k and (l == 0 or j[idy[l - 1]] != j[idy[l]]));
         }
 
-        reserve(N + k, k);
+        reserve(N + k, std::max(k, 2l)); // no working space is kept for k < 2
         last_try = InsertK;
 
         // store it for complete_operation
@@ -827,7 +828,7 @@ namespace triqs {
           TRIQS_ASSERT(0 <= j[l] and j[l] < N and (l == 0 or j[l - 1] != j[l]));
         }
 
-        reserve(N - k, k);
+        reserve(N - k, std::max(k, 2l)); // no working space is kept for k < 2
         last_try = RemoveK;
 
         for (long l = 0; l < k; ++l) {
-- 
2.43.0


From 601da05be4c485e1580d0287f5aea9fb572ec031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:26 +0000
Subject: [PATCH 18/85] fix: det_manip refuses to change a row of negative
 index

---
 c++/triqs/det_manip/det_manip.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index 20513d9..04e0d83 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -966,7 +966,7 @@ namespace triqs {
        */
       value_type try_change_row(long i, x_type const &x) {
         TRIQS_ASSERT(last_try == NoTry);
-        TRIQS_ASSERT(i < N);
+        TRIQS_ASSERT(0 <= i and i < N);
         w1.i     = i;
         last_try = ChangeRow;
         w1.ireal = row_num[i];
-- 
2.43.0


From 792eb57b5723abf645e8ee93ef195c02b2a1163c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:26 +0000
Subject: [PATCH 19/85] fix: rolling an empty det_manip does not access its
 first row

---
 c++/triqs/det_manip/det_manip.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index 04e0d83..66df4ff 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -1324,6 +1324,7 @@ namespace triqs {
       int roll_matrix(RollDirection roll) {
         long tmp;
         const long NN = N;
+        if (N < 2) return 1; // nothing to roll
         switch (roll) {
           case (None): return 1;
           case (Down):
-- 
2.43.0


From 2b295aef3e9edb4b64d1abe399007a68497d11c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:26 +0000
Subject: [PATCH 20/85] fix: moving and swapping det_manip takes all of its
 state along

---
 c++/triqs/det_manip/det_manip.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index 66df4ff..1f489ec 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -200,6 +200,8 @@ namespace triqs {
         SW(det);
         SW(Nmax);
         SW(N);
+        SW(kmax);
+        SW(k);
         SW(last_try);
         SW(row_num);
         SW(col_num);
@@ -209,8 +211,12 @@ namespace triqs {
         SW(mat_inv);
         SW(n_opts);
         SW(n_opts_max_before_check);
+        SW(singular_threshold);
+        SW(precision_warning);
+        SW(precision_error);
         SW(w1);
         SW(wk);
+        SW(w_refill);
         SW(newdet);
         SW(newsign);
 #undef SW
-- 
2.43.0


From 2be54508d098883cf075856e0ab3715e851beebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:26 +0000
Subject: [PATCH 21/85] fix: det_manip read from a file has working space for
 its size

---
 c++/triqs/det_manip/det_manip.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index 1f489ec..bc236b3 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -107,6 +107,8 @@ namespace triqs {
         h5_read(gr, "mat_inv", g.mat_inv);
         g.Nmax     = first_dim(g.mat_inv); // restore Nmax
         g.last_try = NoTry;
+        g.w1.resize(g.Nmax);
+        g.wk.resize(g.Nmax, g.kmax);
         h5_read(gr, "det", g.det);
         h5_read(gr, "sign", g.sign);
         h5_read(gr, "row_num", g.row_num);
-- 
2.43.0


From ad334ebf1f06d0fdc9d2c5cecb442e5b4852678e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:26 +0000
Subject: [PATCH 22/85] fix: det_manip saves the bounds of its precision checks

---
 c++/triqs/det_manip/det_manip.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index bc236b3..17e0c60 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -98,6 +98,8 @@ namespace triqs {
         h5_write(gr, "n_opts", g.n_opts);
         h5_write(gr, "n_opts_max_before_check", g.n_opts_max_before_check);
         h5_write(gr, "singular_threshold", g.singular_threshold);
+        h5_write(gr, "precision_warning", g.precision_warning);
+        h5_write(gr, "precision_error", g.precision_error);
       }
 
       /// Read from HDF5
@@ -118,6 +120,8 @@ namespace triqs {
         h5_read(gr, "n_opts", g.n_opts);
         h5_read(gr, "n_opts_max_before_check", g.n_opts_max_before_check);
         h5_read(gr, "singular_threshold", g.singular_threshold);
+        if (gr.has_key("precision_warning")) h5_read(gr, "precision_warning", g.precision_warning); // absent from older files
+        if (gr.has_key("precision_error")) h5_read(gr, "precision_error", g.precision_error);
       }
 
       private:
-- 
2.43.0


From bbde67795773df116f5d342541289018ced3e616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:17 +0000
Subject: [PATCH 23/85] fix: the sign of the determinant of det_manip survives
 a regeneration that throws

---
 c++/triqs/det_manip/det_manip.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/det_manip/det_manip.hpp b/c++/triqs/det_manip/det_manip.hpp
index 17e0c60..716705b 100644
--- a/c++/triqs/det_manip/det_manip.hpp
+++ b/c++/triqs/det_manip/det_manip.hpp
@@ -1171,9 +1171,9 @@ namespace triqs {
         matrix_type res(N, N);
         for (int i = 0; i < N; i++)
           for (int j = 0; j < N; j++) res(i, j) = f(x_values[i], y_values[j]);
-        det = nda::determinant(res);
+        det_type const det_true = nda::determinant(res); // det and sign are changed together, once nothing can throw any more
 
-        if (is_singular()) TRIQS_RUNTIME_ERROR << "ERROR in det_manip regenerate: Determinant is singular";
+        if (is_singular(det_true)) TRIQS_RUNTIME_ERROR << "ERROR in det_manip regenerate: Determinant is singular";
         res = inverse(res);
 
         if (do_check) { // check that mat_inv is close to res
@@ -1198,6 +1198,7 @@ namespace triqs {
 
         // since we have the proper inverse, replace the matrix and the det
         mat_inv(RN, RN) = res;
+        det             = det_true;
         n_opts          = 0;
 
         // find the sign (there must be a better way...)
@@ -1215,7 +1216,8 @@ namespace triqs {
       void check_mat_inv() { _regenerate_with_check(true, precision_warning, precision_error); }
 
       /// it the det 0 ? I.e. (singular_threshold <0 ? not std::isnormal(std::abs(det)) : (std::abs(det)<singular_threshold))
-      bool is_singular() const { return (singular_threshold < 0 ? not std::isnormal(std::abs(det)) : (std::abs(det) < singular_threshold)); }
+      bool is_singular() const { return is_singular(det); }
+      bool is_singular(det_type const &d) const { return (singular_threshold < 0 ? not std::isnormal(std::abs(d)) : (std::abs(d) < singular_threshold)); }
 
       //------------------------------------------------------------------------------------------
       public:
-- 
2.43.0


From f2a976cf642c2b7a45aaee7f81c839c194f64014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:08 +0000
Subject: [PATCH 24/85] fix: values sent in a serial run can be received

---
 python/triqs/utility/mpi_nompi.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/python/triqs/utility/mpi_nompi.py b/python/triqs/utility/mpi_nompi.py
index bc12256..2fefd23 100644
--- a/python/triqs/utility/mpi_nompi.py
+++ b/python/triqs/utility/mpi_nompi.py
@@ -29,8 +29,8 @@ size = 1
 
 All_Nodes_report = False
 
-# variable for send and receive
-_sendval = None
+# values sent and not yet received, in order
+_sendvals = []
 
 myprint_err ("Starting serial run at: %s"%(str(datetime.datetime.now())))
 
@@ -60,15 +60,12 @@ def all_reduce(x, comm=world, op=lambda x, y: x + y):
     return x
 
 def send(val, dest):
-    _sendval = val
-    return
+    _sendvals.append(val)
 
 def recv(source = 0):
-    if _sendval is None:
+    if not _sendvals:
         raise Exception('send val not set')
-    recval = _sendval
-    _sendval = None
-    return recval
+    return _sendvals.pop(0)
 
 def slice_array(A) :
     """Given an array A, it returns a VIEW of a slice over the first dim on the node"""
-- 
2.43.0


From 8db9ebb8072c96536dcf5c85c5d972e5dd493623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:08 +0000
Subject: [PATCH 25/85] fix: master_gets_host_names collects the names on the
 master

---
 python/triqs/utility/mpi_mpi4py.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/utility/mpi_mpi4py.py b/python/triqs/utility/mpi_mpi4py.py
index 0e3e787..9be75f6 100644
--- a/python/triqs/utility/mpi_mpi4py.py
+++ b/python/triqs/utility/mpi_mpi4py.py
@@ -118,13 +118,13 @@ def master_gets_host_names():
     HostNames[rank] = gethostname()
     if is_master_node() :
       for proc in range (1,size) :
-        HostNames[proc],status = recv(proc)
+        HostNames[proc] = recv(proc)
     else:
       send(gethostname(),master)
     barrier()
-    assert len(HostNames)==size," internal pb MPI module"
     
     if is_master_node() :
+      assert len(HostNames)==size," internal pb MPI module"
       print("Hostnames : ")
       for u,host in list(HostNames.items()) :
         print("Node %d  on machine %s"%(u,host))
-- 
2.43.0


From 4389a457e2ecce8f3ad84c325e013216a8a12cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:38 +0000
Subject: [PATCH 26/85] fix: DistributionOnNodes computes and delivers every
 point exactly once on several nodes

---
 python/triqs/utility/dist_on_nodes.py | 54 +++++++++++++++------------
 python/triqs/utility/mpi_mpi4py.py    |  4 ++
 2 files changed, 34 insertions(+), 24 deletions(-)

diff --git a/python/triqs/utility/dist_on_nodes.py b/python/triqs/utility/dist_on_nodes.py
index aee979c..9749763 100644
--- a/python/triqs/utility/dist_on_nodes.py
+++ b/python/triqs/utility/dist_on_nodes.py
@@ -18,7 +18,7 @@
 # Authors: Olivier Parcollet, Nils Wentzell
 
 
-import os,sys,time,pickle
+import os,sys,time,pickle,traceback
 import triqs.utility.mpi as mpi
 
 class DistributionOnNodes:
@@ -48,8 +48,9 @@ class DistributionOnNodes:
         if mpi.size==1 : # single machine. Avoid the fork
             while not(self.finished()):
                 n = next(self)
-                if n!=None : 
-                    self.treate(self.the_function(n),0)
+                if n is not None : 
+                    res = self.the_function(n)
+                    if res is not None : self.treate(res,0)
             return
 
         # Code for multiprocessor machines
@@ -59,15 +60,11 @@ class DistributionOnNodes:
         if mpi.rank==0 :
           while not(self.finished()) or pid or [n for n in node_running if n] != [] :
               # Treat the request which have self.finished
-              def keep_request(r) :
-                  #if not(mpi.test(r)) :  return True
-                  #if r.message !=None : self.treate(*r.message)
-                  #node_running[r.status.source] = False
-                  T = r.test()
-                  if T is None :  return True
-                  value = T[0]
-                  if value !=None : self.treate(*value)
-                  node_running[T[1].source] = False
+              def keep_request(node) :
+                  if not(mpi.iprobe(node)) :  return True
+                  value = mpi.recv(node)
+                  if value[0] is not None : self.treate(*value)
+                  node_running[node] = False
                   return False
               RequestList = list(filter(keep_request,RequestList))
               # send new calculation to the nodes or "stop" them
@@ -77,32 +74,41 @@ class DistributionOnNodes:
                   if not(self.finished()) :
                       mpi.send(next(self),node) # send the data for the computation
                       node_running[node] = True
-                      RequestList.append(mpi.irecv(node)) #Post the receive
+                      RequestList.append(node) # wait for its result
                   else :
                       node_stopped[node] = True
 
               # Look if the child process on the master has self.finished.
-              if not(pid) or os.waitpid(pid,os.WNOHANG) :
+              done_pid,status = os.waitpid(pid,os.WNOHANG) if pid else (0,0)
+              if not(pid) or done_pid :
                   if pid :
-                      RR = pickle.load(open("res_master",'r'))
-                      if RR != None : self.treate(*RR)
+                      if status != 0 : raise RuntimeError("DistributionOnNodes: the calculation on the master has failed")
+                      with open("res_master",'rb') as f : RR = pickle.load(f)
+                      if RR[0] is not None : self.treate(*RR)
                   if not(self.finished()) :
-                      pid=os.fork();
                       currently_calculated_by_master = next(self)
+                      pid=os.fork();
                       if pid==0 :  # we are on the child
-                          if currently_calculated_by_master :
-                              res = self.the_function(currently_calculated_by_master)
-                          else:
-                              res = None
-                          pickle.dump((res,mpi.rank),open('res_master','w'))
+                          try:
+                              if currently_calculated_by_master is not None :
+                                  res = self.the_function(currently_calculated_by_master)
+                              else:
+                                  res = None
+                              with open('res_master','wb') as f : pickle.dump((res,mpi.rank),f)
+                          except BaseException:
+                              traceback.print_exc()
+                              os._exit(1)
                           os._exit(0) # Cf python doc. Used for child only.
                   else : pid=0
               if (pid): time.sleep(self.SleepTime) # so that most of the time is for the actual calculation on the master
 
+          # the nodes that were never asked for anything
+          for node in [ n for n in range(1,mpi.size) if not(node_stopped[n]) ] : mpi.send(True,node)
+
         else : # not master
             while not(mpi.recv(0)) :  # master will first send a finished flag
                 omega = mpi.recv(0)
-                if omega ==None :
+                if omega is None :
                     res = None
                 else :
                     res = self.the_function(omega)
@@ -118,7 +124,7 @@ class DistributionOnNodesOneStack(DistributionOnNodes) :
     Reimplement just the_function
     """
     def __init__(self,the_stack) :
-        self.__l = the_stack
+        self.__l = list(the_stack)
         self.__l.reverse()
         self.__result = []
         
diff --git a/python/triqs/utility/mpi_mpi4py.py b/python/triqs/utility/mpi_mpi4py.py
index 9be75f6..9c6f6f8 100644
--- a/python/triqs/utility/mpi_mpi4py.py
+++ b/python/triqs/utility/mpi_mpi4py.py
@@ -48,6 +48,10 @@ def recv(source = 0):
     return r
 
 
+def iprobe(source = 0):
+    """ Whether a message from source can be received """
+    return world.iprobe(source = source)
+
 def barrier(poll_msec=1):
     """
     Use asynchronous synchronization, otherwise mpi.barrier uses up all the CPU time during
-- 
2.43.0


From c589b70046bf5901e1f2498309630d99aa9d5d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:03 +0000
Subject: [PATCH 27/85] fix: the redirected C++ output arrives, completely, and
 the redirection can be stopped and started again

Bytes were written to sys.stdout, which refuses them silently, what was in
the pipe at the end was dropped, the redirection began and ended some time
after the calls returned (a restart could lose the terminal for good), the
copy of the handle was never closed, a failed start left the redirection
marked as started, and a program which did not stop it never ended.
---
 python/triqs/utility/redirect.py | 76 +++++++++++++++++++++++---------
 1 file changed, 56 insertions(+), 20 deletions(-)

diff --git a/python/triqs/utility/redirect.py b/python/triqs/utility/redirect.py
index 8409818..0228625 100644
--- a/python/triqs/utility/redirect.py
+++ b/python/triqs/utility/redirect.py
@@ -17,7 +17,7 @@
 #
 # Authors: Olivier Parcollet, Nils Wentzell
 
-import threading, time, sys, os, fcntl
+import threading, time, sys, os, fcntl, codecs, atexit
 
 __all__ = ['start_redirect', 'stop_redirect']
 
@@ -25,40 +25,68 @@ __all__ = ['start_redirect', 'stop_redirect']
 class T(threading.Thread):
 
   def __init__(self):
-    threading.Thread.__init__(self)
+    # a daemon, for a program may end without stopping the redirection
+    threading.Thread.__init__(self, daemon = True)
     self.go_on = True
+
+    # the pipe may cut a character in two
+    self.decoder = codecs.getincrementaldecoder('utf-8')('replace')
     
     # copy the c++ stdout handler for later
     self.oldhandle = os.dup(1)
 
+    # create a pipe and glue the c++ stdout to its write end
+    # make the read end non-blocking
+    try:
+      self.piper, pipew = os.pipe()
+    except OSError:
+      os.close(self.oldhandle)
+      raise
+    os.dup2(pipew, 1)
+    os.close(pipew)
+    fcntl.fcntl(self.piper,fcntl.F_SETFL,os.O_NONBLOCK)
+
   def stop(self):
     self.go_on = False
+    self.join()
+
+  # put back the c++ stdout where it was
+  def restore(self):
+    os.dup2(self.oldhandle, 1)
+    os.close(self.oldhandle)
+
+  # read out the pipe and write it to the screen
+  def read_pipe(self):
+    while True:
+      try:
+        data = os.read(self.piper, 10000)
+      except BlockingIOError: # the pipe is empty
+        return
+      if not data: # nobody can write to the pipe any more
+        return
+      self.write(self.decoder.decode(data))
+
+  def write(self, text):
+    try:
+      sys.stdout.write(text)
+      sys.stdout.flush()
+    except Exception: # go on without the screen
+      pass
 
   def run(self):
 
-    # create a pipe and glue the c++ stdout to its write end
-    # make the read end non-blocking
-    piper, pipew = os.pipe()
-    os.dup2(pipew, 1)
-    os.close(pipew)
-    fcntl.fcntl(piper,fcntl.F_SETFL,os.O_NONBLOCK)
-    
     while self.go_on:
 
       # give the system 1 second to fill up the pipe
       time.sleep(1)
-      try:
-        # read out the pipe and write it to the screen
-        # if the pipe was empty it return an error (hence the try-except)
-        sys.stdout.write(os.read(piper, 10000))
-        sys.stdout.flush()
-      except:
-        pass
+      self.read_pipe()
 
     # when we want to stop the thread put back the c++ stdout where it was
     # clear the pipe
-    os.dup2(self.oldhandle, 1)
-    os.close(piper)
+    self.restore()
+    self.read_pipe()
+    self.write(self.decoder.decode(b'', True))
+    os.close(self.piper)
     return
 
 # flag to know if the thread was started
@@ -71,10 +99,15 @@ def start_redirect():
   if started:
     print("Already redirected c++ output")
   else:
-    started = True
     # start a new redirection thread
     a = T()
-    a.start()
+    try:
+      a.start()
+    except RuntimeError:
+      a.restore()
+      os.close(a.piper)
+      raise
+    started = True
     
 # stop the redirection
 def stop_redirect():
@@ -83,3 +116,6 @@ def stop_redirect():
   if started:
     started = False
     a.stop()
+
+# deliver what is still in the pipe at the end of the program
+atexit.register(stop_redirect)
-- 
2.43.0


From 374729be87ed35f6538af962021e032c67ffe17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 28/85] fix: SumkDiscrete takes a Sigma that is a function
 (inspect.getargspec is gone, methods have one parameter less) and a field
 that is an array

---
 python/triqs/sumk/sumk_discrete.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/sumk/sumk_discrete.py b/python/triqs/sumk/sumk_discrete.py
index 62465f5..a7ee378 100644
--- a/python/triqs/sumk/sumk_discrete.py
+++ b/python/triqs/sumk/sumk_discrete.py
@@ -115,7 +115,7 @@ class SumkDiscrete:
         # case 2) Sigma is a function returning a BlockGf
         else:
             assert callable(Sigma), "If Sigma is not a BlockGf it must be a function"
-            Sigma_Nargs = len(inspect.getargspec(Sigma)[0])
+            Sigma_Nargs = len(inspect.signature(Sigma).parameters)
             assert Sigma_Nargs <= 2, "Sigma must be a function of k or of k and epsilon"
             if Sigma_Nargs == 1:
                 model = Sigma(self.bz_points[0])
@@ -142,7 +142,7 @@ class SumkDiscrete:
         tmp,tmp2 = G.copy(),G.copy()
         mupat = mu * numpy.identity(no, numpy.complex_)
         tmp << iOmega_n
-        if field != None: tmp -= field
+        if field is not None: tmp -= field
         if not Sigma_fnt: tmp -= Sigma  # substract Sigma once for all
 
         # Loop on k points...
-- 
2.43.0


From dc8d0495f6abbdf5c3196dc2141af4dfca6d027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 29/85] fix: SumkDiscreteFromLattice: a pickled sum keeps its
 grid, grids may be shifted by Q and may cover a patch

---
 python/triqs/sumk/sumk_discrete_from_lattice.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/python/triqs/sumk/sumk_discrete_from_lattice.py b/python/triqs/sumk/sumk_discrete_from_lattice.py
index 3741593..b034b44 100644
--- a/python/triqs/sumk/sumk_discrete_from_lattice.py
+++ b/python/triqs/sumk/sumk_discrete_from_lattice.py
@@ -52,11 +52,6 @@ class SumkDiscreteFromLattice (SumkDiscrete):
 
      #-------------------------------------------------------------
 
-    def __reduce__(self):
-        return self.__class__,  (self.SL, self.patch, self.bz_weights.shape[0],self.method)
-
-     #-------------------------------------------------------------
-
     def Recompute_Grid (self, n_points, method="Riemann", Q=None):
         """(Re)Computes the grid on the patch given at construction:
 
@@ -111,13 +106,13 @@ class SumkDiscreteFromLattice (SumkDiscrete):
             raise IndexError("Summation method unknown")
 
         # A shift
-        if Q:
+        if Q is not None:
             try:
                 Q = np.array(Q)
                 assert len(Q.shape) ==1
             except:
                 raise RuntimeError("Q is not of correct type")
-            for k_index in range(self.N_kpts()):
+            for k_index in range(self.n_kpts()):
                 self.bz_points[k_index,:] +=Q
 
         # Compute the discretized hoppings from the Superlattice
@@ -129,7 +124,7 @@ class SumkDiscreteFromLattice (SumkDiscrete):
             assert 0 , "not checked"
             self.overlap[:,:,:] = self.SL.Overlap(bz_points.transpose().copy())
             mupat = np.identity(self.SL.n_orbitals)
-            for k_index in range(self.N_kpts()):
+            for k_index in range(self.n_kpts()):
                 self.mu_pattern[:,:,k_index] = np.dot( mupat ,self.Overlap[:,:,k_index])
 
     #-------------------------------------------------------------
@@ -141,7 +136,7 @@ class SumkDiscreteFromLattice (SumkDiscrete):
         """
 
         tritemp = np.array(patch._triangles)
-        ntri = len(tritemp)/3
+        ntri = len(tritemp)//3
         nk = n_bz*n_bz*ntri
         self.resize_arrays(nk)
 
@@ -172,6 +167,6 @@ class SumkDiscreteFromLattice (SumkDiscrete):
         self.hopping[:,:,:] = self.SL.fourier(self.bz_points)
 
         if self.orthogonal_basis:
-            self.mu_pattern[:,:] =  self.SL.MuPattern[:,:]
+            self.mu_pattern[:,:] = np.identity(self.SL.n_orbitals)
         else:
             assert 0 , "not checked"
-- 
2.43.0


From 7ef8437dd8340813a9804a685eb07b7767c21a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 30/85] fix: HilbertTransform can be pickled, takes functions
 and array fields, and refines the grid until it is converged

---
 python/triqs/dos/hilbert_transform.py | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/python/triqs/dos/hilbert_transform.py b/python/triqs/dos/hilbert_transform.py
index 0ea741d..e4a6674 100644
--- a/python/triqs/dos/hilbert_transform.py
+++ b/python/triqs/dos/hilbert_transform.py
@@ -46,7 +46,7 @@ class HilbertTransform:
     #-------------------------------------------------------------
 
     def __reduce__(self):
-        return self.__class__, (self.rho)
+        return self.__class__, (self.dos,)
 
     #-------------------------------------------------------------
 
@@ -101,7 +101,7 @@ class HilbertTransform:
         # case 2) Sigma is a function returning a Gf
         else:
             assert callable(Sigma), "If Sigma is not a Gf it must be a function"
-            assert len(inspect.getargspec(Sigma)[0]) == 1, "Sigma must be a function of a single variable"
+            assert len(inspect.signature(Sigma).parameters) == 1, "Sigma must be a function of a single variable"
             model = Sigma(self.dos.eps[0])
             Sigma_fnt = True
 
@@ -117,7 +117,7 @@ class HilbertTransform:
 
         if not(isinstance(self.dos, DOSFromFunction)):
             assert n_points_integral==None and test_convergence == None, " Those parameters can only be used with an dos_from_function"
-        if field !=None:
+        if field is not None:
             try:
                 result += field
             except:
@@ -138,7 +138,7 @@ class HilbertTransform:
             tmp << iOmega_n + mu + eta * 1j
             if not(Sigma_fnt):
                 tmp -= Sigma
-            if field != None: tmp -= field
+            if field is not None: tmp -= field
 
             # I slice all the arrays on the node. Cf reduce operation below.
             for d, e_h, e in zip(*[mpi.slice_array(A) for A in [self.rho_for_sum, eps_hat, self.dos.eps]]):
@@ -168,21 +168,21 @@ class HilbertTransform:
             if not(n_points_integral): # if not defined, use the defaults given at construction of the dos
                 n_points_integral=  len(self.dos.eps)
             else:
-                self.dos._DOS__f(n_points_integral)
+                self.dos._DOSFromFunction__f(n_points_integral)
                 self.__normalize()
 
             HT(result)
 
-            nloop, test = 1, 0
-            while test_convergence and nloop < 10 and (nloop == 1 or test > test_convergence):
-                if nloop>1:
-                    self.dos._DOS__f(n_points_integral)
-                    self.__normalize()
+            nloop, converged = 0, False
+            while test_convergence and nloop < 10 and not converged:
+                nloop += 1
+                n_points_integral *= 2
+                self.dos._DOSFromFunction__f(n_points_integral)
+                self.__normalize()
 
                 result_old = result.copy()
-                result = DOS.HilbertTransform(self, Sigma, mu, eta, epsilon_hat, result)
-                test = test_distance(result, result_old, test_convergence)
-                n_points_integral *=2
+                HT(result)
+                converged = test_distance(result, result_old, test_convergence)
 
         else:  # Ordinary DOS
             HT(result)
-- 
2.43.0


From d2f556453c96ae78b5f7572f69793e1d6c25f27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 31/85] fix: Block2Gf can be pickled

---
 python/triqs/gf/block2_gf.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 997ff85..ffa7393 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -24,6 +24,10 @@ from itertools import chain, product
 import numpy as np
 
 
+def call_factory_from_dict(cl, name, dic):
+    """Given a class cl and a dict dic, it calls cl.__factory_from_dict__(dic)"""
+    return cl.__factory_from_dict__(name, dic)
+
 class Block2Gf:
     """
     Generic Green's Function by two-index Block.
@@ -182,7 +186,7 @@ class Block2Gf:
     #----------------------   IO    -------------------------------------
 
     def __reduce__(self):
-        return lambda cl,name,dic: cl.__factory_from_dict__(name, dic), (self.__class__,self.name, self.__reduce_to_dict__())
+        return call_factory_from_dict, (self.__class__,self.name, self.__reduce_to_dict__())
 
     def __reduce_to_dict__(self):
         d = {"%s_%s"%bn : g for bn, g in self}
-- 
2.43.0


From b1be5b1a542828d295bc82dd045c152c3c057dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 32/85] fix: dichotomy accepts a value which meets the
 precision exactly, at which its loop ends

---
 python/triqs/utility/dichotomy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/utility/dichotomy.py b/python/triqs/utility/dichotomy.py
index e66d78c..d6d6175 100644
--- a/python/triqs/utility/dichotomy.py
+++ b/python/triqs/utility/dichotomy.py
@@ -107,7 +107,7 @@ def dichotomy(function, x_init, y_value, precision_on_y, delta_x,
         if verbosity > 2:
             mpi.report("%(PR)s%(x1)f < %(x_name)s < %(x2)f"%locals())
             mpi.report("%(PR)s%(y1)f < %(y_name)s < %(y2)f"%locals())
-    if abs(yfound - y_value) < precision_on_y :
+    if abs(yfound - y_value) <= precision_on_y :
         if verbosity>0:
             mpi.report("%(PR)s%(x_name)s found in %(nbre_loop)d iterations : "%locals())
             mpi.report("%(PR)s%(y_name)s = %(yfound)f;%(x_name)s = %(x)f"%locals())
-- 
2.43.0


From 570a912774008f9427426bcd720496108f720c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 33/85] fix: HilbertTransform leaves the grid of its DOS as it
 was constructed

---
 python/triqs/dos/hilbert_transform.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/python/triqs/dos/hilbert_transform.py b/python/triqs/dos/hilbert_transform.py
index e4a6674..b4ce38b 100644
--- a/python/triqs/dos/hilbert_transform.py
+++ b/python/triqs/dos/hilbert_transform.py
@@ -165,23 +165,23 @@ class HilbertTransform:
 
         if isinstance (self.dos, DOSFromFunction):
 
+            def HT_on_grid(n):
+                # another grid is only for this integral: self.dos stays as it was constructed
+                dos = DOSFromFunction(self.dos.function, self.dos.x_min, self.dos.x_max, n, self.dos.name)
+                HilbertTransform(dos)(Sigma, mu, eta, field, epsilon_hat, result)
+
             if not(n_points_integral): # if not defined, use the defaults given at construction of the dos
                 n_points_integral=  len(self.dos.eps)
+                HT(result)
             else:
-                self.dos._DOSFromFunction__f(n_points_integral)
-                self.__normalize()
-
-            HT(result)
+                HT_on_grid(n_points_integral)
 
             nloop, converged = 0, False
             while test_convergence and nloop < 10 and not converged:
                 nloop += 1
                 n_points_integral *= 2
-                self.dos._DOSFromFunction__f(n_points_integral)
-                self.__normalize()
-
                 result_old = result.copy()
-                HT(result)
+                HT_on_grid(n_points_integral)
                 converged = test_distance(result, result_old, test_convergence)
 
         else:  # Ordinary DOS
-- 
2.43.0


From b473cf1068df2e70ca952b50661faf2709482cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:34 +0000
Subject: [PATCH 34/85] fix: a Block2Gf with block names joined by underscores
 can be pickled

---
 python/triqs/gf/block2_gf.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index ffa7393..244374f 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -19,15 +19,12 @@
 # Authors: Weh Andreas, Michel Ferrero, Alexander Hampel, Jonathan Karp, Igor Krivenko, Nils Wentzell
 
 from collections.abc import Sequence
+from functools import partial
 from itertools import chain, product
 
 import numpy as np
 
 
-def call_factory_from_dict(cl, name, dic):
-    """Given a class cl and a dict dic, it calls cl.__factory_from_dict__(dic)"""
-    return cl.__factory_from_dict__(name, dic)
-
 class Block2Gf:
     """
     Generic Green's Function by two-index Block.
@@ -186,7 +183,8 @@ class Block2Gf:
     #----------------------   IO    -------------------------------------
 
     def __reduce__(self):
-        return call_factory_from_dict, (self.__class__,self.name, self.__reduce_to_dict__())
+        # not the dict of the archives: its keys can coincide, e.g. for the blocks ('a_b','c') and ('a','b_c')
+        return partial(self.__class__, name=self.name), (self.__indices1, self.__indices2, self.__GFlist)
 
     def __reduce_to_dict__(self):
         d = {"%s_%s"%bn : g for bn, g in self}
-- 
2.43.0


From d7bfa513093c3dc3e55d965d55e43aa18f444b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 35/85] fix: assigning an invalid expression to a gf leaves the
 gf unchanged

---
 c++/triqs/gfs/gf/gf.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/gfs/gf/gf.hpp b/c++/triqs/gfs/gf/gf.hpp
index 9cdbfe0..40374e8 100644
--- a/c++/triqs/gfs/gf/gf.hpp
+++ b/c++/triqs/gfs/gf/gf.hpp
@@ -313,8 +313,11 @@ namespace triqs::gfs {
     gf &operator=(RHS &&rhs)
       requires(GreenFunction<RHS>::value and not std::is_same_v<std::decay_t<RHS>, gf>)
     {
-      _mesh = rhs.mesh();
-      _data.resize(rhs.data_shape());
+      // The expression may refuse its shape, and the allocation may fail: do both before changing the mesh
+      auto const sh = rhs.data_shape();
+      mesh_t m      = rhs.mesh();
+      _data.resize(sh);
+      _mesh = std::move(m);
       for (auto w : _mesh) (*this)[w] = rhs[w];
       return *this;
     }
-- 
2.43.0


From e132153f4239bc12ebd4f93f256e32a57f0db1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:23 +0000
Subject: [PATCH 36/85] fix: assigning a block_gf_view to a view of another
 size is an error

---
 c++/triqs/gfs/block/block_gf_view.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/triqs/gfs/block/block_gf_view.hpp b/c++/triqs/gfs/block/block_gf_view.hpp
index efaa3c3..168f544 100644
--- a/c++/triqs/gfs/block/block_gf_view.hpp
+++ b/c++/triqs/gfs/block/block_gf_view.hpp
@@ -100,6 +100,7 @@ namespace triqs::gfs {
     block_gf_view &operator=(block_gf_view const &rhs)
       requires(not IsConst)
     {
+      if (!(size() == rhs.size())) TRIQS_RUNTIME_ERROR << "Gf Assignment in View : incompatible size" << size() << " vs " << rhs.size();
       _assign_impl(rhs);
       return *this;
     }
-- 
2.43.0


From 2ac557350378dbee0d8467eb5011617324ae74f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:39 +0000
Subject: [PATCH 37/85] fix: reading a MeshReFreq drops the tail fitter of the
 previous mesh

---
 c++/triqs/mesh/refreq.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/mesh/refreq.hpp b/c++/triqs/mesh/refreq.hpp
index 90531cf..0d4e8e2 100644
--- a/c++/triqs/mesh/refreq.hpp
+++ b/c++/triqs/mesh/refreq.hpp
@@ -57,7 +57,11 @@ namespace triqs::mesh {
 
     friend void h5_write(h5::group fg, std::string const &subgroup_name, refreq const &m) { m.h5_write_impl(fg, subgroup_name, "MeshReFreq"); }
 
-    friend void h5_read(h5::group fg, std::string const &subgroup_name, refreq &m) { m.h5_read_impl(fg, subgroup_name, "MeshReFreq"); }
+    friend void h5_read(h5::group fg, std::string const &subgroup_name, refreq &m) {
+      auto r = refreq{}; // a new mesh: do not keep the tail fitter cached for the previous one
+      r.h5_read_impl(fg, subgroup_name, "MeshReFreq");
+      m = std::move(r);
+    }
 
     // -------------------- Print -------------------
 
-- 
2.43.0


From 44be10a6fb2ee71e515dbc85dddb5a76fc24eefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:40 +0000
Subject: [PATCH 38/85] fix: meshes whose hashes collide are not equal

---
 c++/triqs/mesh/brzone.hpp     | 2 +-
 c++/triqs/mesh/cyclat.hpp     | 2 +-
 c++/triqs/mesh/dlr.hpp        | 4 +++-
 c++/triqs/mesh/dlr_imfreq.hpp | 4 +++-
 c++/triqs/mesh/dlr_imtime.hpp | 4 +++-
 5 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/c++/triqs/mesh/brzone.hpp b/c++/triqs/mesh/brzone.hpp
index 5241c95..49667a8 100644
--- a/c++/triqs/mesh/brzone.hpp
+++ b/c++/triqs/mesh/brzone.hpp
@@ -98,7 +98,7 @@ namespace triqs::mesh {
 
     // ------------------- Comparison -------------------
 
-    bool operator==(brzone const &M) const { return mesh_hash() == M.mesh_hash(); }
+    bool operator==(brzone const &M) const { return mesh_hash() == M.mesh_hash() && dims_ == M.dims_ && bz_ == M.bz_; }
     bool operator!=(brzone const &M) const { return !(operator==(M)); }
 
     // ------------------- Accessors -------------------
diff --git a/c++/triqs/mesh/cyclat.hpp b/c++/triqs/mesh/cyclat.hpp
index 88f7a58..a27f906 100644
--- a/c++/triqs/mesh/cyclat.hpp
+++ b/c++/triqs/mesh/cyclat.hpp
@@ -83,7 +83,7 @@ namespace triqs::mesh {
 
     // ------------------- Comparison -------------------
 
-    bool operator==(cyclat const &M) const { return mesh_hash() == M.mesh_hash(); }
+    bool operator==(cyclat const &M) const { return mesh_hash() == M.mesh_hash() && dims_ == M.dims_ && bl_ == M.bl_; }
     bool operator!=(cyclat const &M) const { return !(operator==(M)); }
 
     // ------------------- Accessors -------------------
diff --git a/c++/triqs/mesh/dlr.hpp b/c++/triqs/mesh/dlr.hpp
index dc211f2..30d7f6c 100644
--- a/c++/triqs/mesh/dlr.hpp
+++ b/c++/triqs/mesh/dlr.hpp
@@ -97,7 +97,9 @@ namespace triqs::mesh {
 
     // -------------------- Comparisons -------------------
 
-    bool operator==(dlr const &m) const { return _mesh_hash == m._mesh_hash; }
+    bool operator==(dlr const &m) const {
+      return _mesh_hash == m._mesh_hash and _beta == m._beta and _statistic == m._statistic and _w_max == m._w_max and _eps == m._eps;
+    }
     bool operator!=(dlr const &m) const { return !(operator==(m)); }
 
     // -------------------- mesh_point -------------------
diff --git a/c++/triqs/mesh/dlr_imfreq.hpp b/c++/triqs/mesh/dlr_imfreq.hpp
index 1a1b56b..0b62610 100644
--- a/c++/triqs/mesh/dlr_imfreq.hpp
+++ b/c++/triqs/mesh/dlr_imfreq.hpp
@@ -92,7 +92,9 @@ namespace triqs::mesh {
 
     // -------------------- Comparisons -------------------
 
-    bool operator==(dlr_imfreq const &m) const { return _mesh_hash == m._mesh_hash; }
+    bool operator==(dlr_imfreq const &m) const {
+      return _mesh_hash == m._mesh_hash and _beta == m._beta and _statistic == m._statistic and _w_max == m._w_max and _eps == m._eps;
+    }
     bool operator!=(dlr_imfreq const &m) const { return !(operator==(m)); }
 
     // -------------------- mesh_point -------------------
diff --git a/c++/triqs/mesh/dlr_imtime.hpp b/c++/triqs/mesh/dlr_imtime.hpp
index acee943..8455a04 100644
--- a/c++/triqs/mesh/dlr_imtime.hpp
+++ b/c++/triqs/mesh/dlr_imtime.hpp
@@ -91,7 +91,9 @@ namespace triqs::mesh {
 
     // -------------------- Comparisons -------------------
 
-    bool operator==(dlr_imtime const &m) const { return _mesh_hash == m._mesh_hash and _statistic == m._statistic; }
+    bool operator==(dlr_imtime const &m) const {
+      return _mesh_hash == m._mesh_hash and _beta == m._beta and _statistic == m._statistic and _w_max == m._w_max and _eps == m._eps;
+    }
     bool operator!=(dlr_imtime const &m) const { return !(operator==(m)); }
 
     // -------------------- mesh_point -------------------
-- 
2.43.0


From c8c71247fd4dea94039c28c3cf4c7ae76cc0fef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:57 +0000
Subject: [PATCH 39/85] fix: the closest point of a cyclic lattice mesh is one
 of its points

closest_mesh_pt of a lattice point outside of the periodic cell gave an index
outside of the mesh, hence reads and writes outside of the data, where evaluation
at the same point and the Brillouin zone mesh fold it back.
---
 c++/triqs/mesh/cyclat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/mesh/cyclat.hpp b/c++/triqs/mesh/cyclat.hpp
index a27f906..5c12d33 100644
--- a/c++/triqs/mesh/cyclat.hpp
+++ b/c++/triqs/mesh/cyclat.hpp
@@ -162,7 +162,7 @@ namespace triqs::mesh {
       return {i0, i1, i2};
     }
 
-    [[nodiscard]] index_t to_index(closest_mesh_point_t<value_t> const &cmp) const { return cmp.value.index(); }
+    [[nodiscard]] index_t to_index(closest_mesh_point_t<value_t> const &cmp) const { return index_modulo(cmp.value.index()); }
 
     // -------------------- operator [] () -------------------
 
-- 
2.43.0


From 1538c4e66f1bf1bbcf3dbbef7b87ecc00b8f70ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:21 +0000
Subject: [PATCH 40/85] fix: subtracting a many_body_operator from itself gives
 zero

---
 c++/triqs/operators/many_body_operator.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/c++/triqs/operators/many_body_operator.hpp b/c++/triqs/operators/many_body_operator.hpp
index 191cfbf..8f544f2 100644
--- a/c++/triqs/operators/many_body_operator.hpp
+++ b/c++/triqs/operators/many_body_operator.hpp
@@ -237,6 +237,7 @@ namespace triqs {
 
       // Algebraic operations
       many_body_operator_generic &operator+=(many_body_operator_generic const &op) {
+        if (this == &op) return operator*=(scalar_t(2)); // the loop below would erase monomials of op
         bool is_new_monomial;
         typename monomials_map_t::iterator it;
         for (auto const &m : op.monomials) {
@@ -250,6 +251,10 @@ namespace triqs {
       }
 
       many_body_operator_generic &operator-=(many_body_operator_generic const &op) {
+        if (this == &op) { // the loop below would erase monomials of op
+          monomials.clear();
+          return *this;
+        }
         bool is_new_monomial;
         typename monomials_map_t::iterator it;
         for (auto const &m : op.monomials) {
-- 
2.43.0


From 4c0540bc28aec179e54bf983b7410323134cae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:24 +0000
Subject: [PATCH 41/85] fix: indices of operators beyond the range of int are
 printed and stored in full

---
 c++/triqs/hilbert_space/fundamental_operator_set.cpp | 4 ++--
 c++/triqs/operators/many_body_operator.cpp           | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/hilbert_space/fundamental_operator_set.cpp b/c++/triqs/hilbert_space/fundamental_operator_set.cpp
index 69c0d05..21b550a 100644
--- a/c++/triqs/hilbert_space/fundamental_operator_set.cpp
+++ b/c++/triqs/hilbert_space/fundamental_operator_set.cpp
@@ -27,14 +27,14 @@ namespace triqs {
 
       // a little visitor for reduction to string
       struct variant_visitor {
-        std::string operator()(int i) const { return "i" + std::to_string(i); }
+        std::string operator()(long i) const { return "i" + std::to_string(i); }
         std::string operator()(std::string const &s) const { return "s" + s; }
       };
 
       // decode the string
       std::variant<long, std::string> string_to_variant(std::string const &s) {
         switch (s[0]) {
-          case 'i': return std::stoi(s.c_str() + 1); // the variant is an int. Skip the first char and recover the int
+          case 'i': return std::stol(s.c_str() + 1); // the variant is a long. Skip the first char and recover the long
           case 's': return s.c_str() + 1;            // the variant is a string. Just skip the first char
           default: TRIQS_RUNTIME_ERROR << "Variant indices absent in h5 read";
         }
diff --git a/c++/triqs/operators/many_body_operator.cpp b/c++/triqs/operators/many_body_operator.cpp
index 41d5ba0..3f37bf0 100644
--- a/c++/triqs/operators/many_body_operator.cpp
+++ b/c++/triqs/operators/many_body_operator.cpp
@@ -34,7 +34,7 @@ namespace triqs {
     struct print_visitor { // TODO C17 use generic lambda + if constexpr
       std::ostream &os;
       void operator()(std::string const &x) { os << '\'' << x << '\''; }
-      void operator()(int i) { os << i; }
+      void operator()(long i) { os << i; }
     };
 
     std::ostream &operator<<(std::ostream &os, canonical_ops_t const &op) {
-- 
2.43.0


From a04aaf96925a938ae7d78dbff2fb3d51c0f79e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:48 +0000
Subject: [PATCH 42/85] fix: reading a many_body_operator with its fundamental
 operators replaces what it was

---
 c++/triqs/operators/many_body_operator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/operators/many_body_operator.cpp b/c++/triqs/operators/many_body_operator.cpp
index 3f37bf0..cdad5ef 100644
--- a/c++/triqs/operators/many_body_operator.cpp
+++ b/c++/triqs/operators/many_body_operator.cpp
@@ -160,6 +160,8 @@ namespace triqs {
 
       // ---- Now we must reverse the operations of write
 
+      op.monomials.clear(); // what op was before is replaced
+
       auto r_fops = fops.data(); // the data vector v[int] -> indices inverting fops[indices] -> n
 
       for (auto const &mon : datavec) {
-- 
2.43.0


From aab0f6642339f49824fcff6dd38c5ad52c76711b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:19 +0000
Subject: [PATCH 43/85] fix: block_matrix_from_op takes only the terms of the
 blocks

---
 c++/triqs/operators/util/extractors.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/operators/util/extractors.hpp b/c++/triqs/operators/util/extractors.hpp
index 36012a1..4dc9e51 100644
--- a/c++/triqs/operators/util/extractors.hpp
+++ b/c++/triqs/operators/util/extractors.hpp
@@ -286,8 +286,16 @@ namespace triqs::operators::utils {
       auto const &m        = term.monomial;
       scalar_t const &coef = term.coef;
 
-      if (m.size() == 2 and m[0].dagger and not m[1].dagger and m[0].indices[0] == m[1].indices[0] and m[0].indices.size() == 2
-          or m[1].indices.size() == 2) {
+      // are the indices those of an operator of the gf_struct?
+      auto in_gf_struct = [&](auto const &ind) {
+        if (ind.size() != 2 or not std::holds_alternative<std::string>(ind[0]) or not std::holds_alternative<long>(ind[1])) return false;
+        auto bl  = name_to_bl(std::get<std::string>(ind[0]));
+        auto idx = std::get<long>(ind[1]);
+        return bl < n_bl and idx >= 0 and idx < gf_struct[bl].second;
+      };
+
+      if (m.size() == 2 and m[0].dagger and not m[1].dagger and in_gf_struct(m[0].indices) and in_gf_struct(m[1].indices)
+          and m[0].indices[0] == m[1].indices[0]) {
         auto bl_name = std::get<std::string>(m[0].indices[0]);
         auto op1_idx = std::get<long>(m[0].indices[1]);
         auto op2_idx = std::get<long>(m[1].indices[1]);
-- 
2.43.0


From 4468b296098c1b38501144576a0463e13a0f3c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 44/85] fix: the sign of an imperative_operator counts all of
 up to 64 orbitals

The parity was the one of the lower 16 bits of the masked Fock state only.
---
 c++/triqs/hilbert_space/imperative_operator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/hilbert_space/imperative_operator.hpp b/c++/triqs/hilbert_space/imperative_operator.hpp
index 8009372..5ee1e92 100644
--- a/c++/triqs/hilbert_space/imperative_operator.hpp
+++ b/c++/triqs/hilbert_space/imperative_operator.hpp
@@ -174,8 +174,8 @@ namespace triqs {
 
       static bool parity_number_of_bits(uint64_t v) {
         // http://graphics.stanford.edu/~seander/bithacks.html#CountBitsSetNaive
-        // v ^= v >> 16;
-        // only ok until 16 orbitals ! assert this or put the >> 16
+        v ^= v >> 32;
+        v ^= v >> 16;
         v ^= v >> 8;
         v ^= v >> 4;
         v ^= v >> 2;
-- 
2.43.0


From d2bd9b4bd2e9f992696ca7721f29fe14f0e8c4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:24 +0000
Subject: [PATCH 45/85] fix: space_partition stores the matrix elements of the
 Hamiltonian alone

Those of the hybridization were added to them, or replaced them.
---
 c++/triqs/hilbert_space/space_partition.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/hilbert_space/space_partition.hpp b/c++/triqs/hilbert_space/space_partition.hpp
index b69e5ba..6525fa6 100644
--- a/c++/triqs/hilbert_space/space_partition.hpp
+++ b/c++/triqs/hilbert_space/space_partition.hpp
@@ -72,6 +72,7 @@ namespace triqs {
         for (idx_t i = 0; i < size; ++i) {
           tmp_state(i)        = amplitude_t(1);
           state_t final_state = H(tmp_state);
+          bool store          = store_matrix_elements;
 
           auto mapping = [&](idx_t f, amplitude_t amplitude) {
             using triqs::utility::is_zero;
@@ -80,15 +81,16 @@ namespace triqs {
             auto f_subspace = subspaces.find_set(f);
             if (i_subspace != f_subspace) subspaces.link(i_subspace, f_subspace);
 
-            if (store_matrix_elements) matrix_elements[std::make_pair(i, f)] = amplitude;
+            if (store) matrix_elements[std::make_pair(i, f)] = amplitude;
           };
 
           // Iterate over non-zero final amplitudes
           foreach (final_state, mapping)
             ;
 
-          // redo for additionnal Hyb
+          // redo for additionnal Hyb, whose matrix elements are not those of the Hamiltonian
           if (not Hyb.is_empty()) {
+            store       = false;
             final_state = Hyb(tmp_state);
             foreach (final_state, mapping)
               ;
-- 
2.43.0


From 8c02ea3cee640f5ef1d3523ca664b2ba200da02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:18 +0000
Subject: [PATCH 46/85] fix: the subspaces of an auto-partition have one-to-one
 connections

Merging subspaces for an operator can join some that the operator, or one
merged before it, connects to different subspaces. Merge until there are none.
---
 c++/triqs/atom_diag/impl/worker.cpp         | 25 ++++++++++++---------
 c++/triqs/hilbert_space/space_partition.hpp |  6 ++++-
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/c++/triqs/atom_diag/impl/worker.cpp b/c++/triqs/atom_diag/impl/worker.cpp
index 2cca809..8a5f03f 100644
--- a/c++/triqs/atom_diag/impl/worker.cpp
+++ b/c++/triqs/atom_diag/impl/worker.cpp
@@ -63,16 +63,21 @@ namespace triqs {
 
       std::vector<typename space_partition_t::matrix_element_map_t> creation_melem(fops.size());
       std::vector<typename space_partition_t::matrix_element_map_t> annihilation_melem(fops.size());
-      // Merge subspaces
-      for (auto const &o : fops) {
-        auto create  = many_body_op_t::make_canonical(true, o.index);
-        auto destroy = many_body_op_t::make_canonical(false, o.index);
-
-        imperative_operator_t op_c_dag(create, fops), op_c(destroy, fops);
-
-        int n                                              = o.linear_index;
-        std::tie(creation_melem[n], annihilation_melem[n]) = SP.merge_subspaces(op_c_dag, op_c, true);
-      }
+      // Merge subspaces, until all of the operators generate one-to-one connections between them:
+      // merging for an operator can give another one further connections
+      int n_before;
+      do {
+        n_before = SP.n_subspaces();
+        for (auto const &o : fops) {
+          auto create  = many_body_op_t::make_canonical(true, o.index);
+          auto destroy = many_body_op_t::make_canonical(false, o.index);
+
+          imperative_operator_t op_c_dag(create, fops), op_c(destroy, fops);
+
+          int n                                              = o.linear_index;
+          std::tie(creation_melem[n], annihilation_melem[n]) = SP.merge_subspaces(op_c_dag, op_c, true);
+        }
+      } while (SP.n_subspaces() != n_before);
 
       // Fill subspaces
       auto &h_spaces = hdiag->sub_hilbert_spaces;
diff --git a/c++/triqs/hilbert_space/space_partition.hpp b/c++/triqs/hilbert_space/space_partition.hpp
index 6525fa6..6caa618 100644
--- a/c++/triqs/hilbert_space/space_partition.hpp
+++ b/c++/triqs/hilbert_space/space_partition.hpp
@@ -121,7 +121,8 @@ namespace triqs {
         matrix_element_map_t Cd_elements, C_elements;
         std::multimap<idx_t, idx_t> Cd_connections, C_connections;
 
-        auto size = tmp_state.size();
+        auto size     = tmp_state.size();
+        auto n_before = n_subspaces();
 
         // Fill connection multimaps
         for (idx_t i = 0; i < size; ++i) {
@@ -187,6 +188,9 @@ namespace triqs {
 
         _update_index();
 
+        // A merged subspace can have connections to several others, which have to be merged in turn
+        if (n_subspaces() != n_before) merge_subspaces(Cd, C, false);
+
         return std::make_pair(Cd_elements, C_elements);
       }
 
-- 
2.43.0


From 1f94f43bfd5aa4cd2d5b6935f7c173bf098152b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:53 +0000
Subject: [PATCH 47/85] fix: the index of an excluded vacuum's subspace of
 atom_diag is -1

It was left uninitialised.
---
 c++/triqs/atom_diag/atom_diag.hpp      | 2 +-
 c++/triqs/atom_diag/impl/atom_diag.cpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/atom_diag/atom_diag.hpp b/c++/triqs/atom_diag/atom_diag.hpp
index 8820a07..eb5d033 100644
--- a/c++/triqs/atom_diag/atom_diag.hpp
+++ b/c++/triqs/atom_diag/atom_diag.hpp
@@ -245,7 +245,7 @@ namespace triqs {
       /// Ground state energy (i.e. min of all subspaces)
       double get_gs_energy() const { return gs_energy; }
 
-      /// Returns invariant subspace containing the vacuum state
+      /// Returns invariant subspace containing the vacuum state, -1 if it has been excluded
       long get_vacuum_subspace_index() const { return vacuum_subspace_index; }
 
       /// Returns the vacuum state as a vector in the full Hilbert space
diff --git a/c++/triqs/atom_diag/impl/atom_diag.cpp b/c++/triqs/atom_diag/impl/atom_diag.cpp
index dd7ca3c..33b1be7 100644
--- a/c++/triqs/atom_diag/impl/atom_diag.cpp
+++ b/c++/triqs/atom_diag/impl/atom_diag.cpp
@@ -80,7 +80,8 @@ namespace triqs {
 
     ATOM_DIAG_METHOD(void, compute_vacuum()) {
       // Compute vacuum vector in the eigenbasis
-      vacuum() = 0;
+      vacuum()              = 0;
+      vacuum_subspace_index = -1; // it may be excluded
       for (int sp : range(sub_hilbert_spaces.size())) {
         if (sub_hilbert_spaces[sp].has_state(fock_state_t(0))) {
           vacuum_subspace_index               = sp;
-- 
2.43.0


From adfcc790e16e0fcfef9d35b5dee7998b2ea2e012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:14 +0000
Subject: [PATCH 48/85] fix: reading an atom_diag drops the matrices it had

---
 c++/triqs/atom_diag/impl/atom_diag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/atom_diag/impl/atom_diag.cpp b/c++/triqs/atom_diag/impl/atom_diag.cpp
index 33b1be7..b956132 100644
--- a/c++/triqs/atom_diag/impl/atom_diag.cpp
+++ b/c++/triqs/atom_diag/impl/atom_diag.cpp
@@ -226,7 +226,7 @@ namespace triqs {
       h5::read(gr, "annihilation_connection", ad.annihilation_connection);
 
       auto read_sparse = [&](std::string na, std::vector<std::vector<matrix_t>> &Mvv) {
-        Mvv.resize(ad.creation_connection.extent(0), std::vector<matrix_t>(ad.creation_connection.extent(1)));
+        Mvv.assign(ad.creation_connection.extent(0), std::vector<matrix_t>(ad.creation_connection.extent(1)));
         auto gr2 = gr.open_group(na);
         for (auto s : gr2.get_all_dataset_names()) {
           std::stringstream ss(s);
-- 
2.43.0


From 5f0d4445496263f56344c62aa2937b7561eafc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:32 +0000
Subject: [PATCH 49/85] fix: checked quantum numbers of a complex atom_diag see
 imaginary off-diagonal elements

---
 c++/triqs/atom_diag/impl/functions.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/c++/triqs/atom_diag/impl/functions.cpp b/c++/triqs/atom_diag/impl/functions.cpp
index 482d93f..3310aa7 100644
--- a/c++/triqs/atom_diag/impl/functions.cpp
+++ b/c++/triqs/atom_diag/impl/functions.cpp
@@ -154,7 +154,7 @@ namespace triqs {
       if (!commutator.is_almost_zero()) TRIQS_RUNTIME_ERROR << "The operator is not a quantum number";
 
       auto d = atom.get_full_hilbert_space_dim();
-      matrix<quantum_number_t> M(d, d);
+      ATOM_DIAG_T::matrix_t M(d, d);
       M() = 0;
       std::vector<std::vector<quantum_number_t>> result;
 
@@ -163,7 +163,7 @@ namespace triqs {
         for (auto const &x : op) {
           auto b_m = atom.get_matrix_element_of_monomial(x.monomial, sp);
           if (b_m.first == -1) continue;
-          M(atom.index_range_of_subspace(b_m.first), atom.index_range_of_subspace(sp)) += real(x.coef * b_m.second);
+          M(atom.index_range_of_subspace(b_m.first), atom.index_range_of_subspace(sp)) += x.coef * b_m.second;
         }
       }
       if (!is_diagonal(M)) TRIQS_RUNTIME_ERROR << "The matrix of the operator is not diagonal !!!";
@@ -171,7 +171,7 @@ namespace triqs {
       for (int sp = 0; sp < atom.n_subspaces(); ++sp) {
         auto dim = atom.get_subspace_dim(sp);
         result.push_back(std::vector<quantum_number_t>(dim, 0));
-        for (int i = 0; i < dim; ++i) result.back()[i] = M(atom.flatten_subspace_index(sp, i), atom.flatten_subspace_index(sp, i));
+        for (int i = 0; i < dim; ++i) result.back()[i] = std::real(M(atom.flatten_subspace_index(sp, i), atom.flatten_subspace_index(sp, i)));
       }
 
       return result;
-- 
2.43.0


From c7e4e42d4aec289ea0bde6ee0b329fa437d1d559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:20 +0000
Subject: [PATCH 50/85] fix: atomic_g_l at low temperatures does not overflow

---
 c++/triqs/atom_diag/impl/gf.cpp |  4 ++--
 c++/triqs/utility/legendre.cpp  | 11 +++++++++++
 c++/triqs/utility/legendre.hpp  |  3 +++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/atom_diag/impl/gf.cpp b/c++/triqs/atom_diag/impl/gf.cpp
index 6a82080..a05e882 100644
--- a/c++/triqs/atom_diag/impl/gf.cpp
+++ b/c++/triqs/atom_diag/impl/gf.cpp
@@ -257,10 +257,10 @@ namespace triqs {
 
         // Set data points
         double x = beta * pole / 2;
-        double w = -beta / (2 * std::cosh(x));
+        double w = -beta / (1 + std::exp(-2 * std::abs(x))); // 1 / cosh(x) without its factor exp(-|x|)
         for (auto l : g.mesh()) {
           g[l] += residue * w * std::sqrt(2 * l.index() + 1) * (l.index() % 2 == 0 ? 1 : std::copysign(1, -x))
-             * triqs::utility::mod_cyl_bessel_i(l.index(), std::abs(x));
+             * triqs::utility::mod_cyl_bessel_i_scaled(l.index(), std::abs(x));
         }
       };
     }
diff --git a/c++/triqs/utility/legendre.cpp b/c++/triqs/utility/legendre.cpp
index 4c82dbb..7f6142c 100644
--- a/c++/triqs/utility/legendre.cpp
+++ b/c++/triqs/utility/legendre.cpp
@@ -59,3 +59,14 @@ double triqs::utility::mod_cyl_bessel_i(int n, double x) {
   if (x == 0) return (n == 0 ? 1.0 : 0);
   return std::sqrt(M_PI / (2 * x)) * boost::math::cyl_bessel_i(n + 0.5, x);
 }
+
+double triqs::utility::mod_cyl_bessel_i_scaled(int n, double x) {
+  if (x < 500) return std::exp(-x) * mod_cyl_bessel_i(n, x);
+  // i_n(x) = i_0(x) * r_1 * ... * r_n with the ratios r_k = i_k(x) / i_{k-1}(x) from the backward recurrence
+  double r = 0, res = (1 - std::exp(-2 * x)) / (2 * x);
+  for (int k = n + 40 + int(10 * std::sqrt(x)); k > 0; --k) {
+    r = 1 / ((2 * k + 1) / x + r);
+    if (k <= n) res *= r;
+  }
+  return res;
+}
diff --git a/c++/triqs/utility/legendre.hpp b/c++/triqs/utility/legendre.hpp
index 2775761..9c4bb17 100644
--- a/c++/triqs/utility/legendre.hpp
+++ b/c++/triqs/utility/legendre.hpp
@@ -33,6 +33,9 @@ namespace triqs::utility {
   // Modified spherical Bessel function of the first kind i(n,x)
   double mod_cyl_bessel_i(int n, double x);
 
+  // exp(-x) i(n,x), which does not overflow
+  double mod_cyl_bessel_i_scaled(int n, double x);
+
   /**
    * Generates the Legendre polynomials
    *  P_0(x) = 1.0
-- 
2.43.0


From 863aea050fdda620f61726c460797fcb57830123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:07 +0000
Subject: [PATCH 51/85] fix: atom_diag refuses a Hamiltonian that connects its
 subspaces

---
 c++/triqs/atom_diag/impl/worker.cpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/c++/triqs/atom_diag/impl/worker.cpp b/c++/triqs/atom_diag/impl/worker.cpp
index 8a5f03f..ead979b 100644
--- a/c++/triqs/atom_diag/impl/worker.cpp
+++ b/c++/triqs/atom_diag/impl/worker.cpp
@@ -302,14 +302,18 @@ namespace triqs {
         auto const &sp = hdiag->sub_hilbert_spaces[spn];
         typename atom_diag<Complex>::eigensystem_t eigensystem;
 
-        state<sub_hilbert_space, scalar_t, false> i_state(sp);
-        auto h_matrix = matrix_t(sp.size(), sp.size());
+        auto h_matrix = matrix_t::zeros({sp.size(), sp.size()});
 
         for (int i = 0; i < sp.size(); ++i) {
-          i_state.amplitudes()()  = 0;
-          i_state(i)              = 1;
-          auto f_state            = hamiltonian(i_state);
-          h_matrix(range::all, i) = f_state.amplitudes();
+          // act in the full space: terms that leave the subspace may cancel
+          auto f_state = hamiltonian(state<class hilbert_space, scalar_t, true>(hdiag->full_hs, sp.get_fock_state(i)));
+          foreach (f_state, [&](fock_state_t f, scalar_t ampl) {
+            if (sp.has_state(f))
+              h_matrix(sp.get_state_index(f), i) = ampl;
+            else if (not triqs::utility::is_zero(ampl))
+              TRIQS_RUNTIME_ERROR << "atom_diag: the Hamiltonian connects states of different subspaces";
+          })
+            ;
         }
 
         auto eig                   = linalg::eigenelements(h_matrix);
-- 
2.43.0


From 4ae4e6af2cfe801c7645b9a284ebdf235a0e9280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:02 +0000
Subject: [PATCH 52/85] fix: density(gf<refreq>): the weights of the two points
 around w = 0 were exchanged

---
 c++/triqs/gfs/functions/density.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/functions/density.cpp b/c++/triqs/gfs/functions/density.cpp
index 70f1a43..60b33b8 100644
--- a/c++/triqs/gfs/functions/density.cpp
+++ b/c++/triqs/gfs/functions/density.cpp
@@ -150,7 +150,7 @@ namespace triqs::gfs {
     for (auto widx : range(1, N0)) res += g[widx];
     if (abs(dw0) > 1e-9) {
       double a = dw0 / dw;
-      res += 0.5 * ((a * a - 1.) * g[N0 - 1] + a * (2. - a) * g[N0]);
+      res += 0.5 * ((a * (2. - a) - 1.) * g[N0 - 1] + a * a * g[N0]);
     } else
       res -= 0.5 * g[N0 - 1];
 
-- 
2.43.0


From 50304d08efd63c63a0aef8fe5171b779847e7457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:54 +0000
Subject: [PATCH 53/85] fix: the lattice Fourier transform refuses meshes of
 different dimensions instead of writing beyond its output

---
 c++/triqs/gfs/transform/fourier_lattice.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/gfs/transform/fourier_lattice.cpp b/c++/triqs/gfs/transform/fourier_lattice.cpp
index 7858647..33c44af 100644
--- a/c++/triqs/gfs/transform/fourier_lattice.cpp
+++ b/c++/triqs/gfs/transform/fourier_lattice.cpp
@@ -35,6 +35,8 @@ namespace triqs::gfs {
     //ASSERT_EQUAL(g_in.data().indexmap().strides()[1], g_in.data().shape()[1], "Unexpected strides in fourier implementation");
     //ASSERT_EQUAL(g_in.data().indexmap().strides()[2], 1, "Unexpected strides in fourier implementation");
 
+    ASSERT_EQUAL(out_mesh.dims(), g_in.mesh().dims(), "Fourier: the meshes of the lattice and the Brillouin zone have different dimensions");
+
     auto g_out    = gf_vec_t<M1>{out_mesh, std::array{g_in.target_shape()[0]}};
     long n_others = second_dim(g_in.data());
 
-- 
2.43.0


From 00d0ece114a57c4598eafdfdd34fae4f919bc23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:54 +0000
Subject: [PATCH 54/85] fix: the direct Fourier transform of fewer than nine
 times does not read beyond the mesh

---
 c++/triqs/gfs/transform/fourier_matsubara.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/c++/triqs/gfs/transform/fourier_matsubara.cpp b/c++/triqs/gfs/transform/fourier_matsubara.cpp
index 06157b4..8b63b5f 100644
--- a/c++/triqs/gfs/transform/fourier_matsubara.cpp
+++ b/c++/triqs/gfs/transform/fourier_matsubara.cpp
@@ -101,11 +101,15 @@ namespace triqs::gfs {
       // A simple check on whether or not we are dealing with noisy data
       auto dat  = gt.data();
       int n_tau = gt.mesh().size();
-      auto der_1 =
-         max_element(abs(dat(1, range::all) - dat(0, range::all)) + abs(dat(n_tau - 2, range::all) - dat(n_tau - 1, range::all))) / gt.mesh().delta();
-      auto der_2 = 0.5 * max_element(abs(dat(2, range::all) - dat(0, range::all)) + abs(dat(n_tau - 3, range::all) - dat(n_tau - 1, range::all)))
-         / gt.mesh().delta();
-      if (der_1 < 0.95 * der_2 or der_1 > 1.05 * der_2) {
+      bool coarse = n_tau < 9; // fit_tail needs nine points
+      if (not coarse) {
+        auto der_1 =
+           max_element(abs(dat(1, range::all) - dat(0, range::all)) + abs(dat(n_tau - 2, range::all) - dat(n_tau - 1, range::all))) / gt.mesh().delta();
+        auto der_2 = 0.5 * max_element(abs(dat(2, range::all) - dat(0, range::all)) + abs(dat(n_tau - 3, range::all) - dat(n_tau - 1, range::all)))
+           / gt.mesh().delta();
+        coarse = der_1 < 0.95 * der_2 or der_1 > 1.05 * der_2;
+      }
+      if (coarse) {
         std::cerr << "WARNING: Direct Fourier cannot deduce the high-frequency moments of G(tau) due to noise or a coarse tau-grid. \
 	  Please specify the high-frequency moments for higher accuracy.\n";
         return _fourier_impl(iw_mesh, gt, make_zero_tail(gt, 4));
-- 
2.43.0


From 610356265f6592287acdd0c5394f9e196ff7bf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:54 +0000
Subject: [PATCH 55/85] fix: pade refuses an approximant of no points instead
 of reading an empty array

---
 c++/triqs/gfs/transform/pade.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/gfs/transform/pade.cpp b/c++/triqs/gfs/transform/pade.cpp
index 86b8de6..086bbfa 100644
--- a/c++/triqs/gfs/transform/pade.cpp
+++ b/c++/triqs/gfs/transform/pade.cpp
@@ -32,7 +32,7 @@ namespace triqs::gfs {
     // make sure the GFs have the same structure
     //assert(gw.shape() == gr.shape());
 
-    if (n_points < 0 || n_points > gw.mesh().last_index() + 1)
+    if (n_points < 1 || n_points > gw.mesh().last_index() + 1)
       TRIQS_RUNTIME_ERROR << "Pade argument n_points (" << n_points
                           << ") should be positive and not be greater than the positive number of Matsubara frequencies ("
                           << gw.mesh().last_index() + 1 << ")\n";
-- 
2.43.0


From 5f1d22d962ffe25251f9bfc3316fdf7c0c88a5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:54 +0000
Subject: [PATCH 56/85] fix: pade_approximant restores the precision of GMP
 also after a division by zero

---
 c++/triqs/utility/pade_approximants.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/c++/triqs/utility/pade_approximants.hpp b/c++/triqs/utility/pade_approximants.hpp
index 3472197..78d3804 100644
--- a/c++/triqs/utility/pade_approximants.hpp
+++ b/c++/triqs/utility/pade_approximants.hpp
@@ -74,7 +74,11 @@ namespace triqs {
         int N = z_in.size();
 
         // Change the default precision of GMP floats.
-        unsigned long old_prec = mpf_get_default_prec();
+        // It is restored on exit, also in case of an exception.
+        struct restore_prec {
+          unsigned long old_prec = mpf_get_default_prec();
+          ~restore_prec() { mpf_set_default_prec(old_prec); }
+        } _restore_prec;
         mpf_set_default_prec(GMP_default_prec); // How do we determine it?
 
         nda::array<gmp_complex, 2> g(N, N);
@@ -101,9 +105,6 @@ namespace triqs {
           gmp_complex gj = g(j, j);
           a(j)           = dcomplex(real(gj).get_d(), imag(gj).get_d());
         }
-
-        // Restore the precision.
-        mpf_set_default_prec(old_prec);
       }
 
       // give the value of the pade continued fraction at complex number e
-- 
2.43.0


From d8155f9e9dd76d410c3a22316e371b1ffc890e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:58 +0000
Subject: [PATCH 57/85] fix: a bosonic imfreq mesh without frequencies has size
 zero, not minus one

---
 c++/triqs/mesh/imfreq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/mesh/imfreq.hpp b/c++/triqs/mesh/imfreq.hpp
index 0476a5e..f98cc0d 100644
--- a/c++/triqs/mesh/imfreq.hpp
+++ b/c++/triqs/mesh/imfreq.hpp
@@ -76,7 +76,7 @@ namespace triqs::mesh {
      */
     imfreq(double beta, statistic_enum statistic, long n_iw = 1025, option opt = option::all_frequencies)
        : _beta(beta), _statistic(statistic), _n_iw(n_iw), _opt(opt), _mesh_hash(hash(beta, statistic, n_iw, opt)) {
-      if (opt == option::positive_frequencies_only) _first_index = 0;
+      if (opt == option::positive_frequencies_only or n_iw == 0) _first_index = 0;
     }
 
     /**
-- 
2.43.0


From e1ee79024218c8caff8c9096070286a9501a24eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:39 +0000
Subject: [PATCH 58/85] fix: crash_logger.hpp does not compile (noexcept
 without an argument)

---
 c++/triqs/utility/crash_logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/c++/triqs/utility/crash_logger.hpp b/c++/triqs/utility/crash_logger.hpp
index 784de66..8eb6b1e 100644
--- a/c++/triqs/utility/crash_logger.hpp
+++ b/c++/triqs/utility/crash_logger.hpp
@@ -82,7 +82,7 @@ namespace triqs {
         return *this;
       }
       ///
-      ~crash_logger() noexcept() {
+      ~crash_logger() noexcept {
         if ((guards.size() > 0) && (guards.front().active())) {
           std::cerr << "crash_logger : I am destroyed without being dismissed. Dumping the objects : ";
           for (auto &x : names) std::cerr << "\"" << x << "\" ";
-- 
2.43.0


From e200e81dabe00c95a1c5f43f0b423a5b7f09cd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:44 +0000
Subject: [PATCH 59/85] fix: a moved crash_logger writes to the file it was
 made for, not through a dangling pointer

---
 c++/triqs/utility/crash_logger.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/c++/triqs/utility/crash_logger.hpp b/c++/triqs/utility/crash_logger.hpp
index 8eb6b1e..38bc498 100644
--- a/c++/triqs/utility/crash_logger.hpp
+++ b/c++/triqs/utility/crash_logger.hpp
@@ -64,6 +64,7 @@ namespace triqs {
       crash_logger &operator=(const crash_logger &) = delete;
       crash_logger &operator=(crash_logger &&x) {
         using std::swap;
+        swap(filename_, x.filename_);
         swap(guards, x.guards);
         swap(names, x.names);
         return *this;
@@ -71,10 +72,10 @@ namespace triqs {
       ///
       template <typename Obj> crash_logger &operator()(Obj const &obj, std::string name) {
         names.push_back(name);
-        guards.emplace_back([&obj, this, name]() {
+        guards.emplace_back([&obj, filename = filename_, name]() { // no reference to *this, which can be moved
           using h5::h5_write; // to have the proper overload for scalar type !!
           try {
-            h5_write(h5::group(h5::file(this->filename_.c_str(), 'a')), name, obj);
+            h5_write(h5::group(h5::file(filename, 'a')), name, obj);
           } catch (...) {
             std::cerr << "An exception has occurred in crash_logger for an object of type " << typeid_name(obj) << " named " << name << std::endl;
           }
-- 
2.43.0


From 9d1f1a563de7ef431976a8417d54da395075b0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:49 +0000
Subject: [PATCH 60/85] fix: crash_logger does not terminate the program if it
 cannot create its file

---
 c++/triqs/utility/crash_logger.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/utility/crash_logger.hpp b/c++/triqs/utility/crash_logger.hpp
index 38bc498..ec54324 100644
--- a/c++/triqs/utility/crash_logger.hpp
+++ b/c++/triqs/utility/crash_logger.hpp
@@ -88,7 +88,9 @@ namespace triqs {
           std::cerr << "crash_logger : I am destroyed without being dismissed. Dumping the objects : ";
           for (auto &x : names) std::cerr << "\"" << x << "\" ";
           std::cerr << std::endl;
-          h5::file(this->filename_.c_str(), 'w'); // create the file
+          try {
+            h5::file(filename_, 'w'); // create the file
+          } catch (...) { std::cerr << "crash_logger : cannot create the file " << filename_ << std::endl; }
         }
       }
       ///
-- 
2.43.0


From 6605f3915fa3a04c5bc0b921594bc909c59a3b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:49 +0000
Subject: [PATCH 61/85] fix: time_segment::make_time_pt(beta) is beta, not the
 conversion of 2^64 to an integer of 64 bits

---
 c++/triqs/utility/time_pt.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/utility/time_pt.hpp b/c++/triqs/utility/time_pt.hpp
index 17f9463..d862954 100644
--- a/c++/triqs/utility/time_pt.hpp
+++ b/c++/triqs/utility/time_pt.hpp
@@ -165,7 +165,9 @@ namespace triqs {
       /// ??
       time_pt make_time_pt(double x) const {
         EXPECTS(0 <= x && x <= beta);
-        uint64_t n = static_cast<double>(time_pt::Nmax) * std::min(1.0, (x / beta));
+        double r = x / beta;
+        if (not(r < 1.0)) return get_upper_pt(); // Nmax is not a double: 2^64 cannot be converted back
+        uint64_t n = static_cast<double>(time_pt::Nmax) * r;
         return time_pt(n, beta);
       }
     };
-- 
2.43.0


From da575c7260b353feffaed9aca3b6264b19d30c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:52 +0000
Subject: [PATCH 62/85] fix: dos and dos_patch refuse a spectrum without width
 instead of writing out of bounds

---
 c++/triqs/lattice/tight_binding.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/triqs/lattice/tight_binding.cpp b/c++/triqs/lattice/tight_binding.cpp
index ab8f663..10290f5 100644
--- a/c++/triqs/lattice/tight_binding.cpp
+++ b/c++/triqs/lattice/tight_binding.cpp
@@ -85,6 +85,7 @@ namespace triqs {
       double epsmax = max_element(eval);
       double epsmin = min_element(eval);
       double deps   = (epsmax - epsmin) / neps;
+      if (not(deps > 0)) TRIQS_RUNTIME_ERROR << "dos : the spectrum has no width, all eigenvalues are " << epsmin;
       // for (int i =0; i< neps; ++i) epsilon(i)= epsmin+i/(neps-1.0)*(epsmax-epsmin);
       for (int i = 0; i < neps; ++i) epsilon(i) = epsmin + (i + 0.5) * deps;
 
@@ -178,6 +179,7 @@ namespace triqs {
       // define the epsilon mesh, etc.
       array<double, 1> epsilon(neps);
       double deps = (epsmax - epsmin) / neps;
+      if (not(deps > 0)) TRIQS_RUNTIME_ERROR << "dos_patch : the spectrum has no width, all energies are " << epsmin;
       for (int i = 0; i < neps; ++i) epsilon(i) = epsmin + i / (neps - 1.0) * (epsmax - epsmin);
 
       // bin the eigenvalues according to their energy
-- 
2.43.0


From a4ee0a10162d372cfeba4115cd873375faa117da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:59 +0000
Subject: [PATCH 63/85] fix: tight_binding checks the shapes of all hoppings
 before it compares them

---
 c++/triqs/lattice/tight_binding.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/c++/triqs/lattice/tight_binding.cpp b/c++/triqs/lattice/tight_binding.cpp
index 10290f5..2316507 100644
--- a/c++/triqs/lattice/tight_binding.cpp
+++ b/c++/triqs/lattice/tight_binding.cpp
@@ -38,7 +38,8 @@ namespace triqs {
           TRIQS_RUNTIME_ERROR << "the first dim matrix is of size " << first_dim(overlap_mat_vec_[i]) << " instead of " << n_orbitals();
         if (second_dim(overlap_mat_vec_[i]) != n_orbitals())
           TRIQS_RUNTIME_ERROR << "the second dim matrix is of size " << second_dim(overlap_mat_vec_[i]) << " instead of " << n_orbitals();
-
+      }
+      for (int i = 0; i < displ_vec_.size(); ++i) {
         // check hermiticity of hoppings: Hij(+R)= Hji(-R)* by looping of all displacements again
         bool found = false;
         for (int j = 0; j < displ_vec_.size(); ++j) {
-- 
2.43.0


From e2444e158e8317662ecb632693d03a6762da5b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:23 +0000
Subject: [PATCH 64/85] fix: a one-dimensional bravais_lattice refuses a unit
 vector of length zero

---
 c++/triqs/lattice/bravais_lattice.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/triqs/lattice/bravais_lattice.cpp b/c++/triqs/lattice/bravais_lattice.cpp
index 29510be..942e514 100644
--- a/c++/triqs/lattice/bravais_lattice.cpp
+++ b/c++/triqs/lattice/bravais_lattice.cpp
@@ -47,6 +47,7 @@ namespace triqs {
       switch (ndim_) {
         case 1:
           ux    = units_(0, range::all);
+          if (sqrt(dot(ux, ux)) < almost_zero) TRIQS_RUNTIME_ERROR << "Bravais Lattice : the unit vector is zero : " << units__;
           uz()  = 0;
           uz(1) = 1;
           uz    = uz - dot(uz, ux) * ux;
-- 
2.43.0


From 2881f2a027d8d9f8f92d2c0db97c698d9ed158d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:46 +0000
Subject: [PATCH 65/85] fix: the dumps of h_int_slater and h_int_kanamori
 describe the Hamiltonian that is returned

---
 python/triqs/operators/util/hamiltonians.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/triqs/operators/util/hamiltonians.py b/python/triqs/operators/util/hamiltonians.py
index d273a39..3745fd0 100644
--- a/python/triqs/operators/util/hamiltonians.py
+++ b/python/triqs/operators/util/hamiltonians.py
@@ -91,9 +91,9 @@ def h_int_slater(spin_names,n_orb,U_matrix,off_diag=None,map_operator_structure=
             if H_dump and not H_term.is_zero():
                 H_dump_file.write('%s'%(mkind(s1,a1),) + '\t')
                 H_dump_file.write('%s'%(mkind(s2,a2),) + '\t')
-                H_dump_file.write('%s'%(mkind(s2,a3),) + '\t')
-                H_dump_file.write('%s'%(mkind(s1,a4),) + '\t')
-                H_dump_file.write(str(U_val.real) + '\n')
+                H_dump_file.write('%s'%(mkind(s1,a3),) + '\t')
+                H_dump_file.write('%s'%(mkind(s2,a4),) + '\t')
+                H_dump_file.write(str(U_val if complex else U_val.real) + '\n')
 
     return H
 
@@ -194,7 +194,7 @@ def h_int_kanamori(spin_names,n_orb,U,Uprime,J_hund,off_diag=None,map_operator_s
             if H_dump and not H_term.is_zero():
                 H_dump_file.write('%s'%(mkind(s1,a1),) + '\t')
                 H_dump_file.write('%s'%(mkind(s2,a2),) + '\t')
-                H_dump_file.write(str(-J_hund) + '\n')
+                H_dump_file.write(str(J_hund) + '\n')
 
     return H
 
-- 
2.43.0


From 8aa9b3648c7aa4c3c28812b832af359f8c27b7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:46 +0000
Subject: [PATCH 66/85] fix: h_int_slater, h_int_kanamori and h_int_density
 close the file H_dump

---
 python/triqs/operators/util/hamiltonians.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/triqs/operators/util/hamiltonians.py b/python/triqs/operators/util/hamiltonians.py
index 3745fd0..70baf6c 100644
--- a/python/triqs/operators/util/hamiltonians.py
+++ b/python/triqs/operators/util/hamiltonians.py
@@ -95,6 +95,8 @@ def h_int_slater(spin_names,n_orb,U_matrix,off_diag=None,map_operator_structure=
                 H_dump_file.write('%s'%(mkind(s2,a4),) + '\t')
                 H_dump_file.write(str(U_val if complex else U_val.real) + '\n')
 
+    if H_dump: H_dump_file.close() # reports what could not be written
+
     return H
 
 def h_int_kanamori(spin_names,n_orb,U,Uprime,J_hund,off_diag=None,map_operator_structure=None,H_dump=None,orb_names=None):
@@ -196,6 +198,8 @@ def h_int_kanamori(spin_names,n_orb,U,Uprime,J_hund,off_diag=None,map_operator_s
                 H_dump_file.write('%s'%(mkind(s2,a2),) + '\t')
                 H_dump_file.write(str(J_hund) + '\n')
 
+    if H_dump: H_dump_file.close() # reports what could not be written
+
     return H
 
 def h_int_density(spin_names,n_orb,U,Uprime,off_diag=None,map_operator_structure=None,H_dump=None,orb_names=None):
@@ -257,6 +261,8 @@ def h_int_density(spin_names,n_orb,U,Uprime,off_diag=None,map_operator_structure
                 H_dump_file.write('%s'%(mkind(s2,a2),) + '\t')
                 H_dump_file.write(str(U_val) + '\n')
 
+    if H_dump: H_dump_file.close() # reports what could not be written
+
     return H
 
 def diagonal_part(H):
-- 
2.43.0


From c932dc03840fe5b66eeacdf440afe8aa7a0b89d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:46 +0000
Subject: [PATCH 67/85] fix: spherical_to_cubic is the identity for s orbitals

---
 python/triqs/operators/util/U_matrix.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/triqs/operators/util/U_matrix.py b/python/triqs/operators/util/U_matrix.py
index 1c2f617..e3e2013 100644
--- a/python/triqs/operators/util/U_matrix.py
+++ b/python/triqs/operators/util/U_matrix.py
@@ -358,6 +358,7 @@ def spherical_to_cubic(l, convention='triqs'):
         raise ValueError("spherical_to_cubic: [wien2k, wannier90, qe] convention implemented only for l=0,1,2")
     if l == 0:
         cubic_names = ("s")
+        T[0,0] = 1.0
     elif l == 1:
         if convention == 'wannier90' or convention == 'qe':
             cubic_names = ("z","x","y")
-- 
2.43.0


From 927583de346269c100e3be0d51f2e7c2f4d99404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:46 +0000
Subject: [PATCH 68/85] fix: the sign of clebsch_gordan

---
 python/triqs/operators/util/U_matrix.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/operators/util/U_matrix.py b/python/triqs/operators/util/U_matrix.py
index e3e2013..d9958d4 100644
--- a/python/triqs/operators/util/U_matrix.py
+++ b/python/triqs/operators/util/U_matrix.py
@@ -625,7 +625,7 @@ def clebsch_gordan(jm1, jm2, jm3):
               Clebsh-Gordan coefficient.
 
     """
-    norm = sqrt(2*jm3[0]+1)*(-1 if jm1[0]-jm2[0]+jm3[1] % 2 else 1)
+    norm = sqrt(2*jm3[0]+1)*(-1 if (jm1[0]-jm2[0]+jm3[1]) % 2 else 1)
     return norm*three_j_symbol(jm1,jm2,(jm3[0],-jm3[1]))
 
 def subarray(a,idxlist,n=None) :
-- 
2.43.0


From 301e9c73904a4d26f49f4caa6841d3470ca6e0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:46 +0000
Subject: [PATCH 69/85] fix: TBSuperLattice can remove internal hoppings

---
 python/triqs/lattice/super_lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index 1b36e90..4bfbb94 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -134,7 +134,7 @@ class TBSuperLattice(TBLattice):
             for disp, t in list(D1.items()):
                 R, alpha = self.change_coordinates_L_to_SL(numpy.array(CS)+numpy.array(disp))
                 if R not in Res: Res[R] = create_zero() if create_zero else numpy.zeros((self.Norb, self.Norb), dtype = type(t[0,0]))
-                if not(remove_internal) or R!= self.tb_lattice.ndim*(0, ):
+                if not(remove_internal) or R!= self.__BaseLattice.ndim*(0, ):
                     for orb1 in range(norb):
                         for orb2 in range(norb):
                             Res[R][pack(nsite, orb1), pack(alpha, orb2)] += t[orb1, orb2]
-- 
2.43.0


From bec8678d8b9d10328bfba17fad6cbd8e63688e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:46 +0000
Subject: [PATCH 70/85] fix: TBSuperLattice.change_coordinates_SL_to_L

---
 python/triqs/lattice/super_lattice.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index 4bfbb94..51baed5 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -142,7 +142,7 @@ class TBSuperLattice(TBLattice):
 
     def change_coordinates_SL_to_L(self, R , alpha):
         """Given a point in the supercell R, site (number) alpha, it computes its position on the tb_lattice in lattice coordinates"""
-        return numpy.dot (self._M, numpy.array(R)) + self.__cluster_sites[alpha,:]
+        return numpy.dot (self._M, numpy.array(R)) + numpy.array(self.__cluster_sites[alpha])
 
     def change_coordinates_L_to_SL(self, x):
         """Given a point on the tb_lattice in lattice coordinates, returns its coordinates (R, alpha) in the Superlattice"""
-- 
2.43.0


From b78bb4a85584165efa60b76d593f8c48cd7c3d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:46 +0000
Subject: [PATCH 71/85] fix: TBSuperLattice takes the cluster sites as arrays
 or tuples

---
 python/triqs/lattice/super_lattice.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index 51baed5..db79216 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -67,8 +67,8 @@ class TBSuperLattice(TBLattice):
         self.Norb = tb_lattice.n_orbitals * Ncluster_sites
 
         # cluster_sites computation
-        if cluster_sites!=None:
-            self.__cluster_sites = list(cluster_sites)[:]
+        if cluster_sites is not None:
+            self.__cluster_sites = [list(x) for x in cluster_sites] # change_coordinates_L_to_SL looks for lists
         else: # Computes the position of the cluster automatically
             self.__cluster_sites = []
             #We tile the super-cell with the tb_lattice points and retains
-- 
2.43.0


From 0c808ed33970985d1d07ee7f25aba462d7176e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:46 +0000
Subject: [PATCH 72/85] fix: TBSuperLattice finds the sites of cells whose
 vectors have negative components

---
 python/triqs/lattice/super_lattice.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index db79216..076ba80 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -73,9 +73,8 @@ class TBSuperLattice(TBLattice):
             self.__cluster_sites = []
             #We tile the super-cell with the tb_lattice points and retains
             # the points inside it and store it.
-            if ndim==1:  a=(max(self._M[0,:]), 0, 0 )
-            elif ndim==2:  a=(2*max(self._M[0,:]), 2*max(self._M[1,:]), 0 )
-            elif ndim==3: a= (3*max(self._M[0,:]), 3*max(self._M[1,:]), 3*max(self._M[2,:]))
+            # The coordinates of a point of the super-cell are bounded by the sums of those of its vectors, of either sign
+            if 1 <= ndim <= 3: a = [int(x) for x in abs(self._M).sum(axis=1)] + (3-ndim)*[0]
             else: raise ValueError("ndim is not between 1 and 3 !!")
             r = lambda i:  list(range(-a[i] , a[i]+1))
             for nx in r(0):
-- 
2.43.0


From 9ea4869dc43644da62c12798ffdf458b0fbee589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:46 +0000
Subject: [PATCH 73/85] fix: a TBSuperLattice can be pickled

---
 python/triqs/lattice/super_lattice.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/python/triqs/lattice/super_lattice.py b/python/triqs/lattice/super_lattice.py
index 076ba80..76061e8 100644
--- a/python/triqs/lattice/super_lattice.py
+++ b/python/triqs/lattice/super_lattice.py
@@ -115,10 +115,8 @@ class TBSuperLattice(TBLattice):
         assert self.Norb == self.n_orbitals
 
 
-    __HDF_reduction__ = ['__BaseLattice', '__super_lattice_units', '__cluster_sites', '__remove_internal_hoppings']
-
     def __reduce__ (self):
-        return tuple([getattr(self, x) for x in self.__HDF_reduction__])
+        return TBSuperLattice, (self.__BaseLattice, self.__super_lattice_units, self.__cluster_sites, self.__remove_internal_hoppings)
 
     def fold(self, D1, remove_internal=False, create_zero = None):
         """ Input: a function  r-> f(r) on the tb_lattice given as a dictionnary
-- 
2.43.0


From 54412a067a8cb1691c87445740939f18b4623c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:46 +0000
Subject: [PATCH 74/85] fix: hoppings from wannier90 are not transposed

---
 python/triqs/lattice/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/triqs/lattice/utils.py b/python/triqs/lattice/utils.py
index e040ef7..88d693b 100644
--- a/python/triqs/lattice/utils.py
+++ b/python/triqs/lattice/utils.py
@@ -113,6 +113,7 @@ def parse_hopping_from_wannier90_hr_dat(filename):
     dat = dat.reshape(nrpts, num_wann, num_wann, 7)
     R = dat[:, 0, 0, 0:3].astype(int)
     hopp = dat[..., 5] + 1.j * dat[..., 6]
+    hopp = hopp.swapaxes(1, 2).copy()  # the first orbital index runs fastest in the file
 
     # Account for degeneracy of the Wigner-Seitz points
     hopp /= deg[:, None, None]
-- 
2.43.0


From a7e650aa02cc725b55d0ec881754219ef70e730e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:43 +0000
Subject: [PATCH 75/85] fix: in-place products of Green's functions with square
 matrices, and none with matrices that do not fit

---
 python/triqs/gf/gf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index b7c1a99..d7919df 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -483,8 +483,8 @@ class Gf(metaclass=AddMethod):
 
             if self.target_rank == 2:
                 if arg.target_rank == 2:
-                    assert arg.target_shape[0] != arg.target_shape[1], "In place multiplication not supported if"
-                    "the argument is a nonsquare matrix. Use regular multiplication instead."
+                    assert arg.target_shape[0] == arg.target_shape[1], ("In place multiplication not supported if "
+                        "the argument is a nonsquare matrix. Use regular multiplication instead.")
                     np.matmul(self.data, arg.data, out=self.data)
                 elif arg.target_rank == 0:
                     self.data[:] *= arg.data[..., None, None]
@@ -503,6 +503,7 @@ class Gf(metaclass=AddMethod):
         elif isinstance(arg, np.ndarray):
             assert len(arg.shape) == 2, "Multiplication only supported for matrices"
             assert len(self.target_shape) == 2, "Multiplication only supported for matrix_valued Gfs"
+            assert arg.shape[0] == arg.shape[1], "Multiplication only supported for square matrices"
             self.data[:] = np.tensordot(self.data, arg, axes=([-1], [-2]))
         else:
             assert False, "Invalid operand type for Gf in-place multiplication"
@@ -555,6 +556,7 @@ class Gf(metaclass=AddMethod):
         if isinstance(y, np.ndarray):
             assert len(y.shape) == 2, "Multiplication only supported for matrices"
             assert len(self.target_shape) == 2, "Multiplication only supported for matrix_valued Gfs"
+            assert y.shape[0] == y.shape[1], "Multiplication only supported for square matrices"
             c.data[:] = np.moveaxis(np.tensordot(y, self.data, axes=([-1], [-2])), 0, -2)
         elif isinstance(y, numbers.Number):
             c *= y
-- 
2.43.0


From 98b2fda3bb6529fd3bf695c201220ce7e838778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:43 +0000
Subject: [PATCH 76/85] fix: Gf.copy_from leaves a Gf of another shape, and the
 meshes of other Gf, as they are

---
 python/triqs/gf/gf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/triqs/gf/gf.py b/python/triqs/gf/gf.py
index d7919df..23fbc07 100644
--- a/python/triqs/gf/gf.py
+++ b/python/triqs/gf/gf.py
@@ -261,8 +261,9 @@ class Gf(metaclass=AddMethod):
 
     def copy_from(self, another):
         """Copy the data of another Greens function into self."""
-        self._mesh.copy_from(another.mesh)
+        assert type(self._mesh) == type(another.mesh), "Can not copy from a Gf with a mesh of different type"
         assert self._data.shape == another._data.shape, "Shapes are incompatible: " + str(self._data.shape) + " vs " + str(another._data.shape)
+        self._mesh = another.mesh.copy() # not in place : other Gf can share the mesh
         self._data[:] = another._data[:]
         self.__check_invariants()
 
-- 
2.43.0


From 05038f570db4b1e7dc82ba2b3524ebb350a16a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:43 +0000
Subject: [PATCH 77/85] fix: SemiCircular in real frequencies is zero off the
 diagonal

---
 python/triqs/gf/descriptors.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/triqs/gf/descriptors.py b/python/triqs/gf/descriptors.py
index 61d5fc0..724ecfa 100644
--- a/python/triqs/gf/descriptors.py
+++ b/python/triqs/gf/descriptors.py
@@ -81,7 +81,7 @@ semicircle
 """
         Base.__init__(self, half_bandwidth=half_bandwidth, chem_potential=chem_potential)
 
-    def __str__(self): return "SemiCircular(%s, %s)"%self.half_bandwidth, chem_potential 
+    def __str__(self): return "SemiCircular(%s, %s)"%(self.half_bandwidth, self.chem_potential)
 
     def __call__(self,G):
         D = self.half_bandwidth
@@ -96,9 +96,9 @@ semicircle
             def f(om_):
               om = om_.real + mu
               if (om > -D) and (om < D):
-                return (2.0/D**2) * (om - 1j* sqrt(D**2 - om**2))
+                return (2.0/D**2) * (om - 1j* sqrt(D**2 - om**2)) * Id
               else:
-                return (2.0/D**2) * (om - copysign(1,om) * sqrt(om**2 - D**2))
+                return (2.0/D**2) * (om - copysign(1,om) * sqrt(om**2 - D**2)) * Id
         else:
             raise TypeError("This initializer is only correct in frequency")
 
-- 
2.43.0


From 7e87b0e0cf44c3c43fc3d07b012e670e11b1323b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:43 +0000
Subject: [PATCH 78/85] fix: lazy expressions are added to and subtracted from
 all blocks

---
 python/triqs/gf/block_gf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index ba6c8bb..9a0345c 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -310,7 +310,7 @@ class BlockGf:
             assert len(arg) == len(self.__GFlist), "list of incorrect length"
             for l,g in zip(arg,self.__GFlist): g +=l
         else:
-            for i,g in self: g += arg
+            for i,g in self: self[i] += arg
         return self
 
     def __add__(self,y):
@@ -327,7 +327,7 @@ class BlockGf:
             assert len(arg) == len(self.__GFlist) , "list of incorrect length"
             for l,g in zip(arg,self.__GFlist): g -=l
         else:
-            for i,g in self: g -= arg
+            for i,g in self: self[i] -= arg
         return self
 
     def __sub__(self,y):
-- 
2.43.0


From 6dbb59aea40e92555a28337ee22b32c0d479bd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:43 +0000
Subject: [PATCH 79/85] fix: a matrix times a block Green's function

---
 python/triqs/gf/block2_gf.py | 3 ++-
 python/triqs/gf/block_gf.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 244374f..58ceeb5 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -301,7 +301,8 @@ class Block2Gf:
             c *= y
         return c
 
-    def __rmul__(self,x): return self.__mul__(x)
+    def __rmul__(self,x):
+        return self.__class__(self.__indices1[:], self.__indices2[:], [[x * g for g in g_row] for g_row in self.__GFlist], make_copies=False)
 
     def __itruediv__(self,arg):
         if isinstance(arg, Sequence):
diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index 9a0345c..5f03c33 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -360,7 +360,8 @@ class BlockGf:
             c *= y
         return c
 
-    def __rmul__(self,x): return self.__mul__(x)
+    def __rmul__(self,x):
+        return self.__class__(name_list = self.__indices[:], block_list = [x * g for g in self.__GFlist], make_copies=False)
 
     def __itruediv__(self,arg):
         if isinstance(arg, Sequence):
-- 
2.43.0


From 25e5aca51632e304181f6dd9548c733d01f20706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:43 +0000
Subject: [PATCH 80/85] fix: BlockGf.copy_from with blocks of any rank, and
 only with the same structure

---
 python/triqs/gf/block_gf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index 5f03c33..c3ede72 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -151,9 +151,10 @@ class BlockGf:
     def copy_from(self, G2):
         """Copy the Green's function from G2: G2 MUST have the same structure!"""
         assert isinstance(G2, BlockGf)
+        if len(self) != len(G2): raise RuntimeError("The Green Functions do not have the same number of blocks")
         for (i,g),(i2,g2) in zip(self,G2): 
-           if  (g.target_shape[0],g.target_shape[1]) != (g2.target_shape[0],g2.target_shape[1]): 
-               raise RuntimeError("Blocks %s and %s of the Green Function do have the same dimension"%(i1,i2)) 
+           if g.target_shape != g2.target_shape:
+               raise RuntimeError("Blocks %s and %s of the Green Function do not have the same dimension"%(i,i2))
         for (i,g),(i2,g2) in zip(self,G2): g.copy_from(g2)
 
      #--------------  Iterators -------------------------
-- 
2.43.0


From 70c2c39c92f5a4aef2d71c6c5b6f089327ac41ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:43 +0000
Subject: [PATCH 81/85] fix: Block2Gf << initializer

---
 python/triqs/gf/block2_gf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/block2_gf.py b/python/triqs/gf/block2_gf.py
index 58ceeb5..3ada754 100644
--- a/python/triqs/gf/block2_gf.py
+++ b/python/triqs/gf/block2_gf.py
@@ -238,7 +238,7 @@ class Block2Gf:
         if isinstance(A, self.__class__):
            for bn, g in self: g << A[bn]
         else:
-           for bn, g in self:  self[bn] << A[bn]
+           for bn, g in self: g << A
         return self
 
     def __iadd__(self,arg):
-- 
2.43.0


From b960b1701b4c4d1903fe1c4b01758c5e59a7703d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:43 +0000
Subject: [PATCH 82/85] fix: make_delta takes the bath energies as a list

---
 python/triqs/gf/tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/triqs/gf/tools.py b/python/triqs/gf/tools.py
index 2bef238..e708157 100644
--- a/python/triqs/gf/tools.py
+++ b/python/triqs/gf/tools.py
@@ -310,6 +310,7 @@ def make_delta(V, eps, mesh, block_names=None):
         delta_list = [make_delta(v, e, mesh) for v, e in zip(V, eps)]
         return BlockGf(name_list=block_names, block_list=delta_list)
 
+    eps = np.asarray(eps)
     assert V.shape[1] == len(eps), 'number of bath sides in V and eps does not match'
 
     delta_res = Gf(mesh=mesh, target_shape=[V.shape[0], V.shape[0]])
-- 
2.43.0


From ee3046bd13799a8237c904ba4d409b3b101f87d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:43 +0000
Subject: [PATCH 83/85] fix: LazyExpr.copy

---
 python/triqs/gf/lazy_expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/lazy_expressions.py b/python/triqs/gf/lazy_expressions.py
index bb81536..540b4a3 100644
--- a/python/triqs/gf/lazy_expressions.py
+++ b/python/triqs/gf/lazy_expressions.py
@@ -59,7 +59,7 @@ class LazyExpr (__aux):
 
     def copy(self):
         """ Deep copy"""
-        return LazyExpr(self.tag, self.childs)
+        return LazyExpr(self.tag, *self.childs)
 
     def set_from(self, y):
         """ self:= y """
-- 
2.43.0


From 39fa21d2964d26afc9fbde90f6ba6aeac8ce5f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:12 +0000
Subject: [PATCH 84/85] fix: BlockGf.all_indices gives integers

---
 python/triqs/gf/block_gf.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/python/triqs/gf/block_gf.py b/python/triqs/gf/block_gf.py
index c3ede72..ce14e48 100644
--- a/python/triqs/gf/block_gf.py
+++ b/python/triqs/gf/block_gf.py
@@ -194,10 +194,8 @@ class BlockGf:
     def all_indices(self):
        """  An Iterator on BlockGf indices and indices of the blocs of the form: block_index,n1,n2, where n1,n2 are indices of the block"""
        for sig,g in self:
-          val = g.indices
-          for x in val:
-              for y in val:
-                  yield  (sig,x,y)
+          for val in g.target_indices:
+              yield (sig,) + val
 
     @property
     def n_blocks(self):
-- 
2.43.0


From fbccd156cfa6388b6f0556ea831c2d45db88c983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:12 +0000
Subject: [PATCH 85/85] fix: expressions with functions can be printed

---
 python/triqs/gf/lazy_expressions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/triqs/gf/lazy_expressions.py b/python/triqs/gf/lazy_expressions.py
index 540b4a3..265681c 100644
--- a/python/triqs/gf/lazy_expressions.py
+++ b/python/triqs/gf/lazy_expressions.py
@@ -75,7 +75,7 @@ class LazyExpr (__aux):
         return self.childs[0] if self.tag == "T" else None
 
     def __aux_print(self, F):
-        op_priority = {'T': 100, "+": 1 , '-': 1, '*': 2, '/': 2}
+        op_priority = {'T': 100, 'F': 100, "+": 1 , '-': 1, '*': 2, '/': 2}
         if self.tag == "T":  return F(self.childs[0])
         if self.tag == "F":
             return reduce (lambda s, e: s+ F(e), self.childs[1:], self.childs[0].get_terminal()[0] + "(" ) + ')'
-- 
2.43.0

