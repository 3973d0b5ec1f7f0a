From 2ac7aaf82abec3a39bd0dd88071102bee037e270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:05 +0000
Subject: [PATCH 01/30] fix: reject zero and positive discriminants before any
 class-group work

---
 src/python_bindings/fastvdf.cpp | 2 ++
 src/verifier.h                  | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/python_bindings/fastvdf.cpp b/src/python_bindings/fastvdf.cpp
index 9af6750..cbe8f5f 100644
--- a/src/python_bindings/fastvdf.cpp
+++ b/src/python_bindings/fastvdf.cpp
@@ -55,6 +55,8 @@ PYBIND11_MODULE(_chiavdf, m) {
         bool is_valid = false;
         {
             py::gil_scoped_release release;
+            if (!IsDiscriminantInRange(D))
+                return false;
             form x = DeserializeForm(D, (const uint8_t *)x_s_copy.data(), x_s_copy.size());
             form y = DeserializeForm(D, (const uint8_t *)y_s_copy.data(), y_s_copy.size());
             form proof = DeserializeForm(D, (const uint8_t *)proof_s_copy.data(), proof_s_copy.size());
diff --git a/src/verifier.h b/src/verifier.h
index 97690c9..ac50d13 100644
--- a/src/verifier.h
+++ b/src/verifier.h
@@ -19,7 +19,7 @@ inline bool IsDiscSizeBitsInRange(const uint64_t disc_size_bits)
 inline bool IsDiscriminantInRange(const integer& D)
 {
     const int d_bits = D.num_bits();
-    return d_bits > 0 && static_cast<uint64_t>(d_bits) <= static_cast<uint64_t>(BQFC_MAX_D_BITS);
+    return mpz_sgn(D.impl) < 0 && d_bits > 0 && static_cast<uint64_t>(d_bits) <= static_cast<uint64_t>(BQFC_MAX_D_BITS);
 }
 
 int VerifyWesoSegment(integer &D, form x, form proof, integer &B, uint64_t iters, form &out_y)
-- 
2.43.0


From 898dba1606803703920fb715dd18b73f57129601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:05 +0000
Subject: [PATCH 02/30] fix: check the length of the input element in the
 Python verification bindings

---
 src/python_bindings/fastvdf.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/python_bindings/fastvdf.cpp b/src/python_bindings/fastvdf.cpp
index cbe8f5f..20d9a96 100644
--- a/src/python_bindings/fastvdf.cpp
+++ b/src/python_bindings/fastvdf.cpp
@@ -72,6 +72,9 @@ PYBIND11_MODULE(_chiavdf, m) {
                                    const uint64_t num_iterations, const uint64_t disc_size_bits, const uint64_t recursion) {
         std::string discriminant_copy(discriminant);
         std::string x_s_copy(x_s);
+        if (x_s_copy.size() != BQFC_FORM_SIZE) {
+            throw std::runtime_error("expected 100-byte form");
+        }
         std::string proof_blob_copy(proof_blob);
         uint8_t *proof_blob_ptr = reinterpret_cast<uint8_t *>(proof_blob_copy.data());
         bool is_valid = false;
@@ -92,6 +95,9 @@ PYBIND11_MODULE(_chiavdf, m) {
         std::string challenge_hash_str(challenge_hash);
         std::vector<uint8_t> challenge_hash_bits = std::vector<uint8_t>(challenge_hash_str.begin(), challenge_hash_str.end());
         std::string x_s_copy(x_s);
+        if (x_s_copy.size() != BQFC_FORM_SIZE) {
+            throw std::runtime_error("expected 100-byte form");
+        }
         std::string proof_blob_copy(proof_blob);
         bool is_valid = false;
         {
@@ -129,6 +135,9 @@ PYBIND11_MODULE(_chiavdf, m) {
         std::string discriminant_copy(discriminant);
         std::string B_copy(B);
         std::string x_s_copy(x_s);
+        if (x_s_copy.size() != BQFC_FORM_SIZE) {
+            throw std::runtime_error("expected 100-byte form");
+        }
         std::string proof_blob_copy(proof_blob);
         std::pair<bool, std::vector<uint8_t>> result;
         {
@@ -160,6 +169,9 @@ PYBIND11_MODULE(_chiavdf, m) {
                                    const uint64_t num_iterations, const uint64_t recursion) {
         std::string discriminant_copy(discriminant);
         std::string x_s_copy(x_s);
+        if (x_s_copy.size() != BQFC_FORM_SIZE) {
+            throw std::runtime_error("expected 100-byte form");
+        }
         std::string proof_blob_copy(proof_blob);
         integer B;
         {
-- 
2.43.0


From 141bef6fe32b9caf677ecd9fe4af16c85413b1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:20 +0000
Subject: [PATCH 03/30] fix: do not wait for ever in ProveOneWesolowski when
 stopped during the proof

---
 src/vdf.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vdf.h b/src/vdf.h
index 3cfe197..9f00351 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -329,9 +329,11 @@ Proof ProveOneWesolowski(uint64_t iters, integer& D, form f, OneWesolowskiCallba
     );
     OneWesolowskiProver prover(sg, D, weso->forms.get(), stopped);
     prover.start();
-    while (!prover.IsFinished()) {
+    while (!stopped && !prover.IsFinished()) {
         this_thread::sleep_for(1s);
     }
+    if (!prover.IsFinished())
+        return Proof();
     int d_bits = D.num_bits();
     std::vector<unsigned char> y_serialized;
     std::vector<unsigned char> proof_serialized;
-- 
2.43.0


From 902161ee996fd257f80c1c929be7ebdaa9da344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:20 +0000
Subject: [PATCH 04/30] fix: never assemble a proof from a segment that is not
 finished yet

---
 src/vdf.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vdf.h b/src/vdf.h
index 9f00351..1833c78 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -545,7 +545,8 @@ class ProverManager {
             for (int i = segment_count - 1; i >= 0; i--) {
                 uint64_t segment_size = (1LL << (16 + 2 * i));
                 uint64_t position = proved_iters / segment_size;
-                while (position < done_segments[i].size() && proved_iters + segment_size <= iteration) {
+                while (position < done_segments[i].size() && !done_segments[i][position].is_empty &&
+                       proved_iters + segment_size <= iteration) {
                     proof_segments.emplace_back(done_segments[i][position]);
                     position++;
                     proved_iters += segment_size;
-- 
2.43.0


From e5743abaedef9ab7adaefff278e65f7548e64ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:20 +0000
Subject: [PATCH 05/30] fix: return no proof when stopped while waiting for
 segments

---
 src/vdf.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vdf.h b/src/vdf.h
index 1833c78..ea645dc 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -568,6 +568,8 @@ class ProverManager {
                 valid_proof = true;
             }
         }
+        if (!valid_proof)
+            return Proof();
         if (!last_segment.is_empty) {
             proof_segments.emplace_back(last_segment);
         }
-- 
2.43.0


From 2fe9dc4e8be3e38d7775593e278ec8ba365ac679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:20 +0000
Subject: [PATCH 06/30] fix: no lost wake-up of proving threads in
 ProverManager::stop

---
 src/vdf.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vdf.h b/src/vdf.h
index ea645dc..cab66ed 100644
--- a/src/vdf.h
+++ b/src/vdf.h
@@ -471,7 +471,10 @@ class ProverManager {
         }
         std::cout << "Segment provers finished.\n" << std::flush;
 
+        // A waiter that has just seen 'stopped' unset must be asleep before it is notified.
+        { std::lock_guard<std::mutex> lk(proof_mutex); }
         proof_cv.notify_all();
+        { std::lock_guard<std::mutex> lk(last_segment_mutex); }
         last_segment_cv.notify_all();
     }
 
-- 
2.43.0


From 916819734d0bb2b645ed4ca7904be280d44b0cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:20 +0000
Subject: [PATCH 07/30] fix: make the flags FastStorage threads poll without a
 lock atomic

---
 src/fast_storage.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fast_storage.h b/src/fast_storage.h
index ebedf79..ac3417d 100644
--- a/src/fast_storage.h
+++ b/src/fast_storage.h
@@ -10,6 +10,7 @@
 #define FAST_STORAGE_H
 
 #include "vdf_new.h"
+#include <atomic>
 
 extern bool new_event;
 extern std::mutex new_event_mutex;
@@ -20,7 +21,7 @@ class FastStorage {
     FastStorage(FastAlgorithmCallback* weso) {
         stopped = false;
         this->weso = weso;
-        intermediates_stored = new bool[(1 << 19)];
+        intermediates_stored = new std::atomic<bool>[(1 << 19)];
         for (int i = 0; i < (1 << 19); i++)
             intermediates_stored[i] = 0;
 
@@ -121,8 +122,8 @@ class FastStorage {
   private:
     std::vector<std::thread> storage_threads;
     FastAlgorithmCallback* weso;
-    bool* intermediates_stored;
-    bool stopped;
+    std::atomic<bool>* intermediates_stored;
+    std::atomic<bool> stopped;
     std::map<uint64_t, form> pending_intermediates;
     int intermediates_threads = 6;
     std::mutex intermediates_mutex;
-- 
2.43.0


From fecad8cc7f1942301ce96d9929a0d763a156fee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:20 +0000
Subject: [PATCH 08/30] fix: check the checkpoint and stored-flag indices of
 the n-Wesolowski mode

---
 src/callback.h     |  9 +++++++--
 src/fast_storage.h | 12 ++++++++----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/callback.h b/src/callback.h
index f4764bb..ab45424 100644
--- a/src/callback.h
+++ b/src/callback.h
@@ -11,6 +11,7 @@
 
 // Applies to n-weso.
 const int kWindowSize = 20;
+const uint64_t kMaxCheckpoints = 1 << 18;
 
 // Applies only to 2-weso.
 const int kMaxItersAllowed = 8e8;
@@ -275,7 +276,7 @@ class FastAlgorithmCallback : public WesolowskiCallback {
         }
         forms_capacity = static_cast<size_t>(total_forms);
         forms.reset(new form[forms_capacity]);
-        checkpoints.reset(new form[1 << 18]);
+        checkpoints.reset(new form[kMaxCheckpoints]);
 
         y_ret = f;
         for (int i = 0; i < segments; i++)
@@ -321,7 +322,11 @@ class FastAlgorithmCallback : public WesolowskiCallback {
         }
 
         if (iteration % (1 << 16) == 0) {
-            form* mulf = (&checkpoints[(iteration / (1 << 16))]);
+            const uint64_t pos = iteration / (1 << 16);
+            if (pos >= kMaxCheckpoints) {
+                throw std::runtime_error("FastAlgorithmCallback::OnIteration out of bounds");
+            }
+            form* mulf = &checkpoints[pos];
             SetForm(type, data, mulf);
         }
     }
diff --git a/src/fast_storage.h b/src/fast_storage.h
index ac3417d..82b44b0 100644
--- a/src/fast_storage.h
+++ b/src/fast_storage.h
@@ -21,8 +21,8 @@ class FastStorage {
     FastStorage(FastAlgorithmCallback* weso) {
         stopped = false;
         this->weso = weso;
-        intermediates_stored = new std::atomic<bool>[(1 << 19)];
-        for (int i = 0; i < (1 << 19); i++)
+        intermediates_stored = new std::atomic<bool>[2 * kMaxCheckpoints];
+        for (int i = 0; i < 2 * kMaxCheckpoints; i++)
             intermediates_stored[i] = 0;
 
         for (int i = 0; i < intermediates_threads; i++) {
@@ -44,7 +44,10 @@ class FastStorage {
     }
 
     void AddIntermediates(uint64_t iter) {
-        int bucket = iter / (1 << 16);
+        uint64_t bucket = iter / (1 << 16);
+        if (bucket >= kMaxCheckpoints) {
+            throw std::runtime_error("FastStorage::AddIntermediates out of bounds");
+        }
         int subbucket = 0;
         if (iter % (1 << 16))
             subbucket = 1;
@@ -94,7 +97,8 @@ class FastStorage {
     }
 
     uint64_t GetFinishedSegment() {
-        while (intermediates_stored[2 * (intermediates_iter / (1 << 16))] == true &&
+        while (intermediates_iter / (1 << 16) < kMaxCheckpoints &&
+               intermediates_stored[2 * (intermediates_iter / (1 << 16))] == true &&
                intermediates_stored[2 * (intermediates_iter / (1 << 16)) + 1] == true) {
                     intermediates_iter += (1 << 16);
                 }
-- 
2.43.0


From b0055ecd8d5a8fdb8d22e19f2a86494f025038f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:09 +0000
Subject: [PATCH 09/30] fix: two-Wesolowski session: compare the request with
 the iteration limit, not the process limit

---
 src/vdf_client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vdf_client.cpp b/src/vdf_client.cpp
index 58dc0af..bcd6e48 100644
--- a/src/vdf_client.cpp
+++ b/src/vdf_client.cpp
@@ -294,7 +294,7 @@ void SessionTwoWeso(tcp::socket& sock) {
                     PrintInfo("Duplicate iteration " + to_string(iters) + "... Ignoring.");
                     continue;
                 }
-                if (iters >= kMaxProcessesAllowed - 500000) {
+                if (iters >= static_cast<uint64_t>(kMaxItersAllowed) - 500000) {
                     PrintInfo("Too big iter... ignoring");
                     continue;
                 }
-- 
2.43.0


From 483c292bf9d35f8c2d864e51c3ae79e1b30d3897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:09 +0000
Subject: [PATCH 10/30] fix: two-Wesolowski session: keep the stop flags of
 more than 100 requests inside their table

---
 src/vdf_client.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/vdf_client.cpp b/src/vdf_client.cpp
index bcd6e48..c0356b7 100644
--- a/src/vdf_client.cpp
+++ b/src/vdf_client.cpp
@@ -3,6 +3,7 @@
 #include "version.hpp"
 #include "vdf_client_session.h"
 #include <atomic>
+#include <deque>
 
 using boost::asio::ip::tcp;
 
@@ -252,7 +253,8 @@ void SessionTwoWeso(tcp::socket& sock) {
         boost::asio::write(sock, boost::asio::buffer("OK", 2));
 
         std::atomic<bool> stopped(false);
-        std::atomic<bool> stop_vector[100];
+        // One entry per thread ever started; a deque keeps the entries in place as it grows.
+        std::deque<std::atomic<bool>> stop_vector;
         std::vector<std::thread> threads;
         // (iteration, thread_id)
         std::set<std::pair<uint64_t, uint64_t> > seen_iterations;
@@ -301,9 +303,9 @@ void SessionTwoWeso(tcp::socket& sock) {
                 if (threads.size() < kMaxProcessesAllowed || iters < min_iter) {
                     seen_iterations.insert({iters, threads.size()});
                     PrintInfo("Running proving for iter: " + to_string(iters));
-                    stop_vector[threads.size()] = false;
+                    stop_vector.emplace_back(false);
                     threads.push_back(std::thread(CreateAndWriteProofTwoWeso, std::ref(D), f, iters,
-                                      (TwoWesolowskiCallback*)weso, std::ref(stop_vector[threads.size()]),
+                                      (TwoWesolowskiCallback*)weso, std::ref(stop_vector.back()),
                                       std::ref(sock)));
                     if (threads.size() > kMaxProcessesAllowed) {
                         PrintInfo("Stopping proving for iter: " + to_string(max_iter));
-- 
2.43.0


From b76e1db83e1a571f5240e5875a6faccd98ef8c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:09 +0000
Subject: [PATCH 11/30] fix: do not use the prover type when reading it failed

---
 src/vdf_client.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/vdf_client.cpp b/src/vdf_client.cpp
index c0356b7..60dee9c 100644
--- a/src/vdf_client.cpp
+++ b/src/vdf_client.cpp
@@ -352,6 +352,9 @@ int main(int argc, char* argv[]) try {
     boost::system::error_code error;
     char prover_type_buf[5];
     boost::asio::read(s, boost::asio::buffer(prover_type_buf, 1), error);
+    if (error) {
+        throw boost::system::system_error(error);
+    }
     // Check for "S" (simple weso), "N" (n-weso), or "T" (2-weso)
     if (prover_type_buf[0] == 'S') {
         SessionOneWeso(s);
-- 
2.43.0


From 244a8f7cccaf5926432afa8500488205d72e182e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:09 +0000
Subject: [PATCH 12/30] fix: check sign and size of the discriminant the peer
 sends before using it

---
 src/vdf_client.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/vdf_client.cpp b/src/vdf_client.cpp
index 60dee9c..6ce9075 100644
--- a/src/vdf_client.cpp
+++ b/src/vdf_client.cpp
@@ -154,11 +154,18 @@ uint64_t ReadIteration(tcp::socket& sock) {
     return iters;
 }
 
+void CheckDiscriminant(const integer& D) {
+    if (mpz_sgn(D.impl) >= 0 || D.num_bits() > BQFC_MAX_D_BITS) {
+        throw std::runtime_error("Invalid discriminant");
+    }
+}
+
 void SessionFastAlgorithm(tcp::socket& sock) {
     InitSession(sock);
     ConfigureSessionRuntime();
     try {
         integer D(disc);
+        CheckDiscriminant(D);
         integer L = root(-D, 4);
         PrintInfo("Discriminant = " + to_string(D.impl));
         form f = DeserializeForm(D, initial_form_s, sizeof(initial_form_s));
@@ -208,6 +215,7 @@ void SessionOneWeso(tcp::socket& sock) {
     ConfigureSessionRuntime();
     try {
         integer D(disc);
+        CheckDiscriminant(D);
         integer L = root(-D, 4);
         PrintInfo("Discriminant = " + to_string(D.impl));
         form f = DeserializeForm(D, initial_form_s, sizeof(initial_form_s));
@@ -245,6 +253,7 @@ void SessionTwoWeso(tcp::socket& sock) {
     ConfigureSessionRuntime();
     try {
         integer D(disc);
+        CheckDiscriminant(D);
         integer L = root(-D, 4);
         PrintInfo("Discriminant = " + to_string(D.impl));
         form f = DeserializeForm(D, initial_form_s, sizeof(initial_form_s));
-- 
2.43.0


From eab0f87130216f8ebb7ba5568c8fe6b8e9689f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:09 +0000
Subject: [PATCH 13/30] fix: end all session threads when the peer disconnects

---
 src/vdf_client.cpp | 99 ++++++++++++++++++++++++++++++----------------
 1 file changed, 64 insertions(+), 35 deletions(-)

diff --git a/src/vdf_client.cpp b/src/vdf_client.cpp
index 6ce9075..9cea500 100644
--- a/src/vdf_client.cpp
+++ b/src/vdf_client.cpp
@@ -182,28 +182,38 @@ void SessionFastAlgorithm(tcp::socket& sock) {
         ProverManager pm(D, (FastAlgorithmCallback*)weso, fast_storage, segments, thread_count);
         pm.start();
 
-        // Tell client that I'm ready to get the challenges.
-        boost::asio::write(sock, boost::asio::buffer("OK", 2));
-
-        while (!stopped) {
-            uint64_t iters = ReadIteration(sock);
-            if (iters == 0) {
-                PrintInfo("Got stop signal!");
-                stopped = true;
-                pm.stop();
-                vdf_worker.join();
-                for (int t = 0; t < threads.size(); t++) {
-                    threads[t].join();
-                }
-                if (fast_storage != NULL) {
-                    delete(fast_storage);
+        auto shutdown = [&] {
+            stopped = true;
+            pm.stop();
+            vdf_worker.join();
+            for (int t = 0; t < threads.size(); t++) {
+                threads[t].join();
+            }
+            if (fast_storage != NULL) {
+                delete(fast_storage);
+            }
+            delete(weso);
+        };
+        try {
+            // Tell client that I'm ready to get the challenges.
+            boost::asio::write(sock, boost::asio::buffer("OK", 2));
+
+            while (!stopped) {
+                uint64_t iters = ReadIteration(sock);
+                if (iters == 0) {
+                    PrintInfo("Got stop signal!");
+                    stopped = true;
+                } else {
+                    PrintInfo("Received iteration: " + to_string(iters));
+                    threads.push_back(std::thread(CreateAndWriteProof, std::ref(pm), iters, std::ref(stopped), std::ref(sock)));
                 }
-                delete(weso);
-            } else {
-                PrintInfo("Received iteration: " + to_string(iters));
-                threads.push_back(std::thread(CreateAndWriteProof, std::ref(pm), iters, std::ref(stopped), std::ref(sock)));
             }
+        } catch (...) {
+            // The peer is gone: end all threads before what they use is destroyed.
+            shutdown();
+            throw;
         }
+        shutdown();
     } catch (std::exception& e) {
         PrintInfo("Exception in thread: " + to_string(e.what()));
     }
@@ -232,15 +242,24 @@ void SessionOneWeso(tcp::socket& sock) {
         FastStorage* fast_storage = NULL;
         std::thread vdf_worker(repeated_square, iter, f, std::ref(D), std::ref(L), weso, fast_storage, std::ref(stopped));
         std::thread th_prover(CreateAndWriteProofOneWeso, iter, std::ref(D), f, (OneWesolowskiCallback*)weso, std::ref(stopped), std::ref(sock));
-        iter = ReadIteration(sock);
-        while (iter != 0) {
-            std::cout << "Warning: did not receive stop signal\n";
+        auto shutdown = [&] {
+            stopped = true;
+            vdf_worker.join();
+            th_prover.join();
+            delete(weso);
+        };
+        try {
             iter = ReadIteration(sock);
+            while (iter != 0) {
+                std::cout << "Warning: did not receive stop signal\n";
+                iter = ReadIteration(sock);
+            }
+        } catch (...) {
+            // The peer is gone: end all threads before what they use is destroyed.
+            shutdown();
+            throw;
         }
-        stopped = true;
-        vdf_worker.join();
-        th_prover.join();
-        delete(weso);
+        shutdown();
     } catch (std::exception& e) {
         PrintInfo("Exception in thread: " + to_string(e.what()));
     }
@@ -271,18 +290,28 @@ void SessionTwoWeso(tcp::socket& sock) {
         FastStorage* fast_storage = NULL;
         std::thread vdf_worker(repeated_square, 0, f, std::ref(D), std::ref(L), weso, fast_storage, std::ref(stopped));
 
+        auto shutdown = [&] {
+            stopped = true;
+            for (int i = 0; i < threads.size(); i++)
+                stop_vector[i] = true;
+            for (int t = 0; t < threads.size(); t++) {
+                threads[t].join();
+            }
+            vdf_worker.join();
+            delete(weso);
+        };
         while (!stopped) {
-            uint64_t iters = ReadIteration(sock);
+            uint64_t iters;
+            try {
+                iters = ReadIteration(sock);
+            } catch (...) {
+                // The peer is gone: end all threads before what they use is destroyed.
+                shutdown();
+                throw;
+            }
             if (iters == 0) {
                 PrintInfo("Got stop signal!");
-                stopped = true;
-                for (int i = 0; i < threads.size(); i++)
-                    stop_vector[i] = true;
-                for (int t = 0; t < threads.size(); t++) {
-                    threads[t].join();
-                }
-                vdf_worker.join();
-                delete(weso);
+                shutdown();
             } else {
                 uint64_t max_iter = 0;
                 uint64_t max_iter_thread_id = -1;
-- 
2.43.0


From a74db4c4ff6e95ea1959f59d7a37063c35553217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:13 +0000
Subject: [PATCH 14/30] fix: hw_vdf_client: check the discriminant size the
 peer sends against the buffer

---
 src/hw/hw_vdf_client.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 73cefc5..f7c382d 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -366,6 +366,9 @@ void handle_conn(struct vdf_client *client, struct vdf_conn *conn)
         }
 
         d_size = strtoul(&buf[1], NULL, 10);
+        if (d_size >= sizeof(d_str)) {
+            throw std::runtime_error("Bad discriminant size from timelord");
+        }
         if ((uint64_t)bytes < 4 + d_size + 1) {
             /* Expecting initial form after discriminant */
             return;
-- 
2.43.0


From 58d68011e26ec12fb02ad41feab9b0506136f909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:56 +0000
Subject: [PATCH 15/30] fix: report a failed form serialization instead of
 returning zero bytes

---
 src/proof_common.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/proof_common.h b/src/proof_common.h
index 5cf32c8..5525f1e 100644
--- a/src/proof_common.h
+++ b/src/proof_common.h
@@ -47,7 +47,9 @@ std::vector<unsigned char> SerializeForm(form &y, int d_bits)
 {
     y.reduce();
     std::vector<unsigned char> res(BQFC_FORM_SIZE);
-    bqfc_serialize(res.data(), y.a.impl, y.b.impl, d_bits);
+    if (bqfc_serialize(res.data(), y.a.impl, y.b.impl, d_bits)) {
+        throw std::runtime_error("Serializing form failed");
+    }
     return res;
 }
 
-- 
2.43.0


From ad7864a301166af5d0a5f8a7a38bc4de78bc5df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:57 +0000
Subject: [PATCH 16/30] fix: hw_proof: examine the results of form decoding and
 encoding

---
 src/hw/hw_proof.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index c6e1bec..423aee9 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -706,8 +706,11 @@ void hw_compute_proof(struct vdf_state *vdf, size_t proof_idx, struct vdf_proof
                 out_proof = &vdf->proofs[proof_idx];
             }
 
-            bqfc_serialize(out_proof->y, y.a.impl, y.b.impl, d_bits);
-            bqfc_serialize(out_proof->proof, proof_val.a.impl, proof_val.b.impl, d_bits);
+            if (bqfc_serialize(out_proof->y, y.a.impl, y.b.impl, d_bits) ||
+                bqfc_serialize(out_proof->proof, proof_val.a.impl, proof_val.b.impl, d_bits)) {
+                LOG_ERROR("VDF %d: Failed to serialize proof", vdf->idx);
+                abort();
+            }
 
             if (out_proof->flags & HW_VDF_PROOF_FLAG_IS_REQ) {
                 vdf->done_proofs.push_back((uint16_t)proof_idx);
@@ -819,9 +822,10 @@ void init_vdf_state(struct vdf_state *vdf, struct vdf_proof_opts *opts, const ch
     //mpz_init_set_ui(initial.b, 1);
     //initial.iters = 0;
     init_vdf_value(&vdf->last_val);
-    // TODO: verify validity of initial form
-    bqfc_deserialize(vdf->last_val.a, vdf->last_val.b, vdf->D.impl, init_form,
-            BQFC_FORM_SIZE, BQFC_MAX_D_BITS, false);
+    if (bqfc_deserialize(vdf->last_val.a, vdf->last_val.b, vdf->D.impl, init_form,
+            BQFC_FORM_SIZE, BQFC_MAX_D_BITS, false)) {
+        throw std::runtime_error("Invalid initial form");
+    }
     hw_proof_get_form(hw_proof_value_at(vdf, 0), vdf, &vdf->last_val);
     vdf->valid_values[0] = 1 << 0;
     //vdf->raw_values.push_back(initial);
-- 
2.43.0


From 51ad429b789e9c1db81eb5f96988ab7d5b9722ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:45 +0000
Subject: [PATCH 17/30] fix: bqfc_serialize: refuse a common factor too large
 for the discriminant size instead of writing outside the buffer

---
 src/bqfc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bqfc.c b/src/bqfc.c
index 1e164fe..affe84f 100644
--- a/src/bqfc.c
+++ b/src/bqfc.c
@@ -203,7 +203,8 @@ int bqfc_serialize_only(uint8_t *out_str, const struct qfb_c *c, size_t d_bits)
     out_str[0] = (uint8_t)c->b_sign << BQFC_B_SIGN_BIT;
     out_str[0] |= (mpz_sgn(c->t) < 0 ? 1 : 0) << BQFC_T_SIGN_BIT;
     g_size = (mpz_sizeinbase(c->g, 2) + 7) / 8 - 1;
-    if (g_size > UCHAR_MAX)
+    /* The widths below are d_bits / 16 - g_size and d_bits / 32 - g_size */
+    if (g_size > UCHAR_MAX || g_size >= d_bits / 32)
         return -1;
     out_str[1] = (uint8_t)g_size;
     offset = 2;
-- 
2.43.0


From 4f3a2d0849b094fa9b8eb90919a4cd1bac34029d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:03 +0000
Subject: [PATCH 18/30] fix: Rust verify_n_wesolowski reads 100 bytes of x_s
 whatever its length

---
 rust_bindings/src/lib.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rust_bindings/src/lib.rs b/rust_bindings/src/lib.rs
index fc4c91d..e89743f 100644
--- a/rust_bindings/src/lib.rs
+++ b/rust_bindings/src/lib.rs
@@ -9,6 +9,9 @@ mod bindings {
     include!(concat!(env!("OUT_DIR"), "/bindings.rs"));
 }
 
+/// Size of a serialized form; the C side reads exactly this many bytes of `x_s`.
+const FORM_SIZE: usize = 100;
+
 pub fn create_discriminant(seed: &[u8], result: &mut [u8]) -> bool {
     // SAFETY: The length of each individual array is passed in as to prevent buffer overflows.
     // Exceptions are handled on the C++ side and None is returned if so.
@@ -29,7 +32,11 @@ pub fn verify_n_wesolowski(
     num_iterations: u64,
     recursion: u64,
 ) -> bool {
-    // SAFETY: The length of each individual array is passed in as to prevent buffer overflows.
+    if x_s.len() != FORM_SIZE {
+        return false;
+    }
+    // SAFETY: The length of each individual array is passed in as to prevent buffer overflows,
+    // and the length of `x_s` was checked above.
     // Exceptions are handled on the C++ side and false is returned if so.
     unsafe {
         bindings::verify_n_wesolowski_wrapper(
-- 
2.43.0


From ef99226703020abb05da99c303f2fa613b9bc91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:58 +0000
Subject: [PATCH 19/30] fix: make the hardware VDF stop flag atomic

The main thread sets vdf_state::stopping while aux and proof threads poll
it; as a plain bool that is a data race and the polling loops may never
see the store.
---
 src/hw/hw_proof.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hw/hw_proof.hpp b/src/hw/hw_proof.hpp
index 3668413..2a89c9f 100644
--- a/src/hw/hw_proof.hpp
+++ b/src/hw/hw_proof.hpp
@@ -86,7 +86,7 @@ struct vdf_state {
     uint8_t max_aux_threads;
     uint8_t max_proof_threads;
     bool completed;
-    bool stopping;
+    std::atomic<bool> stopping;
     bool init_done;
 };
 
-- 
2.43.0


From 8d4457254e7cd8008f19ef6085194bfca606063d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:58 +0000
Subject: [PATCH 20/30] fix: take proofs_resize_mtx when retrieving or dropping
 hardware proofs

Proof threads append to done_proofs and set proof flags under
proofs_resize_mtx; hw_retrieve_proof and hw_proof_dec_ref, on the main
thread, read and modified them without it.
---
 src/hw/hw_proof.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index 423aee9..f02837d 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -250,6 +250,7 @@ void hw_proof_inc_ref(struct vdf_state *vdf, uint16_t idx)
 void hw_proof_dec_ref(struct vdf_state *vdf, std::vector<uint16_t> &idxs)
 {
     std::vector<uint16_t> proofs_to_del;
+    std::lock_guard<std::mutex> lk(vdf->proofs_resize_mtx);
     int len = idxs.size();
     int last_proof_idx = vdf->proofs.size() - 1;
 
@@ -748,6 +749,7 @@ int hw_retrieve_proof(struct vdf_state *vdf, struct vdf_proof **out_proof)
         }
     }
 #endif
+    std::lock_guard<std::mutex> lk(vdf->proofs_resize_mtx);
     if (!vdf->done_proofs.empty()) {
         for (size_t i = 0; i < vdf->done_proofs.size(); i++) {
             uint16_t idx = vdf->done_proofs[i];
-- 
2.43.0


From 7991cb80fa7379057bebea8bce5bb98321767b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:58 +0000
Subject: [PATCH 21/30] fix: read the hardware valid-value bitmap under its
 mutex

Aux threads set bits under valid_values_mtx; proof threads waiting for a
value read them without it, so they could see the bit before the form it
stands for (and the compiler may hoist the load out of the wait loop).
---
 src/hw/hw_proof.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index f02837d..f44e955 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -116,11 +116,17 @@ form *hw_proof_value_at(struct vdf_state *vdf, size_t pos)
     return &vdf->values[idx][pos % g_values_mult];
 }
 
+static bool hw_proof_value_valid(struct vdf_state *vdf, size_t pos)
+{
+    std::lock_guard<std::mutex> lk(vdf->valid_values_mtx);
+    return vdf->valid_values[pos / 8] & (1 << (pos % 8));
+}
+
 form *hw_proof_last_good_form(struct vdf_state *vdf, size_t *out_pos)
 {
     size_t pos = vdf->cur_iters / vdf->interval;
 
-    while (!(vdf->valid_values[pos / 8] & (1 << (pos % 8)))) {
+    while (!hw_proof_value_valid(vdf, pos)) {
         pos--;
     }
     *out_pos = pos;
@@ -494,7 +500,7 @@ void hw_proof_wait_values(struct vdf_state *vdf, bool finish_work)
 
 int hw_proof_wait_value(struct vdf_state *vdf, size_t pos)
 {
-    while (!(vdf->valid_values[pos / 8] & (1 << (pos % 8)))) {
+    while (!hw_proof_value_valid(vdf, pos)) {
         vdf_usleep(100000);
         if (vdf->stopping) {
             return -1;
-- 
2.43.0


From ac12b37a79b5fc53b9abc34bffb7103540eeeee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:58 +0000
Subject: [PATCH 22/30] fix: lock the hardware intermediate value table while
 it grows

hw_proof_value_at extends vdf->values and is called concurrently by the
main, aux and proof threads; two growing at once lost or leaked blocks,
or read through a reallocated vector.
---
 src/hw/hw_proof.cpp | 3 ++-
 src/hw/hw_proof.hpp | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index f44e955..5e4165e 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -102,6 +102,7 @@ static const size_t g_values_mult = 1UL << 12;
 form *hw_proof_value_at(struct vdf_state *vdf, size_t pos)
 {
     size_t idx = pos / g_values_mult;
+    std::lock_guard<std::mutex> lk(vdf->values_mtx);
     size_t old_size = vdf->values.size();
 
     if (idx + 1 >= old_size) {
@@ -587,7 +588,7 @@ class HwProver : public ParallelProver {
         pos += pos_offset;
         if (hw_proof_wait_value(vdf, pos)) {
             // Provide arbitrary value when stopping - proof won't be computed
-            return vdf->values[0][0];
+            return *hw_proof_value_at(vdf, 0);
         }
         return *hw_proof_value_at(vdf, pos);
     }
diff --git a/src/hw/hw_proof.hpp b/src/hw/hw_proof.hpp
index 2a89c9f..e788f56 100644
--- a/src/hw/hw_proof.hpp
+++ b/src/hw/hw_proof.hpp
@@ -64,6 +64,7 @@ struct vdf_state {
     //std::vector<struct vdf_value> raw_values;
     struct vdf_value last_val;
     std::vector<form *> values;
+    std::mutex values_mtx;
     std::vector<uint8_t> valid_values;
     std::mutex valid_values_mtx;
     std::deque<struct vdf_proof_req> req_proofs;
-- 
2.43.0


From e67963f1c8118586f87aefa07528a0c4b0ae6dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:11 +0000
Subject: [PATCH 23/30] fix: clear the hardware proof thread's busy bit last

hw_stop_proof() waits for the busy bits only; the state could be destroyed
and re-initialised before the thread gave back its proof thread count.
---
 src/hw/hw_proof.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index 5e4165e..36c4a0b 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -736,8 +736,9 @@ void hw_compute_proof(struct vdf_state *vdf, size_t proof_idx, struct vdf_proof
 
 out:
     if (thr_idx < vdf->max_aux_threads) {
-        vdf->aux_threads_busy &= ~(1UL << thr_idx);
         vdf->n_proof_threads -= PARALLEL_PROVER_N_THREADS;
+        // Last access: once the busy bit is cleared the state may be destroyed.
+        vdf->aux_threads_busy &= ~(1UL << thr_idx);
     }
 }
 
-- 
2.43.0


From 8b54c27559c36f6e2be9c5c75411f5e950e763af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:11 +0000
Subject: [PATCH 24/30] fix: hardware client wrote one byte past its iteration
 buffer

A peer announcing 16 digits made handle_iters() write iters_buf[16].
---
 src/hw/hw_vdf_client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index f7c382d..0e6cd27 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -254,7 +254,7 @@ void handle_iters(struct vdf_client *client, struct vdf_conn *conn)
     while (bytes) {
         memcpy(iters_size_buf, buf, 2);
         iters_size = strtoul(iters_size_buf, NULL, 10);
-        if (iters_size > sizeof(iters_buf) || bytes < 2 + iters_size) {
+        if (iters_size >= sizeof(iters_buf) || bytes < 2 + iters_size) {
             LOG_ERROR("Bad iters data size: %u", bytes);
             throw std::runtime_error("Bad data size");
         }
-- 
2.43.0


From 2075feecb2a3bdfed5d65274eed75b1bebd6913f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:11 +0000
Subject: [PATCH 25/30] fix: hardware client sends a message completely

A short write on the non-blocking socket dropped the rest of a proof, and
a full socket buffer ended the client.
---
 src/hw/hw_vdf_client.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/hw/hw_vdf_client.cpp b/src/hw/hw_vdf_client.cpp
index 0e6cd27..3caabb8 100644
--- a/src/hw/hw_vdf_client.cpp
+++ b/src/hw/hw_vdf_client.cpp
@@ -237,10 +237,18 @@ int read_data(struct vdf_client *client, struct vdf_conn *conn)
 
 void write_data(struct vdf_conn *conn, const char *buf, size_t size)
 {
-    int bytes = vdf_socket_write(conn->sock, buf, size);
-    if (bytes < 0) {
-        perror("write");
-        throw std::runtime_error("Write error");
+    while (size > 0) {
+        int bytes = vdf_socket_write(conn->sock, buf, size);
+        if (bytes < 0) {
+            if (vdf_socket_would_block() && !g_stopping) {
+                vdf_usleep(1000);
+                continue;
+            }
+            perror("write");
+            throw std::runtime_error("Write error");
+        }
+        buf += bytes;
+        size -= bytes;
     }
 }
 
-- 
2.43.0


From 78aabbfc8feea0b294b60918c257349d5994c644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:12 +0000
Subject: [PATCH 26/30] fix: hardware client checks the discriminant it
 receives

A discriminant that is no number, zero, positive or too large went into the
class-group arithmetic (a positive one ends in GMP's root-of-negative abort).
---
 src/hw/hw_proof.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hw/hw_proof.cpp b/src/hw/hw_proof.cpp
index 36c4a0b..023b749 100644
--- a/src/hw/hw_proof.cpp
+++ b/src/hw/hw_proof.cpp
@@ -819,7 +819,10 @@ void init_vdf_state(struct vdf_state *vdf, struct vdf_proof_opts *opts, const ch
         vdf->max_proof_threads = opts->max_proof_threads;
     }
 
-    mpz_set_str(vdf->D.impl, d_str, 0);
+    if (mpz_set_str(vdf->D.impl, d_str, 0) || mpz_sgn(vdf->D.impl) >= 0 ||
+            mpz_sizeinbase(vdf->D.impl, 2) > BQFC_MAX_D_BITS) {
+        throw std::runtime_error("Invalid discriminant");
+    }
     mpz_set(vdf->L.impl, vdf->D.impl);
     mpz_neg(vdf->L.impl, vdf->L.impl);
     mpz_root(vdf->L.impl, vdf->L.impl, 4);
-- 
2.43.0


From 6e9c3be34a3f449158bb8d2c1eeed3d1ab04304f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:36 +0000
Subject: [PATCH 27/30] fix: vdf_original: initialise and release the numbers
 multiply() uses

---
 src/vdf_original.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vdf_original.h b/src/vdf_original.h
index 668aaa8..4d7f9a2 100644
--- a/src/vdf_original.h
+++ b/src/vdf_original.h
@@ -317,12 +317,12 @@ public:
 
     vdf_original() {
         mpz_inits(negative_a, r, denom, old_a, old_b, ra, s, x, g, d, e, q, w, m,
-                u, a, b, k, mu, v, sigma, lambda, f3.a, f3.b, f3.c, //f3.d,
+                u, a, b, k, mu, v, sigma, lambda, h, t, l, j, f3.a, f3.b, f3.c, //f3.d,
                 NULL);
     }
 
     ~vdf_original() {
         mpz_clears(negative_a, r, denom, old_a, old_b, ra, s, x, g, d, e, q, w, m,
-                   u, a, b, k, mu, v, sigma, lambda, f3.a, f3.b, f3.c, NULL); //,);
+                   u, a, b, k, mu, v, sigma, lambda, h, t, l, j, f3.a, f3.b, f3.c, NULL); //,);
     }
 };
-- 
2.43.0


From 321411f19d6910cec338d43bb4a2fef9d466e85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:36 +0000
Subject: [PATCH 28/30] fix: vdf_original: generator_for_discriminant returned
 released numbers

---
 src/vdf_original.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/vdf_original.h b/src/vdf_original.h
index 4d7f9a2..707206e 100644
--- a/src/vdf_original.h
+++ b/src/vdf_original.h
@@ -120,7 +120,6 @@ public:
 
         mpz_fdiv_q(x.c, x.c, denom);
         reduce(x);
-        mpz_clears(x.a, x.b, x.c, NULL);
         return x;
     }
 
-- 
2.43.0


From ea35a1033e3e1c78ec70f25902685cb74859fd5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:35 +0000
Subject: [PATCH 29/30] fix: the validated assignment accepted a form with a=0
 in release builds

With a=0 the division is skipped (set_divide_floor returns without touching its
outputs when asserts are compiled out), so stale c and remainder were tested and
the form could be accepted. Only a>0 is a valid form.
---
 src/vdf_fast.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vdf_fast.h b/src/vdf_fast.h
index 8372865..e9c90c7 100644
--- a/src/vdf_fast.h
+++ b/src/vdf_fast.h
@@ -941,7 +941,7 @@ struct square_state_type {
         b_b_D.set_sub(b_b, D);
 
         c.set_divide_floor(b_b_D, a_4, c_remainder);
-        if (c_remainder.sgn()!=0 || a.sgn()<0 || c.sgn()<0) {
+        if (c_remainder.sgn()!=0 || a.sgn()<=0 || c.sgn()<0) {
             assert(!is_vdf_test);
             num_iterations=~uint64(0);
             return false;
-- 
2.43.0


From 006929761840972fc1fa324bc8a3463800e87d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:35 +0000
Subject: [PATCH 30/30] fix: HashPrime narrowed the seed length to int

For a seed longer than INT_MAX bytes the nonce loop started from a truncated
index: it incremented the wrong byte, or none at all, and the search for a
prime then repeated the same candidate forever.
---
 src/proof_common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/proof_common.h b/src/proof_common.h
index 5525f1e..f6b6749 100644
--- a/src/proof_common.h
+++ b/src/proof_common.h
@@ -21,7 +21,7 @@ integer HashPrime(std::vector<uint8_t> seed, int length, vector<int> bitmask) {
         blob.resize(0);
         while ((int) blob.size() * 8 < length) {
             // Increment sprout by 1
-            for (int i = (int) sprout.size() - 1; i >= 0; --i) {
+            for (size_t i = sprout.size(); i-- > 0; ) {
                 sprout[i]++;
                 if (sprout[i])
                     break;
-- 
2.43.0

