From 572d3cefefadc52863b9a19e172538d3d1ece103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:09 +0000
Subject: [PATCH 01/21] fix: reduce coefficients modulo the prime in
 single_curve_fp

Coefficients that are not reduced were silently treated as 1.
---
 src/single_curve_fp.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/single_curve_fp.cc b/src/single_curve_fp.cc
index 54fd531..39083cd 100644
--- a/src/single_curve_fp.cc
+++ b/src/single_curve_fp.cc
@@ -54,7 +54,7 @@ single_curve_fp(
 
   vector<unsigned int> poly_coeff_exponents;
   for ( auto c : poly_coeffs )
-    poly_coeff_exponents.push_back(fp_conversion_map[c]);
+    poly_coeff_exponents.push_back(fp_conversion_map[c % prime]);
 
   shared_ptr<OpenCLInterface> opencl;
   if (  implementation == SingleCurveCountImplementationCPU
-- 
2.43.0


From a3c386a89969f38fceff90cb5ced22011dd63eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 02/21] fix: avoid overflow when tabulating generator powers in
 single_curve_fp

The product does not fit into 32 bit for primes beyond 2^16.
---
 src/single_curve_fp.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/single_curve_fp.cc b/src/single_curve_fp.cc
index 39083cd..ceec3d8 100644
--- a/src/single_curve_fp.cc
+++ b/src/single_curve_fp.cc
@@ -49,7 +49,7 @@ single_curve_fp(
   fp_conversion_map[0] = prime-1;
   for (unsigned int ex=0; ex<prime-1; ++ex) {
     fp_conversion_map[a] = ex;
-    a = (a*gen) % prime;
+    a = ((unsigned long long)a * gen) % prime;
   }
 
   vector<unsigned int> poly_coeff_exponents;
-- 
2.43.0


From 2ed28fe58e0e9054729074c2cd587dea7ac50740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 03/21] fix: accept configurations without WithMarkedPoint

The documented example omits it; decoding threw YAML::InvalidNode.
---
 src/config/config_node.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/config/config_node.cc b/src/config/config_node.cc
index ff4f0e9..8273ced 100644
--- a/src/config/config_node.cc
+++ b/src/config/config_node.cc
@@ -92,7 +92,10 @@ namespace YAML
     config.prime_exponent = node["PrimeExponent"].as<int>();
   
     config.genus = node["Genus"].as<int>();
-    config.with_marked_point = node["WithMarkedPoint"].as<bool>();
+    if ( node["WithMarkedPoint"] )
+      config.with_marked_point = node["WithMarkedPoint"].as<bool>();
+    else
+      config.with_marked_point = false;
 
     if ( node["CountExponent"] )
       config.count_exponent = node["CountExponent"].as<int>();
-- 
2.43.0


From c288180c3eeaff46f380a7c4cd828e23d12ddcb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 04/21] fix: do not read an empty block after the last line of
 a record

The loop also did not end for streams that could not be opened.
---
 src/store/file_store.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/store/file_store.cc b/src/store/file_store.cc
index 1bb4d4c..1a714c4 100644
--- a/src/store/file_store.cc
+++ b/src/store/file_store.cc
@@ -123,8 +123,7 @@ extract(
 {
   vuu_block block;
 
-  stream.peek();
-  while ( !stream.eof() ) {
+  while ( stream.peek() != istream::traits_type::eof() ) {
     block.clear();
     FileStore::extract(stream, block);
     record.insert(block);
-- 
2.43.0


From b189cd9e38ccc3cb5011a16c24c584c7e9a79770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 05/21] fix: copy counts of arbitrary size

ValueType was copied bitwise, so counts beyond 62 bit were freed twice.
---
 src/store/store_data.hh | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/store/store_data.hh b/src/store/store_data.hh
index c65ab54..bdafbcb 100644
--- a/src/store/store_data.hh
+++ b/src/store/store_data.hh
@@ -75,6 +75,18 @@ class Count
         fmpz_set_ui(this->counter, counter);
       };
 
+      ValueType(const ValueType & rhs)
+      {
+        fmpz_init(this->counter);
+        fmpz_set(this->counter, rhs.counter);
+      };
+
+      ValueType & operator=(const ValueType & rhs)
+      {
+        fmpz_set(this->counter, rhs.counter);
+        return *this;
+      };
+
       ValueType(const Count & count)
       {
         fmpz_init(this->counter);
-- 
2.43.0


From cafe8ba5385dc9464c2f18c635f1bc206826ce10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 06/21] fix: do not accept zero as a generator of the element
 table

Without a Conway polynomial the generator is searched for; zero was accepted,
e.g. for the prime 110059.
---
 src/fq_element_table.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fq_element_table.cc b/src/fq_element_table.cc
index 454b4db..d93a570 100644
--- a/src/fq_element_table.cc
+++ b/src/fq_element_table.cc
@@ -73,8 +73,10 @@ FqElementTable(
     fq_nmod_mul(a, a, gen, this->fq_ctx);
 
     for (size_t ix=1; ix<this->prime_power_pred; ++ix) {
-      if ( fq_nmod_equal(a, this->fq_elements.front(), this->fq_ctx) ) {
+      if (    fq_nmod_equal(a, this->fq_elements.front(), this->fq_ctx)
+           || fq_nmod_is_zero(a, this->fq_ctx) ) {
         is_gen = false;
+        fq_nmod_one(a, this->fq_ctx);
         for ( auto fq : this->fq_elements ) {
           fq_nmod_clear(fq, this->fq_ctx);
           delete fq;
-- 
2.43.0


From 0ebe91e7ae0a8848d4d32b65c245d8e59807891e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 07/21] fix: let a record appear only after complete results
 have been written

A run killed between creating and writing the record, or failing to write the
results, left a folder in which blocks were counted twice or lost.
---
 src/store/file_store.cc | 25 ++++++++++++++++++++++---
 src/store/file_store.hh |  2 ++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/store/file_store.cc b/src/store/file_store.cc
index 1a714c4..ea530f8 100644
--- a/src/store/file_store.cc
+++ b/src/store/file_store.cc
@@ -22,6 +22,7 @@
 
 #include <fstream>
 #include <random>
+#include <stdexcept>
 
 #include "store/file_store.hh"
 
@@ -68,9 +69,27 @@ save(
   path path_record, path_store;
   tie(path_record, path_store) = this->new_filenames();
 
-  // save record second as a witness to successful writing
-  fstream(path_store.native(),  ios_base::out) << get<1>(record_store);
-  fstream(path_record.native(), ios_base::out) << get<0>(record_store);
+  // save record second as a witness to successful writing; it appears under its
+  // final name only when both files are complete
+  path path_record_tmp(path_record.native() + ".tmp");
+  FileStore::write_file(path_store, get<1>(record_store));
+  FileStore::write_file(path_record_tmp, get<0>(record_store));
+  filesys::rename(path_record_tmp, path_record);
+}
+
+void
+FileStore::
+write_file(
+    const path & filepath,
+    const string & contents
+    )
+{
+  ofstream stream(filepath.native());
+  stream << contents;
+  stream.close();
+
+  if ( !stream )
+    throw runtime_error("FileStore::write_file: could not write " + filepath.native());
 }
 
 tuple<path, path>
diff --git a/src/store/file_store.hh b/src/store/file_store.hh
index 035bb2c..64a2636 100644
--- a/src/store/file_store.hh
+++ b/src/store/file_store.hh
@@ -122,6 +122,8 @@ class FileStore
 
   private:
 
+    static void write_file(const path & filepath, const string & contents);
+
     const ConfigNode config;
     bool valid_store;
     set<vuu_block> initial_record;
-- 
2.43.0


From 3cc6ed6d07a31a42c8ede9a2947d819d747529fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 08/21] fix: do not lose wakeups of worker threads

The condition was tested under one mutex and waited for under another, so that
a notification in between was lost and the run did not end.
---
 src/threaded/thread.cc | 36 +++++++++++++-----------------------
 src/threaded/thread.hh |  1 -
 2 files changed, 13 insertions(+), 24 deletions(-)

diff --git a/src/threaded/thread.cc b/src/threaded/thread.cc
index 2431679..c0de765 100644
--- a/src/threaded/thread.cc
+++ b/src/threaded/thread.cc
@@ -54,34 +54,24 @@ main_thread(
     const shared_ptr<StoreFactoryInterface> store_factory
     )
 {
-  unique_lock<mutex> main_lock(thread->main_mutex);
-
   while ( true ) {
-    while ( true ) {
-      thread->data_mutex.lock();
-      bool shutting_down = thread->shutting_down;
-      bool blocks_empty = thread->blocks.empty();
-      thread->data_mutex.unlock();
-
-      if ( shutting_down )
-        return;
-
-      if ( blocks_empty )
-        thread->main_cond_var.wait(main_lock);
-      else
-        break;
-    }
-
-
     vuu_block block;
     shared_ptr<FqElementTable> fq_table;
     vector<shared_ptr<ReductionTable>> reduction_tables;
 
-    thread->data_mutex.lock();
-    tie(block, fq_table, reduction_tables) =
-      thread->blocks.front();
-    thread->blocks.pop_front();
-    thread->data_mutex.unlock();
+    {
+      // the condition must not change between testing it and waiting
+      unique_lock<mutex> data_lock(thread->data_mutex);
+      while ( !thread->shutting_down && thread->blocks.empty() )
+        thread->main_cond_var.wait(data_lock);
+
+      if ( thread->shutting_down )
+        return;
+
+      tie(block, fq_table, reduction_tables) =
+        thread->blocks.front();
+      thread->blocks.pop_front();
+    }
 
     auto store = store_factory->create();
     for ( BlockIterator iter(block); !iter.is_end(); iter.step() ) {
diff --git a/src/threaded/thread.hh b/src/threaded/thread.hh
index 8f43297..79c63c7 100644
--- a/src/threaded/thread.hh
+++ b/src/threaded/thread.hh
@@ -81,7 +81,6 @@ class Thread :
     thread main_std_thread;
     bool shutting_down;
 
-    mutex main_mutex;
     mutex data_mutex;
     condition_variable main_cond_var;
 
-- 
2.43.0


From f7460f18430360161e65b8bc8043b00f439e0631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:00 +0000
Subject: [PATCH 09/21] fix: do not take the cut off last line of a record for
 a block

---
 src/store/file_store.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/store/file_store.cc b/src/store/file_store.cc
index ea530f8..ca3f4b2 100644
--- a/src/store/file_store.cc
+++ b/src/store/file_store.cc
@@ -145,6 +145,9 @@ extract(
   while ( stream.peek() != istream::traits_type::eof() ) {
     block.clear();
     FileStore::extract(stream, block);
+    // a line that has been cut off might look like another block
+    if ( stream.eof() )
+      break;
     record.insert(block);
   }
 }
-- 
2.43.0


From 7f80c76ccefd339cec3238291c133603760a2e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:58 +0000
Subject: [PATCH 10/21] fix: read the fields of configurations as unsigned
 numbers

---
 src/config/config_node.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/config/config_node.cc b/src/config/config_node.cc
index 8273ced..5ed9fe0 100644
--- a/src/config/config_node.cc
+++ b/src/config/config_node.cc
@@ -88,23 +88,23 @@ namespace YAML
          || !node["PackageSize"] )
       return false;
   
-    config.prime = node["Prime"].as<int>();
-    config.prime_exponent = node["PrimeExponent"].as<int>();
+    config.prime = node["Prime"].as<unsigned int>();
+    config.prime_exponent = node["PrimeExponent"].as<unsigned int>();
   
-    config.genus = node["Genus"].as<int>();
+    config.genus = node["Genus"].as<unsigned int>();
     if ( node["WithMarkedPoint"] )
       config.with_marked_point = node["WithMarkedPoint"].as<bool>();
     else
       config.with_marked_point = false;
 
     if ( node["CountExponent"] )
-      config.count_exponent = node["CountExponent"].as<int>();
+      config.count_exponent = node["CountExponent"].as<unsigned int>();
     else
       config.count_exponent = config.genus;
   
     config.result_path = path(node["ResultPath"].as<string>());
   
-    config.package_size = node["PackageSize"].as<int>();
+    config.package_size = node["PackageSize"].as<unsigned int>();
   
     return true;
   }
-- 
2.43.0


From 465c83a8c0515f9e28d2f3beb0d1ba0fe3275950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:19 +0000
Subject: [PATCH 11/21] fix: set up the method tables of FLINT before starting
 threads

---
 src/threaded/thread_pool.cc | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/threaded/thread_pool.cc b/src/threaded/thread_pool.cc
index a116eb1..8e6a472 100644
--- a/src/threaded/thread_pool.cc
+++ b/src/threaded/thread_pool.cc
@@ -21,6 +21,9 @@
 ===============================================================================*/
 
 
+#include <flint/fq_nmod.h>
+#include <flint/fq_nmod_poly.h>
+#include <flint/nmod_poly.h>
 #include <vector>
 #include <sstream>
 #include <tuple>
@@ -32,6 +35,36 @@
 using namespace std;
 
 
+// FLINT sets up the method tables of its generic rings without any locking
+// when polynomials over them are used for the first time, so that this has to
+// happen before several threads compute with such polynomials
+static
+void
+initialize_flint()
+{
+  nmod_poly_t nmod_poly, divisor;
+  nmod_poly_init(nmod_poly, 3);
+  nmod_poly_init(divisor, 3);
+  nmod_poly_set_coeff_ui(nmod_poly, 4, 1);
+  nmod_poly_set_coeff_ui(divisor, 2, 1);
+  nmod_poly_div(nmod_poly, nmod_poly, divisor);
+  nmod_poly_clear(nmod_poly);
+  nmod_poly_clear(divisor);
+
+  fmpz_t prime;
+  fq_nmod_ctx_t fq_ctx;
+  fmpz_init_set_ui(prime, 3);
+  fq_nmod_ctx_init(fq_ctx, prime, 2, "T");
+  fmpz_clear(prime);
+
+  fq_nmod_poly_t fq_poly;
+  fq_nmod_poly_init(fq_poly, fq_ctx);
+  fq_nmod_poly_gen(fq_poly, fq_ctx);
+  fq_nmod_poly_gcd(fq_poly, fq_poly, fq_poly, fq_ctx);
+  fq_nmod_poly_clear(fq_poly, fq_ctx);
+  fq_nmod_ctx_clear(fq_ctx);
+}
+
 void
 ThreadPool::
 spark_threads(
@@ -45,6 +78,9 @@ spark_threads(
   }
 
 
+  initialize_flint();
+
+
   if ( nmb_working_threads < 0 )
     nmb_working_threads = thread::hardware_concurrency();
 
-- 
2.43.0


From d8a85c5ad8137e944ed2fad6d49b019a9de060e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:59 +0000
Subject: [PATCH 12/21] fix: take negative and large coefficients of single
 curves for their residues

---
 src/executables/single.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/executables/single.cc b/src/executables/single.cc
index 0be6e42..4d9aab6 100644
--- a/src/executables/single.cc
+++ b/src/executables/single.cc
@@ -45,7 +45,7 @@ main(
   popt::positional_options_description positional_options;
 
   hidden_options.add_options()
-    ( "coefficients", value<vector<unsigned int>>()->composing(),
+    ( "coefficients", value<vector<long long>>()->composing(),
       "coefficients of the polynomial" )
     ( "field_size", value<unsigned int>(),
       "size of the ground field" );
@@ -89,7 +89,7 @@ main(
       invalid_options = true;
       cerr << "no coefficient was specified";
     }
-    else if ( options_map["coefficients"].as<vector<unsigned int>>().size() < 2 ) {
+    else if ( options_map["coefficients"].as<vector<long long>>().size() < 2 ) {
       invalid_options = true;
       cerr << "less than two coefficient were specified";
     }
@@ -127,8 +127,14 @@ main(
   else
     count_implementation = SingleCurveCountImplementationCPU;
 
+  // coefficients may be negative, and stand for their residues
+  const long long field_size = options_map["field_size"].as<unsigned int>();
+  vector<unsigned int> coefficients;
+  for ( auto c : options_map["coefficients"].as<vector<long long>>() )
+    coefficients.push_back((c % field_size + field_size) % field_size);
+
   auto curve = single_curve_fp( options_map["field_size"].as<unsigned int>(),
-                                options_map["coefficients"].as<vector<unsigned int>>(),
+                                coefficients,
                                 count_implementation
                               );
     
-- 
2.43.0


From e42644703dc2e13072a6c421f606f2533b8586a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:32 +0000
Subject: [PATCH 13/21] fix: embed coefficients over prime fields canonically
 in count_naive_zech

---
 src/curve.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/curve.cc b/src/curve.cc
index 6d64e43..88deeac 100644
--- a/src/curve.cc
+++ b/src/curve.cc
@@ -466,6 +466,9 @@ count_naive_zech(
     fq_zech_init(a, fq_ctx);
     if ( e == table->prime_power_pred )
       fq_zech_zero(a, fq_ctx);
+    // without Conway polynomials generators need not be compatible
+    else if ( this->table->is_prime_field() )
+      fq_zech_set_ui(a, this->table->at_nmod(e), fq_ctx);
     else
       fq_zech_pow_ui(a, sub_gen, e, fq_ctx);
     poly_coefficients.push_back(a);
-- 
2.43.0


From 018161c3778f6a0317fbba34f9699bbb494648fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:17 +0000
Subject: [PATCH 14/21] fix: fail if the merged results can not be written

---
 src/executables/merger.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/executables/merger.cc b/src/executables/merger.cc
index f941620..0c8afc0 100644
--- a/src/executables/merger.cc
+++ b/src/executables/merger.cc
@@ -157,8 +157,21 @@ merge(
   }
 
   // save record second as a witness to successful writing
-  store.insert( fstream(store_output_file.native(), ios_base::out) );
-  FileStore::insert( fstream(record_output_file.native(), ios_base::out), record );
+  ofstream store_stream(store_output_file.native());
+  store.insert(store_stream);
+  store_stream.close();
+  if ( !store_stream ) {
+    cerr << "could not write " << store_output_file << endl;
+    return 1;
+  }
+
+  ofstream record_stream(record_output_file.native());
+  FileStore::insert(record_stream, record);
+  record_stream.close();
+  if ( !record_stream ) {
+    cerr << "could not write " << record_output_file << endl;
+    return 1;
+  }
 
   return 0;
 }
-- 
2.43.0


From e5059d87d8c84a50ab7e9b0f5015b820fe72b286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:10 +0000
Subject: [PATCH 15/21] fix: end all MPI processes if the master refuses its
 arguments

---
 src/executables/mpi.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/executables/mpi.cc b/src/executables/mpi.cc
index 437f77b..cbc39e5 100644
--- a/src/executables/mpi.cc
+++ b/src/executables/mpi.cc
@@ -88,13 +88,18 @@ main(
     return 0;
   }
 
+  // the other processes are waiting for the initialization of worker pools, so
+  // that all of them have to be ended in case of failure
+
   if ( !options_map.count("config-file") ) {
     cerr << "configuration file required" << endl;
+    mpi_environment.abort(1);
     return 1;
   }
 
   if ( !options_map.count("output-path") ) {
     cerr << "output path required" << endl;
+    mpi_environment.abort(1);
     return 1;
   }
 
@@ -102,6 +107,7 @@ main(
   path output_path(options_map["output-path"].as<string>());
   if ( !( is_directory(output_path) || create_directories(output_path) ) ) {
     cerr << "could not create output path" << endl;
+    mpi_environment.abort(1);
     return 1;
   }
 
@@ -109,6 +115,7 @@ main(
   path config_file(options_map["config-file"].as<string>());
   if ( !is_regular_file(config_file) ) {
     cerr << "could not find configuration file or it is not a regular file" << endl;
+    mpi_environment.abort(1);
     return 1;
   }
   auto config_yaml = YAML::LoadFile(config_file.native());
@@ -123,6 +130,7 @@ main(
       store_type = StoreType::EC;
     else {
       cerr << "Invalid store type given" << endl;
+      mpi_environment.abort(1);
       return 1;
     }
   }
-- 
2.43.0


From 9a5b21226762a4c6362f1a0a74230315d5045d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:51 +0000
Subject: [PATCH 16/21] fix: refuse configurations whose prime is not prime

---
 src/config/config_node.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/config/config_node.hh b/src/config/config_node.hh
index 259b753..2642eb7 100644
--- a/src/config/config_node.hh
+++ b/src/config/config_node.hh
@@ -25,6 +25,8 @@
 #define _H_CONFIG_NODE
 
 #include <boost/filesystem.hpp>
+#include <flint/flint.h>
+#include <flint/ulong_extras.h>
 #include <ostream>
 #include <string>
 #include <yaml-cpp/yaml.h>
@@ -54,6 +56,7 @@ struct ConfigNode
   inline bool verify() const
   {
     return (    prime != 0 && prime_exponent != 0
+             && n_is_prime(prime)
              && genus != 0 && count_exponent != 0
              && (is_directory(result_path) || create_directories(result_path))
              && package_size != 0
-- 
2.43.0


From 97b1bcedb02b37ef601b9a128dcc75b8d060de58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:21 +0000
Subject: [PATCH 17/21] fix: pass coefficient exponents and counts to OpenCL as
 they are stored

With OpenCL curve.cc did not compile, since the exponents and the counts are
unsigned. The coefficients are written to the device without waiting, so
that they must not be a copy that ends with the call.
---
 src/opencl/kernel_evaluation.cc | 2 +-
 src/opencl/kernel_evaluation.hh | 2 +-
 src/opencl/kernel_reduction.cc  | 2 +-
 src/opencl/kernel_reduction.hh  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/opencl/kernel_evaluation.cc b/src/opencl/kernel_evaluation.cc
index 88050c0..1524b44 100644
--- a/src/opencl/kernel_evaluation.cc
+++ b/src/opencl/kernel_evaluation.cc
@@ -85,7 +85,7 @@ OpenCLKernelEvaluation(
 void
 OpenCLKernelEvaluation::
 enqueue(
-    vector<int> poly_coeff_exponents
+    const vector<unsigned int> & poly_coeff_exponents
     )
 {
   cl_int status;
diff --git a/src/opencl/kernel_evaluation.hh b/src/opencl/kernel_evaluation.hh
index 6b88f14..edf37eb 100644
--- a/src/opencl/kernel_evaluation.hh
+++ b/src/opencl/kernel_evaluation.hh
@@ -40,7 +40,7 @@ class OpenCLKernelEvaluation
   public:
     OpenCLKernelEvaluation(const ReductionTable & table, unsigned int degree);
 
-    void enqueue(vector<int> poly_coeff_exponents);
+    void enqueue(const vector<unsigned int> & poly_coeff_exponents);
 
   private:
     unsigned int prime_power_pred;
diff --git a/src/opencl/kernel_reduction.cc b/src/opencl/kernel_reduction.cc
index 17a8106..1e35f5d 100644
--- a/src/opencl/kernel_reduction.cc
+++ b/src/opencl/kernel_reduction.cc
@@ -130,7 +130,7 @@ _reduce(
 void
 OpenCLKernelReduction::
 reduce(
-    map<unsigned int, tuple<int,int>> & nmb_points
+    map<unsigned int, tuple<unsigned int,unsigned int>> & nmb_points
     )
 {
   get<0>(nmb_points[this->prime_exponent]) +=
diff --git a/src/opencl/kernel_reduction.hh b/src/opencl/kernel_reduction.hh
index 8507c8d..841e746 100644
--- a/src/opencl/kernel_reduction.hh
+++ b/src/opencl/kernel_reduction.hh
@@ -44,7 +44,7 @@ class OpenCLKernelReduction
   public:
     OpenCLKernelReduction(const ReductionTable & table);
 
-    void reduce(map<unsigned int, tuple<int,int>> & nmb_points);
+    void reduce(map<unsigned int, tuple<unsigned int,unsigned int>> & nmb_points);
 
   private:
     unsigned int prime_exponent;
-- 
2.43.0


From 472326e1dc05065d00188f1758dcecb75c8ee5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:21 +0000
Subject: [PATCH 18/21] fix: use OpenCL in reduction tables that take over the
 interface

The interface had been moved from when the buffers were to be set up, so that
the first count with such a table crashed.
---
 src/reduction_table.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reduction_table.cc b/src/reduction_table.cc
index e80ebed..bfb93ef 100644
--- a/src/reduction_table.cc
+++ b/src/reduction_table.cc
@@ -52,7 +52,7 @@ ReductionTable(
 {
   this->compute_tables();
 #ifdef WITH_OPENCL
-  if ( opencl ) {
+  if ( this->opencl ) {
     this->_buffer_evaluation = make_shared<OpenCLBufferEvaluation>(*this);
     this->_kernel_reduction = make_shared<OpenCLKernelReduction>(*this);
   }
-- 
2.43.0


From 72895009708ea6bf260a2450744058fd768815f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:02 +0000
Subject: [PATCH 19/21] fix: wait until tables have been written to OpenCL
 devices

A table that was given up before anything had been counted with it was read
by the pending transfer after its end.
---
 src/opencl/buffer_evaluation.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/opencl/buffer_evaluation.cc b/src/opencl/buffer_evaluation.cc
index 4234cfe..6cd7851 100644
--- a/src/opencl/buffer_evaluation.cc
+++ b/src/opencl/buffer_evaluation.cc
@@ -50,7 +50,7 @@ OpenCLBufferEvaluation(
 
   cl_int status;
  
-  status = this->opencl->queue->enqueueWriteBuffer(*this->buffer_exponent_reduction_table, CL_FALSE, 0,
+  status = this->opencl->queue->enqueueWriteBuffer(*this->buffer_exponent_reduction_table, CL_TRUE, 0,
       sizeof(int32_t) * table.exponent_reduction_table->size(),
       table.exponent_reduction_table->data() );
   if ( status != CL_SUCCESS ) {
@@ -58,7 +58,7 @@ OpenCLBufferEvaluation(
     throw;
   }
 
-  status = this->opencl->queue->enqueueWriteBuffer(*this->buffer_incrementation_table, CL_FALSE, 0,
+  status = this->opencl->queue->enqueueWriteBuffer(*this->buffer_incrementation_table, CL_TRUE, 0,
       sizeof(int32_t) * table.incrementation_table->size(),
       table.incrementation_table->data() );
   if ( status != CL_SUCCESS ) {
-- 
2.43.0


From d5ad3785bc99ca6986f96a13213b2dc1965a2719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:28 +0000
Subject: [PATCH 20/21] fix: free the coefficients of naive counts

---
 src/curve.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/curve.cc b/src/curve.cc
index 88deeac..eb65f6f 100644
--- a/src/curve.cc
+++ b/src/curve.cc
@@ -337,7 +337,7 @@ count_naive_nmod(
   // convert coefficient exponents to fq_nmod elements
   // fixme: in this conversion as in the other ones, we
   // silently assume that gen_q = gen_{q^l}^{q^l - q}
-  vector<const fq_nmod_struct*> poly_coefficients;
+  vector<fq_nmod_struct*> poly_coefficients;
   for ( unsigned int e : this->poly_coeff_exponents ) {
     auto a = new fq_nmod_struct;
     fq_nmod_init(a, fq_ctx);
@@ -408,6 +408,10 @@ count_naive_nmod(
 
 
   // clear flint variables
+  for ( auto a : poly_coefficients ) {
+    fq_nmod_clear(a, fq_ctx);
+    delete a;
+  }
   fq_nmod_clear(gen, fq_ctx);
   fq_nmod_clear(sub_gen, fq_ctx);
   fq_nmod_clear(x, fq_ctx);
@@ -460,7 +464,7 @@ count_naive_zech(
   // convert coefficient exponents to fq_zech elements
   // fixme: in this conversion as in the other ones, we
   // silently assume that gen_q = gen_{q^l}^{q^l - q}
-  vector<const fq_zech_struct*> poly_coefficients;
+  vector<fq_zech_struct*> poly_coefficients;
   for ( unsigned int e : this->poly_coeff_exponents ) {
     auto a = new fq_zech_struct;
     fq_zech_init(a, fq_ctx);
@@ -534,6 +538,10 @@ count_naive_zech(
 
 
   // clear flint variables
+  for ( auto a : poly_coefficients ) {
+    fq_zech_clear(a, fq_ctx);
+    delete a;
+  }
   fq_zech_clear(gen, fq_ctx);
   fq_zech_clear(sub_gen, fq_ctx);
   fq_zech_clear(x, fq_ctx);
-- 
2.43.0


From 190acb7ef61dcefcaf375293ec7ce628ac29117a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:29 +0000
Subject: [PATCH 21/21] fix: compare the values of counts, not their addresses

---
 src/store/store_data.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/store/store_data.hh b/src/store/store_data.hh
index bdafbcb..e49dfb8 100644
--- a/src/store/store_data.hh
+++ b/src/store/store_data.hh
@@ -57,7 +57,7 @@ class Count
 
     inline bool operator==(const Count & rhs) const
     {
-      return this->value.counter == rhs.value.counter;
+      return fmpz_equal(this->value.counter, rhs.value.counter) == 1;
     };
 
     struct ValueType
-- 
2.43.0

