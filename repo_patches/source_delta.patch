From 8655a6cef89b39b055aaa37ddb14e3e284694804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 1/9] fix: reduce coefficients modulo the prime in
 single_curve_fp

Unreduced coefficients were looked up in a map that lacks them, and silently
replaced by 1. The powers of the generator overflowed for large primes.
---
 src/single_curve_fp.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/single_curve_fp.cc b/src/single_curve_fp.cc
index 54fd531..37204bd 100644
--- a/src/single_curve_fp.cc
+++ b/src/single_curve_fp.cc
@@ -49,12 +49,12 @@ single_curve_fp(
   fp_conversion_map[0] = prime-1;
   for (unsigned int ex=0; ex<prime-1; ++ex) {
     fp_conversion_map[a] = ex;
-    a = (a*gen) % prime;
+    a = ((unsigned long int)a*gen) % prime;
   }
 
   vector<unsigned int> poly_coeff_exponents;
   for ( auto c : poly_coeffs )
-    poly_coeff_exponents.push_back(fp_conversion_map[c]);
+    poly_coeff_exponents.push_back(fp_conversion_map[c % prime]);
 
   shared_ptr<OpenCLInterface> opencl;
   if (  implementation == SingleCurveCountImplementationCPU
-- 
2.43.0


From d5fca2f7eccd37f9bada18c0b148bb9d0d637448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 2/9] fix: do not accept zero as a generator in FqElementTable

fq_nmod_randtest may return zero. This happens for example for the primes
110017 and 200003.
---
 src/fq_element_table.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fq_element_table.cc b/src/fq_element_table.cc
index 454b4db..7916332 100644
--- a/src/fq_element_table.cc
+++ b/src/fq_element_table.cc
@@ -60,7 +60,10 @@ FqElementTable(
   this->fq_elements.reserve(this->prime_power);
 
   for ( bool is_gen = false; !is_gen; fq_nmod_randtest(gen, state, this->fq_ctx)) {
-    is_gen = true;
+    // the zero element is no generator; note that its powers do not return to one
+    is_gen = !fq_nmod_is_zero(gen, this->fq_ctx);
+    if ( !is_gen )
+      continue;
 
     this->fq_elements.clear();
 
-- 
2.43.0


From 17818bed415876c4387221f1dcdb0f0a86756d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 3/9] fix: make WithMarkedPoint optional in configuration files

The example in the README omits it, which led to an uncaught exception.
---
 src/config/config_node.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/config/config_node.cc b/src/config/config_node.cc
index ff4f0e9..8273ced 100644
--- a/src/config/config_node.cc
+++ b/src/config/config_node.cc
@@ -92,7 +92,10 @@ namespace YAML
     config.prime_exponent = node["PrimeExponent"].as<int>();
   
     config.genus = node["Genus"].as<int>();
-    config.with_marked_point = node["WithMarkedPoint"].as<bool>();
+    if ( node["WithMarkedPoint"] )
+      config.with_marked_point = node["WithMarkedPoint"].as<bool>();
+    else
+      config.with_marked_point = false;
 
     if ( node["CountExponent"] )
       config.count_exponent = node["CountExponent"].as<int>();
-- 
2.43.0


From 84089c4c871b562b6fdca1ff5be5085df4bbf10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 4/9] fix: read unsigned entries of configuration files as
 unsigned

Negative numbers were silently converted to huge ones, and large values could be
written but not be read back.
---
 src/config/config_node.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/config/config_node.cc b/src/config/config_node.cc
index 8273ced..5ed9fe0 100644
--- a/src/config/config_node.cc
+++ b/src/config/config_node.cc
@@ -88,23 +88,23 @@ namespace YAML
          || !node["PackageSize"] )
       return false;
   
-    config.prime = node["Prime"].as<int>();
-    config.prime_exponent = node["PrimeExponent"].as<int>();
+    config.prime = node["Prime"].as<unsigned int>();
+    config.prime_exponent = node["PrimeExponent"].as<unsigned int>();
   
-    config.genus = node["Genus"].as<int>();
+    config.genus = node["Genus"].as<unsigned int>();
     if ( node["WithMarkedPoint"] )
       config.with_marked_point = node["WithMarkedPoint"].as<bool>();
     else
       config.with_marked_point = false;
 
     if ( node["CountExponent"] )
-      config.count_exponent = node["CountExponent"].as<int>();
+      config.count_exponent = node["CountExponent"].as<unsigned int>();
     else
       config.count_exponent = config.genus;
   
     config.result_path = path(node["ResultPath"].as<string>());
   
-    config.package_size = node["PackageSize"].as<int>();
+    config.package_size = node["PackageSize"].as<unsigned int>();
   
     return true;
   }
-- 
2.43.0


From 7a8aec7481ac67b6dfb554f326e1705d8d621dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 5/9] fix: do not read an empty block after the last line of a
 record

The end of file is not reached before trying to read beyond the final newline.
---
 src/store/file_store.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/store/file_store.cc b/src/store/file_store.cc
index 1bb4d4c..1a714c4 100644
--- a/src/store/file_store.cc
+++ b/src/store/file_store.cc
@@ -123,8 +123,7 @@ extract(
 {
   vuu_block block;
 
-  stream.peek();
-  while ( !stream.eof() ) {
+  while ( stream.peek() != istream::traits_type::eof() ) {
     block.clear();
     FileStore::extract(stream, block);
     record.insert(block);
-- 
2.43.0


From 95935916665c112bdd59c0ddaa87e253d642fe4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 6/9] fix: copy the counter in Count::ValueType

The implicit copies shared the memory of large counters, which was then freed
twice.
---
 src/store/store_data.hh | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/store/store_data.hh b/src/store/store_data.hh
index c65ab54..056cf72 100644
--- a/src/store/store_data.hh
+++ b/src/store/store_data.hh
@@ -83,6 +83,18 @@ class Count
 
       ValueType(const string & str);
 
+      ValueType(const ValueType & value)
+      {
+        fmpz_init(this->counter);
+        fmpz_set(this->counter, value.counter);
+      };
+
+      ValueType & operator=(const ValueType & rhs)
+      {
+        fmpz_set(this->counter, rhs.counter);
+        return *this;
+      };
+
       ~ValueType()
       {
         fmpz_clear(this->counter);
-- 
2.43.0


From 4b5ab2312397f8441b9100eeab4a57b335ae3277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 7/9] fix: avoid lost wake-ups of worker threads

The worker checked for work under data_mutex, but waited on main_mutex, which is
never locked when notifying. A notification in between was lost.
---
 src/threaded/thread.cc | 26 ++++++++------------------
 src/threaded/thread.hh |  1 -
 2 files changed, 8 insertions(+), 19 deletions(-)

diff --git a/src/threaded/thread.cc b/src/threaded/thread.cc
index 2431679..608e57c 100644
--- a/src/threaded/thread.cc
+++ b/src/threaded/thread.cc
@@ -54,34 +54,24 @@ main_thread(
     const shared_ptr<StoreFactoryInterface> store_factory
     )
 {
-  unique_lock<mutex> main_lock(thread->main_mutex);
-
   while ( true ) {
-    while ( true ) {
-      thread->data_mutex.lock();
-      bool shutting_down = thread->shutting_down;
-      bool blocks_empty = thread->blocks.empty();
-      thread->data_mutex.unlock();
-
-      if ( shutting_down )
-        return;
-
-      if ( blocks_empty )
-        thread->main_cond_var.wait(main_lock);
-      else
-        break;
-    }
+    unique_lock<mutex> data_lock(thread->data_mutex);
+
+    while ( !thread->shutting_down && thread->blocks.empty() )
+      thread->main_cond_var.wait(data_lock);
+
+    if ( thread->shutting_down )
+      return;
 
 
     vuu_block block;
     shared_ptr<FqElementTable> fq_table;
     vector<shared_ptr<ReductionTable>> reduction_tables;
 
-    thread->data_mutex.lock();
     tie(block, fq_table, reduction_tables) =
       thread->blocks.front();
     thread->blocks.pop_front();
-    thread->data_mutex.unlock();
+    data_lock.unlock();
 
     auto store = store_factory->create();
     for ( BlockIterator iter(block); !iter.is_end(); iter.step() ) {
diff --git a/src/threaded/thread.hh b/src/threaded/thread.hh
index 8f43297..79c63c7 100644
--- a/src/threaded/thread.hh
+++ b/src/threaded/thread.hh
@@ -81,7 +81,6 @@ class Thread :
     thread main_std_thread;
     bool shutting_down;
 
-    mutex main_mutex;
     mutex data_mutex;
     condition_variable main_cond_var;
 
-- 
2.43.0


From 7a70be0c2947c9775510dd82a9b7171af443eb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 8/9] fix: write a record only after its store has been written
 successfully

A failed or interrupted write left a record without complete results, so that
its blocks were skipped on restart.
---
 src/store/file_store.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/store/file_store.cc b/src/store/file_store.cc
index 1a714c4..20fc8e2 100644
--- a/src/store/file_store.cc
+++ b/src/store/file_store.cc
@@ -69,8 +69,24 @@ save(
   tie(path_record, path_store) = this->new_filenames();
 
   // save record second as a witness to successful writing
-  fstream(path_store.native(),  ios_base::out) << get<1>(record_store);
-  fstream(path_record.native(), ios_base::out) << get<0>(record_store);
+  fstream store_stream(path_store.native(), ios_base::out);
+  store_stream << get<1>(record_store);
+  store_stream.close();
+  if ( !store_stream ) {
+    cerr << "FileStore::save: could not write " << path_store.native() << endl;
+    return;
+  }
+
+  // move the record to its final name only when it is complete
+  path path_record_tmp(path_record.native() + ".tmp");
+  fstream record_stream(path_record_tmp.native(), ios_base::out);
+  record_stream << get<0>(record_store);
+  record_stream.close();
+  if ( !record_stream ) {
+    cerr << "FileStore::save: could not write " << path_record_tmp.native() << endl;
+    return;
+  }
+  filesys::rename(path_record_tmp, path_record);
 }
 
 tuple<path, path>
-- 
2.43.0


From 792d9a133fc6aa1f360e52eec4a04807e0927840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:13 +0000
Subject: [PATCH 9/9] fix: the merger writes its record only after the results
 have been written successfully

---
 src/executables/merger.cc | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/executables/merger.cc b/src/executables/merger.cc
index f941620..330abd8 100644
--- a/src/executables/merger.cc
+++ b/src/executables/merger.cc
@@ -157,8 +157,24 @@ merge(
   }
 
   // save record second as a witness to successful writing
-  store.insert( fstream(store_output_file.native(), ios_base::out) );
-  FileStore::insert( fstream(record_output_file.native(), ios_base::out), record );
+  fstream store_stream(store_output_file.native(), ios_base::out);
+  store.insert(store_stream);
+  store_stream.close();
+  if ( !store_stream ) {
+    cerr << "could not write " << store_output_file.native() << endl;
+    return 1;
+  }
+
+  // move the record to its final name only when it is complete
+  filesys::path record_tmp_file(record_output_file.native() + ".tmp");
+  fstream record_stream(record_tmp_file.native(), ios_base::out);
+  FileStore::insert(record_stream, record);
+  record_stream.close();
+  if ( !record_stream ) {
+    cerr << "could not write " << record_tmp_file.native() << endl;
+    return 1;
+  }
+  filesys::rename(record_tmp_file, record_output_file);
 
   return 0;
 }
-- 
2.43.0

