From 5a194fd77c68c5f7fa60910c803a151e6f46b062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:16 +0000
Subject: [PATCH 01/29] fix: report errors of the last flush and of close
 instead of losing data silently

The stream_writer destructor wrote the remaining records and either
terminated the process or, when only the close failed, dropped the data
while hibp-download and hibp-sort reported success. Flush and close
explicitly, check --txt-out writes, and keep the sort chunks until the
merged file is complete.
---
 app/hibp_download.cpp |  3 +++
 include/flat_file.hpp | 27 +++++++++++++++++++++------
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/app/hibp_download.cpp b/app/hibp_download.cpp
index 8bbc98e..6eb50b2 100644
--- a/app/hibp_download.cpp
+++ b/app/hibp_download.cpp
@@ -65,6 +65,7 @@ void launch(std::ofstream& output_db_stream, const hibp::dnl::cli_config_t& cli,
   auto ffsw = flat_file::stream_writer<PwType>(output_db_stream, 10'000);
   hibp::dnl::run([&](const std::string& line) { ffsw.write(PwType{line}); }, start_index,
                  cli.testing);
+  ffsw.flush();
 }
 
 template <hibp::pw_type PwType>
@@ -133,6 +134,7 @@ int main(int argc, char* argv[]) {
                                            cli.output_db_filename,
                                            std::strerror(errno))); // NOLINT errno
     }
+    output_db_stream.exceptions(std::ios_base::badbit | std::ios_base::failbit);
     if (cli.txt_out) {
       auto tw = hibp::dnl::text_writer(output_db_stream);
       hibp::dnl::run([&](const std::string& line) { tw.write(line); }, start_index, cli.testing);
@@ -146,6 +148,7 @@ int main(int argc, char* argv[]) {
         launch<hibp::pawned_pw_sha1>(output_db_stream, cli, start_index);
       }
     }
+    output_db_stream.close(); // throws if not everything could be written
 
   } catch (const std::exception& e) {
     std::cerr << fmt::format("Error: {}\n", e.what());
diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index 72e12d6..df3a4dc 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -54,12 +54,13 @@ public:
 
   void flush(bool flush_stream = false) {
     if (buf_pos_ != 0) {
+      const std::size_t nrecs = buf_pos_;
+      buf_pos_                = 0; // even if the write below throws: never write these twice
       db_.write(reinterpret_cast<char*>(buf_.data()), // NOLINT reincast
-                static_cast<std::streamsize>(sizeof(ValueType) * buf_pos_));
-      buf_pos_ = 0;
-      if (flush_stream) {
-        db_.flush();
-      }
+                static_cast<std::streamsize>(sizeof(ValueType) * nrecs));
+    }
+    if (flush_stream) {
+      db_.flush();
     }
   }
 
@@ -70,7 +71,13 @@ public:
   stream_writer(stream_writer&& other) noexcept            = default;
   stream_writer& operator=(stream_writer&& other) noexcept = default;
 
-  ~stream_writer() { flush(); }
+  // last resort only, cannot report errors: call flush() when the data matters
+  ~stream_writer() {
+    try {
+      flush();
+    } catch (...) { // NOLINT empty catch
+    }
+  }
 
 private:
   std::ostream&          db_; // NOLINT ref
@@ -85,6 +92,12 @@ public:
       : ofstream_holder(std::move(dbfilename)), stream_writer<ValueType>(ofstream_) {
     if (!ofstream_.is_open()) throw std::domain_error("cannot open db: " + filename_);
   }
+
+  // throws if any of the data could not be written
+  void close() {
+    this->flush();
+    ofstream_.close();
+  }
 };
 
 // CAUTION: flat_file::database ALWAYS INVALIDATES its iterators during move assignment.
@@ -253,6 +266,7 @@ std::vector<std::string> sort_into_chunks(typename database<ValueType>::const_it
         });
     auto part = file_writer<ValueType>(chunk_filename);
     for (const auto& obj: objs) part.write(obj);
+    part.close();
   }
   return chunk_filenames;
 }
@@ -306,6 +320,7 @@ void merge_sorted_chunks(const std::vector<std::string>& chunk_filenames,
       ++(chunk.current);
     }
   }
+  sorted.close(); // chunks are only expendable once this has succeeded
 
   for (const auto& filename: chunk_filenames) std::filesystem::remove(filename);
 }
-- 
2.43.0


From 563b154161cccb68389c0b7c994b4702185f6fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:58 +0000
Subject: [PATCH 02/29] fix: --resume does not trust error pages nor wait
 forever for a silent server

curl_sync_get accepted the body of any HTTP reply, so an error page could be
taken for the last range file, and it had no low speed limit, so --resume
hung on a server that stopped answering.
---
 src/dnl/requests.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/dnl/requests.cpp b/src/dnl/requests.cpp
index 76f281d..326aaab 100644
--- a/src/dnl/requests.cpp
+++ b/src/dnl/requests.cpp
@@ -266,13 +266,22 @@ std::string curl_sync_get(const std::string& url) {
   curl_easy_setopt(curl, CURLOPT_WRITEFUNCTION, +write_cb); // convert to func ptr
   std::string result_body;
   curl_easy_setopt(curl, CURLOPT_WRITEDATA, &result_body);
+  // same limits as for the other downloads
+  curl_easy_setopt(curl, CURLOPT_LOW_SPEED_TIME, 5L);
+  curl_easy_setopt(curl, CURLOPT_LOW_SPEED_LIMIT, 1000L);
   if (auto res = curl_easy_perform(curl); res != CURLE_OK) {
     curl_easy_cleanup(curl);
     throw std::runtime_error(fmt::format("curl_sync_get: Couldn't retrieve '{}'. Error: {}", url,
                                          curl_easy_strerror(res)));
   }
 
+  long response_code = 0;
+  curl_easy_getinfo(curl, CURLINFO_RESPONSE_CODE, &response_code);
   curl_easy_cleanup(curl);
+  if (response_code != 200) {
+    throw std::runtime_error(fmt::format("curl_sync_get: Couldn't retrieve '{}'. http resp code: {}",
+                                         url, response_code));
+  }
   return result_body;
 }
 
-- 
2.43.0


From 488cc53704eb53b2aa9a31679177572764d8079a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:06 +0000
Subject: [PATCH 03/29] fix: --resume starts at the beginning when the file
 holds no record yet

---
 src/dnl/resume.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dnl/resume.cpp b/src/dnl/resume.cpp
index d31a6be..c615134 100644
--- a/src/dnl/resume.cpp
+++ b/src/dnl/resume.cpp
@@ -26,6 +26,9 @@ std::size_t get_last_prefix(const std::string& filename, bool testing) {
   }
 
   flat_file::database<PwType> db(filename);
+  if (db.number_records() == 0) {
+    return static_cast<std::size_t>(-1); // interrupted before the first write: start at the beginning
+  }
 
   const auto& last_db_ppw = db.back();
 
-- 
2.43.0


From 95d2111eada4cfd839fc02417afcf8815cd94544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:12 +0000
Subject: [PATCH 04/29] fix: do not report success when the event loop ends
 with downloads outstanding

libcurl can leave transfers pending without any timer or socket event (after
a failed send on a fresh connection, with CURLOPT_PIPEWAIT). The event loop
then has nothing left to wait for and ends, which was taken for completion.
The same happened with --parallel-max 0.
---
 src/dnl/requests.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dnl/requests.cpp b/src/dnl/requests.cpp
index 326aaab..24f7a3f 100644
--- a/src/dnl/requests.cpp
+++ b/src/dnl/requests.cpp
@@ -306,6 +306,9 @@ void run_event_loop(std::size_t start_index, bool testing_, std::stop_token stok
   req::stoken = std::move(stoken);
   event_base_dispatch(req::ebase);
   logger.log("event_base_dispatch() completed");
+  if (!req::download_slots.empty() || req::next_index != cli.index_limit) {
+    throw std::runtime_error("event loop ended before all downloads were complete");
+  }
   finished_downloads();
 }
 
-- 
2.43.0


From 6bb369bf3733a00add700b682c5c343f23a4938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:48 +0000
Subject: [PATCH 05/29] fix: a retried request does not wait for a connection
 that may be dead

With CURLOPT_PIPEWAIT libcurl keeps a transfer pending while the only known
connection has not shown whether it can be multiplexed, which a connection
that died before its first reply never does. Retries now open their own.
---
 src/dnl/requests.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dnl/requests.cpp b/src/dnl/requests.cpp
index 24f7a3f..9c4c573 100644
--- a/src/dnl/requests.cpp
+++ b/src/dnl/requests.cpp
@@ -135,6 +135,8 @@ void process_curl_done_msg(CURLMsg* message, enq_msg_t& msg) {
                          dl->prefix, curl_easy_strerror(curl_code), response_code,
                          dl->retries_left));
 
+  // do not wait for a connection to become multiplexable: it may be the one that just failed
+  curl_easy_setopt(easy_handle, CURLOPT_PIPEWAIT, 0L);
   curl_multi_add_handle(curl_multi_handle, easy_handle); // try again with same handle
 }
 
-- 
2.43.0


From 449e16164d22ae75e13ebe4b8be91ea7622d380f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:39 +0000
Subject: [PATCH 06/29] fix: data race on the thread name table with --debug

---
 src/dnl/queuemgt.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/dnl/queuemgt.cpp b/src/dnl/queuemgt.cpp
index 0a1df6a..9e5298d 100644
--- a/src/dnl/queuemgt.cpp
+++ b/src/dnl/queuemgt.cpp
@@ -234,8 +234,11 @@ void run(write_fn_t write_fn, std::size_t start_index_, bool testing_) {
       }
     });
 
-    req_thr_id           = requests_thread.get_id();
-    thrnames[req_thr_id] = "requests";
+    req_thr_id = requests_thread.get_id();
+    {
+      const std::lock_guard lk(cerr_mutex); // the thread may be logging already
+      thrnames[req_thr_id] = "requests";
+    }
 
     std::jthread queuemgt_thread([&]() {
       try {
@@ -246,8 +249,11 @@ void run(write_fn_t write_fn, std::size_t start_index_, bool testing_) {
         req_stop_source.request_stop();
       }
     });
-    que_thr_id           = queuemgt_thread.get_id();
-    thrnames[que_thr_id] = "queuemgt";
+    que_thr_id = queuemgt_thread.get_id();
+    {
+      const std::lock_guard lk(cerr_mutex);
+      thrnames[que_thr_id] = "queuemgt";
+    }
 
   } // wait here until threads join
 
-- 
2.43.0


From 11fe4b9d848a01f2ef14b86160856dbeb7c795e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:41 +0000
Subject: [PATCH 07/29] fix: hibp-convert does not report success when reading
 or writing failed

---
 app/hibp_convert.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/app/hibp_convert.cpp b/app/hibp_convert.cpp
index 0ea2dfb..e1f40ec 100644
--- a/app/hibp_convert.cpp
+++ b/app/hibp_convert.cpp
@@ -2,6 +2,7 @@
 #include "hibp.hpp"
 #include <CLI/CLI.hpp>
 #include <cstddef>
+#include <cstdio>
 #include <cstdlib>
 #include <exception>
 #include <filesystem>
@@ -88,6 +89,10 @@ void txt_to_bin(std::istream& input_stream, std::ostream& output_stream, std::si
   for (std::string line; std::getline(input_stream, line) && count != limit; count++) {
     writer.write(PwType{line});
   }
+  if (input_stream.bad() || (&input_stream == &std::cin && std::ferror(stdin) != 0)) {
+    throw std::runtime_error("Error reading the input.");
+  }
+  writer.flush();
 }
 
 template <hibp::pw_type PwType>
@@ -145,6 +150,7 @@ void convert(const cli_config_t& cli) {
     output_stream      = &ofs;
     output_stream_name = cli.output_filename;
   }
+  output_stream->exceptions(std::ios_base::badbit | std::ios_base::failbit);
 
   if (cli.txt_to_bin) {
     std::cerr << fmt::format("Reading `have i been pawned` text database from {}, "
@@ -156,7 +162,6 @@ void convert(const cli_config_t& cli) {
     } else {
       txt_to_bin<hibp::pawned_pw_sha1>(*input_stream, *output_stream, cli.limit);
     }
-    std::cerr << "Done.\n";
   } else if (cli.bin_to_txt) {
 
     std::cerr << fmt::format("Reading `have i been pawned` binary database from {}, "
@@ -168,8 +173,11 @@ void convert(const cli_config_t& cli) {
     } else {
       bin_to_txt<hibp::pawned_pw_sha1>(cli.input_filename, *output_stream, cli.limit);
     }
-    std::cerr << "Done.\n";
   }
+  // these throw if not everything could be written
+  output_stream->flush();
+  if (!cli.standard_output) ofs.close();
+  std::cerr << "Done.\n";
 }
 
 int main(int argc, char* argv[]) {
-- 
2.43.0


From 18480082ee1697798b7231819bda1dd8014eb52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:06 +0000
Subject: [PATCH 08/29] fix: hibp-topn does not report success when writing
 failed

---
 app/hibp_topn.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/hibp_topn.cpp b/app/hibp_topn.cpp
index fef4656..31930ab 100644
--- a/app/hibp_topn.cpp
+++ b/app/hibp_topn.cpp
@@ -123,6 +123,8 @@ void build_topn(const cli_config_t& cli) {
   for (const auto& pw: memdb) {
     output_db.write(pw);
   }
+  output_db.flush(true); // throws if not everything could be written
+  if (!cli.standard_output) ofs.close();
   std::cout << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
 }
 
-- 
2.43.0


From 8780e320e1b77b00e1532b1cbb097ce215fca44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:31 +0000
Subject: [PATCH 09/29] fix: hibp-topn --stdout writes its progress to standard
 error, not into the database

---
 app/hibp_topn.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/app/hibp_topn.cpp b/app/hibp_topn.cpp
index 31930ab..4fe9b43 100644
--- a/app/hibp_topn.cpp
+++ b/app/hibp_topn.cpp
@@ -90,7 +90,10 @@ void build_topn(const cli_config_t& cli) {
   }
   std::vector<PwType> memdb(cli.topn);
 
-  std::cout << fmt::format("{:50}", "Read db from disk and topN sort by count desc ...");
+  // must not end up in the middle of the binary data
+  std::ostream& progress = cli.standard_output ? std::cerr : std::cout;
+
+  progress << fmt::format("{:50}", "Read db from disk and topN sort by count desc ...");
 
   using clk   = std::chrono::high_resolution_clock;
   using fsecs = std::chrono::duration<double>;
@@ -105,9 +108,9 @@ void build_topn(const cli_config_t& cli) {
                            return a.count > b.count;
                          });
 
-  std::cout << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
+  progress << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
 
-  std::cout << fmt::format("{:50}", "Sort by hash ascending ...");
+  progress << fmt::format("{:50}", "Sort by hash ascending ...");
   start = clk::now();
   // default sort by hash ascending
   std::sort(
@@ -115,17 +118,17 @@ void build_topn(const cli_config_t& cli) {
       std::execution::par_unseq,
 #endif
       memdb.begin(), memdb.end());
-  std::cout << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
+  progress << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
 
   start = clk::now();
-  std::cout << fmt::format("{:50}", "Write TopN db to disk ...");
+  progress << fmt::format("{:50}", "Write TopN db to disk ...");
   auto output_db = flat_file::stream_writer<PwType>(*output_stream);
   for (const auto& pw: memdb) {
     output_db.write(pw);
   }
   output_db.flush(true); // throws if not everything could be written
   if (!cli.standard_output) ofs.close();
-  std::cout << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
+  progress << fmt::format("{:>8.3}\n", duration_cast<fsecs>(clk::now() - start));
 }
 
 int main(int argc, char* argv[]) {
-- 
2.43.0


From 5cf314b7dd1e6c3e0012f36760c7c8dfb90f02e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:12 +0000
Subject: [PATCH 10/29] fix: hibp-search, hibp-diff and hibp-dupes do not
 report success when writing the result failed

---
 app/hibp_diff.cpp   | 2 ++
 app/hibp_dupes.cpp  | 2 ++
 app/hibp_search.cpp | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/app/hibp_diff.cpp b/app/hibp_diff.cpp
index cdf59d9..989e392 100644
--- a/app/hibp_diff.cpp
+++ b/app/hibp_diff.cpp
@@ -4,6 +4,7 @@
 #include <cstdlib>
 #include <exception>
 #include <iostream>
+#include <stdexcept>
 #include <string>
 
 struct cli_config_t {
@@ -38,6 +39,7 @@ int main(int argc, char* argv[]) {
     } else {
       hibp::diffutils::run_diff<hibp::pawned_pw_sha1>(cli.db_file_old, cli.db_file_new, std::cout);
     }
+    if (!std::cout.flush()) throw std::runtime_error("cannot write all of the result");
   } catch (const std::exception& e) {
     std::cerr << "something went wrong: " << e.what() << "\n";
     return EXIT_FAILURE;
diff --git a/app/hibp_dupes.cpp b/app/hibp_dupes.cpp
index 950ba70..312a2fa 100644
--- a/app/hibp_dupes.cpp
+++ b/app/hibp_dupes.cpp
@@ -8,6 +8,7 @@
 #include <fmt/chrono.h> // IWYU pragma: keep
 #include <fmt/format.h>
 #include <iostream>
+#include <stdexcept>
 #include <string>
 // #include <unordered_set>
 
@@ -45,6 +46,7 @@ void run_search(const cli_config_t& cli) {
     }
     last = prefix;
   }
+  if (!std::cout.flush()) throw std::runtime_error("cannot write all of the result");
 }
 
 int main(int argc, char* argv[]) {
diff --git a/app/hibp_search.cpp b/app/hibp_search.cpp
index 39fcf90..f444df4 100644
--- a/app/hibp_search.cpp
+++ b/app/hibp_search.cpp
@@ -103,6 +103,8 @@ void run_search(const cli_config_t& cli) {
     std::cout << "found  = " << *maybe_ppw << "\n";
   else
     std::cout << "not found\n";
+
+  if (!std::cout.flush()) throw std::runtime_error("cannot write the result");
 }
 
 int main(int argc, char* argv[]) {
-- 
2.43.0


From b5d18cdacb0301be82a452b4eaf954e1d2d658cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 11/29] fix: hibp-dupes does not report a first record of all
 ones as a duplicate

---
 app/hibp_dupes.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/hibp_dupes.cpp b/app/hibp_dupes.cpp
index 312a2fa..7786488 100644
--- a/app/hibp_dupes.cpp
+++ b/app/hibp_dupes.cpp
@@ -8,6 +8,7 @@
 #include <fmt/chrono.h> // IWYU pragma: keep
 #include <fmt/format.h>
 #include <iostream>
+#include <optional>
 #include <stdexcept>
 #include <string>
 // #include <unordered_set>
@@ -38,7 +39,7 @@ void run_search(const cli_config_t& cli) {
   flat_file::database<PwType> db(cli.db_filename, (1U << 16U) / sizeof(PwType));
 
   std::cout << fmt::format("Looking for duplicates in the first {} bits of the hash...\n", cli.bits);
-  std::uint64_t last = -1;
+  std::optional<std::uint64_t> last; // none before the first record
   for (auto& pw: db) {
     auto prefix = arrcmp::impl::bytearray_cast<std::uint64_t>(pw.hash.data()) >> (64 - cli.bits);
     if (prefix == last) {
-- 
2.43.0


From e7435597c3ce3c4a9dfa66429af1b146bdbf5f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:09 +0000
Subject: [PATCH 12/29] fix: a failed database read neither leaves stale data
 in the buffer nor fails all later reads

---
 include/flat_file.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index df3a4dc..ef67a37 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -137,6 +137,8 @@ public:
         throw std::runtime_error(
             "flat_file:get_record cannot return data, are you dereferencing db.end()?");
       }
+      buf_start_ = buf_end_ = 0; // should reading fail, then the buffer no longer holds anything
+      db_.clear();               // .. and this must not fail because an earlier read did
       db_.seekg(static_cast<std::streamoff>(pos * sizeof(ValueType)));
 
       db_.read(reinterpret_cast<char*>(buf_.data()), // NOLINT reinterpret_cast
-- 
2.43.0


From 6b342441cec36ba2610df2e94b0bff31710d8471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 13/29] fix: flat_file iterators do not keep pointers into a
 buffer that others refill

---
 include/flat_file.hpp | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index ef67a37..b64efa3 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -185,7 +185,7 @@ struct database<ValueType>::const_iterator {
 
   // clang-format off
   reference operator*() const { return current(); }
-  pointer   operator->() const { current(); return cur_; }
+  pointer   operator->() const { return &current(); }
 
   bool operator==(const const_iterator& other) const { return ffdb_ == other.ffdb_ && pos_ == other.pos_; }
   
@@ -211,22 +211,11 @@ struct database<ValueType>::const_iterator {
 private:
   database*   ffdb_ = nullptr;
   std::size_t pos_{};
-  // cur_ and cur_valid_ are mutable so that operator* can be const
-  mutable const value_type* cur_;
-  mutable bool              cur_valid_ = false;
 
-  void set_pos(std::size_t pos) {
-    pos_       = pos;
-    cur_valid_ = false;
-  }
+  void set_pos(std::size_t pos) { pos_ = pos; }
 
-  reference current() const {
-    if (!cur_valid_) {
-      cur_       = &ffdb_->get_record(pos_);
-      cur_valid_ = true;
-    }
-    return *cur_;
-  }
+  // always asks the db: other iterators may have changed what its buffer holds
+  reference current() const { return ffdb_->get_record(pos_); }
 };
 
 template <typename ValueType, typename Comp = std::less<>, typename Proj = std::identity>
-- 
2.43.0


From 7cac3b50aff4e2118eb2ba17830ece85aae87c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:51 +0000
Subject: [PATCH 14/29] fix: hibp-diff accepts several records inserted at the
 same place

---
 src/diffutils.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/diffutils.cpp b/src/diffutils.cpp
index 4a6c34e..8e8a58e 100644
--- a/src/diffutils.cpp
+++ b/src/diffutils.cpp
@@ -60,9 +60,10 @@ void run_diff(const std::filesystem::path& old_path, const std::filesystem::path
         deep_equals(*std::next(diff_iter_old), *diff_iter_new)) {
       throw std::runtime_error("Deletion from OLD");
     }
-    // fine to dereference std::next(new)
-    if (std::next(diff_iter_new) != db_new.end() &&
-        deep_equals(*diff_iter_old, *std::next(diff_iter_new))) {
+    // more than one record may have been inserted here, so the next one of NEW need not match
+    if (*diff_iter_new < *diff_iter_old ||
+        (std::next(diff_iter_new) != db_new.end() &&
+         deep_equals(*diff_iter_old, *std::next(diff_iter_new)))) {
       const hunk h{hunk_type::insert, static_cast<unsigned>(diff_iter_old - db_old.begin()),
              *diff_iter_new};
       diff << h << '\n';
-- 
2.43.0


From 307643336c2a58078e00a30bec620106d4d9c62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:26 +0000
Subject: [PATCH 15/29] fix: hibp-sort does not divide by zero for an empty
 database or --max-memory 0

---
 include/flat_file.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index b64efa3..df505c9 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -225,7 +225,8 @@ std::vector<std::string> sort_into_chunks(typename database<ValueType>::const_it
                                           std::size_t max_memory_usage = 1'000'000'000) {
 
   auto        records_to_sort = static_cast<std::size_t>(last - first);
-  std::size_t chunk_size      = std::min(records_to_sort, max_memory_usage / sizeof(ValueType));
+  std::size_t chunk_size      = std::max(
+      std::size_t{1}, std::min(records_to_sort, max_memory_usage / sizeof(ValueType)));
   std::size_t number_of_chunks =
       (records_to_sort / chunk_size) + static_cast<std::size_t>(records_to_sort % chunk_size != 0);
 
-- 
2.43.0


From 2adfcaaa594a242b64806732d1281b8be4a5b3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:55 +0000
Subject: [PATCH 16/29] fix: a damaged or half-written table of contents is
 rebuilt instead of used

---
 src/toc.cpp | 43 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/toc.cpp b/src/toc.cpp
index d7d5b2b..d95d4d8 100644
--- a/src/toc.cpp
+++ b/src/toc.cpp
@@ -11,12 +11,14 @@
 #include <fmt/format.h>
 #include <fmt/std.h>  // IWYU pragma: keep
 #include <fstream>
+#include <functional>
 #include <iostream>
 #include <limits>
 #include <optional>
 #include <ostream>
 #include <stdexcept>
 #include <string>
+#include <system_error>
 #include <vector>
 
 namespace hibp {
@@ -63,6 +65,7 @@ void build(const std::filesystem::path& db_path, unsigned bits) {
                            toc_entry_size);
   std::cout << fmt::format("{:30s} {:15.0f} per query\n", "Max disk reads with ToC",
                            std::ceil(std::log2(toc_entry_size)));
+  toc<PwType>.clear();
   toc<PwType>.reserve(toc_entries);
 
   toc_entry last_pos = 0;
@@ -86,22 +89,48 @@ void build(const std::filesystem::path& db_path, unsigned bits) {
   std::cout << "\n";
 }
 
+// readers only ever see a complete file: write elsewhere first and then rename
 template <pw_type PwType>
 void save(const std::filesystem::path& toc_filename) {
   std::cout << fmt::format("saving table of contents: {}\n", toc_filename);
-  auto toc_stream = std::ofstream(toc_filename, std::ios_base::binary);
+  auto tmp_filename = toc_filename;
+  tmp_filename += ".tmp";
+  auto toc_stream = std::ofstream(tmp_filename, std::ios_base::binary);
   toc_stream.write(reinterpret_cast<char*>(toc<PwType>.data()), // NOLINT reincast
                    static_cast<std::streamsize>(sizeof(toc_entry) * toc<PwType>.size()));
+  toc_stream.close();
+
+  std::error_code ec;
+  if (toc_stream) {
+    std::filesystem::rename(tmp_filename, toc_filename, ec);
+  }
+  if (!toc_stream || ec) { // not fatal, it will be rebuilt next time
+    std::cerr << fmt::format("Warning: could not save table of contents: {}\n", toc_filename);
+    std::filesystem::remove(tmp_filename, ec);
+  }
 }
 
+// returns false if the file cannot be read or cannot be a complete toc of this db
 template <pw_type PwType>
-void load(const std::filesystem::path& toc_filename) {
+bool load(const std::filesystem::path& db_path, const std::filesystem::path& toc_filename,
+          unsigned bits) {
   std::cout << fmt::format("loading table of contents: {}\n", toc_filename);
+
+  flat_file::database<PwType> db(db_path);
+  const std::size_t           toc_entries =
+      std::min(std::size_t{1} << bits, std::size_t{pw_to_prefix(db.back(), bits)} + 1);
+
   const auto toc_file_size = std::filesystem::file_size(toc_filename);
-  auto       toc_stream    = std::ifstream(toc_filename, std::ios_base::binary);
-  toc<PwType>              = std::vector<toc_entry>(toc_file_size / sizeof(toc_entry));
+  if (toc_file_size != toc_entries * sizeof(toc_entry)) return false;
+
+  auto toc_stream = std::ifstream(toc_filename, std::ios_base::binary);
+  toc<PwType>     = std::vector<toc_entry>(toc_entries);
   toc_stream.read(reinterpret_cast<char*>(toc<PwType>.data()), // NOLINT reincast
                   static_cast<std::streamsize>(toc_file_size));
+
+  // positions of the first record of each prefix, of which there is always at least one
+  return toc_stream && toc<PwType>.back() < db.number_records() &&
+         std::is_sorted(toc<PwType>.begin(), toc<PwType>.end(), std::less_equal{});
 }
 
 template <pw_type PwType>
@@ -140,8 +169,10 @@ void toc_build(const std::filesystem::path& db_filename, unsigned bits) {
 
     details::build<PwType>(db_filename, bits);
     details::save<PwType>(toc_filename);
-  } else {
-    details::load<PwType>(toc_filename);
+  } else if (!details::load<PwType>(db_filename, toc_filename, bits)) {
+    std::cerr << fmt::format("Warning: rebuilding bad table of contents: {}\n", toc_filename);
+    details::build<PwType>(db_filename, bits);
+    details::save<PwType>(toc_filename);
   }
 }
 
-- 
2.43.0


From 161192110fe4ff54c9a0801608a9217216793f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:50 +0000
Subject: [PATCH 17/29] fix: hibp-convert --bin-to-txt honours --limit 0

---
 app/hibp_convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/hibp_convert.cpp b/app/hibp_convert.cpp
index e1f40ec..fe7cdca 100644
--- a/app/hibp_convert.cpp
+++ b/app/hibp_convert.cpp
@@ -102,9 +102,9 @@ void bin_to_txt(const std::string& input_filename, std::ostream& output_stream,
 
   std::size_t count = 0;
   for (const auto& record: db) {
+    if (count == limit) break;
     output_stream << record << '\n';
     count++;
-    if (count == limit) break;
   }
 }
 
-- 
2.43.0


From 4c5f5048b98236d632cc018ebd7a2d15d3e34b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:15 +0000
Subject: [PATCH 18/29] fix: hibp-topn checks its input before it truncates the
 output with --force

---
 app/hibp_topn.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/app/hibp_topn.cpp b/app/hibp_topn.cpp
index 4fe9b43..05a7339 100644
--- a/app/hibp_topn.cpp
+++ b/app/hibp_topn.cpp
@@ -72,6 +72,13 @@ std::ofstream get_output_stream(const std::string& output_filename, bool force)
 
 template <hibp::pw_type PwType>
 void build_topn(const cli_config_t& cli) {
+  flat_file::database<PwType> input_db(cli.input_filename, (1U << 16U) / sizeof(PwType));
+
+  if (input_db.number_records() <= cli.topn) {
+    throw std::runtime_error(
+        fmt::format("size of input db ({}) <= topn ({}). Output would be identical. Aborting.",
+                    input_db.number_records(), cli.topn));
+  }
   std::ostream* output_stream      = &std::cout;
   std::string   output_stream_name = "standard_output";
   std::ofstream ofs;
@@ -80,14 +87,6 @@ void build_topn(const cli_config_t& cli) {
     output_stream      = &ofs;
     output_stream_name = cli.output_filename;
   }
-
-  flat_file::database<PwType> input_db(cli.input_filename, (1U << 16U) / sizeof(PwType));
-
-  if (input_db.number_records() <= cli.topn) {
-    throw std::runtime_error(
-        fmt::format("size of input db ({}) <= topn ({}). Output would be identical. Aborting.",
-                    input_db.number_records(), cli.topn));
-  }
   std::vector<PwType> memdb(cli.topn);
 
   // must not end up in the middle of the binary data
-- 
2.43.0


From fd34efa824c83df0369672752336ccf2394a1944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:41 +0000
Subject: [PATCH 19/29] fix: hibp-sort names its files after the database,
 without quotes, also with fmt 9

---
 include/flat_file.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index df505c9..c26ce60 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -238,7 +238,7 @@ std::vector<std::string> sort_into_chunks(typename database<ValueType>::const_it
   std::vector<std::string> chunk_filenames;
   chunk_filenames.reserve(number_of_chunks);
   for (std::size_t chunk = 0; chunk != number_of_chunks; ++chunk) {
-    std::string chunk_filename = fmt::format("{}.partial.{:04d}", first.filename(), chunk);
+    std::string chunk_filename = fmt::format("{}.partial.{:04d}", first.filename().string(), chunk);
     chunk_filenames.push_back(chunk_filename);
 
     std::size_t start = chunk * chunk_size;
@@ -325,7 +325,7 @@ std::string disksort_range(typename database<ValueType>::const_iterator first,
   std::vector<std::string> chunk_filenames =
       sort_into_chunks<ValueType>(first, last, comp, proj, max_memory_usage);
 
-  std::string sorted_filename = fmt::format("{}.sorted", first.filename());
+  std::string sorted_filename = fmt::format("{}.sorted", first.filename().string());
 
   if (chunk_filenames.size() == 1) {
     std::filesystem::rename(chunk_filenames[0], sorted_filename);
-- 
2.43.0


From 80ed7cdcd748089c2ffa06329c2eef4a36f71140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:05 +0000
Subject: [PATCH 20/29] fix: hibp-topn and hibp-convert do not abort while they
 report a failed standard output

---
 app/hibp_convert.cpp | 2 ++
 app/hibp_topn.cpp    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/app/hibp_convert.cpp b/app/hibp_convert.cpp
index fe7cdca..44b64a7 100644
--- a/app/hibp_convert.cpp
+++ b/app/hibp_convert.cpp
@@ -193,6 +193,8 @@ int main(int argc, char* argv[]) {
     convert(cli);
 
   } catch (const std::exception& e) {
+    // std::cerr flushes std::cout first, which must not throw again
+    std::cout.exceptions(std::ios_base::goodbit);
     std::cerr << fmt::format("Error: {}\n", e.what());
     return EXIT_FAILURE;
   }
diff --git a/app/hibp_topn.cpp b/app/hibp_topn.cpp
index 05a7339..18d1c8d 100644
--- a/app/hibp_topn.cpp
+++ b/app/hibp_topn.cpp
@@ -158,6 +158,8 @@ int main(int argc, char* argv[]) {
     }
 
   } catch (const std::exception& e) {
+    // std::cerr flushes std::cout first, which must not throw again
+    std::cout.exceptions(std::ios_base::goodbit);
     std::cerr << fmt::format("Error: {}\n", e.what());
     return EXIT_FAILURE;
   }
-- 
2.43.0


From 1e0f8e1c05386e6fec1bb56c1f59341f34d25401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:09 +0000
Subject: [PATCH 21/29] fix: hibp-server refuses very long urls, which crashed
 it

---
 src/srv/server.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/srv/server.cpp b/src/srv/server.cpp
index 41e932b..54ac100 100644
--- a/src/srv/server.cpp
+++ b/src/srv/server.cpp
@@ -191,6 +191,9 @@ void run_server() {
   auto settings = restinio::on_thread_pool<my_server_traits>(cli.threads)
                       .address(cli.bind_address)
                       .port(cli.port)
+                      // routing uses std::regex, which overflows the stack on very long urls
+                      .incoming_http_msg_limits(
+                          restinio::incoming_http_msg_limits_t{}.max_url_size(8192))
                       .request_handler(get_router(cli.sha1_db_filename, cli.ntlm_db_filename,
                                                   cli.sha1t64_db_filename));
 
-- 
2.43.0


From 486c1d7656d2afd10340d9d5a6d35f145c9f85df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:11 +0000
Subject: [PATCH 22/29] fix: hibp-server does not lose pipelined requests

---
 src/srv/server.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/srv/server.cpp b/src/srv/server.cpp
index 54ac100..874d6ad 100644
--- a/src/srv/server.cpp
+++ b/src/srv/server.cpp
@@ -191,6 +191,9 @@ void run_server() {
   auto settings = restinio::on_thread_pool<my_server_traits>(cli.threads)
                       .address(cli.bind_address)
                       .port(cli.port)
+                      // with a single slot restinio restarts the parser twice per response, and
+                      // loses or closes on requests which arrive before the previous response
+                      .max_pipelined_requests(16)
                       // routing uses std::regex, which overflows the stack on very long urls
                       .incoming_http_msg_limits(
                           restinio::incoming_http_msg_limits_t{}.max_url_size(8192))
-- 
2.43.0


From b9ef9022aa0e3e0c41a62f7a4f8636d457f8ab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:35 +0000
Subject: [PATCH 23/29] fix: running out of memory while writing a range is an
 error, not the end of its data

---
 src/dnl/queuemgt.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dnl/queuemgt.cpp b/src/dnl/queuemgt.cpp
index 9e5298d..de8ef11 100644
--- a/src/dnl/queuemgt.cpp
+++ b/src/dnl/queuemgt.cpp
@@ -103,6 +103,7 @@ std::size_t write_lines(write_fn_t& write_fn, download& dl) {
   // "embarrassing" copy onto std:string until C++26 P2495R3 Interfacing stringstreams with
   // string_view
   std::stringstream ss(std::string(dl.buffer.data(), dl.buffer.size()));
+  ss.exceptions(std::ios::badbit); // running out of memory is not the end of the data
 
   auto recordcount = 0UL;
 
-- 
2.43.0


From db0d75fb3d397fc77ec54df5b40c3394775551e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:52 +0000
Subject: [PATCH 24/29] fix: hibp-download hung or crashed when libcurl or
 libevent ran out of memory: check what they return

---
 src/dnl/requests.cpp | 60 +++++++++++++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 20 deletions(-)

diff --git a/src/dnl/requests.cpp b/src/dnl/requests.cpp
index 9c4c573..0c84555 100644
--- a/src/dnl/requests.cpp
+++ b/src/dnl/requests.cpp
@@ -54,14 +54,27 @@ struct curl_context_t {
 
 void curl_perform_event_cb(evutil_socket_t fd, short event, void* arg);
 
+// what libcurl and libevent could not do, e.g. for lack of memory, will never happen
+void check(CURLMcode code) {
+  if (code != CURLM_OK) {
+    throw std::runtime_error(fmt::format("libcurl: {}", curl_multi_strerror(code)));
+  }
+}
+
+template <typename T>
+T* check(T* ptr) {
+  if (ptr == nullptr) throw std::bad_alloc();
+  return ptr;
+}
+
 curl_context_t* create_curl_context(curl_socket_t sockfd) {
-  auto* context = new curl_context_t; // NOLINT manual new and delete
+  auto context = std::make_unique<curl_context_t>();
 
   context->sockfd = sockfd;
-  context->event =
-      event_new(ebase, static_cast<evutil_socket_t>(sockfd), 0, curl_perform_event_cb, context);
+  context->event  = check(event_new(ebase, static_cast<evutil_socket_t>(sockfd), 0,
+                                    curl_perform_event_cb, context.get()));
 
-  return context;
+  return context.release();
 }
 
 void destroy_curl_context(curl_context_t* context) {
@@ -82,7 +95,7 @@ void add_download(std::size_t index) {
   auto&             dl        = dl_iter->second;
   const std::string chunk_url = hibp::url(dl->prefix, cli.ntlm, testing);
 
-  CURL* easy = curl_easy_init();
+  CURL* easy = check(curl_easy_init());
   curl_easy_setopt(easy, CURLOPT_PIPEWAIT, 1L); // wait for multiplexing! key for perf
   curl_easy_setopt(easy, CURLOPT_WRITEFUNCTION, write_data_curl_cb);
   curl_easy_setopt(easy, CURLOPT_WRITEDATA, dl.get());
@@ -91,8 +104,8 @@ void add_download(std::size_t index) {
   // abort if slower than 1000 bytes/sec for 5 seconds
   curl_easy_setopt(easy, CURLOPT_LOW_SPEED_TIME, 5L);
   curl_easy_setopt(easy, CURLOPT_LOW_SPEED_LIMIT, 1000L);
-  curl_multi_add_handle(curl_multi_handle, easy);
   dl->easy = easy;
+  check(curl_multi_add_handle(curl_multi_handle, easy));
 }
 
 void fill_download_queue() {
@@ -137,7 +150,7 @@ void process_curl_done_msg(CURLMsg* message, enq_msg_t& msg) {
 
   // do not wait for a connection to become multiplexable: it may be the one that just failed
   curl_easy_setopt(easy_handle, CURLOPT_PIPEWAIT, 0L);
-  curl_multi_add_handle(curl_multi_handle, easy_handle); // try again with same handle
+  check(curl_multi_add_handle(curl_multi_handle, easy_handle)); // try again with same handle
 }
 
 void process_curl_messages() {
@@ -178,23 +191,27 @@ void curl_perform_event_cb(evutil_socket_t /*fd*/, short event, void* arg) {
 
   auto* context = static_cast<curl_context_t*>(arg);
 
-  curl_multi_socket_action(curl_multi_handle, context->sockfd, flags, &running_handles);
+  check(curl_multi_socket_action(curl_multi_handle, context->sockfd, flags, &running_handles));
 
   process_curl_messages();
 }
 
 void timeout_event_cb(evutil_socket_t /*fd*/, short /*events*/, void* /*arg*/) {
   int running_handles = 0;
-  curl_multi_socket_action(curl_multi_handle, CURL_SOCKET_TIMEOUT, 0, &running_handles);
+  check(curl_multi_socket_action(curl_multi_handle, CURL_SOCKET_TIMEOUT, 0, &running_handles));
   process_curl_messages();
 }
 
-// CURL callbacks
+// CURL callbacks, through which no exceptions may pass
 
 std::size_t write_data_curl_cb(char* ptr, std::size_t size, std::size_t nmemb, void* userdata) {
   auto* dl       = static_cast<download*>(userdata);
   auto  realsize = size * nmemb;
-  std::copy(ptr, ptr + realsize, std::back_inserter(dl->buffer));
+  try {
+    std::copy(ptr, ptr + realsize, std::back_inserter(dl->buffer));
+  } catch (const std::bad_alloc&) {
+    return 0; // not realsize: a write error
+  }
 
   return realsize;
 }
@@ -209,7 +226,7 @@ int start_timeout_curl_cb(CURLM* /*multi*/, long timeout_ms, void* /*userp*/) {
     tv.tv_usec = (timeout_ms % 1000) * 1000;
 
     evtimer_del(timeout);
-    evtimer_add(timeout, &tv);
+    return evtimer_add(timeout, &tv);
   }
   return 0;
 }
@@ -223,8 +240,12 @@ int handle_socket_curl_cb(CURL* /*easy*/, curl_socket_t s, int action, void* /*u
   case CURL_POLL_IN:
   case CURL_POLL_OUT:
   case CURL_POLL_INOUT:
-    curl_context =
-        (socketp != nullptr) ? static_cast<curl_context_t*>(socketp) : create_curl_context(s);
+    try {
+      curl_context =
+          (socketp != nullptr) ? static_cast<curl_context_t*>(socketp) : create_curl_context(s);
+    } catch (const std::bad_alloc&) {
+      return -1;
+    }
 
     curl_multi_assign(curl_multi_handle, s, curl_context);
 
@@ -236,9 +257,8 @@ int handle_socket_curl_cb(CURL* /*easy*/, curl_socket_t s, int action, void* /*u
     event_del(curl_context->event);
     event_assign(curl_context->event, ebase, static_cast<evutil_socket_t>(curl_context->sockfd),
                  events, curl_perform_event_cb, curl_context);
-    event_add(curl_context->event, nullptr);
+    return event_add(curl_context->event, nullptr);
 
-    break;
   case CURL_POLL_REMOVE:
     if (socketp != nullptr) {
       curl_context = static_cast<curl_context_t*>(socketp);
@@ -256,7 +276,7 @@ int handle_socket_curl_cb(CURL* /*easy*/, curl_socket_t s, int action, void* /*u
 } // namespace req
 
 std::string curl_sync_get(const std::string& url) {
-  CURL* curl = curl_easy_init();
+  CURL* curl = req::check(curl_easy_init());
   curl_easy_setopt(curl, CURLOPT_URL, url.c_str());
 
   // can't put inliue as setopt is a macro which fails
@@ -292,10 +312,10 @@ void init_curl_and_events() {
     throw std::runtime_error("Error: Could not init curl\n");
   }
 
-  req::ebase   = event_base_new();
-  req::timeout = evtimer_new(req::ebase, req::timeout_event_cb, nullptr);
+  req::ebase   = req::check(event_base_new());
+  req::timeout = req::check(evtimer_new(req::ebase, req::timeout_event_cb, nullptr));
 
-  req::curl_multi_handle = curl_multi_init();
+  req::curl_multi_handle = req::check(curl_multi_init());
   curl_multi_setopt(req::curl_multi_handle, CURLMOPT_PIPELINING, CURLPIPE_MULTIPLEX);
   curl_multi_setopt(req::curl_multi_handle, CURLMOPT_SOCKETFUNCTION, req::handle_socket_curl_cb);
   curl_multi_setopt(req::curl_multi_handle, CURLMOPT_TIMERFUNCTION, req::start_timeout_curl_cb);
-- 
2.43.0


From 2671dc72ac3f40dc1b739c2a2108cfc78bc9097c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:20 +0000
Subject: [PATCH 25/29] fix: a table of contents is outdated when its database
 was replaced while it was built

---
 src/toc.cpp | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/toc.cpp b/src/toc.cpp
index d95d4d8..fc995f1 100644
--- a/src/toc.cpp
+++ b/src/toc.cpp
@@ -89,12 +89,20 @@ void build(const std::filesystem::path& db_path, unsigned bits) {
   std::cout << "\n";
 }
 
+// as the file system dates files, which is coarser than the system clock
+std::filesystem::file_time_type filesystem_now(const std::filesystem::path& tmp_filename) {
+  std::error_code ec;
+  std::ofstream{tmp_filename, std::ios_base::binary}.close();
+  const auto now = std::filesystem::last_write_time(tmp_filename, ec); // min() if it failed
+  std::filesystem::remove(tmp_filename, ec);
+  return now;
+}
+
 // readers only ever see a complete file: write elsewhere first and then rename
 template <pw_type PwType>
-void save(const std::filesystem::path& toc_filename) {
+void save(const std::filesystem::path& toc_filename, const std::filesystem::path& tmp_filename,
+          std::filesystem::file_time_type build_started) {
   std::cout << fmt::format("saving table of contents: {}\n", toc_filename);
-  auto tmp_filename = toc_filename;
-  tmp_filename += ".tmp";
   auto toc_stream = std::ofstream(tmp_filename, std::ios_base::binary);
   toc_stream.write(reinterpret_cast<char*>(toc<PwType>.data()), // NOLINT reincast
                    static_cast<std::streamsize>(sizeof(toc_entry) * toc<PwType>.size()));
@@ -102,6 +110,9 @@ void save(const std::filesystem::path& toc_filename) {
 
   std::error_code ec;
   if (toc_stream) {
+    std::filesystem::last_write_time(tmp_filename, build_started, ec);
+  }
+  if (toc_stream && !ec) {
     std::filesystem::rename(tmp_filename, toc_filename, ec);
   }
   if (!toc_stream || ec) { // not fatal, it will be rebuilt next time
@@ -110,6 +121,17 @@ void save(const std::filesystem::path& toc_filename) {
   }
 }
 
+// the toc is dated from before the db was read: a db which was replaced meanwhile is newer
+template <pw_type PwType>
+void build_and_save(const std::filesystem::path& db_path,
+                    const std::filesystem::path& toc_filename, unsigned bits) {
+  auto tmp_filename = toc_filename;
+  tmp_filename += ".tmp";
+  const auto build_started = filesystem_now(tmp_filename);
+  build<PwType>(db_path, bits);
+  save<PwType>(toc_filename, tmp_filename, build_started);
+}
+
 // returns false if the file cannot be read or cannot be a complete toc of this db
 template <pw_type PwType>
 bool load(const std::filesystem::path& db_path, const std::filesystem::path& toc_filename,
@@ -167,12 +189,10 @@ void toc_build(const std::filesystem::path& db_filename, unsigned bits) {
   if (!std::filesystem::exists(toc_filename) || (std::filesystem::last_write_time(toc_filename) <=
                                                  std::filesystem::last_write_time(db_filename))) {
 
-    details::build<PwType>(db_filename, bits);
-    details::save<PwType>(toc_filename);
+    details::build_and_save<PwType>(db_filename, toc_filename, bits);
   } else if (!details::load<PwType>(db_filename, toc_filename, bits)) {
     std::cerr << fmt::format("Warning: rebuilding bad table of contents: {}\n", toc_filename);
-    details::build<PwType>(db_filename, bits);
-    details::save<PwType>(toc_filename);
+    details::build_and_save<PwType>(db_filename, toc_filename, bits);
   }
 }
 
-- 
2.43.0


From 9bc24a24557907e22cf48c6240e12671e4d936e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:55 +0000
Subject: [PATCH 26/29] fix: a table of contents of a replaced database made
 passwords be reported as not found

---
 src/toc.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/toc.cpp b/src/toc.cpp
index fc995f1..c9ca15d 100644
--- a/src/toc.cpp
+++ b/src/toc.cpp
@@ -13,6 +13,7 @@
 #include <fstream>
 #include <functional>
 #include <iostream>
+#include <iterator>
 #include <limits>
 #include <optional>
 #include <ostream>
@@ -159,19 +160,28 @@ template <pw_type PwType>
 std::optional<PwType> search(flat_file::database<PwType>& db, const PwType& needle, unsigned bits) {
   const std::uint32_t pw_prefix = pw_to_prefix(needle, bits);
 
-  if (pw_prefix >= toc<PwType>.size()) {
-    return {}; // must be partial db & toc, and therefore "not found"
-  }
-
-  const std::size_t begin_offset = toc<PwType>[pw_prefix];
+  const std::size_t begin_offset = // must be partial db & toc, if it has no such prefix
+      pw_prefix < toc<PwType>.size() ? toc<PwType>[pw_prefix] : db.number_records();
   const std::size_t end_offset =
       pw_prefix + 1 < toc<PwType>.size() ? toc<PwType>[pw_prefix + 1] : db.number_records();
 
-  if (auto iter = std::lower_bound(db.begin() + begin_offset, db.begin() + end_offset, needle);
+  if (begin_offset <= end_offset && end_offset <= db.number_records()) {
+    auto iter = std::lower_bound(db.begin() + begin_offset, db.begin() + end_offset, needle);
+    if (iter != db.end() && *iter == needle) {
+      return *iter; // found!
+    }
+    if ((iter == db.begin() || *std::prev(iter) < needle) &&
+        (iter == db.end() || needle < *iter)) {
+      return {}; // not found;
+    }
+  }
+
+  // this is the toc of another db, if the file was replaced meanwhile: do without
+  if (auto iter = std::lower_bound(db.begin(), db.end(), needle);
       iter != db.end() && *iter == needle) {
-    return *iter; // found!
+    return *iter;
   }
-  return {}; // not found;
+  return {};
 }
 
 } // namespace details
-- 
2.43.0


From 28a2945ee5f7e5ad43167cb6455d3996bc6b7c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:10 +0000
Subject: [PATCH 27/29] fix: size of a database was taken from another file, if
 it was replaced while being opened

---
 include/flat_file.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/flat_file.hpp b/include/flat_file.hpp
index c26ce60..3af167d 100644
--- a/include/flat_file.hpp
+++ b/include/flat_file.hpp
@@ -115,16 +115,19 @@ public:
 
     static_assert(std::is_move_assignable_v<database>); // but that invalidates iterators!
 
-    if (dbfsize_ % sizeof(ValueType) != 0)
-      throw std::ios::failure("db file size is not a multiple of the record size");
-
-    dbsize_ = dbfsize_ / sizeof(ValueType);
-
     if (!db_.is_open())
       throw std::ios::failure(fmt::format("cannot open db: {}, because '{}'", filename_,
                                           std::strerror(errno))); // NOLINT errno
 
     db_.exceptions(std::ios::badbit | std::ios::failbit); // throw on any future errors
+
+    // of the file which was opened, rather than the one it may have replaced just before
+    dbfsize_ = static_cast<std::size_t>(db_.seekg(0, std::ios::end).tellg());
+
+    if (dbfsize_ % sizeof(ValueType) != 0)
+      throw std::ios::failure("db file size is not a multiple of the record size");
+
+    dbsize_ = dbfsize_ / sizeof(ValueType);
   }
 
   using value_type = ValueType;
-- 
2.43.0


From 47b33cee997a75f1b692448934c2e59966222013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:48 +0000
Subject: [PATCH 28/29] fix: hibp-server took percent-encoded passwords
 literally, and answered that they are not in the database

---
 src/srv/server.cpp | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/srv/server.cpp b/src/srv/server.cpp
index 874d6ad..3842159 100644
--- a/src/srv/server.cpp
+++ b/src/srv/server.cpp
@@ -5,6 +5,9 @@
 #include "toc.hpp"
 #include <algorithm>
 #include <atomic>
+#include <charconv>
+#include <cstddef>
+#include <cstdint>
 #include <cstdlib>
 #include <exception>
 #include <fmt/format.h>
@@ -17,6 +20,7 @@
 #include <restinio/traits.hpp>
 #include <sha1.h>
 #include <string>
+#include <string_view>
 #include <type_traits>
 #include <utility>
 
@@ -60,9 +64,27 @@ auto fail_missing_db_for_format(auto req, const std::string& option, const std::
   return bad_request("You need to pass " + option + " for a " + endpoint + " request.", req);
 }
 
+// other than plain ascii letters and digits mostly arrive percent-encoded
+std::string percent_decode(std::string_view encoded) {
+  std::string decoded;
+  for (std::size_t i = 0; i != encoded.size(); ++i) {
+    if (std::uint8_t c{}; encoded[i] == '%' && encoded.size() - i > 2 &&
+                          std::from_chars(&encoded[i + 1], &encoded[i + 1] + 2, c, 16).ptr ==
+                              &encoded[i + 1] + 2) {
+      decoded += static_cast<char>(c);
+      i += 2;
+    } else {
+      decoded += encoded[i]; // including any '%' which does not introduce 2 hex digits
+    }
+  }
+  return decoded;
+}
+
 template <pw_type PwType>
 auto handle_plain_search(flat_file::database<PwType>& sha1_db, std::string plain_password,
                          auto req) {
+  plain_password = percent_decode(plain_password);
+
   // for performance testing, optionally make uniq_pw across threads
   static std::atomic<int> uniq{};
   if (cli.perf_test) {
-- 
2.43.0


From 6566857536a58a7f353e2057ddcfc60c4b95c2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:01 +0000
Subject: [PATCH 29/29] fix: --resume of a sha1t64 download repeated a record,
 if truncated hashes of a range were equal

---
 src/dnl/resume.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/dnl/resume.cpp b/src/dnl/resume.cpp
index c615134..c46e812 100644
--- a/src/dnl/resume.cpp
+++ b/src/dnl/resume.cpp
@@ -48,7 +48,10 @@ std::size_t get_last_prefix(const std::string& filename, bool testing) {
   auto last_file_hash =
       filebody.substr(pos_colon - PwType::suffix_str_size, PwType::suffix_str_size);
 
-  if (last_file_hash == suffix) {
+  // hashes, which were truncated to 64 bits, may not be unique, so cannot tell
+  constexpr bool truncated = PwType::hash_size < pawned_pw_ntlm::hash_size;
+
+  if (!truncated && last_file_hash == suffix) {
     std::size_t last_prefix{};
     std::from_chars(prefix.c_str(), prefix.c_str() + prefix.length(), last_prefix, 16);
 
@@ -71,6 +74,9 @@ std::size_t get_last_prefix(const std::string& filename, bool testing) {
         "Not found at all, sorry you will need to start afresh without `--resume`.\n");
   }
 
+  // truncated hashes may be equal: go to the first one
+  while (std::next(found_iter) != rend && *std::next(found_iter) == needle) ++found_iter;
+
   auto trimmed_file_size = static_cast<std::size_t>(rend - found_iter - 1) * sizeof(PwType);
   std::cerr << fmt::format("found: trimming file to {}.\n", trimmed_file_size);
 
-- 
2.43.0

