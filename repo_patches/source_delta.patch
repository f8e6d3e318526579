From 7c7f290b3534d6fbff09db96572b85b10d236a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:26 +0000
Subject: [PATCH 01/29] fix: don't skip past the character following an escape
 when pruning quoted literals

---
 src/prune_symbol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prune_symbol.cpp b/src/prune_symbol.cpp
index fc54cf0..dab68e4 100644
--- a/src/prune_symbol.cpp
+++ b/src/prune_symbol.cpp
@@ -246,7 +246,7 @@ namespace detail {
                         if(cursor + 1 == source.end()) {
                             return parse_error{};
                         }
-                        cursor += 2;
+                        cursor++; // skip the escaped character too
                     }
                     cursor++;
                 }
-- 
2.43.0


From cf2a7bdef37b4ea97859a303416aa5c3955b1372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:18 +0000
Subject: [PATCH 02/29] fix: format INT64_MIN without signed overflow

---
 src/utils/microfmt.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/microfmt.hpp b/src/utils/microfmt.hpp
index 9dc3edf..9502360 100644
--- a/src/utils/microfmt.hpp
+++ b/src/utils/microfmt.hpp
@@ -163,12 +163,12 @@ namespace microfmt {
                     case value_type::int64_value:
                         {
                             std::string str;
-                            std::int64_t val = int64_value;
-                            if(val < 0) {
+                            std::uint64_t val = static_cast<std::uint64_t>(int64_value);
+                            if(int64_value < 0) {
                                 str += '-';
-                                val *= -1;
+                                val = 0 - val; // unsigned negation, INT64_MIN has no positive counterpart
                             }
-                            str += to_string(static_cast<std::uint64_t>(val), options);
+                            str += to_string(val, options);
                             do_write(out, str.begin(), str.end(), options);
                         }
                         break;
-- 
2.43.0


From c6cc2e0936b41b26c5223f98883eb5ba4564963b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:16 +0000
Subject: [PATCH 03/29] fix: trim of an all-whitespace string

---
 src/utils/utils.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utils/utils.hpp b/src/utils/utils.hpp
index d255940..7ef2077 100644
--- a/src/utils/utils.hpp
+++ b/src/utils/utils.hpp
@@ -80,6 +80,9 @@ namespace detail {
             return "";
         }
         const std::size_t left = str.find_first_not_of(whitespace);
+        if(left == std::string::npos) {
+            return "";
+        }
         const std::size_t right = str.find_last_not_of(whitespace) + 1;
         return str.substr(left, right - left);
     }
-- 
2.43.0


From 022abb33ba64bed45d63be5546a19ab02bf6db65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:15 +0000
Subject: [PATCH 04/29] fix: make lazy_trace_holder assignment safe for
 self-assignment and failing copies

---
 src/exceptions.cpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/exceptions.cpp b/src/exceptions.cpp
index 4009c64..7c63cb1 100644
--- a/src/exceptions.cpp
+++ b/src/exceptions.cpp
@@ -32,22 +32,21 @@ CPPTRACE_BEGIN_NAMESPACE
             }
         }
         lazy_trace_holder& lazy_trace_holder::operator=(const lazy_trace_holder& other) {
-            clear();
-            resolved = other.resolved;
-            if(other.resolved) {
-                new (&resolved_trace) stacktrace(other.resolved_trace);
-            } else {
-                new (&trace) raw_trace(other.trace);
+            if(this != &other) {
+                // copy first: the copy may throw and must leave *this intact
+                *this = lazy_trace_holder(other);
             }
             return *this;
         }
         lazy_trace_holder& lazy_trace_holder::operator=(lazy_trace_holder&& other) noexcept {
-            clear();
-            resolved = other.resolved;
-            if(other.resolved) {
-                new (&resolved_trace) stacktrace(std::move(other.resolved_trace));
-            } else {
-                new (&trace) raw_trace(std::move(other.trace));
+            if(this != &other) {
+                clear();
+                resolved = other.resolved;
+                if(other.resolved) {
+                    new (&resolved_trace) stacktrace(std::move(other.resolved_trace));
+                } else {
+                    new (&trace) raw_trace(std::move(other.trace));
+                }
             }
             return *this;
         }
-- 
2.43.0


From bbe412e098269531e00f9088586a040a9bf61e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:53 +0000
Subject: [PATCH 05/29] fix: check that a mapping covers the page and see
 mappings made after the first lookup

get_page_protections returned the protections of the preceding region for pages
in no region, including pages of libraries loaded after the map was first read.
---
 src/platform/memory_mapping.cpp | 40 ++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/src/platform/memory_mapping.cpp b/src/platform/memory_mapping.cpp
index e0b092a..eeda810 100644
--- a/src/platform/memory_mapping.cpp
+++ b/src/platform/memory_mapping.cpp
@@ -208,35 +208,39 @@ namespace detail {
         throw internal_error("Couldn't successfully load /proc/self/maps after {} retries", n);
     }
 
-    const std::vector<address_range>& load_mapped_region_info() {
-        static std::vector<address_range> regions;
-        static bool has_loaded = false;
-        if(!has_loaded) {
-            has_loaded = true;
-            if(auto info = try_load_mapped_region_info_with_retries(2)) {
-                regions = std::move(info).unwrap();
+    // finds the region containing an address, nullopt if there's none
+    optional<address_range> find_region(const std::vector<address_range>& regions, uintptr_t address) {
+        auto it = first_less_than_or_equal(
+            regions.begin(),
+            regions.end(),
+            address,
+            [](uintptr_t a, const address_range& b) {
+                return a < b.low;
             }
+        );
+        if(it == regions.end() || address >= it->high) {
+            return nullopt;
         }
-        return regions;
+        return *it;
     }
 
     int get_page_protections(void* page) {
-        const auto& mapped_region_info = load_mapped_region_info();
-        auto it = first_less_than_or_equal(
-            mapped_region_info.begin(),
-            mapped_region_info.end(),
-            reinterpret_cast<uintptr_t>(page),
-            [](uintptr_t a, const address_range& b) {
-                return a < b.low;
+        static std::vector<address_range> regions;
+        auto region = find_region(regions, reinterpret_cast<uintptr_t>(page));
+        if(!region) {
+            // (Re)load: The first lookup, or the page may have been mapped since (e.g. by dlopen)
+            if(auto info = try_load_mapped_region_info_with_retries(2)) {
+                regions = std::move(info).unwrap();
             }
-        );
-        if(it == mapped_region_info.end()) {
+            region = find_region(regions, reinterpret_cast<uintptr_t>(page));
+        }
+        if(!region) {
             throw internal_error(
                 "Failed to find mapping for {>16:0h} in /proc/self/maps",
                 reinterpret_cast<uintptr_t>(page)
             );
         }
-        return it->perms;
+        return region.unwrap().perms;
     }
     #endif
     void mprotect_page(void* page, int page_size, int protections) {
-- 
2.43.0


From 298ee7f376b51147374323dd7876abc8d98b0d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 06/29] fix: reject page sizes that aren't a positive power of
 two before patching

The guard's condition could never hold.
---
 src/from_current.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/from_current.cpp b/src/from_current.cpp
index c620523..4eb5e96 100644
--- a/src/from_current.cpp
+++ b/src/from_current.cpp
@@ -261,7 +261,7 @@ namespace detail {
 
         // shouldn't be anything other than 4096 but out of an abundance of caution
         auto page_size = get_page_size();
-        if(page_size <= 0 && is_positive_power_of_two(page_size)) {
+        if(page_size <= 0 || !is_positive_power_of_two(page_size)) {
             throw internal_error("getpagesize() is not a power of 2 greater than zero (was {})", page_size);
         }
         if(static_cast<size_t>(page_size) < vtable_size * sizeof(void*)) {
-- 
2.43.0


From ef7069255407ee6fe0ae3f86cf3efe0bc33f8d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:38 +0000
Subject: [PATCH 07/29] fix: don't leave another throw's trace in place when
 collecting a trace fails

---
 src/from_current.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/from_current.cpp b/src/from_current.cpp
index 4eb5e96..4454b70 100644
--- a/src/from_current.cpp
+++ b/src/from_current.cpp
@@ -56,6 +56,7 @@ namespace detail {
              #endif
              save_current_trace(std::move(trace));
          } catch(...) {
+             save_current_trace(raw_trace{}); // don't leave the trace of some other throw behind
              detail::log_and_maybe_propagate_exception(std::current_exception());
          }
      }
@@ -65,6 +66,7 @@ namespace detail {
              auto trace = raw_trace{detail::capture_frames(skip + 1, SIZE_MAX)};
              save_current_trace(std::move(trace));
          } catch(...) {
+             save_current_trace(raw_trace{}); // don't leave the trace of some other throw behind
              detail::log_and_maybe_propagate_exception(std::current_exception());
          }
      }
-- 
2.43.0


From 18f317bc1958e10271a6b6e0c9677d6f7e0f9cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:38 +0000
Subject: [PATCH 08/29] fix: a failure to log an exception must not escape when
 absorbing trace exceptions

---
 src/utils/error.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/utils/error.cpp b/src/utils/error.cpp
index b24ce3d..d27419d 100644
--- a/src/utils/error.cpp
+++ b/src/utils/error.cpp
@@ -61,19 +61,24 @@ namespace detail {
 
     void log_and_maybe_propagate_exception(std::exception_ptr ptr) {
         try {
-            if(ptr) {
-                std::rethrow_exception(ptr);
+            try {
+                if(ptr) {
+                    std::rethrow_exception(ptr);
+                }
+            } catch(const internal_error& e) {
+                log::error("Unhandled cpptrace internal error: {}", e.what());
+            } catch(const std::exception& e) {
+                log::error(
+                    "Unhandled cpptrace internal error of type {}: {}",
+                    cpptrace::demangle(typeid(e).name()),
+                    e.what()
+                );
+            } catch(...) {
+                log::error("Unhandled cpptrace internal error of type {}", detail::exception_type_name());
             }
-        } catch(const internal_error& e) {
-            log::error("Unhandled cpptrace internal error: {}", e.what());
-        } catch(const std::exception& e) {
-            log::error(
-                "Unhandled cpptrace internal error of type {}: {}",
-                cpptrace::demangle(typeid(e).name()),
-                e.what()
-            );
         } catch(...) {
-            log::error("Unhandled cpptrace internal error of type {}", detail::exception_type_name());
+            // Logging can fail too, e.g. due to running out of memory. That must not replace the original failure or escape
+            // when exceptions should be absorbed.
         }
         if(!should_absorb_trace_exceptions()) {
             if(ptr) {
-- 
2.43.0


From b5f6acd2b666830b95d50e5ead6f710db50d31e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 09/29] fix: an explicit color=false must override the always
 color mode

---
 src/formatting.cpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/formatting.cpp b/src/formatting.cpp
index faa7a3a..3557738 100644
--- a/src/formatting.cpp
+++ b/src/formatting.cpp
@@ -207,15 +207,12 @@ CPPTRACE_BEGIN_NAMESPACE
         }
 
         bool should_do_color(std::ostream& stream, detail::optional<bool> color_override) const {
-            bool do_color = options.color == color_mode::always || color_override.value_or(false);
-            if(
-                (options.color == color_mode::automatic || options.color == color_mode::always) &&
-                (!color_override || color_override.unwrap() != false) &&
-                stream_is_tty(stream)
-            ) {
-                do_color = true;
+            // an explicit request overrides the configured color mode
+            if(color_override) {
+                return color_override.unwrap();
             }
-            return do_color;
+            return options.color == color_mode::always
+                || (options.color == color_mode::automatic && stream_is_tty(stream));
         }
 
         size_t get_trace_start(const stacktrace& trace) const {
-- 
2.43.0


From 2bd2230a02a35cfb7cb416990f95d5784f2d38a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 10/29] fix: no dangling newline when the last frames are
 filtered out without placeholders

---
 src/formatting.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/formatting.cpp b/src/formatting.cpp
index 3557738..cfcd250 100644
--- a/src/formatting.cpp
+++ b/src/formatting.cpp
@@ -263,6 +263,7 @@ CPPTRACE_BEGIN_NAMESPACE
             }
             const auto frame_number_width = detail::n_digits(static_cast<int>(frames.size()) - 1);
             std::size_t counter = 0;
+            bool first_shown = true;
             for(size_t i = get_trace_start(trace); i < frames.size(); ++i) {
                 detail::optional<stacktrace_frame> transformed_frame;
                 if(options.transform) {
@@ -275,6 +276,10 @@ CPPTRACE_BEGIN_NAMESPACE
                     continue;
                 }
 
+                if(!first_shown) {
+                    stream << '\n';
+                }
+                first_shown = false;
                 size_t filename_indent = write_frame_number(stream, frame_number_width, counter);
                 if(filter_out_frame) {
                     microfmt::print(stream, "(filtered)");
@@ -294,9 +299,6 @@ CPPTRACE_BEGIN_NAMESPACE
                         }
                     }
                 }
-                if(i + 1 != frames.size()) {
-                    stream << '\n';
-                }
                 counter++;
             }
         }
-- 
2.43.0


From b3d77c249e0fb380cf17841a38e16cf931b0355b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:21 +0000
Subject: [PATCH 11/29] fix: formatter assignment to itself and with a failing
 copy

---
 src/formatting.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/formatting.cpp b/src/formatting.cpp
index cfcd250..bafa191 100644
--- a/src/formatting.cpp
+++ b/src/formatting.cpp
@@ -390,17 +390,19 @@ CPPTRACE_BEGIN_NAMESPACE
     formatter::formatter(formatter&& other) : pimpl(detail::exchange(other.pimpl, nullptr)) {}
     formatter::formatter(const formatter& other) : pimpl(new impl(*other.pimpl)) {}
     formatter& formatter::operator=(formatter&& other) {
-        if(pimpl) {
+        if(this != &other) {
             delete pimpl;
+            pimpl = detail::exchange(other.pimpl, nullptr);
         }
-        pimpl = detail::exchange(other.pimpl, nullptr);
         return *this;
     }
     formatter& formatter::operator=(const formatter& other) {
-        if(pimpl) {
+        if(this != &other) {
+            // copy first, copying may throw
+            auto* copy = new impl(*other.pimpl);
             delete pimpl;
+            pimpl = copy;
         }
-        pimpl = new impl(*other.pimpl);
         return *this;
     }
 
-- 
2.43.0


From ade99370fe341849eeef8e47d6b985caaf0258ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 12/29] fix: prettify_symbol turned strings of other character
 types into std::string

---
 src/formatting.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/formatting.cpp b/src/formatting.cpp
index bafa191..ac2ed9c 100644
--- a/src/formatting.cpp
+++ b/src/formatting.cpp
@@ -37,11 +37,11 @@ CPPTRACE_BEGIN_NAMESPACE
         // rules to replace std::basic_string -> std::string and std::basic_string_view -> std::string
         // rule to replace ", std::allocator<whatever>"
         static const std::pair<std::regex, std::string> basic_string = {
-            std::regex(R"(std(::[a-zA-Z0-9_]+)?::basic_string<char)"), "std::string"
+            std::regex(R"(std(::[a-zA-Z0-9_]+)?::basic_string<char\b)"), "std::string"
         };
         detail::replace_all_template(symbol, basic_string);
         static const std::pair<std::regex, std::string> basic_string_view = {
-            std::regex(R"(std(::[a-zA-Z0-9_]+)?::basic_string_view<char)"), "std::string_view"
+            std::regex(R"(std(::[a-zA-Z0-9_]+)?::basic_string_view<char\b)"), "std::string_view"
         };
         detail::replace_all_template(symbol, basic_string_view);
         static const std::pair<std::regex, std::string> allocator = {
-- 
2.43.0


From 06239c8739e203a30d615a23fe6329cf473b5cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 13/29] fix: snippets for lines that don't exist read past the
 loaded lines

---
 src/snippets/snippet.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/snippets/snippet.cpp b/src/snippets/snippet.cpp
index cee92e6..2615fb7 100644
--- a/src/snippets/snippet.cpp
+++ b/src/snippets/snippet.cpp
@@ -115,9 +115,14 @@ namespace detail {
         if(!manager.ok()) {
             return nullopt;
         }
-        auto begin = target_line <= context_size + 1 ? 1 : target_line - context_size;
+        const std::size_t last_line = manager.num_lines() - 1;
+        if(target_line < 1 || target_line > last_line) {
+            return nullopt;
+        }
+        // careful to not overflow for large context sizes
+        auto begin = target_line - 1 <= context_size ? 1 : target_line - context_size;
         auto original_begin = begin;
-        auto end = std::min(target_line + context_size, manager.num_lines() - 1);
+        auto end = last_line - target_line <= context_size ? last_line : target_line + context_size;
         std::vector<std::string> lines;
         for(auto line = begin; line <= end; line++) {
             lines.push_back(manager.get_line(line));
-- 
2.43.0


From 20484314083cf48d8fc582ac3033fbab847f4a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:25 +0000
Subject: [PATCH 14/29] fix: don't show the contents of a file that couldn't be
 read in snippets

---
 src/snippets/snippet.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/snippets/snippet.cpp b/src/snippets/snippet.cpp
index 2615fb7..4b35668 100644
--- a/src/snippets/snippet.cpp
+++ b/src/snippets/snippet.cpp
@@ -39,9 +39,12 @@ namespace detail {
                     // else load file
                     file.seekg(0, std::ios::beg);
                     contents.resize(to<std::size_t>(size));
-                    if(!file.read(&contents[0], size)) {
-                        // error ...
+                    file.read(&contents[0], size);
+                    if(file.bad()) {
+                        return;
                     }
+                    // fewer characters may be read, e.g. due to text mode translation or the file being truncated
+                    contents.resize(to<std::size_t>(file.gcount()));
                     build_line_table();
                     loaded_contents = true;
                 }
-- 
2.43.0


From fd6e29c97a2cd0cf95cdc282215252df9533c232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:23 +0000
Subject: [PATCH 15/29] fix: release pipes and reap the addr2line child on
 every path, handle interrupted and short I/O

---
 src/symbols/symbols_with_addr2line.cpp | 67 +++++++++++++++++++++-----
 1 file changed, 54 insertions(+), 13 deletions(-)

diff --git a/src/symbols/symbols_with_addr2line.cpp b/src/symbols/symbols_with_addr2line.cpp
index d5f430e..0783b68 100644
--- a/src/symbols/symbols_with_addr2line.cpp
+++ b/src/symbols/symbols_with_addr2line.cpp
@@ -6,6 +6,7 @@
 #include "utils/microfmt.hpp"
 #include "utils/utils.hpp"
 
+#include <cerrno>
 #include <cstdint>
 #include <cstdio>
 #include <functional>
@@ -28,6 +29,14 @@ CPPTRACE_BEGIN_NAMESPACE
 namespace detail {
 namespace addr2line {
     #if IS_LINUX || IS_APPLE
+    bool wait_for_child(pid_t pid, int* status) {
+        pid_t res;
+        do {
+            res = waitpid(pid, status, 0);
+        } while(res == -1 && errno == EINTR);
+        return res == pid;
+    }
+
     bool has_addr2line() {
         static std::mutex mutex;
         static bool has_addr2line = false;
@@ -56,9 +65,8 @@ namespace addr2line {
                 #endif
                 _exit(magic);
             }
-            int status;
-            waitpid(pid, &status, 0);
-            has_addr2line = WEXITSTATUS(status) == 0;
+            int status = 0;
+            has_addr2line = wait_for_child(pid, &status) && WIFEXITED(status) && WEXITSTATUS(status) == 0;
         }
         return has_addr2line;
     }
@@ -76,9 +84,25 @@ namespace addr2line {
     };
     static_assert(sizeof(pipe_t) == 2 * sizeof(int), "Unexpected struct packing");
 
+    void close_end(int& fd) {
+        if(fd != -1) {
+            close(fd);
+            fd = -1;
+        }
+    }
+
     std::string resolve_addresses(const std::string& addresses, const std::string& executable) {
         pipe_t output_pipe;
         pipe_t input_pipe;
+        output_pipe.end.read = output_pipe.end.write = -1;
+        input_pipe.end.read = input_pipe.end.write = -1;
+        const auto close_all = [&] {
+            close_end(input_pipe.end.read);
+            close_end(input_pipe.end.write);
+            close_end(output_pipe.end.write);
+            close_end(output_pipe.end.read);
+        };
+        auto pipe_guard = scope_exit(close_all);
         if(pipe(output_pipe.data) != 0 || pipe(input_pipe.data) != 0) {
             throw internal_error("call to pipe failed: {}", errno);
         }
@@ -125,22 +149,39 @@ namespace addr2line {
             #endif
             _exit(1); // TODO: Diagnostic?
         }
-        if(write(input_pipe.end.write, addresses.data(), addresses.size()) == -1) {
-            throw internal_error("call to write failed: {}", errno);
+        auto child_guard = scope_exit([&] {
+            // the pipes have to be closed first, otherwise the child might never finish
+            close_all();
+            // TODO: check status from addr2line?
+            wait_for_child(pid, nullptr);
+        });
+        std::size_t written = 0;
+        while(written < addresses.size()) {
+            const auto res = write(input_pipe.end.write, addresses.data() + written, addresses.size() - written);
+            if(res == -1) {
+                if(errno == EINTR) {
+                    continue;
+                }
+                throw internal_error("call to write failed: {}", errno);
+            }
+            written += static_cast<std::size_t>(res);
         }
-        close(input_pipe.end.read);
-        close(input_pipe.end.write);
-        close(output_pipe.end.write);
+        close_end(input_pipe.end.read);
+        close_end(input_pipe.end.write);
+        close_end(output_pipe.end.write);
         std::string output;
         constexpr int buffer_size = 4096;
         char buffer[buffer_size];
-        std::size_t count = 0;
-        while((count = read(output_pipe.end.read, buffer, buffer_size)) > 0) {
+        ssize_t count = 0;
+        while((count = read(output_pipe.end.read, buffer, buffer_size)) != 0) {
+            if(count == -1) {
+                if(errno == EINTR) {
+                    continue;
+                }
+                throw internal_error("call to read failed: {}", errno);
+            }
             output.insert(output.end(), buffer, buffer + count);
         }
-        // TODO: check status from addr2line?
-        waitpid(pid, nullptr, 0);
-        close(output_pipe.end.read);
         return output;
     }
     #elif IS_WINDOWS
-- 
2.43.0


From e4fff3ed839cb4e97afd093b0f5663b2dfc3a8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 16/29] fix: keep the addresses of resolved JIT frames

---
 src/symbols/symbols_with_libdwarf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/symbols/symbols_with_libdwarf.cpp b/src/symbols/symbols_with_libdwarf.cpp
index 5f83345..19dc334 100644
--- a/src/symbols/symbols_with_libdwarf.cpp
+++ b/src/symbols/symbols_with_libdwarf.cpp
@@ -91,6 +91,8 @@ namespace libdwarf {
         auto object_res = lookup_jit_object(dlframe.raw_address);
         // TODO: At some point, dwarf resolution
         if(object_res) {
+            frame.frame.raw_address = dlframe.raw_address;
+            frame.frame.object_address = dlframe.object_address;
             frame.frame.symbol = object_res.unwrap().object
                 .lookup_symbol(dlframe.raw_address - object_res.unwrap().base).value_or("");
         }
-- 
2.43.0


From 4c2121a747efe21314f079c0881ebfd773e46300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:55 +0000
Subject: [PATCH 17/29] fix: keep the addresses of frames when symbol
 resolution is disabled

---
 src/symbols/symbols_with_nothing.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/symbols/symbols_with_nothing.cpp b/src/symbols/symbols_with_nothing.cpp
index 571e1e7..cfa7461 100644
--- a/src/symbols/symbols_with_nothing.cpp
+++ b/src/symbols/symbols_with_nothing.cpp
@@ -10,11 +10,21 @@ CPPTRACE_BEGIN_NAMESPACE
 namespace detail {
 namespace nothing {
     std::vector<stacktrace_frame> resolve_frames(const std::vector<frame_ptr>& frames) {
-        return std::vector<stacktrace_frame>(frames.size(), null_frame());
+        std::vector<stacktrace_frame> trace(frames.size(), null_frame());
+        for(std::size_t i = 0; i < frames.size(); i++) {
+            trace[i].raw_address = frames[i];
+        }
+        return trace;
     }
 
     std::vector<stacktrace_frame> resolve_frames(const std::vector<object_frame>& frames) {
-        return std::vector<stacktrace_frame>(frames.size(), null_frame());
+        std::vector<stacktrace_frame> trace(frames.size(), null_frame());
+        for(std::size_t i = 0; i < frames.size(); i++) {
+            trace[i].raw_address = frames[i].raw_address;
+            trace[i].object_address = frames[i].object_address;
+            trace[i].filename = frames[i].object_path;
+        }
+        return trace;
     }
 }
 }
-- 
2.43.0


From d1133e186e45aab52e9852f9262767be6964e8c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:54 +0000
Subject: [PATCH 18/29] fix: tolerate objects without a name reported by dladdr

---
 src/binary/object.cpp           | 4 ++--
 src/symbols/symbols_with_dl.cpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/binary/object.cpp b/src/binary/object.cpp
index 55a53d5..2ed48eb 100644
--- a/src/binary/object.cpp
+++ b/src/binary/object.cpp
@@ -97,8 +97,8 @@ namespace detail {
         frame.raw_address = address;
         frame.object_address = 0;
         if(dladdr(reinterpret_cast<void*>(address), &info)) { // thread safe
-            frame.object_path = info.dli_fname;
-            auto base = get_module_image_base(info.dli_fname);
+            frame.object_path = info.dli_fname ? info.dli_fname : "";
+            auto base = get_module_image_base(frame.object_path);
             if(base.has_value()) {
                 frame.object_address = address
                                         - reinterpret_cast<std::uintptr_t>(info.dli_fbase)
diff --git a/src/symbols/symbols_with_dl.cpp b/src/symbols/symbols_with_dl.cpp
index 7887d51..7b8b148 100644
--- a/src/symbols/symbols_with_dl.cpp
+++ b/src/symbols/symbols_with_dl.cpp
@@ -16,7 +16,7 @@ namespace libdl {
     stacktrace_frame resolve_frame(const frame_ptr addr) {
         Dl_info info;
         if(dladdr(reinterpret_cast<void*>(addr), &info)) { // thread-safe
-            auto base = get_module_image_base(info.dli_fname);
+            auto base = get_module_image_base(info.dli_fname ? info.dli_fname : "");
             return {
                 addr,
                 base.has_value()
-- 
2.43.0


From 26872eadfa9de2d4f57b833e4309faa368f584d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:58 +0000
Subject: [PATCH 19/29] fix: keep a frame's address when libbacktrace fails to
 resolve it

---
 src/symbols/symbols_with_libbacktrace.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/symbols/symbols_with_libbacktrace.cpp b/src/symbols/symbols_with_libbacktrace.cpp
index 5233654..134c363 100644
--- a/src/symbols/symbols_with_libbacktrace.cpp
+++ b/src/symbols/symbols_with_libbacktrace.cpp
@@ -88,7 +88,9 @@ namespace libbacktrace {
             return frame;
         } catch(...) { // NOSONAR
             detail::log_and_maybe_propagate_exception(std::current_exception());
-            return null_frame();
+            stacktrace_frame frame = null_frame();
+            frame.raw_address = addr;
+            return frame;
         }
     }
 
-- 
2.43.0


From 67017751b172992bc5bf3bab7e4f4a2e3e14893e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 20/29] fix: resolve C object traces from their objects rather
 than from their raw addresses

---
 src/ctrace.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ctrace.cpp b/src/ctrace.cpp
index a81841f..4488268 100644
--- a/src/ctrace.cpp
+++ b/src/ctrace.cpp
@@ -278,13 +278,13 @@ extern "C" {
             return { nullptr, 0 };
         }
         try {
-            std::vector<cpptrace::frame_ptr> frames(trace->count, 0);
+            std::vector<cpptrace::object_frame> frames(trace->count);
             std::transform(
                 trace->frames,
                 trace->frames + trace->count,
                 frames.begin(),
-                [] (const ctrace_object_frame& frame) -> cpptrace::frame_ptr {
-                    return frame.raw_address;
+                [] (const ctrace_object_frame& frame) -> cpptrace::object_frame {
+                    return { frame.raw_address, frame.obj_address, frame.obj_path ? frame.obj_path : "" };
                 }
             );
             std::vector<cpptrace::stacktrace_frame> resolved = cpptrace::detail::resolve_frames(frames);
-- 
2.43.0


From 63644b7f9a114e353f96ea857b568a979469998b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:30 +0000
Subject: [PATCH 21/29] fix: tolerate null traces, frames and strings in the C
 interface

---
 src/ctrace.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ctrace.cpp b/src/ctrace.cpp
index 4488268..1c1892f 100644
--- a/src/ctrace.cpp
+++ b/src/ctrace.cpp
@@ -116,8 +116,8 @@ CTRACE_FORMAT_EPILOGUE
         new_frame.object_address = frame.object_address;
         new_frame.line      = nullable_type{is_empty(frame.line)   ? null_v : frame.line};
         new_frame.column    = nullable_type{is_empty(frame.column) ? null_v : frame.column};
-        new_frame.filename  = frame.filename;
-        new_frame.symbol    = frame.symbol;
+        new_frame.filename  = frame.filename ? frame.filename : "";
+        new_frame.symbol    = frame.symbol ? frame.symbol : "";
         new_frame.is_inline = bool(frame.is_inline);
         return new_frame;
     }
@@ -149,7 +149,7 @@ CTRACE_FORMAT_EPILOGUE
 extern "C" {
     // ctrace::string
     ctrace_owning_string ctrace_generate_owning_string(const char* raw_string) {
-        return ctrace::generate_owning_string(raw_string);
+        return ctrace::generate_owning_string(raw_string ? raw_string : "");
     }
 
     void ctrace_free_owning_string(ctrace_owning_string* string) {
@@ -334,7 +334,7 @@ extern "C" {
             cpptrace::detail::enable_virtual_terminal_processing_if_needed();
         }
         ctrace::ffprintf(to, "Stack trace (most recent call first):\n");
-        if(trace->count == 0 || !trace->frames) {
+        if(!trace || trace->count == 0 || !trace->frames) {
             ctrace::ffprintf(to, "<empty trace>\n");
             return;
         }
@@ -432,6 +432,9 @@ extern "C" {
     }
 
     ctrace_object_frame ctrace_get_object_info(const ctrace_stacktrace_frame* frame) {
+        if(!frame) {
+            return {0, 0, nullptr};
+        }
         try {
             cpptrace::object_frame new_frame = cpptrace::detail::get_frame_object_info(frame->raw_address);
             return ctrace::convert_object_frame(new_frame);
-- 
2.43.0


From b15c4613d4727c4f5cd8ea0209647be2ee83d2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:32 +0000
Subject: [PATCH 22/29] fix: terminate over-long paths in safe object frames

---
 src/binary/safe_dl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/binary/safe_dl.cpp b/src/binary/safe_dl.cpp
index 0ccfd78..e29447d 100644
--- a/src/binary/safe_dl.cpp
+++ b/src/binary/safe_dl.cpp
@@ -31,6 +31,7 @@ namespace detail {
                     result.dlfo_link_map->l_name,
                     std::min(path_length + 1, std::size_t(CPPTRACE_PATH_MAX + 1))
                 );
+                out->object_path[CPPTRACE_PATH_MAX] = 0; // in case the path was too long
             } else {
                 // empty l_name, this means it's the currently running executable
                 memset(out->object_path, 0, CPPTRACE_PATH_MAX + 1);
-- 
2.43.0


From 274da2e3c889bde0b7c99433f74aa74264fd02ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:47 +0000
Subject: [PATCH 23/29] fix: check ELF section bounds and string offsets

---
 src/binary/elf.cpp | 34 +++++++++++++++++++++++++++++++++-
 src/binary/elf.hpp |  2 ++
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 655fa9f..3a7f40f 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -144,6 +144,9 @@ namespace detail {
             return nullopt;
         }
         if(pc <= it->st_value + it->st_size) {
+            if(it->st_name >= strtab.size()) {
+                return nullopt;
+            }
             return strtab.data() + it->st_name;
         }
         return nullopt;
@@ -167,6 +170,9 @@ namespace detail {
         }
         const auto& sections = sections_res.unwrap_value();
         for(const auto& section : sections) {
+            if(section.sh_name >= strtab.size()) {
+                continue;
+            }
             if(string_view(strtab.data() + section.sh_name) == ".text") {
                 vec.push_back(
                     pc_range{to<frame_ptr>(section.sh_addr), to<frame_ptr>(section.sh_addr + section.sh_size)}
@@ -204,7 +210,9 @@ namespace detail {
         std::vector<symbol_entry> res;
         for(const auto& entry : info.entries) {
             res.push_back({
-                strtab.has_value() ? strtab.unwrap().data() + entry.st_name : "<strtab error>",
+                strtab.has_value() && entry.st_name < strtab.unwrap().size()
+                    ? strtab.unwrap().data() + entry.st_name
+                    : "<strtab error>",
                 entry.st_shndx,
                 entry.st_value,
                 entry.st_size
@@ -305,6 +313,22 @@ namespace detail {
         return sections;
     }
 
+    // Makes sure a section lies within the file, to be done before allocating memory for it
+    Result<monostate, internal_error> elf::check_section_bounds(const section_info& section) {
+        if(section.sh_size == 0) {
+            return monostate{};
+        }
+        const auto last_byte = section.sh_offset + (section.sh_size - 1);
+        if(last_byte < section.sh_offset) {
+            return internal_error("elf seems corrupted, bad section size {}", file->path());
+        }
+        auto res = file->read<char>(last_byte);
+        if(!res) {
+            return std::move(res).unwrap_error();
+        }
+        return monostate{};
+    }
+
     Result<const std::vector<char>&, internal_error> elf::get_strtab(std::size_t index) {
         auto res = strtab_entries.insert({index, {}});
         auto it = res.first;
@@ -331,6 +355,10 @@ namespace detail {
         if(section.sh_type != SHT_STRTAB) {
             return internal_error("requested strtab section not a strtab (requested {} of {})", index, file->path());
         }
+        auto bounds_res = check_section_bounds(section);
+        if(!bounds_res) {
+            return bounds_res.unwrap_error();
+        }
         entry.data.resize(section.sh_size + 1);
         auto read_res = file->read_bytes(
             span<char>{entry.data.data(), to<std::size_t>(section.sh_size)},
@@ -423,6 +451,10 @@ namespace detail {
                 if(section.sh_size % section.sh_entsize != 0) {
                     return internal_error("elf seems corrupted, sym entry vs section size mismatch {}", file->path());
                 }
+                auto bounds_res = check_section_bounds(section);
+                if(!bounds_res) {
+                    return bounds_res.unwrap_error();
+                }
                 std::vector<SymEntry> buffer(section.sh_size / section.sh_entsize);
                 auto res = file->read_span(make_span(buffer.begin(), buffer.end()), section.sh_offset);
                 if(!res) {
diff --git a/src/binary/elf.hpp b/src/binary/elf.hpp
index 02c68df..99f9f75 100644
--- a/src/binary/elf.hpp
+++ b/src/binary/elf.hpp
@@ -127,6 +127,8 @@ namespace detail {
         template<std::size_t Bits>
         Result<const std::vector<section_info>&, internal_error> get_sections_impl();
 
+        Result<monostate, internal_error> check_section_bounds(const section_info& section);
+
         Result<const std::vector<char>&, internal_error> get_strtab(std::size_t index);
 
         Result<const optional<symtab_info>&, internal_error> get_symtab();
-- 
2.43.0


From 67653908c8129634a7032c0c8846c1151fad401b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:51 +0000
Subject: [PATCH 24/29] fix: read the header size of ELF objects of the other
 byte order

---
 src/binary/elf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 3a7f40f..4a1815a 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -254,7 +254,7 @@ namespace detail {
             return std::move(loaded_header).unwrap_error();
         }
         const Header& file_header = loaded_header.unwrap_value();
-        if(file_header.e_ehsize != sizeof(Header)) {
+        if(byteswap_if_needed(file_header.e_ehsize) != sizeof(Header)) {
             return internal_error("ELF file header size mismatch {}", file->path());
         }
         header_info info;
-- 
2.43.0


From d9641a8e9ef83973d6a1d9fca0455e464eff58c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:51 +0000
Subject: [PATCH 25/29] fix: the end of an ELF symbol is not part of the symbol

---
 src/binary/elf.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 4a1815a..3e940b3 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -143,7 +143,7 @@ namespace detail {
         if(it == symtab.entries.end()) {
             return nullopt;
         }
-        if(pc <= it->st_value + it->st_size) {
+        if(pc - it->st_value < it->st_size) {
             if(it->st_name >= strtab.size()) {
                 return nullopt;
             }
-- 
2.43.0


From e87c3495c7f90757648f0747260321d17b9736b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:51 +0000
Subject: [PATCH 26/29] fix: read empty ELF sections

---
 src/binary/elf.cpp    | 8 +++++---
 src/utils/io/file.cpp | 3 +++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/binary/elf.cpp b/src/binary/elf.cpp
index 3e940b3..ba4e426 100644
--- a/src/binary/elf.cpp
+++ b/src/binary/elf.cpp
@@ -456,9 +456,11 @@ namespace detail {
                     return bounds_res.unwrap_error();
                 }
                 std::vector<SymEntry> buffer(section.sh_size / section.sh_entsize);
-                auto res = file->read_span(make_span(buffer.begin(), buffer.end()), section.sh_offset);
-                if(!res) {
-                    return res.unwrap_error();
+                if(!buffer.empty()) {
+                    auto res = file->read_span(make_span(buffer.begin(), buffer.end()), section.sh_offset);
+                    if(!res) {
+                        return res.unwrap_error();
+                    }
                 }
                 symbol_table = symtab_info{};
                 symbol_table.unwrap().entries.reserve(buffer.size());
diff --git a/src/utils/io/file.cpp b/src/utils/io/file.cpp
index c440ad0..52ec98a 100644
--- a/src/utils/io/file.cpp
+++ b/src/utils/io/file.cpp
@@ -16,6 +16,9 @@ namespace detail {
     }
 
     Result<monostate, internal_error> file::read_bytes(bspan buffer, off_t offset) const {
+        if(buffer.size() == 0) {
+            return monostate{};
+        }
         if(std::fseek(file_obj, offset, SEEK_SET) != 0) {
             return internal_error("fseek error in {} at offset {}", path(), offset);
         }
-- 
2.43.0


From 9ce7354a5fd3915a205a54fc76ff09df9dd35107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:51 +0000
Subject: [PATCH 27/29] fix: empty code sections of JIT objects don't hide
 other objects

---
 src/jit/jit_objects.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jit/jit_objects.cpp b/src/jit/jit_objects.cpp
index 8488bab..36b9d0b 100644
--- a/src/jit/jit_objects.cpp
+++ b/src/jit/jit_objects.cpp
@@ -55,6 +55,9 @@ namespace detail {
             }
             auto& ranges = ranges_res.unwrap_value();
             for(auto range : ranges) {
+                if(range.low >= range.high) {
+                    continue; // nothing to look up, and it would hide another range starting at the same address
+                }
                 range_entry entry{range.low, range.high, object.data(), object_file};
                 // TODO: Perf
                 range_list.insert(std::upper_bound(range_list.begin(), range_list.end(), entry), entry);
-- 
2.43.0


From 9c11ede2e4da4fce85e62eafecb3fea6a8d49123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:02 +0000
Subject: [PATCH 28/29] fix: a depth of zero, skipping the whole stack, and
 signal frames when capturing frames

---
 src/unwind/unwind_with_execinfo.cpp  | 7 +++++++
 src/unwind/unwind_with_libunwind.cpp | 6 ++++++
 src/unwind/unwind_with_unwind.cpp    | 3 +++
 3 files changed, 16 insertions(+)

diff --git a/src/unwind/unwind_with_execinfo.cpp b/src/unwind/unwind_with_execinfo.cpp
index ef6e205..317ac8d 100644
--- a/src/unwind/unwind_with_execinfo.cpp
+++ b/src/unwind/unwind_with_execinfo.cpp
@@ -16,9 +16,16 @@ namespace detail {
     CPPTRACE_FORCE_NO_INLINE
     std::vector<frame_ptr> capture_frames(std::size_t skip, std::size_t max_depth) {
         skip++;
+        // no stack is deep enough for a skip that doesn't fit an int
+        if(max_depth == 0 || skip > static_cast<std::size_t>(INT_MAX) - hard_max_frames) {
+            return {};
+        }
         std::vector<void*> addrs(skip + std::min(hard_max_frames, max_depth), nullptr);
         // thread safe
         const int n_frames = backtrace(addrs.data(), static_cast<int>(addrs.size()));
+        if(n_frames <= static_cast<int>(skip)) {
+            return {};
+        }
         // I hate the copy here but it's the only way that isn't UB
         std::vector<frame_ptr> frames(n_frames - skip, 0);
         for(int i = skip; i < n_frames; i++) {
diff --git a/src/unwind/unwind_with_libunwind.cpp b/src/unwind/unwind_with_libunwind.cpp
index f33a5f2..6c2b6f2 100644
--- a/src/unwind/unwind_with_libunwind.cpp
+++ b/src/unwind/unwind_with_libunwind.cpp
@@ -18,6 +18,9 @@ namespace detail {
     std::vector<frame_ptr> capture_frames(std::size_t skip, std::size_t max_depth) {
         skip++;
         std::vector<frame_ptr> frames;
+        if(max_depth == 0) {
+            return frames;
+        }
         unw_context_t context;
         unw_cursor_t cursor;
         unw_getcontext(&context);
@@ -29,6 +32,9 @@ namespace detail {
             unw_get_reg(&cursor, UNW_REG_SP, &sp);
             if(skip) {
                 skip--;
+            } else if(unw_is_signal_frame(&cursor)) {
+                // pc is the instruction that caused the signal
+                frames.push_back(to_frame_ptr(pc));
             } else {
                 // pc is the instruction after the `call`, adjust back to the previous instruction
                 frames.push_back(to_frame_ptr(pc) - 1);
diff --git a/src/unwind/unwind_with_unwind.cpp b/src/unwind/unwind_with_unwind.cpp
index fddae8e..64e5085 100644
--- a/src/unwind/unwind_with_unwind.cpp
+++ b/src/unwind/unwind_with_unwind.cpp
@@ -55,6 +55,9 @@ namespace detail {
     CPPTRACE_FORCE_NO_INLINE
     std::vector<frame_ptr> capture_frames(std::size_t skip, std::size_t max_depth) {
         std::vector<frame_ptr> frames;
+        if(max_depth == 0) {
+            return frames;
+        }
         unwind_state state{skip + 1, max_depth, frames};
         _Unwind_Backtrace(unwind_callback, &state); // presumably thread-safe
         return frames;
-- 
2.43.0


From c0dc5566c410e867b71614075826f26ddb068140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:02 +0000
Subject: [PATCH 29/29] fix: leave ctrace_safe_generate_raw_trace itself out of
 its traces

---
 src/ctrace.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ctrace.cpp b/src/ctrace.cpp
index 1c1892f..c00a8f8 100644
--- a/src/ctrace.cpp
+++ b/src/ctrace.cpp
@@ -296,8 +296,14 @@ extern "C" {
     }
 
     // ctrace::safe:
+    CTRACE_FORCE_NO_INLINE
     size_t ctrace_safe_generate_raw_trace(ctrace_frame_ptr* buffer, size_t size, size_t skip, size_t max_depth) {
-        return cpptrace::safe_generate_raw_trace(buffer, size, skip, max_depth);
+        try { // try/catch can never be hit but it's needed to prevent TCO
+            return cpptrace::safe_generate_raw_trace(buffer, size, skip + 1, max_depth);
+        } catch(...) {
+            // Don't check rethrow condition, it's risky.
+            return 0;
+        }
     }
 
     void ctrace_get_safe_object_frame(ctrace_frame_ptr address, ctrace_safe_object_frame* out) {
-- 
2.43.0

