From 541583a952a1033ff1d66b66c8ad4c2fd8b1fe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 01/27] fix: parallel_for reports the index of the failed job

---
 include/utl/parallel_for.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/parallel_for.h b/include/utl/parallel_for.h
index 5d75804..7eee386 100644
--- a/include/utl/parallel_for.h
+++ b/include/utl/parallel_for.h
@@ -47,7 +47,7 @@ inline errors_t parallel_for_run_threadlocal(
           progress_update(idx);
         } catch (...) {
           std::lock_guard<std::mutex> lock{errors_mutex};
-          errors.emplace_back(std::pair{i, std::current_exception()});
+          errors.emplace_back(std::pair{idx, std::current_exception()});
           if (err_strat == parallel_error_strategy::QUIT_EXEC) {
             quit = true;
             break;
@@ -90,7 +90,7 @@ inline errors_t parallel_for_run(
           progress_update(idx);
         } catch (...) {
           std::lock_guard<std::mutex> lock{errors_mutex};
-          errors.emplace_back(std::pair{i, std::current_exception()});
+          errors.emplace_back(std::pair{idx, std::current_exception()});
           if (err_strat == parallel_error_strategy::QUIT_EXEC) {
             quit = true;
             break;
-- 
2.43.0


From 3cb027cec7b439cd41109f16b2faf224410a6d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:10 +0000
Subject: [PATCH 02/27] fix: progress_tracker output no longer gets stuck
 behind the input

---
 src/progress_tracker.cc | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/progress_tracker.cc b/src/progress_tracker.cc
index 33b2c59..ccea2d3 100644
--- a/src/progress_tracker.cc
+++ b/src/progress_tracker.cc
@@ -120,16 +120,30 @@ void progress_tracker::increment(size_t const inc) {
 
 void progress_tracker::update_out() {
   auto const out_range = (out_high_ - out_low_);
-  auto const in_ratio = static_cast<float>(static_cast<double>(in_) /
-                                           static_cast<double>(in_high_));
 
-  auto const new_out = std::clamp(
-      out_low_ + std::round(out_range * in_ratio / out_mod_) * out_mod_,
-      out_low_, out_high_);
+  auto in = in_.load();
+  while (true) {
+    auto const in_ratio =
+        in == 0U ? 0.F
+                 : static_cast<float>(static_cast<double>(in) /
+                                      static_cast<double>(in_high_));
 
-  auto old_out = out_.exchange(new_out);
-  if (old_out != new_out) {
-    callback_(*this);
+    auto const new_out = std::clamp(
+        out_low_ + std::round(out_range * in_ratio / out_mod_) * out_mod_,
+        out_low_, out_high_);
+
+    auto old_out = out_.exchange(new_out);
+    if (old_out != new_out) {
+      callback_(*this);
+    }
+
+    // Another thread may have stored a newer output before the exchange above
+    // overwrote it with the one for the input read here.
+    auto const current_in = in_.load();
+    if (current_in == in) {
+      break;
+    }
+    in = current_in;
   }
 }
 
-- 
2.43.0


From ed314da9e4b4ad22de4944b1356c13fe45bb536f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:20 +0000
Subject: [PATCH 03/27] fix: cstr substr clamps to the view and == compares all
 bytes

---
 include/utl/parser/cstr.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index 2691fb8..cd3a321 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -58,7 +58,7 @@ struct cstr {
     } else if (len == 0) {
       return true;
     } else {
-      return strncmp(str, s.str, len) == 0;
+      return std::memcmp(str, s.str, len) == 0;
     }
   }
   bool operator!=(cstr const& s) const { return !operator==(s); }
@@ -83,10 +83,10 @@ struct cstr {
   }
   cstr substr(size_t begin, size_t end) const {
     auto const adjusted_begin = std::min(begin, len);
-    auto const adjusted_end = std::min(end, len);
+    auto const adjusted_end = std::max(adjusted_begin, std::min(end, len));
     return {str + adjusted_begin, adjusted_end - adjusted_begin};
   }
-  cstr substr(size_t begin) const { return {str + begin, len - begin}; }
+  cstr substr(size_t begin) const { return substr(begin, len); }
   cstr substr(field const& f) const {
     return (f.size == field::MAX_SIZE) ? substr(f.from)
                                        : substr(f.from, size(f.size));
-- 
2.43.0


From 2de43f856077d0ec6fcf788635cce972f31d8447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:24 +0000
Subject: [PATCH 04/27] fix: skip_lines does not report phantom empty lines for
 CRLF input

---
 include/utl/parser/cstr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index cd3a321..09c9d46 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -275,7 +275,7 @@ cstr skip_lines(cstr file_content, Predicate skip) {
     if (!skip(line)) {
       break;
     }
-    file_content += line.len;
+    file_content += get_until(file_content, '\n').len;
     if (file_content.len != 0) {
       ++file_content;
     }
-- 
2.43.0


From 88073fd7a14b426f36e8c1f41bd4fb665f2eb55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 05/27] fix: unterminated quoted CSV columns keep their content
 and stay in bounds

---
 include/utl/parser/csv.h | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/utl/parser/csv.h b/include/utl/parser/csv.h
index 9968734..32d9da7 100644
--- a/include/utl/parser/csv.h
+++ b/include/utl/parser/csv.h
@@ -27,7 +27,7 @@ inline void parse_column(cstr& s, T& arg) {
   }
 
   auto begin = s;
-  int adjust_for_cr = 0;
+  char const* content_end = nullptr;
   while (s) {
     char c = *s.str;
 
@@ -37,22 +37,21 @@ inline void parse_column(cstr& s, T& arg) {
       continue;
     }
 
-    if (c == end || c == '\r' || c == '\n' || s.len == 0) {
-      if ((end == '"' && s.len != 0) || (c == '\r' && s.len != 0)) {
+    if (c == end || c == '\r' || c == '\n') {
+      content_end = s.str;
+      if (c == '"' || c == '\r') {
         ++s;
       }
-      adjust_for_cr = (c == '\r') ? -1 : 0;
       break;
     }
 
-    if (s) {
-      ++s;
-    }
+    ++s;
   }
 
-  int adjust_for_quote = (end == '"') ? -1 : 0;
-  arg.assign(begin.str, static_cast<size_t>((s.str - begin.str) +
-                                            adjust_for_quote + adjust_for_cr));
+  if (content_end == nullptr) {
+    content_end = s.str;
+  }
+  arg.assign(begin.str, static_cast<size_t>(content_end - begin.str));
 }
 
 template <typename StringType>
-- 
2.43.0


From 80697d274493798060ee7387dba1619bed287c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:25 +0000
Subject: [PATCH 06/27] fix: line_range continues after blank lines, csv_range
 skips them

---
 include/utl/parser/csv_range.h  | 13 ++++++-------
 include/utl/parser/line_range.h |  2 +-
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/utl/parser/csv_range.h b/include/utl/parser/csv_range.h
index 3f3077b..e956ef0 100644
--- a/include/utl/parser/csv_range.h
+++ b/include/utl/parser/csv_range.h
@@ -105,13 +105,9 @@ struct csv_range : public LineRange {
   }
 
   std::optional<T> begin() {
-    cstr s;
-    LineRange::next(s);
-    if (LineRange::valid(s)) {
-      return read_row(s);
-    } else {
-      return std::nullopt;
-    }
+    auto it = std::optional<T>{};
+    next(it);
+    return it;
   }
 
   template <typename It>
@@ -123,6 +119,9 @@ struct csv_range : public LineRange {
   void next(It& it) {
     cstr s;
     LineRange::next(s);
+    while (LineRange::valid(s) && !strip_cr(s)) {  // skip blank lines
+      LineRange::next(s);
+    }
     if (LineRange::valid(s)) {
       it = read_row(s);
     } else {
diff --git a/include/utl/parser/line_range.h b/include/utl/parser/line_range.h
index 5255be2..8e50bfc 100644
--- a/include/utl/parser/line_range.h
+++ b/include/utl/parser/line_range.h
@@ -22,7 +22,7 @@ struct line_range {
 
   template <typename It>
   bool valid(It& it) {
-    return it.valid();
+    return it.data() != nullptr;
   }
 
   Reader r_;
-- 
2.43.0


From 77295b1b7652d0b1700f905cd00b7ebc97c17fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:26 +0000
Subject: [PATCH 07/27] fix: buf_reader reports progress for a last line
 without newline

---
 include/utl/parser/buf_reader.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/utl/parser/buf_reader.h b/include/utl/parser/buf_reader.h
index 626f34d..1478491 100644
--- a/include/utl/parser/buf_reader.h
+++ b/include/utl/parser/buf_reader.h
@@ -31,6 +31,7 @@ struct buf_reader {
     if (nl == nullptr) {
       auto const tmp = it_;
       it_ = last;
+      update_progress();
       return {tmp, static_cast<size_t>(num)};
     } else {
       auto const length = nl - start;
-- 
2.43.0


From f92d35c236f22daed72c9b6d9d0702207b56604e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 08/27] fix: buffer and mmap_reader move assignment release the
 old resource

---
 include/utl/parser/buffer.h           | 11 +++++++----
 include/utl/parser/mmap_reader_unix.h | 24 +++++++++++++++++-------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/include/utl/parser/buffer.h b/include/utl/parser/buffer.h
index 7d1ba8a..4529016 100644
--- a/include/utl/parser/buffer.h
+++ b/include/utl/parser/buffer.h
@@ -37,10 +37,13 @@ struct buffer final {
   }
 
   buffer& operator=(buffer&& o) noexcept {
-    buf_ = o.buf_;
-    size_ = o.size_;
-    o.buf_ = nullptr;
-    o.size_ = 0;
+    if (this != &o) {
+      std::free(buf_);
+      buf_ = o.buf_;
+      size_ = o.size_;
+      o.buf_ = nullptr;
+      o.size_ = 0;
+    }
     return *this;
   }
 
diff --git a/include/utl/parser/mmap_reader_unix.h b/include/utl/parser/mmap_reader_unix.h
index abf6dd4..823bf8b 100644
--- a/include/utl/parser/mmap_reader_unix.h
+++ b/include/utl/parser/mmap_reader_unix.h
@@ -30,10 +30,15 @@ struct mmap_reader {
     }
 
     file& operator=(file&& o) noexcept {
-      fd_ = o.fd_;
-      size_ = o.size_;
-      o.fd_ = -1;
-      o.size_ = 0;
+      if (this != &o) {
+        if (fd_ != -1) {
+          close(fd_);
+        }
+        fd_ = o.fd_;
+        size_ = o.size_;
+        o.fd_ = -1;
+        o.size_ = 0;
+      }
       return *this;
     }
 
@@ -76,9 +81,14 @@ struct mmap_reader {
     }
 
     memory_map& operator=(memory_map&& o) noexcept {
-      f_ = std::move(o.f_);
-      fmap_ = o.fmap_;
-      o.fmap_ = nullptr;
+      if (this != &o) {
+        if (fmap_ != nullptr && fmap_ != MAP_FAILED) {  // NOLINT
+          munmap(fmap_, f_.size_);
+        }
+        f_ = std::move(o.f_);
+        fmap_ = o.fmap_;
+        o.fmap_ = nullptr;
+      }
       return *this;
     }
 
-- 
2.43.0


From 7a83aa783848518e88f217f35a9f1d7c5ce96c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 09/27] fix: finally keeps its armed state and old action
 across moves

---
 include/utl/raii.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/utl/raii.h b/include/utl/raii.h
index 508333d..412103d 100644
--- a/include/utl/raii.h
+++ b/include/utl/raii.h
@@ -49,13 +49,18 @@ struct finally {
   finally(finally const&) = delete;
   finally& operator=(finally const&) = delete;
 
-  finally(finally&& o) noexcept : destruct_{std::move(o.destruct_)} {
-    o.exec_ = false;
-  }
+  finally(finally&& o) noexcept
+      : exec_{std::exchange(o.exec_, false)},
+        destruct_{std::move(o.destruct_)} {}
 
   finally& operator=(finally&& o) noexcept {
-    destruct_ = std::move(o.destruct_);
-    o.exec_ = false;
+    if (this != &o) {
+      if (exec_) {
+        destruct_();
+      }
+      destruct_ = std::move(o.destruct_);
+      exec_ = std::exchange(o.exec_, false);
+    }
     return *this;
   }
 
-- 
2.43.0


From c42f3405cdde5243ec568b649c8dffdc63bff590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:30 +0000
Subject: [PATCH 10/27] fix: is_uniform does not modify its input and accepts
 empty ranges

---
 include/utl/is_uniform.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/utl/is_uniform.h b/include/utl/is_uniform.h
index a4e58be..bad0041 100644
--- a/include/utl/is_uniform.h
+++ b/include/utl/is_uniform.h
@@ -7,24 +7,28 @@ namespace utl {
 
 template <typename It1, typename It2, typename Predicate>
 bool is_uniform(It1&& it1, It2&& it2, Predicate&& fn) {
-  auto& pred = *it1;
-  for (auto it = ++it1; it != it2; ++it) {
-    if (fn(*it) != fn(pred)) {
+  if (it1 == it2) {
+    return true;
+  }
+  auto const first = it1;
+  for (auto it = std::next(first); it != it2; ++it) {
+    if (fn(*it) != fn(*first)) {
       return false;
     }
-    pred = *it;
   }
   return true;
 }
 
 template <typename It1, typename It2>
 bool is_uniform(It1&& it1, It2&& it2) {
-  auto& pred = *it1;
-  for (auto it = ++it1; it != it2; ++it) {
-    if (*it != pred) {
+  if (it1 == it2) {
+    return true;
+  }
+  auto const first = it1;
+  for (auto it = std::next(first); it != it2; ++it) {
+    if (*it != *first) {
       return false;
     }
-    pred = *it;
   }
   return true;
 }
-- 
2.43.0


From d9dee26fa643d07aed6595c71865136ada828937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 11/27] fix: take_while stops at the end of a finite range

---
 include/utl/pipes/take_while.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/pipes/take_while.h b/include/utl/pipes/take_while.h
index ca02a27..6a7bffb 100644
--- a/include/utl/pipes/take_while.h
+++ b/include/utl/pipes/take_while.h
@@ -18,7 +18,7 @@ struct take_while_range : public clear_t<Range> {
 
   template <typename It>
   bool valid(It& it) {
-    return take_while_.fn_(this->read(it));
+    return parent_t::valid(it) && take_while_.fn_(this->read(it));
   }
 
   TakeWhile take_while_;
-- 
2.43.0


From fe0550cd2cb310b6b220da0babdd21fbc0f6abf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 12/27] fix: sum and avg do not truncate or wrap floating point
 and negative values

---
 include/utl/pipes/avg.h | 8 ++++++--
 include/utl/pipes/sum.h | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/utl/pipes/avg.h b/include/utl/pipes/avg.h
index 5d81b36..aa34060 100644
--- a/include/utl/pipes/avg.h
+++ b/include/utl/pipes/avg.h
@@ -9,9 +9,13 @@ namespace utl {
 struct avg_t {
   template <typename T>
   friend double operator|(T&& r, avg_t) {
-    auto sum = std::size_t{0};
-    auto count = std::size_t{0};
     auto it = r.begin();
+    using value_t = clear_t<decltype(r.read(it))>;
+    auto sum = std::conditional_t<
+        std::is_floating_point_v<value_t>, double,
+        std::conditional_t<std::is_signed_v<value_t>, std::ptrdiff_t,
+                           std::size_t>>{0};
+    auto count = std::size_t{0};
     while (r.valid(it)) {
       sum += r.read(it);
       ++count;
diff --git a/include/utl/pipes/sum.h b/include/utl/pipes/sum.h
index 7d23970..99d124e 100644
--- a/include/utl/pipes/sum.h
+++ b/include/utl/pipes/sum.h
@@ -13,11 +13,15 @@ struct sum {
   friend auto operator|(T&& t, sum&& f) {
     auto r = make_range(std::forward<T>(t));
     auto it = r.begin();
+    using value_t = clear_t<decltype(r.read(it))>;
+    using acc_t = std::conditional_t<std::is_floating_point_v<value_t>, value_t,
+                                     std::size_t>;
+    auto acc = static_cast<acc_t>(f.acc_);
     while (r.valid(it)) {
-      f.acc_ += r.read(it);
+      acc += r.read(it);
       r.next(it);
     }
-    return f.acc_;
+    return acc;
   }
 
   std::size_t acc_ = 0;
-- 
2.43.0


From ba7969b06ee2ce925ba95b554add793715a94dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 13/27] fix: make_range does not return a reference to a
 temporary range

---
 include/utl/pipes/make_range.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/pipes/make_range.h b/include/utl/pipes/make_range.h
index 02aa10e..434f5e3 100644
--- a/include/utl/pipes/make_range.h
+++ b/include/utl/pipes/make_range.h
@@ -10,10 +10,10 @@
 namespace utl {
 
 template <typename T>
-auto&& make_range(T&& t) {
+decltype(auto) make_range(T&& t) {
   using Type = std::remove_const_t<std::remove_reference_t<T>>;
   if constexpr (is_range<Type>::value) {
-    return t;
+    return (t);
   } else if constexpr (std::is_pointer_v<Type>) {
     return all(*t);
   } else {
-- 
2.43.0


From 9084ddf04582a10a8e3185902ff43e29493631a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 14/27] fix: enumerate end iterator carries the index one past
 the last element

---
 include/utl/enumerate.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/utl/enumerate.h b/include/utl/enumerate.h
index c87b7cc..7fb591b 100644
--- a/include/utl/enumerate.h
+++ b/include/utl/enumerate.h
@@ -92,7 +92,11 @@ constexpr auto enumerate(T&& iterable) {
 
     auto end() {
       using std::end;
-      return iterator<TIter>{0U, end(iterable_)};
+      auto size = std::size_t{0U};
+      if constexpr (requires { std::size(iterable_); }) {
+        size = static_cast<std::size_t>(std::size(iterable_));
+      }
+      return iterator<TIter>{size, end(iterable_)};
     }
 
     T iterable_;
-- 
2.43.0


From 676b933fd7d793110c959d8ee43ec5b3c7050544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:49 +0000
Subject: [PATCH 15/27] fix: parse_arg reads the smallest signed value without
 overflow

---
 include/utl/parser/arg_parser.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/utl/parser/arg_parser.h b/include/utl/parser/arg_parser.h
index d50755a..27d5473 100644
--- a/include/utl/parser/arg_parser.h
+++ b/include/utl/parser/arg_parser.h
@@ -35,15 +35,13 @@ inline bool parse_arg(
     if (c > '9' || c < '0') {
       break;
     }
-    arg = arg * 10 + static_cast<IntType>(c - '0');
+    arg = static_cast<IntType>(arg * 10 + sign * static_cast<IntType>(c - '0'));
     value_okay = true;
     ++s;
   }
 
   if (!value_okay) {
     arg = default_value;
-  } else {
-    arg *= sign;
   }
 
   return value_okay && s.empty();
-- 
2.43.0


From 6802ec8e0ac2def986d6087566f76e8d293b6dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 16/27] fix: parse_fp rejects a sign without digits and reads
 large integer parts

---
 include/utl/parser/arg_parser.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/utl/parser/arg_parser.h b/include/utl/parser/arg_parser.h
index 27d5473..52462b7 100644
--- a/include/utl/parser/arg_parser.h
+++ b/include/utl/parser/arg_parser.h
@@ -60,12 +60,12 @@ inline bool parse_fp(cstr& s, T& v) {
     ++s;
   }
 
-  int pre_point;
-  parse_arg(s, pre_point);
+  std::int64_t pre_point;
+  auto const is_integer = parse_arg(s, pre_point);
   v = static_cast<T>(pre_point);
   if (s.len == 0) {
     v *= sign;
-    return true;
+    return is_integer;
   }
 
   if (*s.str != '.') {
-- 
2.43.0


From ed2fa4e24e2530267a18c56761bbe57180dba204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:50 +0000
Subject: [PATCH 17/27] fix: buffer resize to zero does not free the buffer
 twice

---
 include/utl/parser/buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/parser/buffer.h b/include/utl/parser/buffer.h
index 4529016..99cdf3e 100644
--- a/include/utl/parser/buffer.h
+++ b/include/utl/parser/buffer.h
@@ -58,7 +58,7 @@ struct buffer final {
   inline unsigned char* end() { return data() + size_; }
 
   inline void resize(std::size_t new_size) {
-    if (void* tmp = std::realloc(buf_, new_size)) {
+    if (void* tmp = std::realloc(buf_, new_size == 0U ? 1U : new_size)) {
       buf_ = tmp;
       size_ = new_size;
     } else {
-- 
2.43.0


From 7287e0ce345499f9e265f860904ccd809c3a59de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:56 +0000
Subject: [PATCH 18/27] fix: enumerate iterator post-increment and
 post-decrement compile

---
 include/utl/enumerate.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utl/enumerate.h b/include/utl/enumerate.h
index 7fb591b..1b5889a 100644
--- a/include/utl/enumerate.h
+++ b/include/utl/enumerate.h
@@ -37,13 +37,13 @@ struct iterator {
     --iter_;
   }
 
-  iterator operator++(int) const {
+  iterator operator++(int) {
     auto tmp = *this;
     ++(*this);
     return tmp;
   }
 
-  iterator operator--(int) const
+  iterator operator--(int)
     requires(std::bidirectional_iterator<It>)
   {
     auto tmp = *this;
-- 
2.43.0


From 1716bab778597e568a2c387020715c5a986d68f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 19/27] fix: iterator pair to_set and sort_by on const
 containers compile

---
 include/utl/sort_by.h | 2 +-
 include/utl/to_set.h  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/utl/sort_by.h b/include/utl/sort_by.h
index 9aa3767..15a770b 100644
--- a/include/utl/sort_by.h
+++ b/include/utl/sort_by.h
@@ -29,7 +29,7 @@ std::tuple<std::decay_t<SortBy>, std::decay_t<Ts>...> sort_by(SortBy&& order,
             [&](auto&& a, auto&& b) { return order[a] < order[b]; });
   std::tuple<std::decay_t<SortBy>, std::decay_t<Ts>...> ret{order, ts...};
   std::apply(
-      [&](SortBy& first, Ts&... rest) {
+      [&](std::decay_t<SortBy>& first, std::decay_t<Ts>&... rest) {
         apply_permutation(permutation, order, first);
         (apply_permutation(permutation, ts, rest), ...);
       },
diff --git a/include/utl/to_set.h b/include/utl/to_set.h
index 657bdee..73a1839 100644
--- a/include/utl/to_set.h
+++ b/include/utl/to_set.h
@@ -10,8 +10,8 @@ template <typename It, typename UnaryOperation>
 inline auto to_set(It b, It e,
                    UnaryOperation&& op) -> std::set<decltype(op(*b))> {
   using set = std::set<decltype(op(*b))>;
-  set s(std::distance(s, e));
-  std::transform(b, e, std::insert_iterator<set>(s), op);
+  set s;
+  std::transform(b, e, std::insert_iterator<set>(s, begin(s)), op);
   return s;
 }
 
-- 
2.43.0


From 4c78d352eabf203bb0fff12073a0a148acc05fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 20/27] fix: generator is move-only so that its coroutine is
 destroyed once

---
 include/utl/generator.h | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/include/utl/generator.h b/include/utl/generator.h
index 4f2b3c8..86369c0 100644
--- a/include/utl/generator.h
+++ b/include/utl/generator.h
@@ -1,5 +1,10 @@
+#pragma once
+
+#include <concepts>
 #include <coroutine>
 #include <exception>
+#include <utility>
+#include <vector>
 
 namespace utl {
 
@@ -27,7 +32,28 @@ struct generator {
 
   generator(handle_type h) : h_(h) {}
 
-  ~generator() { h_.destroy(); }
+  generator(generator const&) = delete;
+  generator& operator=(generator const&) = delete;
+
+  generator(generator&& o) noexcept
+      : h_{std::exchange(o.h_, nullptr)}, full_{std::exchange(o.full_, false)} {}
+
+  generator& operator=(generator&& o) noexcept {
+    if (this != &o) {
+      if (h_) {
+        h_.destroy();
+      }
+      h_ = std::exchange(o.h_, nullptr);
+      full_ = std::exchange(o.full_, false);
+    }
+    return *this;
+  }
+
+  ~generator() {
+    if (h_) {
+      h_.destroy();
+    }
+  }
 
   explicit operator bool() {
     if (h_.done()) {
-- 
2.43.0


From 4517da1e545645b4f182b1770075fcac27a5768e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 21/27] fix: parsing a filesystem path stays within the given
 string view

---
 include/utl/parser/arg_parser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/parser/arg_parser.h b/include/utl/parser/arg_parser.h
index 52462b7..c50ae90 100644
--- a/include/utl/parser/arg_parser.h
+++ b/include/utl/parser/arg_parser.h
@@ -133,7 +133,7 @@ inline void parse_arg(cstr& s, cista::raw::generic_string& arg) {
   arg.set_non_owning(s.str, static_cast<unsigned>(s.len));
 }
 
-inline void parse_arg(cstr& s, std::filesystem::path& arg) { arg = s.str; }
+inline void parse_arg(cstr& s, std::filesystem::path& arg) { arg = s.view(); }
 
 template <typename T>
 inline T parse(cstr s) {
-- 
2.43.0


From 3eac29fc7f21edd86d2185b7c0dd76c8ae08b3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 22/27] fix: file is move-only so that its handle is closed
 once

---
 include/utl/parser/file.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/include/utl/parser/file.h b/include/utl/parser/file.h
index 9be1e1a..49da774 100644
--- a/include/utl/parser/file.h
+++ b/include/utl/parser/file.h
@@ -136,6 +136,8 @@ struct file {
 #else
 #include <cstdio>
 
+#include <utility>
+
 #include "utl/parser/buffer.h"
 #include "utl/verify.h"
 
@@ -147,6 +149,23 @@ struct file {
     verify(f_ != nullptr, "unable to open file {} (mode={})", path, mode);
   }
 
+  file(file const&) = delete;
+  file& operator=(file const&) = delete;
+
+  file(file&& o) noexcept
+      : f_{std::exchange(o.f_, nullptr)}, filename_{std::move(o.filename_)} {}
+
+  file& operator=(file&& o) noexcept {
+    if (this != &o) {
+      if (f_ != nullptr) {
+        fclose(f_);
+      }
+      f_ = std::exchange(o.f_, nullptr);
+      filename_ = std::move(o.filename_);
+    }
+    return *this;
+  }
+
   ~file() {
     if (f_ != nullptr) {
       fclose(f_);
-- 
2.43.0


From 5aba70130e13106bda289e682732583fcbf806ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:30 +0000
Subject: [PATCH 23/27] fix: unique, take_while and iterable do not move out of
 a range passed as an lvalue

---
 include/utl/pipes/iterable.h   | 2 +-
 include/utl/pipes/make_range.h | 2 +-
 include/utl/pipes/take_while.h | 2 +-
 include/utl/pipes/unique.h     | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/utl/pipes/iterable.h b/include/utl/pipes/iterable.h
index 8baeabf..b52be78 100644
--- a/include/utl/pipes/iterable.h
+++ b/include/utl/pipes/iterable.h
@@ -30,7 +30,7 @@ template <typename Range>
 struct iterable_range : public clear_t<Range> {
   using parent_t = clear_t<Range>;
   iterable_range() = default;
-  explicit iterable_range(Range&& r) : parent_t(std::forward<parent_t>(r)) {}
+  explicit iterable_range(Range&& r) : parent_t(std::forward<Range>(r)) {}
   auto begin() { return it{*this, parent_t::begin()}; }
   auto end() { return end_it{}; }
   friend auto begin(iterable_range const& r) { return r.begin(); }
diff --git a/include/utl/pipes/make_range.h b/include/utl/pipes/make_range.h
index 434f5e3..a70af92 100644
--- a/include/utl/pipes/make_range.h
+++ b/include/utl/pipes/make_range.h
@@ -13,7 +13,7 @@ template <typename T>
 decltype(auto) make_range(T&& t) {
   using Type = std::remove_const_t<std::remove_reference_t<T>>;
   if constexpr (is_range<Type>::value) {
-    return (t);
+    return std::forward<T>(t);
   } else if constexpr (std::is_pointer_v<Type>) {
     return all(*t);
   } else {
diff --git a/include/utl/pipes/take_while.h b/include/utl/pipes/take_while.h
index 6a7bffb..bfe0090 100644
--- a/include/utl/pipes/take_while.h
+++ b/include/utl/pipes/take_while.h
@@ -13,7 +13,7 @@ struct take_while_range : public clear_t<Range> {
 
   template <typename R>
   take_while_range(R&& r, TakeWhile&& take_while)
-      : parent_t(std::forward<parent_t>(r)),
+      : parent_t(std::forward<R>(r)),
         take_while_(std::forward<TakeWhile>(take_while)) {}
 
   template <typename It>
diff --git a/include/utl/pipes/unique.h b/include/utl/pipes/unique.h
index 9a11954..487e67f 100755
--- a/include/utl/pipes/unique.h
+++ b/include/utl/pipes/unique.h
@@ -11,7 +11,7 @@ template <typename Range>
 struct unique_range : public clear_t<Range> {
   using parent_t = clear_t<Range>;
 
-  unique_range(Range&& r) : parent_t(std::forward<parent_t>(r)) {}
+  unique_range(Range&& r) : parent_t(std::forward<Range>(r)) {}
 
   template <typename It>
   void find(It& it) {
-- 
2.43.0


From f968178d808df06a94c76d561ce7eab963cf2a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:24 +0000
Subject: [PATCH 24/27] fix: iterator_facade looks up sentinel_type in the
 iterator, as documented

---
 include/utl/iterator_facade.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/iterator_facade.h b/include/utl/iterator_facade.h
index 201e355..6e113d7 100644
--- a/include/utl/iterator_facade.h
+++ b/include/utl/iterator_facade.h
@@ -111,7 +111,7 @@ template <typename T>
 concept iter_is_single_pass = bool(T::single_pass_iterator);
 
 template <typename T, typename Iter>
-concept iter_sentinel = std::is_same_v<T, typename T::sentinel_type>;
+concept iter_sentinel = std::is_same_v<T, typename Iter::sentinel_type>;
 
 // clang-format on
 
-- 
2.43.0


From 4294394769bb722590798066a971faf6d0944e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:15 +0000
Subject: [PATCH 25/27] fix: line_iterator::operator+ returns the advanced copy
 and leaves the iterator alone

---
 include/utl/parser/cstr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utl/parser/cstr.h b/include/utl/parser/cstr.h
index 09c9d46..70be639 100755
--- a/include/utl/parser/cstr.h
+++ b/include/utl/parser/cstr.h
@@ -228,7 +228,7 @@ struct line_iterator {
   }
   line_iterator operator+(difference_type const n) {
     line_iterator curr = *this;
-    *this += n;
+    curr += n;
     return curr;
   }
 
-- 
2.43.0


From de48d486f468eb8fc3acbb77b79408c567726539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:45 +0000
Subject: [PATCH 26/27] fix: parse_arg(bool) stores false for "false" whatever
 the default

---
 include/utl/parser/arg_parser.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/utl/parser/arg_parser.h b/include/utl/parser/arg_parser.h
index c50ae90..1e42a81 100644
--- a/include/utl/parser/arg_parser.h
+++ b/include/utl/parser/arg_parser.h
@@ -119,6 +119,9 @@ inline bool parse_arg(cstr& s, bool& b, bool const default_value = false) {
                      std::tolower(s[2]) == 'l' &&  //
                      std::tolower(s[3]) == 's' &&  //
                      std::tolower(s[4]) == 'e';
+    if (ret) {
+      b = false;
+    }
     for (int i = 0; i < 5 && s; ++i, ++s);
     return ret;
   }
-- 
2.43.0


From 8f6493de68e3dbc6e1dd916c863d0260d88e12b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:14 +0000
Subject: [PATCH 27/27] fix: PRINTABLE_ENUM keeps a blank written before a
 comma out of the name

---
 include/utl/printable_enum.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/utl/printable_enum.h b/include/utl/printable_enum.h
index 7b6f269..e58a220 100644
--- a/include/utl/printable_enum.h
+++ b/include/utl/printable_enum.h
@@ -17,6 +17,9 @@
       start = c;                                                     \
       c = std::find(std::next(c), end(s), ',');                      \
     }                                                                \
+    while (c != start && *std::prev(c) == ' ') {                     \
+      --c;                                                           \
+    }                                                                \
     return {start, c};                                               \
   }                                                                  \
   inline std::ostream& operator<<(std::ostream& out, name const v) { \
-- 
2.43.0

