From 3e4f8834ca9461e7a01e4fd657e09f10738b1849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 01/74] fix: Expected::value() aborted on values and let empty
 or error states through

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index e36326d..e7c417f 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -365,7 +365,7 @@ public:
     }
 
     V &value() {
-        if(*this) {
+        if(!has_value()) {
             abort();
         }
         return *reinterpret_cast<V *>(content);
-- 
2.43.0


From d63110bd152b7cfd416a97b771cbe0e201e07f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 02/74] fix: moving an empty Expected aborted

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index e7c417f..9d86bc1 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -335,7 +335,7 @@ public:
     Expected(Expected<V, E> &&o) noexcept : state{o.state} {
         if(o.has_value()) {
             new(content) V(::pystd2026::move(o.value()));
-        } else {
+        } else if(o.has_error()) {
             new(content) E(::pystd2026::move(o.error()));
         }
     }
-- 
2.43.0


From d4bea4f4a67fc526cf7b2b8c49c6549fd759d349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 03/74] fix: Expected move assignment read the value from its
 own destroyed storage

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 9d86bc1..800d376 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -352,7 +352,7 @@ public:
         if(this != &o) {
             destroy();
             if(o.has_value()) {
-                new(content) V(::pystd2026::move(*reinterpret_cast<V *>(content)));
+                new(content) V(::pystd2026::move(*reinterpret_cast<V *>(o.content)));
                 state = UnionState::Value;
             } else if(o.has_error()) {
                 new(content) E(::pystd2026::move(*reinterpret_cast<E *>(o.content)));
-- 
2.43.0


From 8c91f7dc62866e6c16d23e44a9d7375d44fdaf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 04/74] fix: Bytes::operator< continued past the first greater
 byte

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 800d376..483a3a0 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -961,7 +961,7 @@ public:
             if(c1 < c2) {
                 return true;
             }
-            if(c2 > c1) {
+            if(c1 > c2) {
                 return false;
             }
         }
-- 
2.43.0


From 3f5fcf79c878949a216d05d8e266edcf0753560b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 05/74] fix: Bytes::back() returned the last byte of the
 allocation

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 8773cc9..58b4fb3 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -337,7 +337,7 @@ char Bytes::back() const {
     if(is_empty()) {
         throw PyException("Buffer underrun.");
     }
-    auto result = buf[buf.size_bytes() - 1];
+    auto result = buf[bufsize - 1];
     return result;
 }
 
-- 
2.43.0


From 35e9b097f7f42011bfd30d62b095de629cb8841c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 06/74] fix: Bytes indexing was checked against the capacity
 instead of the size

---
 include/pystd2026.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 483a3a0..7a0d254 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -925,7 +925,12 @@ public:
 
     void pop_front(size_t num = 1);
 
-    char operator[](size_t i) const { return buf[i]; }
+    char operator[](size_t i) const {
+        if(i >= bufsize) {
+            bootstrap_throw("OOB access in Bytes.");
+        }
+        return buf[i];
+    }
 
     char unsafe_at(size_t i) const { return buf.unsafe_at(i); }
 
-- 
2.43.0


From 1038861bc7f0c9ebdb2d81f9fc42c1d0b69fc3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 07/74] fix: Bytes::pop_front of everything moved out of bounds
 and wrapped the size

---
 src/pystd2026.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 58b4fb3..82a1306 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -242,6 +242,7 @@ void Bytes::pop_back(size_t num) {
 void Bytes::pop_front(size_t num) {
     if(num >= bufsize) {
         clear();
+        return;
     }
     memmove(buf.get(), buf.get() + num, buf.size() - num);
     bufsize -= num;
-- 
2.43.0


From 97e8f2c10a4dda8e47b9fc1506fc48e7d16b0ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 08/74] fix: Bytes::remove accepted ranges that end past the
 contents

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 82a1306..5f490da 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -343,7 +343,7 @@ char Bytes::back() const {
 }
 
 void Bytes::remove(size_t from, size_t to) {
-    if(from > to) {
+    if(from > to || to > bufsize) {
         throw PyException("Invalid sequence to remove.");
     }
     if(from == to) {
-- 
2.43.0


From 970878475c196711027508579b4fc9f01b75d921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 09/74] fix: Bytes::insert refused to insert at the end

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 5f490da..85b5d8a 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -215,7 +215,7 @@ void Bytes::assign(const char *buf_in, size_t in_size) {
 }
 
 void Bytes::insert(size_t i, const char *buf_in, size_t in_size) {
-    if(i >= bufsize) {
+    if(i > bufsize) {
         throw PyException("Invalid index for insert.");
     }
     // FIXME
-- 
2.43.0


From 39e60a243f3039a43baee24fe0b30ceef9c43164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 10/74] fix: Span::subspan refused ranges reaching the end and
 accepted wrapping sizes

---
 include/pystd2026.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 7a0d254..59275d8 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -869,13 +869,13 @@ public:
     bool is_empty() const noexcept { return arraysize == 0; }
 
     Span subspan(size_t offset, size_t subspan_size = (size_t)-1) const {
-        if(offset >= arraysize) {
+        if(offset > arraysize) {
             bootstrap_throw("Offset OoB in subspan.");
         }
         if(subspan_size == (size_t)-1) {
             return Span(array + offset, arraysize - offset);
         }
-        if(offset + subspan_size >= arraysize) {
+        if(subspan_size > arraysize - offset) {
             bootstrap_throw("Subspan goes OoB.");
         }
         return Span(array + offset, subspan_size);
-- 
2.43.0


From 69bea3139ea632af010c73de3ebc1b8c8f790fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 11/74] fix: CStringView::substr with a huge count wrapped
 around

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 85b5d8a..c497c97 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -450,7 +450,7 @@ CStringView CStringView::substr(size_t pos, size_t count) const {
     size_t actual_count = count;
     if(count == (size_t)-1) {
         actual_count = bufsize - pos;
-    } else if(pos + count > bufsize) {
+    } else if(count > bufsize - pos) {
         actual_count = bufsize - pos;
     }
     return CStringView(buf + pos, actual_count);
-- 
2.43.0


From 59cd808e9f6391fcb6fd07823ca2618e8209cf95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 12/74] fix: unique_arr with a custom deleter was copyable and
 released its resource twice

---
 include/pystd2026.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 59275d8..f770be7 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -543,16 +543,16 @@ public:
     unique_arr() noexcept = default;
     explicit unique_arr(size_t size) noexcept : ptr{new T[size]}, array_size{size} {}
     unique_arr(T *t, size_t size = 0) noexcept : ptr{t}, array_size{size} {}
-    explicit unique_arr(const unique_arr<T> &o) = delete;
-    explicit unique_arr(unique_arr<T> &&o) noexcept : ptr{o.ptr}, array_size{o.array_size} {
+    explicit unique_arr(const unique_arr &o) = delete;
+    explicit unique_arr(unique_arr &&o) noexcept : ptr{o.ptr}, array_size{o.array_size} {
         o.ptr = nullptr;
         o.array_size = 0;
     }
     ~unique_arr() { Deleter::del(ptr); }
 
-    unique_arr &operator=(const unique_arr<T> &o) = delete;
+    unique_arr &operator=(const unique_arr &o) = delete;
 
-    unique_arr &operator=(unique_arr<T> &&o) noexcept {
+    unique_arr &operator=(unique_arr &&o) noexcept {
         if(this != &o) {
             Deleter::del(ptr);
             ptr = o.ptr;
-- 
2.43.0


From bc51ddbb02c690dc156cfd90e085bccb69c132e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 13/74] fix: MMapping move assignment leaked the mapping it
 replaced

---
 include/pystd2026.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index f770be7..ff213fc 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2276,6 +2276,7 @@ public:
 
     MMapping &operator=(MMapping &&o) noexcept {
         if(this != &o) {
+            MMapping released(::pystd2026::move(*this));
             buf = o.buf;
             bufsize = o.bufsize;
             o.buf = nullptr;
-- 
2.43.0


From 63c8131cc027978bf35afd60aa9c3f782ef0965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 14/74] fix: Vector::append_with_default constructed every
 element in the same slot

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index ff213fc..5b75052 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1246,7 +1246,7 @@ public:
         reserve(size() + num_copies);
         T *obj = objptr(size());
         for(size_t i = 0; i < num_copies; ++i) {
-            new(obj) T{};
+            new(obj + i) T{};
         }
         num_entries += num_copies;
     }
-- 
2.43.0


From cb3c458324a6959805a907f7ce6d07b346ac96e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 15/74] fix: Vector::emplace_back of an own element read it
 after reallocation

---
 include/pystd2026.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 5b75052..3045861 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1086,8 +1086,9 @@ public:
     }
 
     void emplace_back(auto &&...args) noexcept {
-        if constexpr(sizeof...(args) == 1 && ::pystd2026::is_same_v<decltype(args...[0]), T>) {
-            this->push_back(::pystd2026::forward(args...[0]));
+        if constexpr(sizeof...(args) == 1 &&
+                      ::pystd2026::is_same_v<::pystd2026::remove_cvref_t<decltype(args...[0])>, T>) {
+            this->push_back(::pystd2026::forward<decltype(args...[0])>(args...[0]));
         } else {
             reserve(num_entries + 1);
             auto obj_loc = objptr(num_entries);
-- 
2.43.0


From 1fb187ee3c117da2728f28b66ccd7495fdf3d5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 16/74] fix: CStringView indexing accepted the position one
 past the end

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 3045861..a74788e 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1633,7 +1633,7 @@ public:
     CStringView substr(size_t pos = 0, size_t count = (size_t)-1) const;
 
     char operator[](size_t index) const {
-        if(!buf || index > bufsize) {
+        if(!buf || index >= bufsize) {
             bootstrap_throw("OOB in CStringView.");
         }
         return buf[index];
-- 
2.43.0


From b2d1f2a5cf16c1b001fcdba4e2e70861e8cfc70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 17/74] fix: CStringView::front() of an empty view raised a
 plain string

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index c497c97..1773dec 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -405,7 +405,7 @@ bool CStringView::operator==(CStringView o) const {
 
 char CStringView::front() const {
     if(is_empty()) {
-        throw "Front requested on empty string.";
+        throw PyException("Front requested on empty string.");
     }
     return buf[0];
 }
-- 
2.43.0


From 44ba014c1a922c60132ce8ca78258bdc81aeb28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 18/74] fix: CStringView::find missed matches at the end of the
 text

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 1773dec..121a518 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -460,7 +460,7 @@ size_t CStringView::find(CStringView substr) const {
     if(substr.size() > size()) {
         return -1;
     }
-    for(size_t start = 0; start < size() - substr.size(); ++start) {
+    for(size_t start = 0; start <= size() - substr.size(); ++start) {
         bool has_mismatch = false;
         for(size_t i = 0; i < substr.size(); ++i) {
             if(buf[start + i] != substr.buf[i]) {
-- 
2.43.0


From 6739b4b6d9e3176762a74f9e7ecd0c735897f612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 19/74] fix: CStringView::starts_with(CStringView) indexed the
 prefix past its end

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 121a518..94f36e4 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -426,7 +426,7 @@ bool CStringView::starts_with(CStringView view) const {
     if(view.size() > size()) {
         return false;
     }
-    for(size_t i = 0; i < bufsize; ++i) {
+    for(size_t i = 0; i < view.bufsize; ++i) {
         if(view[i] != buf[i]) {
             return false;
         }
-- 
2.43.0


From 19cfd01d5f4867565b107620a71a0eba5bb9e831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 20/74] fix: views that only touch were reported as overlapping

---
 src/pystd2026.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 94f36e4..b830387 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -493,10 +493,10 @@ bool CStringView::overlaps(CStringView &other) const {
     const auto s2 = other.buf;
     const auto e2 = other.buf + other.bufsize;
 
-    if(e2 < s1) {
+    if(e2 <= s1) {
         return false;
     }
-    if(e1 < s2) {
+    if(e1 <= s2) {
         return false;
     }
     return true;
-- 
2.43.0


From aeedc7bc3db55d74f70d2210e422db8f788f5ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:23 +0000
Subject: [PATCH 21/74] fix: ZStringView took its size from an uninitialised
 sentinel test

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index b830387..27709ba 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -603,7 +603,7 @@ ZStringView::ZStringView(const char *original, size_t original_size) noexcept {
     if(original == nullptr) {
         buf = nullptr;
         bufsize = 0;
-    } else if(bufsize == (size_t)-1) {
+    } else if(original_size == (size_t)-1) {
         buf = original;
         bufsize = strlen(original);
     } else {
-- 
2.43.0


From 845d643e0f3940a2e400c92f51a3218389816ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:09 +0000
Subject: [PATCH 22/74] fix: CString::clear() dropped the terminator

---
 include/pystd2026.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index a74788e..126a623 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1721,7 +1721,10 @@ public:
     size_t size() const;
     size_t length() const { return size(); }
 
-    void clear() noexcept { bytes.clear(); }
+    void clear() noexcept {
+        bytes.clear();
+        bytes.append('\0');
+    }
 
     CString substr(size_t offset, size_t length = -1) const;
 
-- 
2.43.0


From 16d706c7aa4a3f7472ab8eb2d1688dc16629af26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 23/74] fix: CString::substr did not check its range

---
 src/pystd2026.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 27709ba..84e2857 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -675,10 +675,15 @@ size_t CString::size() const {
 }
 
 CString CString::substr(size_t offset, size_t length) const {
+    if(offset > size()) {
+        throw PyException("Substring starts past the end of CString.");
+    }
     if(length == (size_t)-1) {
-        CString(c_str() + offset, size() - offset);
+        return CString(c_str() + offset, size() - offset);
+    }
+    if(length > size() - offset) {
+        throw PyException("Substring goes past the end of CString.");
     }
-    // FIXME, validate range.
     return CString(c_str() + offset, length);
 }
 
-- 
2.43.0


From d893bf08f6031b78eafa56fd31b66e892956b5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 24/74] fix: CString::push_back and insert are noexcept but
 raise on bad arguments

---
 include/pystd2026.hpp | 4 ++--
 src/pystd2026.cpp     | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 126a623..8432262 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1780,9 +1780,9 @@ public:
     char back() const;
 
     void pop_back() noexcept;
-    void push_back(const char c) noexcept { append(c); }
+    void push_back(const char c) { append(c); }
 
-    void insert(size_t i, const CStringView &v) noexcept;
+    void insert(size_t i, const CStringView &v);
 
     size_t find(CStringView substr) const;
 
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 84e2857..54dc7e2 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -812,7 +812,7 @@ void CString::pop_back() noexcept {
     bytes.append('\0');
 }
 
-void CString::insert(size_t i, const CStringView &v) noexcept {
+void CString::insert(size_t i, const CStringView &v) {
     if(view_points_to_this(v)) {
         CString string_copy(v);
         insert(i, string_copy.view());
-- 
2.43.0


From 11ff1092500b3030fa8804ab9ba0c3fd2bd4665b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 25/74] fix: CString could insert after its terminator or
 remove it

---
 include/pystd2026.hpp | 7 ++++++-
 src/pystd2026.cpp     | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 8432262..a38082f 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1792,7 +1792,12 @@ public:
 
     void resize(size_t new_size) noexcept { bytes.resize(new_size); }
 
-    void remove(size_t from, size_t to) { bytes.remove(from, to); }
+    void remove(size_t from, size_t to) {
+        if(to > size()) {
+            bootstrap_throw("Invalid sequence to remove.");
+        }
+        bytes.remove(from, to);
+    }
 
     CString upper() const noexcept { return view().upper(); }
     CString lower() const noexcept { return view().lower(); }
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 54dc7e2..7a8fd08 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -818,6 +818,9 @@ void CString::insert(size_t i, const CStringView &v) {
         insert(i, string_copy.view());
         return;
     }
+    if(i > size()) {
+        throw PyException("Invalid index for insert.");
+    }
     bytes.insert(i, v.data(), v.size());
 }
 
-- 
2.43.0


From 53ee7b6cadebc5df0ed1612343d7f21eaaf7463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 26/74] fix: CString += accepted a null byte

---
 src/pystd2026.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 7a8fd08..eb0d7c5 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -748,9 +748,7 @@ CString &CString::operator+=(const CString &o) {
 }
 
 CString &CString::operator+=(char c) {
-    bytes.pop_back();
-    bytes.append(c);
-    bytes.append('\0');
+    append(c);
     return *this;
 }
 
-- 
2.43.0


From 5822efb9ae824ebaf493379762857ae1b5404d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 27/74] fix: CString::resize counted the terminator and lost it

---
 include/pystd2026.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index a38082f..118ad6a 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1790,7 +1790,14 @@ public:
 
     void reserve(size_t new_size) noexcept { bytes.reserve(new_size); }
 
-    void resize(size_t new_size) noexcept { bytes.resize(new_size); }
+    void resize(size_t new_size) noexcept {
+        bytes.pop_back();
+        while(bytes.size() < new_size) {
+            bytes.append(' ');
+        }
+        bytes.resize(new_size);
+        bytes.append('\0');
+    }
 
     void remove(size_t from, size_t to) {
         if(to > size()) {
-- 
2.43.0


From 6bb59cad7d0b497bbe39e0afb40ce7a7c505b21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 28/74] fix: FixedCString copied the byte after the given
 length instead of terminating

---
 include/pystd2026.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 118ad6a..deed52b 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1849,9 +1849,10 @@ public:
         if(length_in > BUF_SIZE) {
             bootstrap_throw("Input string too long for FixedCString.");
         }
-        for(size_t i = 0; i < length_in + 1; ++i) {
+        for(size_t i = 0; i < length_in; ++i) {
             buf[i] = str[i];
         }
+        buf[length_in] = '\0';
         strsize = length_in;
     }
 
-- 
2.43.0


From 6b35e1906d71688f3eb7b6997e150843f99ec2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 29/74] fix: overlong, surrogate and out of range UTF-8
 sequences were accepted

---
 src/pystd2026.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index eb0d7c5..a47b4e2 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -57,7 +57,13 @@ bool is_valid_uf8_character(const char *input,
         unpacked |= subsequent & subsequent_data_mask;
     }
 
-    return true;
+    const uint32_t smallest_value = par.num_subsequent_bytes == 1   ? 0x80
+                                    : par.num_subsequent_bytes == 2 ? 0x800
+                                                                    : 0x10000;
+    if(unpacked < smallest_value || unpacked > 0x10FFFF) {
+        return false;
+    }
+    return unpacked < 0xD800 || unpacked > 0xDFFF;
 }
 
 bool is_valid_utf8(const char *input, size_t input_size) {
-- 
2.43.0


From 73cf25dd7b77c93efb484d0558cd56d41a0104c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 30/74] fix: U8String::append_codepoint encoded surrogates

---
 src/pystd2026.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index a47b4e2..b21e592 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1143,6 +1143,9 @@ void U8String::pop_back() noexcept {
 
 void U8String::append_codepoint(uint32_t codepoint) {
     unsigned char buf[5] = {0, 0, 0, 0, 0};
+    if(codepoint >= 0xD800 && codepoint <= 0xDFFF) {
+        throw PyException("Surrogates are not Unicode scalar values.");
+    }
     if(codepoint < 0x80) {
         buf[0] = codepoint;
     } else if(codepoint < 0x800) {
-- 
2.43.0


From ab5f13ff5721ee191114d824e8fea4aed1588b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 31/74] fix: U8String::substr did not check its range

---
 src/pystd2026.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index b21e592..462e8ed 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1062,7 +1062,15 @@ U8String::U8String(const char *txt, size_t txtsize) {
 }
 
 U8String U8String::substr(size_t offset, size_t length) const {
-    // FIXME, validate range.
+    if(offset > size_bytes()) {
+        throw PyException("Substring starts past the end of U8String.");
+    }
+    if(length == (size_t)-1) {
+        length = size_bytes() - offset;
+    }
+    if(length > size_bytes() - offset) {
+        throw PyException("Substring goes past the end of U8String.");
+    }
     return U8String(cstring.data() + offset, length);
 }
 
-- 
2.43.0


From eaaf4f09054149d97d97d0adf667f5e121f9efef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 32/74] fix: PyException kept non-ASCII bytes of its message on
 signed char platforms

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 462e8ed..8c62e3a 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1196,7 +1196,7 @@ PyException::PyException(const char *msg) : message("") {
     size_t offset = 0;
     while(msg[offset]) {
         auto c = msg[offset++];
-        if(c > 127) {
+        if((unsigned char)c > 127) {
             b.append('?');
         } else {
             b.append(c);
-- 
2.43.0


From 279c7dd5c85c4cc216594deaec7a5e65aaaa4d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 33/74] fix: clamp of an integer below the range returned it
 unchanged

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 8c62e3a..ede2d5f 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1349,7 +1349,7 @@ int64_t clamp(int64_t val, int64_t lower, int64_t upper) {
         internal_failure("Bad range to clamp.");
     }
     if(val < lower) {
-        return val;
+        return lower;
     }
     if(val > upper) {
         return upper;
-- 
2.43.0


From ab8dc5b49261e41ca36b8ef21d1c763976c401df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 34/74] fix: FloatIgnoreNanComparator ordered equal values

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index deed52b..9c4d10e 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2545,7 +2545,7 @@ template<typename T> struct FloatIgnoreNanComparator {
         if(b < a) {
             return 1;
         }
-        return 1;
+        return 0;
     }
 
     bool equal(const T a, const T b) const noexcept { return a == b; }
-- 
2.43.0


From eadd1cd53322ca4f2953d869ac5a0cf04baf0a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 35/74] fix: lower_bound of an empty range returned an
 unrelated iterator

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 9c4d10e..2b5c5bb 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2553,7 +2553,7 @@ template<typename T> struct FloatIgnoreNanComparator {
 
 template<BasicIterator It, typename Value, typename Comparator>
 It lower_bound(It first, It last, const Value &value, const Comparator &cmp) {
-    It it{};
+    It it = first;
     auto count = last - first;
     while(count > 0) {
         it = first;
-- 
2.43.0


From 4808b62c146e4dca096ec7969d3d7a4733f00d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 36/74] fix: Range with a negative step yielded nothing

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index ede2d5f..ce6a6bd 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1255,7 +1255,7 @@ Range::Range(int64_t start, int64_t end_) : Range(start, end_, 1) {}
 Range::Range(int64_t start, int64_t end_, int64_t step_) : i{start}, end{end_}, step{step_} {}
 
 Optional<int64_t> Range::next() {
-    if(i >= end) {
+    if(step < 0 ? i <= end : i >= end) {
         return {};
     }
 
-- 
2.43.0


From 71a184d3052134450a6152ce7a3df7bbad8568b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 37/74] fix: maxval and minval truncated their result to int

---
 include/pystd2026.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 2b5c5bb..b6099ff 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -194,11 +194,11 @@ concept BasicIterator = ::pystd2026::WellBehaved<T> && requires(T a) {
     // requires ::pystd2026::WellBehaved<::pystd2026::remove_reference_t<decltype(*a)>>;
 };
 
-template<typename T1, typename T2> constexpr int maxval(const T1 &a, const T2 &b) {
+template<typename T1, typename T2> constexpr auto maxval(const T1 &a, const T2 &b) {
     return a < b ? b : a;
 }
 
-template<typename T1, typename T2> constexpr int minval(const T1 &a, const T2 &b) {
+template<typename T1, typename T2> constexpr auto minval(const T1 &a, const T2 &b) {
     return a < b ? a : b;
 }
 
-- 
2.43.0


From f9509b8378814f638efef5ff46dcdcc3f6629cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 38/74] fix: formatting more than 1023 characters killed the
 process

---
 src/pystd2026.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index ce6a6bd..f4de5ac 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1311,19 +1311,24 @@ CString cformat(const char *format, ...) {
 void cformat_with_cb(StringCFormatCallback cb, void *ctx, const char *format, va_list ap) {
     const int bufsize = 1024;
     char buf[bufsize];
+    va_list retry_args;
+    va_copy(retry_args, ap);
     auto rc = vsnprintf(buf, bufsize, format, ap);
     if(rc < 0) {
+        va_end(retry_args);
         throw PyException(strerror(errno));
     } else if(rc >= bufsize) {
-        if(INT_MAX - 1 >= rc) {
+        if(rc == INT_MAX) {
             // Almost certainly either a bug or an exploit.
             internal_failure("Tried to format a buffer that is too big.");
         }
-        unique_arr<char> bigbuf(bufsize + 1);
-        rc = vsnprintf(buf, bufsize, format, ap);
+        unique_arr<char> bigbuf((size_t)rc + 1);
+        rc = vsnprintf(bigbuf.get(), bigbuf.size(), format, retry_args);
+        va_end(retry_args);
         assert(rc > 0);
         cb(bigbuf.get(), rc, ctx);
     } else {
+        va_end(retry_args);
         cb(buf, rc, ctx);
     }
 }
-- 
2.43.0


From d4e550a50b53bfdc64c8380424854731c43e7fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 39/74] fix: CStringView::operator< stopped at null bytes and
 compared null pointers

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index f4de5ac..e881945 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -483,7 +483,7 @@ size_t CStringView::find(CStringView substr) const {
 
 bool CStringView::operator<(const CStringView &o) const {
     const size_t common_size = o.size() < size() ? o.size() : size();
-    auto rc = strncmp(data(), o.data(), common_size);
+    auto rc = common_size > 0 ? memcmp(data(), o.data(), common_size) : 0;
     if(rc < 0) {
         return true;
     }
-- 
2.43.0


From 28bfb295f4f133a479b5efda44f522e69a71b545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:10 +0000
Subject: [PATCH 40/74] fix: CString::rfind matched the terminator

---
 src/pystd2026.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index e881945..ec3d040 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -831,12 +831,12 @@ void CString::insert(size_t i, const CStringView &v) {
 size_t CString::find(CStringView substr) const { return view().find(substr); }
 
 size_t CString::rfind(const char c) const noexcept {
-    size_t i = bytes.size() - 1;
-    while(i != (size_t)-1) {
+    size_t i = size();
+    while(i > 0) {
+        --i;
         if(bytes[i] == c) {
             return i;
         }
-        --i;
     }
     return -1;
 }
-- 
2.43.0


From 05779f9f6e39e5a4caf805b0cc1f33c2b607c134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:34 +0000
Subject: [PATCH 41/74] fix: natural_order mixed up its positions and parsed
 numbers past the end of the view

---
 src/pystd2026.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index ec3d040..a8553bc 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -526,6 +526,20 @@ CString CStringView::lower() const noexcept {
     return result;
 }
 
+static unsigned long parse_number(const char *&position, const char *end) {
+    unsigned long value = 0;
+    while(position < end && *position >= '0' && *position <= '9') {
+        const unsigned long digit = *position - '0';
+        if(value > (ULONG_MAX - digit) / 10) {
+            value = ULONG_MAX;
+        } else {
+            value = 10 * value + digit;
+        }
+        ++position;
+    }
+    return value;
+}
+
 int CStringView::natural_order(const CStringView &o) const {
     const char *left = buf;
     const char *right = o.buf;
@@ -543,10 +557,10 @@ int CStringView::natural_order(const CStringView &o) const {
         if(right_exhausted) {
             return 1;
         }
-        char *left_end;
-        char *right_end;
-        const auto left_int = strtoul(left + i_left, &left_end, 10);
-        const auto right_int = strtoul(right + i_left, &right_end, 10);
+        const char *left_end = left + i_left;
+        const char *right_end = right + i_right;
+        const auto left_int = parse_number(left_end, left + bufsize);
+        const auto right_int = parse_number(right_end, right + o.bufsize);
         const bool left_has_num = (left + i_left) != left_end;
         const bool right_has_num = (right + i_right) != right_end;
 
-- 
2.43.0


From 160887997c37bbfead6b01122521acbda1ded816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:34 +0000
Subject: [PATCH 42/74] fix: U8StringView never equalled a C string with
 non-ASCII characters

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index a8553bc..32d2051 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -988,7 +988,7 @@ bool U8StringView::operator==(const char *txt) const noexcept {
         if(data_start + i == data_end) {
             return txt[i] == '\0';
         }
-        if(data_start[i] != txt[i]) {
+        if(data_start[i] != (unsigned char)txt[i]) {
             return false;
         }
         ++i;
-- 
2.43.0


From c99c8c4f362ae0d6789696f887b8a8477d8074e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:17 +0000
Subject: [PATCH 43/74] fix: four 2026 headers could not be included twice in
 one translation unit

---
 include/pystd2026_argparse.hpp    | 2 ++
 include/pystd2026_hashtable.hpp   | 2 ++
 include/pystd2026_nth_element.hpp | 2 ++
 include/pystd2026_radixsort.hpp   | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/include/pystd2026_argparse.hpp b/include/pystd2026_argparse.hpp
index 13a07ec..0af3903 100644
--- a/include/pystd2026_argparse.hpp
+++ b/include/pystd2026_argparse.hpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: Apache-2.0
 // Copyright 2025 Jussi Pakkanen
 
+#pragma once
+
 #include <pystd2026_variant.hpp>
 
 namespace pystd2026 {
diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 2a81123..209b480 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: Apache-2.0
 // Copyright 2022-2026 Jussi Pakkanen
 
+#pragma once
+
 #include <pystd2026.hpp>
 
 namespace pystd2026 {
diff --git a/include/pystd2026_nth_element.hpp b/include/pystd2026_nth_element.hpp
index 5af01fe..528d4c5 100644
--- a/include/pystd2026_nth_element.hpp
+++ b/include/pystd2026_nth_element.hpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: Apache-2.0
 // Copyright 2025 Jussi Pakkanen
 
+#pragma once
+
 #include <pystd2026.hpp>
 #include <pystd2026_heapsort.hpp>
 
diff --git a/include/pystd2026_radixsort.hpp b/include/pystd2026_radixsort.hpp
index 1fc389b..f81b023 100644
--- a/include/pystd2026_radixsort.hpp
+++ b/include/pystd2026_radixsort.hpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: Apache-2.0
 // Copyright 2025 Jussi Pakkanen
 
+#pragma once
+
 #include <pystd2026.hpp>
 
 namespace pystd2026 {
-- 
2.43.0


From 57e13c3f64d9af1edb7bb15181a4be52d963a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:15 +0000
Subject: [PATCH 44/74] fix: CString copy assignment and the GlobResult default
 constructor were declared but not defined

---
 src/pystd2026.cpp            | 6 ++++++
 src/pystd2026_filesystem.cpp | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 32d2051..c61d6a7 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -778,6 +778,12 @@ CString &CString::operator+=(const char *str) {
     return *this;
 }
 
+void CString::operator=(const ::pystd2026::CString &o) noexcept {
+    if(this != &o) {
+        bytes = o.bytes;
+    }
+}
+
 CString &CString::operator=(const char *str) {
     CStringView tmp(str);
     clear();
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 4b786fc..aeb8de2 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -319,6 +319,8 @@ private:
     Vector<DirSearchState> dir_stack;
 };
 
+GlobResult::GlobResult() noexcept = default;
+
 GlobResult::GlobResult(GlobResult &&o) noexcept = default;
 
 GlobResult::~GlobResult() = default;
-- 
2.43.0


From 8ece134c3183f1724bc07780f68249258127d11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:18 +0000
Subject: [PATCH 45/74] fix: is_integral did not know signed char (int8_t) and
 the character types

---
 include/pystd2026.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index b6099ff..6ada8b7 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -128,6 +128,11 @@ template<class T> constexpr bool is_floating_point_v = is_floating_point<T>::val
 template<class T> struct is_integral_base : ::pystd2026::false_type {};
 template<> struct is_integral_base<bool> : ::pystd2026::true_type {};
 template<> struct is_integral_base<char> : ::pystd2026::true_type {};
+template<> struct is_integral_base<signed char> : ::pystd2026::true_type {};
+template<> struct is_integral_base<wchar_t> : ::pystd2026::true_type {};
+template<> struct is_integral_base<char8_t> : ::pystd2026::true_type {};
+template<> struct is_integral_base<char16_t> : ::pystd2026::true_type {};
+template<> struct is_integral_base<char32_t> : ::pystd2026::true_type {};
 template<> struct is_integral_base<short> : ::pystd2026::true_type {};
 template<> struct is_integral_base<int> : ::pystd2026::true_type {};
 template<> struct is_integral_base<long> : ::pystd2026::true_type {};
-- 
2.43.0


From 12b1974e293e1ce4ff766c1250d7c8c77b77f5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:18 +0000
Subject: [PATCH 46/74] fix: is_floating_point did not know long double

---
 include/pystd2026.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 6ada8b7..ee57d2a 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -119,6 +119,7 @@ template<class T> constexpr bool is_reference_v = ::pystd2026::is_reference<T>::
 template<class T> struct is_floating_point_base : ::pystd2026::false_type {};
 template<> struct is_floating_point_base<float> : ::pystd2026::true_type {};
 template<> struct is_floating_point_base<double> : ::pystd2026::true_type {};
+template<> struct is_floating_point_base<long double> : ::pystd2026::true_type {};
 
 template<typename T>
 struct is_floating_point : is_floating_point_base<remove_cv_t<remove_reference_t<T>>> {};
-- 
2.43.0


From 05ca7c9534f6afaad2d64b0ff896223596f08d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 47/74] fix: CString: append text that is part of the string
 itself

---
 src/pystd2026.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index c61d6a7..6b96abf 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -804,6 +804,12 @@ void CString::append(const char *str, size_t strsize) {
     if(strsize == (size_t)-1) {
         strsize = strlen(str);
     }
+    if(bytes.is_ptr_within(str)) {
+        // Appending may reallocate the text being appended.
+        const CString copy(str, strsize);
+        append(copy.c_str(), strsize);
+        return;
+    }
     for(size_t i = 0; i < strsize; ++i) {
         // FIXME, slow.
         append(str[i]);
-- 
2.43.0


From 23c6aa0b718accf1efe4146c64b7ba534bcdbf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:23 +0000
Subject: [PATCH 48/74] fix: CString: assign text that is part of the string
 itself

---
 src/pystd2026.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 6b96abf..781f17d 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -786,7 +786,6 @@ void CString::operator=(const ::pystd2026::CString &o) noexcept {
 
 CString &CString::operator=(const char *str) {
     CStringView tmp(str);
-    clear();
     (*this) = tmp;
     return *this;
 }
-- 
2.43.0


From 953f41a775cf1e06ea970cf57b4897f8c5e5cd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 49/74] fix: Bytes: append and assign bytes of the buffer
 itself

---
 src/pystd2026.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 781f17d..c6d9fa9 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -214,6 +214,11 @@ Bytes::Bytes(const Bytes &o) noexcept
 }
 
 void Bytes::assign(const char *buf_in, size_t in_size) {
+    if(is_ptr_within(buf_in)) {
+        // Growing would release the bytes to be assigned.
+        *this = Bytes(buf_in, in_size);
+        return;
+    }
     bufsize = 0;
     grow_to(in_size + 1);               // Prepare for the eventual null terminator.
     memcpy(buf.get(), buf_in, in_size); // str might not be null terminated.
@@ -283,6 +288,11 @@ void Bytes::append(const char c) {
 }
 
 void Bytes::append(const char *begin, const char *end) {
+    if(begin != end && is_ptr_within(begin)) {
+        // Growing would release the bytes to be appended.
+        *this += Bytes(begin, end);
+        return;
+    }
     while(begin != end) {
         append(*begin);
         ++begin;
-- 
2.43.0


From a315de13f6a9302302fbe5c8a5506aeda7cd4bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 50/74] fix: FixedCString: assigning a prefix of itself
 truncates

---
 include/pystd2026.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index ee57d2a..718588d 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1887,6 +1887,10 @@ public:
 
     FixedCString &operator=(const CStringView &o) {
         if(o.data() == buf) {
+            if(o.size() < strsize) {
+                strsize = o.size();
+                buf[strsize] = '\0';
+            }
             return *this;
         }
         if(o.size() > BUF_SIZE) {
-- 
2.43.0


From dc6b400f6e1bc7a1572ce0907d09e4c5e56bf211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 51/74] fix: FixedCString: assigning a longer FixedCString
 raises instead of terminating

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 718588d..16543b4 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1880,7 +1880,7 @@ public:
     }
 
     template<size_t OTHER_BUFSIZE>
-    FixedCString &operator=(const FixedCString<OTHER_BUFSIZE> &o) noexcept {
+    FixedCString &operator=(const FixedCString<OTHER_BUFSIZE> &o) {
         *this = o.view();
         return *this;
     }
-- 
2.43.0


From 16da43c8062297ae5e081a06ad93f5ab5d6cd750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:36 +0000
Subject: [PATCH 52/74] fix: FixedCString: comparing with a C string stops at
 its end

---
 include/pystd2026.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 16543b4..3930655 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1916,12 +1916,12 @@ public:
     }
 
     bool operator==(const char *str) noexcept {
-        for(size_t i = 0; i < strsize + 1; ++i) {
-            if(buf[i] != str[i]) {
+        for(size_t i = 0; i < strsize; ++i) {
+            if(str[i] == '\0' || buf[i] != str[i]) {
                 return false;
             }
         }
-        return true;
+        return str[strsize] == '\0';
     }
 
     char &operator[](uint32_t index) {
-- 
2.43.0


From 9503ef760989d0c65de324d0437e8dcc62ae6d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:42 +0000
Subject: [PATCH 53/74] fix: HashMap: removing an entry destroys its key, too

---
 include/pystd2026_hashtable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 209b480..516d534 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -76,6 +76,7 @@ public:
                 auto *potential_key = data.keyptr(slot);
                 if(*potential_key == key) {
                     auto *value_loc = data.valueptr(slot);
+                    potential_key->~Key();
                     value_loc->~Value();
                     const auto previous_slot = (slot + table_size() - 1) & mod_mask();
                     const auto next_slot = (slot + 1) & mod_mask();
-- 
2.43.0


From 0957bd701ef9a6e75575ba232b955d720441aff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:42 +0000
Subject: [PATCH 54/74] fix: HashMap: inserting over a tombstone does not
 duplicate a key behind it

---
 include/pystd2026_hashtable.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 516d534..9496c00 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -213,8 +213,20 @@ private:
 
     Value &insert_internal(size_t hashval, const Key &key, Value &&v) {
         auto slot = hash_to_slot(hashval);
+        size_t tombstone = (size_t)-1;
         while(true) {
-            if(data.md[slot].state != SlotState::HasValue) {
+            if(data.md[slot].state == SlotState::Tombstone) {
+                // Reusable, but the key may still be further on.
+                if(tombstone == (size_t)-1) {
+                    tombstone = slot;
+                }
+                slot = (slot + 1) & mod_mask();
+                continue;
+            }
+            if(data.md[slot].state == SlotState::Empty) {
+                if(tombstone != (size_t)-1) {
+                    slot = tombstone;
+                }
                 auto *key_loc = data.keyptr(slot);
                 auto *value_loc = data.valueptr(slot);
                 new(key_loc) Key(key);
-- 
2.43.0


From bb7de8af90382a797f154065c02822741ab542b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:42 +0000
Subject: [PATCH 55/74] fix: HashMap: tombstones take up table space, too

---
 include/pystd2026_hashtable.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 9496c00..63c74df 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -21,6 +21,7 @@ public:
     HashMap() noexcept {
         salt = (size_t)this;
         num_entries = 0;
+        num_tombstones = 0;
         size_in_powers_of_two = 4;
         auto initial_table_size = 1 << size_in_powers_of_two;
         data.md = unique_arr<SlotMetadata>(initial_table_size);
@@ -85,6 +86,7 @@ public:
                         data.md[slot].state = SlotState::Empty;
                     } else {
                         data.md[slot].state = SlotState::Tombstone;
+                        ++num_tombstones;
                     }
                     --num_entries;
                     return;
@@ -120,6 +122,7 @@ public:
     void clear() {
         data.clear();
         num_entries = 0;
+        num_tombstones = 0;
     }
 
 private:
@@ -226,6 +229,7 @@ private:
             if(data.md[slot].state == SlotState::Empty) {
                 if(tombstone != (size_t)-1) {
                     slot = tombstone;
+                    --num_tombstones;
                 }
                 auto *key_loc = data.keyptr(slot);
                 auto *value_loc = data.valueptr(slot);
@@ -248,8 +252,10 @@ private:
     }
 
     void grow() {
-        const auto new_size = 2 * table_size();
-        const auto new_powers_of_two = size_in_powers_of_two + 1;
+        // If most of the used slots are tombstones, only get rid of those.
+        const bool is_larger = num_entries >= num_tombstones;
+        const auto new_size = is_larger ? 2 * table_size() : table_size();
+        const auto new_powers_of_two = size_in_powers_of_two + (is_larger ? 1 : 0);
         MapData grown;
 
         grown.md = unique_arr<SlotMetadata>(new_size);
@@ -261,6 +267,7 @@ private:
         data = move(grown);
         size_in_powers_of_two = new_powers_of_two;
         num_entries = 0;
+        num_tombstones = 0;
         for(size_t i = 0; i < old.md.size(); ++i) {
             if(old.md[i].state == SlotState::HasValue) {
                 auto &old_key = *old.keyptr(i);
@@ -282,13 +289,14 @@ private:
 
     size_t table_size() const { return data.md.size(); }
 
-    size_t fill_ratio() const { return (num_entries * 100) / table_size(); }
+    size_t fill_ratio() const { return ((num_entries + num_tombstones) * 100) / table_size(); }
     static constexpr size_t MAX_LOAD_PERCENTAGE = 77;
     // static constexpr size_t MIN_LOAD_PERCENTAGE = 25;
 
     MapData data;
     size_t salt;
     size_t num_entries;
+    size_t num_tombstones;
     uint32_t size_in_powers_of_two;
 };
 
-- 
2.43.0


From d63cc81d432d23e18ac1e8aaea82a740807a0eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:42 +0000
Subject: [PATCH 56/74] fix: HashMap: move assignment destroys the entries it
 replaces

---
 include/pystd2026_hashtable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 63c74df..bfaa774 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -158,6 +158,7 @@ private:
 
         void operator=(MapData &&o) noexcept {
             if(this != &o) {
+                deallocate_contents();
                 md = move(o.md);
                 keydata = move(o.keydata);
                 valuedata = move(o.valuedata);
-- 
2.43.0


From d97da08bccd5458f025cdbbdffaa2042a2a967a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:42 +0000
Subject: [PATCH 57/74] fix: HashMap: inserting with a key of the map itself
 survives growing

---
 include/pystd2026_hashtable.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index bfaa774..e8ae5e3 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -58,6 +58,11 @@ public:
 
     Value &insert(const Key &key, Value v) {
         if(fill_ratio() >= MAX_LOAD_PERCENTAGE) {
+            if(auto *existing = lookup(key)) {
+                // The key might be stored in this very map.
+                *existing = ::pystd2026::move(v);
+                return *existing;
+            }
             grow();
         }
 
-- 
2.43.0


From f734555dd464c15e6f343a3a597690b41e3ab1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:18 +0000
Subject: [PATCH 58/74] fix: HashSet can be iterated, maps and sets with
 another hash, too

---
 include/pystd2026_hashtable.hpp | 42 ++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index e8ae5e3..06d806e 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -7,7 +7,7 @@
 
 namespace pystd2026 {
 
-template<typename Key, typename Value> class HashMapIterator;
+template<typename Key, typename Value, typename HashAlgo = SimpleHash> class HashMapIterator;
 
 template<WellBehaved Key, WellBehaved Value, WellBehaved HashAlgo = SimpleHash>
 class HashMap final {
@@ -17,7 +17,7 @@ public:
     static_assert(!::pystd2026::is_reference_v<Key>);
     static_assert(!::pystd2026::is_reference_v<Value>);
 
-    friend class HashMapIterator<Key, Value>;
+    friend class HashMapIterator<Key, Value, HashAlgo>;
     HashMap() noexcept {
         salt = (size_t)this;
         num_entries = 0;
@@ -116,12 +116,12 @@ public:
 
     bool is_empty() const { return size() == 0; }
 
-    HashMapIterator<Key, Value> begin() const {
-        return HashMapIterator<Key, Value>(const_cast<HashMap *>(this), 0);
+    HashMapIterator<Key, Value, HashAlgo> begin() const {
+        return HashMapIterator<Key, Value, HashAlgo>(const_cast<HashMap *>(this), 0);
     }
 
-    HashMapIterator<Key, Value> end() const {
-        return HashMapIterator<Key, Value>(const_cast<HashMap *>(this), table_size());
+    HashMapIterator<Key, Value, HashAlgo> end() const {
+        return HashMapIterator<Key, Value, HashAlgo>(const_cast<HashMap *>(this), table_size());
     }
 
     void clear() {
@@ -311,21 +311,21 @@ template<typename Key, typename Value> struct KeyValue {
     Value *value;
 };
 
-template<typename Key, typename Value> class HashMapIterator final {
+template<typename Key, typename Value, typename HashAlgo> class HashMapIterator final {
 public:
-    HashMapIterator(HashMap<Key, Value> *map, size_t offset) : map{map}, offset{offset} {
+    HashMapIterator(HashMap<Key, Value, HashAlgo> *map, size_t offset) : map{map}, offset{offset} {
         if(offset == 0 && !map->data.has_value_at(offset)) {
             advance();
         }
     }
 
     KeyValue<Key, Value> operator*() {
-        return KeyValue{map->data.keyptr(offset), map->data.valueptr(offset)};
+        return KeyValue<Key, Value>{map->data.keyptr(offset), map->data.valueptr(offset)};
     }
 
-    bool operator!=(const HashMapIterator<Key, Value> &o) const { return offset != o.offset; };
+    bool operator!=(const HashMapIterator<Key, Value, HashAlgo> &o) const { return offset != o.offset; };
 
-    HashMapIterator<Key, Value> &operator++() {
+    HashMapIterator<Key, Value, HashAlgo> &operator++() {
         advance();
         return *this;
     }
@@ -338,25 +338,25 @@ private:
         }
     }
 
-    HashMap<Key, Value> *map;
+    HashMap<Key, Value, HashAlgo> *map;
     size_t offset;
 };
 
-template<WellBehaved Key> class HashSetIterator final {
+template<WellBehaved Key, WellBehaved HashAlgo = SimpleHash> class HashSetIterator final {
 public:
-    HashSetIterator(HashMapIterator<Key, int> it_) : it{it_} {}
+    HashSetIterator(HashMapIterator<Key, uint8_t, HashAlgo> it_) : it{it_} {}
 
     Key &operator*() { return *(*it).key; }
 
-    bool operator!=(const HashSetIterator<Key> &o) const { return it != o.it; };
+    bool operator!=(const HashSetIterator<Key, HashAlgo> &o) const { return it != o.it; };
 
-    HashSetIterator<Key> &operator++() {
+    HashSetIterator<Key, HashAlgo> &operator++() {
         ++it;
         return *this;
     }
 
 private:
-    HashMapIterator<Key, int> it;
+    HashMapIterator<Key, uint8_t, HashAlgo> it;
 };
 
 struct HashInsertResult {
@@ -387,9 +387,13 @@ public:
 
     void clear() noexcept { map.clear(); }
 
-    HashSetIterator<Key> begin() const { return HashSetIterator<Key>(map.begin()); }
+    HashSetIterator<Key, HashAlgo> begin() const {
+        return HashSetIterator<Key, HashAlgo>(map.begin());
+    }
 
-    HashSetIterator<Key> end() const { return HashSetIterator<Key>(map.end()); }
+    HashSetIterator<Key, HashAlgo> end() const {
+        return HashSetIterator<Key, HashAlgo>(map.end());
+    }
 
 private:
     // This is inefficient.
-- 
2.43.0


From bfdebcd1b1468b4c39163279113d0f7b3b7c3b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 59/74] fix: Thread: joining or detaching twice raises instead
 of using a dead handle

---
 src/pystd2026_threading.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pystd2026_threading.cpp b/src/pystd2026_threading.cpp
index 20095b7..24f7dcf 100644
--- a/src/pystd2026_threading.cpp
+++ b/src/pystd2026_threading.cpp
@@ -59,11 +59,17 @@ Thread::~Thread() {
 }
 
 void Thread::join() {
+    if(thread_is_finalized) {
+        throw PyException("Thread has already been joined or detached.");
+    }
     pthread_join(thread, nullptr);
     thread_is_finalized = true;
 }
 
 void Thread::detach() {
+    if(thread_is_finalized) {
+        throw PyException("Thread has already been joined or detached.");
+    }
     pthread_detach(thread);
     thread_is_finalized = true;
 }
-- 
2.43.0


From 29234b186dfe78229b5a9062be0b255fdc4666bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 60/74] fix: shell sort orders by the given comparator only

---
 include/pystd2026_shellsort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_shellsort.hpp b/include/pystd2026_shellsort.hpp
index abf2b52..d88ede2 100644
--- a/include/pystd2026_shellsort.hpp
+++ b/include/pystd2026_shellsort.hpp
@@ -15,7 +15,7 @@ void shell_sort_single_iteration(It begin, It end, const size_t gap, const Compa
     for(size_t i = gap; i < buf_size; ++i) {
         size_t j = i;
         scratch = ::pystd2026::move(*(begin + i));
-        for(; (j >= gap) && (*(begin + j - gap) > scratch); j -= gap) {
+        for(; (j >= gap) && (cmp.compare(*(begin + j - gap), scratch) > 0); j -= gap) {
             *(begin + j) = ::pystd2026::move(*(begin + j - gap));
         }
         *(begin + j) = ::pystd2026::move(scratch);
-- 
2.43.0


From c4b1974fb9c2485231c80d40a5c385a9dc90de90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 61/74] fix: introsort finds equal elements by the given
 comparator only

---
 include/pystd2026_introsort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_introsort.hpp b/include/pystd2026_introsort.hpp
index 71cad8a..5c1dd69 100644
--- a/include/pystd2026_introsort.hpp
+++ b/include/pystd2026_introsort.hpp
@@ -119,7 +119,7 @@ void do_introsort(It begin,
     // Equal values adjacent to the pivot are also in their correct locations.
     // Most are in the right half as the partition critarion was <.
     // Gobble up as many as we can.
-    while(right_begin < right_end && (*right_begin == *last_value_point)) {
+    while(right_begin < right_end && (cmp.compare(*right_begin, *last_value_point) == 0)) {
         ++right_begin;
     }
 
-- 
2.43.0


From d7cdb662e0a129c01484d661f9d7f80561d95a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 62/74] fix: introsort of many equal elements does not read
 past the end

---
 include/pystd2026.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 3930655..3bb22e2 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2720,6 +2720,9 @@ constexpr size_t insertion_sort_limit =
 template<BasicIterator It, typename Comparator>
 void insertion_sort_has_sentinel(It begin, It end, const Comparator &cmp) {
     using ValueType = ::pystd2026::remove_reference_t<decltype(*begin)>;
+    if(begin == end) {
+        return;
+    }
     // This should be faster, but according to measurements it is not.
     constexpr bool is_cheap_to_copy = false;
     // ::pystd2026::is_integral_v<ValueType> || ::pystd2026::is_floating_point_v<ValueType>;
-- 
2.43.0


From 3e547c2b4001578b84cfe4f429a6139fc012a0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 63/74] fix: radix sort handles 64 bit values and equal values

---
 include/pystd2026_radixsort.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026_radixsort.hpp b/include/pystd2026_radixsort.hpp
index f81b023..108e96b 100644
--- a/include/pystd2026_radixsort.hpp
+++ b/include/pystd2026_radixsort.hpp
@@ -11,7 +11,11 @@ template<WellBehaved ValueType, BasicIterator It>
 void do_radix_sort(It begin, It end, const ValueType needs_processing_mask, const size_t round) {
     const ssize_t INSERTION_SORT_LIMIT = ::pystd2026::insertion_sort_limit<ValueType>;
     const auto num_bits = sizeof(ValueType) * 8;
-    const ValueType sort_bit = (1 << (num_bits - 1 - (ValueType)round));
+    if(round >= num_bits) {
+        // All remaining values are equal.
+        return;
+    }
+    const ValueType sort_bit = (ValueType)1 << (num_bits - 1 - round);
 
     if(end - begin < INSERTION_SORT_LIMIT) {
         ::pystd2026::insertion_sort(begin, end);
-- 
2.43.0


From 94fa31deaefc46d57387840c27522db8f3996b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 64/74] fix: bucketsort counts more values than the value type
 can hold

---
 include/pystd2026_bucketsort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_bucketsort.hpp b/include/pystd2026_bucketsort.hpp
index 8cec2e5..a319d61 100644
--- a/include/pystd2026_bucketsort.hpp
+++ b/include/pystd2026_bucketsort.hpp
@@ -25,7 +25,7 @@ template<BasicIterator It> void do_bucketsort(It begin, It end, size_t round) {
     const ValueType SHIFT = (MAX_ROUNDS - round - 1) * 8;
     const ValueType MASK = 0xFF;
     const size_t NUM_BUCKETS = 256;
-    ValueType counts[NUM_BUCKETS];
+    size_t counts[NUM_BUCKETS];
     size_t offsets[NUM_BUCKETS + 1];
     size_t next_free[NUM_BUCKETS + 1];
 
-- 
2.43.0


From 701a47eada880a8de467d46ef1647c63ddccf7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 65/74] fix: nth_element of a span compiles without a
 comparator

---
 include/pystd2026_nth_element.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_nth_element.hpp b/include/pystd2026_nth_element.hpp
index 528d4c5..34d186b 100644
--- a/include/pystd2026_nth_element.hpp
+++ b/include/pystd2026_nth_element.hpp
@@ -104,7 +104,7 @@ size_t nth_element(::pystd2026::Span<ValueType> span, const size_t nth, const Co
 
 template<WellBehaved ValueType>
 size_t nth_element(::pystd2026::Span<ValueType> span, const size_t nth) {
-    return ::pystd2026::nth_element(span, span, nth, DefaultComparator<ValueType>{});
+    return ::pystd2026::nth_element(span, nth, DefaultComparator<ValueType>{});
 }
 
 } // namespace pystd2026
-- 
2.43.0


From b287e93c04d96017b9fdf01713759fac9b260ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:45 +0000
Subject: [PATCH 66/74] fix: Range does not overflow past its end

---
 src/pystd2026.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index c6d9fa9..4c9bab2 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1295,7 +1295,9 @@ Optional<int64_t> Range::next() {
     }
 
     auto result = Optional<int64_t>{i};
-    i += step;
+    const uint64_t distance = step < 0 ? (uint64_t)i - (uint64_t)end : (uint64_t)end - (uint64_t)i;
+    const uint64_t step_size = step < 0 ? -(uint64_t)step : (uint64_t)step;
+    i = step_size < distance ? i + step : end;
     return result;
 }
 
-- 
2.43.0


From 1c86c44b14c348d4279f12edcc4ae67ad6945abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:04 +0000
Subject: [PATCH 67/74] fix: U8String assignment from a view may raise

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 3bb22e2..1929d83 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2094,7 +2094,7 @@ public:
         }
     }
 
-    void operator=(const U8StringView &o) noexcept { cstring = CString(o.data(), o.size_bytes()); }
+    void operator=(const U8StringView &o) { cstring = CString(o.data(), o.size_bytes()); }
 
     // FIXME. These currently do ASCIIbetical sorting. Fix to do codepoints instead.
     bool operator==(const U8String &o) const { return cstring == o.cstring; }
-- 
2.43.0


From 265f9b230142dda8cdc802a750dfcd01e095a80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:04 +0000
Subject: [PATCH 68/74] fix: CStringView::upper and lower may raise

---
 include/pystd2026.hpp | 4 ++--
 src/pystd2026.cpp     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 1929d83..720d126 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1659,8 +1659,8 @@ public:
 
     bool overlaps(CStringView &other) const;
 
-    CString upper() const noexcept;
-    CString lower() const noexcept;
+    CString upper() const;
+    CString lower() const;
 
     int natural_order(const CStringView &o) const;
 
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 4c9bab2..3982254 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -518,7 +518,7 @@ bool CStringView::overlaps(CStringView &other) const {
     return true;
 }
 
-CString CStringView::upper() const noexcept {
+CString CStringView::upper() const {
     CString result;
     result.reserve(size());
     for(const char c : *this) {
@@ -527,7 +527,7 @@ CString CStringView::upper() const noexcept {
     return result;
 }
 
-CString CStringView::lower() const noexcept {
+CString CStringView::lower() const {
     CString result;
     result.reserve(size());
     for(const char c : *this) {
-- 
2.43.0


From d6b0b5d3fb4d07e5419a9d5d16ecb3afcf9ed7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:51 +0000
Subject: [PATCH 69/74] fix: Path::load_bytes ended the process on a pipe or a
 directory, which have no size

---
 src/pystd2026_filesystem.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index aeb8de2..4a18fc6 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -163,13 +163,19 @@ Path Path::filename() const {
 Vector<CString> Path::split() const { return buf.split_by('/'); }
 
 Optional<Bytes> Path::load_bytes() {
+    if(is_dir()) {
+        return Optional<Bytes>();
+    }
     FILE *f = fopen(buf.c_str(), "rb");
     if(!f) {
         return Optional<Bytes>();
     }
-    fseek(f, 0, SEEK_END);
-    const auto file_size = ftell(f);
-    fseek(f, 0, SEEK_SET);
+    // Pipes can not be seeked and directories have no meaningful size.
+    const auto file_size = fseek(f, 0, SEEK_END) == 0 ? ftell(f) : -1;
+    if(file_size < 0 || fseek(f, 0, SEEK_SET) != 0) {
+        fclose(f);
+        return Optional<Bytes>();
+    }
     Bytes contents;
     contents.resize_to(file_size);
     auto bytes_read = fread(contents.data(), 1, file_size, f);
-- 
2.43.0


From aa457389d3d05167ede15b6a965cf343210f8274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:16 +0000
Subject: [PATCH 70/74] fix: unique_ptr and unique_arr called their deleter
 with a null pointer

---
 include/pystd2026.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 720d126..bedb443 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -506,14 +506,17 @@ public:
     explicit unique_ptr(T *t) noexcept : ptr{t} {}
     unique_ptr(const unique_ptr<T, Deleter> &o) = delete;
     unique_ptr(unique_ptr<T, Deleter> &&o) noexcept : ptr{o.ptr} { o.ptr = nullptr; }
-    ~unique_ptr() { Deleter::del(ptr); }
+    ~unique_ptr() {
+        if(ptr) {
+            Deleter::del(ptr);
+        }
+    }
 
     unique_ptr<T, Deleter> &operator=(const unique_ptr<T, Deleter> &o) = delete;
 
     unique_ptr<T, Deleter> &operator=(unique_ptr<T, Deleter> &&o) noexcept {
         if(this != &o) {
-            Deleter::del(ptr);
-            ptr = o.ptr;
+            reset(o.ptr);
             o.ptr = nullptr;
         }
         return *this;
@@ -554,13 +557,19 @@ public:
         o.ptr = nullptr;
         o.array_size = 0;
     }
-    ~unique_arr() { Deleter::del(ptr); }
+    ~unique_arr() {
+        if(ptr) {
+            Deleter::del(ptr);
+        }
+    }
 
     unique_arr &operator=(const unique_arr &o) = delete;
 
     unique_arr &operator=(unique_arr &&o) noexcept {
         if(this != &o) {
-            Deleter::del(ptr);
+            if(ptr) {
+                Deleter::del(ptr);
+            }
             ptr = o.ptr;
             array_size = o.array_size;
             o.ptr = nullptr;
-- 
2.43.0


From 06ba0b4da76d6486ef56b130c7351bd842e09b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:09 +0000
Subject: [PATCH 71/74] fix: glob asterisks read past the end of the name and
 did not match the empty rest of one

---
 src/pystd2026_filesystem.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 4a18fc6..ac738ad 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -22,11 +22,8 @@ bool glob_matches(const char *text,
                   const size_t pattern_offset) {
     const char text_char = text[text_offset];
     const char pattern_char = pattern[pattern_offset];
-    if(text_char == '\0') {
-        if(pattern_char == '\0') {
-            return true;
-        }
-        return false;
+    if(text_char == '\0' && pattern_char != '*') {
+        return pattern_char == '\0';
     }
     if(pattern_char == '\0') {
         return false;
@@ -43,13 +40,13 @@ bool glob_matches(const char *text,
             return true;
         }
         size_t gap = 0;
-        while(text[gap] != '\0') {
-            if(glob_matches(text, text_offset + gap, pattern, pattern_offset + 1)) {
-                return true;
+        while(!glob_matches(text, text_offset + gap, pattern, pattern_offset + 1)) {
+            if(text[text_offset + gap] == '\0') {
+                return false;
             }
             ++gap;
         }
-        return false;
+        return true;
     } else if(pattern_char == text_char) {
         return glob_matches(text, text_offset + 1, pattern, pattern_offset + 1);
     } else {
-- 
2.43.0


From cb213b0b4a96288471c002ac7acc8190db7388b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:55 +0000
Subject: [PATCH 72/74] fix: U8Match::group refuses the group number one past
 the last

---
 src/pystd2026_regex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026_regex.cpp b/src/pystd2026_regex.cpp
index 9b91cc3..677417d 100644
--- a/src/pystd2026_regex.cpp
+++ b/src/pystd2026_regex.cpp
@@ -60,7 +60,7 @@ size_t U8Match::num_groups() const {
 
 U8StringView U8Match::group(size_t group_num) const {
     const size_t group_count = pcre2_get_ovector_count((pcre2_match_data_8 *)handle);
-    if(group_num > group_count) {
+    if(group_num >= group_count) {
         throw PyException("Invalid regex group number.");
     }
     const size_t *group_vector = pcre2_get_ovector_pointer((pcre2_match_data_8 *)handle);
-- 
2.43.0


From 0418b8f9797f74f0a8a3cd841d481789ef390b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:42 +0000
Subject: [PATCH 73/74] fix: a short option that needs a value is refused at
 the end of the command line

---
 src/pystd2026_argparse.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index 8244188..56585b7 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -247,6 +247,10 @@ int ArgParse::process_short_argument(
 
     if(arg.needs_parameter()) {
         if(current.size() == 2) {
+            if(i + 1 >= argc) {
+                fprintf(stderr, "Last entry on the command line would need a further argument.\n");
+                exit(1);
+            }
             valuepart = argv[i + 1];
             extra_consumed_args = 1;
         } else {
-- 
2.43.0


From 564c56c794025ee9632ca824799df4612eb7ae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:36 +0000
Subject: [PATCH 74/74] fix: a number on the command line is refused unless all
 of it is one

---
 src/pystd2026_argparse.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index 56585b7..14a84c8 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -86,10 +86,14 @@ static void update_value(const Argument &atype, ArgValue &vobj, CStringView sour
             // FIXME, needed for null terminator.
             CString tmp(source);
             errno = 0;
-            int64_t intval = strtol(tmp.data(), nullptr, 10);
+            char *endptr = nullptr;
+            int64_t intval = strtol(tmp.data(), &endptr, 10);
             if(errno != 0) {
                 throw PyException(strerror(errno));
             }
+            if(endptr != tmp.data() + tmp.size() || tmp.is_empty()) {
+                throw PyException("Argument value is not a number.");
+            }
             if(atype.minval && intval < atype.minval.value()) {
                 throw PyException("Argument value less than min value.");
             }
-- 
2.43.0

