From 9da1b4514348b1b99874214b9fb7499ed0cb5cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:13 +0000
Subject: [PATCH 01/59] fix: insert at the front must insert, not replace, when
 the inserted data is longer

---
 src/ReferenceCountedArray.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 1c512bd..5ebbe97 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -1065,8 +1065,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       size_t slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just replace ours with a reference of theirs */
-      if (pos == 0 && slen > length() && n == slen) {
+      /* We are empty, just replace ours with a reference of theirs */
+      if (isEmpty() && slen > 0 && n == slen) {
         *this = rca;
         return;
       }
@@ -1093,8 +1093,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       const auto slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just replace ours with a reference of theirs */
-      if (pos == 0 && slen > length()) {
+      /* We are empty, just replace ours with a reference of theirs */
+      if (isEmpty() && slen > 0) {
         *this = rca;
         return;
       }
@@ -1120,8 +1120,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       size_t slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just move theirs */
-      if (pos == 0 && slen > length() && n == slen) {
+      /* We are empty, just move theirs */
+      if (isEmpty() && slen > 0 && n == slen) {
         *this = std::move(rca);
         return;
       }
@@ -1148,8 +1148,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       const auto slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just move theirs */
-      if (pos == 0 && slen > length()) {
+      /* We are empty, just move theirs */
+      if (isEmpty() && slen > 0) {
         *this = std::move(rca);
         return;
       }
-- 
2.43.0


From e101476328b25f66f943a4fc29876445132306bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:32 +0000
Subject: [PATCH 02/59] fix: leave moved-from containers empty instead of with
 a length but no buffer

---
 src/ReferenceCountedArray.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 5ebbe97..9b48672 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -443,11 +443,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       Ref(rca.Ref), offset(rca.offset),
       sublen(rca.sublen), my_hash(rca.my_hash) {
       rca.Ref = nullptr;
-#ifdef CPPUNIT_VERSION
       rca.offset = 0;
       rca.sublen = 0;
       rca.my_hash = 0;
-#endif
     }
   public:
     /**
@@ -549,11 +547,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       my_hash = rca.my_hash;
       Ref = rca.Ref;
 
-#ifdef CPPUNIT_VERSION
       rca.offset = 0;
       rca.sublen = 0;
       rca.my_hash = 0;
-#endif
       rca.Ref = nullptr;
 
       return *this;
-- 
2.43.0


From 5af56a4d8d5bd1f81fe778d43b68cf4314007b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:53 +0000
Subject: [PATCH 03/59] fix: slice with a negative length larger than what
 remains must be empty

---
 src/ReferenceCountedArray.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 9b48672..3ebcf2b 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -950,9 +950,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * The returned slice is a reference to the original array until modified.
      */
     void slice(ssize_t start, ssize_t len = -1) noexcept {
-      if (len == -1) len = int(length()) - start;
       // Start is after the end, set us to an empty array
-      if (start >= static_cast<signed>(length())) {
+      if (start >= static_cast<ssize_t>(length())) {
         offset = length();
         setLength(0);
         return;
@@ -967,11 +966,12 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       offset += start;
       //If the length of the subarray exceeds the end of the array, truncate to the end of the array
-      if (start + len >= static_cast<signed>(length()))
-        len = length() - start;
+      const ssize_t remaining = length() - start;
+      if (len == -1 || len > remaining)
+        len = remaining;
       // If the length is negative, stop from counting backwards from the end
       else if (len < 0)
-        len = length() - start + len;
+        len = len < -remaining ? 0 : remaining + len;
       setLength(len);
     }
 
-- 
2.43.0


From 32ee27afccd9329052dab2a6545ce1d0002006a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:14 +0000
Subject: [PATCH 04/59] fix: reserve() must not modify a shared buffer or the
 last character of a full one

---
 src/ReferenceCountedArray.h | 4 ++++
 src/String.h                | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 3ebcf2b..90564e6 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -603,6 +603,10 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
         double scaling_factor = 1) const {
       if (!Ref) {
         Ref = new ArrayRef<value_type, Allocator>(alloc);
+      } else if (isShared() && Ref->size - offset < newSize) {
+        /* Growing or shifting must not touch the buffer others are using. */
+        COW(std::max(newSize, length()));
+        return;
       }
       Ref->reserve(newSize, scaling_factor, offset, sublen);
     }
diff --git a/src/String.h b/src/String.h
index 762f842..8163347 100755
--- a/src/String.h
+++ b/src/String.h
@@ -138,7 +138,9 @@ class String : public ReferenceCountedArray<String_Array_Type> {
             double scaling_factor = 1) const override {
           const size_t realSize = newSize > 0 ? newSize + 1 : newSize;
           ReferenceCountedArray::reserve(realSize, scaling_factor);
-          if (constBuf() != nullptr) {
+          /* Only terminate in space which is ours and not in use. */
+          if (constBuf() != nullptr && !isShared() &&
+              capacity() - offset > length()) {
             *Buf(capacity() - offset - 1) = '\0';
           }
         }
-- 
2.43.0


From 13ba020b68f9fee9e9f20818d3391e90b84c640f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:35 +0000
Subject: [PATCH 05/59] fix: c_str() must not look for the terminator past the
 end of a full buffer

---
 src/String.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/String.h b/src/String.h
index 8163347..6cb75c1 100755
--- a/src/String.h
+++ b/src/String.h
@@ -236,7 +236,8 @@ class String : public ReferenceCountedArray<String_Array_Type> {
             return "";
           assert(constBuf() != nullptr);
           assert(length() > 0);
-          if (*constBuf(length()) != '\0') {
+          if (capacity() - offset <= length() ||
+              *constBuf(length()) != '\0') {
             assert(sublen > 0);
             AboutToModify(length() + 1);
             *(Buf(length())) = '\0';
-- 
2.43.0


From 6c0852df8ab9b6f090eab61444132b073e8d725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:18 +0000
Subject: [PATCH 06/59] fix: writing through front()/back() must copy a shared
 buffer first

---
 src/Array.h                 | 6 ++++--
 src/ReferenceCountedArray.h | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Array.h b/src/Array.h
index 2dfb472..dce96a7 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -127,7 +127,9 @@ class Array : public ReferenceCountedArray<T> {
      */
     inline value_type pop() & {
       assert(!this->isEmpty());
-      value_type temp(this->isShared() ? this->back() : std::move(this->back()));
+      pointer item{this->Buf(this->length() - 1)};
+
+      value_type temp(this->isShared() ? *item : std::move(*item));
       this->pop_back();
       return temp;
     }
@@ -135,7 +137,7 @@ class Array : public ReferenceCountedArray<T> {
     inline value_type pop() && noexcept {
       assert(!this->isEmpty());
       assert(!this->isShared());
-      return std::move(this->back());
+      return std::move(*(this->Buf(this->length() - 1)));
     }
 
     /**
diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 90564e6..c61d6f3 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -991,7 +991,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
     inline void push_back(const_reference item) { append(item); };
     inline void push_back(value_type&& item) { append(std::move(item)); };
 
-    inline reference front() noexcept __attribute__((pure)) {
+    inline reference front() {
+      getOwnCopy();
       return *Buf(0);
     }
 
@@ -999,7 +1000,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       return *constBuf(0);
     }
 
-    inline reference back() noexcept __attribute__((pure)) {
+    inline reference back() {
+      getOwnCopy();
       return *Buf(length() - 1);
     }
 
-- 
2.43.0


From 376823e8df1d55375153d0a9b2ab82e1ad6fdd9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:43 +0000
Subject: [PATCH 07/59] fix: shift()/pop() on a temporary must not move
 elements out of a shared buffer

---
 src/Array.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Array.h b/src/Array.h
index dce96a7..a4ef628 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -117,8 +117,9 @@ class Array : public ReferenceCountedArray<T> {
 
     inline value_type shift() && noexcept {
       assert(!this->isEmpty());
-      assert(!this->isShared());
-      return std::move(*(this->Buf(0)));
+      pointer item{this->Buf(0)};
+
+      return this->isShared() ? *item : std::move(*item);
     }
 
     /**
@@ -136,8 +137,9 @@ class Array : public ReferenceCountedArray<T> {
 
     inline value_type pop() && noexcept {
       assert(!this->isEmpty());
-      assert(!this->isShared());
-      return std::move(*(this->Buf(this->length() - 1)));
+      pointer item{this->Buf(this->length() - 1)};
+
+      return this->isShared() ? *item : std::move(*item);
     }
 
     /**
-- 
2.43.0


From 763771835d3f86a83dc3c0fc36fca9dea827953d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:05 +0000
Subject: [PATCH 08/59] fix: resize() with a value must not construct over live
 elements

---
 src/ReferenceCountedArray.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index c61d6f3..323d821 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -647,14 +647,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
         setLength(len);
       } else {
         AboutToModify(len);
-        /*
-         * Use constructing for objects but allow memset
-         * for simple types via std::fill.
-         */
-        if __CPP17_IFCONSTEXPR (std::is_class<T>::value)
-          std::uninitialized_fill(Buf(length()), Buf(len), value);
-        else
-          std::fill(Buf(length()), Buf(len), value);
+        /* Everything up to the capacity has already been constructed. */
+        std::fill(Buf(length()), Buf(len), value);
         sublen = len;
       }
     }
-- 
2.43.0


From c54ef8d9a424f1d760f3322c53aa5c01af740973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:50 +0000
Subject: [PATCH 09/59] fix: inserting or writing one of the container's own
 elements must not use freed memory

---
 src/ReferenceCountedArray.h | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 323d821..5f28e66 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -836,8 +836,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @brief Write an item to the given index
      */
     inline void write(size_t pos, const_reference item) {
-      getOwnCopy();
-      *(Buf(pos)) = item;
+      /* item may be in the buffer we are about to lose. */
+      write(pos, value_type(item));
     };
     inline void write(size_t pos, value_type&& item) {
       getOwnCopy();
@@ -1168,14 +1168,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      */
     void insert(size_t pos, const_reference item)
     {
-      if (pos != 0)
-        validateIndex(pos - 1);
-
-      AboutToModify(length() + 1);
-      /* Shift right */
-      std::move_backward(constBuf(pos), constBuf(length()), Buf(length() + 1));
-      *(Buf(pos)) = item;
-      ++sublen;
+      /* item may be in the buffer we are about to shift or lose. */
+      insert(pos, value_type(item));
     }
 
     /**
@@ -1206,11 +1200,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @post COW is done if needed.
      */
     void replace(size_t pos, const_reference item) {
-      if (pos != 0)
-        validateIndex(pos - 1);
-
-      getOwnCopy();
-      *(Buf(pos)) = item;
+      /* item may be in the buffer we are about to lose. */
+      replace(pos, value_type(item));
     }
 
     /**
-- 
2.43.0


From 75d2c913d6abc62b4b96e863d3e2d55d8c05a242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:19 +0000
Subject: [PATCH 10/59] fix: insert/replace must work when the argument is
 (part of) the target itself

---
 src/ReferenceCountedArray.h | 9 +++++++++
 src/String.cpp              | 4 ++++
 src/String.h                | 6 ++++++
 3 files changed, 19 insertions(+)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 5f28e66..31b462a 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -1056,6 +1056,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      */
     void insert(size_t pos, const ReferenceCountedArray& rca, size_t n) {
       if (n == 0) return;
+      /* Inserting ourself, work from a reference to the unmodified buffer. */
+      if (&rca == this)
+        return insert(pos, ReferenceCountedArray(rca), n);
       if (pos != 0)
         validateIndex(pos - 1);
 
@@ -1084,6 +1087,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @post The buffer contains all items from rca inserted at index pos.
      */
     void insert(size_t pos, const ReferenceCountedArray& rca) {
+      /* Inserting ourself, work from a reference to the unmodified buffer. */
+      if (&rca == this)
+        return insert(pos, ReferenceCountedArray(rca));
       if (pos != 0)
         validateIndex(pos - 1);
 
@@ -1227,6 +1233,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      */
     void replace(size_t pos, const ReferenceCountedArray& rca, size_t n = npos) {
       if (n == 0) return;
+      /* Replacing with ourself, work from a reference to the unmodified buffer. */
+      if (&rca == this)
+        return replace(pos, ReferenceCountedArray(rca), n);
       if (pos != 0)
         validateIndex(pos - 1);
 
diff --git a/src/String.cpp b/src/String.cpp
index bb4ca5c..0afdb73 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -121,6 +121,8 @@ void String::insert(size_t pos, const char *string, size_t n)
     validateIndex(pos - 1);
   
   const auto slen = (n == npos) ? std::strlen(string) : n;
+  /* Keep our buffer around if string is in it */
+  const String self(ownsPointer(string) ? *this : String());
 
   AboutToModify(length() + slen);
   /* Shift right */
@@ -142,6 +144,8 @@ void String::replace(size_t pos, const char *string, size_t n)
     validateIndex(pos - 1);
 
   const auto slen = (n == npos) ? std::strlen(string) : n;
+  /* Keep our buffer around if string is in it */
+  const String self(ownsPointer(string) ? *this : String());
   auto newlen = pos + slen;
 
   if (newlen < length())
diff --git a/src/String.h b/src/String.h
index 6cb75c1..0fb5b63 100755
--- a/src/String.h
+++ b/src/String.h
@@ -173,6 +173,12 @@ class String : public ReferenceCountedArray<String_Array_Type> {
         }
 
   private:
+        /* Does ptr point into our own buffer? */
+        bool ownsPointer(const char* ptr) const noexcept
+          __attribute__((pure)) {
+          return std::less_equal<const char*>()(real_begin(), ptr) &&
+            std::less<const char*>()(ptr, real_begin() + capacity());
+        }
         size_t _find(const String& str, size_t pos) const noexcept __attribute__((pure));
   public:
         /**
-- 
2.43.0


From 187ea2b7dabb545559b5f4f95c9afff6ed25ef1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:22 +0000
Subject: [PATCH 11/59] fix: comparing with a cstring must not read past its
 terminator

---
 src/String.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/String.cpp b/src/String.cpp
index 0afdb73..1e55807 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -80,6 +80,9 @@ int String::compare(const char* str) const noexcept
   for (size_t pos = 0; pos < length(); ++pos) {
     if (*constBuf(pos) != *str++)
       return *(unsigned char*)(constBuf(pos)) - *(unsigned char*)(str - 1);
+    /* The cstring ended and we have more */
+    if (*(str - 1) == '\0')
+      return 1;
   }
   return (unsigned char)'\0' - *(unsigned char*)str;
 }
@@ -89,8 +92,13 @@ int String::compare(const char* str, size_t n) const noexcept
   if (n == 0)
     return 0;
   for (size_t pos = 0; pos < length(); ++pos) {
-    if (*constBuf(pos) != *str++ || --n == 0)
+    if (*constBuf(pos) != *str++)
       return *(unsigned char*)(constBuf(pos)) - *(unsigned char*)(str - 1);
+    /* The cstring ended and we have more */
+    if (*(str - 1) == '\0')
+      return 1;
+    if (--n == 0)
+      return 0;
   }
   return (unsigned char)'\0' - *(unsigned char*)str;
 }
-- 
2.43.0


From c19ecc23c165b891759df42e3b6458c83d6079d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:38 +0000
Subject: [PATCH 12/59] fix: rifind() must honour its position limit

---
 src/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/String.cpp b/src/String.cpp
index 1e55807..ccad25d 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -312,7 +312,7 @@ size_t String::rifind(const String& str, const size_t lpos) const {
   String str_upper(str.length()), this_upper(length());
   std::transform(str.cbegin(), str.cend(), std::back_inserter(str_upper), ::toupper);
   std::transform(this->cbegin(), this->cend(), std::back_inserter(this_upper), ::toupper);
-  return this_upper.rfind(str_upper);
+  return this_upper.rfind(str_upper, lpos);
 }
 
 size_t String::rfind(const String& str, const size_t lpos) const noexcept {
-- 
2.43.0


From 4883eeeb0c910a6ea2f12363b19249e99cc8ca3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:38 +0000
Subject: [PATCH 13/59] fix: String::printf() must not read past its buffer for
 long results

---
 src/String.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/String.cpp b/src/String.cpp
index ccad25d..4266e6b 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -261,8 +261,19 @@ String String::printf(const char* format, ...) {
   va_start(va, format);
   const auto len = vsnprintf(va_out, sizeof(va_out), format, va);
   va_end(va);
+  if (len < 0)
+    return String();
+  if (static_cast<size_t>(len) < sizeof(va_out))
+    return String(va_out, len);
 
-  return String(va_out, len);
+  /* Too long for the buffer; format again into one that fits. */
+  String ret(static_cast<size_t>(len) + 1);
+  va_start(va, format);
+  vsnprintf(ret.Buf(), static_cast<size_t>(len) + 1, format, va);
+  va_end(va);
+  ret.setLength(len);
+
+  return ret;
 }
 
 String& String::chomp() noexcept {
-- 
2.43.0


From 44649ca597985bb91d4f468b7efd0da4f895a26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:38 +0000
Subject: [PATCH 14/59] fix: split() with a limit must not append a piece that
 is not there

---
 src/String.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index 4266e6b..c7788ec 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -231,8 +231,8 @@ Array<String> String::split(const String& delim, size_t limit) const {
     assert(it - delim.length() <= cend());
   }
 
-  // Add on extra
-  if (limit != npos) {
+  // Add on extra, unless the last piece was already the end of the string
+  if (limit != npos && it <= cend()) {
     // Trim out left whitespace
     if (delim == space) while (it < cend() && *it == ' ') ++it;
     array << (*this)(it - cbegin());
-- 
2.43.0


From 2b1a266ed1f0f93534421d74aee5ea7b114462e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:38 +0000
Subject: [PATCH 15/59] fix: split() and sub() must terminate for an empty
 delimiter or search text

---
 src/String.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/String.cpp b/src/String.cpp
index c7788ec..779d9ca 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -203,7 +203,7 @@ std::istream& getline(std::istream& is, String& string) {
  */
 Array<String> String::split(const String& delim, size_t limit) const {
   if (!length()) return Array<String>();
-  if (limit == 1) {
+  if (limit == 1 || !delim.length()) {
     return Array<String>({*this});
   }
 
@@ -340,6 +340,8 @@ size_t String::rfind(const String& str, const size_t lpos) const noexcept {
 }
 
 String String::sub(const String& search, const String& replacement, int limit) const {
+  if (!search.length())
+    return *this;
   String newStr(length()), search_str(*this);
   size_type pos = 0;
   auto cnt = 0;
-- 
2.43.0


From 6df98405301e8f4839f9037fa5bc5e75ae581c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:38 +0000
Subject: [PATCH 16/59] fix: find() from a position without memmem() must
 search to the end and return the distance

---
 src/String.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index 779d9ca..685ec74 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -302,11 +302,11 @@ size_t String::_find(const String& str, size_t pos) const noexcept {
   return static_cast<const char*>(p) - constBuf(pos);
 #else
   if (mylen >= str.length()) {
-    const auto last_pos = mylen - str.length();
+    const auto last_pos = length() - str.length();
     for (auto i = pos; i <= last_pos; ++i)
       if (str[0] == (*this)[i] && !std::memcmp(cbegin() + i, str.cbegin(),
-            std::min(str.length(), mylen - i)))
-        return i;
+            str.length()))
+        return i - pos;
   }
   return npos;
 #endif
-- 
2.43.0


From 047114eb58b9c016efec9d7c62b7d2090f9d6adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:38 +0000
Subject: [PATCH 17/59] fix: reading the last word or line of a stream must not
 report failure

---
 src/String.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index 685ec74..e37def7 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -176,7 +176,11 @@ std::istream& operator>>(std::istream& is, String& string) {
       is.get(ch);
     } while (!is.fail() && !isspace(ch));
 
-    if (isspace(ch))    // put whitespace back on the stream
+    if (is.fail())    // the input ended, but there was a word
+    {
+      is.clear(is.rdstate() & ~std::ios::failbit);
+    }
+    else    // put whitespace back on the stream
     {
       is.putback(ch);
     }
@@ -191,7 +195,9 @@ std::istream& getline(std::istream& is, String& string) {
  
   while (is.get(ch) && ch != '\n')
     string += ch;
-  
+
+  if (is.fail() && string.length())    // the input ended, but there was a line
+    is.clear(is.rdstate() & ~std::ios::failbit);
   return is;
 }
 
-- 
2.43.0


From f1b1722fc9c71c86234c9e72f573bcad7516e3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:38 +0000
Subject: [PATCH 18/59] fix: join() with an empty delimiter must not reserve a
 negative size

---
 src/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Array.h b/src/Array.h
index a4ef628..0989ddb 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -159,7 +159,7 @@ class Array : public ReferenceCountedArray<T> {
       size_t str_size = 0, i;
 
       // Preallocate a fully sized String to avoid frequent resizing
-      str_size += (this->length() * delim.length()) - 1;
+      str_size += (this->length() - 1) * delim.length();
       if (quoted)
 	str_size += this->length() * 2;
       for (i = 0; i < this->length(); ++i)
-- 
2.43.0


From cd27a6cdc858a97ef5f484fce4ba069b37ec550b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:38 +0000
Subject: [PATCH 19/59] fix: appending a temporary Array must compile

---
 src/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Array.h b/src/Array.h
index 0989ddb..34d0610 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -324,7 +324,7 @@ class Array : public ReferenceCountedArray<T> {
     }
 
     inline Array& operator+=(Array&& array) & {
-      append(std::move(array));
+      this->append(std::move(array));
       return *this;
     }
 
-- 
2.43.0


From d58ea2fc2b6882edc77d1d3f2494ae9b3ac8ad3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:36 +0000
Subject: [PATCH 20/59] fix: replacing the item at the end must extend the
 container, not write past it

---
 src/ReferenceCountedArray.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 31b462a..a3346e6 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -1221,8 +1221,11 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       if (pos != 0)
         validateIndex(pos - 1);
 
-      getOwnCopy();
+      const auto newlen = std::max(length(), pos + 1);
+
+      AboutToModify(newlen);
       *(Buf(pos)) = std::move(item);
+      sublen = newlen;
     }
 
     /**
-- 
2.43.0


From 24b083046ce3fa65159ed6a8a2786abbda3f72f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:13 +0000
Subject: [PATCH 21/59] fix: find() from a position throws, so it must not be
 declared pure

---
 src/ReferenceCountedArray.h | 2 +-
 src/String.h                | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index a3346e6..efaabb7 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -802,7 +802,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @param pos Where to start the search
      * @return The position of the item if found, or npos if not found
      **/
-    size_t find(const_reference item, size_t pos) const __attribute__((pure)) {
+    size_t find(const_reference item, size_t pos) const {
       if (pos != 0)
         validateIndex(pos - 1);
       return _find(item, pos);
diff --git a/src/String.h b/src/String.h
index 0fb5b63..21cc066 100755
--- a/src/String.h
+++ b/src/String.h
@@ -195,7 +195,7 @@ class String : public ReferenceCountedArray<String_Array_Type> {
      * @param pos Where to start the search
          * @return The position of the string if found, or String::npos if not found
          **/
-        size_t find(const String& str, size_t pos) const __attribute__((pure)) {
+        size_t find(const String& str, size_t pos) const {
           if (pos != 0)
             validateIndex(pos - 1);
           return _find(str, pos);
-- 
2.43.0


From f48776841bd724937e03bfd3d3fd31b814fbe479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:26 +0000
Subject: [PATCH 22/59] fix: decoding base64 with a charset of high characters
 must not write outside the index

---
 src/base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index f1d1d5d..d07acbb 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -156,7 +156,7 @@ char *b64dec(const unsigned char *data, size_t *len, const char* charset)
     char charset_index[256];
     memset(charset_index, -1, sizeof(charset_index));
     for (size_t i = 0; i < 64; ++i)
-      charset_index[int(charset[i])] = i;
+      charset_index[static_cast<unsigned char>(charset[i])] = i;
     b64dec_buf(data, len, dest, charset_index);
   }  else
     b64dec_buf(data, len, dest);
-- 
2.43.0


From 6023be3e119265b619946705e6b27959e47dbfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:26 +0000
Subject: [PATCH 23/59] fix: decoding truncated base64 must not read past the
 input

---
 src/base64.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/base64.cpp b/src/base64.cpp
index d07acbb..574e7ec 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -128,8 +128,16 @@ void b64dec_buf(const unsigned char *data, size_t *len, char *dest, const char*
     charset_index = b64_indexes;
   }
 
+  unsigned char last[NUM_ENCODED_BYTES];
+
   /* Convert the encoded base64 character back into our base255 ASCII character */
   while (blocks > 0) {
+    if (blocks == 1 && (*len % NUM_ENCODED_BYTES)) {
+      /* Truncated input, the rest of the last block is missing */
+      memset(last, PADDING_CHAR, sizeof(last));
+      memcpy(last, data, *len % NUM_ENCODED_BYTES);
+      data = last;
+    }
     /* buf[0] is the 6 bits from data[0] + left-most 2 bits of data[1] */
     *buf++ = (charset_index[data[0]] << 2) + ((charset_index[data[1]] & 0x30) >> 4);  /* 0x30 not required but to be clear. */
     if (data[2] != PADDING_CHAR) {
-- 
2.43.0


From 801b054dc25cd2fe8216ec8eecceac089a748a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:26 +0000
Subject: [PATCH 24/59] fix: strlcat() must not read past the size of the
 destination

---
 src/Cstrings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Cstrings.cpp b/src/Cstrings.cpp
index a768dfe..18dba8d 100644
--- a/src/Cstrings.cpp
+++ b/src/Cstrings.cpp
@@ -75,7 +75,7 @@ strlcat(char *dst, const char *src, size_t siz)
   size_t dlen;
 
   /* Find the end of dst and adjust bytes left but don't go past end */
-  while (*d != '\0' && n-- != 0)
+  while (n-- != 0 && *d != '\0')
     d++;
   dlen = d - dst;
   n = siz - dlen;
-- 
2.43.0


From 65a8eb7fd89c4a8e2bc541400481f912271e4867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:26 +0000
Subject: [PATCH 25/59] fix: str_redup() must work when the new string is part
 of the old one

---
 src/Cstrings.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Cstrings.cpp b/src/Cstrings.cpp
index 18dba8d..8e5414b 100644
--- a/src/Cstrings.cpp
+++ b/src/Cstrings.cpp
@@ -97,16 +97,16 @@ strlcat(char *dst, const char *src, size_t siz)
 void
 str_redup(char **str, const char *newstr)
 {
-        size_t len;
+        char *old = *str;
 
         if (!newstr) {
                 if (*str) free(*str);
                 *str = nullptr;
                 return;
         }
-        len = strlen(newstr) + 1;
-        *str = static_cast<char*>(realloc(*str, len));
-        memcpy(*str, newstr, len);
+        /* newstr may be part of the old string */
+        *str = BDLIB_NS::strdup(newstr);
+        if (old) free(old);
 }
 
 char *
-- 
2.43.0


From c46903a60b60e602a2544af4e5e912eb9a90d357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:26 +0000
Subject: [PATCH 26/59] fix: seeking far past the end must not wrap around to
 the beginning

---
 src/Stream.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index 58a750c..abcdb74 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -47,17 +47,17 @@ void Stream::reserve(const size_t newSize) const {
 }
 
 int Stream::seek(int offset, int whence) {
-  int newpos;
+  ssize_t newpos;
 
   switch (whence) {
     case SEEK_SET:
       newpos = offset;
       break;
     case SEEK_CUR:
-      newpos = tell() + offset;
+      newpos = static_cast<ssize_t>(tell()) + offset;
       break;
     case SEEK_END:
-      newpos = capacity() - offset;
+      newpos = static_cast<ssize_t>(capacity()) - offset;
       break;
     default:
       newpos = tell();
-- 
2.43.0


From 8acbb1ab9f0b4360a4dfd48d26020808739fe48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:26 +0000
Subject: [PATCH 27/59] fix: reading past the end of a Stream must return
 nothing and not move

---
 src/Stream.cpp | 3 ++-
 src/Stream.h   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index abcdb74..893a7ae 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -72,7 +72,8 @@ int Stream::seek(int offset, int whence) {
 }
 
 String Stream::read(size_t maxSize, char delim) {
-  size_t toRead = std::min(maxSize, length() - pos);
+  /* The position may be past the end of the data */
+  size_t toRead = pos < length() ? std::min(maxSize, length() - pos) : 0;
 
   /* No need to split the string, return a substring */
   if (!delim) {
diff --git a/src/Stream.h b/src/Stream.h
index 779a13e..a9dede0 100644
--- a/src/Stream.h
+++ b/src/Stream.h
@@ -127,7 +127,7 @@ class Stream {
          * @sa read
          */
         virtual String getline (size_t maxSize = 99999999) {
-          return read(maxSize == 99999999 ? (length() - pos) : maxSize, '\n');
+          return read(maxSize == 99999999 ? length() : maxSize, '\n');
         }
 
         /**
-- 
2.43.0


From 44d9c15c31e7c860e985cbc13650979fa557c513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:26 +0000
Subject: [PATCH 28/59] fix: reading up to a delimiter must not return more
 than was asked for

---
 src/Stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index 893a7ae..ec3ffe8 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -88,7 +88,7 @@ String Stream::read(size_t maxSize, char delim) {
   while ((ret.length() < toRead) && (str[pos] != delim)) {
     ret += str[pos++];
   }
-  if (str.size() > pos && str[pos] == delim) {
+  if (ret.length() < toRead && str[pos] == delim) {
     ret += delim;
     ++pos;
   }
-- 
2.43.0


From 8e0e5ca9bb354f6c85eae55ae6bbf936495a8a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:26 +0000
Subject: [PATCH 29/59] fix: loading an empty file into a Stream must succeed

---
 src/Stream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index ec3ffe8..7de8e00 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -114,6 +114,9 @@ int Stream::loadFile(const int fd)
   if (size < 0) {
     return 1;
   }
+  if (size == 0) {
+    return 0;
+  }
   reserve(size);
   void* map = mmap(0, size, PROT_READ, MAP_PRIVATE, fd, 0);
   if (map == MAP_FAILED) {
-- 
2.43.0


From 155e7669003cf186a04334e855dc712420baef26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:15 +0000
Subject: [PATCH 30/59] fix: opening an AtomicFile again must not leave the
 previous temporary file behind

---
 src/AtomicFile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/AtomicFile.cpp b/src/AtomicFile.cpp
index e675837..7d75fdf 100644
--- a/src/AtomicFile.cpp
+++ b/src/AtomicFile.cpp
@@ -38,6 +38,9 @@ bool AtomicFile::open(const String& fname, mode_t mode) {
   size_t slash_pos;
   String dir;
 
+  /* Drop an update that was not committed. */
+  abort();
+
   _fname = fname;
   _mode = mode;
 
-- 
2.43.0


From 3d41c6e47f140480c3aafc3f3014ce49c7c92d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:15 +0000
Subject: [PATCH 31/59] fix: committing an AtomicFile that is not open must do
 nothing

---
 src/AtomicFile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/AtomicFile.cpp b/src/AtomicFile.cpp
index 7d75fdf..67d7e4d 100644
--- a/src/AtomicFile.cpp
+++ b/src/AtomicFile.cpp
@@ -79,6 +79,10 @@ bool AtomicFile::abort() {
 bool AtomicFile::commit() {
   bool result, remove_temp;
 
+  if (!is_open()) {
+    return false;
+  }
+
   result = false;
   remove_temp = true;
   if (_mode != mode_t(-1) && fchmod(_fd, _mode) != 0) {
-- 
2.43.0


From ab105a9808de5df627ac8033c11c825b20bda0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:15 +0000
Subject: [PATCH 32/59] fix: a failed AtomicFile commit must close its
 descriptor

---
 src/AtomicFile.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/AtomicFile.cpp b/src/AtomicFile.cpp
index 67d7e4d..41b7cbe 100644
--- a/src/AtomicFile.cpp
+++ b/src/AtomicFile.cpp
@@ -78,6 +78,7 @@ bool AtomicFile::abort() {
 
 bool AtomicFile::commit() {
   bool result, remove_temp;
+  int ret;
 
   if (!is_open()) {
     return false;
@@ -91,7 +92,9 @@ bool AtomicFile::commit() {
   if (::fsync(_fd) != 0) {
     goto cleanup;
   }
-  if (::close(_fd) != 0) {
+  ret = ::close(_fd);
+  _fd = -1;
+  if (ret != 0) {
     goto cleanup;
   }
   if (std::rename(_tmpname.c_str(), _fname.c_str()) != 0) {
@@ -105,7 +108,10 @@ cleanup:
   if (remove_temp) {
     ::unlink(_tmpname.c_str());
   }
-  _fd = -1;
+  if (is_open()) {
+    ::close(_fd);
+    _fd = -1;
+  }
   return result;
 }
 BDLIB_NS_END
-- 
2.43.0


From 6833e327a7a96a6120cc52512d963aa3be833034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:15 +0000
Subject: [PATCH 33/59] fix: writing a Stream to a descriptor without mmap must
 replace the file

---
 src/Stream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index 7de8e00..9f35000 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -184,6 +184,8 @@ int Stream::writeFile(const int fd) const
 
   if (munmap(map, length()) == -1) return 1;
 #else
+  /* Replace whatever the file has, like the mmap version. */
+  if (ftruncate(fd, 0) || lseek(fd, 0, SEEK_SET) == -1) return 1;
   int my_fd = dup(fd);
   if (my_fd == -1) {
     return 1;
-- 
2.43.0


From 877ae263d8b1d33fbf840c8f50c78a43601977f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:15 +0000
Subject: [PATCH 34/59] fix: move assigning a Stream must compile

---
 src/Stream.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/Stream.h b/src/Stream.h
index a9dede0..04ffc13 100644
--- a/src/Stream.h
+++ b/src/Stream.h
@@ -72,11 +72,7 @@ class Stream {
           swap(a.loading, b.loading);
         }
 
-        Stream& operator=(Stream stream) & {
-          swap(*this, stream);
-          return *this;
-        }
-
+        Stream& operator=(const Stream& stream) & noexcept = default;
         Stream& operator=(Stream&& stream) & noexcept = default;
 
         void reserve(const size_t) const;
-- 
2.43.0


From 083c31269500f351e8d7e5ae9c3580f6e79df620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:30 +0000
Subject: [PATCH 35/59] fix: unsigned values must reach Tcl unchanged

They were converted through the signed type of the same size, so large
values appeared negative.
---
 src/ScriptInterpTCL.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index 9c4e15e..09cc1db 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -393,7 +393,7 @@ inline Tcl_Obj* c_to_tcl_cast<const int8_t&>::from(const int8_t& value,
 
 inline Tcl_Obj* c_to_tcl_cast<const uint8_t&>::from(const uint8_t& value,
     Tcl_Interp* interp) {
-  return c_to_tcl_cast<const int8_t&>::from(value, interp);
+  return c_to_tcl_cast<const int16_t&>::from(value, interp);
 }
 
 inline Tcl_Obj* c_to_tcl_cast<const int16_t&>::from(const int16_t& value,
@@ -403,7 +403,7 @@ inline Tcl_Obj* c_to_tcl_cast<const int16_t&>::from(const int16_t& value,
 
 inline Tcl_Obj* c_to_tcl_cast<const uint16_t&>::from(const uint16_t& value,
     Tcl_Interp* interp) {
-  return c_to_tcl_cast<const int16_t&>::from(value, interp);
+  return c_to_tcl_cast<const int32_t&>::from(value, interp);
 }
 
 inline Tcl_Obj* c_to_tcl_cast<const int32_t&>::from(const int32_t& value,
@@ -413,7 +413,7 @@ inline Tcl_Obj* c_to_tcl_cast<const int32_t&>::from(const int32_t& value,
 
 inline Tcl_Obj* c_to_tcl_cast<const uint32_t&>::from(const uint32_t& value,
     Tcl_Interp* interp) {
-  return c_to_tcl_cast<const int32_t&>::from(value, interp);
+  return c_to_tcl_cast<const int64_t&>::from(value, interp);
 }
 
 inline Tcl_Obj* c_to_tcl_cast<const int64_t&>::from(const int64_t& value,
@@ -423,6 +423,9 @@ inline Tcl_Obj* c_to_tcl_cast<const int64_t&>::from(const int64_t& value,
 
 inline Tcl_Obj* c_to_tcl_cast<const uint64_t&>::from(const uint64_t& value,
     Tcl_Interp* interp) {
+  if (value > INT64_MAX)
+    return c_to_tcl_cast<const String&>::from(
+        String::printf("%ju", uintmax_t(value)), interp);
   return c_to_tcl_cast<const int64_t&>::from(value, interp);
 }
 
-- 
2.43.0


From f548b3ec89ffd46a3a30081de7c13891cbb783aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:30 +0000
Subject: [PATCH 36/59] fix: Tcl integers must not be inverted or wrapped when
 stored

uint64_t stored 0 for every valid integer, and integers that only fit an
unsigned long wrapped around to a value of the other sign.
---
 src/ScriptInterpTCL.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 5e1c6ca..26b3bc9 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -153,6 +153,17 @@ Tcl_Obj* c_to_tcl_cast<const Array<Array<String>>&>::from(
 }
 
 /* tcl->c casting */
+
+/**
+ * @brief Get a long, rejecting values that Tcl wraps around to fit.
+ */
+static bool getLong(Tcl_Obj* obj, long& v) {
+  double d = 0;
+
+  return Tcl_GetLongFromObj(0, obj, &v) == TCL_OK &&
+    Tcl_GetDoubleFromObj(0, obj, &d) == TCL_OK && (d < 0) == (v < 0);
+}
+
 String tcl_to_c_cast<String>::from(Tcl_Obj* obj, ScriptInterp* si) {
   int len = 0;
   char *cstr = Tcl_GetStringFromObj(obj, &len);
@@ -181,7 +192,7 @@ const char* tcl_to_c_cast<const char*>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 int8_t tcl_to_c_cast<int8_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLong(obj, v)) {
     if ((v < INT8_MIN || v > INT8_MAX)) {
       //return "OverflowError";
       return 0;
@@ -195,7 +206,7 @@ int8_t tcl_to_c_cast<int8_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 uint8_t tcl_to_c_cast<uint8_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLong(obj, v)) {
     if ((v < 0 || v > UINT8_MAX)) {
       //return "OverflowError";
       return 0;
@@ -209,7 +220,7 @@ uint8_t tcl_to_c_cast<uint8_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 int16_t tcl_to_c_cast<int16_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLong(obj, v)) {
     if ((v < INT16_MIN || v > INT16_MAX)) {
       //return "OverflowError";
       return 0;
@@ -223,7 +234,7 @@ int16_t tcl_to_c_cast<int16_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 uint16_t tcl_to_c_cast<uint16_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLong(obj, v)) {
     if ((v < 0 || v > UINT16_MAX)) {
       //return "OverflowError";
       return 0;
@@ -237,7 +248,7 @@ uint16_t tcl_to_c_cast<uint16_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 int32_t tcl_to_c_cast<int32_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLong(obj, v)) {
     if ((v < INT32_MIN || v > INT32_MAX)) {
       //return "OverflowError";
       return 0;
@@ -251,7 +262,7 @@ int32_t tcl_to_c_cast<int32_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 uint32_t tcl_to_c_cast<uint32_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  if (getLong(obj, v)) {
     if ((v < 0 || v > UINT32_MAX)) {
       //return "OverflowError";
       return 0;
@@ -265,7 +276,7 @@ uint32_t tcl_to_c_cast<uint32_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 int64_t tcl_to_c_cast<int64_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) != TCL_OK) {
+  if (!getLong(obj, v)) {
     return 0;
     //return "Type Error";
   }
@@ -274,7 +285,10 @@ int64_t tcl_to_c_cast<int64_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 
 uint64_t tcl_to_c_cast<uint64_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
   long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  double d = 0;
+  /* Tcl_GetLongFromObj wraps values that only fit an unsigned long. */
+  if (Tcl_GetLongFromObj(0, obj, &v) != TCL_OK ||
+      Tcl_GetDoubleFromObj(0, obj, &d) != TCL_OK || d < 0) {
     return 0;
     //return "Type Error";
   }
-- 
2.43.0


From 1680636cb3d5947ca7f000fc7b816775d3bc4250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:30 +0000
Subject: [PATCH 37/59] fix: do not read past a short text set into a linked
 buffer

---
 src/ScriptInterpTCL.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index 09cc1db..8eee0c6 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -261,7 +261,7 @@ class ScriptInterpTCL : public ScriptInterp {
             memcpy(oldval.get(), static_cast<T>(data->ptr), data->size);
           }
 
-          memmove(data->ptr, tcl_to_c_cast<T>::from(obj, nullptr),
+          strncpy(static_cast<T>(data->ptr), tcl_to_c_cast<T>::from(obj, nullptr),
               data->size);
           if __CPP17_IFCONSTEXPR (std::is_same<T, char*>::value ||
               std::is_same<T, const char*>::value)
-- 
2.43.0


From 32dc0351e2ae46e010b9c9f4a437f93fe88c19d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:58 +0000
Subject: [PATCH 38/59] fix: a linked String with NUL bytes must be read
 completely

---
 src/ScriptInterpTCL.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 26b3bc9..a70711f 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -113,8 +113,8 @@ const char* ScriptInterpTCL::TraceSetRO(const ClientData clientData,
 const char* ScriptInterpTCL::TraceGet(Tcl_Obj* value, Tcl_Interp *interp,
     char *name1, char *name2, int flags) {
   if (value) {
-    Tcl_SetVar2(interp,name1,name2,
-        tcl_to_c_cast<const char*>::from(value, nullptr), flags);
+    Tcl_IncrRefCount(value);
+    Tcl_SetVar2Ex(interp, name1, name2, value, flags);
     Tcl_DecrRefCount(value);
   }
   return nullptr;
-- 
2.43.0


From 6e7f343357abac70b58a26a82b0408cfc601dd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:58 +0000
Subject: [PATCH 39/59] fix: commands must belong to their interpreter

All interpreters shared one table of commands, looked up by the word the
command was called with. Creating a command again deleted the new one with
the old one, renamed or namespace qualified commands crashed, and destroying
an interpreter removed the commands of all others.
---
 src/ScriptInterpTCL.cpp |  4 ++--
 src/ScriptInterpTCL.h   | 37 ++++++++++++++-----------------------
 2 files changed, 16 insertions(+), 25 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index a70711f..7b9cf26 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -10,7 +10,6 @@
 
 BDLIB_NS_BEGIN
 
-std::unordered_map<String, ScriptInterp::ScriptCmdPtr>ScriptInterpTCL::CmdHandlerData;
 std::unordered_map<String, ScriptInterp::link_var_hook_t> ScriptInterpTCL::link_var_hooks;
 
 int ScriptInterpTCL::init() {
@@ -66,7 +65,8 @@ int ScriptInterpTCL::ScriptCmdTCL::_createCommand_callback(
     ClientData clientData, Tcl_Interp *interp, int objc,
     Tcl_Obj *CONST objv[]) {
   String cmdName(tcl_to_c_cast<String>::from(objv[0], nullptr));
-  ScriptCmdPtr ccd = CmdHandlerData[cmdName];
+  /* Keeps the command alive if it replaces or deletes itself. */
+  const ScriptCmdPtr ccd(*static_cast<ScriptCmdPtr*>(clientData));
 
   if ((size_t(objc) - 1) < ccd->callbackParamMin ||
       size_t(objc) - 1 > ccd->callbackParamMax) {
diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index 8eee0c6..509089f 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -139,8 +139,6 @@ class ScriptInterpTCL : public ScriptInterp {
       Tcl_Obj* obj, ScriptInterp* si);
   private:
         Tcl_Interp *interp;
-        static std::unordered_map<String, ScriptCmdPtr>
-          CmdHandlerData;
 
         ScriptInterpTCL(const ScriptInterpTCL&) = delete;
         ScriptInterpTCL& operator=(const ScriptInterpTCL&) = delete;
@@ -157,25 +155,14 @@ class ScriptInterpTCL : public ScriptInterp {
               size_t _callbackParamMax) noexcept :
               ScriptCmd(_si, std::move(_cmdName), std::move(_callback_proxy),
                   _usage, _callbackParamMin, _callbackParamMax) {};
-          virtual ~ScriptCmdTCL() {
-            this->unregisterCmd();
-          }
-          virtual void registerCmd() {
-            if (registered)
-              return;
-            Tcl_CreateObjCommand(static_cast<ScriptInterpTCL*>(si)->interp,
-                *cmdName, _createCommand_callback, nullptr, nullptr);
-            ScriptCmd::registerCmd();
-          }
-          virtual void unregisterCmd() {
-            if (!registered)
-              return;
-            Tcl_DeleteCommand(static_cast<ScriptInterpTCL*>(si)->interp,
-                *cmdName);
-            ScriptCmd::unregisterCmd();
-          }
+          virtual ~ScriptCmdTCL() {}
         };
 
+        /* Tcl owns a reference to the command for as long as it exists. */
+        static void _deleteCommand_callback(ClientData clientData) {
+          delete static_cast<ScriptCmdPtr*>(clientData);
+        }
+
         void _createCommand(const String& cmdName,
             std::unique_ptr<ScriptCommandHandlerBase> callback_proxy,
             const char* usage,
@@ -183,8 +170,9 @@ class ScriptInterpTCL : public ScriptInterp {
           auto ccd = std::make_shared<ScriptCmdTCL>(this, cmdName,
               std::move(callback_proxy), usage, callbackParamMin,
               callbackParamMax);
-          CmdHandlerData[cmdName] = ccd;
-          ccd->registerCmd();
+          Tcl_CreateObjCommand(interp, *cmdName,
+              ScriptCmdTCL::_createCommand_callback, new ScriptCmdPtr(ccd),
+              _deleteCommand_callback);
         }
 
         struct trace_ptr_data {
@@ -289,7 +277,6 @@ class ScriptInterpTCL : public ScriptInterp {
           init();
         }
         virtual ~ScriptInterpTCL() {
-          CmdHandlerData.clear();
           link_var_hooks.clear();
           trace_ptrs.clear();
           destroy();
@@ -310,7 +297,11 @@ class ScriptInterpTCL : public ScriptInterp {
         }
 
         virtual void deleteCommand(const String& cmdName) {
-          CmdHandlerData.erase(cmdName);
+          Tcl_CmdInfo info;
+          /* Leave commands alone that did not come from createCommand(). */
+          if (Tcl_GetCommandInfo(interp, *cmdName, &info) &&
+              info.objProc == ScriptCmdTCL::_createCommand_callback)
+            Tcl_DeleteCommand(interp, *cmdName);
         }
 
         /* Variable linking */
-- 
2.43.0


From fdf1cf475fe7953ee500d6d3cda5fe8e1c83ee0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:54 +0000
Subject: [PATCH 40/59] fix: variable links must belong to their interpreter
 and be replaceable

Hooks were shared by all interpreters and looked up by the name used for the
access, so they were skipped when writing through upvar or a qualified name
and lost when any interpreter was destroyed. Linking a name again kept the
previous variable linked as well, or freed what its traces still used.
---
 src/ScriptInterpTCL.cpp | 21 ++++++++++------
 src/ScriptInterpTCL.h   | 54 ++++++++++++++++-------------------------
 2 files changed, 34 insertions(+), 41 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 7b9cf26..3817340 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -10,8 +10,6 @@
 
 BDLIB_NS_BEGIN
 
-std::unordered_map<String, ScriptInterp::link_var_hook_t> ScriptInterpTCL::link_var_hooks;
-
 int ScriptInterpTCL::init() {
   // create interp
   interp = Tcl_CreateInterp();
@@ -95,13 +93,20 @@ int ScriptInterpTCL::ScriptCmdTCL::_createCommand_callback(
   return TCL_OK;
 }
 
-void ScriptInterpTCL::setupTraces(const String& varName, ClientData var,
-    Tcl_VarTraceProc* get, Tcl_VarTraceProc* set, link_var_hook_t hook_func) {
+void ScriptInterpTCL::setupTraces(const String& varName, const void* var,
+    size_t size, Tcl_VarTraceProc* get, Tcl_VarTraceProc* set,
+    link_var_hook_t hook_func) {
+  /* Linking again must not leave the previous variable linked too. */
+  if (trace_ptrs.find(varName) != std::end(trace_ptrs))
+    unlinkVar(varName);
+  auto data = std::make_unique<trace_ptr_data>(const_cast<void*>(var), size,
+      hook_func);
   Tcl_SetVar(interp, *varName, "", TCL_GLOBAL_ONLY);
-  Tcl_TraceVar(interp, *varName, TCL_TRACE_READS | TCL_GLOBAL_ONLY, get, var);
-  Tcl_TraceVar(interp, *varName, TCL_TRACE_WRITES | TCL_GLOBAL_ONLY, set, var);
-  if (hook_func != nullptr)
-    link_var_hooks[varName] = hook_func;
+  Tcl_TraceVar(interp, *varName, TCL_TRACE_READS | TCL_GLOBAL_ONLY, get,
+      data.get());
+  Tcl_TraceVar(interp, *varName, TCL_TRACE_WRITES | TCL_GLOBAL_ONLY, set,
+      data.get());
+  trace_ptrs[varName] = std::move(data);
 }
 
 const char* ScriptInterpTCL::TraceSetRO(const ClientData clientData,
diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index 509089f..19388f3 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -178,13 +178,15 @@ class ScriptInterpTCL : public ScriptInterp {
         struct trace_ptr_data {
           void* ptr;
           size_t size;
-          trace_ptr_data(void* _ptr, size_t _size) : ptr(_ptr), size(_size) {};
+          link_var_hook_t hook;
+          trace_ptr_data(void* _ptr, size_t _size, link_var_hook_t _hook) :
+            ptr(_ptr), size(_size), hook(_hook) {};
           trace_ptr_data(const trace_ptr_data&) = delete;
           trace_ptr_data& operator=(const trace_ptr_data&) = delete;
         };
         std::unordered_map<String, std::unique_ptr<trace_ptr_data>> trace_ptrs;
 
-        void setupTraces(const String& name, ClientData var,
+        void setupTraces(const String& name, const void* var, size_t size,
             Tcl_VarTraceProc* get, Tcl_VarTraceProc* set,
             link_var_hook_t hook_func);
 
@@ -194,25 +196,19 @@ class ScriptInterpTCL : public ScriptInterp {
         template<typename T>
         static inline const char* tcl_traceGet(ClientData clientData,
             Tcl_Interp* interp, char* name1, char* name2, int flags) {
+          auto data = static_cast<const trace_ptr_data*>(clientData);
           return TraceGet(
-              c_to_tcl_cast<T&>::from(*static_cast<T*>(clientData), interp),
+              c_to_tcl_cast<T&>::from(*static_cast<T*>(data->ptr), interp),
               interp, name1, name2, flags);
         }
         template<typename T>
-        static inline const char* tcl_traceGetPtrData(ClientData clientData,
+        static inline const char* tcl_traceGetPtr(ClientData clientData,
             Tcl_Interp* interp, char* name1, char* name2, int flags) {
           auto data = static_cast<const trace_ptr_data*>(clientData);
           return TraceGet(
               c_to_tcl_cast<T>::from(static_cast<T>(data->ptr),
                 interp), interp, name1, name2, flags);
         }
-        template<typename T>
-        static inline const char* tcl_traceGetPtr(ClientData clientData,
-            Tcl_Interp* interp, char* name1, char* name2, int flags) {
-          return TraceGet(
-              c_to_tcl_cast<T>::from(static_cast<T>(clientData),
-                interp), interp, name1, name2, flags);
-        }
 
         template<typename T>
         static const char* tcl_traceSet(ClientData clientData,
@@ -221,14 +217,14 @@ class ScriptInterpTCL : public ScriptInterp {
               flags);
           if (!obj)
             return name1;
-          const auto oldval(std::move(*static_cast<T*>(clientData)));
+          auto data = static_cast<const trace_ptr_data*>(clientData);
+          const auto oldval(std::move(*static_cast<T*>(data->ptr)));
 
-          *static_cast<T*>(clientData) =
+          *static_cast<T*>(data->ptr) =
             std::move(tcl_to_c_cast<T>::from(obj, nullptr));
-          const auto link_var_hook = link_var_hooks.find(name1);
-          if (link_var_hook != std::end(link_var_hooks))
-            link_var_hook->second(
-                (const void*)&oldval, (const void*)(clientData));
+          /* The hook may unlink the variable, which frees data. */
+          if (data->hook != nullptr)
+            data->hook((const void*)&oldval, (const void*)(data->ptr));
           return nullptr;
         }
 
@@ -239,12 +235,11 @@ class ScriptInterpTCL : public ScriptInterp {
               flags);
           if (!obj)
             return name1;
-          const auto link_var_hook = link_var_hooks.find(name1);
           auto data = static_cast<const trace_ptr_data*>(clientData);
           /* Save oldval */
           typedef typename std::pointer_traits<T>::element_type T_name;
           std::unique_ptr<T_name[]> oldval;
-          if (link_var_hook != std::end(link_var_hooks)) {
+          if (data->hook != nullptr) {
             oldval = std::move(std::make_unique<T_name[]>(data->size));
             memcpy(oldval.get(), static_cast<T>(data->ptr), data->size);
           }
@@ -254,9 +249,8 @@ class ScriptInterpTCL : public ScriptInterp {
           if __CPP17_IFCONSTEXPR (std::is_same<T, char*>::value ||
               std::is_same<T, const char*>::value)
             static_cast<T>(data->ptr)[data->size - 1] = '\0';
-          if (link_var_hook != std::end(link_var_hooks))
-            link_var_hook->second(
-                (const void*)(oldval.get()), (const void*)(data->ptr));
+          if (data->hook != nullptr)
+            data->hook((const void*)(oldval.get()), (const void*)(data->ptr));
           return nullptr;
         }
 
@@ -270,15 +264,12 @@ class ScriptInterpTCL : public ScriptInterp {
   protected:
         virtual int init();
         virtual int destroy();
-        static std::unordered_map<String, link_var_hook_t> link_var_hooks;
 
   public:
         ScriptInterpTCL() : ScriptInterp(), interp(nullptr), trace_ptrs() {
           init();
         }
         virtual ~ScriptInterpTCL() {
-          link_var_hooks.clear();
-          trace_ptrs.clear();
           destroy();
         }
 
@@ -314,7 +305,7 @@ class ScriptInterpTCL : public ScriptInterp {
         template <typename T>
         inline void linkVar(const String& varName, T& var,
             link_var_hook_t hook_func = nullptr) {
-          setupTraces(varName, (ClientData) &var,
+          setupTraces(varName, &var, sizeof(T),
               (Tcl_VarTraceProc*) tcl_traceGet<const T>,
               (Tcl_VarTraceProc*) tcl_traceSet<T>, hook_func);
         }
@@ -327,11 +318,9 @@ class ScriptInterpTCL : public ScriptInterp {
         template <typename T>
         inline void linkVar(const String& varName, T* var, size_t size,
             link_var_hook_t hook_func = nullptr) {
-          auto data = std::make_unique<trace_ptr_data>(var, size);
-          setupTraces(varName, (ClientData) data.get(),
-              (Tcl_VarTraceProc*) tcl_traceGetPtrData<const T*>,
+          setupTraces(varName, var, size,
+              (Tcl_VarTraceProc*) tcl_traceGetPtr<const T*>,
               (Tcl_VarTraceProc*) tcl_traceSetPtr<T*>, hook_func);
-          trace_ptrs[varName] = std::move(data);
         }
 
         /**
@@ -343,7 +332,7 @@ class ScriptInterpTCL : public ScriptInterp {
         template <typename T>
         inline void linkVar(const String& varName, const T* var,
             link_var_hook_t hook_func = nullptr) {
-          setupTraces(varName, (ClientData) var,
+          setupTraces(varName, var, sizeof(T),
               (Tcl_VarTraceProc*) tcl_traceGetPtr<const T*>,
               (Tcl_VarTraceProc*) TraceSetRO, hook_func);
         }
@@ -357,7 +346,7 @@ class ScriptInterpTCL : public ScriptInterp {
         template <typename T>
         inline void linkVar(const String& varName, const T& var,
             link_var_hook_t hook_func = nullptr) {
-          setupTraces(varName, (ClientData) &var,
+          setupTraces(varName, &var, sizeof(T),
               (Tcl_VarTraceProc*) tcl_traceGet<const T>,
               (Tcl_VarTraceProc*) TraceSetRO, hook_func);
         }
@@ -368,7 +357,6 @@ class ScriptInterpTCL : public ScriptInterp {
          */
         virtual void unlinkVar(const String& varName) {
           Tcl_UnsetVar(interp, *varName, TCL_GLOBAL_ONLY);
-          link_var_hooks.erase(varName);
           trace_ptrs.erase(varName);
         }
 
-- 
2.43.0


From 7b436e9d530cb3de127225df4da4202e35ec19c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:54 +0000
Subject: [PATCH 41/59] fix: callback parameters must not be evaluated as
 script

They were put between double quotes without escaping, so quotes, brackets,
dollar signs and backslashes in them were interpreted.
---
 src/ScriptInterpTCL.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index 19388f3..efa1765 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -126,8 +126,12 @@ class ScriptCallbackerTCL : public ScriptCallbacker {
       ScriptCallbacker(_si, _cmd) {};
     virtual ~ScriptCallbackerTCL() {};
     inline virtual String call(const Array<String>& params = Array<String>()) {
-      return si->eval(String::printf("%s %s", cmd.c_str(),
-            params.join(" ", true).c_str()));
+      Tcl_Obj* list = c_to_tcl_cast<const Array<String>&>::from(params,
+          nullptr);
+      Tcl_IncrRefCount(list);
+      const String args(tcl_to_c_cast<String>::from(list, si));
+      Tcl_DecrRefCount(list);
+      return si->eval(cmd + " " + args);
     }
 
 };
-- 
2.43.0


From d9f1db169263158b58c1f8bcc4e4792c92551e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:10 +0000
Subject: [PATCH 42/59] fix: detaching must not race with other threads sharing
 the buffer

The reference was given up before its contents were copied, so another
thread could modify or free the buffer meanwhile. If two threads detached at
once neither freed it, and the assertion failed if the other thread let go
of it first.
---
 src/ReferenceCountedArray.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index efaabb7..357de3c 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -254,10 +254,11 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
     /**
      * @brief Detach from the shared reference.
      * This is only called when losing the old buffer or when modifying the buffer (and copy-on-write is used)
-     * @note This does not free the old reference, as it is still in use
+     * @note The other users may let go of the reference at any time, in which case it is ours to free
      */
     void doDetach() const noexcept {
-      decRef();
+      if (Ref && decRef() < 1)
+        delete Ref;
       Ref = nullptr;
       sublen = 0;
       offset = 0;
@@ -381,10 +382,10 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * Also take a hint size n of the new ReferenceCountedArray's size as to avoid needless copying/allocing.
      */
     inline void COW(size_t n) const {
+      const ReferenceCountedArray old(*this); //Keeps the old buffer unmodified until it is copied
       const_pointer oldBuf = constBuf();
       const size_t oldLength = length();
 
-      assert(isShared());
       doDetach(); //Detach from the shared reference
       reserve(n, _rca_cow_scaling_factor); //Will set capacity()/size
       sublen = std::min(oldLength, n);
-- 
2.43.0


From ae5c20e9385dfb93f1897367109ed886a79d621d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:10 +0000
Subject: [PATCH 43/59] fix: split() must not assume nobody else shares the
 String meanwhile

Another thread copying or releasing a String that shares the buffer changes
the reference count and failed the assertion.
---
 src/String.cpp | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index e37def7..049f324 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -213,9 +213,6 @@ Array<String> String::split(const String& delim, size_t limit) const {
     return Array<String>({*this});
   }
 
-#ifndef NDEBUG
-  auto ref = rcount();
-#endif
   const String space(' ');
   Array<String> array;
   auto it = cbegin();
@@ -232,7 +229,6 @@ Array<String> String::split(const String& delim, size_t limit) const {
     if ((pos = _find(delim, it - cbegin())) == npos)
       pos = cend() - it;
     array << (*this)(it - cbegin(), pos);
-    assert(++ref);
     it += pos + delim.length();
     assert(it - delim.length() <= cend());
   }
@@ -242,14 +238,7 @@ Array<String> String::split(const String& delim, size_t limit) const {
     // Trim out left whitespace
     if (delim == space) while (it < cend() && *it == ' ') ++it;
     array << (*this)(it - cbegin());
-    assert(++ref);
   }
-  /*
-   * Our String should not be modified.
-   * We should only be returning reference slices.
-   */
-  assert(ref == rcount());
-
   return array;
 }
 
-- 
2.43.0


From 665eee743a03fcdfc2cf2a737c9f3f64f32292f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:21 +0000
Subject: [PATCH 44/59] fix: a temporary String sharing its buffer may be
 written to a stream

With assertions enabled, os << String(other) aborted.
---
 src/String.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/String.h b/src/String.h
index 21cc066..22fd31f 100755
--- a/src/String.h
+++ b/src/String.h
@@ -617,7 +617,6 @@ inline std::ostream& operator<<(std::ostream& os, const String& string) {
 }
 
 inline std::ostream& operator<<(std::ostream& os, String&& string) {
-  assert(!string.isShared());
   for (const char* c = string.cbegin(); c != string.cend(); ++c)
     os << std::move(*c);
   return os;
-- 
2.43.0


From 51645bf3d6a040dc1c8502c23950c2c16c9e78d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:04 +0000
Subject: [PATCH 45/59] fix: wiping Strings released by several threads raced
 on a shared counter

String::cleanse() read and updated the static cleanse_ctr without
synchronisation, so releasing two Strings, even unrelated ones, in two
threads was a data race. Use an atomic and a local copy.
---
 src/String.cpp |  2 +-
 src/String.h   | 14 +++++++++-----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index 049f324..68dcd2c 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -36,7 +36,7 @@
 
 BDLIB_NS_BEGIN
 
-unsigned char String::cleanse_ctr = 0;
+std::atomic<unsigned char> String::cleanse_ctr(0);
 
 /* Accessors */
 int String::compare(const String& str) const noexcept
diff --git a/src/String.h b/src/String.h
index 22fd31f..9b8ebb5 100755
--- a/src/String.h
+++ b/src/String.h
@@ -31,6 +31,7 @@
 #include "bdlib.h"
 #include "ReferenceCountedArray.h"
 
+#include <atomic>
 #include <cassert>
 #include <cstring>
 #include <iostream>
@@ -65,7 +66,7 @@ typedef char String_Array_Type;
 class String : public ReferenceCountedArray<String_Array_Type> {
   private:
         typedef std::allocator<String_Array_Type> Allocator;
-        static unsigned char cleanse_ctr;
+        static std::atomic<unsigned char> cleanse_ctr;
 
         /* Cleanse our buffer using OPENSSL_cleanse() */
         void cleanse() noexcept {
@@ -74,13 +75,16 @@ class String : public ReferenceCountedArray<String_Array_Type> {
 
           unsigned char *p = reinterpret_cast<unsigned char *>(ptr);
           size_t loop = len;
+          /* Strings may be released by several threads at once. */
+          unsigned char ctr = cleanse_ctr.load(std::memory_order_relaxed);
           while(loop--)
           {
-            *(p++) = static_cast<unsigned char>(cleanse_ctr);
-            cleanse_ctr += (17 + (reinterpret_cast<size_t>(p) & 0xF));
+            *(p++) = ctr;
+            ctr += (17 + (reinterpret_cast<size_t>(p) & 0xF));
           }
-          if(memchr(ptr, cleanse_ctr, len))
-            cleanse_ctr += (63 + reinterpret_cast<size_t>(p));
+          if(memchr(ptr, ctr, len))
+            ctr += (63 + reinterpret_cast<size_t>(p));
+          cleanse_ctr.store(ctr, std::memory_order_relaxed);
         }
   public:
 
-- 
2.43.0


From 2b4f32e986726cb43633a97e61bb666f95cd3681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:09 +0000
Subject: [PATCH 46/59] fix: hashing an Array raced with threads using a copy
 of it

hash() caches its result inside the elements, which are shared by all
copies of the array, so one thread hashing its array wrote what another
one was reading while copying. Make the cache a relaxed atomic.
---
 src/ReferenceCountedArray.h | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 357de3c..9d21436 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -144,6 +144,31 @@ class ArrayRef {
     ArrayRef& operator=(const ArrayRef&) = delete;
 };
 
+/**
+ * @class HashCache
+ * @brief Cached hash() of an array. 0 if stale
+ * Elements of arrays sharing storage are the same objects, so their hash may
+ * be cached while another thread copies them.
+ */
+class HashCache {
+  private:
+    std::atomic<size_t> value;
+
+  public:
+    HashCache() noexcept : value(0) {};
+    HashCache(const HashCache& cache) noexcept : value(size_t(cache)) {};
+    HashCache& operator=(const HashCache& cache) noexcept {
+      return *this = size_t(cache);
+    };
+    HashCache& operator=(size_t hash) noexcept {
+      value.store(hash, std::memory_order_relaxed);
+      return *this;
+    };
+    operator size_t() const noexcept {
+      return value.load(std::memory_order_relaxed);
+    };
+};
+
 template <class T>
 /**
  * @class Slice
@@ -336,7 +361,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
     /**
      * Cache of current hash() result. 0 if stale
      */
-    mutable size_t my_hash = 0;
+    mutable HashCache my_hash;
 
   private:
     /**
-- 
2.43.0


From 030247c473793e10a51866766d58f51d03a29f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:38 +0000
Subject: [PATCH 47/59] fix: assigning an initializer list to a HashTable must
 compile

---
 src/HashTable.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/HashTable.h b/src/HashTable.h
index 9bd6788..750fb20 100644
--- a/src/HashTable.h
+++ b/src/HashTable.h
@@ -116,9 +116,7 @@ class HashTable {
      * @param list An initializer_list
      */
     HashTable& operator=(std::initializer_list<value_type> list) & {
-      for (const auto& item : list) {
-        (*this)[item.key()] = item.value();
-      }
+      map = list;
       return *this;
     }
 
-- 
2.43.0


From 8a3c6da3cf3567ba847f787d611c8b21a2e5da39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:30 +0000
Subject: [PATCH 48/59] fix: running out of memory while detaching must not
 lose the contents

---
 src/ReferenceCountedArray.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 9d21436..db39963 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -412,7 +412,12 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       const size_t oldLength = length();
 
       doDetach(); //Detach from the shared reference
-      reserve(n, _rca_cow_scaling_factor); //Will set capacity()/size
+      try {
+        reserve(n, _rca_cow_scaling_factor); //Will set capacity()/size
+      } catch (...) {
+        const_cast<ReferenceCountedArray&>(*this) = old; //Keep what we had
+        throw;
+      }
       sublen = std::min(oldLength, n);
       std::copy(oldBuf, oldBuf + sublen, Buf());
     }
-- 
2.43.0


From d6ec8ae8436103d102289f1ecd42102c8b611b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:05 +0000
Subject: [PATCH 49/59] fix: ranges that can be read only once must not be lost
 by measuring them

---
 src/ReferenceCountedArray.h | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index db39963..1bdcae3 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -276,6 +276,27 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       typename std::iterator_traits<InputIt>::iterator_category,
       std::input_iterator_tag>;
 
+    /**
+     * @brief How much room to make for a range
+     * @return 0 if it can only be read once, so that measuring it would lose it
+     */
+    template <typename ForwardIt>
+    static inline size_t range_length(ForwardIt first, ForwardIt last,
+        std::forward_iterator_tag) {
+      return std::distance(first, last);
+    }
+    template <typename InputIt>
+    static inline size_t range_length(const InputIt&, const InputIt&,
+        std::input_iterator_tag) {
+      return 0;
+    }
+    template <typename InputIt>
+    static inline size_t range_length(const InputIt& first,
+        const InputIt& last) {
+      return range_length(first, last,
+          typename std::iterator_traits<InputIt>::iterator_category());
+    }
+
     /**
      * @brief Detach from the shared reference.
      * This is only called when losing the old buffer or when modifying the buffer (and copy-on-write is used)
@@ -593,7 +614,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
         is_input_iterator<InputIt>::value,
         InputIt
         >::type last) :
-      ReferenceCountedArray(std::distance(first, last)) {
+      ReferenceCountedArray(range_length(first, last)) {
       insert(cbegin(), first, last);
     }
 
@@ -1072,7 +1093,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
     insert(const_iterator pos, InputIt first, InputIt last) {
       auto index = pos - cbegin();
       const auto rindex = index;
-      AboutToModify(length() + std::distance(first, last));
+      AboutToModify(length() + range_length(first, last));
       while (first != last)
         insert(std::next(begin(), index++), *first++);
       return std::next(begin(), rindex);
-- 
2.43.0


From 78198c9b209acd1fd46a092a0b1475fca5aab7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:14 +0000
Subject: [PATCH 50/59] fix: constructing an Array from a terminated C array
 must compile

---
 src/Array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Array.h b/src/Array.h
index 34d0610..b11a524 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -74,8 +74,8 @@ class Array : public ReferenceCountedArray<T> {
       if (carray == nullptr || *carray == '\0')
         return;
       while (*carray != '\0') {
-        reserve(ReferenceCountedArray<T>::sublen + 1, 4);
-        *(Buf(ReferenceCountedArray<T>::sublen++)) = *carray++;
+        this->reserve(ReferenceCountedArray<T>::sublen + 1, 4);
+        *(this->Buf(ReferenceCountedArray<T>::sublen++)) = *carray++;
       }
     };
 
-- 
2.43.0


From c23cd7a8548174503931ea06b64b440585dc404e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:33 +0000
Subject: [PATCH 51/59] fix: reading a String must honor the stream's width,
 skipws and exceptions

---
 src/String.cpp | 48 +++++++++++++++++++-----------------------------
 1 file changed, 19 insertions(+), 29 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index 68dcd2c..d4571bc 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -164,40 +164,30 @@ void String::replace(size_t pos, const char *string, size_t n)
 }
 
 std::istream& operator>>(std::istream& is, String& string) {
-  char ch;
-  string = "";    // empty string, will build one char at-a-time
-  is >> ch;    // whitespace skipped, first non-white char in ch
-
-  if (!is.fail())
-  {
-    do
-    {
-      string += ch;
-      is.get(ch);
-    } while (!is.fail() && !isspace(ch));
-
-    if (is.fail())    // the input ended, but there was a word
-    {
-      is.clear(is.rdstate() & ~std::ios::failbit);
-    }
-    else    // put whitespace back on the stream
-    {
-      is.putback(ch);
-    }
+  std::string word;
+
+  string = "";
+  try {
+    is >> word;    // honors width, skipws and exceptions of the stream
+  } catch (...) {
+    string = word;    // the stream may report the end of input by throwing
+    throw;
   }
+  string = word;
   return is;
 }
 
 std::istream& getline(std::istream& is, String& string) {
- 
-  char ch = 0;
-  string = "";     // empty string, will build one char at-a-time
- 
-  while (is.get(ch) && ch != '\n')
-    string += ch;
-
-  if (is.fail() && string.length())    // the input ended, but there was a line
-    is.clear(is.rdstate() & ~std::ios::failbit);
+  std::string line;
+
+  string = "";
+  try {
+    std::getline(is, line);
+  } catch (...) {
+    string = line;    // the stream may report the end of input by throwing
+    throw;
+  }
+  string = line;
   return is;
 }
 
-- 
2.43.0


From 3173fb1ee5997c073cbed101e21ad89487c47cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:33 +0000
Subject: [PATCH 52/59] fix: writing a String must apply the stream's width to
 all of it

---
 src/String.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/String.h b/src/String.h
index 9b8ebb5..3364424 100755
--- a/src/String.h
+++ b/src/String.h
@@ -614,16 +614,11 @@ operator>=(const String& lhs, const char* rhs) noexcept {
 }
 
 inline std::ostream& operator<<(std::ostream& os, const String& string) {
-  for (const char* c = string.cbegin(); c != string.cend(); ++c)
-    os << *c;
-  return os;
-  //return os << string.c_str();
+  return os << std::string(string);
 }
 
 inline std::ostream& operator<<(std::ostream& os, String&& string) {
-  for (const char* c = string.cbegin(); c != string.cend(); ++c)
-    os << std::move(*c);
-  return os;
+  return os << std::string(string);
 }
 
 String newsplit(String& str, char delim = ' ');
-- 
2.43.0


From bac2bd9e9ed320a50330f38d368c69fef819be79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:44 +0000
Subject: [PATCH 53/59] fix: a new buffer must be freed if an element cannot be
 copied into it

---
 src/ReferenceCountedArray.h | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 1bdcae3..2c8f0d7 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -83,9 +83,11 @@ class ArrayRef {
         iterator newbuf = std::allocator_traits<Allocator>::allocate(alloc, newSize, buf);
 
         if (newbuf != buf) {
+          NewBuf unused{alloc, newbuf, newSize, newSize};
           // Initialize new memory
           if __CPP17_IFCONSTEXPR (std::is_class<T>::value)
             std::uninitialized_fill(newbuf + sublen, newbuf + newSize, T());
+          unused.filled = sublen;
           if (buf) {
             /* Copy old buffer into new - only copy the subarray */
             if __CPP17_IFCONSTEXPR (std::is_class<T>::value) {
@@ -104,6 +106,7 @@ class ArrayRef {
               std::move(buf + offset, buf + offset + sublen, newbuf);
             FreeBuf(buf);
           }
+          unused.buf = nullptr;
           buf = newbuf;
           size = newSize;
           offset = 0;
@@ -139,6 +142,25 @@ class ArrayRef {
       return refs > 1;
     }
   private:
+    /**
+     * @brief Frees a new buffer if an element could not be copied into it.
+     */
+    struct NewBuf {
+      Allocator& alloc;
+      iterator buf;
+      const size_t size;
+      size_t filled;  ///< Where the constructed elements start
+      ~NewBuf() {
+        if (buf) {
+          if __CPP17_IFCONSTEXPR (std::is_class<T>::value) {
+            for (; filled != size; ++filled)
+              std::allocator_traits<Allocator>::destroy(alloc, buf + filled);
+          }
+          std::allocator_traits<Allocator>::deallocate(alloc, buf, size);
+        }
+      }
+    };
+
     // No copying allowed
     ArrayRef(const ArrayRef&) = delete;
     ArrayRef& operator=(const ArrayRef&) = delete;
-- 
2.43.0


From f8be9828520ed6326ccbfec76387ca36e112e499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:07:44 +0000
Subject: [PATCH 54/59] fix: copy-on-write must keep the old value if an
 element cannot be copied

---
 src/ReferenceCountedArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 2c8f0d7..e6abb54 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -457,12 +457,12 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       doDetach(); //Detach from the shared reference
       try {
         reserve(n, _rca_cow_scaling_factor); //Will set capacity()/size
+        sublen = std::min(oldLength, n);
+        std::copy(oldBuf, oldBuf + sublen, Buf());
       } catch (...) {
         const_cast<ReferenceCountedArray&>(*this) = old; //Keep what we had
         throw;
       }
-      sublen = std::min(oldLength, n);
-      std::copy(oldBuf, oldBuf + sublen, Buf());
     }
 
   protected:
-- 
2.43.0


From 451e3c641b192d0bebc81645a36e3ed75e89ff27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:53 +0000
Subject: [PATCH 55/59] fix: loading a file without enough memory must release
 the file and stop loading

---
 src/Stream.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index 9f35000..b0a658b 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -101,7 +101,13 @@ int Stream::loadFile(const String& file)
   int fd = open(file.c_str(), O_RDONLY);
   if (fd == -1)
     return 1;
-  int ret = loadFile(fd);
+  int ret;
+  try {
+    ret = loadFile(fd);
+  } catch (...) {
+    close(fd);
+    throw;
+  }
   close(fd);
   return ret;
 }
@@ -124,7 +130,13 @@ int Stream::loadFile(const int fd)
   }
   loading = 1;
 
-  puts(String(static_cast<const char*>(map), size));
+  try {
+    puts(String(static_cast<const char*>(map), size));
+  } catch (...) {
+    munmap(map, size);
+    loading = 0;
+    throw;
+  }
 
   munmap(map, size);
 #else
@@ -142,13 +154,20 @@ int Stream::loadFile(const int fd)
   fseek(f, 0, SEEK_END);
   size_t size = ftell(f);
   fseek(f, 0, SEEK_SET);
-  reserve(size);
 
   size_t len = 0;
   char buf[STREAM_BLOCKSIZE + 1];
 
-  while ((len = fread(buf, 1, sizeof(buf) - 1, f))) {
-    puts(String(buf, len));
+  try {
+    reserve(size);
+    while ((len = fread(buf, 1, sizeof(buf) - 1, f))) {
+      puts(String(buf, len));
+    }
+  } catch (...) {
+    fclose(f);
+    clear();
+    loading = 0;
+    throw;
   }
   fclose(f);
 #endif
-- 
2.43.0


From e53bf56555071da439981b5323d16a128c0c2767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:35 +0000
Subject: [PATCH 56/59] fix: reserving the largest size must not wrap around to
 nothing

---
 src/String.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/String.h b/src/String.h
index 3364424..29fb7a5 100755
--- a/src/String.h
+++ b/src/String.h
@@ -140,7 +140,8 @@ class String : public ReferenceCountedArray<String_Array_Type> {
 
         void reserve(const size_t newSize,
             double scaling_factor = 1) const override {
-          const size_t realSize = newSize > 0 ? newSize + 1 : newSize;
+          /* Leave room to terminate; npos is too much already. */
+          const size_t realSize = newSize > 0 && newSize < npos ? newSize + 1 : newSize;
           ReferenceCountedArray::reserve(realSize, scaling_factor);
           /* Only terminate in space which is ours and not in use. */
           if (constBuf() != nullptr && !isShared() &&
-- 
2.43.0


From d0f8b65b77ed29b24bd975237ea0cfd9a8b2a3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:30 +0000
Subject: [PATCH 57/59] fix: reserving the largest size of a Stream must not
 wrap around

---
 src/Stream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index b0a658b..2ba2e3d 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -43,6 +43,11 @@ BDLIB_NS_BEGIN
 void Stream::reserve(const size_t newSize) const {
   if (newSize < capacity())
     return;
+  /* Rounding up must not wrap around; this much cannot be had anyway. */
+  if (newSize > String::npos - STREAM_BLOCKSIZE) {
+    str.reserve(newSize);
+    return;
+  }
   str.reserve(STREAM_BLOCKSIZE * ((newSize + STREAM_BLOCKSIZE -1) / STREAM_BLOCKSIZE));
 }
 
-- 
2.43.0


From fb8f7d9de041e891abdc1420ee6ab6c0edcc9777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:55 +0000
Subject: [PATCH 58/59] fix: writing to a linked array element must reach the C
 variable

The write trace looked the value up by the array's name only, so every
write to a linked element failed while reads worked.
---
 src/ScriptInterpTCL.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 3817340..8cfc588 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -127,10 +127,7 @@ const char* ScriptInterpTCL::TraceGet(Tcl_Obj* value, Tcl_Interp *interp,
 
 Tcl_Obj* ScriptInterpTCL::TraceSet(Tcl_Interp *interp, char *name1,
     char *name2, int flags) {
-  Tcl_Obj *name1o = c_to_tcl_cast<const char*>::from(name1, interp);
-  Tcl_Obj *value = Tcl_ObjGetVar2(interp, name1o, 0, flags);
-  Tcl_DecrRefCount(name1o);
-  return value;
+  return Tcl_GetVar2Ex(interp, name1, name2, flags);
 }
 
 Tcl_Obj* c_to_tcl_cast<const Array<String>&>::from(const Array<String>& array,
-- 
2.43.0


From 81226a847c0d2a1faae485e7d2656120602ce7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:43 +0000
Subject: [PATCH 59/59] fix: the sign of comparing Strings must survive lengths
 2^31 apart

---
 src/String.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index d4571bc..81daaf6 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -52,7 +52,7 @@ int String::compare(const String& str) const noexcept
   if (diff)
     return diff;
   else
-    return mylen - slen;
+    return (mylen > slen) - (mylen < slen);
 }
 
 int String::compare(const String& str, size_t n) const noexcept
@@ -69,10 +69,8 @@ int String::compare(const String& str, size_t n) const noexcept
   const auto diff = std::memcmp(cbegin(), str.cbegin(), len);
   if (diff)
     return diff;
-  else if (n)
-    return std::min(mylen, n) - slen;
-  else
-    return mylen - slen;
+  const auto cmplen = std::min(mylen, n);
+  return (cmplen > slen) - (cmplen < slen);
 }
 
 int String::compare(const char* str) const noexcept
-- 
2.43.0

