From 8396c25f4c56a85fa13e24be0ba9649ee89df01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:27 +0000
Subject: [PATCH 01/63] fix: vector::resize(0) left the size unchanged

---
 include/nanovector.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/nanovector.h b/include/nanovector.h
index 130f3d9..33ad3bc 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -82,10 +82,6 @@ class vector {
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL void resize(size_type count) {
-    if (count < 1) {
-      return;
-    }
-
     if (count > capacity()) {
       // TODO(LTE): Use memcpy() or realloc() like functionality to speed up
       // resizing.
-- 
2.43.0


From 052e3ce738b882abcb45a101f97163e7e6fc4abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:27 +0000
Subject: [PATCH 02/63] fix: valarray::resize(0) left the size unchanged

---
 include/nanovalarray.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/include/nanovalarray.h b/include/nanovalarray.h
index dfb92ac..7f65934 100644
--- a/include/nanovalarray.h
+++ b/include/nanovalarray.h
@@ -82,10 +82,6 @@ class valarray {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   void resize(size_type count) {
-    if (count < 1) {
-      return;
-    }
-
     if (count > capacity()) {
       // TODO(LTE): Use memcpy() or realloc() like functionality to speed up
       // resizing.
-- 
2.43.0


From 330b1db6cde727cab6cf3da2075d4a2b054b724b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:27 +0000
Subject: [PATCH 03/63] fix: vector::resize exposed uninitialized or stale
 elements when growing

---
 include/nanovector.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nanovector.h b/include/nanovector.h
index 33ad3bc..0b8e2dd 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -107,6 +107,11 @@ class vector {
       capacity_ = new_capacity;
     }
 
+    // Value-initialize newly exposed elements.
+    for (size_type i = size_; i < count; i++) {
+      elements_[i] = value_type();
+    }
+
     size_ = count;
   }
 
-- 
2.43.0


From 0716112249483b71ad5732dc86c0d2f8c7b49785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:27 +0000
Subject: [PATCH 04/63] fix: valarray::resize exposed uninitialized or stale
 elements when growing

---
 include/nanovalarray.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nanovalarray.h b/include/nanovalarray.h
index 7f65934..53dcde6 100644
--- a/include/nanovalarray.h
+++ b/include/nanovalarray.h
@@ -107,6 +107,11 @@ class valarray {
       capacity_ = new_capacity;
     }
 
+    // Value-initialize newly exposed elements.
+    for (size_type i = size_; i < count; i++) {
+      elements_[i] = value_type();
+    }
+
     size_ = count;
   }
 
-- 
2.43.0


From e21261ab41bfa952e42bc276b26dcca280b39202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:27 +0000
Subject: [PATCH 05/63] fix: vector::push_back of an own element read freed
 memory on reallocation

---
 include/nanovector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nanovector.h b/include/nanovector.h
index 0b8e2dd..84223a6 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -116,8 +116,9 @@ class vector {
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL void push_back(const value_type& val) {
+    const value_type tmp(val);  // `val` may refer to an element of this vector.
     resize(size() + 1);
-    elements_[size_ - 1] = val;
+    elements_[size_ - 1] = tmp;
   }
 
   // void push_back(value_type &val); // C++11
-- 
2.43.0


From 48fc604c049d57dc0051f3f0917bd0a4a357322b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:27 +0000
Subject: [PATCH 06/63] fix: vector::erase returned the end instead of the
 element after the erased one

---
 include/nanovector.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/nanovector.h b/include/nanovector.h
index 84223a6..ad363da 100644
--- a/include/nanovector.h
+++ b/include/nanovector.h
@@ -152,9 +152,8 @@ class vector {
   }
 
   inline iterator erase(iterator pos) {
-    while ((pos + 1) != end()) {
-      (*pos) = *(pos + 1);
-      pos++;
+    for (iterator it = pos; (it + 1) != end(); it++) {
+      (*it) = *(it + 1);
     }
     size_--;
 
-- 
2.43.0


From 559c8827affbc53e3e134da1a17d851689a17d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:27 +0000
Subject: [PATCH 07/63] fix: valarray::erase returned the end instead of the
 element after the erased one

---
 include/nanovalarray.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/nanovalarray.h b/include/nanovalarray.h
index 53dcde6..dcb59fe 100644
--- a/include/nanovalarray.h
+++ b/include/nanovalarray.h
@@ -150,9 +150,8 @@ class valarray {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   inline iterator erase(iterator pos) {
-    while ((pos + 1) != end()) {
-      (*pos) = *(pos + 1);
-      pos++;
+    for (iterator it = pos; (it + 1) != end(); it++) {
+      (*it) = *(it + 1);
     }
     size_--;
 
-- 
2.43.0


From f73ecc39b7812c742e674d3ad77d412386107c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:48 +0000
Subject: [PATCH 08/63] fix: string(first, last) included *last and was not NUL
 terminated

---
 include/nanostring.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 8b99b55..b6e8206 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -80,10 +80,11 @@ class basic_string {
   NANOSTL_HOST_AND_DEVICE_QUAL
   basic_string(const charT *first, const charT *last) {
     const char *s = first;
-    while (s && (s <= last)) {
+    while (s && (s < last)) {
       data_.push_back(*s);
       s++;
     }
+    data_.push_back('\0');
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-- 
2.43.0


From 3b2adb687a9192f013ed8a22b88bc253488a790c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:48 +0000
Subject: [PATCH 09/63] fix: string(s, count) was not NUL terminated and one
 character short

---
 include/nanostring.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nanostring.h b/include/nanostring.h
index b6e8206..1916bd8 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -92,6 +92,7 @@ class basic_string {
     for (size_type i = 0; i < count; i++) {
       data_.push_back(s[i]);
     }
+    data_.push_back('\0');
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-- 
2.43.0


From 13da3c4c040249fabceffdaefe462df2e806146c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:48 +0000
Subject: [PATCH 10/63] fix: string::empty() was false for empty strings

---
 include/nanostring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 1916bd8..61aa8e8 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -96,7 +96,7 @@ class basic_string {
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  bool empty() const { return data_.size() == 0; }
+  bool empty() const { return size() == 0; }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   size_type size() const {
-- 
2.43.0


From 8f0f7c2e2c662a9bfeed8fd517656bea2f5a1f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:48 +0000
Subject: [PATCH 11/63] fix: string += itself read freed memory and lost the
 terminator

---
 include/nanostring.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nanostring.h b/include/nanostring.h
index 61aa8e8..7fb949e 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -203,6 +203,11 @@ basic_string<charT> basic_string<charT>::operator+(
 template <class charT>
 basic_string<charT> &basic_string<charT>::operator+=(
     const basic_string<charT> &s) {
+  if (this == &s) {
+    // Appending to itself: `s` must not change while it is read.
+    return (*this) += basic_string<charT>(s);
+  }
+
   // remove '\0'
   if (data_.size() < 1) {
     // this should not be happen
-- 
2.43.0


From e2f64d822f18343cb96e1d9c996d1dc922706ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:17 +0000
Subject: [PATCH 12/63] fix: operator<<(ostream, string) was defined in every
 translation unit (duplicate symbol)

---
 include/nanostring.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 7fb949e..d84d998 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -236,7 +236,7 @@ basic_string<charT> &basic_string<charT>::operator+=(
 typedef basic_string<char> string;
 
 // stream
-ostream &operator<<(ostream &os, const string &s)
+inline ostream &operator<<(ostream &os, const string &s)
 {
   os << s;
 
-- 
2.43.0


From 923c9392ffcb6208d20d8df8be4a51b954a0dc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:17 +0000
Subject: [PATCH 13/63] fix: to_string(int) overflowed its buffer or truncated
 large magnitudes

---
 include/nanostring.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index d84d998..f201365 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -294,9 +294,11 @@ string to_string(int value) {
     }
   };
 
-  char buffer[numeric_limits<int>::digits10 + 2];  // +2 for sign and null
+  char buffer[numeric_limits<int>::digits10 + 3];  // +3 for leading digit, sign and null
 
-  int n = (value < 0) ? -value : value;  // abs
+  // abs(unsigned, since -value overflows for the lowest value)
+  unsigned int n = static_cast<unsigned int>(value);
+  if (value < 0) n = 0 - n;
   int i = 0;
   int base = 10;
   while (n) {
-- 
2.43.0


From 7d3701be0bcef8d8459809d198ab8d71ce35dd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:17 +0000
Subject: [PATCH 14/63] fix: to_string(int64_t) overflowed its buffer or
 truncated large magnitudes

---
 include/nanostring.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index f201365..60b2ead 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -344,9 +344,11 @@ string to_string(int64_t value) {
     }
   };
 
-  char buffer[numeric_limits<int64_t>::digits10 + 2];  // +2 for sign and null
+  char buffer[numeric_limits<int64_t>::digits10 + 3];  // +3 for leading digit, sign and null
 
-  int n = (value < 0) ? -value : value;  // abs
+  // abs(unsigned, since -value overflows for the lowest value)
+  uint64_t n = static_cast<uint64_t>(value);
+  if (value < 0) n = 0 - n;
   int i = 0;
   int base = 10;
   while (n) {
-- 
2.43.0


From 50c649f3ec7f1d62d37c2fc239c83fee78d3adcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:17 +0000
Subject: [PATCH 15/63] fix: to_string(unsigned int) and to_string(uint64_t)
 were declared but not defined

---
 include/nanostring.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/nanostring.h b/include/nanostring.h
index 60b2ead..c99b9e0 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -378,6 +378,26 @@ string to_string(int64_t value) {
   return string(buffer);
 }
 
+NANOSTL_HOST_AND_DEVICE_QUAL
+string to_string(uint64_t value) {
+  char buffer[numeric_limits<uint64_t>::digits10 + 2];  // +2 for leading digit and null
+
+  // Fill digits from the end.
+  char *p = buffer + sizeof(buffer);
+  *(--p) = '\0';
+  do {
+    *(--p) = static_cast<char>('0' + (value % 10));
+    value = value / 10;
+  } while (value);
+
+  return string(p);
+}
+
+NANOSTL_HOST_AND_DEVICE_QUAL
+string to_string(unsigned int value) {
+  return to_string(static_cast<uint64_t>(value));
+}
+
 // TODO: Move implementation to .cc and remove `static`
 NANOSTL_HOST_AND_DEVICE_QUAL
 string to_string(float value) {
-- 
2.43.0


From 1e119675ce25038adef1bd5999b0cdf34c034131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:17 +0000
Subject: [PATCH 16/63] fix: stof was declared but not defined

---
 include/nanostring.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index c99b9e0..3d5efa0 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -415,7 +415,6 @@ string to_string(double value) {
   return string(buf);
 }
 
-#if 0
 NANOSTL_HOST_AND_DEVICE_QUAL
 float stof(const nanostl::string &str, nanostl::size_t *idx) {
   (void)idx;  // TODO(LTE):
@@ -429,8 +428,6 @@ float stof(const nanostl::string &str, nanostl::size_t *idx) {
 
   return value;
 }
-#else
-#endif
 
 NANOSTL_HOST_AND_DEVICE_QUAL
 float stod(const nanostl::string &str, nanostl::size_t *idx) {
-- 
2.43.0


From e68bf77e951fe09e8e9ec01dc7beea4c2754f27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:17 +0000
Subject: [PATCH 17/63] fix: stod rounded its result to float

---
 include/nanostring.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 3d5efa0..88ac1df 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -265,7 +265,7 @@ NANOSTL_HOST_AND_DEVICE_QUAL
 float stof(const nanostl::string &str, nanostl::size_t *idx = nullptr);
 
 NANOSTL_HOST_AND_DEVICE_QUAL
-float stod(const nanostl::string &str, nanostl::size_t *idx = nullptr);
+double stod(const nanostl::string &str, nanostl::size_t *idx = nullptr);
 
 #if defined(NANOSTL_IMPLEMENTATION)
 #ifndef NANOSTL_STRING_IMPLEMENTATION
@@ -430,7 +430,7 @@ float stof(const nanostl::string &str, nanostl::size_t *idx) {
 }
 
 NANOSTL_HOST_AND_DEVICE_QUAL
-float stod(const nanostl::string &str, nanostl::size_t *idx) {
+double stod(const nanostl::string &str, nanostl::size_t *idx) {
   (void)idx;  // TODO(LTE):
   double value;
   ryu::RyuStatus ret = ryu::s2d_n(str.c_str(), str.size(), &value);
-- 
2.43.0


From 91a361d1546cc457014d40e9433041643936162c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:59 +0000
Subject: [PATCH 18/63] fix: nanostring.h included fast_float inside namespace
 nanostl and did not compile

---
 include/nanostring.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 88ac1df..46fe3d7 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -275,8 +275,6 @@ double stod(const nanostl::string &str, nanostl::size_t *idx = nullptr);
 
 #if defined(NANOSTL_STRING_IMPLEMENTATION)
 
-#include "fast_float/fast_float.h"
-
 NANOSTL_HOST_AND_DEVICE_QUAL
 string to_string(int value) {
   // naiive implementation of base-10 int to ascii
-- 
2.43.0


From 2b616070afc6e3137f65d595c77ea6ad249082cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:59 +0000
Subject: [PATCH 19/63] fix: string comparison ignored everything after an
 embedded NUL

---
 include/nanostring.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index 46fe3d7..abe6392 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -133,7 +133,16 @@ class basic_string {
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   int compare(const basic_string &str) const {
-    return compare_(&data_[0], &str[0]);
+    // Compare all characters: strings may contain '\0'.
+    const size_type n = (size() < str.size()) ? size() : str.size();
+    size_type i = 0;
+    while ((i < n) && (data_[i] == str[i])) {
+      i++;
+    }
+    if (i < n) {
+      return compare_(&data_[i], &str[i]);
+    }
+    return (size() < str.size()) ? -1 : (size() > str.size()) ? 1 : 0;
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-- 
2.43.0


From adc50ecacc6615c40593b617f7d1c5e761ce620a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:59 +0000
Subject: [PATCH 20/63] fix: map::begin() was not the element with the lowest
 key

---
 include/nanomap.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/nanomap.h b/include/nanomap.h
index 3c30785..c01942a 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -126,7 +126,11 @@ class map {
   // accessors:
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  iterator begin() { return iterator(this, root); }
+  iterator begin() {
+    Node* t = root;
+    while (t && t->ch[0]) t = t->ch[0];
+    return iterator(this, t);
+  }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   iterator end() { return iterator(this, 0); }
-- 
2.43.0


From 18205e0d4523790dba1b3fa9da69d757c1fd97cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:59 +0000
Subject: [PATCH 21/63] fix: map iterator == dereferenced end() and != did not
 compile

---
 include/nanomap.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/nanomap.h b/include/nanomap.h
index c01942a..c191b67 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -98,17 +98,12 @@ class map {
 
     NANOSTL_HOST_AND_DEVICE_QUAL
     bool operator==(const iterator& rhs) const {
-      if (rhs.isEnd() && this->isEnd()) return true;
-      return *rhs == this->p->val;
+      return this->p == rhs.p;
     }
 
     NANOSTL_HOST_AND_DEVICE_QUAL
     bool operator!=(const iterator& rhs) const {
-      if (rhs.isEnd() && this->isEnd())
-        return false;
-      else if (rhs.isEnd() || this->isEnd())
-        return true;
-      return *rhs != this->p->val;
+      return this->p != rhs.p;
     }
 
     NANOSTL_HOST_AND_DEVICE_QUAL
-- 
2.43.0


From e3ab99fc9380cadd217dcd2b4df5f7140f70b73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:59 +0000
Subject: [PATCH 22/63] fix: map::find, upper_bound and end did not compile for
 a const map

---
 include/nanomap.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nanomap.h b/include/nanomap.h
index c191b67..5038f2d 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -76,12 +76,12 @@ class map {
   };
 
   class iterator {
-    map<Key, T>* mp;
+    const map<Key, T>* mp;
     Node* p;
 
    public:
     NANOSTL_HOST_AND_DEVICE_QUAL
-    iterator(map<Key, T>* _mp = 0, Node* _p = 0) : mp(_mp), p(_p) {}
+    iterator(const map<Key, T>* _mp = 0, Node* _p = 0) : mp(_mp), p(_p) {}
 
     NANOSTL_HOST_AND_DEVICE_QUAL
     iterator& operator++() {
-- 
2.43.0


From 527f73ab780581a9cee500b82fa423ca28477d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:00:59 +0000
Subject: [PATCH 23/63] fix: copies of a map shared its nodes, which were
 deleted twice

---
 include/nanomap.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/nanomap.h b/include/nanomap.h
index 5038f2d..8316474 100644
--- a/include/nanomap.h
+++ b/include/nanomap.h
@@ -115,6 +115,19 @@ class map {
   NANOSTL_HOST_AND_DEVICE_QUAL
   map() { root = 0; }
 
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  map(const map& rhs) { root = __copy(rhs.root); }
+
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  map& operator=(const map& rhs) {
+    if (this != &rhs) {
+      Node* t = __copy(rhs.root);
+      __delete(root);
+      root = t;
+    }
+    return *this;
+  }
+
   NANOSTL_HOST_AND_DEVICE_QUAL
   ~map() { __delete(root); }
 
@@ -220,6 +233,16 @@ class map {
     return __upper_bound(t->ch[1], key);
   }
 
+  NANOSTL_HOST_AND_DEVICE_QUAL
+  Node* __copy(const Node* t) const {
+    if (!t) return 0;
+    Node* n = new Node(t->val);
+    n->pri = t->pri;
+    n->ch[0] = __copy(t->ch[0]);
+    n->ch[1] = __copy(t->ch[1]);
+    return n;
+  }
+
   NANOSTL_HOST_AND_DEVICE_QUAL
   void __delete(Node* t) {
     if (!t) return;
-- 
2.43.0


From a14b047b4163d7b8f715ce322a66a13b1532e6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:22 +0000
Subject: [PATCH 24/63] fix: swap was declared but not defined

---
 include/nanotype_traits.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index e80dde9..df40699 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -1247,6 +1247,27 @@ struct __is_nothrow_swappable
 {
 };
 
+template <class _Tp>
+inline __swap_result_t<_Tp>
+swap(_Tp& __x, _Tp& __y) __NANOSTL_NOEXCEPT_(is_nothrow_move_constructible<_Tp>::value &&
+                                    is_nothrow_move_assignable<_Tp>::value)
+{
+  _Tp __t(nanostl::move(__x));
+  __x = nanostl::move(__y);
+  __y = nanostl::move(__t);
+}
+
+template<class _Tp, size_t _Np>
+inline typename enable_if<
+    __is_swappable<_Tp>::value
+>::type
+swap(_Tp (&__a)[_Np], _Tp (&__b)[_Np]) __NANOSTL_NOEXCEPT_(__is_nothrow_swappable<_Tp>::value)
+{
+  for (size_t __i = 0; __i < _Np; __i++) {
+    swap(__a[__i], __b[__i]);
+  }
+}
+
 // is_trivially_constructible
 
 template <class _Tp, class... _Args>
-- 
2.43.0


From 2f18e8ea738c752ef36595a39bae2cd2f6a490fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:22 +0000
Subject: [PATCH 25/63] fix: is_union was always false, so unions were reported
 as classes

---
 include/nanotype_traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index df40699..50e9d61 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -792,7 +792,7 @@ struct __is_implicitly_default_constructible<_Tp, decltype(__test_implicit_defau
 
 // is_union
 
-template <class _Tp> struct __libcpp_union : public false_type {};
+template <class _Tp> struct __libcpp_union : public integral_constant<bool, __is_union(_Tp)> {};
 template <class _Tp> struct _NANOSTL_TEMPLATE_VIS is_union
     : public __libcpp_union<typename remove_cv<_Tp>::type> {};
 
-- 
2.43.0


From d645506c1227bf96648fcb5232eb5689304c4e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:22 +0000
Subject: [PATCH 26/63] fix: fabs(-0) was -0

---
 include/nanomath.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 8d23def..611609e 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -92,11 +92,10 @@ static inline bool __is_subnormal(double arg) {
 
 template <typename T>
 static inline T fabs(T num) {
-  // TODO(LTE): Handle +0 and -0 case correctly.
   // TODO(LTE): Handle +inf and -inf case correctly.
 
-  if (num < static_cast<T>(0)) {
-    return -num;
+  if (num <= static_cast<T>(0)) {
+    return static_cast<T>(0) - num;  // +0 for -0
   }
 
   return num;
-- 
2.43.0


From 252483497f1744f11fcfdee444d01effa794d9c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:22 +0000
Subject: [PATCH 27/63] fix: ceil and floor failed for values outside the int
 range or tiny fractions

---
 include/nanomath.h | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 611609e..3e03c1d 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -102,12 +102,15 @@ static inline T fabs(T num) {
 }
 
 // https://stackoverflow.com/questions/8377412/ceil-function-how-can-we-implement-it-ourselves
-// FIXME(LTE): Won't work for large float value.
 template <typename T>
 static inline T ceil(T num) {
-  int inum = int(num);
-  T diff = num - static_cast<T>(inum);
-  if (fabs(diff) < nanostl::numeric_limits<T>::epsilon()) {
+  // Values this large(and inf, nan) have no fractional part.
+  if (!(fabs(num) < static_cast<T>(4503599627370496.0))) {  // 2^52
+    return num;
+  }
+
+  long long inum = static_cast<long long>(num);
+  if (static_cast<T>(inum) == num) {
     return inum;
   }
 
@@ -121,11 +124,16 @@ static inline T ceil(T num) {
 // https://stackoverflow.com/questions/5122993/floor-int-function-implementaton
 template <typename T>
 static inline T floor(T x) {
+  // Values this large(and inf, nan) have no fractional part.
+  if (!(fabs(x) < static_cast<T>(4503599627370496.0))) {  // 2^52
+    return x;
+  }
+
   if (x >= static_cast<T>(0)) {
-    return int(x);
+    return static_cast<long long>(x);
   } else {
-    int y = int(x);
-    if (fabs(static_cast<T>(y) - x) < nanostl::numeric_limits<T>::epsilon()) {
+    long long y = static_cast<long long>(x);
+    if (static_cast<T>(y) == x) {
       return y;
     } else {
       return y - 1;
-- 
2.43.0


From 5e77919e90703dee093c5817f4905af52fd444e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:22 +0000
Subject: [PATCH 28/63] fix: sqrt(+inf) and sqrt(-inf) were -inf

---
 include/nanomath.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 3e03c1d..a982b6e 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -310,8 +310,8 @@ static inline float sqrt(const float x) {
     return 1.0f;               // +0
   }
 
-  // -inf
-  if ((x < 0.0f) && nanostl::isinf(x)) {
+  // +inf
+  if ((x > 0.0f) && nanostl::isinf(x)) {
     return x;
   }
 
-- 
2.43.0


From 342878b3d4f811559844b5fb66f8fdaab11fa430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:22 +0000
Subject: [PATCH 29/63] fix: cbrt was 0 for |x| < epsilon

---
 include/nanomath.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index a982b6e..5fec1dc 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -697,8 +697,7 @@ static inline float cbrt(float x) {
   // 12 max ulp
   a = 0.333333333f * (2.0f * a + x0 / (a * a));  // Newton step.
   a = 0.333333333f * (2.0f * a + x0 / (a * a));  // Newton step again.
-  a = (fabs(x0) < nanostl::numeric_limits<float>::epsilon()) ? 0
-                                                             : a;  // Fix 0 case
+  a = __is_zero(x0) ? 0 : a;  // Fix 0 case
   return copysign(a, x);
 }
 
-- 
2.43.0


From eff1e3b603cbf2bf03ccd08e042af545b5110291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:22 +0000
Subject: [PATCH 30/63] fix: pow(x, y) was 0 for |x| < epsilon

---
 include/nanomath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index 5fec1dc..ee731f6 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -520,7 +520,7 @@ static inline float log10(const float& x) {
 static inline float pow(float x, float y) {
   if (fabs(y) < nanostl::numeric_limits<float>::epsilon())
     return 1.0f;  // x^0=1
-  if (fabs(x) < nanostl::numeric_limits<float>::epsilon())
+  if (__is_zero(x))
     return 0.0f;  // 0^y=0
   // be cheap & exact for special case of squaring and identity
   if (y == 1.0f) return x;
-- 
2.43.0


From 12d1058c477a5b9c01da483cf3b06c3be5679fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:22 +0000
Subject: [PATCH 31/63] fix: pow shifted a signed value out of range (undefined
 behaviour)

---
 include/nanomath.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanomath.h b/include/nanomath.h
index ee731f6..c10e13d 100644
--- a/include/nanomath.h
+++ b/include/nanomath.h
@@ -539,7 +539,7 @@ static inline float pow(float x, float y) {
       int k = (ybits >> 23) - 127;   // get exponent
       int j = ybits >> (23 - k);     // shift out possible fractional bits
       if ((j << (23 - k)) == ybits)  // rebuild number and check for a match
-        sign = IntToFloat(0x3f800000 | (j << 31));  // +1 for even, -1 for odd
+        sign = UintToFloat(0x3f800000u | (static_cast<unsigned int>(j) << 31));  // +1 for even, -1 for odd
       else
         return 0.0f;  // not integer
     } else {
-- 
2.43.0


From fcf06618823130f30985462918dbfedd02e18952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:26 +0000
Subject: [PATCH 32/63] fix: stof and stod accepted inputs without any digit as
 zero

---
 include/__nanostrutil.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/__nanostrutil.h b/include/__nanostrutil.h
index 3ccc29f..733e009 100644
--- a/include/__nanostrutil.h
+++ b/include/__nanostrutil.h
@@ -1394,6 +1394,10 @@ static enum RyuStatus s2f_n(const char * buffer, const int len, float * result)
       m10digits++;
     }
   }
+  if (i == (signedM ? 1 : 0) + (dotIndex < i ? 1 : 0)) {
+    // No digits.
+    return RYU_MALFORMED_INPUT;
+  }
   if (i < len && ((buffer[i] == 'e') || (buffer[i] == 'E'))) {
     eIndex = i;
     i++;
@@ -1617,6 +1621,10 @@ static enum RyuStatus s2d_n(const char * buffer, const int len, double * result)
       m10digits++;
     }
   }
+  if (i == (signedM ? 1 : 0) + (dotIndex < i ? 1 : 0)) {
+    // No digits.
+    return RYU_MALFORMED_INPUT;
+  }
   if (i < len && ((buffer[i] == 'e') || (buffer[i] == 'E'))) {
     eIndex = i;
     i++;
-- 
2.43.0


From 9f0cedb8dd948fd8c504f899d782eee445547018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:32 +0000
Subject: [PATCH 33/63] fix: is_enum is false for nullptr_t and the char16_t,
 char32_t types

---
 include/nanotype_traits.h | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index 50e9d61..1d8f0da 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -1361,16 +1361,7 @@ template <class _Tp> struct _NANOSTL_TEMPLATE_VIS is_pointer
 // is_enum
 
 template <class _Tp> struct _NANOSTL_TEMPLATE_VIS is_enum
-    : public integral_constant<bool, !is_void<_Tp>::value             &&
-                                     !is_integral<_Tp>::value         &&
-                                     !is_floating_point<_Tp>::value   &&
-                                     !is_array<_Tp>::value            &&
-                                     !is_pointer<_Tp>::value          &&
-                                     !is_reference<_Tp>::value        &&
-                                     !is_member_pointer<_Tp>::value   &&
-                                     !is_union<_Tp>::value            &&
-                                     !is_class<_Tp>::value            &&
-                                     !is_function<_Tp>::value         > {};
+    : public integral_constant<bool, __is_enum(_Tp)> {};
 
 
 // is_scalar
-- 
2.43.0


From eb140367728616dea7678aef957c6b9bec1f593a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:32 +0000
Subject: [PATCH 34/63] fix: is_empty of final classes and of classes without a
 usable destructor

---
 include/nanotype_traits.h | 20 ++------------------
 1 file changed, 2 insertions(+), 18 deletions(-)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index 1d8f0da..adaaf9a 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -811,24 +811,8 @@ template <class _Tp> struct _NANOSTL_TEMPLATE_VIS is_class
 
 // is_empty
 
-template <class _Tp>
-struct __is_empty1
-    : public _Tp
-{
-    double __lx;
-};
-
-struct __is_empty2
-{
-    double __lx;
-};
-
-template <class _Tp, bool = is_class<_Tp>::value>
-struct __libcpp_empty : public integral_constant<bool, sizeof(__is_empty1<_Tp>) == sizeof(__is_empty2)> {};
-
-template <class _Tp> struct __libcpp_empty<_Tp, false> : public false_type {};
-
-template <class _Tp> struct _NANOSTL_TEMPLATE_VIS is_empty : public __libcpp_empty<_Tp> {};
+template <class _Tp> struct _NANOSTL_TEMPLATE_VIS is_empty
+    : public integral_constant<bool, __is_empty(_Tp)> {};
 
 
 // is_assignable
-- 
2.43.0


From 8dbeab38c1c81dc809053aa0943916eea447b245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:13 +0000
Subject: [PATCH 35/63] fix: arrays are default constructible when their
 elements are

---
 include/nanotype_traits.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nanotype_traits.h b/include/nanotype_traits.h
index adaaf9a..cd5be1e 100644
--- a/include/nanotype_traits.h
+++ b/include/nanotype_traits.h
@@ -779,6 +779,7 @@ struct __is_implicitly_default_constructible<_Tp, decltype(__test_implicit_defau
    template <class Ref, class Arg> struct is_constructible<Ref&, Arg> : public integral_constant<bool, sizeof(detail::is_constructible_imp::ref_test<Ref&>(declval<Arg>())) == sizeof(yes_type)>{};
    template <class Ref, class Arg> struct is_constructible<Ref&&, Arg> : public integral_constant<bool, sizeof(detail::is_constructible_imp::ref_test<Ref&&>(declval<Arg>())) == sizeof(yes_type)>{};
 
+   template <class T, size_t N> struct is_constructible<T[N]> : public is_constructible<T>{};
    template <> struct is_constructible<void> : public false_type{};
    template <> struct is_constructible<void const> : public false_type{};
    template <> struct is_constructible<void const volatile> : public false_type{};
@@ -880,7 +881,7 @@ struct _NANOSTL_TEMPLATE_VIS is_nothrow_constructible
 
 template <class _Tp, size_t _Ns>
 struct _NANOSTL_TEMPLATE_VIS is_nothrow_constructible<_Tp[_Ns]>
-    : __libcpp_is_nothrow_constructible<is_constructible<_Tp>::value, is_reference<_Tp>::value, _Tp>
+    : is_nothrow_constructible<_Tp>
 {
 };
 
-- 
2.43.0


From 153f00e2b2ffa34f4535c8050a22f6efca950ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:28 +0000
Subject: [PATCH 36/63] fix: nanofunctional.h, nanomemory.h and nanoratio.h use
 what they do not include

---
 include/nanofunctional.h | 1 +
 include/nanomemory.h     | 1 +
 include/nanoratio.h      | 1 +
 3 files changed, 3 insertions(+)

diff --git a/include/nanofunctional.h b/include/nanofunctional.h
index aae9c32..e9e9fda 100644
--- a/include/nanofunctional.h
+++ b/include/nanofunctional.h
@@ -31,6 +31,7 @@
 
 #include "__hashfunc.h"
 #include "__nullptr"
+#include "nanotype_traits.h"
 
 namespace nanostl {
 
diff --git a/include/nanomemory.h b/include/nanomemory.h
index 0bf553d..2c5c458 100644
--- a/include/nanomemory.h
+++ b/include/nanomemory.h
@@ -11,6 +11,7 @@
 #include "nanotype_traits.h"
 #include "nanocommon.h"
 #include "nanofunctional.h"
+#include "nanoutility.h"
 
 #include "__nullptr"
 
diff --git a/include/nanoratio.h b/include/nanoratio.h
index 260acf4..e07e086 100644
--- a/include/nanoratio.h
+++ b/include/nanoratio.h
@@ -26,6 +26,7 @@
 #define NANOSTL_RATIO_H_
 
 #include "nanocommon.h"
+#include "nanocstdint.h"
 
 namespace nanostl {
 
-- 
2.43.0


From a00bb29fc6a9701956226fcc7547bf61ac83fde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:42:46 +0000
Subject: [PATCH 37/63] fix: nanoiostream.h defined a function in every
 translation unit that includes it

---
 include/nanoiostream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanoiostream.h b/include/nanoiostream.h
index 7e9afb9..1b7e448 100644
--- a/include/nanoiostream.h
+++ b/include/nanoiostream.h
@@ -177,7 +177,7 @@ basic_ostream<_CharT, _Traits>::operator<<(double __n)
 }
 
 template<>
-basic_ostream<char, nanostl::char_traits<char>>&
+inline basic_ostream<char, nanostl::char_traits<char>>&
 basic_ostream<char, nanostl::char_traits<char>>::operator<<(const void *__n)
 {
   // FIXME: Assume const char *
-- 
2.43.0


From 21e03a41911bbc8c29a0e6381ecc2adb742c4076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:19 +0000
Subject: [PATCH 38/63] fix: string with an embedded NUL compared equal to the
 C string before it

---
 include/nanostring.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/nanostring.h b/include/nanostring.h
index abe6392..9a974ed 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -146,7 +146,16 @@ class basic_string {
   }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
-  int compare(const charT *s) const { return compare_(&data_[0], s); }
+  int compare(const charT *s) const {
+    size_type i = 0;
+    while ((i < size()) && (s[i] != '\0') && (data_[i] == s[i])) {
+      i++;
+    }
+    if ((i < size()) && (s[i] == '\0')) {
+      return 1;  // `s` is a proper prefix, even where this string has '\0'.
+    }
+    return compare_(&data_[i], s + i);
+  }
 
   NANOSTL_HOST_AND_DEVICE_QUAL
   iterator erase(iterator pos) { return data_.erase(pos); }
-- 
2.43.0


From 5996ff375005cea386f339867208b7675851bb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:13:51 +0000
Subject: [PATCH 39/63] fix: hash of a variant used a member function that does
 not exist

---
 include/nonstd/variant.hpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/nonstd/variant.hpp b/include/nonstd/variant.hpp
index 1920bc7..a2a5f36 100644
--- a/include/nonstd/variant.hpp
+++ b/include/nonstd/variant.hpp
@@ -2370,22 +2370,22 @@ struct hash< nonstd::variant<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T
 
         switch( v.index() )
         {
-            case 0: return nvd::hash( 0 ) ^ nvd::hash( this->get<0>( v ) );
-            case 1: return nvd::hash( 1 ) ^ nvd::hash( this->get<1>( v ) );
-            case 2: return nvd::hash( 2 ) ^ nvd::hash( this->get<2>( v ) );
-            case 3: return nvd::hash( 3 ) ^ nvd::hash( this->get<3>( v ) );
-            case 4: return nvd::hash( 4 ) ^ nvd::hash( this->get<4>( v ) );
-            case 5: return nvd::hash( 5 ) ^ nvd::hash( this->get<5>( v ) );
-            case 6: return nvd::hash( 6 ) ^ nvd::hash( this->get<6>( v ) );
-            case 7: return nvd::hash( 7 ) ^ nvd::hash( this->get<7>( v ) );
-            case 8: return nvd::hash( 8 ) ^ nvd::hash( this->get<8>( v ) );
-            case 9: return nvd::hash( 9 ) ^ nvd::hash( this->get<9>( v ) );
-            case 10: return nvd::hash( 10 ) ^ nvd::hash( this->get<10>( v ) );
-            case 11: return nvd::hash( 11 ) ^ nvd::hash( this->get<11>( v ) );
-            case 12: return nvd::hash( 12 ) ^ nvd::hash( this->get<12>( v ) );
-            case 13: return nvd::hash( 13 ) ^ nvd::hash( this->get<13>( v ) );
-            case 14: return nvd::hash( 14 ) ^ nvd::hash( this->get<14>( v ) );
-            case 15: return nvd::hash( 15 ) ^ nvd::hash( this->get<15>( v ) );
+            case 0: return nvd::hash( 0 ) ^ nvd::hash( nonstd::get<0>( v ) );
+            case 1: return nvd::hash( 1 ) ^ nvd::hash( nonstd::get<1>( v ) );
+            case 2: return nvd::hash( 2 ) ^ nvd::hash( nonstd::get<2>( v ) );
+            case 3: return nvd::hash( 3 ) ^ nvd::hash( nonstd::get<3>( v ) );
+            case 4: return nvd::hash( 4 ) ^ nvd::hash( nonstd::get<4>( v ) );
+            case 5: return nvd::hash( 5 ) ^ nvd::hash( nonstd::get<5>( v ) );
+            case 6: return nvd::hash( 6 ) ^ nvd::hash( nonstd::get<6>( v ) );
+            case 7: return nvd::hash( 7 ) ^ nvd::hash( nonstd::get<7>( v ) );
+            case 8: return nvd::hash( 8 ) ^ nvd::hash( nonstd::get<8>( v ) );
+            case 9: return nvd::hash( 9 ) ^ nvd::hash( nonstd::get<9>( v ) );
+            case 10: return nvd::hash( 10 ) ^ nvd::hash( nonstd::get<10>( v ) );
+            case 11: return nvd::hash( 11 ) ^ nvd::hash( nonstd::get<11>( v ) );
+            case 12: return nvd::hash( 12 ) ^ nvd::hash( nonstd::get<12>( v ) );
+            case 13: return nvd::hash( 13 ) ^ nvd::hash( nonstd::get<13>( v ) );
+            case 14: return nvd::hash( 14 ) ^ nvd::hash( nonstd::get<14>( v ) );
+            case 15: return nvd::hash( 15 ) ^ nvd::hash( nonstd::get<15>( v ) );
 
             default: return 0;
         }
-- 
2.43.0


From a7b941ef6d9099e3e2dee81e1e3828b7c305234e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:14:59 +0000
Subject: [PATCH 40/63] fix: make_integer_sequence of types narrower than int

---
 include/tao/seq/make_integer_sequence.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/tao/seq/make_integer_sequence.hpp b/include/tao/seq/make_integer_sequence.hpp
index 85a7a9a..ff68222 100644
--- a/include/tao/seq/make_integer_sequence.hpp
+++ b/include/tao/seq/make_integer_sequence.hpp
@@ -36,14 +36,14 @@ namespace tao
          template<>
          struct generate_sequence< false, true >
          {
-            template< typename T, T M, T N, nanostl::size_t S, T... Ns >
+            template< typename T, nanostl::size_t M, nanostl::size_t N, nanostl::size_t S, T... Ns >
             using f = integer_sequence< T, Ns... >;
          };
 
          template<>
          struct generate_sequence< true, true >
          {
-            template< typename T, T M, T N, nanostl::size_t S, T... Ns >
+            template< typename T, nanostl::size_t M, nanostl::size_t N, nanostl::size_t S, T... Ns >
             using f = integer_sequence< T, Ns..., S >;
          };
 
@@ -51,25 +51,27 @@ namespace tao
          template<>
          struct generate_sequence< false, false >
          {
-            template< typename T, T M, T N, nanostl::size_t S, T... Ns >
+            template< typename T, nanostl::size_t M, nanostl::size_t N, nanostl::size_t S, T... Ns >
             using f = typename generate_sequence< ( N & ( M / 2 ) ) != 0, ( M / 2 ) == 0 >::template f< T, M / 2, N, 2 * S, Ns..., ( Ns + S )... >;
          };
 
          template<>
          struct generate_sequence< true, false >
          {
-            template< typename T, T M, T N, nanostl::size_t S, T... Ns >
+            template< typename T, nanostl::size_t M, nanostl::size_t N, nanostl::size_t S, T... Ns >
             using f = typename generate_sequence< ( N & ( M / 2 ) ) != 0, ( M / 2 ) == 0 >::template f< T, M / 2, N, 2 * S + 1, Ns..., ( Ns + S )..., 2 * S >;
          };
 
          // the final sequence per T/N should be memoized, it will probably be used multiple times.
          // also checks the limit and starts the above generator properly.
-         template< typename T, T N >
+         template< typename T, T V >
          struct memoize_sequence
          {
-            static_assert( N < T( 1 << 20 ), "N too large" );
+            static_assert( V >= 0, "N is negative" );
+            static_assert( V < ( 1 << 20 ), "N too large" );
+            static constexpr nanostl::size_t N = nanostl::size_t( V );
             // clang-format off
-            using type = typename generate_sequence< false, false >::template f< T, ( N < T( 1 << 1 ) ) ? T( 1 << 1 ) : ( N < T( 1 << 2 ) ) ? T( 1 << 2 ) : ( N < T( 1 << 3 ) ) ? T( 1 << 3 ) : ( N < T( 1 << 4 ) ) ? T( 1 << 4 ) : ( N < T( 1 << 5 ) ) ? T( 1 << 5 ) : ( N < T( 1 << 6 ) ) ? T( 1 << 6 ) : ( N < T( 1 << 7 ) ) ? T( 1 << 7 ) : ( N < T( 1 << 8 ) ) ? T( 1 << 8 ) : ( N < T( 1 << 9 ) ) ? T( 1 << 9 ) : ( N < T( 1 << 10 ) ) ? T( 1 << 10 ) : T( 1 << 20 ), N, 0 >;
+            using type = typename generate_sequence< false, false >::template f< T, ( N < ( 1 << 1 ) ) ? ( 1 << 1 ) : ( N < ( 1 << 2 ) ) ? ( 1 << 2 ) : ( N < ( 1 << 3 ) ) ? ( 1 << 3 ) : ( N < ( 1 << 4 ) ) ? ( 1 << 4 ) : ( N < ( 1 << 5 ) ) ? ( 1 << 5 ) : ( N < ( 1 << 6 ) ) ? ( 1 << 6 ) : ( N < ( 1 << 7 ) ) ? ( 1 << 7 ) : ( N < ( 1 << 8 ) ) ? ( 1 << 8 ) : ( N < ( 1 << 9 ) ) ? ( 1 << 9 ) : ( N < ( 1 << 10 ) ) ? ( 1 << 10 ) : ( 1 << 20 ), N, 0 >;
             // clang-format on
          };
 
-- 
2.43.0


From 79ffb77248e23ff6ed7790bac01661dacb69fe10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:19:21 +0000
Subject: [PATCH 41/63] fix: tuple_cat moves out of rvalue tuples

---
 include/tao/tuple/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/tao/tuple/tuple.hpp b/include/tao/tuple/tuple.hpp
index f4c2633..e5e8a87 100644
--- a/include/tao/tuple/tuple.hpp
+++ b/include/tao/tuple/tuple.hpp
@@ -932,7 +932,7 @@ namespace tao
       template< typename R, nanostl::size_t... Os, nanostl::size_t... Is, typename T >
       TAO_TUPLE_CONSTEXPR TAO_TUPLE_CUDA_ANNOTATE_COMMON R tuple_cat( seq::index_sequence< Os... >, seq::index_sequence< Is... >, T v )
       {
-         return R( get< Is >( get< Os >( v ) )... );
+         return R( get< Is >( get< Os >( static_cast< T&& >( v ) ) )... );
       }
 
    }  // namespace impl
-- 
2.43.0


From dd0f0f5a56d2c98e68d9da61277c29866093fabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:11:59 +0000
Subject: [PATCH 42/63] fix: atomic store and swap leave the value stored, not
 zero

---
 src/libs_thread.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 7620d93..e27763f 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -1037,8 +1037,8 @@ void thread_atomic_int_store( thread_atomic_int_t* atomic, int desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
+        __sync_synchronize();
         __sync_lock_test_and_set( &atomic->i, desired );
-        __sync_lock_release( &atomic->i );
 
     #else
         #error Unknown platform.
@@ -1118,9 +1118,8 @@ int thread_atomic_int_swap( thread_atomic_int_t* atomic, int desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        int old = (int)__sync_lock_test_and_set( &atomic->i, desired );
-        __sync_lock_release( &atomic->i );
-        return old;
+        __sync_synchronize();
+        return (int)__sync_lock_test_and_set( &atomic->i, desired );
 
     #else
         #error Unknown platform.
@@ -1174,8 +1173,8 @@ void thread_atomic_ptr_store( thread_atomic_ptr_t* atomic, void* desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
+        __sync_synchronize();
         __sync_lock_test_and_set( &atomic->ptr, desired );
-        __sync_lock_release( &atomic->ptr );
 
     #else
         #error Unknown platform.
@@ -1196,9 +1195,8 @@ void* thread_atomic_ptr_swap( thread_atomic_ptr_t* atomic, void* desired )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        void* old = __sync_lock_test_and_set( &atomic->ptr, desired );
-        __sync_lock_release( &atomic->ptr );
-        return old;
+        __sync_synchronize();
+        return __sync_lock_test_and_set( &atomic->ptr, desired );
 
     #else
         #error Unknown platform.
-- 
2.43.0


From 99d56aad1d4c85dcfdc6c311ab55f2d0025d060a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:13:32 +0000
Subject: [PATCH 43/63] fix: atomic int is as wide as the int of its interface,
 so that compare and swap works after a wrap

---
 src/libs_thread.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index e27763f..434ce29 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -538,7 +538,11 @@ union thread_signal_t
 union thread_atomic_int_t
     {
     void* align;
-    long i;
+    #if defined( _WIN32 )
+        long i;
+    #else
+        int i; // long may be wider than the int of the interface
+    #endif
     };
 
 union thread_atomic_ptr_t
-- 
2.43.0


From 1c4746dde74a2417912ee627b7b0e705781c39cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:13:58 +0000
Subject: [PATCH 44/63] fix: the deadline of a signal wait takes seconds and
 microseconds from one clock reading

---
 src/libs_thread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 434ce29..f7fe974 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -988,7 +988,7 @@ int thread_signal_wait( thread_signal_t* signal, int timeout_ms )
             {
             struct timeval tv;
             gettimeofday( &tv, NULL );
-            ts.tv_sec = time( NULL ) + timeout_ms / 1000;
+            ts.tv_sec = tv.tv_sec + timeout_ms / 1000;
             ts.tv_nsec = tv.tv_usec * 1000 + 1000 * 1000 * ( timeout_ms % 1000 );
             ts.tv_sec += ts.tv_nsec / ( 1000 * 1000 * 1000 );
             ts.tv_nsec %= ( 1000 * 1000 * 1000 );
-- 
2.43.0


From 62d49ac08675c6d1ddd9a2bb1c7bccc723aed664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:13:58 +0000
Subject: [PATCH 45/63] fix: raising a signal does not touch it after the
 waiter has proceeded

---
 src/libs_thread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index f7fe974..1123291 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -950,8 +950,8 @@ void thread_signal_raise( thread_signal_t* signal )
 
         pthread_mutex_lock( &internal->mutex );
         internal->value = 1;
+        pthread_cond_signal( &internal->condition ); // with the lock held: the waiter may terminate the signal once it proceeds
         pthread_mutex_unlock( &internal->mutex );
-        pthread_cond_signal( &internal->condition );
 
     #else
         #error Unknown platform.
-- 
2.43.0


From 3c7ac04eef8866a2097dd2327900b4d33a06f2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:15:54 +0000
Subject: [PATCH 46/63] fix: producing into a queue returns a non-zero value
 when the element was added

---
 src/libs_thread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 1123291..cd6a34a 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -1406,7 +1406,7 @@ int thread_queue_produce( thread_queue_t* queue, void* value, int timeout_ms )
     queue->values[ tail % queue->size ] = value;
     if( thread_atomic_int_inc( &queue->count ) == 0 )
         thread_signal_raise( &queue->data_ready );
-    return 0;
+    return 1;
     }
 
 
-- 
2.43.0


From 3bd62e86da8e33ac6ddcfebdae10e99b7cd5e374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:15:54 +0000
Subject: [PATCH 47/63] fix: queue waits for an element or for space until
 there is one, and no longer than the timeout

---
 src/libs_thread.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index cd6a34a..f848676 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -1397,10 +1397,11 @@ int thread_queue_produce( thread_queue_t* queue, void* value, int timeout_ms )
             queue->id_produce = thread_current_thread_id();
         assert( thread_current_thread_id() == queue->id_produce );
     #endif
-    if( thread_atomic_int_load( &queue->count ) == queue->size )
+    while( thread_atomic_int_load( &queue->count ) == queue->size ) // the signal may be left over from an earlier element
         {
         if( timeout_ms == 0 ) return 0;
-        thread_signal_wait( &queue->space_open, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms );
+        if( !thread_signal_wait( &queue->space_open, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms ) )
+            return 0;
         }
     int tail = thread_atomic_int_inc( &queue->tail );
     queue->values[ tail % queue->size ] = value;
@@ -1417,10 +1418,11 @@ void* thread_queue_consume( thread_queue_t* queue, int timeout_ms )
             queue->id_consume = thread_current_thread_id();
         assert( thread_current_thread_id() == queue->id_consume );
     #endif
-    if( thread_atomic_int_load( &queue->count ) == 0 )
+    while( thread_atomic_int_load( &queue->count ) == 0 ) // the signal may be left over from an earlier element
         {
         if( timeout_ms == 0 ) return NULL;
-        thread_signal_wait( &queue->data_ready, THREAD_SIGNAL_WAIT_INFINITE );
+        if( !thread_signal_wait( &queue->data_ready, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms ) )
+            return NULL;
         }
     int head = thread_atomic_int_inc( &queue->head );
     void* retval = queue->values[ head % queue->size ];
-- 
2.43.0


From c37807b89044f4359daf1ef094debafd688af36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:15:54 +0000
Subject: [PATCH 48/63] fix: positions in a queue stay in range after 2^31
 elements

---
 src/libs_thread.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index f848676..c4d5ce1 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -1403,8 +1403,9 @@ int thread_queue_produce( thread_queue_t* queue, void* value, int timeout_ms )
         if( !thread_signal_wait( &queue->space_open, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms ) )
             return 0;
         }
-    int tail = thread_atomic_int_inc( &queue->tail );
+    int tail = thread_atomic_int_load( &queue->tail );
     queue->values[ tail % queue->size ] = value;
+    thread_atomic_int_store( &queue->tail, ( tail + 1 ) % queue->size ); // stays in range however long the queue is used
     if( thread_atomic_int_inc( &queue->count ) == 0 )
         thread_signal_raise( &queue->data_ready );
     return 1;
@@ -1424,8 +1425,9 @@ void* thread_queue_consume( thread_queue_t* queue, int timeout_ms )
         if( !thread_signal_wait( &queue->data_ready, timeout_ms == THREAD_QUEUE_WAIT_INFINITE ? THREAD_SIGNAL_WAIT_INFINITE : timeout_ms ) )
             return NULL;
         }
-    int head = thread_atomic_int_inc( &queue->head );
+    int head = thread_atomic_int_load( &queue->head );
     void* retval = queue->values[ head % queue->size ];
+    thread_atomic_int_store( &queue->head, ( head + 1 ) % queue->size );
     if( thread_atomic_int_dec( &queue->count ) == queue->size )
         thread_signal_raise( &queue->space_open );
     return retval;
-- 
2.43.0


From 65b23cbf25d6a46110f9f6f2bbc5b33ff511d781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:21:11 +0000
Subject: [PATCH 49/63] fix: a thread is joined once, also when thread_destroy
 follows thread_join as documented

---
 include/nanothread.h |  2 +-
 src/libs_thread.h    | 42 ++++++++++++++++++++++++++++++++++--------
 src/nanothread.cc    |  1 +
 3 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/include/nanothread.h b/include/nanothread.h
index a437f1a..bc9845c 100644
--- a/include/nanothread.h
+++ b/include/nanothread.h
@@ -220,7 +220,7 @@ class thread {
 
   id get_id() const __NANOSTL_NOEXCEPT;
 
-  // posix: pthread_t
+  // posix: what thread_create of libs_thread returned
   // windows: HANDLE
   void *native_handle() {
     return thread_handle_;
diff --git a/src/libs_thread.h b/src/libs_thread.h
index c4d5ce1..75a15a8 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -615,6 +615,7 @@ struct thread_queue_t
 #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
     #include <pthread.h>
+    #include <stdlib.h>
     #include <sys/time.h>
 
 #else
@@ -675,6 +676,19 @@ void thread_exit( int return_code )
     }
 
 
+#if !defined( _WIN32 )
+
+    // A thread can be joined once; what it returned is kept until it is destroyed
+    struct thread_internal_thread_t
+        {
+        pthread_t thread;
+        int joined;
+        int return_code;
+        };
+
+#endif
+
+
 thread_ptr_t thread_create( int (*thread_proc)( void* ), void* user_data, char const* name, int stack_size )
     {
     #if defined( _WIN32 )
@@ -706,15 +720,20 @@ thread_ptr_t thread_create( int (*thread_proc)( void* ), void* user_data, char c
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        pthread_t thread;
-        if( 0 != pthread_create( &thread, NULL, ( void* (*)( void * ) ) thread_proc, user_data ) )
+        struct thread_internal_thread_t* internal = (struct thread_internal_thread_t*) malloc( sizeof( *internal ) );
+        if( !internal ) return NULL;
+        internal->joined = 0;
+        if( 0 != pthread_create( &internal->thread, NULL, ( void* (*)( void * ) ) thread_proc, user_data ) )
+            {
+            free( internal );
             return NULL;
+            }
 
         #if !defined( __APPLE__ ) // max doesn't support pthread_setname_np. alternatives?
-            if( name ) pthread_setname_np( thread, name );
+            if( name ) pthread_setname_np( internal->thread, name );
         #endif
 
-        return (thread_ptr_t) thread;
+        return (thread_ptr_t) internal;
 
     #else
         #error Unknown platform.
@@ -731,7 +750,8 @@ void thread_destroy( thread_ptr_t thread )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        pthread_join( (pthread_t) thread, NULL );
+        thread_join( thread );
+        free( thread );
 
     #else
         #error Unknown platform.
@@ -750,9 +770,15 @@ int thread_join( thread_ptr_t thread )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        void* retval;
-        pthread_join( (pthread_t) thread, &retval );
-        return (int)(uintptr_t) retval;
+        struct thread_internal_thread_t* internal = (struct thread_internal_thread_t*) thread;
+        if( !internal->joined )
+            {
+            void* retval;
+            pthread_join( internal->thread, &retval );
+            internal->joined = 1;
+            internal->return_code = (int)(uintptr_t) retval;
+            }
+        return internal->return_code;
 
     #else
         #error Unknown platform.
diff --git a/src/nanothread.cc b/src/nanothread.cc
index 188d85e..a9930aa 100644
--- a/src/nanothread.cc
+++ b/src/nanothread.cc
@@ -40,6 +40,7 @@ void thread::join() {
   if (thread_handle_) {
     thread_ptr_t th = static_cast<thread_ptr_t>(thread_handle_);
     thread_join(th);
+    thread_destroy(th);
 
     thread_handle_ = nullptr;
   }
-- 
2.43.0


From 1eccf97da350096f63c634622b7b9124ee1797ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:21:26 +0000
Subject: [PATCH 50/63] fix: thread_create honours the stack size

---
 src/libs_thread.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 75a15a8..b0e69f5 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -614,6 +614,7 @@ struct thread_queue_t
 
 #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
+    #include <limits.h>
     #include <pthread.h>
     #include <stdlib.h>
     #include <sys/time.h>
@@ -723,7 +724,19 @@ thread_ptr_t thread_create( int (*thread_proc)( void* ), void* user_data, char c
         struct thread_internal_thread_t* internal = (struct thread_internal_thread_t*) malloc( sizeof( *internal ) );
         if( !internal ) return NULL;
         internal->joined = 0;
-        if( 0 != pthread_create( &internal->thread, NULL, ( void* (*)( void * ) ) thread_proc, user_data ) )
+
+        pthread_attr_t attr;
+        pthread_attr_init( &attr );
+        if( stack_size > 0 )
+            {
+            #if defined( PTHREAD_STACK_MIN )
+                if( stack_size < (int) PTHREAD_STACK_MIN ) stack_size = (int) PTHREAD_STACK_MIN;
+            #endif
+            pthread_attr_setstacksize( &attr, (size_t) stack_size );
+            }
+        int failed = pthread_create( &internal->thread, &attr, ( void* (*)( void * ) ) thread_proc, user_data );
+        pthread_attr_destroy( &attr );
+        if( failed )
             {
             free( internal );
             return NULL;
-- 
2.43.0


From d44e27acbd27e7ac34b2b2bb5f399c6bf5d71c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:21:26 +0000
Subject: [PATCH 51/63] fix: the first thread local storage index is not
 mistaken for a failure

---
 src/libs_thread.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index b0e69f5..801904f 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -1348,7 +1348,7 @@ thread_tls_t thread_tls_create( void )
 
         pthread_key_t tls;
         if( pthread_key_create( &tls, NULL ) == 0 )
-            return (thread_tls_t) (uintptr_t) tls;
+            return (thread_tls_t) ( (uintptr_t) tls + 1 ); // 0 is a valid key, but NULL means failure
         else
             return NULL;
 
@@ -1366,7 +1366,7 @@ void thread_tls_destroy( thread_tls_t tls )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        pthread_key_delete( (pthread_key_t) (uintptr_t) tls );
+        pthread_key_delete( (pthread_key_t) ( (uintptr_t) tls - 1 ) );
 
     #else
         #error Unknown platform.
@@ -1382,7 +1382,7 @@ void thread_tls_set( thread_tls_t tls, void* value )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        pthread_setspecific( (pthread_key_t) (uintptr_t) tls, value );
+        pthread_setspecific( (pthread_key_t) ( (uintptr_t) tls - 1 ), value );
 
     #else
         #error Unknown platform.
@@ -1398,7 +1398,7 @@ void* thread_tls_get( thread_tls_t tls )
 
     #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
-        return pthread_getspecific( (pthread_key_t) (uintptr_t) tls );
+        return pthread_getspecific( (pthread_key_t) ( (uintptr_t) tls - 1 ) );
 
     #else
         #error Unknown platform.
-- 
2.43.0


From 12d308e5d04e67050a74b395848bd97370e4c564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:21:26 +0000
Subject: [PATCH 52/63] fix: the threads header includes what its
 implementation uses

---
 src/libs_thread.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libs_thread.h b/src/libs_thread.h
index 801904f..426f2d9 100644
--- a/src/libs_thread.h
+++ b/src/libs_thread.h
@@ -614,10 +614,14 @@ struct thread_queue_t
 
 #elif defined( __linux__ ) || defined( __APPLE__ ) || defined( __ANDROID__ )
 
+    #include <errno.h>
     #include <limits.h>
     #include <pthread.h>
+    #include <stdint.h>
     #include <stdlib.h>
+    #include <string.h>
     #include <sys/time.h>
+    #include <time.h>
 
 #else
     #error Unknown platform.
-- 
2.43.0


From a23df4e32e9755e6e0a8ba24250274bf3d618b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:27:08 +0000
Subject: [PATCH 53/63] fix: compare expected<void, E> values

---
 include/nonstd/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nonstd/expected.hpp b/include/nonstd/expected.hpp
index a55df8c..cfc9658 100644
--- a/include/nonstd/expected.hpp
+++ b/include/nonstd/expected.hpp
@@ -2174,7 +2174,7 @@ constexpr bool operator!=( expected<T1,E1> const & x, expected<T2,E2> const & y
 }
 
 template< typename E1, typename E2 >
-constexpr bool operator==( expected<void,E1> const & x, expected<void,E1> const & y )
+constexpr bool operator==( expected<void,E1> const & x, expected<void,E2> const & y )
 {
     return bool(x) != bool(y) ? false : bool(x) == false ? x.error() == y.error() : true;
 }
-- 
2.43.0


From ad3336f9be00bb6d19f708024600662d78f396a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:27:33 +0000
Subject: [PATCH 54/63] fix: expected<void, E>::swap destroys the error it
 moved away

---
 include/nonstd/expected.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nonstd/expected.hpp b/include/nonstd/expected.hpp
index cfc9658..5c54e12 100644
--- a/include/nonstd/expected.hpp
+++ b/include/nonstd/expected.hpp
@@ -2063,6 +2063,7 @@ public:
 
         if      ( ! bool(*this) && ! bool(other) ) { swap( contained.error(), other.contained.error() ); }
         else if (   bool(*this) && ! bool(other) ) { contained.construct_error( nanostl::move( other.error() ) );
+                                                     other.contained.destruct_error();
                                                      bool has_value = contained.has_value();
                                                      bool other_has_value = other.has_value();
                                                      other.contained.set_has_value(has_value);
-- 
2.43.0


From 43494eb69a6ef9a55dd2a4fcdb0ffc2aa2f8fc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:30:47 +0000
Subject: [PATCH 55/63] fix: assign an error that can only be moved to an
 expected

---
 include/nonstd/expected.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/nonstd/expected.hpp b/include/nonstd/expected.hpp
index 5c54e12..07254b4 100644
--- a/include/nonstd/expected.hpp
+++ b/include/nonstd/expected.hpp
@@ -1666,8 +1666,7 @@ public:
 
     template< typename G
         nsel_REQUIRES_T(
-            nanostl::is_copy_constructible<E>::value    // TODO: nanostl::is_nothrow_copy_constructible<E>
-            && nanostl::is_copy_assignable<E>::value
+            nanostl::is_constructible<E, G const &>::value    // TODO: nanostl::is_nothrow_copy_constructible<E>
         )
     >
     expected & operator=( nanostl::unexpected_type<G> const & error )
@@ -1678,8 +1677,7 @@ public:
 
     template< typename G
         nsel_REQUIRES_T(
-            nanostl::is_move_constructible<E>::value    // TODO: nanostl::is_nothrow_move_constructible<E>
-            && nanostl::is_move_assignable<E>::value
+            nanostl::is_constructible<E, G &&>::value    // TODO: nanostl::is_nothrow_move_constructible<E>
         )
     >
     expected & operator=( nanostl::unexpected_type<G> && error )
-- 
2.43.0


From 793d414a34a84c04eed8ae660bf68c0bc8065ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:55:03 +0000
Subject: [PATCH 56/63] fix: tuple and sequences do not compile as C++14 or
 later

---
 include/tao/seq/config.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/tao/seq/config.hpp b/include/tao/seq/config.hpp
index 8ccddd7..a5ca704 100644
--- a/include/tao/seq/config.hpp
+++ b/include/tao/seq/config.hpp
@@ -8,9 +8,11 @@
 
 #ifndef TAO_SEQ_USE_STD_INTEGER_SEQUENCE
 #if defined( __cpp_lib_integer_sequence )
-#define TAO_SEQ_USE_STD_INTEGER_SEQUENCE
+// Disabled for nanostl
+//#define TAO_SEQ_USE_STD_INTEGER_SEQUENCE
 #elif defined( _LIBCPP_VERSION ) && ( __cplusplus >= 201402L )
-#define TAO_SEQ_USE_STD_INTEGER_SEQUENCE
+// Disabled for nanostl
+//#define TAO_SEQ_USE_STD_INTEGER_SEQUENCE
 #elif defined( _MSC_VER )
 // Disabled for nanostl
 //#define TAO_SEQ_USE_STD_INTEGER_SEQUENCE
@@ -19,9 +21,11 @@
 
 #ifndef TAO_SEQ_USE_STD_MAKE_INTEGER_SEQUENCE
 #if defined( _GLIBCXX_RELEASE ) && ( _GLIBCXX_RELEASE >= 8 ) && ( __cplusplus >= 201402L )
-#define TAO_SEQ_USE_STD_MAKE_INTEGER_SEQUENCE
+// Disabled for nanostl
+//#define TAO_SEQ_USE_STD_MAKE_INTEGER_SEQUENCE
 #elif defined( _LIBCPP_VERSION ) && ( __cplusplus >= 201402L )
-#define TAO_SEQ_USE_STD_MAKE_INTEGER_SEQUENCE
+// Disabled for nanostl
+//#define TAO_SEQ_USE_STD_MAKE_INTEGER_SEQUENCE
 #elif defined( _MSC_VER ) && ( _MSC_FULL_VER >= 190023918 )
 // Disabled for nanostl
 //#define TAO_SEQ_USE_STD_MAKE_INTEGER_SEQUENCE
-- 
2.43.0


From 081e03e512ae06c00c377450e5fd56e2077c3905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:55:03 +0000
Subject: [PATCH 57/63] fix: optional, variant, any and expected do not compile
 as C++17 or later

---
 include/nonstd/any.hpp      | 4 ++--
 include/nonstd/expected.hpp | 4 ++--
 include/nonstd/optional.hpp | 4 ++--
 include/nonstd/variant.hpp  | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/nonstd/any.hpp b/include/nonstd/any.hpp
index fc6f927..2141dbd 100644
--- a/include/nonstd/any.hpp
+++ b/include/nonstd/any.hpp
@@ -75,8 +75,8 @@
 #define any_CPP98_OR_GREATER  ( any_CPLUSPLUS >= 199711L )
 #define any_CPP11_OR_GREATER  ( any_CPLUSPLUS >= 201103L )
 #define any_CPP14_OR_GREATER  ( any_CPLUSPLUS >= 201402L )
-#define any_CPP17_OR_GREATER  ( any_CPLUSPLUS >= 201703L )
-#define any_CPP20_OR_GREATER  ( any_CPLUSPLUS >= 202000L )
+#define any_CPP17_OR_GREATER  0  // Disabled for nanostl: ( any_CPLUSPLUS >= 201703L )
+#define any_CPP20_OR_GREATER  0  // Disabled for nanostl: ( any_CPLUSPLUS >= 202000L )
 
 // Use C++17 std::any if available and requested:
 
diff --git a/include/nonstd/expected.hpp b/include/nonstd/expected.hpp
index 07254b4..fd76932 100644
--- a/include/nonstd/expected.hpp
+++ b/include/nonstd/expected.hpp
@@ -99,8 +99,8 @@
 #define nsel_CPP98_OR_GREATER  ( nsel_CPLUSPLUS >= 199711L )
 #define nsel_CPP11_OR_GREATER  ( nsel_CPLUSPLUS >= 201103L )
 #define nsel_CPP14_OR_GREATER  ( nsel_CPLUSPLUS >= 201402L )
-#define nsel_CPP17_OR_GREATER  ( nsel_CPLUSPLUS >= 201703L )
-#define nsel_CPP20_OR_GREATER  ( nsel_CPLUSPLUS >= 202000L )
+#define nsel_CPP17_OR_GREATER  0  // Disabled for nanostl: ( nsel_CPLUSPLUS >= 201703L )
+#define nsel_CPP20_OR_GREATER  0  // Disabled for nanostl: ( nsel_CPLUSPLUS >= 202000L )
 
 // Use C++20 std::expected if available and requested:
 
diff --git a/include/nonstd/optional.hpp b/include/nonstd/optional.hpp
index 3c54fef..4bc088c 100644
--- a/include/nonstd/optional.hpp
+++ b/include/nonstd/optional.hpp
@@ -76,8 +76,8 @@
 #define optional_CPP11_OR_GREATER  ( optional_CPLUSPLUS >= 201103L )
 #define optional_CPP11_OR_GREATER_ ( optional_CPLUSPLUS >= 201103L )
 #define optional_CPP14_OR_GREATER  ( optional_CPLUSPLUS >= 201402L )
-#define optional_CPP17_OR_GREATER  ( optional_CPLUSPLUS >= 201703L )
-#define optional_CPP20_OR_GREATER  ( optional_CPLUSPLUS >= 202000L )
+#define optional_CPP17_OR_GREATER  0  // Disabled for nanostl: ( optional_CPLUSPLUS >= 201703L )
+#define optional_CPP20_OR_GREATER  0  // Disabled for nanostl: ( optional_CPLUSPLUS >= 202000L )
 
 // C++ language version (represent 98 as 3):
 
diff --git a/include/nonstd/variant.hpp b/include/nonstd/variant.hpp
index a2a5f36..b2c3d4f 100644
--- a/include/nonstd/variant.hpp
+++ b/include/nonstd/variant.hpp
@@ -67,8 +67,8 @@
 #define variant_CPP11_OR_GREATER  ( variant_CPLUSPLUS >= 201103L )
 #define variant_CPP11_OR_GREATER_ ( variant_CPLUSPLUS >= 201103L )
 #define variant_CPP14_OR_GREATER  ( variant_CPLUSPLUS >= 201402L )
-#define variant_CPP17_OR_GREATER  ( variant_CPLUSPLUS >= 201703L )
-#define variant_CPP20_OR_GREATER  ( variant_CPLUSPLUS >= 202000L )
+#define variant_CPP17_OR_GREATER  0  // Disabled for nanostl: ( variant_CPLUSPLUS >= 201703L )
+#define variant_CPP20_OR_GREATER  0  // Disabled for nanostl: ( variant_CPLUSPLUS >= 202000L )
 
 // Use C++17 std::variant if available and requested:
 
-- 
2.43.0


From 24e1efd6b13fff3982d70351d3aa91c698a2b1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:57:22 +0000
Subject: [PATCH 58/63] fix: the implementation of iostream does not compile
 with gcc

---
 include/nanoiostream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanoiostream.h b/include/nanoiostream.h
index 1b7e448..d775460 100644
--- a/include/nanoiostream.h
+++ b/include/nanoiostream.h
@@ -216,7 +216,7 @@ namespace nanostl {
 
 #ifndef NANOSTL_NO_IO
 
-#if __has_feature(cxx_alignas)
+#if __cplusplus >= 201103L
 #define _ALIGNAS_TYPE(x) alignas(x)
 #define _ALIGNAS(x) alignas(x)
 #else
-- 
2.43.0


From e7ba33a32435589a61a1e8089c59291d9b23725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:57:37 +0000
Subject: [PATCH 59/63] fix: writing a string to an ostream calls itself
 without end

---
 include/nanoiostream.h | 8 ++++++++
 include/nanostring.h   | 9 ++-------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/nanoiostream.h b/include/nanoiostream.h
index d775460..bb5c4df 100644
--- a/include/nanoiostream.h
+++ b/include/nanoiostream.h
@@ -76,6 +76,8 @@ public:
     basic_ostream& write(const char_type* __s, streamsize __n);
     basic_ostream& flush();
 
+    friend ostream& operator<<(ostream& os, const string& s);
+
 protected:
     // TODO: Uncomment
     //basic_ostream() {}
@@ -191,6 +193,12 @@ basic_ostream<char, nanostl::char_traits<char>>::operator<<(const void *__n)
   return *this;
 }
 
+inline ostream& operator<<(ostream& os, const string& s)
+{
+  os._ss << s;
+
+  return os;
+}
 
 // --------------------------------------
 
diff --git a/include/nanostring.h b/include/nanostring.h
index 9a974ed..e9965e4 100644
--- a/include/nanostring.h
+++ b/include/nanostring.h
@@ -253,13 +253,8 @@ basic_string<charT> &basic_string<charT>::operator+=(
 
 typedef basic_string<char> string;
 
-// stream
-inline ostream &operator<<(ostream &os, const string &s)
-{
-  os << s;
-
-  return os;
-}
+// stream(defined in nanoiostream.h)
+ostream &operator<<(ostream &os, const string &s);
 
 NANOSTL_HOST_AND_DEVICE_QUAL
 string to_string(int value);
-- 
2.43.0


From 853c60b76f7b74c7d7b4630737c668e0a9adfbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:01:41 +0000
Subject: [PATCH 60/63] fix: flushing an ostream drops what follows a NUL
 character

ostream::flush printed the collected text with "%s", which stops at the first
NUL, and then discarded all of it.
---
 include/nanoiostream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nanoiostream.h b/include/nanoiostream.h
index bb5c4df..a106dc2 100644
--- a/include/nanoiostream.h
+++ b/include/nanoiostream.h
@@ -239,7 +239,7 @@ ios_base::~ios_base() {
 
 template<>
 ostream& ostream::flush() {
-  printf("%s", _ss.str().c_str());
+  fwrite(_ss.str().c_str(), 1, _ss.str().size(), stdout);
 
   _ss.clear();
 
-- 
2.43.0


From 58269ad211c732e6c75989c1e068fa0366018b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:19:46 +0000
Subject: [PATCH 61/63] fix: fast_float::from_chars does not compile

from_chars_result holds a nanostl::errc, to which parse_number.h assigned
values of std::errc.
---
 include/fast_float/parse_number.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fast_float/parse_number.h b/include/fast_float/parse_number.h
index 62ae3b0..6ae5494 100644
--- a/include/fast_float/parse_number.h
+++ b/include/fast_float/parse_number.h
@@ -23,7 +23,7 @@ template <typename T>
 from_chars_result parse_infnan(const char *first, const char *last, T &value)  noexcept  {
   from_chars_result answer;
   answer.ptr = first;
-  answer.ec = std::errc(); // be optimistic
+  answer.ec = nanostl::errc(); // be optimistic
   bool minusSign = false;
   if (*first == '-') { // assume first < last, so dereference without checks; C++17 20.19.3.(7.1) explicitly forbids '+' here
       minusSign = true;
@@ -56,7 +56,7 @@ from_chars_result parse_infnan(const char *first, const char *last, T &value)  n
       return answer;
     }
   }
-  answer.ec = std::errc::invalid_argument;
+  answer.ec = nanostl::errc::invalid_argument;
   return answer;
 }
 
@@ -77,7 +77,7 @@ from_chars_result from_chars_advanced(const char *first, const char *last,
 
   from_chars_result answer;
   if (first == last) {
-    answer.ec = std::errc::invalid_argument;
+    answer.ec = nanostl::errc::invalid_argument;
     answer.ptr = first;
     return answer;
   }
@@ -85,7 +85,7 @@ from_chars_result from_chars_advanced(const char *first, const char *last,
   if (!pns.valid) {
     return detail::parse_infnan(first, last, value);
   }
-  answer.ec = std::errc(); // be optimistic
+  answer.ec = nanostl::errc(); // be optimistic
   answer.ptr = pns.lastmatch;
   // Next is Clinger's fast path.
   if (binary_format<T>::min_exponent_fast_path() <= pns.exponent && pns.exponent <= binary_format<T>::max_exponent_fast_path() && pns.mantissa <=binary_format<T>::max_mantissa_fast_path() && !pns.too_many_digits) {
-- 
2.43.0


From b1749397b40eadd4477f11cad5fe0f2ccf071c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:55 +0000
Subject: [PATCH 62/63] fix: expected and unexpected_type list-initialise what
 they hold from another type

---
 include/nonstd/expected.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/nonstd/expected.hpp b/include/nonstd/expected.hpp
index fd76932..3a177e4 100644
--- a/include/nonstd/expected.hpp
+++ b/include/nonstd/expected.hpp
@@ -897,7 +897,7 @@ public:
         )
     >
     constexpr explicit unexpected_type( unexpected_type<E2> const & error )
-    : m_error( E{ error.value() } )
+    : m_error( E( error.value() ) )
     {}
 
     template< typename E2
@@ -933,7 +933,7 @@ public:
         )
     >
     constexpr explicit unexpected_type( unexpected_type<E2> && error )
-    : m_error( E{ nanostl::move( error.value() ) } )
+    : m_error( E( nanostl::move( error.value() ) ) )
     {}
 
     template< typename E2
@@ -1402,8 +1402,8 @@ public:
     nsel_constexpr14 explicit expected( expected<U, G> const & other )
     : contained( other.has_value() )
     {
-        if ( has_value() ) contained.construct_value( T{ other.contained.value() } );
-        else               contained.construct_error( E{ other.contained.error() } );
+        if ( has_value() ) contained.construct_value( T( other.contained.value() ) );
+        else               contained.construct_error( E( other.contained.error() ) );
     }
 
     template< typename U, typename G
@@ -1446,8 +1446,8 @@ public:
     nsel_constexpr14 explicit expected( expected<U, G> && other )
     : contained( other.has_value() )
     {
-        if ( has_value() ) contained.construct_value( T{ nanostl::move( other.contained.value() ) } );
-        else               contained.construct_error( E{ nanostl::move( other.contained.error() ) } );
+        if ( has_value() ) contained.construct_value( T( nanostl::move( other.contained.value() ) ) );
+        else               contained.construct_error( E( nanostl::move( other.contained.error() ) ) );
     }
 
     template< typename U, typename G
@@ -1499,7 +1499,7 @@ public:
     )
     : contained( true )
     {
-        contained.construct_value( T{ nanostl::forward<U>( value ) } );
+        contained.construct_value( T( nanostl::forward<U>( value ) ) );
     }
 
     template< typename U = T
@@ -1532,7 +1532,7 @@ public:
     nsel_constexpr14 explicit expected( nanostl::unexpected_type<G> const & error )
     : contained( false )
     {
-        contained.construct_error( E{ error.value() } );
+        contained.construct_error( E( error.value() ) );
     }
 
     template< typename G = E
@@ -1556,7 +1556,7 @@ public:
     nsel_constexpr14 explicit expected( nanostl::unexpected_type<G> && error )
     : contained( false )
     {
-        contained.construct_error( E{ nanostl::move( error.value() ) } );
+        contained.construct_error( E( nanostl::move( error.value() ) ) );
     }
 
     template< typename G = E
@@ -1955,7 +1955,7 @@ public:
     nsel_constexpr14 explicit expected( nanostl::unexpected_type<G> const & error )
         : contained( false )
     {
-        contained.construct_error( E{ error.value() } );
+        contained.construct_error( E( error.value() ) );
     }
 
     template< typename G = E
@@ -1977,7 +1977,7 @@ public:
     nsel_constexpr14 explicit expected( nanostl::unexpected_type<G> && error )
         : contained( false )
     {
-        contained.construct_error( E{ nanostl::move( error.value() ) } );
+        contained.construct_error( E( nanostl::move( error.value() ) ) );
     }
 
     template< typename G = E
-- 
2.43.0


From 3c69d8d6403f6284107feae11f5aa26f4ac6ed9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:55 +0000
Subject: [PATCH 63/63] fix: optional list-initialises its value from an
 optional of another type

---
 include/nonstd/optional.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nonstd/optional.hpp b/include/nonstd/optional.hpp
index 4bc088c..945ba8d 100644
--- a/include/nonstd/optional.hpp
+++ b/include/nonstd/optional.hpp
@@ -1021,7 +1021,7 @@ public:
     {
         if ( other.has_value() )
         {
-            contained.construct_value( T{ other.contained.value() } );
+            contained.construct_value( T( other.contained.value() ) );
         }
     }
 #endif // optional_CPP11_OR_GREATER
@@ -1076,7 +1076,7 @@ public:
     {
         if ( other.has_value() )
         {
-            contained.construct_value( T{ nanostl::move( other.contained.value() ) } );
+            contained.construct_value( T( nanostl::move( other.contained.value() ) ) );
         }
     }
 
-- 
2.43.0

