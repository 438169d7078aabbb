From dba9a61f11f05370d48a32cea0fd675d824ccd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:32 +0000
Subject: [PATCH 01/65] verification hook: REFLEX_VERIF_BLOCK scales the buffer
 block size

---
 include/reflex/absmatcher.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index ff9cce7..4e91153 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -101,7 +101,11 @@ class AbstractMatcher {
     static const int UNK      = 256;        ///< unknown/undefined character meta-char marker
     static const int BOB      = 257;        ///< begin of buffer meta-char marker
     static const int EOB      = EOF;        ///< end of buffer meta-char marker
+#if defined(REFLEX_VERIF_BLOCK)
+    static const size_t BLOCK = REFLEX_VERIF_BLOCK; ///< scaled down to check buffer shifting and growth
+#else
     static const size_t BLOCK = (256*1024); ///< buffer size and growth, buffer is initially 2*BLOCK size, at least 4096 bytes
+#endif
     static const size_t REDO  = 0x7FFFFFFF; ///< reflex::Matcher::accept() returns "redo" with reflex::Matcher option "A"
     static const size_t EMPTY = 0xFFFFFFFF; ///< accept() returns "empty" last split at end of input
   };
-- 
2.43.0


From 427ceef5b65518f0cf08a5bc1a2e7bac5bb144a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 02/65] fix: initialise the result of an empty alternative when
 parsing a regex

---
 lib/pattern.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 3d59bc3..6ddc31e 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -670,6 +670,15 @@ void Pattern::parse2(
         iter = iter1;
     }
   }
+  else
+  {
+    // empty (sub)pattern: matches the empty string
+    firstpos.clear();
+    lastpos.clear();
+    nullable = true;
+    lazyset.clear();
+    iter = 1;
+  }
   for (Positions::const_iterator p = a_pos.begin(); p != a_pos.end(); ++p)
   {
     for (Positions::const_iterator k = lastpos.begin(); k != lastpos.end(); ++k)
-- 
2.43.0


From 1092e2a57cdd730231c6b345bc0cf217196e83b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:13 +0000
Subject: [PATCH 03/65] fix: split() keeps the input that follows a partial
 match at the end of input

---
 fuzzy/fuzzymatcher.h     | 2 +-
 include/reflex/matcher.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index e2590d6..2f8fd0f 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -885,7 +885,7 @@ unrolled:
       DBGLOG("Split: len = %zu cap = %zu cur = %zu pos = %zu end = %zu txt-buf = %zu eob = %d got = %d", len_, cap_, cur_, pos_, end_, txt_-buf_, (int)eof_, got_);
       if (cap_ == 0 || (cur_ == static_cast<size_t>(txt_ - buf_) && !at_bob()))
       {
-        if (!hit_end() && (txt_ + len_ < buf_ + end_ || peek() != EOF))
+        if (txt_ + len_ < buf_ + end_ || peek() != EOF)
         {
           ++len_;
           DBGLOG("Split continue: len = %zu", len_);
diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 0e65be7..53fafaf 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -801,7 +801,7 @@ unrolled:
       DBGLOG("Split: len = %zu cap = %zu cur = %zu pos = %zu end = %zu txt-buf = %zu eob = %d got = %d", len_, cap_, cur_, pos_, end_, txt_-buf_, (int)eof_, got_);
       if (cap_ == 0 || (cur_ == static_cast<size_t>(txt_ - buf_) && !at_bob()))
       {
-        if (!hit_end() && (txt_ + len_ < buf_ + end_ || peek() != EOF))
+        if (txt_ + len_ < buf_ + end_ || peek() != EOF)
         {
           ++len_;
           DBGLOG("Split continue: len = %zu", len_);
-- 
2.43.0


From 3f294e8158d76f53519bce374594c777e06e6306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 04/65] fix: range set intersection, contains and comparison at
 the ends of the sets

---
 include/reflex/ranges.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/reflex/ranges.h b/include/reflex/ranges.h
index 554ab82..53cc12f 100644
--- a/include/reflex/ranges.h
+++ b/include/reflex/ranges.h
@@ -332,7 +332,7 @@ class Ranges : public std::set< std::pair<T,T>,range_compare<T> > {
         }
         // put upper part of the range back if next range in rs overlaps with it
         if (++j != rs.end())
-          if (std::less<bound_type>()(j->first, hi))
+          if (!std::less<bound_type>()(hi, j->first))
             i = container_type::insert(i, value_type(j->first, hi)); // insert with hint i that follows the insertion point
       }
       else if (std::less<bound_type>()(i->second, j->second))
@@ -446,7 +446,7 @@ class Ranges : public std::set< std::pair<T,T>,range_compare<T> > {
       ++i;
       ++j;
     }
-    return false;
+    return i == this->end() && j != rs.end();
   }
   /// True if this range set is lexicographically greater than range set rs.
   bool operator>(const Ranges& rs) ///< ranges
@@ -513,7 +513,7 @@ class Ranges : public std::set< std::pair<T,T>,range_compare<T> > {
         ++j;
       }
     }
-    return true;
+    return j == rs.end();
   }
   /// Return the lowest value in the set of ranges (the set cannot be empty)
   bound_type lo() const
-- 
2.43.0


From 67496146b6c3abf84e48ee7df72af78e7b6bfb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 05/65] fix: bit vector range erase, left shift growth,
 self-assignment and bit-to-bit assignment

---
 include/reflex/bits.h | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/include/reflex/bits.h b/include/reflex/bits.h
index f3b231d..43a6a2c 100644
--- a/include/reflex/bits.h
+++ b/include/reflex/bits.h
@@ -119,6 +119,13 @@ class Bits {
         *p &= ~m;
       return *this;
     }
+    /// Assign the value of another bit.
+    const Bitref& operator=(const Bitref& b) ///< bit to assign
+      /// @returns result value true or false.
+      const
+    {
+      return operator=(static_cast<bool>(b));
+    }
     /// Bit-or bit value.
     bool operator|=(bool b) ///< bit-or with this bit
       /// @returns result value true or false.
@@ -155,6 +162,9 @@ class Bits {
   { }
   /// Copy constructor
   Bits(const Bits& bits) ///< bits to copy
+    :
+      len_(0),
+      vec_(NULL)
   {
     operator=(bits);
   }
@@ -186,11 +196,15 @@ class Bits {
   Bits& operator=(const Bits& bits) ///< bits to copy
     /// @returns reference to this object.
   {
-    len_ = bits.len_;
-    if (len_)
-      std::memcpy(vec_ = new uint64_t[len_], bits.vec_, len_ << 3);
-    else
+    if (this != &bits)
+    {
+      if (vec_)
+        delete[] vec_;
       vec_ = NULL;
+      len_ = bits.len_;
+      if (len_)
+        std::memcpy(vec_ = new uint64_t[len_], bits.vec_, len_ << 3);
+    }
     return *this;
   }
   /// Reference n'th bit in the bit vector to assign a value to that bit.
@@ -251,7 +265,7 @@ class Bits {
     if (n1 >> 6 < len_)
     {
       if (n2 >> 6 >= len_)
-        n2 = (len_ - 1) << 6;
+        n2 = (len_ << 6) - 1;
       for (size_t i = n1; i <= n2; ++i)
         vec_[i >> 6] &= ~(1ULL << (i & 0x3F));
     }
@@ -282,8 +296,9 @@ class Bits {
       }
       if (lo)
       {
+        size_t k = len_;
         alloc(len_ + 1);
-        vec_[len_ - 1] = 1;
+        vec_[k] = 1;
       }
     }
     return *this;
-- 
2.43.0


From 50e12bb4cf87f1697e403ebe4eabe96ef797ebdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 06/65] fix: erasing an open-ended range set from itself

---
 include/reflex/ranges.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/reflex/ranges.h b/include/reflex/ranges.h
index 53cc12f..ff03a5e 100644
--- a/include/reflex/ranges.h
+++ b/include/reflex/ranges.h
@@ -718,6 +718,11 @@ class ORanges : public Ranges<T> {
   ORanges& operator-=(const ORanges& rs)
     /// @returns reference to this object.
   {
+    if (this == &rs)
+    {
+      container_type::clear();
+      return *this;
+    }
     iterator i = this->begin();
     const_iterator j = rs.begin();
     while (i != this->end() && j != rs.end())
-- 
2.43.0


From a0023e451e09a2ebe7c6d79c15266fb19f43b302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:30 +0000
Subject: [PATCH 07/65] fix: lazy_union iterates over the union in order, each
 element once

---
 include/reflex/setop.h | 50 ++++++------------------------------------
 1 file changed, 7 insertions(+), 43 deletions(-)

diff --git a/include/reflex/setop.h b/include/reflex/setop.h
index 446e725..a92144a 100644
--- a/include/reflex/setop.h
+++ b/include/reflex/setop.h
@@ -335,60 +335,24 @@ struct lazy_union {
     }
     void find(void)
     {
-      if (i1 == i1_end)
-      {
-        second = true;
-      }
-      else
-      {
-        while (i2 != i2_end && !lt(*i1, *i2) && !lt(*i2, *i1))
-          ++i2;
-      }
+      // the next element is in s2 when s1 has no more elements or when its next element is greater
+      second = i1 == i1_end || (i2 != i2_end && lt(*i2, *i1));
     }
     void next(void)
     {
-      if (i1 == i1_end)
+      if (second)
       {
         if (i2 != i2_end)
           ++i2;
-        second = true;
-      }
-      else if (i2 == i2_end)
-      { 
-        if (i1 != i1_end)
-          ++i1;
-        second = false;
       }
       else
       {
-        if (second)
-        {
+        // advance both when the element is in s1 and in s2
+        if (i2 != i2_end && !lt(*i1, *i2))
           ++i2;
-          second = false;
-        }
-        else
-        {
-          ++i1;
-          second = true;
-        }
-        while (i1 != i1_end && i2 != i2_end)
-        {
-          if (lt(*i1, *i2))
-          {
-            second = false;
-            break;
-          }
-          else if (lt(*i2, *i1))
-          {
-            second = true;
-            break;
-          }
-          else
-          {
-            ++i2;
-          }
-        }
+        ++i1;
       }
+      find();
     }
     typename S1::const_iterator i1, i1_end;
     typename S2::const_iterator i2, i2_end;
-- 
2.43.0


From 1954893c195ac1c72295ad884f961bb4f8bc35c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:47 +0000
Subject: [PATCH 08/65] fix: wcs() does not decode past the given length;
 negative wide characters are invalid

---
 include/reflex/input.h |  2 +-
 include/reflex/utf8.h  | 26 ++++++++++++++++++++++----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/include/reflex/input.h b/include/reflex/input.h
index d9df043..a63e9ef 100644
--- a/include/reflex/input.h
+++ b/include/reflex/input.h
@@ -677,7 +677,7 @@ class Input {
       wchar_t c;
       while ((c = *wstring_) != L'\0' && k > 0)
       {
-        if (c < 0x80)
+        if (c >= 0 && c < 0x80)
         {
           *s++ = static_cast<char>(c);
           --k;
diff --git a/include/reflex/utf8.h b/include/reflex/utf8.h
index b36896d..c864bd9 100644
--- a/include/reflex/utf8.h
+++ b/include/reflex/utf8.h
@@ -77,13 +77,13 @@ inline size_t utf8(
     char *s) ///< points to the buffer to populate with UTF-8 (1 to 6 bytes) not NUL-terminated
   /// @returns length (in bytes) of UTF-8 character sequence stored in s
 {
-  if (c < 0x80)
+  if (static_cast<unsigned int>(c) < 0x80)
   {
     *s++ = static_cast<char>(c);
     return 1;
   }
 #ifndef WITH_UTF8_UNRESTRICTED
-  if (c > 0x10FFFF)
+  if (static_cast<unsigned int>(c) > 0x10FFFF)
   {
     static const size_t n = sizeof(REFLEX_NONCHAR_UTF8) - 1;
     std::memcpy(s, REFLEX_NONCHAR_UTF8, n);
@@ -217,6 +217,24 @@ inline int utf8(
   return c;
 }
 
+/// Convert UTF-8 to UCS like utf8(s, &s), but never reads past the given end of the UTF-8 string.
+inline int utf8(
+    const char  *s, ///< points to the buffer with UTF-8
+    const char  *e, ///< points to the end of the buffer, e > s
+    const char **r) ///< points to pointer to set to the new position in s after the UTF-8 sequence
+  /// @returns UCS character
+{
+  if (e - s >= 6)
+    return utf8(s, r);
+  // the last bytes of the buffer: decode a NUL-terminated copy
+  char buf[8] = { 0, 0, 0, 0, 0, 0, 0, 0 };
+  std::memcpy(buf, s, e - s);
+  const char *t;
+  int c = utf8(buf, &t);
+  *r = t - buf < e - s ? s + (t - buf) : e;
+  return c;
+}
+
 /// Convert UTF-8 string to wide string.
 inline std::wstring wcs(
     const char *s, ///< string with UTF-8 to convert
@@ -230,7 +248,7 @@ inline std::wstring wcs(
     // sizeof(wchar_t) == 2 bytes: store wide string in std::wstring encoded in UTF-16
     while (s < e)
     {
-      int wc = utf8(s, &s);
+      int wc = utf8(s, e, &s);
       if (wc > 0xFFFF)
       {
         if (wc <= 0x10FFFF)
@@ -252,7 +270,7 @@ inline std::wstring wcs(
   else
   {
     while (s < e)
-      ws.push_back(utf8(s, &s));
+      ws.push_back(utf8(s, e, &s));
   }
   return ws;
 }
-- 
2.43.0


From 4efa9fe8d70fbff116d05436dc4c504ce95a81bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:48 +0000
Subject: [PATCH 09/65] fix: a character split over two FILE reads is delivered
 once

---
 lib/input.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/input.cpp b/lib/input.cpp
index b13a67a..4bfba87 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -796,7 +796,7 @@ size_t Input::file_get(char *s, size_t n)
           {
             std::memcpy(t, utf8_, n);
             uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
+            ulen_ = static_cast<unsigned short>(l - n);
             t += n;
             n = 0;
           }
@@ -835,7 +835,7 @@ size_t Input::file_get(char *s, size_t n)
           {
             std::memcpy(t, utf8_, n);
             uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
+            ulen_ = static_cast<unsigned short>(l - n);
             t += n;
             n = 0;
           }
@@ -866,7 +866,7 @@ size_t Input::file_get(char *s, size_t n)
           {
             std::memcpy(t, utf8_, n);
             uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
+            ulen_ = static_cast<unsigned short>(l - n);
             t += n;
             n = 0;
           }
@@ -897,7 +897,7 @@ size_t Input::file_get(char *s, size_t n)
           {
             std::memcpy(t, utf8_, n);
             uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
+            ulen_ = static_cast<unsigned short>(l - n);
             t += n;
             n = 0;
           }
@@ -934,7 +934,7 @@ size_t Input::file_get(char *s, size_t n)
           else
           {
             uidx_ = 1;
-            ulen_ = 2;
+            ulen_ = 1;
           }
         }
       }
@@ -988,7 +988,7 @@ size_t Input::file_get(char *s, size_t n)
           {
             std::memcpy(t, utf8_, n);
             uidx_ = static_cast<unsigned short>(n);
-            ulen_ = static_cast<unsigned short>(l);
+            ulen_ = static_cast<unsigned short>(l - n);
             t += n;
             n = 0;
           }
-- 
2.43.0


From b1ad775728e7e92f654cc9a1cec09fd0742beb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:57 +0000
Subject: [PATCH 10/65] fix: code page tables: wrong entries in CP1251, CP1254,
 CP1255, CP1257, ISO-8859-3, -4, -6, -13 and KOI8-RU

---
 lib/input.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/lib/input.cpp b/lib/input.cpp
index 4bfba87..8422694 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -167,9 +167,9 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
   0x0402,0x0403,0x201A,0x0453,0x201E,0x2026,0x2020,0x2021,0x20AC,0x2030,0x0409,0x2039,0x040A,0x040C,0x040B,0x040F,
   0x0452,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,   152,0x2122,0x0459,0x203A,0x045A,0x045C,0x045B,0x045F,
-     160,0x040E,0x045E,0x0408,   164,0x0409,   166,   167,0x0401,   169,0x0404,   171,   172,   173,   174,0x0407,
+     160,0x040E,0x045E,0x0408,   164,0x0490,   166,   167,0x0401,   169,0x0404,   171,   172,   173,   174,0x0407,
      176,   177,0x0406,0x0456,0x0491,   181,   182,   183,0x0451,0x2116,0x0454,   187,0x0458,0x0405,0x0455,0x0457,
-  0x0100,0x0411,0x0412,0x0413,0x0414,0x0415,0x0416,0x0417,0x0418,0x0419,0x041A,0x041B,0x041C,0x041D,0x041E,0x041F,
+  0x0410,0x0411,0x0412,0x0413,0x0414,0x0415,0x0416,0x0417,0x0418,0x0419,0x041A,0x041B,0x041C,0x041D,0x041E,0x041F,
   0x0420,0x0421,0x0422,0x0423,0x0424,0x0425,0x0426,0x0427,0x0428,0x0429,0x042A,0x042B,0x042C,0x042D,0x042E,0x042F,
   0x0430,0x0431,0x0432,0x0433,0x0434,0x0435,0x0436,0x0437,0x0438,0x0439,0x043A,0x043B,0x043C,0x043D,0x043E,0x043F,
   0x0440,0x0441,0x0442,0x0443,0x0444,0x0445,0x0446,0x0447,0x0448,0x0449,0x044A,0x044B,0x044C,0x044D,0x044E,0x044F
@@ -229,7 +229,7 @@ const unsigned short codepages[38][256] =
      192,   193,   194,   195,   196,   197,   198,   199,   200,   201,   202,   203,   204,   205,   206,   207,
   0x011E,   209,   210,   211,   212,   213,   214,   215,   216,   217,   218,   219,   220,0x0130,0x015E,   223,
      224,   225,   226,   227,   228,   229,   230,   231,   232,   233,   234,   235,   236,   237,   238,   239,
-  0x011F,   241,   242,   243,   244,   245,   246,   247,   248,   249,   250,   252,   252,0x0131,0x015F,   255
+  0x011F,   241,   242,   243,   244,   245,   246,   247,   248,   249,   250,0x00FB,   252,0x0131,0x015F,   255
   },
   // Windows CP 1255 to Unicode
   {
@@ -245,7 +245,7 @@ const unsigned short codepages[38][256] =
      144,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,0x02DC,0x2122,   154,0x203A,   156,   157,   158,   159,
      160,   161,   162,   163,0x20AA,   165,   166,   167,   168,   169,0x00D7,   171,   172,   173,   174,   175,
      176,   177,   178,   179,   180,   181,   182,   183,   184,   185,0x00F7,   187,   188,   189,   190,   191,
-  0x05B0,0x05B1,0x05B2,0x0583,0x0584,0x0585,0x0586,0x0587,0x0588,0x0589,0x058A,0x058B,0x058C,0x058D,0x058E,0x058F,
+  0x05B0,0x05B1,0x05B2,0x05B3,0x05B4,0x05B5,0x05B6,0x05B7,0x05B8,0x05B9,0x05BA,0x05BB,0x05BC,0x05BD,0x05BE,0x05BF,
   0x05C0,0x05C1,0x05C2,0x05C3,0x05F0,0x05F1,0x05F2,0x05F3,0x05F4,   217,   218,   219,   220,   221,   222,   223,
   0x05D0,0x05D1,0x05D2,0x05D3,0x05D4,0x05D5,0x05D6,0x05D7,0x05D8,0x05D9,0x05DA,0x05DB,0x05DC,0x05DD,0x05DE,0x05DF,
   0x05E0,0x05E1,0x05E2,0x05E3,0x05E4,0x05E5,0x05E6,0x05E7,0x05E8,0x05E9,0x05EA,   251,   252,0x200E,0x200F,   255
@@ -281,12 +281,12 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
   0x20AC,   129,0x201A,   131,0x201E,0x2026,0x2020,0x2021,   136,0x2030,   138,0x2039,   140,0x00A8,0x02C7,0x00B8,
      144,0x2018,0x2019,0x201C,0x201D,0x2022,0x2013,0x2014,   152,0x2122,   154,0x203A,   156,0x00AF,0x02DB,   159,
-     160,   161,   162,   163,   164,   165,   166,   167,0x00D8,   169,0x0156,   171,   172,   173,   174,   175,
-     176,   177,   178,   179,   180,   181,   182,   183,0x00F8,   185,0x0157,   187,   188,   189,   190,   191,
+     160,   161,   162,   163,   164,   165,   166,   167,0x00D8,   169,0x0156,   171,   172,   173,   174,0x00C6,
+     176,   177,   178,   179,   180,   181,   182,   183,0x00F8,   185,0x0157,   187,   188,   189,   190,0x00E6,
   0x0104,0x012E,0x0100,0x0106,   196,   197,0x0118,0x0112,0x010C,   201,0x0179,0x0116,0x0122,0x0136,0x012A,0x013B,
   0x0160,0x0143,0x0145,   211,0x014C,   213,   214,   215,0x0172,0x0141,0x015A,0x016A,   220,0x017B,0x017D,   223,
   0x0105,0x012F,0x0101,0x0107,   228,   229,0x0119,0x0113,0x010D,   233,0x017A,0x0117,0x0123,0x0137,0x012B,0x013C,
-  0x0161,0x0144,0x0146,   242,0x014D,   245,   246,   247,0x0173,0x0142,0x015B,0x016B,   252,0x017C,0x017E,0x02D9
+  0x0161,0x0144,0x0146,0x00F3,0x014D,   245,   246,   247,0x0173,0x0142,0x015B,0x016B,   252,0x017C,0x017E,0x02D9
   },
   // Windows CP 1258 to Unicode
   {
@@ -338,11 +338,11 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
      128,   129,   130,   131,   132,   133,   134,   135,   136,   137,   138,   139,   140,   141,   142,   143,
      144,   145,   146,   147,   148,   149,   150,   151,   152,   153,   154,   155,   156,   157,   158,   159,
-     160,0x0126,0x2DB2,   163,   164,   165,0x0124,   167,   168,0x0130,0x015E,0x011E,0x0134,   173,   174,0x017B,
+     160,0x0126,0x02D8,   163,   164,   165,0x0124,   167,   168,0x0130,0x015E,0x011E,0x0134,   173,   174,0x017B,
      176,0x0127,   178,   179,   180,   181,0x0125,   183,   184,0x0131,0x015F,0x011F,0x0135,   189,   190,0x017C,
      192,   193,   194,   195,   196,0x010A,0x0108,   199,   200,   201,   202,   203,   204,   205,   206,   207,
      208,   209,   210,   211,   212,0x0120,   214,   215,0x011C,   217,   218,   219,   220,0x016C,0x015C,   223,
-     224,   225,   226,   227,   228,0x10B9,0x0109,   231,   232,   233,   234,   235,   236,   237,   238,   239,
+     224,   225,   226,   227,   228,0x010B,0x0109,   231,   232,   233,   234,   235,   236,   237,   238,   239,
      240,   241,   242,   243,   244,0x0121,   246,   247,0x011D,   249,   250,   251,   252,0x016D,0x015D,0x02D9
   },
   // ISO-8859-4 to Unicode
@@ -357,7 +357,7 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
      128,   129,   130,   131,   132,   133,   134,   135,   136,   137,   138,   139,   140,   141,   142,   143,
      144,   145,   146,   147,   148,   149,   150,   151,   152,   153,   154,   155,   156,   157,   158,   159,
-     160,0x1041,0x0138,0x0156,   164,0x0128,0x013B,   167,   168,0x0160,0x0112,0x0122,0x0166,   173,0x017D,   175,
+     160,0x0104,0x0138,0x0156,   164,0x0128,0x013B,   167,   168,0x0160,0x0112,0x0122,0x0166,   173,0x017D,   175,
      176,0x0105,0x02DB,0x0157,   180,0x0129,0x013C,0x02C7,   184,0x0161,0x0113,0x0123,0x0167,0x014A,0x017E,0x014B,
   0x0100,   193,   194,   195,   196,   197,   198,0x012E,0x010C,   201,0x0118,   203,0x0116,   205,   206,0x012A,
   0x0110,0x0145,0x014C,0x0136,   212,   213,   214,   215,   216,0x0172,   218,   219,   220,0x0168,0x016A,   223,
@@ -398,7 +398,7 @@ const unsigned short codepages[38][256] =
      160,   161,   162,   163,   164,   165,   166,   167,   168,   169,   170,   171,0x060C,   173,   174,   175,
      176,   177,   178,   179,   180,   181,   182,   183,   184,   185,   186,0x061B,   188,   189,   190,0x061F,
      192,0x0621,0x0622,0x0623,0x0624,0x0625,0x0626,0x0627,0x0628,0x0629,0x062A,0x062B,0x062C,0x062D,0x062E,0x062F,
-  0x0630,0x0631,0x0632,0x0633,0x0634,0x0635,0x0636,0x0637,0x0638,0x0639,0x062A,   219,   220,   221,   222,   223,
+  0x0630,0x0631,0x0632,0x0633,0x0634,0x0635,0x0636,0x0637,0x0638,0x0639,0x063A,   219,   220,   221,   222,   223,
   0x0640,0x0641,0x0642,0x0643,0x0644,0x0645,0x0646,0x0647,0x0648,0x0649,0x064A,0x064B,0x064C,0x064D,0x064E,0x064F,
   0x0650,0x0651,0x0652,   243,   244,   245,   246,   247,   248,   249,   250,   251,   252,   253,   254,   255
   },
@@ -514,7 +514,7 @@ const unsigned short codepages[38][256] =
   0x0104,0x012E,0x0100,0x0106,   196,   197,0x0118,0x0112,0x010C,   201,0x0179,0x0116,0x0122,0x0136,0x012A,0x013B,
   0x0160,0x0143,0x0145,   211,0x014C,   213,   214,   215,0x0172,0x0141,0x015A,0x016A,   220,0x017B,0x017D,   223,
   0x0105,0x012F,0x0101,0x0107,   228,   229,0x0119,0x0113,0x010D,   233,0x017A,0x0117,0x0123,0x0137,0x012B,0x013C,
-  0x0161,0x0144,0x0146,   242,0x014D,   245,   246,   247,0x0173,0x0142,0x015B,0x016B,   252,0x017C,0x017E,0x2019
+  0x0161,0x0144,0x0146,0x00F3,0x014D,   245,   246,   247,0x0173,0x0142,0x015B,0x016B,   252,0x017C,0x017E,0x2019
   },
   // ISO-8859-14 to Unicode
   {
@@ -642,8 +642,8 @@ const unsigned short codepages[38][256] =
      112,   113,   114,   115,   116,   117,   118,   119,   120,   121,   122,   123,   124,   125,   126,   127,
   0x2500,0x2502,0x250C,0x2510,0x2514,0x2518,0x251C,0x2524,0x252C,0x2534,0x253C,0x2580,0x2584,0x2588,0x258C,0x2590,
   0x2591,0x2592,0x2593,0x201C,0x25A0,0x2219,0x201D,0x2014,0x2116,0x2122,0x00A0,0x00BB,0x00AE,0x00AB,0x00B7,0x00A4,
-  0x2550,0x2551,0x2552,0x0451,0x0454,0x2554,0x0456,0x0457,0x2557,0x2558,0x2559,0x255A,0x255B,0x0491,0x045D,0x255E,
-  0x255F,0x2560,0x2561,0x0401,0x0404,0x2563,0x0406,0x0407,0x2566,0x2567,0x2568,0x2569,0x256A,0x0490,0x040D,0x00A9,
+  0x2550,0x2551,0x2552,0x0451,0x0454,0x2554,0x0456,0x0457,0x2557,0x2558,0x2559,0x255A,0x255B,0x0491,0x045E,0x255E,
+  0x255F,0x2560,0x2561,0x0401,0x0404,0x2563,0x0406,0x0407,0x2566,0x2567,0x2568,0x2569,0x256A,0x0490,0x040E,0x00A9,
   0x044E,0x0430,0x0431,0x0446,0x0434,0x0435,0x0444,0x0433,0x0445,0x0438,0x0439,0x043A,0x043B,0x043C,0x043D,0x043E,
   0x043F,0x044F,0x0440,0x0441,0x0442,0x0443,0x0436,0x0432,0x044C,0x044B,0x0437,0x0448,0x044D,0x0449,0x0447,0x044A,
   0x042E,0x0410,0x0411,0x0426,0x0414,0x0415,0x0424,0x0413,0x0425,0x0418,0x0419,0x041A,0x041B,0x041C,0x041D,0x041E,
-- 
2.43.0


From 6916c9c61c8093f7c678df7c24185330c7322dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:06 +0000
Subject: [PATCH 11/65] fix: UTF-16/32 input: first character after a BOM,
 selected encodings without BOM, size()

---
 include/reflex/input.h |   4 +-
 lib/input.cpp          | 253 ++++++++++++++++++-----------------------
 2 files changed, 113 insertions(+), 144 deletions(-)

diff --git a/include/reflex/input.h b/include/reflex/input.h
index a63e9ef..6248ef6 100644
--- a/include/reflex/input.h
+++ b/include/reflex/input.h
@@ -761,6 +761,8 @@ class Input {
   }
   /// Called by init() for a FILE*.
   void file_init(file_encoding_type enc);
+  /// Called by file_init() and file_encoding() to convert n buffered UTF-16 bytes (and the bytes completing them) to UTF-8 in utf8_[].
+  void utf16_buffered(unsigned char *b, size_t n);
   /// Called by size() for a wstring.
   void wstring_size();
   /// Called by size() for a FILE*.
@@ -783,7 +785,7 @@ class Input {
   FILE                 *file_;    ///< FILE* input (when non-null)
   std::istream         *istream_; ///< stream input (when non-null)
   size_t                size_;    ///< size of the remaining input in bytes (size_ == 0 may indicate size is not set)
-  char                  utf8_[8]; ///< UTF-8 normalization buffer, >=8 bytes
+  char                  utf8_[16]; ///< UTF-8 normalization buffer, >=12 bytes
   unsigned short        uidx_;    ///< index in utf8_[]
   unsigned short        ulen_;    ///< length of data (remaining after uidx_) in utf8_[] or 0 if no data
   file_encoding_type    utfx_;    ///< file_encoding
diff --git a/lib/input.cpp b/lib/input.cpp
index 8422694..b376be6 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -684,9 +684,9 @@ void Input::file_init(file_encoding_type enc)
           ulen_ = 2;
           if (utf8_[0] == '\0' && utf8_[1] == '\0')  // UTF-32 big endian BOM 0000XXXX?
           {
-            if (::fread(&utf8_[2], 2, 1, file_) == 1)
+            ulen_ += static_cast<unsigned short>(::fread(&utf8_[2], 1, 2, file_));
+            if (ulen_ == 4)
             {
-              ulen_ = 4;
               if (utf8_[2] == '\xfe' && utf8_[3] == '\xff') // UTF-32 big endian BOM 0000FEFF?
               {
                 size_ = 0;
@@ -703,21 +703,15 @@ void Input::file_init(file_encoding_type enc)
           }
           else if (utf8_[0] == '\xff' && utf8_[1] == '\xfe') // UTF-16 or UTF-32 little endian BOM FFFEXXXX?
           {
+            size_ = 0;
+            ulen_ = 0;
+            utfx_ = file_encoding::utf16le;
             if (::fread(&utf8_[2], 2, 1, file_) == 1)
             {
               if (utf8_[2] == '\0' && utf8_[3] == '\0') // UTF-32 little endian BOM FFFE0000?
-              {
-                size_ = 0;
-                ulen_ = 0;
                 utfx_ = file_encoding::utf32le;
-              }
               else
-              {
-                size_ = 0;
-                uidx_ = 2;
-                ulen_ = 1;
-                utfx_ = file_encoding::utf16le;
-              }
+                utf16_buffered(reinterpret_cast<unsigned char*>(&utf8_[2]), 2);
             }
           }
           else if (utf8_[0] == '\xef' && utf8_[1] == '\xbb') // UTF-8 BOM EFBBXX?
@@ -854,7 +848,7 @@ size_t Input::file_get(char *s, size_t n)
       while (n > 0 && ::fread(buf, 4, 1, file_) == 1)
       {
         int c = buf[0] << 24 | buf[1] << 16 | buf[2] << 8 | buf[3];
-        if (c < 0x80)
+        if (c >= 0 && c < 0x80)
         {
           *t++ = static_cast<char>(c);
           --n;
@@ -885,7 +879,7 @@ size_t Input::file_get(char *s, size_t n)
       while (n > 0 && ::fread(buf, 4, 1, file_) == 1)
       {
         int c = buf[0] | buf[1] << 8 | buf[2] << 16 | buf[3] << 24;
-        if (c < 0x80)
+        if (c >= 0 && c < 0x80)
         {
           *t++ = static_cast<char>(c);
           --n;
@@ -1117,8 +1111,8 @@ void Input::file_size()
           if (c >= 0xD800 && c < 0xE000)
           {
             // UTF-16 surrogate pair
-            if (c < 0xDC00 && ::fread(buf + 2, 2, 1, file_) == 1 && (buf[2] & 0xFC) == 0xDC)
-              c = 0x010000 - 0xDC00 + ((c - 0xD800) << 10) + (buf[2] << 8 | buf[3]);
+            if (c < 0xDC00 && ::fread(buf + 2, 2, 1, file_) == 1 && (buf[3] & 0xFC) == 0xDC)
+              c = 0x010000 - 0xDC00 + ((c - 0xD800) << 10) + (buf[2] | buf[3] << 8);
             else
               c = REFLEX_NONCHAR;
           }
@@ -1136,7 +1130,7 @@ void Input::file_size()
         {
           int c = buf[0] << 24 | buf[1] << 16 | buf[2] << 8 | buf[3];
 #ifndef WITH_UTF8_UNRESTRICTED
-          if (c > 0x10FFFF)
+          if (c < 0 || c > 0x10FFFF)
             c = REFLEX_NONCHAR;
 #endif
           size_ += 1 + (c >= 0x80) + (c >= 0x0800) + (c >= 0x010000) + (c >= 0x200000);
@@ -1147,18 +1141,20 @@ void Input::file_size()
         {
           int c = buf[0] | buf[1] << 8 | buf[2] << 16 | buf[3] << 24;
 #ifndef WITH_UTF8_UNRESTRICTED
-          if (c > 0x10FFFF)
+          if (c < 0 || c > 0x10FFFF)
             c = REFLEX_NONCHAR;
 #endif
           size_ += 1 + (c >= 0x80) + (c >= 0x0800) + (c >= 0x010000) + (c >= 0x200000);
         }
         break;
       default:
-        fseeko(file_, k, SEEK_END);
+        fseeko(file_, 0, SEEK_END);
         off_t n = ftello(file_);
         if (n >= k)
           size_ = static_cast<size_t>(n - k);
     }
+    // include the buffered bytes that are not delivered yet
+    size_ += ulen_;
     ::clearerr(file_);
     fseeko(file_, k, SEEK_SET);
   }
@@ -1178,32 +1174,99 @@ void Input::istream_size()
   }
 }
 
+void Input::utf16_buffered(unsigned char *b, size_t n)
+{
+  // complete the last code unit, discard it when incomplete
+  if ((n & 1) == 1)
+  {
+    if (::fread(b + n, 1, 1, file_) == 1)
+      ++n;
+    else
+      --n;
+  }
+  bool le = (utfx_ == file_encoding::utf16le);
+  char buf[sizeof(utf8_)];
+  char *t = buf;
+  for (size_t i = 0; i < n; i += 2)
+  {
+    int c = le ? b[i] | b[i + 1] << 8 : b[i] << 8 | b[i + 1];
+    if (c >= 0xD800 && c < 0xE000)
+    {
+      // UTF-16 surrogate pair, read the second code unit when not buffered
+      if (c < 0xDC00 && (i + 2 < n || ::fread(b + i + 2, 2, 1, file_) == 1) && (b[i + 2 + le] & 0xFC) == 0xDC)
+        c = 0x010000 - 0xDC00 + ((c - 0xD800) << 10) + (le ? b[i + 2] | b[i + 3] << 8 : b[i + 2] << 8 | b[i + 3]);
+      else
+        c = REFLEX_NONCHAR;
+      i += 2;
+    }
+    t += utf8(c, t);
+  }
+  uidx_ = 0;
+  ulen_ = static_cast<unsigned short>(t - buf);
+  std::memcpy(utf8_, buf, ulen_);
+}
+
 void Input::file_encoding(unsigned short enc, const unsigned short *page)
 {
   if (file_ && utfx_ != enc)
   {
-    if (utfx_ == file_encoding::plain && ulen_ > 0)
+    bool plain = (utfx_ == file_encoding::plain);
+    switch (enc)
+    {
+      case file_encoding::cp437:
+      case file_encoding::cp850:
+      case file_encoding::cp858:
+      case file_encoding::ebcdic:
+      case file_encoding::cp1250:
+      case file_encoding::cp1251:
+      case file_encoding::cp1252:
+      case file_encoding::cp1253:
+      case file_encoding::cp1254:
+      case file_encoding::cp1255:
+      case file_encoding::cp1256:
+      case file_encoding::cp1257:
+      case file_encoding::cp1258:
+      case file_encoding::iso8859_2:
+      case file_encoding::iso8859_3:
+      case file_encoding::iso8859_4:
+      case file_encoding::iso8859_5:
+      case file_encoding::iso8859_6:
+      case file_encoding::iso8859_7:
+      case file_encoding::iso8859_8:
+      case file_encoding::iso8859_9:
+      case file_encoding::iso8859_10:
+      case file_encoding::iso8859_11:
+      case file_encoding::iso8859_13:
+      case file_encoding::iso8859_14:
+      case file_encoding::iso8859_15:
+      case file_encoding::iso8859_16:
+      case file_encoding::macroman:
+      case file_encoding::koi8_r:
+      case file_encoding::koi8_u:
+      case file_encoding::koi8_ru:
+        page_ = codepages[enc - file_encoding::latin - 1];
+        break;
+      case file_encoding::custom:
+        if (page)
+          page_ = page;
+        else
+          enc = file_encoding::plain;
+        break;
+      default:
+        break;
+    }
+    size_ = 0;
+    utfx_ = enc;
+    if (plain && ulen_ > 0)
     {
       // translate (non-BOM) plain bytes (1 to 4 bytes) buffered in utf8_[]
       unsigned char buf[sizeof(utf8_)];
-      std::memcpy(buf, utf8_, sizeof(utf8_));
-      unsigned char *b = buf;
+      size_t n = ulen_;
+      std::memcpy(buf, utf8_ + uidx_, n);
       char *t = utf8_;
-      int c1, c2;
       switch (enc)
       {
         case file_encoding::latin:
-          while (ulen_-- > 0)
-          {
-            c1 = *b++;
-            if (c1 < 0x80)
-              *t++ = static_cast<char>(c1);
-            else
-              t += utf8(c1, t);
-          }
-          uidx_ = 0;
-          ulen_ = static_cast<unsigned short>(t - utf8_);
-          break;
         case file_encoding::cp437:
         case file_encoding::cp850:
         case file_encoding::cp858:
@@ -1235,132 +1298,36 @@ void Input::file_encoding(unsigned short enc, const unsigned short *page)
         case file_encoding::koi8_r:
         case file_encoding::koi8_u:
         case file_encoding::koi8_ru:
-          page_ = codepages[enc - file_encoding::latin - 1];
-          while (ulen_-- > 0)
-          {
-            c1 = page_[*b++];
-            if (c1 < 0x80)
-              *t++ = static_cast<char>(c1);
-            else
-              t += utf8(c1, t);
-          }
+        case file_encoding::custom:
+          for (size_t i = 0; i < n; ++i)
+            t += utf8(enc == file_encoding::latin ? buf[i] : page_[buf[i]], t);
           uidx_ = 0;
           ulen_ = static_cast<unsigned short>(t - utf8_);
           break;
-        case file_encoding::custom:
-          if (page)
-          {
-            page_ = page;
-            while (ulen_-- > 0)
-            {
-              c1 = page_[*b++];
-              if (c1 < 0x80)
-                *t++ = static_cast<char>(c1);
-              else
-                t += utf8(c1, t);
-            }
-            uidx_ = 0;
-            ulen_ = static_cast<unsigned short>(t - utf8_);
-          }
-          else
-          {
-            enc = file_encoding::plain;
-          }
-          break;
         case file_encoding::utf16be:
-          // enforcing non-BOM UTF-16: translate utf8_[] to UTF-16 then to UTF-8
-          if (b[1] == '\0' && ::fread(b + 1, 1, 1, file_) == 1)
-          {
-            if (b[2] == '\0' ? ::fread(b + 2, 2, 1, file_) == 1 :
-                b[3] == '\0' ? ::fread(b + 3, 1, 1, file_) == 1 :
-                false
-               )
-            {
-              c1 = b[0] << 8 | b[1];
-              c2 = b[2] << 8 | b[3];
-              if (c1 >= 0xD800 && c1 < 0xE000)
-              {
-                // UTF-16 surrogate pair
-                if (c1 < 0xDC00 && (c2 & 0xFC00) == 0xDC00)
-                  c1 = 0x010000 - 0xDC00 + ((c1 - 0xD800) << 10) + c2;
-                else
-                  c1 = REFLEX_NONCHAR;
-                t += utf8(c1, t);
-              }
-              else
-              {
-                t += utf8(c1, t);
-                t += utf8(c2, t);
-              }
-              uidx_ = 0;
-              ulen_ = static_cast<unsigned short>(t - utf8_);
-            }
-          }
-          break;
         case file_encoding::utf16le:
           // enforcing non-BOM UTF-16: translate utf8_[] to UTF-16 then to UTF-8
-          if (b[1] == '\0' && ::fread(b + 1, 1, 1, file_) == 1)
-          {
-            if (b[2] == '\0' ? ::fread(b + 2, 2, 1, file_) == 1 :
-                b[3] == '\0' ? ::fread(b + 3, 1, 1, file_) == 1 :
-                false
-               )
-            {
-              c1 = b[0] | b[1] << 8;
-              c2 = b[2] | b[3] << 8;
-              if (c1 >= 0xD800 && c1 < 0xE000)
-              {
-                // UTF-16 surrogate pair
-                if (c1 < 0xDC00 && (c2 & 0xFC00) == 0xDC00)
-                  c1 = 0x010000 - 0xDC00 + ((c1 - 0xD800) << 10) + c2;
-                else
-                  c1 = REFLEX_NONCHAR;
-                t += utf8(c1, t);
-              }
-              else
-              {
-                t += utf8(c1, t);
-                t += utf8(c2, t);
-              }
-              uidx_ = 0;
-              ulen_ = static_cast<unsigned short>(t - utf8_);
-            }
-          }
+          utf16_buffered(buf, n);
           break;
         case file_encoding::utf32be:
-          // enforcing non-BOM UTF-32: translate utf8_[] to UTF-32 then to UTF-8
-          if (b[1] == '\0' ? ::fread(b + 1, 3, 1, file_) == 1 :
-              b[2] == '\0' ? ::fread(b + 2, 2, 1, file_) == 1 :
-              b[3] == '\0' ? ::fread(b + 3, 1, 1, file_) == 1 :
-              false
-             )
-          {
-            c1 = buf[0] << 24 | buf[1] << 16 | buf[2] << 8 | buf[3];
-            t += utf8(c1, t);
-            uidx_ = 0;
-            ulen_ = static_cast<unsigned short>(t - utf8_);
-          }
-          break;
         case file_encoding::utf32le:
           // enforcing non-BOM UTF-32: translate utf8_[] to UTF-32 then to UTF-8
-          if (b[1] == '\0' ? ::fread(b + 1, 3, 1, file_) == 1 :
-              b[2] == '\0' ? ::fread(b + 2, 2, 1, file_) == 1 :
-              b[3] == '\0' ? ::fread(b + 3, 1, 1, file_) == 1 :
-              false
-             )
+          if (n < 4)
+            n += ::fread(buf + n, 1, 4 - n, file_);
+          if (n == 4)
           {
-            c1 = buf[0] | buf[1] << 8 | buf[2] << 16 | buf[3] << 24;
-            t += utf8(c1, t);
-            uidx_ = 0;
-            ulen_ = static_cast<unsigned short>(t - utf8_);
+            if (enc == file_encoding::utf32be)
+              t += utf8(buf[0] << 24 | buf[1] << 16 | buf[2] << 8 | buf[3], t);
+            else
+              t += utf8(buf[0] | buf[1] << 8 | buf[2] << 16 | buf[3] << 24, t);
           }
+          uidx_ = 0;
+          ulen_ = static_cast<unsigned short>(t - utf8_);
           break;
         default:
           break;
       }
     }
-    size_ = 0;
-    utfx_ = enc;
   }
 }
 
-- 
2.43.0


From 350887255799527e2b0e5ced9f7ed2d027adb0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:36 +0000
Subject: [PATCH 12/65] fix: text() saved a byte beyond the buffered input and
 later wrote it over newly read input

---
 include/reflex/absmatcher.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 4e91153..ad0a3da 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -559,7 +559,9 @@ class AbstractMatcher {
   {
     if (chr_ == '\0')
     {
-      chr_ = txt_[len_];
+      // save the character after the match, when there is one buffered
+      if (txt_ + len_ < buf_ + end_)
+        chr_ = txt_[len_];
       txt_[len_] = '\0';
     }
     return txt_;
-- 
2.43.0


From 186bf362bd99c22c298ea377b6d039355a7649e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:36 +0000
Subject: [PATCH 13/65] fix: eol(), line() and span() after split() searched
 the line end after the separator

---
 include/reflex/absmatcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index ad0a3da..9839304 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1089,7 +1089,7 @@ class AbstractMatcher {
   {
     if (chr_ == '\n' || (txt_ + len_ < buf_ + end_ && txt_[len_] == '\n'))
       return txt_ + len_ + inclusive;
-    size_t loc = pos_;
+    size_t loc = txt_ + len_ - buf_;
     while (true)
     {
       if (loc < end_)
-- 
2.43.0


From 1e62e121dde52bb6b2d70a71430d1a0e14f2c35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 14/65] fix: input() and peek() after text() returned a
 negative value or the text terminator

---
 include/reflex/absmatcher.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 9839304..a1548a4 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -561,7 +561,7 @@ class AbstractMatcher {
     {
       // save the character after the match, when there is one buffered
       if (txt_ + len_ < buf_ + end_)
-        chr_ = txt_[len_];
+        chr_ = static_cast<unsigned char>(txt_[len_]);
       txt_[len_] = '\0';
     }
     return txt_;
@@ -1052,6 +1052,8 @@ class AbstractMatcher {
     /// @returns the character (unsigned char 0..255) or EOF (-1)
   {
     DBGLOG("AbstractMatcher::peek()");
+    if (chr_ != '\0' && buf_ + pos_ == txt_ + len_)
+      return static_cast<unsigned char>(chr_);
 #if defined(WITH_FAST_GET)
     return pos_ < end_ ? static_cast<unsigned char>(buf_[pos_]) : peek_more();
 #else
-- 
2.43.0


From 050a604eb5593f6ad2c49765c05d869edd7aa23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 15/65] fix: winput() never returned a multibyte character

---
 include/reflex/absmatcher.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index a1548a4..95e7939 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -996,11 +996,13 @@ class AbstractMatcher {
     int c;
     if ((c = input()) == EOF)
       return EOF;
-    if (static_cast<unsigned char>(*s++ = c) >= 0x80)
+    *s++ = static_cast<char>(c);
+    // get the continuation bytes of a multibyte UTF-8 character, if any
+    for (int n = c < 0xC0 ? 0 : c < 0xE0 ? 1 : c < 0xF0 ? 2 : 3; n > 0; --n)
     {
-      while (((++*s = get()) & 0xC0) == 0x80)
-        continue;
-      got_ = static_cast<unsigned char>(buf_[cur_ = --pos_]);
+      if ((c = peek()) == EOF || (c & 0xC0) != 0x80)
+        break;
+      *s++ = static_cast<char>(input());
     }
     return utf8(tmp);
   }
-- 
2.43.0


From d57161cb566fc60be203f3c94375ec59a82e214d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 16/65] fix: less(), rest() and a failing skip(s) left the
 current position or the previous character stale

---
 include/reflex/absmatcher.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 95e7939..687093a 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1227,7 +1227,10 @@ class AbstractMatcher {
         }
         int c = get();
         if (c == EOF)
+        {
+          set_current(end_);
           return false;
+        }
         if (c != static_cast<unsigned char>(*t))
           break;
         ++t;
@@ -1253,7 +1256,7 @@ class AbstractMatcher {
         eof_ = true;
     }
     len_ = end_ - cur_;
-    pos_ = cur_ = end_;
+    set_current(end_);
     DBGLOGN("rest() length = %zu", len_);
     return text();
   }
@@ -1269,10 +1272,8 @@ class AbstractMatcher {
     {
       DBGCHK(pos_ < max_);
       reset_text();
-      pos_ = txt_ - buf_ + n;
-      DBGCHK(pos_ < max_);
       len_ = n;
-      cur_ = pos_;
+      set_current(txt_ - buf_ + n);
     }
   }
   /// Cast this matcher to positive integer indicating the nonzero capture index of the matched text in the pattern, same as AbstractMatcher::accept.
-- 
2.43.0


From 2910bb546591564f13633fa4f02ab5f8d432eab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:05 +0000
Subject: [PATCH 17/65] fix: unput() and wunput() before the begin of the line
 corrupted the buffer window; after EOF the character was not matched

---
 include/reflex/absmatcher.h | 46 +++++++++++++++++++++++++++++++++++--
 1 file changed, 44 insertions(+), 2 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 687093a..c674408 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1014,6 +1014,7 @@ class AbstractMatcher {
     if (pos_ > 0)
     {
       --pos_;
+      backup_text();
     }
     else if (own_)
     {
@@ -1024,30 +1025,46 @@ class AbstractMatcher {
       std::memmove(buf_ + 1, buf_, end_);
       ++end_;
     }
+    else
+    {
+      return;
+    }
     buf_[pos_] = c;
     cur_ = pos_;
+    if (got_ == Const::EOB)
+      got_ = Const::UNK;
   }
   /// Put back one (wide) character on the input character sequence for matching, DANGER: invalidates the previous text() pointer and match info, unput is not honored when matching in-place using buffer(base, size) and nothing has been read yet.
   void wunput(int c) ///< character to put back
   {
     DBGLOG("AbstractMatcher::wunput()");
+    reset_text();
     char tmp[8];
     size_t n = utf8(c, tmp);
     if (pos_ >= n)
     {
       pos_ -= n;
+      backup_text();
     }
     else if (own_)
     {
-      txt_ = buf_;
-      len_ = 0;
+      size_t pos = pos_;
+      pos_ = 0;
+      backup_text();
+      pos_ = pos;
       if (end_ + n >= max_)
         (void)grow();
       std::memmove(buf_ + n, buf_, end_);
       end_ += n;
     }
+    else
+    {
+      return;
+    }
     std::memcpy(&buf_[pos_], tmp, n);
     cur_ = pos_;
+    if (got_ == Const::EOB)
+      got_ = Const::UNK;
   }
   /// Peek at the next character available for reading from the current input source.
   inline int peek()
@@ -1538,6 +1555,31 @@ class AbstractMatcher {
       chr_ = '\0';
     }
   }
+  /// Back up the matched text and the begin of the line when these are located after the current position, as a result of unput().
+  inline void backup_text()
+  {
+    if (txt_ > buf_ + pos_)
+    {
+      txt_ = buf_ + pos_;
+      len_ = 0;
+    }
+#if defined(WITH_SPAN)
+    while (bol_ > buf_ + pos_)
+    {
+      --bol_;
+      if (*bol_ == '\n' && lno_ > 1)
+        --lno_;
+      while (bol_ > buf_ && bol_[-1] != '\n')
+        --bol_;
+    }
+    if (lpb_ > txt_)
+      lpb_ = txt_;
+#else
+    while (lpb_ > txt_)
+      if (*--lpb_ == '\n' && lno_ > 1)
+        --lno_;
+#endif
+  }
   /// Set the current position in the buffer for the next match.
   inline void set_current(size_t loc) ///< new location in buffer
   {
-- 
2.43.0


From 6a8f9f4f001d14a17540e6c4689e5d5d5b5976d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 18/65] fix: find() with a single-string pattern ignored its
 lookahead and that it is negative

Pattern::predict_match_dfa() treated a pattern such as a(?=b) and (?^ab) as the
plain string ab, for which find() returns each occurrence without running the
matcher: the lookahead part became part of the match and negative matches were
returned instead of skipped.
---
 lib/pattern.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 6ddc31e..682a347 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -3065,8 +3065,8 @@ void Pattern::predict_match_dfa(DFA::State *start)
     }
     state = next;
   }
-  if (state != NULL && state->accept > 0 && !state->edges.empty())
-    one_ = false;
+  if (state != NULL && state->accept > 0 && (!state->edges.empty() || state->redo || !state->heads.empty() || !state->tails.empty()))
+    one_ = false; // a negative pattern or a pattern with a lookahead is not just the one string
   min_ = 0;
   std::memset(bit_, 0xFF, sizeof(bit_));
   std::memset(pmh_, 0xFF, sizeof(pmh_));
-- 
2.43.0


From 5c07ea67bf38e5a70c2f469dde01df17c55fd1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:13 +0000
Subject: [PATCH 19/65] fix: \B failed between a letter or digit and an
 underscore

isword() returned the nonzero isalnum() mask for alphanumericals but 1 for an
underscore, the two values are compared to decide \B.
---
 include/reflex/absmatcher.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index c674408..42995f0 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -60,7 +60,7 @@ namespace reflex {
 inline int isword(int c) ///< Character to check
   /// @returns nonzero if argument c is in `[A-Za-z0-9_]`, zero otherwise
 {
-  return std::isalnum(static_cast<unsigned char>(c)) | (c == '_');
+  return (std::isalnum(static_cast<unsigned char>(c)) != 0) | (c == '_');
 }
 
 /// The abstract matcher base class template defines an interface for all pattern matcher engines.
-- 
2.43.0


From d65531ed949c3ccab7889f280df201dcdd7fd2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:47 +0000
Subject: [PATCH 20/65] fix: regex syntax: [..\D], [[:^digit:]], [[:ascii:]],
 quoted ", (?i)\x41, {n,65537}, unclosed \Q

Upper case class escapes and \P{} in a bracket list inverted what was already in
the list; [:^name:] was read as another class or rejected, [:ascii:] was rejected;
an escaped quote at the start of a "quoted" string matched nothing; an escape was
not case-insensitive when it ended the (?i) range; the upper bound of a repeat
wrapped modulo 65536; an unclosed \Q was read beyond the end of the regex.
---
 doc/index.md    |  2 +-
 lib/pattern.cpp | 58 +++++++++++++++++++++++++++++++++++++++----------
 2 files changed, 47 insertions(+), 13 deletions(-)

diff --git a/doc/index.md b/doc/index.md
index 1ebaf2a..0d2fcf8 100644
--- a/doc/index.md
+++ b/doc/index.md
@@ -2608,7 +2608,7 @@ The 7-bit ASCII POSIX character categories are:
   ------------ | ----------------- | ---------------------------------------------
   `[:ascii:]`  | `\p{ASCII}`       | matches any ASCII character
   `[:space:]`  | `\p{Space}`       | matches a white space character `[ \t\n\v\f\r]`
-  `[:xdigit:]` | `\p{Xdigit}`      | matches a hex digit `[0-9A-Fa-f]`
+  `[:xdigit:]` | `\p{XDigit}`      | matches a hex digit `[0-9A-Fa-f]`
   `[:cntrl:]`  | `\p{Cntrl}`       | matches a control character `[\x00-\0x1f\x7f]`
   `[:print:]`  | `\p{Print}`       | matches a printable character `[\x20-\x7e]`
   `[:alnum:]`  | `\p{Alnum}`       | matches a alphanumeric character `[0-9A-Za-z]`
diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 682a347..b2d8ec3 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -389,6 +389,11 @@ void Pattern::parse(
             while ((c = at(++end)) != '\0')
               if (c == opt_.e && at(end + 1) == 'E')
                 break;
+            if (c == '\0') // quotation is not closed, let parse4 report it
+            {
+              end = loc;
+              break;
+            }
           }
         }
         ++end;
@@ -777,9 +782,12 @@ void Pattern::parse3(
       {
         if (std::isdigit(at(loc + 1)))
         {
-          m = 0;
+          k = 0;
           for (Location i = 0; i < 7 && std::isdigit(c = at(++loc)); ++i)
-            m = 10 * m + (c - '0');
+            k = 10 * k + (c - '0');
+          if (k > Position::MAXITER)
+            error(regex_error::exceeds_limits, loc);
+          m = static_cast<Iter>(k);
         }
         else
         {
@@ -1094,7 +1102,6 @@ void Pattern::parse4(
     c = at(loc);
     if (c != '\0' && (quoted ? c != '"' : c != opt_.e || at(loc + 1) != 'E'))
     {
-      firstpos.insert(loc);
       Position p;
       do
       {
@@ -1102,6 +1109,8 @@ void Pattern::parse4(
           ++loc;
         if (p != Position::NPOS)
           followpos[p.pos()].insert(loc);
+        else
+          firstpos.insert(loc);
         p = loc++;
         c = at(loc);
       } while (c != '\0' && (!quoted || c != '"') && (quoted || c != opt_.e || at(loc + 1) != 'E'));
@@ -1240,12 +1249,18 @@ Pattern::Char Pattern::parse_esc(Location& loc, Chars *chars) const
         if (eq_at(loc, posix_class[i]))
           break;
       if (i < 14)
-        posix(i, *chars);
+      {
+        Chars posix_chars;
+        posix(i, posix_chars);
+        if (c == 'P')
+          flip(posix_chars);
+        *chars |= posix_chars;
+        loc += static_cast<Location>(strlen(posix_class[i]));
+      }
       else
+      {
         error(regex_error::invalid_class, loc);
-      if (c == 'P')
-        flip(*chars);
-      loc += static_cast<Location>(strlen(posix_class[i]));
+      }
       if (at(loc) == '}')
         ++loc;
       else
@@ -1278,9 +1293,11 @@ Pattern::Char Pattern::parse_esc(Location& loc, Chars *chars) const
       {
         if (chars != NULL)
         {
-          posix((s - escapes) / 2, *chars);
+          Chars posix_chars;
+          posix((s - escapes) / 2, posix_chars);
           if ((s - escapes) % 2)
-            flip(*chars);
+            flip(posix_chars);
+          *chars |= posix_chars;
         }
         c = META_EOL;
       }
@@ -1872,7 +1889,7 @@ void Pattern::compile_transition(
                       break;
                     default:
                       c = parse_esc(loc, &chars);
-                      if (c <= 'z' && std::isalpha(c) && is_modified('i', modifiers, loc))
+                      if (c <= 'z' && std::isalpha(c) && is_modified('i', modifiers, k->loc()))
                       {
                         chars.insert(uppercase(c));
                         chars.insert(lowercase(c));
@@ -1976,13 +1993,30 @@ void Pattern::compile_list(Location loc, Chars& chars, const Map& modifiers) con
         else
         {
           size_t i;
+          Location n_loc = loc + 2 + (at(loc + 2) == '^');
           for (i = 0; i < 14; ++i)
-            if (eq_at(loc + 4, posix_class[i] + 2)) // ignore first two letters (upper/lower) when matching
+          {
+            // compare the whole name ignoring case
+            size_t n = strlen(posix_class[i]);
+            size_t j = 0;
+            if (c_loc == n_loc + n)
+              while (j < n && lowercase(at(static_cast<Location>(n_loc + j))) == lowercase(posix_class[i][j]))
+                ++j;
+            if (j == n)
               break;
+          }
           if (i < 14)
-            posix(i, chars);
+          {
+            Chars posix_chars;
+            posix(i, posix_chars);
+            if (n_loc > loc + 2)
+              flip(posix_chars);
+            chars |= posix_chars;
+          }
           else
+          {
             error(regex_error::invalid_class, loc);
+          }
           c = META_EOL;
         }
         loc = static_cast<Location>(c_loc + 1);
-- 
2.43.0


From e602b5c832fcdee49ac1dc3ed4c0743d5863870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:30 +0000
Subject: [PATCH 21/65] fix: with option i a (?-i:) alternative matched
 case-insensitively when merged with a string alternative

(?-i:ca)|cab compiled with option i matched cA: the transitions of the string
tree on a letter were merged with those of the regex for both cases of the letter,
though the regex moves cover one case only.
---
 lib/pattern.cpp | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index b2d8ec3..866ccf0 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -1401,12 +1401,18 @@ void Pattern::compile(
                 Positions pos(i->second);
                 if (opt_.i && std::isalpha(c))
                 {
-                  if (c >= 'a' && c <= 'z')
+                  // upper and lower case share a target state, unless a (?-i:) makes their moves differ
+                  Char other = c ^ 0x20;
+                  if (c < 'a' || !common.contains(other))
                   {
-                    DFA::State *target_state = last_state = last_state->next = dfa_.state(state->tnode->edge[c], pos);
+                    DFA::State *target_state = last_state = last_state->next = dfa_.state(state->tnode->edge[lowercase(c)], pos);
                     state->edges[c] = std::pair<Char,DFA::State*>(c, target_state);
-                    state->edges[uppercase(c)] = std::pair<Char,DFA::State*>(uppercase(c), target_state);
-                    eno_ += 2;
+                    ++eno_;
+                    if (common.contains(other))
+                    {
+                      state->edges[other] = std::pair<Char,DFA::State*>(other, target_state);
+                      ++eno_;
+                    }
                   }
                 }
                 else
@@ -1428,12 +1434,6 @@ void Pattern::compile(
             ++i;
           }
         }
-        if (opt_.i)
-        {
-          // normalize by removing upper case if option i (case insensitivem matching) is enabled
-          static const uint64_t upper[5] = { 0x0000000000000000, 0x0000000007FFFFFE, 0, 0, 0 };
-          chars -= Chars(upper);
-        }
         if (chars.any())
         {
           Char lo = chars.lo();
@@ -1442,15 +1442,24 @@ void Pattern::compile(
           {
             if (chars.contains(c))
             {
-              DFA::State *target_state = last_state = last_state->next = dfa_.state(state->tnode->edge[c]);
               if (opt_.i && std::isalpha(c))
               {
-                state->edges[lowercase(c)] = std::pair<Char,DFA::State*>(lowercase(c), target_state);
-                state->edges[uppercase(c)] = std::pair<Char,DFA::State*>(uppercase(c), target_state);
-                eno_ += 2;
+                Char other = c ^ 0x20;
+                if (c < 'a' || !chars.contains(other))
+                {
+                  DFA::State *target_state = last_state = last_state->next = dfa_.state(state->tnode->edge[lowercase(c)]);
+                  state->edges[c] = std::pair<Char,DFA::State*>(c, target_state);
+                  ++eno_;
+                  if (chars.contains(other))
+                  {
+                    state->edges[other] = std::pair<Char,DFA::State*>(other, target_state);
+                    ++eno_;
+                  }
+                }
               }
               else
               {
+                DFA::State *target_state = last_state = last_state->next = dfa_.state(state->tnode->edge[c]);
                 state->edges[c] = std::pair<Char,DFA::State*>(c, target_state);
                 ++eno_;
               }
-- 
2.43.0


From 001998940fec4d140ee0e2fc2d18a98a032042d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:59 +0000
Subject: [PATCH 22/65] fix: utf8() compressed multi-byte patterns wrongly when
 only the next byte was at its limit

---
 lib/utf8.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/utf8.cpp b/lib/utf8.cpp
index a5316f3..d2dd6b8 100644
--- a/lib/utf8.cpp
+++ b/lib/utf8.cpp
@@ -195,10 +195,13 @@ std::string utf8(int a, int b, int esc, const char *par, bool strict)
         ++i;
         while (i + 1 < n)
         {
-          if (as[i + 1] == 0x80) // pattern compression
+          size_t t = i + 1;
+          while (t < n && as[t] == 0x80)
+            ++t;
+          if (t == n) // pattern compression: as[i+1..n-1] == UTF-8 lower bound
           {
             regex.append(regex_range(buf, as[i], 0xbf, esc));
-            for (++i; i < n && as[i] == 0x80; ++i)
+            for (++i; i < n; ++i)
               regex.append(any);
           }
           else
@@ -236,10 +239,13 @@ std::string utf8(int a, int b, int esc, const char *par, bool strict)
         ++i;
         while (i + 1 < n)
         {
-          if (bs[i + 1] == 0xbf) // pattern compression
+          size_t t = i + 1;
+          while (t < n && bs[t] == 0xbf)
+            ++t;
+          if (t == n) // pattern compression: bs[i+1..n-1] == UTF-8 upper bound
           {
             regex.append(regex_range(buf, 0x80, bs[i], esc));
-            for (++i; i < n && bs[i] == 0xbf; ++i)
+            for (++i; i < n; ++i)
               regex.append(any);
           }
           else
-- 
2.43.0


From b1de68ab52a389fdba66c61daa0ff65b64b4ac0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:28 +0000
Subject: [PATCH 23/65] fix: regex syntax errors at the end of the regex read
 past its end; a{65535}{65535} overflowed

---
 include/reflex/pattern.h |  4 ++--
 lib/pattern.cpp          | 18 +++++++++++++++---
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/reflex/pattern.h b/include/reflex/pattern.h
index d9e4597..5a60e37 100644
--- a/include/reflex/pattern.h
+++ b/include/reflex/pattern.h
@@ -771,13 +771,13 @@ class Pattern {
   }
   Char at(Location k) const
   {
-    return static_cast<unsigned char>(rex_[k]);
+    return k < rex_.size() ? static_cast<unsigned char>(rex_[k]) : '\0';
   }
   bool eq_at(
       Location    loc,
       const char *s) const
   {
-    return rex_.compare(loc, strlen(s), s) == 0;
+    return loc <= rex_.size() && rex_.compare(loc, strlen(s), s) == 0;
   }
   Char escape_at(Location loc) const
   {
diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 866ccf0..6b53698 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -36,6 +36,7 @@
 
 #include <reflex/pattern.h>
 #include <reflex/timer.h>
+#include <algorithm>
 #include <cstdlib>
 #include <cerrno>
 #include <cmath>
@@ -154,7 +155,7 @@ const std::string Pattern::operator[](Accept choice) const
 
 void Pattern::error(regex_error_type code, size_t pos) const
 {
-  regex_error err(code, rex_, pos);
+  regex_error err(code, rex_, std::min(pos, rex_.size()));
   if (opt_.w)
     std::cerr << err.what();
   if (code == regex_error::exceeds_limits || opt_.r)
@@ -838,7 +839,7 @@ void Pattern::parse3(
         }
         else if (m > 0)
         {
-          if (iter * m > Position::MAXITER)
+          if (static_cast<uint32_t>(iter) * m > Position::MAXITER)
             error(regex_error::exceeds_limits, loc);
           // update followpos by virtually repeating sub-regex m-1 times
           Follow followpos1;
@@ -1168,6 +1169,11 @@ void Pattern::parse4(
 Pattern::Char Pattern::parse_esc(Location& loc, Chars *chars) const
 {
   Char c = at(++loc);
+  if (c == '\0')
+  {
+    error(regex_error::invalid_escape, loc);
+    return META_EOL;
+  }
   if (c == '0')
   {
     c = 0;
@@ -1221,7 +1227,13 @@ Pattern::Char Pattern::parse_esc(Location& loc, Chars *chars) const
   }
   else if (c == 'c')
   {
-    c = at(++loc) % 32;
+    c = at(++loc);
+    if (c == '\0')
+    {
+      error(regex_error::invalid_escape, loc);
+      return META_EOL;
+    }
+    c %= 32;
     ++loc;
   }
   else if (c == 'e')
-- 
2.43.0


From 812c143fb9aaa275b02a917a490c3fb6e9165b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:28 +0000
Subject: [PATCH 24/65] fix: patterns that iterate an anchor such as (^)* made
 matching loop forever

---
 include/reflex/pattern.h |  3 +++
 lib/pattern.cpp          | 30 ++++++++++++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/include/reflex/pattern.h b/include/reflex/pattern.h
index 5a60e37..05e418b 100644
--- a/include/reflex/pattern.h
+++ b/include/reflex/pattern.h
@@ -712,6 +712,9 @@ class Pattern {
       Follow&     followpos,
       const Map&  modifiers,
       const Map&  lookahead);
+  void trim_metas(
+      DFA::State                       *state,
+      std::map<const DFA::State*,bool>& visited) const;
   void lazy(
       const Lazyset& lazyset,
       Positions&     pos) const;
diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 6b53698..cfe3378 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -1541,11 +1541,41 @@ void Pattern::compile(
     ++vno_;
   }
   delete[] table;
+  std::map<const DFA::State*,bool> visited;
+  for (DFA::State *state = start; state; state = state->next)
+    if (!state->edges.empty() && is_meta(state->edges.rbegin()->first))
+      trim_metas(state, visited);
   tfa_.clear();
   vms_ = timer_elapsed(vt) - ems_;
   DBGLOG("END compile()");
 }
 
+void Pattern::trim_metas(
+    DFA::State                       *state,
+    std::map<const DFA::State*,bool>& visited) const
+{
+  // remove meta edges that cycle back to a state without consuming input, such as in (^)* and ($|\b)+
+  std::pair<std::map<const DFA::State*,bool>::iterator,bool> p = visited.insert(std::pair<const DFA::State*,bool>(state, true));
+  if (!p.second)
+    return;
+  for (DFA::State::Edges::iterator e = state->edges.begin(); e != state->edges.end(); )
+  {
+    DFA::State *target_state = e->second.second;
+    if (is_meta(e->first) && target_state != NULL)
+    {
+      std::map<const DFA::State*,bool>::const_iterator v = visited.find(target_state);
+      if (v != visited.end() && v->second)
+      {
+        state->edges.erase(e++);
+        continue;
+      }
+      trim_metas(target_state, visited);
+    }
+    ++e;
+  }
+  p.first->second = false;
+}
+
 void Pattern::lazy(
     const Lazyset& lazyset,
     Positions&     pos) const
-- 
2.43.0


From b98b276048c587fd6dd636ae9a11f32449890e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:28 +0000
Subject: [PATCH 25/65] fix: regex_error display read past the end of a regex
 that ends with a truncated UTF-8 sequence

---
 lib/error.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/error.cpp b/lib/error.cpp
index 1d16046..7f8989e 100644
--- a/lib/error.cpp
+++ b/lib/error.cpp
@@ -147,8 +147,11 @@ const char *regex_error::disppos(const char *s, size_t k)
         // U+1F18E (UTF-8 F0 9F 86 8E) and higher is usually double width
         if (k < 4)
           break;
-        s += (s[0] != '\0') + (s[1] != '\0') + (s[2] != 0);
-        k -= 3;
+        while (k > 1 && (*s & 0xc0) == 0x80)
+        {
+          ++s;
+          --k;
+        }
       }
       else
       {
-- 
2.43.0


From cd3514fe81018f86a4bbb09a9f3a61aed6554886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:28 +0000
Subject: [PATCH 26/65] fix: convert() hung on a truncated UTF-8 sequence at
 the end; line continuation skipped the next character

---
 lib/convert.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 5c930fb..b48c623 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1157,7 +1157,7 @@ static void convert_escape(const char *pattern, size_t len, size_t& loc, size_t&
       ++pos;
     while (pos < len && ((c = pattern[pos]) == ' ' || c == '\t'))
       ++pos;
-    loc = pos;
+    loc = pos--;
   }
   else if (c == 'c')
   {
@@ -2117,7 +2117,7 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
           // unicode: group UTF-8 sequence
           regex.append(&pattern[loc], pos - loc);
           loc = pos;
-          while (pos + 1 < len && ((c = pattern[++pos]) & 0xC0) == 0x80)
+          while (++pos < len && (pattern[pos] & 0xC0) == 0x80)
             continue;
           if (pos < len &&
               (pattern[pos] == '*' ||
-- 
2.43.0


From a28d100fc4a1bade1795a0df1d20e81f1f4e1f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:28 +0000
Subject: [PATCH 27/65] fix: split() with lookahead, negative patterns or
 indents: skipped input, read past the buffer, returned the negative match or
 wrong columns

---
 include/reflex/matcher.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 53fafaf..0fceb8e 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -403,12 +403,12 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
     anc_ = false; // no word boundary anchor found and applied
 scan:
     txt_ = buf_ + cur_;
+find:
 #if !defined(WITH_NO_INDENT)
     mrk_ = false;
     ind_ = pos_; // ind scans input in buf[] in newline() up to pos - 1
     col_ = 0; // count columns for indent matching
 #endif
-find:
     int c1 = got_;
     bool bol = at_bol(); // at begin of line?
     if (pat_->fsm_ != NULL)
@@ -799,13 +799,24 @@ unrolled:
     if (method == Const::SPLIT)
     {
       DBGLOG("Split: len = %zu cap = %zu cur = %zu pos = %zu end = %zu txt-buf = %zu eob = %d got = %d", len_, cap_, cur_, pos_, end_, txt_-buf_, (int)eof_, got_);
+      if (cap_ == Const::REDO && !opt_.A)
+      {
+        if (cur_ > txt_ - buf_ + len_)
+        {
+          DBGLOG("Split ignore accept and continue: len = %zu", len_);
+          len_ = cur_ - (txt_ - buf_);
+          set_current(cur_);
+          goto find;
+        }
+        cap_ = 0;
+      }
       if (cap_ == 0 || (cur_ == static_cast<size_t>(txt_ - buf_) && !at_bob()))
       {
         if (txt_ + len_ < buf_ + end_ || peek() != EOF)
         {
           ++len_;
           DBGLOG("Split continue: len = %zu", len_);
-          set_current(++cur_);
+          set_current(txt_ - buf_ + len_);
           goto find;
         }
         if (got_ != Const::EOB)
-- 
2.43.0


From 7a0b58749fe1bdf9a1a50de77191b379831c718a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:28 +0000
Subject: [PATCH 28/65] fix: wchr() read past the match and, at the end of
 input, uninitialised buffer space

---
 include/reflex/absmatcher.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index 42995f0..a3354d6 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -604,7 +604,9 @@ class AbstractMatcher {
   inline int wchr() const
     /// @returns wide char (UTF-8 converted to Unicode)
   {
-    return utf8(txt_);
+    char s[5] = { '\0', '\0', '\0', '\0', '\0' };
+    std::memcpy(s, txt_, len_ < 4 ? len_ : 4);
+    return utf8(s);
   }
   /// Set or change the starting line number of the last match.
   inline void lineno(size_t n) ///< new line number
-- 
2.43.0


From c58d7afddc125e02b7ab040669d17a59cb08e4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:28 +0000
Subject: [PATCH 29/65] fix: span() after an empty match (option N) moved back
 before it: find() never ended

---
 include/reflex/absmatcher.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index a3354d6..b9ae519 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1159,7 +1159,8 @@ class AbstractMatcher {
       return txt_;
     reset_text();
     const char *e = eol();
-    set_current(e - buf_);
+    if (cur_ < static_cast<size_t>(e - buf_))
+      set_current(e - buf_);
     len_ = e - bol_;
     return text();
   }
-- 
2.43.0


From aa3259feaa4881fcde89ce45fe8602dbd8d0ef02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:51 +0000
Subject: [PATCH 30/65] fix: size(), operator[] and reachable() of a pattern
 did not count string alternatives

---
 lib/pattern.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index cfe3378..be9c4eb 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -439,6 +439,7 @@ void Pattern::parse(
       }
       if (t->accept == 0)
         t->accept = choice;
+      end_.push_back(loc);
     }
     else
     {
-- 
2.43.0


From 959ba8de9d49d148f3ac16152eba91e74d636490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:51 +0000
Subject: [PATCH 31/65] fix: copied patterns lacked search tables and freed
 uninitialised memory; assigning a pattern twice crashed

---
 include/reflex/pattern.h | 21 +++++++++++++++++++++
 lib/pattern.cpp          |  6 ++++++
 2 files changed, 27 insertions(+)

diff --git a/include/reflex/pattern.h b/include/reflex/pattern.h
index 05e418b..a65a154 100644
--- a/include/reflex/pattern.h
+++ b/include/reflex/pattern.h
@@ -152,6 +152,10 @@ class Pattern {
   }
   /// Copy constructor.
   Pattern(const Pattern& pattern) ///< pattern to copy
+    :
+      opc_(NULL),
+      nop_(0),
+      fsm_(NULL)
   {
     operator=(pattern);
   }
@@ -164,6 +168,10 @@ class Pattern {
   void clear()
   {
     rex_.clear();
+    end_.clear();
+    acc_.clear();
+    tfa_.clear();
+    dfa_.clear();
     if (nop_ > 0 && opc_ != NULL)
       delete[] opc_;
     opc_ = NULL;
@@ -224,6 +232,8 @@ class Pattern {
   /// Assign a (new) pattern.
   Pattern& operator=(const Pattern& pattern)
   {
+    if (this == &pattern)
+      return *this;
     clear();
     opt_ = pattern.opt_;
     rex_ = pattern.rex_;
@@ -245,8 +255,16 @@ class Pattern {
     }
     else
     {
+      opc_ = pattern.opc_;
       fsm_ = pattern.fsm_;
     }
+    len_ = pattern.len_;
+    min_ = pattern.min_;
+    one_ = pattern.one_;
+    std::memcpy(pre_, pattern.pre_, sizeof(pre_));
+    std::memcpy(bit_, pattern.bit_, sizeof(bit_));
+    std::memcpy(pmh_, pattern.pmh_, sizeof(pmh_));
+    std::memcpy(pma_, pattern.pma_, sizeof(pma_));
     return *this;
   }
   /// Assign a (new) pattern.
@@ -507,6 +525,8 @@ class Pattern {
       for (List::iterator i = list.begin(); i != list.end(); ++i)
         delete[] *i;
       list.clear();
+      tree = NULL;
+      next = ALLOC;
     }
     /// return the root of the tree.
     Node *root()
@@ -586,6 +606,7 @@ class Pattern {
       for (List::iterator i = list.begin(); i != list.end(); ++i)
         delete[] *i;
       list.clear();
+      next = ALLOC;
     }
     /// new DFA state with optional tree DFA node.
     State *state(Tree::Node *node)
diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index be9c4eb..2114a06 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -165,6 +165,12 @@ void Pattern::error(regex_error_type code, size_t pos) const
 void Pattern::init(const char *options, const uint8_t *pred)
 {
   init_options(options);
+  vno_ = 0;
+  eno_ = 0;
+  pms_ = 0;
+  vms_ = 0;
+  ems_ = 0;
+  wms_ = 0;
   nop_ = 0;
   len_ = 0;
   min_ = 0;
-- 
2.43.0


From cc9449689f4be961a4e5cfe2da018f6e9d9bc7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:51 +0000
Subject: [PATCH 32/65] fix: stale Boyer-Moore tables and indent stops after
 pattern(), buffer(), reset() and copying a matcher

---
 include/reflex/absmatcher.h |  4 ++++
 include/reflex/matcher.h    | 48 ++++++++++++++++++++++++++++++-------
 2 files changed, 44 insertions(+), 8 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index b9ae519..dc5c598 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -523,6 +523,7 @@ class AbstractMatcher {
       own_ = false;
       eof_ = true;
       mat_ = false;
+      restart();
     }
     return *this;
   }
@@ -1410,6 +1411,9 @@ class AbstractMatcher {
     own_ = false; // require allocation of a buffer
     reset(opt);
   }
+  /// Invoked when matching restarts on a new buffer, to clear the matching state of pattern matching engines derived from AbstractMatcher.
+  virtual void restart()
+  { }
   /// The abstract match operation implemented by pattern matching engines derived from AbstractMatcher.
   virtual size_t match(Method method)
     /// @returns nonzero when input matched the pattern using method Const::SCAN, Const::FIND, Const::SPLIT, or Const::MATCH
diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 0fceb8e..e3b3bc1 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -105,9 +105,7 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
       tab_(matcher.tab_)
   {
     DBGLOG("Matcher::Matcher(matcher)");
-    bmd_ = matcher.bmd_;
-    if (bmd_ != 0)
-      std::memcpy(bms_, matcher.bms_, sizeof(bms_));
+    bmd_ = 0;
   }
   /// Assign a matcher.
   Matcher& operator=(const Matcher& matcher) ///< matcher to copy
@@ -115,9 +113,7 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
     PatternMatcher<reflex::Pattern>::operator=(matcher);
     ded_ = matcher.ded_;
     tab_ = matcher.tab_;
-    bmd_ = matcher.bmd_;
-    if (bmd_ != 0)
-      std::memcpy(bms_, matcher.bms_, sizeof(bms_));
+    bmd_ = 0;
     return *this;
   }
   /// Polymorphic cloning.
@@ -130,9 +126,38 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
   {
     DBGLOG("Matcher::reset()");
     PatternMatcher<reflex::Pattern>::reset(opt);
-    ded_ = 0;
-    tab_.resize(0);
+    Matcher::restart();
+    bmd_ = 0;
+  }
+  /// Get the pattern or set the pattern to use with this matcher as a shared pointer to another matcher pattern.
+  using PatternMatcher<reflex::Pattern>::pattern;
+  /// Set the pattern to use with this matcher (the given pattern is shared and must be persistent).
+  virtual PatternMatcher& pattern(const Pattern& pattern) ///< pattern object for this matcher
+    /// @returns this matcher
+  {
+    bmd_ = 0;
+    return PatternMatcher<reflex::Pattern>::pattern(pattern);
+  }
+  /// Set the pattern to use with this matcher (the given pattern is shared and must be persistent).
+  virtual PatternMatcher& pattern(const Pattern *pattern) ///< pattern object for this matcher
+    /// @returns this matcher
+  {
     bmd_ = 0;
+    return PatternMatcher<reflex::Pattern>::pattern(pattern);
+  }
+  /// Set the pattern from a regex string to use with this matcher.
+  virtual PatternMatcher& pattern(const char *pattern) ///< regex string to instantiate internal pattern object
+    /// @returns this matcher
+  {
+    bmd_ = 0;
+    return PatternMatcher<reflex::Pattern>::pattern(pattern);
+  }
+  /// Set the pattern from a regex string to use with this matcher.
+  virtual PatternMatcher& pattern(const std::string& pattern) ///< regex string to instantiate internal pattern object
+    /// @returns this matcher
+  {
+    bmd_ = 0;
+    return PatternMatcher<reflex::Pattern>::pattern(pattern);
   }
   /// Returns captured text as a std::pair<const char*,size_t> with string pointer (non-0-terminated) and length.
   virtual std::pair<const char*,size_t> operator[](size_t n) const
@@ -959,6 +984,13 @@ unrolled:
     return (col_ <= 0 || (!tab_.empty() && tab_.back() >= col_)) && (tab_.empty() || tab_.back() <= col_);
   }
 #endif
+  /// Clear the indent stops when the matcher is reset or restarted.
+  virtual void restart()
+  {
+    ded_ = 0;
+    tab_.resize(0);
+    stk_ = std::stack<Stops>();
+  }
   /// Boyer-Moore preprocessing of the given pattern pat of length len, generates bmd_ > 0 and bms_[] shifts.
   void boyer_moore_init(
       const char *pat, ///< pattern string
-- 
2.43.0


From 8801088cac285c94d3959ca1bf9f8b4f5eead24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:27 +0000
Subject: [PATCH 33/65] fix: inverted Unicode classes in bracket lists, such as
 [\D], lost characters; \P{..} matched surrogates

---
 lib/convert.cpp | 136 ++++++------------------------------------------
 1 file changed, 17 insertions(+), 119 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index b48c623..1197400 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -98,6 +98,17 @@ static std::string posix_class(const char *s, int esc)
   return regex;
 }
 
+// insert the inverse of a character class, Unicode characters exclude U+D800 to U+DFFF
+static void insert_inverse(const int *wc, bool unicode, ORanges<int>& ranges)
+{
+  ORanges<int> inverse(0x00, unicode ? 0x10FFFF : 0xFF);
+  if (unicode)
+    inverse -= ORanges<int>(0xD800, 0xDFFF);
+  for (; wc[1] != 0; wc += 2)
+    inverse -= ORanges<int>(wc[0], wc[1]);
+  ranges |= inverse;
+}
+
 static std::string unicode_class(const char *s, int esc, convert_flag_type flags, const char *par)
 {
   std::string regex;
@@ -106,52 +117,10 @@ static std::string unicode_class(const char *s, int esc, convert_flag_type flags
   {
     if (s[0] == '^') // inverted class \P{C} or \p{^C}
     {
-      if (wc[0] > 0x00)
-      {
-        if (wc[0] > 0xDFFF)
-        {
-          // exclude U+D800 to U+DFFF
-          regex.assign(utf8(0x00, 0xD7FF, esc, par, !(flags & convert_flag::permissive))).push_back('|');
-          if (wc[0] > 0xE000)
-            regex.append(utf8(0xE000, wc[0] - 1, esc, par, !(flags & convert_flag::permissive))).push_back('|');
-        }
-        else
-        {
-          regex.assign(utf8(0x00, wc[0] - 1, esc, par, !(flags & convert_flag::permissive))).push_back('|');
-        }
-      }
-      int last = wc[1] + 1;
-      wc += 2;
-      for (; wc[1] != 0; wc += 2)
-      {
-        if (last <= 0xD800 && wc[0] > 0xDFFF)
-        {
-          // exclude U+D800 to U+DFFF
-          if (last < 0xD800)
-            regex.append(utf8(last, 0xD7FF, esc, par, !(flags & convert_flag::permissive))).push_back('|');
-          if (wc[0] > 0xE000)
-            regex.append(utf8(0xE000, wc[0] - 1, esc, par, !(flags & convert_flag::permissive))).push_back('|');
-        }
-        else
-        {
-          regex.append(utf8(last, wc[0] - 1, esc, par, !(flags & convert_flag::permissive))).push_back('|');
-        }
-        last = wc[1] + 1;
-      }
-      if (last <= 0x10FFFF)
-      {
-        if (last <= 0xD800)
-        {
-          // exclude U+D800 to U+DFFF
-          if (last < 0xD800)
-            regex.append(utf8(last, 0xD7FF, esc, par, !(flags & convert_flag::permissive))).push_back('|');
-          regex.append(utf8(0xE000, 0x10FFFF, esc, par, !(flags & convert_flag::permissive))).push_back('|');
-        }
-        else
-        {
-          regex.append(utf8(last, 0x10FFFF, esc, par, !(flags & convert_flag::permissive))).push_back('|');
-        }
-      }
+      ORanges<int> inverse;
+      insert_inverse(wc, true, inverse);
+      for (ORanges<int>::const_iterator i = inverse.begin(); i != inverse.end(); ++i)
+        regex.append(utf8(i->first, i->second - 1, esc, par, !(flags & convert_flag::permissive))).push_back('|');
       if (!regex.empty())
         regex.resize(regex.size() - 1);
     }
@@ -534,41 +503,7 @@ static void insert_escape_class(const char *pattern, size_t pos, const std::map<
   }
   else
   {
-    int last = 0x00;
-    for (const int *wc = translated; wc[1] != 0; wc += 2)
-    {
-      if (wc[0] > 0x00)
-      {
-        if (last <= 0xD800 && wc[0] > 0xDFFF)
-        {
-          // exclude U+D800 to U+DFFF
-          if (last < 0xD800)
-            ranges.insert(last, 0xD7FF);
-          if (wc[0] > 0xE000)
-            ranges.insert(0xE000, wc[0] - 1);
-        }
-        else
-        {
-          ranges.insert(last, wc[0] - 1);
-        }
-      }
-      last = wc[1] + 1;
-    }
-    if (is_modified(mod, 'u') && last <= 0x10FFFF)
-    {
-      if (last <= 0xD800)
-      {
-        // exclude U+D800 to U+DFFF
-        if (last < 0xD800)
-          ranges.insert(last, 0xD7FF);
-        ranges.insert(0xE000, 0x10FFFF);
-        ranges.insert(last, 0x10FFFF);
-      }
-    }
-    else if (last <= 0xFF)
-    {
-      ranges.insert(last, 0xFF);
-    }
+    insert_inverse(translated, is_modified(mod, 'u'), ranges);
   }
 }
 
@@ -658,44 +593,7 @@ static int insert_escape(const char *pattern, size_t len, size_t& pos, convert_f
       throw regex_error(regex_error::invalid_class, pattern, pos);
     if (c == 'P' || name.at(0) == '^')
     {
-      int last = 0x00;
-      for (const int *wc = translated; wc[1] != 0; wc += 2)
-      {
-        if (wc[0] > 0x00)
-        {
-          if (last <= 0xD800 && wc[0] > 0xDFFF)
-          {
-            // exclude U+D800 to U+DFFF
-            if (last < 0xD800)
-              ranges.insert(last, 0xD7FF);
-            if (wc[0] > 0xE000)
-              ranges.insert(0xE000, wc[0] - 1);
-          }
-          else
-          {
-            ranges.insert(last, wc[0] - 1);
-          }
-        }
-        last = wc[1] + 1;
-      }
-      if (is_modified(mod, 'u') && last <= 0x10FFFF)
-      {
-        if (last <= 0xD800)
-        {
-          // exclude U+D800 to U+DFFF
-          if (last < 0xD800)
-            ranges.insert(last, 0xD7FF);
-          ranges.insert(0xE000, 0x10FFFF);
-        }
-        else
-        {
-          ranges.insert(last, 0x10FFFF);
-        }
-      }
-      else if (last <= 0xFF)
-      {
-        ranges.insert(last, 0xFF);
-      }
+      insert_inverse(translated, is_modified(mod, 'u'), ranges);
     }
     else
     {
-- 
2.43.0


From 11e06e7a09bedf9acfb545f7a595b54d524cd882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:06 +0000
Subject: [PATCH 34/65] fix: [[:aspace:]], [[:xdfoo:]] and other unknown names
 were accepted as character classes

---
 lib/convert.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 1197400..bbdbafd 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -627,7 +627,7 @@ static int insert_escape(const char *pattern, size_t len, size_t& pos, convert_f
 static void insert_posix_class(const char *pattern, size_t len, size_t& pos, ORanges<int>& ranges)
 {
   pos += 2;
-  char buf[8] = "";
+  char buf[9] = "";
   char *name = buf;
   while (pos + 1 < len && name < buf + sizeof(buf) - 1 && (pattern[pos] != ':' || pattern[pos + 1] != ']'))
     *name++ = pattern[pos++];
@@ -638,9 +638,9 @@ static void insert_posix_class(const char *pattern, size_t len, size_t& pos, ORa
   if (name[1] != '\0')
   {
     name[0] = uppercase(name[0]);
-    if (name[0] == 'X' && name[1] == 'd')
+    if (strcmp(name, "Xdigit") == 0)
       name = const_cast<char*>("XDigit");
-    else if (name[0] == 'A' && name[1] == 's')
+    else if (strcmp(name, "Ascii") == 0)
       name = const_cast<char*>("ASCII");
   }
   const int *translated = Posix::range(name);
-- 
2.43.0


From 57ccb9135e0919a4f4ff890cf96e04a34aceb66f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:39 +0000
Subject: [PATCH 35/65] fix: convert() translated [[:>:]] to \<, \B to \y and
 \Y to \b

---
 lib/convert.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index bbdbafd..d4ab699 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -995,7 +995,7 @@ static void convert_escape_char(const char *pattern, size_t len, size_t& loc, si
         if (!supports_escape(signature, 'Y'))
           throw regex_error(regex_error::invalid_anchor, pattern, pos);
         // translate \B to \Y
-        regex.append(&pattern[loc], pos - loc - 1).append("\\y");
+        regex.append(&pattern[loc], pos - loc - 1).append("\\Y");
         loc = pos + 1;
       }
       else if (c == 'Y')
@@ -1003,7 +1003,7 @@ static void convert_escape_char(const char *pattern, size_t len, size_t& loc, si
         if (!supports_escape(signature, 'B'))
           throw regex_error(regex_error::invalid_anchor, pattern, pos);
         // translate \Y to \B
-        regex.append(&pattern[loc], pos - loc - 1).append("\\b");
+        regex.append(&pattern[loc], pos - loc - 1).append("\\B");
         loc = pos + 1;
       }
       else if (c == '<')
@@ -1709,11 +1709,11 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
             if (!supports_escape(signature, 'b') || !supports_escape(signature, 'w') || !supports_modifier(signature, '<'))
               throw regex_error(regex_error::invalid_anchor, pattern, pos);
             // translate \< to \b(?<=\w)
-            regex.append(&pattern[loc], pos - loc - 1).append("\\b(?<=\\w)");
+            regex.append(&pattern[loc], pos - loc).append("\\b(?<=\\w)");
           }
           else
           {
-            regex.append(&pattern[loc], pos - loc).append("\\<");
+            regex.append(&pattern[loc], pos - loc).append("\\>");
           }
           pos += 6;
           loc = pos + 1;
-- 
2.43.0


From 2b43cfd39de7284857ea00980d99d2948ba9948f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:07 +0000
Subject: [PATCH 36/65] fix: Unicode \s and \p{Space} did not match U+0085,
 U+2028 and U+2029 as documented

---
 unicode/language_scripts.cpp | 2 ++
 unicode/language_scripts.l   | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/unicode/language_scripts.cpp b/unicode/language_scripts.cpp
index 08fd4eb..907db04 100644
--- a/unicode/language_scripts.cpp
+++ b/unicode/language_scripts.cpp
@@ -9160,9 +9160,11 @@ void reflex::Unicode::Tables::language_scripts(void)
   static const int Space[] = {
     9, 13,
     32, 32,
+    133, 133,
     160, 160,
     5760, 5760,
     8192, 8202,
+    8232, 8233,
     8239, 8239,
     8287, 8287,
     12288, 12288,
diff --git a/unicode/language_scripts.l b/unicode/language_scripts.l
index 3af5705..fa5363b 100644
--- a/unicode/language_scripts.l
+++ b/unicode/language_scripts.l
@@ -85,8 +85,8 @@ int main()
   (p["Unicode"]           = Chars(0x00, 0x10FFFF)) -= Chars(0xD800, 0xDFFF);
   (p["Non_ASCII_Unicode"] = p["Unicode"])          -= p["ASCII"];
 
-  // Add Unicode Space, includes blank characters HT (9), LF (10), VT (11), FF (12), CR (13)
-  (p["Space"] = p["Zs"]) |= Chars(0x09, 0x0D);
+  // Add Unicode Space, includes blank characters HT (9), LF (10), VT (11), FF (12), CR (13), NEL (133)
+  ((p["Space"] = p["Z"]) |= Chars(0x09, 0x0D)) |= Chars(0x85);
 
   // Add Unicode Word
   ((p["Word"]  = p["L"]) |= p["Nd"]) |= p["Pc"];
-- 
2.43.0


From 3f6f087f46b14cd209f11c22e63081f13dc1df3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:31 +0000
Subject: [PATCH 37/65] fix: convert() put raw bytes 0x80 and above in bracket
 lists as negative values

---
 lib/convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index d4ab699..9529ec8 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -807,7 +807,7 @@ static void insert_list(const char *pattern, size_t len, size_t& pos, convert_fl
   }
   while (pos + 1 < len)
   {
-    int c = pattern[pos];
+    int c = static_cast<unsigned char>(pattern[pos]);
     if (c == '\\')
     {
       ++pos;
-- 
2.43.0


From 3d84030ef83f4913cc0af53afcacda4f96a95c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:08 +0000
Subject: [PATCH 38/65] fix: convert() inverted the whole union of [a||[^b]]
 instead of the second list only

---
 lib/convert.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 9529ec8..1d6a612 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -670,10 +670,12 @@ static void insert_list(const char *pattern, size_t len, size_t& pos, convert_fl
 
 static void merge_list(const char *pattern, size_t len, size_t& pos, convert_flag_type flags, const std::map<size_t,std::string>& mod, ORanges<int>& ranges, const std::map<std::string,std::string> *macros)
 {
+  ORanges<int> merge;
   if (pattern[pos] == '[')
   {
     ++pos;
-    insert_list(pattern, len, pos, flags, mod, ranges, macros);
+    insert_list(pattern, len, pos, flags, mod, merge, macros);
+    ranges |= merge;
   }
   else if (pattern[pos] == '{' && macros != NULL)
   {
@@ -682,7 +684,8 @@ static void merge_list(const char *pattern, size_t len, size_t& pos, convert_fla
     if (list.size() < 2 || list.at(0) != '[')
       throw regex_error(regex_error::invalid_class_range, pattern, pos);
     size_t subpos = 1;
-    insert_list(list.c_str(), list.size(), subpos, flags, mod, ranges, macros);
+    insert_list(list.c_str(), list.size(), subpos, flags, mod, merge, macros);
+    ranges |= merge;
     if (subpos + 1 < list.size())
       throw regex_error(regex_error::invalid_class_range, pattern, pos);
   }
-- 
2.43.0


From b0cb20a15e66517dc6c880d99dede552a0b1a403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:46 +0000
Subject: [PATCH 39/65] fix: convert() ignored the modifiers (?x), (?i) and
 (?-isx) that it passes on to the target

---
 lib/convert.cpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 1d6a612..625de21 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -172,6 +172,19 @@ inline bool is_modified(const std::map<size_t,std::string>& mod, int c)
   return false;
 }
 
+// track a modifier that is passed on to the target regex library: (?x) removes spacing and comments, (?i) case-folds character classes before they are inverted, intersected or subtracted ('j'), and a (?-isx) ends flags anycase, dotall and freespace
+inline void pass_modifier(int c, bool invert, std::map<size_t,std::string>& mod, size_t lev)
+{
+  if (c != 'i' && c != 's' && c != 'x')
+    return;
+  if (invert)
+    mod[lev].push_back(uppercase(c));
+  else if (c == 'x')
+    mod[lev].push_back(c);
+  if (c == 'i')
+    mod[lev].push_back(invert ? 'J' : 'j');
+}
+
 inline bool supports_modifier(const char *signature, int c)
 {
   const char *escapes = std::strchr(signature, ':');
@@ -1337,6 +1350,7 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
         if (supports_modifier(signature, pattern[k]))
         {
           mods.push_back(pattern[k]);
+          pass_modifier(pattern[k], false, mod, lev);
         }
         else if (pattern[k] == 'm')
         {
@@ -1350,11 +1364,18 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
       else
       {
         if (supports_modifier(signature, pattern[k]))
+        {
           unmods.push_back(pattern[k]);
+          pass_modifier(pattern[k], true, mod, lev);
+        }
         else if (pattern[k] == 'm')
+        {
           throw regex_error(regex_error::invalid_modifier, pattern, pos);
+        }
         else
+        {
           disable_modifier(pattern[k], pattern, k, mod, lev);
+        }
       }
       ++k;
     }
@@ -1546,16 +1567,26 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
                   else if (!invert)
                   {
                     if (supports_modifier(signature, pattern[k]))
+                    {
                       mods.push_back(pattern[k]);
+                      pass_modifier(pattern[k], false, mod, lev);
+                    }
                     else
+                    {
                       enable_modifier(pattern[k], pattern, k, mod, lev);
+                    }
                   }
                   else
                   {
                     if (supports_modifier(signature, pattern[k]))
+                    {
                       unmods.push_back(pattern[k]);
+                      pass_modifier(pattern[k], true, mod, lev);
+                    }
                     else
+                    {
                       disable_modifier(pattern[k], pattern, k, mod, lev);
+                    }
                   }
                   ++k;
                 }
-- 
2.43.0


From 247c8ec6c2b29bbc3b1f3bd48768d0111715a125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:23 +0000
Subject: [PATCH 40/65] fix: convert() did not group multibyte UTF-8 characters
 and classes before a quantifier

---
 lib/convert.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 625de21..d5b5dbd 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -112,6 +112,7 @@ static void insert_inverse(const int *wc, bool unicode, ORanges<int>& ranges)
 static std::string unicode_class(const char *s, int esc, convert_flag_type flags, const char *par)
 {
   std::string regex;
+  bool multi = false;
   const int *wc = Unicode::range(s + (s[0] == '^'));
   if (wc != NULL)
   {
@@ -121,18 +122,29 @@ static std::string unicode_class(const char *s, int esc, convert_flag_type flags
       insert_inverse(wc, true, inverse);
       for (ORanges<int>::const_iterator i = inverse.begin(); i != inverse.end(); ++i)
         regex.append(utf8(i->first, i->second - 1, esc, par, !(flags & convert_flag::permissive))).push_back('|');
+      multi = inverse.hi() > 0x7F;
       if (!regex.empty())
         regex.resize(regex.size() - 1);
     }
     else
     {
+      multi = wc[1] > 0x7F;
       regex.assign(utf8(wc[0], wc[1], esc, par, !(flags & convert_flag::permissive)));
       wc += 2;
       for (; wc[1] != 0; wc += 2)
         regex.append("|").append(utf8(wc[0], wc[1], esc, par, !(flags & convert_flag::permissive)));
     }
   }
-  if (regex.find('|') != std::string::npos)
+  if (multi || regex.find('|') != std::string::npos)
+    regex.insert(0, par).push_back(')');
+  return regex;
+}
+
+// convert a Unicode code point to a UTF-8 regex, grouped when multibyte to let a quantifier apply to the character
+static std::string utf8_char(int wc, int esc, const char *par)
+{
+  std::string regex = utf8(wc, wc, esc, par);
+  if (wc > 0x7F)
     regex.insert(0, par).push_back(')');
   return regex;
 }
@@ -1139,7 +1151,7 @@ static void convert_escape(const char *pattern, size_t len, size_t& loc, size_t&
     {
       int esc = hex_or_octal_escape(signature);
       if (is_modified(mod, 'u'))
-        regex.append(&pattern[loc], pos - loc - 1).append(utf8(wc, wc, esc, par));
+        regex.append(&pattern[loc], pos - loc - 1).append(utf8_char(wc, esc, par));
       else
         regex.append(&pattern[loc], pos - loc - 1).append(latin1(wc, wc, esc));
     }
@@ -1186,7 +1198,7 @@ static void convert_escape(const char *pattern, size_t len, size_t& loc, size_t&
           {
             int esc = hex_or_octal_escape(signature);
             if (is_modified(mod, 'u'))
-              regex.append(&pattern[loc], pos - loc - 1).append(utf8(wc, wc, esc, par));
+              regex.append(&pattern[loc], pos - loc - 1).append(utf8_char(wc, esc, par));
             else
               regex.append(&pattern[loc], pos - loc - 1).append(latin1(wc, wc, esc));
           }
-- 
2.43.0


From 928a960d3cb050321f11b47bf628dda0cd759a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:59 +0000
Subject: [PATCH 41/65] fix: convert() inverted, intersected and subtracted
 character classes before case folding

---
 lib/convert.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index d5b5dbd..1d8bace 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -800,10 +800,15 @@ static void extend_list(const char *pattern, size_t len, size_t& pos, convert_fl
   }
 }
 
-static void negate_list(convert_flag_type flags, const std::map<size_t,std::string>& mod, ORanges<int>& ranges)
+// case-fold a character class before it is inverted, intersected or subtracted, also when (?i) is passed on to the target
+static void fold_list(const std::map<size_t,std::string>& mod, ORanges<int>& ranges)
 {
-  if (is_modified(mod, 'i'))
+  if (is_modified(mod, 'i') || is_modified(mod, 'j'))
     convert_anycase_ranges(ranges);
+}
+
+static void negate_list(convert_flag_type flags, const std::map<size_t,std::string>& mod, ORanges<int>& ranges)
+{
   if (is_modified(mod, 'u'))
   {
     ORanges<int> inverse(0x00, 0x10FFFF);
@@ -872,6 +877,7 @@ static void insert_list(const char *pattern, size_t len, size_t& pos, convert_fl
       if (range)
         throw regex_error(regex_error::invalid_class_range, pattern, pos);
       pos += 2;
+      fold_list(mod, ranges);
       intersect_list(pattern, len, pos, flags, mod, ranges, macros);
       pc = -1;
     }
@@ -881,6 +887,7 @@ static void insert_list(const char *pattern, size_t len, size_t& pos, convert_fl
       if (range)
         throw regex_error(regex_error::invalid_class_range, pattern, pos);
       pos += 2;
+      fold_list(mod, ranges);
       subtract_list(pattern, len, pos, flags, mod, ranges, macros);
       pc = -1;
     }
@@ -926,6 +933,7 @@ static void insert_list(const char *pattern, size_t len, size_t& pos, convert_fl
   }
   if (pos >= len || pattern[pos] != ']')
     throw regex_error(regex_error::mismatched_brackets, pattern, loc);
+  fold_list(mod, ranges);
   if (negate)
     negate_list(flags, mod, ranges);
   extend_list(pattern, len, pos, flags, mod, ranges, macros);
-- 
2.43.0


From 3b6f09116e3044a84a324142f66438e6c7939176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:40 +0000
Subject: [PATCH 42/65] fix: convert_flag::anycase had no effect on \Q...\E and
 quoted strings

---
 lib/convert.cpp | 72 +++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 72 insertions(+)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 1d8bace..58596b6 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -197,6 +197,44 @@ inline void pass_modifier(int c, bool invert, std::map<size_t,std::string>& mod,
     mod[lev].push_back(invert ? 'J' : 'j');
 }
 
+inline bool anycase_letter(const std::map<size_t,std::string>& mod, int c)
+{
+  return ((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z')) && is_modified(mod, 'i');
+}
+
+inline std::string anycase_list(int c)
+{
+  std::string list("[");
+  list.push_back(uppercase(c));
+  list.push_back(lowercase(c));
+  list.push_back(']');
+  return list;
+}
+
+// anycase: quote text with \Q...\E except for letters A that are translated to [Aa] and \ that is escaped
+static std::string anycase_quote(const std::string& text)
+{
+  std::string regex;
+  bool quote = false;
+  for (std::string::const_iterator i = text.begin(); i != text.end(); ++i)
+  {
+    bool letter = (*i >= 'A' && *i <= 'Z') || (*i >= 'a' && *i <= 'z');
+    bool quoted = !letter && *i != '\\';
+    if (quote != quoted)
+      regex.append(quoted ? "\\Q" : "\\E");
+    quote = quoted;
+    if (letter)
+      regex.append(anycase_list(*i));
+    else if (quoted)
+      regex.push_back(*i);
+    else
+      regex.append("\\\\");
+  }
+  if (quote)
+    regex.append("\\E");
+  return regex;
+}
+
 inline bool supports_modifier(const char *signature, int c)
 {
   const char *escapes = std::strchr(signature, ':');
@@ -1453,6 +1491,12 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
                 regex.append(&pattern[loc], pos - loc).push_back('\\');
                 loc = pos;
               }
+              else if (anycase_letter(mod, pattern[pos]))
+              {
+                // anycase: translate A to [Aa]
+                regex.append(&pattern[loc], pos - loc).append(anycase_list(pattern[pos]));
+                loc = pos + 1;
+              }
               ++pos;
             }
             if (pos + 1 >= len || pattern[pos] != '\\')
@@ -1472,6 +1516,12 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
               throw regex_error(regex_error::mismatched_quotation, pattern, k);
             if (k < pos)
               beg = false;
+            if (is_modified(mod, 'i'))
+            {
+              // anycase: translate letters A to [Aa]
+              regex.append(&pattern[loc], k - 2 - loc).append(anycase_quote(std::string(pattern, k, pos - k)));
+              loc = pos + 2;
+            }
           }
           ++pos;
         }
@@ -1814,12 +1864,34 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
                 regex.append(&pattern[loc], pos - loc).push_back('\\');
                 loc = pos;
               }
+              else if (anycase_letter(mod, pattern[pos]))
+              {
+                // anycase: translate A to [Aa]
+                regex.append(&pattern[loc], pos - loc).append(anycase_list(pattern[pos]));
+                loc = pos + 1;
+              }
               ++pos;
             }
             regex.append(&pattern[loc], pos - loc).push_back(')');
             if (k < pos)
               beg = false;
           }
+          else if (is_modified(mod, 'i'))
+          {
+            // anycase: translate letters A of "..." to [Aa] and other characters to \Q...\E while removing \ from \"
+            std::string text;
+            regex.append(&pattern[loc], pos - loc);
+            size_t k = loc = ++pos;
+            while (pos < len && pattern[pos] != '"')
+            {
+              if (pattern[pos] == '\\' && pos + 1 < len && pattern[pos + 1] == '"')
+                ++pos;
+              text.push_back(pattern[pos++]);
+            }
+            regex.append(par).append(anycase_quote(text)).push_back(')');
+            if (k < pos)
+              beg = false;
+          }
           else
           {
             // translate "..." to \Q...\E while removing \ from \" and translating \E to \E\\E\Q (or perhaps \\EE\Q)
-- 
2.43.0


From f1ec0202ca931f04165747f87f5ec1eca4952286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:22 +0000
Subject: [PATCH 43/65] fix: convert_flag::multiline was ignored for a regex
 that starts with a group (?

---
 lib/convert.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 58596b6..ef6f283 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1455,6 +1455,8 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
     else
     {
       mod[lev].clear();
+      if ((flags & convert_flag::multiline))
+        regex.assign("(?m)");
     }
   }
   else if ((flags & convert_flag::multiline))
-- 
2.43.0


From 99d5c5fa94d801afd46e78eba4f4f38c6e8402a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:13 +0000
Subject: [PATCH 44/65] fix: convert() translated an escaped \# to the start of
 a comment in (?x) mode

---
 lib/convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index ef6f283..95fb335 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -988,7 +988,7 @@ static void insert_list(const char *pattern, size_t len, size_t& pos, convert_fl
 static void convert_escape_char(const char *pattern, size_t len, size_t& loc, size_t& pos, convert_flag_type flags, const char *signature, const std::map<size_t,std::string>& mod, const char *par, std::string& regex)
 {
   int c = pattern[pos];
-  if (std::strchr(regex_unescapes, c) != NULL)
+  if (std::strchr(regex_unescapes, c) != NULL && (c != '#' || !is_modified(mod, 'x')))
   {
     // translate \x to x
     regex.append(&pattern[loc], pos - loc - 1);
-- 
2.43.0


From 9c966c2a55ede612ac3e1548684fe7e67f5081c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:04 +0000
Subject: [PATCH 45/65] fix: convert() did not group a translated \Q...\E
 before a quantifier

---
 lib/convert.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 95fb335..8d7fb53 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1484,7 +1484,7 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
           if (!supports_escape(signature, 'Q'))
           {
             // \Q is not a supported escape, translate by grouping and escaping meta chars up to the closing \E
-            regex.append(&pattern[loc], pos - loc - 1);
+            regex.append(&pattern[loc], pos - loc - 1).append(par);
             size_t k = loc = ++pos;
             while (pos + 1 < len && (pattern[pos] != '\\' || pattern[pos + 1] != 'E'))
             {
@@ -1505,7 +1505,7 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
               throw regex_error(regex_error::mismatched_quotation, pattern, k);
             if (k < pos)
               beg = false;
-            regex.append(&pattern[loc], pos - loc);
+            regex.append(&pattern[loc], pos - loc).push_back(')');
             loc = pos + 2;
           }
           else
@@ -1521,7 +1521,7 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
             if (is_modified(mod, 'i'))
             {
               // anycase: translate letters A to [Aa]
-              regex.append(&pattern[loc], k - 2 - loc).append(anycase_quote(std::string(pattern, k, pos - k)));
+              regex.append(&pattern[loc], k - 2 - loc).append(par).append(anycase_quote(std::string(pattern, k, pos - k))).push_back(')');
               loc = pos + 2;
             }
           }
-- 
2.43.0


From eb84b76504acd22dbadce40a1bba41598d1f2b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:39 +0000
Subject: [PATCH 46/65] fix: convert() dropped the opening parenthesis of
 (?:...) for targets without (?:

---
 lib/convert.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/convert.cpp b/lib/convert.cpp
index 8d7fb53..430a73e 100644
--- a/lib/convert.cpp
+++ b/lib/convert.cpp
@@ -1695,6 +1695,10 @@ std::string convert(const char *pattern, const char *signature, convert_flag_typ
                         regex.append("-").append(unmods);
                       regex.push_back(':');
                     }
+                    else
+                    {
+                      regex.append(par);
+                    }
                   }
                   pos = k;
                   loc = pos + 1;
-- 
2.43.0


From bb68bbfdab4061a799bf7292251d4b84e4fa9f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:07 +0000
Subject: [PATCH 47/65] fix: copied and assigned FuzzyMatchers lost the edit
 flags and the backtrack stack size

---
 fuzzy/fuzzymatcher.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index 2f8fd0f..aaec391 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -134,9 +134,9 @@ class FuzzyMatcher : public Matcher {
       Matcher(matcher),
       max_(matcher.max_),
       err_(0),
-      ins_(true),
-      del_(true),
-      sub_(true)
+      ins_(matcher.ins_),
+      del_(matcher.del_),
+      sub_(matcher.sub_)
   {
     DBGLOG("FuzzyMatcher::FuzzyMatcher(matcher)");
     bpt_.resize(max_);
@@ -150,6 +150,7 @@ class FuzzyMatcher : public Matcher {
     ins_ = matcher.ins_;
     del_ = matcher.del_;
     sub_ = matcher.sub_;
+    bpt_.resize(max_);
     return *this;
   }
   /// Polymorphic cloning.
-- 
2.43.0


From dbdb71dcb2848e7159191bda6ad71ad77d19d45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:07 +0000
Subject: [PATCH 48/65] fix: FuzzyMatcher matches() accepted text beyond the
 max edits and skipped trailing newlines, NULs and text without the INS flag

---
 fuzzy/fuzzymatcher.h | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index aaec391..bfc1c1d 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -663,32 +663,35 @@ unrolled:
         // match, i.e. cap_ > 0?
         if (method == Const::MATCH)
         {
-          // exit fuzzy loop if fuzzy match succeeds till end of input
           if (cap_ > 0)
           {
-            if (c1 == EOF)
-              break;
-            while (err_ < max_)
+            // fuzzy match succeeds when the input after the match ends or has extra chars to skip, but not NUL and LF
+            size_t len = pos_ - (txt_ - buf_);
+            uint8_t err = err_;
+            int c2;
+            pos_ = cur_;
+            while ((c2 = get()) != EOF && ins_ && err_ < max_ && c2 != '\0' && c2 != '\n')
             {
-              c1 = get();
-              if (c1 == EOF)
-                break;
               // skip one (multibyte) char
-              if (c1 >= 0xC0)
+              if (c2 >= 0xC0)
               {
-                int n = (c1 >= 0xE0) + (c1 >= 0xF0);
+                int n = (c2 >= 0xE0) + (c2 >= 0xF0);
                 while (n-- >= 0)
-                  if ((c1 = get()) == EOF)
+                  if ((c2 = get()) == EOF)
                     break;
               }
               ++err_;
             }
-            if (at_end())
+            if (c2 == EOF)
             {
               DBGLOG("match pos = %zu", pos_);
               set_current(pos_);
               break;
             }
+            // not a match till the end of input, continue fuzzy matching
+            cap_ = 0;
+            pos_ = txt_ - buf_ + len;
+            err_ = err;
           }
         }
         else
-- 
2.43.0


From 2041246affdf37a7eb13687bc4d9996bcd63fb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:07 +0000
Subject: [PATCH 49/65] fix: FuzzyMatcher deleted characters with the SUB flag
 without DEL, and wasted edits without INS

---
 fuzzy/fuzzymatcher.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index bfc1c1d..b52a552 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -218,8 +218,8 @@ class FuzzyMatcher : public Matcher {
     bpt.pc1 = pc;
     bpt.len = pos_ - (txt_ - buf_) - !eof;
     bpt.err = err_;
-    bpt.alt = sub_ && alternate;
-    bpt.sub = bpt.alt;
+    bpt.alt = del_ && sub_ && alternate;
+    bpt.sub = sub_ && alternate;
   }
   /// backtrack on a backtrack point to insert or substitute a pattern char, restoring current text char matched and errors.
   const Pattern::Opcode *backtrack(BacktrackPoint& bpt, int& c1)
@@ -281,7 +281,8 @@ class FuzzyMatcher : public Matcher {
           if ((c = get()) == EOF)
             break;
       }
-      bpt.sub = false;
+      // next insert a pattern char, or substitute with the next goto opcode when insertion is not allowed
+      bpt.sub = !bpt.alt;
       bpt.pc1 += !bpt.alt;
     }
     else
@@ -752,11 +753,18 @@ unrolled:
               pc = pc0;
               DBGLOG("delete %c at pos %zu", c1, pos_ - 1);
             }
+            else
+            {
+              pc = NULL;
+            }
           }
           else
           {
-            // try insertion or substitution of pattern char
             pc = NULL;
+          }
+          if (pc == NULL)
+          {
+            // try insertion or substitution of pattern char
             while (stack > 0 && pc == NULL)
             {
               pc = backtrack(bpt_[stack - 1], c1);
-- 
2.43.0


From 6eca4b1a06a43fe0a2f750c0a1eabda3ca006ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:07 +0000
Subject: [PATCH 50/65] fix: FuzzyMatcher matches() rejected empty input within
 the max edits

---
 fuzzy/fuzzymatcher.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index b52a552..407af6b 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -658,8 +658,8 @@ unrolled:
           }
           pc = pat_->opc_ + jump;
         }
-        // exit fuzzy loop if nothing consumed
-        if (pos_ == static_cast<size_t>(txt_ + len_ - buf_))
+        // exit fuzzy loop if nothing consumed, unless matching empty input with missing chars
+        if (pos_ == static_cast<size_t>(txt_ + len_ - buf_) && (method != Const::MATCH || c1 != EOF))
           break;
         // match, i.e. cap_ > 0?
         if (method == Const::MATCH)
-- 
2.43.0


From c3b0986452234010052b6d5906d31aaf04636f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:07 +0000
Subject: [PATCH 51/65] fix: FuzzyMatcher split multibyte characters and
 counted edits of their bytes

---
 fuzzy/fuzzymatcher.h | 46 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index 407af6b..db8fca0 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -208,6 +208,30 @@ class FuzzyMatcher : public Matcher {
     bool                   alt; ///< true if alternating between pattern char substitution and insertion, otherwise insertion only
     bool                   sub; ///< flag alternates between pattern char substitution (true) and insertion (false)
   };
+  /// Back up to the first byte of a multibyte char when its last byte read is a continuation byte.
+  bool backup(int& c1) ///< last byte read, set to the first byte of the multibyte char
+    /// @returns true if backed up
+  {
+    if (c1 < 0x80 || c1 >= 0xC0)
+      return false;
+    size_t n = 1;
+    while (n < 4 && pos_ > n && pos_ - n > static_cast<size_t>(txt_ - buf_) && (buf_[pos_ - n] & 0xC0) == 0x80)
+      ++n;
+    int c = static_cast<unsigned char>(buf_[pos_ - n]);
+    if (c < 0xC0 || n > 2U + (c >= 0xE0) + (c >= 0xF0))
+      return false;
+    pos_ -= n - 1;
+    c1 = c;
+    return true;
+  }
+  /// Returns true if the opcode is in the middle of a multibyte char in the pattern, where no edits are made.
+  static bool inside(const Pattern::Opcode *pc)
+    /// @returns true if opcode jumps on UTF-8 continuation bytes
+  {
+    while (!Pattern::is_opcode_goto(*pc))
+      ++pc;
+    return !Pattern::is_opcode_halt(*pc) && (Pattern::lo_of(*pc) & 0xC0) == 0x80;
+  }
   /// Set backtrack point.
   void point(BacktrackPoint& bpt, const Pattern::Opcode *pc, bool alternate = true, bool eof = false)
   {
@@ -248,13 +272,13 @@ class FuzzyMatcher : public Matcher {
         const Pattern::Opcode *pc1 = pc0;
         while (!Pattern::is_opcode_goto(*pc1))
           ++pc1;
-        if (!Pattern::is_opcode_goto(*pc1) || Pattern::is_meta(Pattern::lo_of(*pc1)) || (Pattern::lo_of(*pc1) & 0x80) != 0x80)
+        if (!Pattern::is_opcode_goto(*pc1) || Pattern::is_meta(Pattern::lo_of(*pc1)) || (Pattern::lo_of(*pc1) & 0xC0) != 0x80)
           break;
         bpt.pc0 = pc0;
         bpt.pc1 = pc1;
       }
       jump = Pattern::index_of(*bpt.pc1);
-      bpt.sub = bpt.alt;
+      bpt.sub = bpt.alt || !del_;
       DBGLOG("Multibyte jump to %u", jump);
     }
     if (jump == Pattern::Const::LONG)
@@ -323,6 +347,7 @@ redo:
       err_ = 0;
       uint8_t stack = 0;
       const Pattern::Opcode *pc = pat_->opc_;
+      const Pattern::Opcode *pcm = pc; // start of opcode at the first byte of a multibyte char
       while (true)
       {
         const Pattern::Opcode *pc0;
@@ -385,6 +410,8 @@ redo:
               break;
             int c0 = c1;
             c1 = get();
+            if ((c1 & 0xC0) != 0x80)
+              pcm = pc0;
             DBGLOG("Get: c1 = %d", c1);
             // where to jump back to (backtrack on meta transitions)
             Pattern::Index back = Pattern::Const::IMAX;
@@ -601,6 +628,8 @@ redo:
             if (c1 == EOF)
               break;
             c1 = get();
+            if ((c1 & 0xC0) != 0x80)
+              pcm = pc0;
             DBGLOG("Get: c1 = %d", c1);
             if (c1 == EOF)
               break;
@@ -661,6 +690,9 @@ unrolled:
         // exit fuzzy loop if nothing consumed, unless matching empty input with missing chars
         if (pos_ == static_cast<size_t>(txt_ + len_ - buf_) && (method != Const::MATCH || c1 != EOF))
           break;
+        // a mismatching byte in a multibyte char is a mismatch of the char, back up to its first byte
+        if (cap_ == 0 && backup(c1))
+          pc0 = pcm;
         // match, i.e. cap_ > 0?
         if (method == Const::MATCH)
         {
@@ -693,6 +725,8 @@ unrolled:
             cap_ = 0;
             pos_ = txt_ - buf_ + len;
             err_ = err;
+            if (backup(c1))
+              pc0 = pcm;
           }
         }
         else
@@ -705,11 +739,11 @@ unrolled:
         if (c1 == '\0' || c1 == '\n' || c1 == EOF)
         {
           // do not try to fuzzy match NUL, LF, or EOF
-          if (err_ < max_ && del_)
+          if (err_ < max_ && del_ && !inside(pc0))
           {
             ++err_;
             // set backtrack point to insert pattern char only, not substitute, if pc0 os a different point than the last
-            if (stack == 0 || bpt_[stack - 1].pc0 != pc0)
+            if (stack == 0 || bpt_[stack - 1].pc0 != pc0 || !sub_)
             {
               point(bpt_[stack++], pc0, false, c1 == EOF);
               DBGLOG("point[%u] at %zu EOF", stack - 1, pc0 - pat_->opc_);
@@ -728,13 +762,13 @@ unrolled:
         }
         else
         {
-          if (err_ < max_)
+          if (err_ < max_ && !inside(pc0))
           {
             ++err_;
             if (del_ || sub_)
             {
               // set backtrack point if pc0 is a different point than the last
-              if (stack == 0 || bpt_[stack - 1].pc0 != pc0)
+              if (stack == 0 || bpt_[stack - 1].pc0 != pc0 || !sub_)
               {
                 point(bpt_[stack++], pc0);
                 DBGLOG("point[%u] at %zu pos %zu", stack - 1, pc0 - pat_->opc_, pos_ - 1);
-- 
2.43.0


From 329f445d8a654b145b052b6f72ca13c03b96fa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:53 +0000
Subject: [PATCH 52/65] fix: undent \k matched without an indent change

---
 include/reflex/matcher.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index e3b3bc1..3118794 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -574,7 +574,7 @@ redo:
                   continue;
                 case Pattern::META_UND - Pattern::META_MIN:
                   DBGLOG("UND");
-                  if (mrk_)
+                  if (mrk_ && !nodent())
                   {
                     jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
@@ -976,11 +976,10 @@ unrolled:
     newline();
     return !tab_.empty() && tab_.back() > col_;
   }
-  /// Returns true if nodent.
+  /// Returns true if nodent, checks the indent column of the last indent() or dedent(), since \k may follow other text.
   inline bool nodent()
     /// @returns true if nodent
   {
-    newline();
     return (col_ <= 0 || (!tab_.empty() && tab_.back() >= col_)) && (tab_.empty() || tab_.back() <= col_);
   }
 #endif
-- 
2.43.0


From cfed7e2777af73deae2ad294f9da1e52a74cfe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:52 +0000
Subject: [PATCH 53/65] fix: word boundary at the start of a match read past
 the end of the input

---
 fuzzy/fuzzymatcher.h     |  6 +++---
 include/reflex/matcher.h | 18 ++++++++++++------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/fuzzy/fuzzymatcher.h b/fuzzy/fuzzymatcher.h
index db8fca0..15b4c7f 100644
--- a/fuzzy/fuzzymatcher.h
+++ b/fuzzy/fuzzymatcher.h
@@ -554,7 +554,7 @@ redo:
                     DBGLOG("EWB? %d", at_eow());
                     anc_ = true;
                     if (jump == Pattern::Const::IMAX && isword(got_) &&
-                        !isword(static_cast<unsigned char>(method == Const::SPLIT ? txt_[len_] : *txt_)))
+                        !isword_begin())
                     {
                       jump = Pattern::index_of(opcode);
                       if (jump == Pattern::Const::LONG)
@@ -566,7 +566,7 @@ redo:
                     DBGLOG("BWB? %d", at_bow());
                     anc_ = true;
                     if (jump == Pattern::Const::IMAX && !isword(got_) &&
-                        (opt_.W || isword(static_cast<unsigned char>(method == Const::SPLIT ? txt_[len_] : *txt_))))
+                        (opt_.W || isword_begin()))
                     {
                       jump = Pattern::index_of(opcode);
                       if (jump == Pattern::Const::LONG)
@@ -589,7 +589,7 @@ redo:
                     DBGLOG("NWB? %d %d", at_bow(), at_eow());
                     anc_ = true;
                     if (jump == Pattern::Const::IMAX &&
-                        isword(got_) == isword(static_cast<unsigned char>(txt_[len_])))
+                        isword(got_) == isword_begin())
                     {
                       jump = Pattern::index_of(opcode);
                       if (jump == Pattern::Const::LONG)
diff --git a/include/reflex/matcher.h b/include/reflex/matcher.h
index 3118794..df3c375 100644
--- a/include/reflex/matcher.h
+++ b/include/reflex/matcher.h
@@ -389,13 +389,13 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
   inline bool FSM_META_EWB()
   {
     anc_ = true;
-    return isword(got_) && !isword(static_cast<unsigned char>(txt_[len_]));
+    return isword(got_) && !isword_begin();
   }
   /// FSM code META BWB.
   inline bool FSM_META_BWB()
   {
     anc_ = true;
-    return !isword(got_) && (opt_.W || isword(static_cast<unsigned char>(txt_[len_])));
+    return !isword(got_) && (opt_.W || isword_begin());
   }
   /// FSM code META NWE.
   inline bool FSM_META_NWE(int c0, int c1)
@@ -407,9 +407,15 @@ class Matcher : public PatternMatcher<reflex::Pattern> {
   inline bool FSM_META_NWB()
   {
     anc_ = true;
-    return isword(got_) == isword(static_cast<unsigned char>(txt_[len_]));
+    return isword(got_) == isword_begin();
   }
  protected:
+  /// Returns nonzero if the match begins with a word character, zero otherwise or when the match begins at the end of the input.
+  inline int isword_begin()
+    /// @returns nonzero if the first character of the match is a word character
+  {
+    return isword(txt_ + len_ < buf_ + end_ ? static_cast<unsigned char>(txt_[len_]) : peek());
+  }
   typedef std::vector<size_t> Stops; ///< indent margin/tab stops
   /// FSM data for FSM code
   struct FSM {
@@ -653,7 +659,7 @@ redo:
                   DBGLOG("EWB? %d", at_eow());
                   anc_ = true;
                   if (jump == Pattern::Const::IMAX && isword(got_) &&
-                      !isword(static_cast<unsigned char>(txt_[len_])))
+                      !isword_begin())
                   {
                     jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
@@ -665,7 +671,7 @@ redo:
                   DBGLOG("BWB? %d", at_bow());
                   anc_ = true;
                   if (jump == Pattern::Const::IMAX && !isword(got_) &&
-                      (opt_.W || isword(static_cast<unsigned char>(txt_[len_]))))
+                      (opt_.W || isword_begin()))
                   {
                     jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
@@ -688,7 +694,7 @@ redo:
                   DBGLOG("NWB? %d %d", at_bow(), at_eow());
                   anc_ = true;
                   if (jump == Pattern::Const::IMAX &&
-                      isword(got_) == isword(static_cast<unsigned char>(txt_[len_])))
+                      isword(got_) == isword_begin())
                   {
                     jump = Pattern::index_of(opcode);
                     if (jump == Pattern::Const::LONG)
-- 
2.43.0


From 558a3cd92f8d73c6203b2ef25edc5830d7a722f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:55 +0000
Subject: [PATCH 54/65] fix: the action of | rules and the rules after an
 <<EOF>> rule in generated scanners

---
 src/reflex.cpp | 48 +++++++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index b9b29c2..4254d2a 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -1585,6 +1585,7 @@ void Reflex::parse_section_2()
     error("missing %% section 2");
   bool init = true;
   std::stack<Starts> scopes;
+  Starts same; // start conditions of the preceding rules with action |
   if (!get_line())
     return;
   while (!is("%%"))
@@ -1645,29 +1646,33 @@ void Reflex::parse_section_2()
             error("bad line in section 2: ", line.c_str());
           size_t rule_lineno = lineno;
           std::string code = get_code(pos);
-          if (has_starts)
+          if (!code.empty() && code[0] == '|' && code.find_first_not_of(" \t\r\n", 1) == std::string::npos)
+            code.resize(1); // blank lines may follow action |
+          if (!has_starts && scopes.empty())
           {
-            for (Starts::const_iterator start = starts.begin(); start != starts.end(); ++start)
-              rules[*start].push_back(Rule(pattern, regex, Code(code, infile, rule_lineno)));
-          }
-          else if (scopes.empty() && regex == "<<EOF>>")
-          {
-            // only the first <<EOF>> code should be used
-            if (code == "|")
-              error("bad <<EOF>> action | in section 2: ", line.c_str());
-            for (Start start = 0; start < conditions.size(); ++start)
-              rules[start].push_back(Rule(pattern, regex, Code(code, infile, rule_lineno)));
-          }
-          else if (!scopes.empty())
-          {
-            for (Starts::const_iterator start = scopes.top().begin(); start != scopes.top().end(); ++start)
-              rules[*start].push_back(Rule(pattern, regex, Code(code, infile, rule_lineno)));
+            if (regex == "<<EOF>>")
+            {
+              // only the first <<EOF>> code should be used
+              if (code == "|")
+                error("bad <<EOF>> action | in section 2: ", line.c_str());
+              for (Start start = 0; start < conditions.size(); ++start)
+                starts.insert(start);
+            }
+            else
+            {
+              starts = inclusive;
+            }
           }
+          for (Starts::const_iterator start = starts.begin(); start != starts.end(); ++start)
+            rules[*start].push_back(Rule(pattern, regex, Code(code, infile, rule_lineno)));
+          // action | is the action of this next rule, also when this rule is not active in a start condition of the rule with action |
+          for (Starts::const_iterator start = same.begin(); start != same.end(); ++start)
+            if (starts.find(*start) == starts.end())
+              rules[*start].back().code = Code(code, infile, rule_lineno);
+          if (code == "|")
+            same.insert(starts.begin(), starts.end());
           else
-          {
-            for (Starts::const_iterator start = inclusive.begin(); start != inclusive.end(); ++start)
-              rules[*start].push_back(Rule(pattern, regex, Code(code, infile, rule_lineno)));
-          }
+            same.clear();
           init = false;
         }
       }
@@ -3088,7 +3093,8 @@ void Reflex::write_lexer()
             *out <<
               "            break;\n";
         }
-        ++accept;
+        if (!eof_rule)
+          ++accept;
       }
     }
     *out <<
-- 
2.43.0


From c73bee823d900a1f440df85915e03e0c41fbe738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:55 +0000
Subject: [PATCH 55/65] fix: a match ended at the lookahead of another pattern
 that matches the same text

---
 lib/pattern.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/pattern.cpp b/lib/pattern.cpp
index 2114a06..9396138 100644
--- a/lib/pattern.cpp
+++ b/lib/pattern.cpp
@@ -1961,6 +1961,18 @@ void Pattern::compile_transition(
       }
     }
   }
+  if (state->accept > 0 && !state->tails.empty())
+  {
+    // only keep the lookahead tails that are part of the pattern that is accepted, other patterns may end here too
+    Lookahead n = 0;
+    for (Map::const_iterator i = lookahead.begin(); i != lookahead.end(); ++i)
+    {
+      Lookahead m = n + static_cast<Lookahead>(i->second.size());
+      if (static_cast<Accept>(i->first) != state->accept)
+        state->tails.erase(state->tails.lower_bound(n), state->tails.lower_bound(m));
+      n = m;
+    }
+  }
   Moves::iterator i = moves.begin();
   Moves::iterator e = moves.end();
   while (i != e)
-- 
2.43.0


From 5ecbdb9addec9eb75f8df8aa712e806ac4621c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:35 +0000
Subject: [PATCH 56/65] fix: comparing a match with a C string read past the
 string's end, and ignored text after a NUL

---
 include/reflex/absmatcher.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/reflex/absmatcher.h b/include/reflex/absmatcher.h
index dc5c598..fd384f5 100644
--- a/include/reflex/absmatcher.h
+++ b/include/reflex/absmatcher.h
@@ -1326,7 +1326,7 @@ class AbstractMatcher {
     /// @returns true if matched text is equal to rhs string
     const
   {
-    return std::strncmp(rhs, txt_, len_) == 0 && rhs[len_] == '\0';
+    return std::strlen(rhs) == len_ && std::memcmp(rhs, txt_, len_) == 0;
   }
   /// Returns true if matched text is equalt to a string, useful for std::algorithm.
   bool operator==(const std::string& rhs) ///< rhs string to compare to
@@ -1354,7 +1354,7 @@ class AbstractMatcher {
     /// @returns true if matched text is not equal to rhs string
     const
   {
-    return std::strncmp(rhs, txt_, len_) != 0 || rhs[len_] != '\0'; // if static checkers complain here, they are wrong
+    return std::strlen(rhs) != len_ || std::memcmp(rhs, txt_, len_) != 0;
   }
   /// Returns true if matched text is not equal to a string, useful for std::algorithm.
   bool operator!=(const std::string& rhs) ///< rhs string to compare to
-- 
2.43.0


From 6a073b1e1c49152f850a2c7b7f8c648185bdea3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:05:09 +0000
Subject: [PATCH 57/65] verification hook: REFLEX_VERIF_LONG scales the 64 bit
 opcode threshold down

---
 include/reflex/pattern.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/reflex/pattern.h b/include/reflex/pattern.h
index a65a154..798ce48 100644
--- a/include/reflex/pattern.h
+++ b/include/reflex/pattern.h
@@ -75,7 +75,11 @@ class Pattern {
     static const Index  GMAX = 0xFEFFFF;   ///< max goto index
     static const Accept AMAX = 0xFDFFFF;   ///< max accept
     static const Index  LMAX = 0xFAFFFF;   ///< max lookahead index
+#if defined(REFLEX_VERIF_LONG)
+    static const Index  LONG = REFLEX_VERIF_LONG; ///< verification hook: small LONG marker to use 64 bit opcodes in small patterns
+#else
     static const Index  LONG = 0xFFFE;     ///< LONG marker for 64 bit opcodes, must be HALT-1
+#endif
     static const Index  HALT = 0xFFFF;     ///< HALT marker for GOTO opcodes, must be 16 bit max
     static const Hash   HASH = 0x1000;     ///< size of the predict match array
   };
-- 
2.43.0


From f1c73e205a2124b92539e8d27e222325b3fa0629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:12 +0000
Subject: [PATCH 58/65] fix: in(i) in wrap() reset the matcher and lost the
 text being matched

---
 include/reflex/abslexer.h  | 11 +++++++++--
 include/reflex/flexlexer.h |  5 ++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/reflex/abslexer.h b/include/reflex/abslexer.h
index 46ae3f5..fd4ed48 100644
--- a/include/reflex/abslexer.h
+++ b/include/reflex/abslexer.h
@@ -76,7 +76,10 @@ class AbstractLexer {
     virtual bool wrap()
       /// @returns true if reflex::AbstractLexer::wrap() == 0 indicating that input is wrapped after EOF
     {
-      return lexer_->wrap() == 0;
+      lexer_->wrapping_ = true;
+      bool more = lexer_->wrap() == 0;
+      lexer_->wrapping_ = false;
+      return more;
     }
     /// Points to the lexer class that instantiated this Matcher.
     AbstractLexer *lexer_;
@@ -93,6 +96,7 @@ class AbstractLexer {
       matcher_(NULL),
       start_(0),
       debug_(0),
+      wrapping_(false),
       stack_(),
       state_()
   { }
@@ -129,7 +133,9 @@ class AbstractLexer {
     /// @returns reference to *this
   {
     in_ = input;
-    if (has_matcher())
+    if (has_matcher() && wrapping_)
+      matcher().in = input; // continue with new input
+    else if (has_matcher())
       matcher().input(input); // reset and assign new input
     return *this;
   }
@@ -423,6 +429,7 @@ class AbstractLexer {
   Matcher             *matcher_; ///< the matcher used for scanning
   int                  start_;   ///< the current start condition state
   int                  debug_;   ///< 1 if -d (--debug) 0 otherwise:
+  bool                 wrapping_; ///< true when wrap() is called: in(i) continues matching with input i
   std::stack<Matcher*> stack_;   ///< a stack of pointers to matchers
   std::stack<int>      state_;   ///< a stack of start condition states
 };
diff --git a/include/reflex/flexlexer.h b/include/reflex/flexlexer.h
index d4ef52c..2ae54bd 100644
--- a/include/reflex/flexlexer.h
+++ b/include/reflex/flexlexer.h
@@ -446,7 +446,10 @@ class FlexLexer : public AbstractLexer<M> {
       /// @returns true if FlexLexer::yywrap() == 0 indicating that input is wrapped after EOF
     {
       FlexLexer *lexer = dynamic_cast<FlexLexer*>(this->lexer_); // a safe cast
-      return lexer->yywrap() == 0;
+      lexer->wrapping_ = true;
+      bool more = lexer->yywrap() == 0;
+      lexer->wrapping_ = false;
+      return more;
     }
   };
   /// Construct Flex-compatible lexer to read from a std::istream (and echo the text matches to a std::ostream).
-- 
2.43.0


From d5c57b1e06b85f7f690de1ed575e79f78e270437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:12 +0000
Subject: [PATCH 59/65] fix: BoostMatcher missed matches after a partial match
 at the end of the input

---
 include/reflex/boostmatcher.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/reflex/boostmatcher.h b/include/reflex/boostmatcher.h
index b8fa915..55501db 100644
--- a/include/reflex/boostmatcher.h
+++ b/include/reflex/boostmatcher.h
@@ -214,6 +214,16 @@ class BoostMatcher : public PatternMatcher<boost::regex> {
         (void)peek_more();
         DBGLOGN("Got more input pos = %zu end = %zu max = %zu", pos_, end_, max_);
       }
+      if (pos_ == end_ && eof_ && itr_ != fin_ && !(*itr_)[0].matched) // if partial match but no more input then
+      {
+        new_itr(method); // a partial match is not a match, match again
+        if (itr_ != fin_)
+        {
+          pos_ = (*itr_)[0].second - buf_;
+          if (pos_ != end_)
+            break;
+        }
+      }
       if (pos_ == end_) // if pos_ is hitting the end_ then
       {
         if (method == Const::SPLIT)
@@ -338,6 +348,8 @@ class BoostMatcher : public PatternMatcher<boost::regex> {
   {
     DBGLOGN("New iterator");
     boost::match_flag_type flg = flg_;
+    if (eof_)
+      flg &= ~boost::regex_constants::match_partial; // all remaining data is in the buffer, no more partial matching
     if (!at_bob())
       flg |= boost::regex_constants::match_not_bob;
     if (!at_bol())
-- 
2.43.0


From 55c80274f7652e964f3996ef9f6ced09ec7b38f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:12 +0000
Subject: [PATCH 60/65] fix: PCRE2Matcher scan() and matches() skipped input
 before a later partial match

---
 include/reflex/pcre2matcher.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/reflex/pcre2matcher.h b/include/reflex/pcre2matcher.h
index f370e99..59f4235 100644
--- a/include/reflex/pcre2matcher.h
+++ b/include/reflex/pcre2matcher.h
@@ -400,6 +400,8 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
       if (rc == PCRE2_ERROR_PARTIAL)
       {
         PCRE2_SIZE *ovector = pcre2_get_ovector_pointer(dat_);
+        if (ovector[0] != pos_ && (method == Const::SCAN || method == Const::MATCH))
+          return false; // SCAN and MATCH must be anchored, the partial match starts after pos_
         cur_ = ovector[0]; // advance to the start of the partial match
         if (method == Const::FIND)
           txt_ = buf_ + cur_;
-- 
2.43.0


From 27b953d43ee7a052b603a7ec5eab95ebbbc6da63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:12 +0000
Subject: [PATCH 61/65] fix: default-constructed std, Boost and PCRE2 matchers
 had uninitialised or missing flags

---
 include/reflex/boostmatcher.h | 8 ++++++--
 include/reflex/pcre2matcher.h | 5 ++++-
 include/reflex/stdmatcher.h   | 2 +-
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/reflex/boostmatcher.h b/include/reflex/boostmatcher.h
index 55501db..65b0f29 100644
--- a/include/reflex/boostmatcher.h
+++ b/include/reflex/boostmatcher.h
@@ -386,7 +386,9 @@ class BoostPosixMatcher : public BoostMatcher {
   }
   /// Default constructor.
   BoostPosixMatcher() : BoostMatcher()
-  { }
+  {
+    flg_ |= boost::regex_constants::match_posix;
+  }
   /// Construct a POSIX matcher engine from a boost::regex pattern and an input character sequence.
   template<typename P>
   BoostPosixMatcher(
@@ -419,7 +421,9 @@ class BoostPerlMatcher : public BoostMatcher {
  public:
   /// Default constructor.
   BoostPerlMatcher() : BoostMatcher()
-  { }
+  {
+    flg_ |= boost::regex_constants::match_perl;
+  }
   /// Construct a Perl matcher engine from a boost::regex pattern and an input character sequence.
   template<typename P>
   BoostPerlMatcher(
diff --git a/include/reflex/pcre2matcher.h b/include/reflex/pcre2matcher.h
index 59f4235..0852e07 100644
--- a/include/reflex/pcre2matcher.h
+++ b/include/reflex/pcre2matcher.h
@@ -56,6 +56,7 @@ class PCRE2Matcher : public PatternMatcher<std::string> {
   PCRE2Matcher()
     :
       PatternMatcher<std::string>(),
+      cop_(0),
       opc_(NULL),
       dat_(NULL),
       ctx_(NULL),
@@ -460,7 +461,9 @@ class PCRE2UTFMatcher : public PCRE2Matcher {
   }
   /// Default constructor.
   PCRE2UTFMatcher() : PCRE2Matcher()
-  { }
+  {
+    cop_ = PCRE2_UTF | PCRE2_UCP;
+  }
   /// Construct matcher engine from a string regex, and an input character sequence.
   template<typename P> /// @tparam <P> pattern is a string regex
   PCRE2UTFMatcher(
diff --git a/include/reflex/stdmatcher.h b/include/reflex/stdmatcher.h
index e2bc303..7adcd7d 100644
--- a/include/reflex/stdmatcher.h
+++ b/include/reflex/stdmatcher.h
@@ -52,7 +52,7 @@ class StdMatcher : public PatternMatcher<std::regex> {
     return reflex::convert(regex, "!=:bcdfnrstvwxBDSW?", flags);
   }
   /// Default constructor.
-  StdMatcher() : PatternMatcher<std::regex>()
+  StdMatcher() : PatternMatcher<std::regex>(), flg_()
   {
     reset();
   }
-- 
2.43.0


From 52284a188b439c67fb1eb4ca3c985d7f42d59962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:45 +0000
Subject: [PATCH 62/65] fix: regex_error excerpt no longer ends in the middle
 of a UTF-8 character

---
 lib/error.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/error.cpp b/lib/error.cpp
index 7f8989e..2ce863a 100644
--- a/lib/error.cpp
+++ b/lib/error.cpp
@@ -131,6 +131,7 @@ size_t regex_error::displen(const char *s, size_t k)
 
 const char *regex_error::disppos(const char *s, size_t k)
 {
+  const char *p = s;
   while (k > 0 && *s != '\0')
   {
     unsigned char c = *s++;
@@ -164,6 +165,9 @@ const char *regex_error::disppos(const char *s, size_t k)
     }
     --k;
   }
+  // do not return a position in the middle of a UTF-8 multibyte character
+  for (size_t i = 3; i > 0 && s > p && (*s & 0xc0) == 0x80; --i)
+    --s;
   return s;
 }
 
-- 
2.43.0


From 2c40fe9cfde869af4ee067a2018e04c4bdbb6a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:08 +0000
Subject: [PATCH 63/65] fix: Input on a wide string: eof(), good() and size()
 when a character was partially read, and size() of invalid characters

---
 include/reflex/input.h | 10 +++++-----
 lib/input.cpp          |  8 ++++++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/reflex/input.h b/include/reflex/input.h
index 6248ef6..b04a7b3 100644
--- a/include/reflex/input.h
+++ b/include/reflex/input.h
@@ -608,9 +608,9 @@ class Input {
     if (cstring_)
       return size_ > 0;
     if (wstring_)
-      return *wstring_ != L'\0';
+      return ulen_ > 0 || *wstring_ != L'\0';
     if (file_)
-      return !::feof(file_) && !::ferror(file_);
+      return ulen_ > 0 || (!::feof(file_) && !::ferror(file_));
     if (istream_)
       return istream_->good();
     return false;
@@ -622,9 +622,9 @@ class Input {
     if (cstring_)
       return size_ == 0;
     if (wstring_)
-      return *wstring_ == L'\0';
+      return ulen_ == 0 && *wstring_ == L'\0';
     if (file_)
-      return ::feof(file_) != 0;
+      return ulen_ == 0 && ::feof(file_) != 0;
     if (istream_)
       return istream_->eof();
     return true;
@@ -688,7 +688,7 @@ class Input {
           if (c >= 0xD800 && c < 0xE000)
           {
             // UTF-16 surrogate pair
-            if (c < 0xDC00 && (wstring_[1] & 0xFC00) == 0xDC00)
+            if (c < 0xDC00 && (wstring_[1] & ~0x03FF) == 0xDC00)
               l = utf8(0x010000 - 0xDC00 + ((c - 0xD800) << 10) + *++wstring_, utf8_);
             else
               l = utf8(REFLEX_NONCHAR, utf8_);
diff --git a/lib/input.cpp b/lib/input.cpp
index b376be6..d9b6dda 100644
--- a/lib/input.cpp
+++ b/lib/input.cpp
@@ -1008,11 +1008,12 @@ size_t Input::file_get(char *s, size_t n)
 void Input::wstring_size()
 {
   unsigned int c;
+  size_ = ulen_; // bytes of a partially delivered character
   for (const wchar_t *s = wstring_; (c = *s) != L'\0'; ++s)
   {
     if (c >= 0xD800 && c < 0xE000)
     {
-      if (c < 0xDC00 && (s[1] & 0xFC00) == 0xDC00)
+      if (c < 0xDC00 && (s[1] & ~0x03FF) == 0xDC00)
       {
         ++s;
         size_ += 4;
@@ -1025,7 +1026,10 @@ void Input::wstring_size()
     else
     {
 #ifndef WITH_UTF8_UNRESTRICTED
-      size_ += 1 + (c >= 0x80) + (c >= 0x0800) + (c >= 0x010000);
+      if (c > 0x10FFFF)
+        size_ += sizeof(REFLEX_NONCHAR_UTF8) - 1;
+      else
+        size_ += 1 + (c >= 0x80) + (c >= 0x0800) + (c >= 0x010000);
 #else
       size_ += 1 + (c >= 0x80) + (c >= 0x0800) + (c >= 0x010000) + (c >= 0x200000) + (c >= 0x04000000);
 #endif
-- 
2.43.0


From 9d7073625ec984f40bf6361f9fcf7351154e63ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:15 +0000
Subject: [PATCH 64/65] fix: reentrant Flex scanners with a prefix other than
 yy did not compile: set_extra was used before its declaration

---
 src/reflex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index 4254d2a..2176016 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -2620,7 +2620,7 @@ void Reflex::write_lexer()
         "YY_EXTERN_C void yylex_init_extra(" << (options["extra_type"].empty() ? "void*" : options["extra_type"].c_str()) << " extra, yyscan_t *scanner)\n"
         "{\n"
         "  *scanner = static_cast<yyscan_t>(new yyscanner_t);\n"
-        "  " << prefix << "set_extra(extra, *scanner);\n"
+        "  static_cast<yyscanner_t*>(*scanner)->yyextra = extra;\n"
         "}\n"
         "\n"
         "YY_EXTERN_C void yylex_destroy(yyscan_t scanner)\n"
-- 
2.43.0


From 5f9eb517d961baf9800d108382bbad9968cdbad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:10:15 +0000
Subject: [PATCH 65/65] fix: yylex_destroy() was declared and documented but
 not defined for reentrant Bison scanners without option flex

---
 src/reflex.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/reflex.cpp b/src/reflex.cpp
index 2176016..b67afdb 100644
--- a/src/reflex.cpp
+++ b/src/reflex.cpp
@@ -2613,6 +2613,11 @@ void Reflex::write_lexer()
       "{\n"
       "  *scanner = static_cast<yyscan_t>(new yyscanner_t);\n"
       "}\n"
+      "\n"
+      "YY_EXTERN_C void yylex_destroy(yyscan_t scanner)\n"
+      "{\n"
+      "  delete static_cast<yyscanner_t*>(scanner);\n"
+      "}\n"
       "\n";
     if (!options["flex"].empty())
     {
@@ -2623,11 +2628,6 @@ void Reflex::write_lexer()
         "  static_cast<yyscanner_t*>(*scanner)->yyextra = extra;\n"
         "}\n"
         "\n"
-        "YY_EXTERN_C void yylex_destroy(yyscan_t scanner)\n"
-        "{\n"
-        "  delete static_cast<yyscanner_t*>(scanner);\n"
-        "}\n"
-        "\n"
         "#undef " << prefix << "get_text\n"
         "YY_EXTERN_C char *" << prefix << "get_text(yyscan_t scanner)\n"
         "{\n"
-- 
2.43.0

