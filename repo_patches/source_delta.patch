From 2706c26cc7b03e95738671ade1fe5db6d8c23e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 001/131] fix: keep FML32 type index correct when the last
 field of a type is deleted

---
 src/fbfr32.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index d8b31f9..3de1347 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -663,9 +663,10 @@ struct Fbfr32 {
       to = reinterpret_cast<fieldhead *>(data_ + len_);
     }
 
+    auto type = Fldtype32(from->fieldid);
     auto diff = reinterpret_cast<char *>(to) - reinterpret_cast<char *>(from);
     memmove(from, to, (data_ + len_) - reinterpret_cast<char *>(to));
-    shift(Fldtype32(from->fieldid), -diff);
+    shift(type, -diff);
   }
 
   int offset_for(int type) {
-- 
2.43.0


From 6c12502a1527ec58b3ecb63591011b6f9aeb19e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 002/131] fix: Fjoin32 handles several surplus occurrences in
 the destination

---
 src/fbfr32.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 3de1347..e56a1d8 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -590,6 +590,8 @@ struct Fbfr32 {
       if (r == -1) {
         return -1;
       } else if (r == 1) {
+        // Current occurrence was deleted, the next one takes its place
+        oc--;
         end = reinterpret_cast<fieldhead *>(data_ + len_);
       } else {
         it = next_(it);
-- 
2.43.0


From c5b31b7adf401820181c2fdf66fe0e63813a6413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 003/131] fix: fill missing FLD_FML32 occurrences with an empty
 buffer

---
 src/fbfr32.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index e56a1d8..d21c5f9 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -35,10 +35,8 @@ static unsigned int crc32b(unsigned char *data, size_t len) {
   return ~crc;
 }
 
-static char zeros[] {
-  0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
-  0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0
-};
+// Default value for any field type, including an empty FML32 buffer
+alignas(8) static char zeros[64] {};
 
 struct fieldhead {
   FLDID32 fieldid;
@@ -733,7 +731,11 @@ struct Fbfr32 {
   uint32_t offsets_[max_offset_];
   char data_[] __attribute__((aligned(8)));
 
-  size_t min_size() const { return offsetof(Fbfr32, data_); }
+  size_t min_size() const {
+    static_assert(sizeof(zeros) >= offsetof(Fbfr32, data_),
+                  "Default value must hold an empty FML32 buffer");
+    return offsetof(Fbfr32, data_);
+  }
 
   size_t value_len(int type, char *data, FLDLEN32 flen) {
     switch (type) {
-- 
2.43.0


From 328758c1c09d71fb456939c10f85658db0157456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 004/131] fix: Fchg32 stops and restores the buffer when there
 is no space for default occurrences

---
 src/fbfr32.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index d21c5f9..20ed5d7 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -162,14 +162,18 @@ struct Fbfr32 {
     }
 
     // oc=-1 -> Fadd32
-    FLDID32 count = occur(fieldid);
+    FLDOCC32 count = occur(fieldid);
     if (oc == -1) {
       oc = count;
     }
 
     // Fill missing occurances with default values
     for (FLDOCC32 o = count; o < oc; o++) {
-      chg(fieldid, o, zeros, 0);
+      if (chg(fieldid, o, zeros, 0) == -1) {
+        truncate(fieldid, count, o);
+        FERROR(FNOSPACE, "");
+        return -1;
+      }
     }
 
     auto type = Fldtype32(fieldid);
@@ -206,6 +210,7 @@ struct Fbfr32 {
 
     if (need != 0) {
       if (len_ + need > size_) {
+        truncate(fieldid, count, oc);
         FERROR(FNOSPACE, "");
         return -1;
       }
@@ -658,6 +663,13 @@ struct Fbfr32 {
     }
   }
 
+  // Drops occurrences from..to-1 added before running out of space
+  void truncate(FLDID32 fieldid, FLDOCC32 from, FLDOCC32 to) {
+    while (to > from) {
+      del(fieldid, --to);
+    }
+  }
+
   void erase(fieldhead *from, fieldhead *to) {
     if (to == nullptr) {
       to = reinterpret_cast<fieldhead *>(data_ + len_);
-- 
2.43.0


From d06e3024dd650848b6076715fa296da83f94ed4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 005/131] fix: Ffprint32 escapes bytes above 0x7f and backslash
 so Fextread32 reads them back

---
 src/fbfr32.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 20ed5d7..dad6d4b 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -655,10 +655,11 @@ struct Fbfr32 {
  private:
   void print_bytes(FILE *iop, const char *s, int len) {
     for (int i = 0; i < len; i++, s++) {
-      if (isprint(*s)) {
-        fputc(*s, iop);
+      auto c = static_cast<unsigned char>(*s);
+      if (isprint(c) && c != '\\') {
+        fputc(c, iop);
       } else {
-        fprintf(iop, "\\%02x", *s);
+        fprintf(iop, "\\%02x", c);
       }
     }
   }
-- 
2.43.0


From f3c2e86e80d29a30f099c2210fa61061462ee71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 006/131] fix: do not treat NUL as a hex digit

---
 src/basic_parser.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/basic_parser.h b/src/basic_parser.h
index efb1a90..5bddf43 100644
--- a/src/basic_parser.h
+++ b/src/basic_parser.h
@@ -2,6 +2,7 @@
 // This file is part of Fuxedo
 // Copyright (C) 2017 Aivars Kalvans <aivars.kalvans@gmail.com>
 
+#include <cctype>
 #include <cstdio>
 #include <cstring>
 #include <functional>
@@ -56,10 +57,10 @@ class basic_parser {
   }
 
   bool hex(std::string *s = nullptr) {
-    if (strchr("0123456789abcdefABCDEF", sym_) != nullptr) {
+    if (::isxdigit(sym_)) {
       char high = sym_;
       next();
-      if (strchr("0123456789abcdefABCDEF", sym_) != nullptr) {
+      if (::isxdigit(sym_)) {
         char low = sym_;
         next();
         if (s != nullptr) {
-- 
2.43.0


From c77bd073704a63ab3b041b181d4b73c36abc5274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:03 +0000
Subject: [PATCH 007/131] fix: Fextread32 preserves length and NUL bytes of
 FLD_CARRAY values

---
 src/extreader.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/extreader.h b/src/extreader.h
index 1403e88..067e69a 100644
--- a/src/extreader.h
+++ b/src/extreader.h
@@ -77,6 +77,11 @@ class extreader : public basic_parser {
       fml.mutate([&](FBFR32 *fbfr) {
         return Fadd32(fbfr, fieldid, reinterpret_cast<char *>(nested.get()), 0);
       });
+    } else if (Fldtype32(fieldid) == FLD_CARRAY) {
+      fml.mutate([&](FBFR32 *fbfr) {
+        return Fadd32(fbfr, fieldid, const_cast<char *>(fvalue.data()),
+                      fvalue.size());
+      });
     } else {
       fml.mutate([&](FBFR32 *fbfr) {
         return CFadd32(fbfr, fieldid, const_cast<char *>(fvalue.c_str()), 0,
-- 
2.43.0


From 1a55c0536392d8326adcf7e6e1de225822ff182e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:24 +0000
Subject: [PATCH 008/131] fix: Fneeded32 accounts for padding of values

---
 src/fbfr32.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index dad6d4b..8b6a530 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -89,7 +89,9 @@ struct Fbfr32 {
 
  public:
   static constexpr long needed(FLDOCC32 F, FLDLEN32 V) {
-    return F * (sizeof(FLDID32) + sizeof(uint32_t) + V) + sizeof(Fbfr32);
+    // Values are padded to 8 byte boundary
+    return F * (sizeof(FLDID32) + sizeof(uint32_t) + fieldn::size(V)) +
+           sizeof(Fbfr32);
   }
 
   int init(FLDLEN32 buflen) {
-- 
2.43.0


From a2d75ec775f3d4d7389fcd0a21b1c5b6fe1b4122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:24 +0000
Subject: [PATCH 009/131] fix: Fread32 leaves an empty buffer after a short
 read

---
 src/fbfr32.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 8b6a530..1a8aebd 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -151,6 +151,8 @@ struct Fbfr32 {
     len_ = len;
     auto n = used() - sizeof(size_) - sizeof(len_);
     if (fread(reinterpret_cast<char *>(&len_) + sizeof(len_), 1, n, iop) != n) {
+      // Do not leave partial content behind
+      init(size());
       FERROR(FEUNIX, "");
       return -1;
     }
-- 
2.43.0


From dd1038d6c73dfd5f2077664b919c1872c4a940d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:24 +0000
Subject: [PATCH 010/131] fix: load field tables once when several threads need
 them

---
 src/fbfr32fld.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fbfr32fld.h b/src/fbfr32fld.h
index 7e3db98..75b6698 100644
--- a/src/fbfr32fld.h
+++ b/src/fbfr32fld.h
@@ -126,6 +126,11 @@ struct Fbfr32fields {
 
     std::unique_lock<std::shared_timed_mutex> lock(mutex);
 
+    if (id_to_name_loaded && name_to_id_loaded) {
+      // Another thread did it already
+      return;
+    }
+
     id_to_name.clear();
     name_to_id.clear();
 
-- 
2.43.0


From 695b7bd3a4e3f30fc9cff6f5f5c313764a2d3a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:24 +0000
Subject: [PATCH 011/131] fix: Fmkfldid32 rejects field numbers that spill into
 the field type

---
 src/fbfr32fld.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fbfr32fld.h b/src/fbfr32fld.h
index 75b6698..705d71a 100644
--- a/src/fbfr32fld.h
+++ b/src/fbfr32fld.h
@@ -47,7 +47,7 @@ struct Fbfr32fields {
       Ferror32 = FTYPERR;
       return -1;
     }
-    if (num < 1) {
+    if (num < 1 || num > 0xffffff) {
       Ferror32 = FBADFLD;
       return -1;
     }
-- 
2.43.0


From 821ddc4a32b4cc5a15ff42b10a19978e79fab261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:24 +0000
Subject: [PATCH 012/131] fix: Fnext32 returns the value when length is not
 requested

---
 src/fbfr32.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 1a8aebd..4040dd7 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -395,16 +395,16 @@ struct Fbfr32 {
         *oc = 0;
       }
 
+      auto flen = flength(it);
+      if (len != nullptr && *len < flen) {
+        *len = flen;
+        FERROR(FNOSPACE, "");
+        return -1;
+      }
+      if (value != nullptr) {
+        std::copy_n(fvalue(it), flen, value);
+      }
       if (len != nullptr) {
-        auto flen = flength(it);
-
-        if (*len < flen) {
-          *len = flen;
-          FERROR(FNOSPACE, "");
-          return -1;
-        } else if (value != nullptr) {
-          std::copy_n(fvalue(it), flen, value);
-        }
         *len = flen;
       }
       return 1;
-- 
2.43.0


From f3fd6d9f9642f7ee7649ee06041ade4697e97193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 013/131] fix: grow expression tree enough to hold long
 constants

---
 src/expr.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 28997e7..befdbf6 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -76,7 +76,9 @@ class ast_tree {
 
   void insert(uint32_t where, const char *data, uint32_t len) {
     if (size_ - len_ < len) {
-      size_ *= 2;
+      while (size_ - len_ < len) {
+        size_ *= 2;
+      }
       tree_ = (char *)realloc(tree_, size_);
     }
     memmove(tree_ + where + len, tree_ + where, len_ - where);
-- 
2.43.0


From 6d21e2ffa8316cb762699c61c25b0122544db997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 014/131] fix: keep precision of floating point constants in
 expressions

---
 src/expr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index befdbf6..1170916 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -290,7 +290,7 @@ class expression_parser : public basic_parser {
       }
     } else if (unsigned_number(&tok)) {
       if (tok.find('.') != std::string::npos) {
-        double value = std::stof(tok);
+        double value = std::stod(tok);
         e = tree_.append(const_double, reinterpret_cast<char *>(&value),
                          sizeof(value));
       } else {
-- 
2.43.0


From 6b0e64b0930104cc9f4c35c67aa77cee66e68737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 015/131] fix: reject expressions followed by unexpected input

---
 src/expr.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/expr.cpp b/src/expr.cpp
index 1170916..cd2dcb2 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -134,6 +134,10 @@ class expression_parser : public basic_parser {
 
   char *parse() {
     if (parse_expr()) {
+      if (!eof() || !op_.empty()) {
+        throw basic_parser_error("Unexpected input after expression", row_,
+                                 col_, "");
+      }
       return tree_.take_tree();
     }
     return nullptr;
-- 
2.43.0


From 33658c660fba2d9f3defcea5d8ed2b1c1f1ebca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 016/131] fix: reject NUL characters in string literals of
 expressions

---
 src/expr.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/expr.cpp b/src/expr.cpp
index cd2dcb2..558a10e 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -303,6 +303,10 @@ class expression_parser : public basic_parser {
                          sizeof(value));
       }
     } else if (string(&tok)) {
+      if (tok.find('\0') != std::string::npos) {
+        throw basic_parser_error("Invalid string literal", row_, col_,
+                                 "NUL character in string literal");
+      }
       e = tree_.append(const_string, tok.c_str(), tok.size() + 1);
     } else if (accept('(')) {
       e = parse_expr();
-- 
2.43.0


From 05ad699bf59b87dc1ce1d980f125391cd235ee72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 017/131] fix: expression values own their text

Fields converted to string shared one buffer, so two fields compared equal,
numeric fields had no text to match and long numbers overflowed a fixed buffer.
---
 src/expr.cpp | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 558a10e..c2e6ed8 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -448,7 +448,7 @@ class eval_value {
   char *tree;
   long l;
   double d;
-  const char *s;
+  std::string s;
 
   eval_value(char *tree, int value)
       : tree(tree), l(value), type_(eval_type::is_long) {}
@@ -475,7 +475,7 @@ class eval_value {
     } else if (type_ == eval_type::is_double) {
       return d;
     } else if (type_ == eval_type::is_string) {
-      return atof(s);
+      return atof(s.c_str());
     }
     __builtin_unreachable();  // LCOV_EXCL_LINE
   }
@@ -485,18 +485,16 @@ class eval_value {
     } else if (type_ == eval_type::is_double) {
       return d;
     } else if (type_ == eval_type::is_string) {
-      return atol(s);
+      return atol(s.c_str());
     }
     __builtin_unreachable();  // LCOV_EXCL_LINE
   }
 
-  const char *to_string(char *buf) const {
+  std::string to_string() const {
     if (type_ == eval_type::is_long) {
-      sprintf(buf, "%ld", l);
-      return buf;
+      return std::to_string(l);
     } else if (type_ == eval_type::is_double) {
-      sprintf(buf, "%f", d);
-      return buf;
+      return std::to_string(d);
     }
     return s;
   }
@@ -560,8 +558,7 @@ static eval_value boolev_cmp(char *tree, char op, eval_value lhs,
   auto lexical_compare = lhs.is_const_string() || rhs.is_const_string() ||
                          (lhs.is_string() && rhs.is_string());
   if (lexical_compare && op != matches && op != not_matches) {
-    char lbuf[64], rbuf[64];
-    lhs = eval_value(nullptr, strcmp(lhs.to_string(lbuf), rhs.to_string(rbuf)));
+    lhs = eval_value(nullptr, lhs.to_string().compare(rhs.to_string()));
     rhs = eval_value(nullptr, 0);
   }
 
@@ -579,17 +576,17 @@ static eval_value boolev_cmp(char *tree, char op, eval_value lhs,
     return apply<std::not_equal_to>(tree, lhs, rhs);
   } else if (op == matches) {
     regex_t regex;
-    if (regcomp(&regex, rhs.s, 0) == 0) {
+    if (regcomp(&regex, rhs.s.c_str(), 0) == 0) {
       regmatch_t m[1];
-      auto r = regexec(&regex, lhs.s, 1, m, 0);
+      auto r = regexec(&regex, lhs.to_string().c_str(), 1, m, 0);
       regfree(&regex);
       return eval_value(tree, r == 0 && m[0].rm_so == 0);
     }
   } else if (op == not_matches) {
     regex_t regex;
-    if (regcomp(&regex, rhs.s, 0) == 0) {
+    if (regcomp(&regex, rhs.s.c_str(), 0) == 0) {
       regmatch_t m[1];
-      auto r = regexec(&regex, lhs.s, 1, m, 0);
+      auto r = regexec(&regex, lhs.to_string().c_str(), 1, m, 0);
       regfree(&regex);
       return eval_value(tree, r == REG_NOMATCH || m[0].rm_so != 0);
     }
-- 
2.43.0


From 9be02ac4755e95bca1d3dd1a747a3153f2840020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 018/131] fix: report failures of expression evaluation instead
 of crashing

---
 src/expr.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index c2e6ed8..6ad1843 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -6,9 +6,11 @@
 
 #include <algorithm>
 #include <functional>
+#include <limits>
 #include <map>
 #include <memory>
 #include <sstream>
+#include <stdexcept>
 
 #include <fml32.h>
 #include "basic_parser.h"
@@ -514,6 +516,12 @@ eval_value apply(char *tree, eval_value &lhs, eval_value &rhs) {
   }
 }
 
+static void check_divisor(long lhs, long rhs) {
+  if (rhs == 0 || (rhs == -1 && lhs == std::numeric_limits<long>::min())) {
+    throw std::domain_error("invalid division");
+  }
+}
+
 static eval_value boolev_field(FBFR32 *fbfr, char *tree, FLDID32 fieldid,
                                FLDOCC32 oc) {
   switch (Fldtype32(fieldid)) {
@@ -637,9 +645,13 @@ eval_value boolev(FBFR32 *fbfr, char *tree) {
     if (op == multiplication) {
       return apply<std::multiplies>(tree, lhs, rhs);
     } else if (op == division) {
+      if (!lhs.is_double() && !rhs.is_double()) {
+        check_divisor(lhs.to_long(), rhs.to_long());
+      }
       return apply<std::divides>(tree, lhs, rhs);
     } else if (op == modulus) {
       // Fail on double?
+      check_divisor(lhs.to_long(), rhs.to_long());
       return eval_value(tree, lhs.to_long() % rhs.to_long());
     } else if (op == addition) {
       return apply<std::plus>(tree, lhs, rhs);
@@ -694,8 +706,9 @@ int Fboolev32(FBFR32 *fbfr, char *tree) {
     FERROR(FNOTFLD, "tree is NULL");
     return -1;
   }
-  auto v = boolev(fbfr, tree + 4);
-  return v.to_long() != 0;
+  return fux::fml32::exception_boundary(
+      [&] { return static_cast<int>(boolev(fbfr, tree + 4).to_long() != 0); },
+      -1);
 }
 
 double Ffloatev32(FBFR32 *fbfr, char *tree) {
@@ -707,6 +720,6 @@ double Ffloatev32(FBFR32 *fbfr, char *tree) {
     FERROR(FNOTFLD, "tree is NULL");
     return -1;
   }
-  auto v = boolev(fbfr, tree + 4);
-  return v.to_double();
+  return fux::fml32::exception_boundary(
+      [&] { return boolev(fbfr, tree + 4).to_double(); }, -1);
 }
-- 
2.43.0


From c7d20c80de73c145f5c76ee984f6dcb5d6b2dd25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 019/131] fix: keep fractions in unary minus, negation and
 truth of expressions

---
 src/expr.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 6ad1843..b725f2b 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -492,6 +492,10 @@ class eval_value {
     __builtin_unreachable();  // LCOV_EXCL_LINE
   }
 
+  bool is_true() const {
+    return type_ == eval_type::is_double ? d != 0 : to_long() != 0;
+  }
+
   std::string to_string() const {
     if (type_ == eval_type::is_long) {
       return std::to_string(l);
@@ -630,9 +634,12 @@ eval_value boolev(FBFR32 *fbfr, char *tree) {
     auto val = boolev(fbfr, tree);
     tree = val.tree;
     if (op == unary_minus) {
+      if (val.is_double()) {
+        return eval_value(tree, -val.d);
+      }
       return eval_value(tree, -val.to_long());
     } else if (op == logical_negation) {
-      return eval_value(tree, !val.to_long());
+      return eval_value(tree, !val.is_true());
     } else if (op == bitwise_negation) {
       return eval_value(tree, ~val.to_long());
     }
@@ -707,7 +714,7 @@ int Fboolev32(FBFR32 *fbfr, char *tree) {
     return -1;
   }
   return fux::fml32::exception_boundary(
-      [&] { return static_cast<int>(boolev(fbfr, tree + 4).to_long() != 0); },
+      [&] { return static_cast<int>(boolev(fbfr, tree + 4).is_true()); },
       -1);
 }
 
-- 
2.43.0


From 1c3c1cf268dda1d81c5ca0558ed902181fe6be1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 020/131] fix: Fboolpr32 prints constants in a form that
 compiles back

---
 src/expr.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index b725f2b..b183deb 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -404,10 +404,25 @@ static char *boolpr(char *tree, FILE *iop) {
     double value;
     std::copy_n(tree, sizeof(value), reinterpret_cast<char *>(&value));
     tree += sizeof(value);
-    fprintf(iop, "( %f ) ", value);
+    // As many digits as needed to get the same value back
+    int precision = 6;
+    auto text = string_format("%.*f", precision, value);
+    while (precision < 1100 && strtod(text.c_str(), nullptr) != value) {
+      text = string_format("%.*f", ++precision, value);
+    }
+    fprintf(iop, "( %s ) ", text.c_str());
   } else if (op == const_string) {
     auto len = strlen(tree);
-    fprintf(iop, "( '%s' ) ", tree);
+    fprintf(iop, "( '");
+    for (auto c = tree; *c != '\0'; c++) {
+      if (isprint(static_cast<unsigned char>(*c)) && *c != '\'' &&
+          *c != '\\') {
+        fputc(*c, iop);
+      } else {
+        fprintf(iop, "\\%02x", static_cast<unsigned char>(*c));
+      }
+    }
+    fprintf(iop, "' ) ");
     tree += len + 1;
   } else if (op == field) {
     FLDID32 fieldid;
-- 
2.43.0


From 1ffe82a48c660dccdc03837f15d113d4b556b312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 021/131] fix: reject expressions nested too deep instead of
 exhausting the stack

---
 src/expr.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/expr.cpp b/src/expr.cpp
index b183deb..6d6c785 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -236,6 +236,14 @@ class expression_parser : public basic_parser {
   }
 
   uint32_t parse_primary() {
+    struct nesting {
+      explicit nesting(int &depth) : depth_(depth) { ++depth_; }
+      ~nesting() { --depth_; }
+      int &depth_;
+    } level(depth_);
+    if (depth_ > max_depth) {
+      throw basic_parser_error("Expression nested too deep", row_, col_, "");
+    }
     space();
 
     std::string tok;
@@ -370,6 +378,8 @@ class expression_parser : public basic_parser {
   // FIXME: to emulate lookahead/advance of binops because we don't have a lexer
   std::string op_;
   ast_tree tree_;
+  static constexpr int max_depth = 1000;
+  int depth_ = 0;
 };
 
 char *Fboolco32(char *expression) {
-- 
2.43.0


From 8a664e3f0c9d7da4cb6092b717c000c755a46c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:29 +0000
Subject: [PATCH 022/131] fix: initialize constant flag of expression values

---
 src/expr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 6d6c785..207748d 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -532,7 +532,7 @@ class eval_value {
 
  private:
   enum class eval_type { is_long, is_double, is_string } type_;
-  bool is_const_;
+  bool is_const_ = false;
 };
 
 template <template <class> class Op>
-- 
2.43.0


From dac9889900ecdc7a9e906d747d209052365ded46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 023/131] fix: tpalloc and tprealloc report lack of memory

---
 src/mem.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mem.cpp b/src/mem.cpp
index a7bd82c..a6f2987 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -73,6 +73,10 @@ char *tpalloc(char *type, char *subtype, long size) {
 
   size = size >= tptype->default_size ? size : tptype->default_size;
   auto mem = (tpmem *)malloc(sizeof(tpmem) + size);
+  if (mem == nullptr) {
+    TPERROR(TPEOS, "out of memory");
+    return nullptr;
+  }
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wstringop-truncation"
   strncpy(mem->type, type, sizeof(mem->type));
@@ -109,6 +113,10 @@ char *tprealloc(char *ptr, long size) {
 
   size = (size >= tptype->default_size) ? size : tptype->default_size;
   mem = (tpmem *)realloc(mem, sizeof(tpmem) + size);
+  if (mem == nullptr) {
+    TPERROR(TPEOS, "out of memory");
+    return nullptr;
+  }
   if (tptype->reinit != nullptr) {
     tptype->reinit(mem->data, size);
   }
-- 
2.43.0


From 70cba15b24d27ffe1b27b22d52b1340d199bea03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 024/131] fix: initialize all bytes of an empty buffer subtype

---
 src/mem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem.cpp b/src/mem.cpp
index a6f2987..853e941 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -87,7 +87,7 @@ char *tpalloc(char *type, char *subtype, long size) {
     strncpy(mem->subtype, subtype, sizeof(mem->subtype));
 #pragma GCC diagnostic pop
   } else {
-    mem->subtype[0] = '\0';
+    memset(mem->subtype, 0, sizeof(mem->subtype));
   }
   mem->size = size;
   mem->owner = nullptr;
-- 
2.43.0


From c0e14656448b9a3bbd530cecce44081e9ae44bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:31 +0000
Subject: [PATCH 025/131] fix: tprealloc keeps content of fielded buffers
 within the buffer

---
 src/mem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mem.cpp b/src/mem.cpp
index 853e941..b7d326b 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -112,6 +112,11 @@ char *tprealloc(char *ptr, long size) {
   }
 
   size = (size >= tptype->default_size) ? size : tptype->default_size;
+  if (tptype->reinit != nullptr &&
+      tptype->used(mem->data) > static_cast<size_t>(size)) {
+    TPERROR(TPEINVAL, "size too small for content of the buffer");
+    return nullptr;
+  }
   mem = (tpmem *)realloc(mem, sizeof(tpmem) + size);
   if (mem == nullptr) {
     TPERROR(TPEOS, "out of memory");
-- 
2.43.0


From ce6b4378ced85133342c4fae274edb83794c7930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 026/131] fix: tprealloc records the new size of the buffer

---
 src/mem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mem.cpp b/src/mem.cpp
index b7d326b..519cae4 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -122,6 +122,7 @@ char *tprealloc(char *ptr, long size) {
     TPERROR(TPEOS, "out of memory");
     return nullptr;
   }
+  mem->size = size;
   if (tptype->reinit != nullptr) {
     tptype->reinit(mem->data, size);
   }
-- 
2.43.0


From 4b8a30ebb2ff75e8d3840598bb19f56c0a926686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:59 +0000
Subject: [PATCH 027/131] fix: reject base64 data after padding

---
 src/base64.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/base64.cpp b/src/base64.cpp
index 24a6639..8d48730 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -109,6 +109,8 @@ size_t base64decode(const char *ibuf, size_t ilen, void *obuf, size_t olen) {
         outc++;
         err |= c3 = decoding[ibytes[ipos++]];
       }
+    } else if (ibytes[ipos + 1] != '=') {
+      err |= 128;
     }
 
     uint32_t n = (c0 << 18 | c1 << 12 | c2 << 6 | c3);
-- 
2.43.0


From c6598d588b5cad3f2cc0d56ed5c52097258de204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 028/131] fix: tpimport checks its input before it changes the
 output buffer

---
 src/fbfr32.h | 19 ++++++++++++++
 src/mem.cpp  | 73 +++++++++++++++++++++++++++++++++++-----------------
 2 files changed, 68 insertions(+), 24 deletions(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 4040dd7..cdf882b 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -112,6 +112,21 @@ struct Fbfr32 {
   long used() const { return len_ + min_size(); }
   long unused() const { return size_ - len_; }
 
+  // Tells if that is an image of a buffer taking up exactly that many bytes
+  static bool valid(const char *data, size_t size) {
+    uint32_t len, offsets[max_offset_];
+    if (size < offsetof(Fbfr32, data_)) {
+      return false;
+    }
+    std::copy_n(data + offsetof(Fbfr32, len_), sizeof(len),
+                reinterpret_cast<char *>(&len));
+    std::copy_n(data + offsetof(Fbfr32, offsets_), sizeof(offsets),
+                reinterpret_cast<char *>(offsets));
+    return size == offsetof(Fbfr32, data_) + len &&
+           std::is_sorted(std::begin(offsets), std::end(offsets)) &&
+           offsets[max_offset_ - 1] <= len;
+  }
+
   long chksum() {
     return crc32b(reinterpret_cast<unsigned char *>(data_), len_);
   }
@@ -946,3 +961,7 @@ void fml32reinit(void *mem, size_t size) {
 void fml32finit(void *mem) { reinterpret_cast<Fbfr32 *>(mem)->finit(); }
 
 size_t fml32used(void *mem) { return reinterpret_cast<Fbfr32 *>(mem)->used(); }
+
+bool fml32valid(const char *data, size_t size) {
+  return Fbfr32::valid(data, size);
+}
diff --git a/src/mem.cpp b/src/mem.cpp
index 519cae4..6e29a18 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -5,6 +5,8 @@
 #include <algorithm>
 #include <cstddef>
 #include <cstring>
+#include <stdexcept>
+#include <vector>
 
 #include "misc.h"
 
@@ -12,6 +14,7 @@ void fml32init(void *, size_t);
 void fml32reinit(void *, size_t);
 void fml32finit(void *);
 size_t fml32used(void *);
+bool fml32valid(const char *, size_t);
 
 namespace fux::mem {
 
@@ -23,15 +26,22 @@ struct tptype {
   void (*reinit)(void *mem, size_t size);
   void (*finit)(void *mem);
   size_t (*used)(void *mem);
+  bool (*valid)(const char *data, size_t size);
 };
 
 size_t strused(void *ptr) { return strlen(reinterpret_cast<char *>(ptr)) + 1; }
 
+bool strvalid(const char *data, size_t size) {
+  return memchr(data, '\0', size) != nullptr;
+}
+
 static tptype _tptypes[] = {
-    tptype{"TPINIT", "*", TPINITNEED(0), nullptr, nullptr, nullptr, nullptr},
-    tptype{"CARRAY", "*", 0, nullptr, nullptr, nullptr, nullptr},
-    tptype{"STRING", "*", 512, nullptr, nullptr, nullptr, strused},
-    tptype{"FML32", "*", 512, fml32init, fml32reinit, fml32finit, fml32used}};
+    tptype{"TPINIT", "*", TPINITNEED(0), nullptr, nullptr, nullptr, nullptr,
+           nullptr},
+    tptype{"CARRAY", "*", 0, nullptr, nullptr, nullptr, nullptr, nullptr},
+    tptype{"STRING", "*", 512, nullptr, nullptr, nullptr, strused, strvalid},
+    tptype{"FML32", "*", 512, fml32init, fml32reinit, fml32finit, fml32used,
+           fml32valid}};
 
 struct tpmem {
   long size;
@@ -189,43 +199,58 @@ int tpimport(char *istr, long ilen, char **obuf, long *olen, long flags) {
     flags |= TPEX_STRING;
   }
 
-  long needed = sizeof(tpmem);
+  // Nothing is changed in the output buffer until all of the input is checked
+  std::vector<char> decoded;
   if (flags & TPEX_STRING) {
     ilen = strlen(istr);
     if (ilen % 4) {
       TPERROR(TPEPROTO, "Invalid base64 string");
       return -1;
     }
-    needed += ilen / 4 * 3;
-  } else {
-    needed += ilen;
-  }
-
-  auto omem = memptr(*obuf);
-  if (needed > omem->size) {
-    *obuf = tprealloc(*obuf, needed);
-    omem = memptr(*obuf);
+    decoded.resize(ilen / 4 * 3);
+    try {
+      ilen = base64decode(istr, ilen, decoded.data(), decoded.size());
+    } catch (const std::invalid_argument &) {
+      TPERROR(TPEPROTO, "Invalid base64 string");
+      return -1;
+    }
+    istr = decoded.data();
   }
 
-  if (flags & TPEX_STRING) {
-    (void)base64decode(istr, ilen,
-                       reinterpret_cast<char *>(omem) + offsetof(tpmem, type),
-                       ilen);
-  } else {
-    std::copy_n(istr, ilen,
-                reinterpret_cast<char *>(omem) + offsetof(tpmem, type));
+  constexpr long header = sizeof(tpmem) - offsetof(tpmem, type);
+  const long used = ilen - header;
+  if (used < 0) {
+    TPERROR(TPEPROTO, "Incomplete input");
+    return -1;
   }
-
-  const auto tptype = typeptr(omem->type, omem->subtype);
+  const auto tptype =
+      typeptr(istr, istr + offsetof(tpmem, subtype) - offsetof(tpmem, type));
   if (tptype == nullptr) {
     return -1;
   }
+  if (tptype->valid != nullptr && !tptype->valid(istr + header, used)) {
+    TPERROR(TPEPROTO, "Invalid content of buffer");
+    return -1;
+  }
+
+  auto omem = memptr(*obuf);
+  if (used > omem->size) {
+    auto nbuf = tprealloc(*obuf, used);
+    if (nbuf == nullptr) {
+      return -1;
+    }
+    *obuf = nbuf;
+    omem = memptr(*obuf);
+  }
+
+  std::copy_n(istr, ilen,
+              reinterpret_cast<char *>(omem) + offsetof(tpmem, type));
   if (tptype->reinit != nullptr) {
     tptype->reinit(omem->data, omem->size);
   }
 
   if (olen != nullptr) {
-    *olen = ilen;
+    *olen = used;
   }
   fux::atmi::reset_tperrno();
   return 0;
-- 
2.43.0


From 4449e87f26e5ea1be2b277591caa1465e7d9f03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 029/131] fix: messages without data and length of data without
 buffer header

---
 src/client.cpp | 4 ++--
 src/ipc.cpp    | 9 +++++++--
 src/ipc.h      | 3 ++-
 src/server.cpp | 3 +--
 4 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 466af02..6f0434a 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -168,12 +168,12 @@ class client {
         }
       }
 
-      res.get_data(data);
+      auto datalen = res.get_data(data);
       tpurcode = res->rcode;
       *cd = res->cd;
       cds.release(*cd);
       if (len != nullptr) {
-        *len = res.size_data();
+        *len = datalen;
       }
       if (res->rval == TPMINVAL) {
         fux::atmi::reset_tperrno();
diff --git a/src/ipc.cpp b/src/ipc.cpp
index 13916de..70e8afc 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -245,10 +245,15 @@ void msg::set_data(char *data, long len) {
   }
 }
 
-void msg::get_data(char **data) {
-  if (tpimport((*this)->data, size_data(), data, 0, 0) == -1) {
+long msg::get_data(char **data) {
+  long len = 0;
+  if (size_data() == 0) {
+    return len;
+  }
+  if (tpimport((*this)->data, size_data(), data, &len, 0) == -1) {
     throw std::runtime_error("tpimport failed");
   }
+  return len;
 }
 
 }  // namespace fux::ipc
diff --git a/src/ipc.h b/src/ipc.h
index 809518f..c57e47e 100644
--- a/src/ipc.h
+++ b/src/ipc.h
@@ -88,7 +88,8 @@ class msg {
   size_t size_data() const { return bytes_.size() - sizeof(msgmem); }
 
   void set_data(char *data, long len);
-  void get_data(char **data);
+  // Returns length of data, 0 if there is none
+  long get_data(char **data);
 
  private:
   std::vector<char> bytes_;
diff --git a/src/server.cpp b/src/server.cpp
index 39a3995..b0a3841 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -289,7 +289,7 @@ static void dispatch() {
                       main_ptr->mtype(), 0);
 
       thread_ptr->prepare();
-      thread_ptr->req.get_data(&thread_ptr->atmibuf);
+      tpsvcinfo.len = thread_ptr->req.get_data(&thread_ptr->atmibuf);
       tpsvcinfo.data = thread_ptr->atmibuf;
       if (strcmp(thread_ptr->req->servicename, ".stop") == 0) {
         fux::fml32buf buf(&tpsvcinfo);
@@ -313,7 +313,6 @@ static void dispatch() {
 
     checked_copy(thread_ptr->req->servicename, tpsvcinfo.name);
     tpsvcinfo.flags = thread_ptr->req->flags;
-    tpsvcinfo.len = thread_ptr->req.size_data();
     tpsvcinfo.cd = thread_ptr->req->cd;
 
     if (thread_ptr->req->flags & TPTRAN) {
-- 
2.43.0


From 737a89229e950e86cf6336c47fc14dc8fe741923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:41 +0000
Subject: [PATCH 030/131] fix: do not read past unterminated buffer type names

---
 src/mem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem.cpp b/src/mem.cpp
index 6e29a18..5e6eebe 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -63,7 +63,7 @@ static const tptype *typeptr(const char *type, const char *subtype) {
                  strncmp(t.subtype, subtype, sizeof(t.subtype)) == 0));
       });
   if (tptype == std::end(_tptypes)) {
-    TPERROR(TPENOENT, "unknown type [%s] and subtype[%s]", type,
+    TPERROR(TPENOENT, "unknown type [%.8s] and subtype[%.16s]", type,
             subtype == nullptr ? "" : subtype);
     return nullptr;
   }
-- 
2.43.0


From 46de32acd973b71fe271fcc4d495e4eff6746fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:21 +0000
Subject: [PATCH 031/131] fix: write whole log lines of any length at once

---
 src/userlog.cpp | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/userlog.cpp b/src/userlog.cpp
index 978c6e3..9860ad6 100644
--- a/src/userlog.cpp
+++ b/src/userlog.cpp
@@ -3,6 +3,7 @@
 
 #include <userlog.h>
 
+#include <fcntl.h>
 #include <stdarg.h>
 #include <sys/time.h>
 #include <sys/utsname.h>
@@ -13,6 +14,7 @@
 #include <cstdlib>
 #include <cstring>
 
+#include <algorithm>
 #include <string>
 
 #include <gsl/gsl_util>
@@ -47,12 +49,6 @@ int userlog(const char *fmt, ...) {
   snprintf(logfile, sizeof(logfile), "%s.%02d%02d%02d", ULOGPFX.c_str(),
            timeinfo.tm_mon + 1, timeinfo.tm_mday, timeinfo.tm_year % 100);
 
-  FILE *fout = fopen(logfile, "a");
-  if (fout == nullptr) {
-    return -1;
-  }
-  auto _ = gsl::finally([&] { fclose(fout); });
-
   char buf[BUFSIZ];
   ssize_t n;
   if (millisec) {
@@ -66,13 +62,34 @@ int userlog(const char *fmt, ...) {
                  getpid());
   }
 
+  if (n < 0) {
+    return -1;
+  }
+  std::string line(buf, std::min(size_t(n), sizeof(buf) - 1));
+
   va_list ap;
   va_start(ap, fmt);
-  n += vsnprintf(buf + n, sizeof(buf) - n - 1, fmt, ap);
+  n = vsnprintf(nullptr, 0, fmt, ap);
   va_end(ap);
-  buf[n++] = '\n';
-  buf[n] = 0;
-  fwrite(buf, n, 1, fout);
+  if (n < 0) {
+    return -1;
+  }
+  auto header = line.size();
+  line.resize(header + n + 1);
+  va_start(ap, fmt);
+  vsnprintf(&line[header], n + 1, fmt, ap);
+  va_end(ap);
+  line.back() = '\n';
+
+  // A single write to keep lines of concurrent writers whole
+  int fd = open(logfile, O_WRONLY | O_APPEND | O_CREAT | O_CLOEXEC, 0666);
+  if (fd == -1) {
+    return -1;
+  }
+  auto _ = gsl::finally([&] { close(fd); });
+  if (write(fd, line.data(), line.size()) != ssize_t(line.size())) {
+    return -1;
+  }
 
   return 0;
 }
-- 
2.43.0


From fd89759e0d49af3e1ef188a1bb8639bdc6206c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 032/131] fix: report parse errors at the line where they are

---
 src/basic_parser.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/basic_parser.h b/src/basic_parser.h
index 5bddf43..d8d2f7e 100644
--- a/src/basic_parser.h
+++ b/src/basic_parser.h
@@ -108,6 +108,12 @@ class basic_parser {
   }
 
   void next() {
+    if (sym_ == '\n') {
+      ++row_;
+      col_ = 1;
+    } else {
+      ++col_;
+    }
     if (fin_ != nullptr) {
       sym_ = fgetc(fin_);
     } else {
@@ -115,12 +121,6 @@ class basic_parser {
       in_->snextc();
     }
     ++count_;
-    if (sym_ == '\n') {
-      ++row_;
-      col_ = 1;
-    } else if (::isprint(sym_)) {
-      ++col_;
-    }
   }
 
   std::streambuf *in_;
-- 
2.43.0


From 09c53bb4b453258669b8e2861879d14ede2000a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:32 +0000
Subject: [PATCH 033/131] fix: reject field numbers out of range in field
 tables

---
 src/fieldtbl32.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/fieldtbl32.h b/src/fieldtbl32.h
index 339eb0b..7cbdb60 100644
--- a/src/fieldtbl32.h
+++ b/src/fieldtbl32.h
@@ -62,7 +62,7 @@ class field_table_parser : public basic_parser {
       if (!read || base != "base") {
         throw basic_parser_error("unrecognized input", row_, "*base\toffset");
       }
-      base_ = std::stol(num);
+      base_ = number(num);
 
       delim();
       if (accept('#')) {
@@ -89,8 +89,11 @@ class field_table_parser : public basic_parser {
                                        "double, string, carray, fml32");
         }
 
-        fields_.push_back(
-            {fname, Fmkfldid32(t->second, base_ + std::stol(num)), c});
+        auto fieldid = Fmkfldid32(t->second, base_ + number(num));
+        if (fieldid == static_cast<FLDID32>(-1)) {
+          throw basic_parser_error("invalid field number", row_, num);
+        }
+        fields_.push_back({fname, fieldid, c});
         entries_.push_back(
             {nullptr, nullptr, std::make_unique<field>(fields_.back())});
       } else {
@@ -101,6 +104,13 @@ class field_table_parser : public basic_parser {
     return accept('\n');
   }
 
+  long number(const std::string &num) {
+    if (num.size() > 8 || num.find('.') != std::string::npos) {
+      throw basic_parser_error("invalid number", row_, num);
+    }
+    return std::stol(num);
+  }
+
   bool delim() {
     if (accept([](int c) { return c == ' ' || c == '\t'; })) {
       while (accept([](int c) { return c == ' ' || c == '\t'; }))
-- 
2.43.0


From 5ab790eeb01e4617d3104b7d026c5618b92faa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 034/131] fix: tell the line of errors found in configuration,
 field tables and views

---
 src/basic_parser.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/basic_parser.h b/src/basic_parser.h
index d8d2f7e..9b22325 100644
--- a/src/basic_parser.h
+++ b/src/basic_parser.h
@@ -12,14 +12,27 @@
 class basic_parser_error : public std::runtime_error {
  public:
   basic_parser_error(const char *what, int row, std::string extra)
-      : std::runtime_error(what), row(row), col(-1), extra(std::move(extra)) {}
+      : std::runtime_error(message(what, row, extra)),
+        row(row),
+        col(-1),
+        extra(extra) {}
 
   basic_parser_error(const char *what, int row, int col, std::string extra)
-      : std::runtime_error(what), row(row), col(col), extra(std::move(extra)) {}
+      : std::runtime_error(message(what, row, extra)),
+        row(row),
+        col(col),
+        extra(extra) {}
 
   const int row;
   const int col;
   const std::string extra;
+
+ private:
+  static std::string message(const char *what, int row,
+                             const std::string &extra) {
+    auto text = "line " + std::to_string(row) + ": " + what;
+    return extra.empty() ? text : text + " (" + extra + ")";
+  }
 };
 
 class basic_parser {
-- 
2.43.0


From 08f0e9f3c5de4080184f5eba89162a4a871245dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:20 +0000
Subject: [PATCH 035/131] fix: report malformed field tables every time they
 are needed

---
 src/fbfr32fld.h | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/fbfr32fld.h b/src/fbfr32fld.h
index 705d71a..bc894a4 100644
--- a/src/fbfr32fld.h
+++ b/src/fbfr32fld.h
@@ -59,8 +59,8 @@ struct Fbfr32fields {
   static constexpr long Fldno32(FLDID32 fieldid) { return fieldid & 0xffffff; }
 
   char *name(FLDID32 fieldid) {
-    if (!id_to_name_loaded) {
-      load_fieldtbls32();
+    if (!id_to_name_loaded && !load_fieldtbls32()) {
+      return nullptr;
     }
     std::shared_lock<std::shared_timed_mutex> lock(mutex);
     auto it = id_to_name.find(fieldid);
@@ -72,8 +72,8 @@ struct Fbfr32fields {
   }
 
   FLDID32 fldid(const char *name) {
-    if (!name_to_id_loaded) {
-      load_fieldtbls32();
+    if (!name_to_id_loaded && !load_fieldtbls32()) {
+      return BADFLDID;
     }
     std::shared_lock<std::shared_timed_mutex> lock(mutex);
     auto it = name_to_id.find(name);
@@ -113,12 +113,12 @@ struct Fbfr32fields {
     return true;
   }
 
-  void load_fieldtbls32() {
+  bool load_fieldtbls32() {
     auto fieldtbls32 = getenv("FIELDTBLS32");
     auto fldtbldir32 = getenv("FLDTBLDIR32");
 
     if (fieldtbls32 == nullptr || fldtbldir32 == nullptr) {
-      return;
+      return true;
     }
 
     auto files = fux::split(fieldtbls32, ",");
@@ -128,21 +128,28 @@ struct Fbfr32fields {
 
     if (id_to_name_loaded && name_to_id_loaded) {
       // Another thread did it already
-      return;
+      return true;
     }
 
     id_to_name.clear();
     name_to_id.clear();
 
-    id_to_name_loaded = true;
-    name_to_id_loaded = true;
-
     for (auto &fname : files) {
       for (auto &dname : dirs) {
-        if (read_fld32_file(dname + "/" + fname)) {
-          break;
+        try {
+          if (read_fld32_file(dname + "/" + fname)) {
+            break;
+          }
+        } catch (const basic_parser_error &e) {
+          FERROR32(FFTSYNTAX, "%s/%s %s", dname.c_str(), fname.c_str(),
+                   e.what());
+          return false;
         }
       }
     }
+
+    id_to_name_loaded = true;
+    name_to_id_loaded = true;
+    return true;
   }
 };
-- 
2.43.0


From 822508a94aa89e28205ab6a51dd969fda5d0d149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:20 +0000
Subject: [PATCH 036/131] fix: unloading names of fields keeps identifiers of
 fields and the other way round

---
 src/fbfr32fld.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/fbfr32fld.h b/src/fbfr32fld.h
index bc894a4..46135db 100644
--- a/src/fbfr32fld.h
+++ b/src/fbfr32fld.h
@@ -106,8 +106,13 @@ struct Fbfr32fields {
     field_table_parser p(fields);
     p.parse();
     for (auto field : p.fields()) {
-      id_to_name.insert(make_pair(field.fieldid, field.name));
-      name_to_id.insert(make_pair(field.name, field.fieldid));
+      // Names returned from a loaded table must stay valid
+      if (!id_to_name_loaded) {
+        id_to_name.insert(make_pair(field.fieldid, field.name));
+      }
+      if (!name_to_id_loaded) {
+        name_to_id.insert(make_pair(field.name, field.fieldid));
+      }
     }
 
     return true;
@@ -131,8 +136,12 @@ struct Fbfr32fields {
       return true;
     }
 
-    id_to_name.clear();
-    name_to_id.clear();
+    if (!id_to_name_loaded) {
+      id_to_name.clear();
+    }
+    if (!name_to_id_loaded) {
+      name_to_id.clear();
+    }
 
     for (auto &fname : files) {
       for (auto &dname : dirs) {
-- 
2.43.0


From 9475b24ec5e55c183ec6dd7122aa2ba34b0a37de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:31 +0000
Subject: [PATCH 037/131] fix: field tables unloaded by one thread are loaded
 again for another

---
 src/fbfr32fld.h | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/fbfr32fld.h b/src/fbfr32fld.h
index 46135db..e43abf0 100644
--- a/src/fbfr32fld.h
+++ b/src/fbfr32fld.h
@@ -59,10 +59,10 @@ struct Fbfr32fields {
   static constexpr long Fldno32(FLDID32 fieldid) { return fieldid & 0xffffff; }
 
   char *name(FLDID32 fieldid) {
-    if (!id_to_name_loaded && !load_fieldtbls32()) {
+    std::shared_lock<std::shared_timed_mutex> lock(mutex);
+    if (!lock_loaded(lock, id_to_name_loaded)) {
       return nullptr;
     }
-    std::shared_lock<std::shared_timed_mutex> lock(mutex);
     auto it = id_to_name.find(fieldid);
     if (it != id_to_name.end()) {
       return const_cast<char *>(it->second.c_str());
@@ -72,10 +72,10 @@ struct Fbfr32fields {
   }
 
   FLDID32 fldid(const char *name) {
-    if (!name_to_id_loaded && !load_fieldtbls32()) {
+    std::shared_lock<std::shared_timed_mutex> lock(mutex);
+    if (!lock_loaded(lock, name_to_id_loaded)) {
       return BADFLDID;
     }
-    std::shared_lock<std::shared_timed_mutex> lock(mutex);
     auto it = name_to_id.find(name);
     if (it != name_to_id.end()) {
       return it->second;
@@ -97,6 +97,20 @@ struct Fbfr32fields {
   }
 
  private:
+  // Another thread might unload tables before the lock is taken again
+  bool lock_loaded(std::shared_lock<std::shared_timed_mutex> &lock,
+                   const std::atomic<bool> &loaded) {
+    while (!loaded && getenv("FIELDTBLS32") != nullptr &&
+           getenv("FLDTBLDIR32") != nullptr) {
+      lock.unlock();
+      if (!load_fieldtbls32()) {
+        return false;
+      }
+      lock.lock();
+    }
+    return true;
+  }
+
   bool read_fld32_file(const std::string &fname) {
     std::ifstream fields(fname);
     if (!fields) {
-- 
2.43.0


From fd64b52be913de37a94b6efc9450d65409769d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:45 +0000
Subject: [PATCH 038/131] fix: viewc32 names the header after views in other
 directories

---
 src/viewc32.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/viewc32.cpp b/src/viewc32.cpp
index 0764278..ee997c6 100644
--- a/src/viewc32.cpp
+++ b/src/viewc32.cpp
@@ -29,8 +29,9 @@ static void process_file(const std::string &file, bool no_fml,
   if (dot != std::string::npos && dot < slash) {
     dot = std::string::npos;
   }
+  auto length = dot == std::string::npos ? dot : dot - slash;
   fout.exceptions(std::ifstream::failbit | std::ifstream::badbit);
-  fout.open(output_directory + "/" + file.substr(slash, dot) + ".h");
+  fout.open(output_directory + "/" + file.substr(slash, length) + ".h");
 
   for (auto &i : p.entries()) {
     if (i.r) {
-- 
2.43.0


From d3f8da40e5ac2b873eb95f8dc6561db3e53e18b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:13 +0000
Subject: [PATCH 039/131] fix: viewc32 accepts several views and rejects
 members of unknown type or outside a view

---
 src/view32.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/view32.h b/src/view32.h
index d757c45..fd0f29e 100644
--- a/src/view32.h
+++ b/src/view32.h
@@ -5,11 +5,15 @@
 #include <fml32.h>
 #include <map>
 #include <memory>
+#include <set>
 #include <vector>
 
 #include "basic_parser.h"
 
 static const std::string supported_flags = "CL";
+static const std::set<std::string> supported_types = {
+    "char",   "short",  "int",    "long",  "float",
+    "double", "string", "carray", "dec_t"};
 class view_parser : public basic_parser {
  public:
   view_parser(std::istream &f) : basic_parser(f), done_(false) {}
@@ -63,6 +67,7 @@ class view_parser : public basic_parser {
                                      "VIEW\tVIEWNAME\nEND");
           }
           done_ = true;
+          name_.clear();
       entries_.push_back(
           {nullptr, nullptr, nullptr, std::make_unique<std::string>("end")});
         } else if (first == "VIEW") {
@@ -74,10 +79,18 @@ class view_parser : public basic_parser {
             throw basic_parser_error("View name expected", row_,
                                      "VIEW\tVIEWNAME");
           }
+          done_ = false;
         entries_.push_back(
           {nullptr, nullptr, std::make_unique<std::string>(name_), nullptr});
         } else {
           std::string type = first;
+          if (name_.empty()) {
+            throw basic_parser_error("No view definition", row_,
+                                     "VIEW\tVIEWNAME\nEND");
+          }
+          if (supported_types.find(type) == supported_types.end()) {
+            throw basic_parser_error("unsupported field type", row_, type);
+          }
 
           std::string cname, fbname, count, flag, size, nullv;
 
-- 
2.43.0


From 1e13480e7e786b3c9e85ee30216db853fe037011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 040/131] fix: viewc32 rejects fractions in sizes and duplicate
 members

---
 src/view32.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/view32.h b/src/view32.h
index fd0f29e..92b2034 100644
--- a/src/view32.h
+++ b/src/view32.h
@@ -68,6 +68,7 @@ class view_parser : public basic_parser {
           }
           done_ = true;
           name_.clear();
+          members_.clear();
       entries_.push_back(
           {nullptr, nullptr, nullptr, std::make_unique<std::string>("end")});
         } else if (first == "VIEW") {
@@ -112,6 +113,15 @@ class view_parser : public basic_parser {
             }
           }
 
+          if (count.find('.') != std::string::npos ||
+              (size.find('.') != std::string::npos && type != "dec_t")) {
+            throw basic_parser_error("Whole number expected", row_, "");
+          }
+
+          if (!members_.insert(cname).second) {
+            throw basic_parser_error("Duplicate member", row_, cname);
+          }
+
           for (auto c : flag) {
             if (supported_flags.find(c) == std::string::npos) {
               throw basic_parser_error("Invalid flags", row_, "Only " + supported_flags + " supported");
@@ -160,6 +170,7 @@ class view_parser : public basic_parser {
 
   bool done_;
   std::string name_;
+  std::set<std::string> members_;
   std::vector<field> fields_;
   std::vector<entry> entries_;
 };
-- 
2.43.0


From c590819dbf7c72ef653677e887629c8f237632d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:25 +0000
Subject: [PATCH 041/131] fix: mkfldhdr32 keeps definitions after comments that
 end in a backslash

---
 src/mkfldhdr32.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/mkfldhdr32.cpp b/src/mkfldhdr32.cpp
index 83863ac..50019e5 100644
--- a/src/mkfldhdr32.cpp
+++ b/src/mkfldhdr32.cpp
@@ -11,6 +11,15 @@
 
 #include "fieldtbl32.h"
 
+// A backslash at the end would continue the comment on the next line
+static std::string one_line(const std::string &comment) {
+  auto last = comment.find_last_not_of(" \t\r\f\v");
+  if (last != std::string::npos && comment[last] == '\\') {
+    return comment + ".";
+  }
+  return comment;
+}
+
 static void process_file(const std::string &file,
                          const std::string &output_directory) {
   std::ifstream fin;
@@ -34,14 +43,14 @@ static void process_file(const std::string &file,
   fout.open(output_directory + "/" + file.substr(slash) + ".h");
   for (auto &i : p.entries()) {
     if (i.c && !i.c->empty()) {
-      fout << "// " << *(i.c) << std::endl;
+      fout << "// " << one_line(*(i.c)) << std::endl;
     } else if (i.r) {
       fout << *(i.r) << std::endl;
     } else if (i.f) {
       fout << "#define " << i.f->name << "\t((FLDID32)" << i.f->fieldid
            << ")\t\t// " << i.f->name << "\t" << Fldno32(i.f->fieldid) << "\t"
-           << field_type_names[Fldtype32(i.f->fieldid)] << "\t" << i.f->comment
-           << std::endl;
+           << field_type_names[Fldtype32(i.f->fieldid)] << "\t"
+           << one_line(i.f->comment) << std::endl;
     }
   }
 }
-- 
2.43.0


From 5f2393701241fb85354819e46344591a4b145315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 042/131] fix: blank lines of several spaces in field tables
 and views

---
 src/fieldtbl32.h | 3 ++-
 src/view32.h     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fieldtbl32.h b/src/fieldtbl32.h
index 7cbdb60..414be91 100644
--- a/src/fieldtbl32.h
+++ b/src/fieldtbl32.h
@@ -97,7 +97,8 @@ class field_table_parser : public basic_parser {
         entries_.push_back(
             {nullptr, nullptr, std::make_unique<field>(fields_.back())});
       } else {
-        accept([](int c) { return ::isspace(c) && c != '\n'; });
+        while (accept([](int c) { return ::isspace(c) && c != '\n'; }))
+          ;
       }
     }
 
diff --git a/src/view32.h b/src/view32.h
index 92b2034..3af927a 100644
--- a/src/view32.h
+++ b/src/view32.h
@@ -133,7 +133,8 @@ class view_parser : public basic_parser {
               {nullptr, std::make_unique<field>(fields_.back()), nullptr, nullptr});
         }
       } else {
-        accept([](int c) { return ::isspace(c) && c != '\n'; });
+        while (accept([](int c) { return ::isspace(c) && c != '\n'; }))
+          ;
       }
     }
 
-- 
2.43.0


From 16af50a72fe6894be652c3e3e643e606e54ab0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 043/131] fix: tmloadcf writes the configuration only when it
 is valid and not with -n

---
 src/tmloadcf.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/tmloadcf.cpp b/src/tmloadcf.cpp
index 9999622..52f0b02 100644
--- a/src/tmloadcf.cpp
+++ b/src/tmloadcf.cpp
@@ -83,18 +83,25 @@ int main(int argc, char *argv[]) {
     tuxcfg.maxaccessers =
         require(config.resources, "MAXACCESSERS", 1, 32768, 100);
 
-    std::ofstream fout(outfile, std::ios::binary);
-    fout.write(reinterpret_cast<char *>(&tuxcfg), sizeof(tuxcfg));
-
-    fin.clear();
-    fin.seekg(0);
-    fout << fin.rdbuf();
-
     //    tuxcfg.maxqueues = std::stoi(config.resources.at("MAXQUEUES"));
 
     mib m(tuxcfg, fux::mib::in_heap());
 
     ubb2mib(config, m);
+
+    if (noop) {
+      return 0;
+    }
+
+    std::ofstream fout;
+    fout.exceptions(std::ofstream::failbit | std::ofstream::badbit);
+    fout.open(outfile, std::ios::binary);
+    fout.write(reinterpret_cast<char *>(&tuxcfg), sizeof(tuxcfg));
+
+    fin.clear();
+    fin.seekg(0);
+    fout << fin.rdbuf();
+    fout.close();
   } catch (const std::system_error &e) {
     std::cerr << e.code().message() << std::endl;
     return -1;
-- 
2.43.0


From c8b7195ae58c5fc6403a5aebd3bfe57a68af6451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 044/131] fix: accept SCANUNIT in seconds

---
 src/ubb2mib.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ubb2mib.cpp b/src/ubb2mib.cpp
index 0b4d3b1..0a791a8 100644
--- a/src/ubb2mib.cpp
+++ b/src/ubb2mib.cpp
@@ -69,7 +69,8 @@ void ubb2mib(ubbconfig &u, mib &m) {
   // scanunit to milliseconds
   std::transform(scanunit.begin(), scanunit.end(), scanunit.begin(),
                  [](unsigned char c) { return std::tolower(c); });
-  if (scanunit.compare(scanunit.size() - 2, 2, "ms")) {
+  if (scanunit.size() > 2 &&
+      scanunit.compare(scanunit.size() - 2, 2, "ms") == 0) {
     scanunit = scanunit.substr(0, scanunit.size() - 2);
   } else {
     scanunit += "000";
-- 
2.43.0


From c2b65ac5e5f865348a47dc2b310e4f7424bbd4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 045/131] fix: at least MIN servers are configured when MAX is
 missing

---
 src/ubb2mib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubb2mib.cpp b/src/ubb2mib.cpp
index 0a791a8..224619b 100644
--- a/src/ubb2mib.cpp
+++ b/src/ubb2mib.cpp
@@ -122,7 +122,7 @@ void ubb2mib(ubbconfig &u, mib &m) {
   for (auto &srvconf : u.servers) {
     auto basesrvid = checked_get(srvconf.second, "SRVID", 1, 30000);
     auto min = checked_get(srvconf.second, "MIN", 1, 1000, 1);
-    auto max = checked_get(srvconf.second, "MAX", 1, 1000, 1);
+    auto max = checked_get(srvconf.second, "MAX", min, 1000, min);
     auto minthreads =
         checked_get(srvconf.second, "MINDISPATCHTHREADS", 1, 1000, 1);
     auto maxthreads =
-- 
2.43.0


From 9a77342e4e0a55fe6ff8a38ee465b546ed957cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 046/131] fix: reject groups with the same name

---
 src/mib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mib.cpp b/src/mib.cpp
index fb727ff..d576f36 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -234,7 +234,7 @@ size_t mib::make_group(uint16_t grpno, const std::string &srvgrp,
                        const std::string &openinfo,
                        const std::string &closeinfo,
                        const std::string &tmsname) {
-  if (find_group(grpno) != badoff) {
+  if (find_group(grpno) != badoff || group_index(srvgrp) != badoff) {
     throw std::logic_error("Duplicate group");
   }
 
-- 
2.43.0


From 6cb3f3b07723f778471db801b1769af4d5344a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 047/131] fix: comments after and between parameters of the
 configuration

---
 src/ubbreader.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/ubbreader.h b/src/ubbreader.h
index 0d75c0e..4001e4b 100644
--- a/src/ubbreader.h
+++ b/src/ubbreader.h
@@ -31,8 +31,7 @@ class ubbreader : public basic_parser {
             throw basic_parser_error("RESOURCES section must have PARAM VALUE",
                                      row_, "VALUE");
           }
-          whitespace();
-          if (!accept('\n')) {
+          if (!parse_till_eol() && !eof()) {
             throw basic_parser_error("RESOURCES section must have PARAM VALUE",
                                      row_, "");
           }
@@ -86,13 +85,23 @@ class ubbreader : public basic_parser {
 
   bool parse_params(ubb_params *ubbparams) {
     while (true) {
-      whitespace();
-      // Continued on next line
-      if (accept('\n')) {
-        if (!whitespace()) {
+      if (parse_till_eol()) {
+        // Continued on next line
+        bool continued;
+        do {
+          while (accept('#')) {
+            rest_of_line();
+            accept('\n');
+          }
+          continued = whitespace();
+        } while (continued && parse_till_eol());
+        if (!continued) {
           return true;
         }
       }
+      if (eof()) {
+        return true;
+      }
 
       std::string key, value;
       if (!parameter(&key)) {
-- 
2.43.0


From 3fa053bc850d374df1ea159e793229b250496a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 048/131] fix: MAXSERVICES above 65535

---
 src/mib.cpp    | 4 ++--
 src/mibtypes.h | 2 +-
 src/ubb.h      | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mib.cpp b/src/mib.cpp
index d576f36..3d05741 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -104,7 +104,7 @@ size_t mib::needed(const tuxconfig &cfg) {
          nearest64(cfg.maxservers * sizeof(server)) +
          nearest64(cfg.maxqueues * sizeof(queue)) +
          nearest64(cfg.maxservices * sizeof(service)) +
-         nearest64(cfg.maxservers * cfg.maxservices * sizeof(advertisement)) +
+         nearest64(sizeof(advertisement) * cfg.maxservers * cfg.maxservices) +
          nearest64(cfg.maxgroups * sizeof(group)) +
          nearest64(cfg.maxaccessers * sizeof(accesser)) +
          nearest64(transaction_table::needed(100, cfg.maxgroups));
@@ -117,7 +117,7 @@ void mib::init_memory() {
   off +=
       init(mem_->services, cfg_.maxservices, off - offsetof(mibmem, services));
   off += init(mem_->groups, cfg_.maxgroups, off - offsetof(mibmem, groups));
-  off += init(mem_->advertisements, cfg_.maxservers * cfg_.maxservices,
+  off += init(mem_->advertisements, size_t(cfg_.maxservers) * cfg_.maxservices,
               off - offsetof(mibmem, advertisements));
   off += init(mem_->accessers, cfg_.maxaccessers,
               off - offsetof(mibmem, accessers));
diff --git a/src/mibtypes.h b/src/mibtypes.h
index 96872b5..f972247 100644
--- a/src/mibtypes.h
+++ b/src/mibtypes.h
@@ -36,7 +36,7 @@ struct t_domain {
 
   uint32_t trantime;
   uint16_t maxservers;
-  uint16_t maxservices;
+  uint32_t maxservices;
   uint16_t maxqueues;
   uint16_t maxgroups;
   uint16_t maxaccessers;
diff --git a/src/ubb.h b/src/ubb.h
index c7cb9e2..bb8dedb 100644
--- a/src/ubb.h
+++ b/src/ubb.h
@@ -33,7 +33,7 @@ struct tuxconfig {
   size_t size;  // Size and "signature" at the same time
   uint32_t ipckey;
   uint16_t maxservers;
-  uint16_t maxservices;
+  uint32_t maxservices;
   uint16_t maxqueues;
   uint16_t maxgroups;
   uint16_t maxaccessers;
-- 
2.43.0


From fda0fe11c5c1e9ebd6e9a9a1849e86fc2b28b273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:44 +0000
Subject: [PATCH 049/131] fix: reject numbers followed by something else in the
 configuration

---
 src/tmloadcf.cpp | 11 +++++++++--
 src/ubb2mib.cpp  | 16 +++++++++++++---
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/tmloadcf.cpp b/src/tmloadcf.cpp
index 52f0b02..fd7f5e5 100644
--- a/src/tmloadcf.cpp
+++ b/src/tmloadcf.cpp
@@ -30,7 +30,11 @@ long require(T &dict, const std::string &key, long min, long max,
     return defvalue;
     //    throw std::out_of_range(key + " required");
   }
-  auto value = std::stol(dict[key]);
+  size_t used;
+  auto value = std::stol(dict[key], &used);
+  if (used != dict[key].size()) {
+    throw std::invalid_argument(key + " must be a number");
+  }
   if (value < min || value > max) {
     throw std::out_of_range(key + " out of range");
   }
@@ -74,7 +78,10 @@ int main(int argc, char *argv[]) {
 
     tuxconfig tuxcfg;
     tuxcfg.size = sizeof(tuxcfg) + fs::file_size(file);
-    tuxcfg.ipckey = std::stoi(config.resources.at("IPCKEY"));
+    config.resources.at("IPCKEY");
+    tuxcfg.ipckey = require(config.resources, "IPCKEY",
+                            std::numeric_limits<int32_t>::min(),
+                            std::numeric_limits<int32_t>::max(), 0);
     tuxcfg.maxservers = require(config.resources, "MAXSERVERS", 1, 8192, 50);
     tuxcfg.maxservices =
         require(config.resources, "MAXSERVICES", 1, 1048575, 100);
diff --git a/src/ubb2mib.cpp b/src/ubb2mib.cpp
index 224619b..06466cd 100644
--- a/src/ubb2mib.cpp
+++ b/src/ubb2mib.cpp
@@ -10,12 +10,21 @@
 #include "misc.h"
 #include "ubbreader.h"
 
+static long to_number(const std::string &value, const std::string &key) {
+  size_t used;
+  auto number = std::stol(value, &used);
+  if (used != value.size()) {
+    throw std::invalid_argument(key + " must be a number");
+  }
+  return number;
+}
+
 template <typename T>
 static long checked_get(T &dict, const std::string &key, long min, long max) {
   if (dict.find(key) == dict.end()) {
     throw std::out_of_range(key + " required");
   }
-  auto value = std::stol(dict[key]);
+  auto value = to_number(dict[key], key);
   if (value < min || value > max) {
     throw std::out_of_range(key + " out of range");
   }
@@ -28,7 +37,7 @@ static long checked_get(T &dict, const std::string &key, long min, long max,
   if (dict.find(key) == dict.end()) {
     return defvalue;
   }
-  auto value = std::stol(dict[key]);
+  auto value = to_number(dict[key], key);
   if (value < min || value > max) {
     throw std::out_of_range(key + " out of range");
   }
@@ -76,7 +85,8 @@ void ubb2mib(ubbconfig &u, mib &m) {
     scanunit += "000";
   }
 
-  m.mach().blocktime = std::stol(blocktime) * std::stol(scanunit);
+  m.mach().blocktime = to_number(blocktime, "BLOCKTIME") *
+                       to_number(scanunit, "SCANUNIT");
 
   auto &domain = m.domain();
   domain.ipckey = m.conf().ipckey;
-- 
2.43.0


From acbe4e3c444bcb47460def6e4e42b6ddf242bd4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:44 +0000
Subject: [PATCH 050/131] fix: sizes of large tables do not exhaust the stack

---
 src/misc.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/misc.h b/src/misc.h
index 1c2f741..acb636d 100644
--- a/src/misc.h
+++ b/src/misc.h
@@ -188,8 +188,8 @@ inline std::vector<std::string> split(const std::string &s,
 }
 }  // namespace fux
 
-static constexpr size_t nearest(size_t n, size_t what, size_t mult = 1) {
-  return n <= (mult * what) ? (mult * what) : nearest(n, what, mult + 1);
+static constexpr size_t nearest(size_t n, size_t what) {
+  return n <= what ? what : (n + what - 1) / what * what;
 }
 
 static constexpr size_t nearest64(size_t n) { return nearest(n, 64); }
-- 
2.43.0


From d30046073e4e9d3b506d0459259f66743d377305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 051/131] fix: configuration may end with an empty section

---
 src/ubbreader.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ubbreader.h b/src/ubbreader.h
index 4001e4b..e11e2b2 100644
--- a/src/ubbreader.h
+++ b/src/ubbreader.h
@@ -75,7 +75,7 @@ class ubbreader : public basic_parser {
       if (!name(section)) {
         throw basic_parser_error("section name expected", row_, "*SECTION");
       }
-      if (!parse_till_eol()) {
+      if (!parse_till_eol() && !eof()) {
         throw basic_parser_error("newline expected", row_, "*SECTION");
       }
       return true;
-- 
2.43.0


From b77acd7a18d6128112169107762383f5825ea95e Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 052/131] fix: failed sends and receives of large messages
 leave no file

---
 src/ipc.cpp | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index 70e8afc..7e37de3 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -180,26 +180,48 @@ static bool msgsnd_timed(int msqid, void *ptr, size_t len, enum flags flag,
   return false;
 }
 
+// Closes and removes the file unless it has been closed or given away
+struct temp_file {
+  int fd;
+  const char *filename;
+
+  int close() {
+    auto n = ::close(fd);
+    fd = -1;
+    return n;
+  }
+  ~temp_file() {
+    if (fd != -1) {
+      close();
+    }
+    if (filename != nullptr) {
+      unlink(filename);
+    }
+  }
+};
+
 bool qsend(int msqid, msg &data, long timeout, enum flags flags) {
   if (data.size() > MAX_QUEUE_MSG_SIZE) {
     char tmpname[] = "/tmp/msgbase-XXXXXX";
     int fd = mkstemp(tmpname);
     fail_if(fd == -1);
+    temp_file tmp{fd, tmpname};
     fail_if(write(fd, data.buf() + sizeof(msgbase),
                   data.size() - sizeof(msgbase)) !=
             data.size() - sizeof(msgbase));
-    fail_if(close(fd) == -1);
+    fail_if(tmp.close() == -1);
 
     msgfile fmsg;
     fmsg.mtype = data->mtype;
+    fmsg.cat = data->cat;
     fmsg.ttype = fux::ipc::file;
     std::copy_n(tmpname, sizeof(tmpname), fmsg.filename);
     auto len = sizeof(msgbase) + sizeof(tmpname);
 
     if (!msgsnd_timed(msqid, &fmsg, len, flags, timeout)) {
-      unlink(tmpname);
       return false;
     }
+    tmp.filename = nullptr;
     return true;
   } else {
     data->ttype = fux::ipc::queue;
@@ -220,13 +242,16 @@ void qrecv(int msqid, msg &data, long msgtype, int flags) {
   if (data->ttype == fux::ipc::file) {
     char filename[n];
     strcpy(filename, data.as_msgfile().filename);
+    temp_file tmp{-1, filename};
     struct stat st;
     fail_if(stat(filename, &st) == -1);
     int fd = open(filename, 0);
     fail_if(fd == -1);
+    tmp.fd = fd;
     data.resize(sizeof(msgbase) + st.st_size);
     fail_if(read(fd, data.buf() + sizeof(msgbase), st.st_size) != st.st_size);
-    fail_if(close(fd) == -1);
+    fail_if(tmp.close() == -1);
+    tmp.filename = nullptr;
     fail_if(unlink(filename) == -1);
   }
 }
-- 
2.43.0


From f400dfd6dbeeaf52ac84da0b0eb926f0ae8d657d Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 053/131] fix: files of large messages are removed with their
 queue

---
 src/ipc.cpp | 18 +++++++++++++++++-
 src/mib.cpp |  2 +-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index 7e37de3..5313b37 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -256,7 +256,23 @@ void qrecv(int msqid, msg &data, long msgtype, int flags) {
   }
 }
 
-void qdelete(int msqid) { msgctl(msqid, IPC_RMID, NULL); }
+void qdelete(int msqid) {
+  // Large messages left in the queue have files that nobody else would remove
+  struct msqid_ds ds;
+  if (msgctl(msqid, IPC_STAT, &ds) == 0) {
+    // ... and no more messages may come
+    ds.msg_qbytes = 0;
+    msgctl(msqid, IPC_SET, &ds);
+  }
+  msgfile fmsg;
+  while (msgrcv(msqid, &fmsg, sizeof(fmsg) - sizeof(long), 0,
+                IPC_NOWAIT | MSG_NOERROR) != -1) {
+    if (fmsg.ttype == fux::ipc::file) {
+      unlink(fmsg.filename);
+    }
+  }
+  msgctl(msqid, IPC_RMID, NULL);
+}
 
 void msg::set_data(char *data, long len) {
   if (data == nullptr) {
diff --git a/src/mib.cpp b/src/mib.cpp
index 3d05741..c2e1e2b 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -416,7 +416,7 @@ void mib::collect(std::vector<int> &q, std::vector<int> &m,
 void mib::remove(std::vector<int> &q, std::vector<int> &m,
                  std::vector<int> &s) {
   for (int i : q) {
-    msgctl(i, IPC_RMID, NULL);
+    fux::ipc::qdelete(i);
   }
   for (int i : s) {
     fux::ipc::semrm(i);
-- 
2.43.0


From 6f81e651cdfeacccf6add5c057236719f5fb91e7 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 054/131] fix: transaction table lies within the shared memory
 of the domain

---
 src/mib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mib.cpp b/src/mib.cpp
index c2e1e2b..301f715 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -122,7 +122,7 @@ void mib::init_memory() {
   off += init(mem_->accessers, cfg_.maxaccessers,
               off - offsetof(mibmem, accessers));
 
-  mem_->transactions_off = off;
+  mem_->transactions_off = off - offsetof(mibmem, data);
   transactions().init(100, cfg_.maxgroups);
 
   off += nearest64(transaction_table::needed(transactions().size,
-- 
2.43.0


From 50188715468ec5a95b4e1468600ba0a4bfce6a6b Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 055/131] fix: terminate copied strings

---
 src/misc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc.h b/src/misc.h
index acb636d..352609a 100644
--- a/src/misc.h
+++ b/src/misc.h
@@ -96,7 +96,7 @@ void checked_copy(const std::string &src, char (&dst)[N]) {
     throw std::length_error(string_format(
         "%s too long for destination of %d bytes", src.c_str(), N));
   }
-  std::copy_n(src.c_str(), src.size(), dst);
+  std::copy_n(src.c_str(), src.size() + 1, dst);
 }
 
 template <unsigned int N>
-- 
2.43.0


From 24c6c18d1d24e65aca2f8171dd55c2910d478f7f Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 056/131] fix: reject clients above MAXACCESSERS without
 counting them

---
 src/mib.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mib.cpp b/src/mib.cpp
index 301f715..b3132e7 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -313,10 +313,14 @@ size_t mib::make_accesser(pid_t pid) {
     }
   }
   if (at == -1) {
-    at = accessers()->len++;
+    at = accessers()->len;
   }
   auto &accesser = accessers().at(at);
+  if (size_t(at) == accessers()->len) {
+    accessers()->len++;
+  }
   accesser.rpid_timeout = INVALID_TIME;
+  accesser.rpid = -1;
   accesser.pid = pid;
   return at;
 }
-- 
2.43.0


From 31d1b742c356f62ce04ec2e58f67e20c7932b3ca Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 057/131] fix: watchdog does not take the entry or the queue of
 another client

---
 src/BBL.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BBL.cpp b/src/BBL.cpp
index 9bdcb1c..d713e0d 100644
--- a/src/BBL.cpp
+++ b/src/BBL.cpp
@@ -78,6 +78,7 @@ static void monitor_servers() {
 static void monitor_clients() {
   mib &m = getmib();
   auto accessers = m.accessers();
+  auto lock = m.data_lock();
 
   for (int i = accessers->len - 1; i >= 0; i--) {
     auto &accesser = accessers[i];
@@ -85,11 +86,10 @@ static void monitor_clients() {
       continue;
     }
     if (!alive(accesser.pid)) {
-      accesser.pid = 0;
-      if (accesser.rpid != 0) {
+      if (accesser.rpid != -1) {
         fux::ipc::qdelete(accesser.rpid);
-        accesser.rpid = 0;
       }
+      accesser.invalidate();
     }
   }
 }
-- 
2.43.0


From 8cfe060cc2eae9c3426b3742b2a6905df2e78d43 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 058/131] fix: servers know their group

---
 src/mib.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mib.cpp b/src/mib.cpp
index b3132e7..d656f74 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -278,6 +278,7 @@ size_t mib::make_server(uint16_t srvid, uint16_t grpno,
   auto &server = servers().at(servers()->len);
   server.srvid = srvid;
   server.grpno = grpno;
+  server.group_idx = find_group(grpno);
   checked_copy(servername, server.servername);
   checked_copy(clopt, server.clopt);
 
-- 
2.43.0


From cd8b33edfc142a54d5cb364ede4b43bd409256a0 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 059/131] fix: tpunadvertise locks the registry

---
 src/server.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server.cpp b/src/server.cpp
index b0a3841..3ee78ee 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -143,10 +143,13 @@ struct server_main {
     auto it = advertisements.find(svcname);
 
     if (it != advertisements.end()) {
+      {
+        auto lock = m_.data_lock();
+        m_.unadvertise(svcname, mib_queue, mib_server);
+      }
       auto freeme = it->first;
       advertisements.erase(it);
       free(const_cast<char *>(freeme));
-      m_.unadvertise(svcname, mib_queue, mib_server);
     } else {
       TPERROR(TPENOENT, "svcname not advertised");
       return -1;
-- 
2.43.0


From b39cfb94fd7d06daab490944b92440ba434be07c Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 22:49:37 +0000
Subject: [PATCH 060/131] fix: load the configuration into shared memory once
 and completely

---
 src/mib.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/mib.cpp b/src/mib.cpp
index d656f74..3b157e2 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -437,17 +437,20 @@ void mib::remove(std::vector<int> &q, std::vector<int> &m,
 void ubb2mib(ubbconfig &u, mib &m);
 
 mib &getmib() {
-  static std::unique_ptr<mib> mibcon;
-
-  if (!mibcon.get()) {
-    auto cfg = getconfig();
-    mibcon = std::make_unique<mib>(cfg);
-    if (mibcon->servers()->len == 0) {
+  static std::unique_ptr<mib> mibcon = [] {
+    auto m = std::make_unique<mib>(getconfig());
+    auto lock = m->data_lock();
+    if (m->servers()->len == 0) {
       ubbconfig u;
-      getconfig(&u);
-      ubb2mib(u, *mibcon.get());
+      auto cfg = getconfig(&u);
+      // Find errors first to not leave half of the configuration for others
+      mib trial(cfg, fux::mib::in_heap());
+      std::unique_ptr<mibmem, decltype(&free)> mem(trial.operator->(), free);
+      ubb2mib(u, trial);
+      ubb2mib(u, *m);
     }
-  }
+    return m;
+  }();
 
   return *mibcon.get();
 }
-- 
2.43.0


From 5a8a4754992af86900f95562b4914b708c2294b8 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:04:47 +0000
Subject: [PATCH 061/131] fix: T_SERVER reports the group of each server

---
 src/tpadmcall.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tpadmcall.cpp b/src/tpadmcall.cpp
index 9fd2949..a8f7f0d 100644
--- a/src/tpadmcall.cpp
+++ b/src/tpadmcall.cpp
@@ -137,10 +137,13 @@ static void t_server_get(fml32buf &in, fml32buf &out) {
   for (size_t i = 0; i < srv.length(); i++) {
     auto &server = srv.at(i);
 
-    out.put(TA_SRVGRP, oc, m.groups().at(server.group_idx).srvgrp);
+    // BBL does not belong to any of the groups
+    auto group_idx = m.find_group(server.grpno);
+    out.put(TA_SRVGRP, oc,
+            group_idx != mib::badoff ? m.groups().at(group_idx).srvgrp : "");
     out.put(TA_SRVID, oc, server.srvid);
     out.put(TA_SERVERNAME, oc, server.servername);
-    out.put(TA_GRPNO, oc, m.groups().at(server.group_idx).grpno);
+    out.put(TA_GRPNO, oc, server.grpno);
     out.put(TA_STATE, oc, to_string(server.state));
     out.put(TA_BASESRVID, oc, server.basesrvid);
     out.put(TA_CLOPT, oc, server.clopt);
-- 
2.43.0


From 1ac1f35d0b00da0fbeac100dd5c5c5a760cb35da Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 062/131] fix: tpadmcall reports success and refuses unknown
 requests

---
 src/BBL.cpp       |  4 ++--
 src/tpadmcall.cpp | 18 ++++++++++++++----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/BBL.cpp b/src/BBL.cpp
index d713e0d..ee6f806 100644
--- a/src/BBL.cpp
+++ b/src/BBL.cpp
@@ -114,7 +114,7 @@ extern "C" void TMIB(TPSVCINFO *svcinfo) {
   fux::fml32buf rq(svcinfo);
   fux::fml32buf rs;
 
-  tpadmcall(rq.ptr(), rs.ptrptr(), 0);
+  int rc = tpadmcall(rq.ptr(), rs.ptrptr(), 0);
 
-  fux::tpreturn(TPSUCCESS, 0, rs);
+  fux::tpreturn(rc == -1 ? TPFAIL : TPSUCCESS, 0, rs);
 }
diff --git a/src/tpadmcall.cpp b/src/tpadmcall.cpp
index a8f7f0d..1ac28d4 100644
--- a/src/tpadmcall.cpp
+++ b/src/tpadmcall.cpp
@@ -6,6 +6,7 @@
 
 #include "fux.h"
 #include "mib.h"
+#include "misc.h"
 
 using fux::fml32buf;
 
@@ -262,7 +263,7 @@ static std::map<std::tuple<std::string, std::string>,
                    {{"T_GROUP", "GET"}, t_group_get},
                    {{"T_QUEUE", "GET"}, t_queue_get}};
 
-int tpadmcall(FBFR32 *inbuf, FBFR32 **outbuf, long flags) {
+static int admcall(FBFR32 *inbuf, FBFR32 **outbuf, long flags) {
   fml32buf in(&inbuf);
   fml32buf out(outbuf);
 
@@ -271,9 +272,18 @@ int tpadmcall(FBFR32 *inbuf, FBFR32 **outbuf, long flags) {
 
   auto func = implemented.find({klass, operation});
   if (func == implemented.end()) {
-  } else {
-    func->second(in, out);
+    out.put(TA_ERROR, 0, -1);
+    out.put(TA_OCCURS, 0, 0);
+    TPERROR(TPEINVAL, "Unknown class %s or operation %s", klass.c_str(),
+            operation.c_str());
+    return -1;
   }
 
-  return -1;
+  func->second(in, out);
+  return 0;
+}
+
+int tpadmcall(FBFR32 *inbuf, FBFR32 **outbuf, long flags) {
+  return fux::atmi::exception_boundary(
+      [&] { return admcall(inbuf, outbuf, flags); }, -1);
 }
-- 
2.43.0


From 1bee43a472c8f12197a5e84c0eb119f4df6b3703 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 063/131] fix: T_SVCGRP skips services that are not advertised
 anymore

---
 src/tpadmcall.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tpadmcall.cpp b/src/tpadmcall.cpp
index 1ac28d4..15600d2 100644
--- a/src/tpadmcall.cpp
+++ b/src/tpadmcall.cpp
@@ -180,10 +180,11 @@ static void t_svcgrp_get(fml32buf &in, fml32buf &out) {
   FLDOCC32 oc = 0;
   for (size_t i = 0; i < svcgrp.length(); i++) {
     auto &adv = svcgrp.at(i);
+    if (adv.service == mib::badoff) {
+      continue;
+    }
     auto &service = m.services().at(adv.service);
     out.put(TA_SERVICENAME, oc, service.servicename);
-    //    out.put(TA_SRVGRP, oc,
-    //    m.groups().at(m.find_group(srv.at(adv.server).grpno)).srvgrp);
     out.put(TA_GRPNO, oc, srv.at(adv.server).grpno);
     out.put(TA_STATE, oc, to_string(adv.state));
     out.put(TA_AUTOTRAN, oc, service.autotran);
-- 
2.43.0


From 20946cbc9ae9fe4b238750dc7da45cc010a16bfd Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:05:05 +0000
Subject: [PATCH 064/131] fix: TA_RESTART is Y or N

---
 src/tpadmcall.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tpadmcall.cpp b/src/tpadmcall.cpp
index 15600d2..b6f4518 100644
--- a/src/tpadmcall.cpp
+++ b/src/tpadmcall.cpp
@@ -161,7 +161,7 @@ static void t_server_get(fml32buf &in, fml32buf &out) {
     out.put(TA_HWDISPATCHTHREADS, oc, server.hwdispatchthreads);
     out.put(TA_NUMDISPATCHTHREADS, oc, server.numdispatchthreads);
     out.put(TA_RCMD, oc, server.rcmd);
-    out.put(TA_RESTART, oc, server.restart);
+    out.put(TA_RESTART, oc, to_string(server.restart));
 
     out.put(TA_LMID, oc, m.mach().lmid);
     oc++;
@@ -222,7 +222,7 @@ static void t_queue_get(fml32buf &in, fml32buf &out) {
     out.put(TA_GRACE, oc, s.grace);
     out.put(TA_MAXGEN, oc, s.maxgen);
     out.put(TA_RCMD, oc, s.rcmd);
-    out.put(TA_RESTART, oc, s.restart);
+    out.put(TA_RESTART, oc, to_string(s.restart));
     out.put(TA_CONV, oc, to_string(s.conv));
     out.put(TA_LMID, oc, m.mach().lmid);
     out.put(TA_RQID, oc, q.msqid);
-- 
2.43.0


From afadfdb75a4c4ee4234a89496da42f59f1aef3ea Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 065/131] fix: T_GROUP reports the groups of the domain

---
 src/tpadmcall.cpp | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/tpadmcall.cpp b/src/tpadmcall.cpp
index b6f4518..e0bb3f1 100644
--- a/src/tpadmcall.cpp
+++ b/src/tpadmcall.cpp
@@ -241,16 +241,23 @@ static void t_queue_get(fml32buf &in, fml32buf &out) {
 }
 
 static void t_group_get(fml32buf &in, fml32buf &out) {
-  tuxconfig tuxcfg;
-  tuxcfg.size = 0;
-  tuxcfg.ipckey = 0;
-  tuxcfg.maxservers = 1;
-  tuxcfg.maxservices = 1;
-  tuxcfg.maxgroups = 1;
-  tuxcfg.maxqueues = 1;
-  mib m(tuxcfg, fux::mib::in_heap());
-
+  auto &m = getmib();
   auto groups = m.groups();
+
+  FLDOCC32 oc = 0;
+  for (size_t i = 0; i < groups.length(); i++) {
+    auto &group = groups.at(i);
+    out.put(TA_SRVGRP, oc, group.srvgrp);
+    out.put(TA_GRPNO, oc, group.grpno);
+    out.put(TA_LMID, oc, m.mach().lmid);
+    out.put(TA_OPENINFO, oc, group.openinfo);
+    out.put(TA_CLOSEINFO, oc, group.closeinfo);
+    out.put(TA_TMSNAME, oc, group.tmsname);
+    oc++;
+  }
+
+  out.put(TA_ERROR, 0, TAOK);
+  out.put(TA_OCCURS, 0, oc);
 }
 
 static std::map<std::tuple<std::string, std::string>,
-- 
2.43.0


From e16dab564daa34eeb8a9d054d5f475ac39e2b461 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 066/131] fix: refused T_SERVER SET does not add a server

---
 src/tpadmcall.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/tpadmcall.cpp b/src/tpadmcall.cpp
index e0bb3f1..e3c57d9 100644
--- a/src/tpadmcall.cpp
+++ b/src/tpadmcall.cpp
@@ -92,9 +92,16 @@ static void t_server_set(fml32buf &in, fml32buf &out) {
       throw std::logic_error("Server already exists");
     }
   } else {
-    server_idx = m.servers()->len++;
+    server_idx = m.servers()->len;
   }
   auto &server = m.servers().at(server_idx);
+  // Fields that are required or may be refused
+  checked_copy(in.get<std::string>(TA_SERVERNAME, oc), server.servername);
+  checked_copy(in.get(TA_CLOPT, oc, "-A"), server.clopt);
+  checked_copy(in.get(TA_ENVFILE, oc, ""), server.envfile);
+  checked_copy(in.get(TA_DEPENDSON, oc, ""), server.dependson);
+  checked_copy(in.get<std::string>(TA_RCMD, oc), server.rcmd);
+  server.restart = to_bool(in.get(TA_RESTART, oc, "N"));
 
   server.rqaddr_idx = m.find_queue(rqaddr);
   if (server.rqaddr_idx == mib::badoff) {
@@ -103,12 +110,8 @@ static void t_server_set(fml32buf &in, fml32buf &out) {
 
   server.group_idx = group_idx;
   server.srvid = srvid;
-  checked_copy(in.get<std::string>(TA_SERVERNAME, oc), server.servername);
   server.state = state;
   server.basesrvid = in.get(TA_BASESRVID, oc, 0);
-  checked_copy(in.get(TA_CLOPT, oc, "-A"), server.clopt);
-  checked_copy(in.get(TA_ENVFILE, oc, ""), server.envfile);
-  checked_copy(in.get(TA_DEPENDSON, oc, ""), server.dependson);
   server.grace = in.get(TA_GRACE, oc, 86400);
   server.maxgen = in.get(TA_MAXGEN, oc, 1);
   server.min = in.get(TA_MIN, oc, 1);
@@ -119,9 +122,10 @@ static void t_server_set(fml32buf &in, fml32buf &out) {
   server.curdispatchthreads = in.get(TA_CURDISPATCHTHREADS, oc, 0);
   server.hwdispatchthreads = in.get(TA_HWDISPATCHTHREADS, oc, 0);
   server.numdispatchthreads = in.get(TA_NUMDISPATCHTHREADS, oc, 0);
-  checked_copy(in.get<std::string>(TA_RCMD, oc), server.rcmd);
-  server.restart = to_bool(in.get(TA_RESTART, oc, "N"));
   server.autostart = true;
+  if (server_idx == m.servers()->len) {
+    m.servers()->len++;
+  }
 
   m.queues().at(server.rqaddr).servercnt++;
   m.queues().at(server.rqaddr).server_idx = server_idx;
-- 
2.43.0


From c4c2add8f704ff6ed93a77890e73c3d9732eb52e Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 067/131] fix: administrative requests lock the tables

---
 src/tpadmcall.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tpadmcall.cpp b/src/tpadmcall.cpp
index e3c57d9..3b8158b 100644
--- a/src/tpadmcall.cpp
+++ b/src/tpadmcall.cpp
@@ -291,6 +291,8 @@ static int admcall(FBFR32 *inbuf, FBFR32 **outbuf, long flags) {
     return -1;
   }
 
+  auto &m = getmib();
+  auto lock = m.data_lock();
   func->second(in, out);
   return 0;
 }
-- 
2.43.0


From 2bddb1aaf0e375f0012c629e2d508b388631401d Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 068/131] fix: T_DOMAIN reports MASTER

---
 src/ubb2mib.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ubb2mib.cpp b/src/ubb2mib.cpp
index 06466cd..5923b6d 100644
--- a/src/ubb2mib.cpp
+++ b/src/ubb2mib.cpp
@@ -89,6 +89,7 @@ void ubb2mib(ubbconfig &u, mib &m) {
                        to_number(scanunit, "SCANUNIT");
 
   auto &domain = m.domain();
+  checked_copy(u.resources["MASTER"], domain.master);
   domain.ipckey = m.conf().ipckey;
   domain.maxservers = m.conf().maxservers;
   domain.maxservices = m.conf().maxservices;
-- 
2.43.0


From 495162ba66a0cbbad3bb782503ba59f9bc5a95dc Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 069/131] fix: T_SERVER reports MIN, MAX and BASESRVID

---
 src/ubb2mib.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ubb2mib.cpp b/src/ubb2mib.cpp
index 5923b6d..1d32bf2 100644
--- a/src/ubb2mib.cpp
+++ b/src/ubb2mib.cpp
@@ -149,6 +149,9 @@ void ubb2mib(ubbconfig &u, mib &m) {
       auto &server = servers.at(m.make_server(srvid, grpno, srvconf.first,
                                               srvconf.second["CLOPT"], rqaddr));
       server.autostart = n < min;
+      server.basesrvid = basesrvid;
+      server.min = min;
+      server.max = max;
       server.mindispatchthreads = minthreads;
       server.maxdispatchthreads = maxthreads;
     }
-- 
2.43.0


From 804afc1fbe8c9a0836eee7d02d24b01b1380a7f4 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:05:32 +0000
Subject: [PATCH 070/131] fix: servers not started and services not advertised
 are inactive

---
 src/mib.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mib.cpp b/src/mib.cpp
index 3b157e2..8be3c13 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -186,6 +186,12 @@ void mib::unadvertise(const std::string &servicename, size_t queue,
   advertisement.service = advertisement.queue = advertisement.server = badoff;
 
   services().at(service).modified();
+  for (size_t i = 0; i < advertisements()->len; i++) {
+    if (advertisements().at(i).service == service) {
+      return;
+    }
+  }
+  services().at(service).state = state_t::INActive;
 }
 
 size_t mib::find_queue(const std::string &rqaddr) {
@@ -281,6 +287,7 @@ size_t mib::make_server(uint16_t srvid, uint16_t grpno,
   server.group_idx = find_group(grpno);
   checked_copy(servername, server.servername);
   checked_copy(clopt, server.clopt);
+  server.state = state_t::INActive;
 
   server.rqaddr = find_queue(rqaddr);
   if (server.rqaddr == badoff) {
-- 
2.43.0


From e38f3f84eb24eb6aafbee97a2c9483ea51e42298 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 071/131] fix: refuse null service, descriptor and data

---
 src/client.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 6f0434a..599b8ae 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -60,6 +60,10 @@ class client {
 
   int tpacall_group(int grpno, const char *svc, char *data, long len,
                     long flags) try {
+    if (svc == nullptr || strlen(svc) == 0) {
+      TPERROR(TPEINVAL, "invalid svc");
+      return -1;
+    }
     int msqid = repo_.get_queue(grpno, svc);
     return tpacall_queue(msqid, svc, data, len, flags);
   } catch (const std::out_of_range &e) {
@@ -113,8 +117,9 @@ class client {
   }
 
   int tpgetrply(int *cd, char **data, long *len, long flags) {
-    if (data == nullptr) {
-      TPERROR(TPEINVAL, "data is null");
+    if (cd == nullptr || data == nullptr) {
+      TPERROR(TPEINVAL, "cd or data is null");
+      return -1;
     }
     if (tptypes(*data, nullptr, nullptr) == -1) {
       return -1;
-- 
2.43.0


From 2b662fdb32d22bad11cb64dc8e31ef28ce7e0bee Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 072/131] fix: unexpected errors are reported as TPESYSTEM

---
 src/misc.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/misc.h b/src/misc.h
index 352609a..b12ce54 100644
--- a/src/misc.h
+++ b/src/misc.h
@@ -73,7 +73,7 @@ void exception_boundary(F &&f) noexcept {
     reset_tperrno();
     f();
   } catch (const std::exception &e) {
-    TPERROR(-1, "Unhandled exception [%s]", e.what());
+    TPERROR(TPESYSTEM, "Unhandled exception [%s]", e.what());
   }
 }
 
@@ -83,7 +83,7 @@ auto exception_boundary(F &&f, R &&r) noexcept -> decltype(f()) {
     reset_tperrno();
     return f();
   } catch (const std::exception &e) {
-    TPERROR(-1, "Unhandled exception [%s]", e.what());
+    TPERROR(TPESYSTEM, "Unhandled exception [%s]", e.what());
     return r;
   }
 }
-- 
2.43.0


From 3f3f75d140aa5d675e992d1b9a3514541fd212e0 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 073/131] fix: tpinit and tpappthrinit report failures

---
 src/client.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 599b8ae..fe140ab 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -304,8 +304,12 @@ int tpinit(TPINIT *tpinfo) {
     TPERROR(TPEPROTO, "%s called from server", __func__);
     return -1;
   }
-  fux::atmi::exception_boundary([&] { getclient(); });
-  return 0;
+  return fux::atmi::exception_boundary(
+      [&] {
+        getclient();
+        return 0;
+      },
+      -1);
 }
 
 int tpterm() {
@@ -322,8 +326,12 @@ int tpappthrinit(TPINIT *tpinfo) {
     TPERROR(TPEPROTO, "%s called from client", __func__);
     return -1;
   }
-  fux::atmi::exception_boundary([&] { getclient(); });
-  return 0;
+  return fux::atmi::exception_boundary(
+      [&] {
+        getclient();
+        return 0;
+      },
+      -1);
 }
 
 int tpappthrterm() {
-- 
2.43.0


From c1ce2fc6dd3089e5156bd769fca811726d12aa9c Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 074/131] fix: clients end quietly after the domain has been
 removed

---
 src/client.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client.cpp b/src/client.cpp
index fe140ab..37a74de 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -52,10 +52,13 @@ class client {
     rpid = mibcon_.accessers().at(client_).rpid = fux::ipc::qcreate();
   }
 
-  ~client() {
+  ~client() try {
     auto lock = mibcon_.data_lock();
     fux::ipc::qdelete(mibcon_.accessers().at(client_).rpid);
     mibcon_.accessers().at(client_).invalidate();
+  } catch (const std::exception &e) {
+    // The domain might have been removed already
+    userlog("Failed to detach from the domain: %s", e.what());
   }
 
   int tpacall_group(int grpno, const char *svc, char *data, long len,
-- 
2.43.0


From d0b41e7abdf9463f42669e3f1ba1b5ba49b65caf Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 075/131] fix: failed requests release the call descriptor

---
 src/client.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 37a74de..4b0b6f0 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -102,9 +102,16 @@ class client {
       rq->gttid = fux::bad_gttid;
     }
 
-    if (fux::ipc::qsend(msqid, rq, next_blocktime(), to_flags(flags))) {
-      fux::atmi::reset_tperrno();
-      return rq->cd;
+    try {
+      if (fux::ipc::qsend(msqid, rq, next_blocktime(), to_flags(flags))) {
+        fux::atmi::reset_tperrno();
+        return rq->cd;
+      }
+    } catch (...) {
+      if (rq->cd != 0) {
+        cds.release(rq->cd);
+      }
+      throw;
     }
 
     if (flags & TPNOBLOCK) {
-- 
2.43.0


From 5afd18039f60812c910849e2e0c929eea839e3bf Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 076/131] fix: late replies are not delivered to other calls

---
 src/client.cpp | 30 ++++++++++++++++++++++++------
 src/resp.h     |  9 ++++++---
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 4b0b6f0..12c31dc 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -95,7 +95,7 @@ class client {
       }
     }
     if (!(flags & TPNOTRAN) && fux::tx::transactional()) {
-      rq->flags |= TPTRAN;
+      rq->flags = TPTRAN;
       rq->gttid = fux::tx::gttid();
     } else {
       rq->flags = 0;
@@ -114,15 +114,15 @@ class client {
       throw;
     }
 
+    if (rq->cd != 0) {
+      cds.release(rq->cd);
+    }
+
     if (flags & TPNOBLOCK) {
       TPERROR(TPEBLOCK, "Request queue is full");
     } else {
       TPERROR(TPETIME, "Failed to send within timeout");
     }
-
-    if (rq->cd != 0) {
-      cds.release(rq->cd);
-    }
     return -1;
   }
 
@@ -175,6 +175,12 @@ class client {
         return -1;
       }
 
+      // Nobody waits for replies of cancelled calls anymore
+      if (!cds.outstanding(res->cd)) {
+        userlog("Dropping late reply for cd=%d", res->cd);
+        continue;
+      }
+
       // Did not receive the correct response, try again
       if (!(flags & TPGETANY)) {
         if (*cd != res->cd) {
@@ -209,6 +215,12 @@ class client {
     return 0;
   }
 
+  void forget(int cd) {
+    if (cds.outstanding(cd)) {
+      cds.release(cd);
+    }
+  }
+
   int tpsblktime(int blktime, long flags) {
     long units = flags & 0xf0;
     long what = flags - units;
@@ -394,7 +406,13 @@ int tpcall(char *svc, char *idata, long ilen, char **odata, long *olen,
         if (cd == -1) {
           return -1;
         }
-        return tpgetrply(&cd, odata, olen, flags);
+        const int callcd = cd;
+        int rc = tpgetrply(&cd, odata, olen, flags);
+        if (rc == -1) {
+          // Nobody can ask for the reply after this
+          getclient().forget(callcd);
+        }
+        return rc;
       },
       -1);
 }
diff --git a/src/resp.h b/src/resp.h
index baa6759..e6d8486 100644
--- a/src/resp.h
+++ b/src/resp.h
@@ -54,7 +54,7 @@ class responses {
   }
 
   int any_buffered() {
-    for (auto it : calls_) {
+    for (auto &it : calls_) {
       if (it.second.status == flags::buffered) {
         return it.first;
       }
@@ -62,9 +62,12 @@ class responses {
     return -1;
   }
 
+  bool outstanding(int cd) { return calls_.find(cd) != calls_.end(); }
+
   void buffer(fux::ipc::msg &&res) {
-    calls_[res->cd].res = res;
-    calls_[res->cd].status = flags::buffered;
+    auto cd = res->cd;
+    calls_[cd].res = std::move(res);
+    calls_[cd].status = flags::buffered;
   }
 
   bool is_buffered(int cd) { return calls_[cd].status == flags::buffered; }
-- 
2.43.0


From 43beb301650ed432091963ab49b4857ffef60211 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:06:05 +0000
Subject: [PATCH 077/131] fix: calls time out when their block time has passed
 and not earlier

---
 src/client.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 12c31dc..dfc5b3d 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -135,6 +135,10 @@ class client {
       return -1;
     }
 
+    // Other replies received meanwhile do not give more time to this one
+    auto deadline = INVALID_TIME;
+    bool has_deadline = (flags & TPNOTIME) != 0;
+
     while (true) {
       fux::ipc::msg res;
 
@@ -157,15 +161,22 @@ class client {
       }
 
       if (!has_res) {
-        mibcon_.accessers().at(client_).rpid_timeout =
-            std::chrono::steady_clock::now() +
-            std::chrono::milliseconds(next_blocktime());
+        if (!has_deadline) {
+          deadline = std::chrono::steady_clock::now() +
+                     std::chrono::milliseconds(next_blocktime());
+          has_deadline = true;
+        }
+        mibcon_.accessers().at(client_).rpid_timeout = deadline;
         fux::ipc::qrecv(rpid, res, 0, 0);
         mibcon_.accessers().at(client_).rpid_timeout = INVALID_TIME;
         userlog("%s received on %0x", __func__, rpid);
       }
 
       if (res->cat == fux::ipc::unblock) {
+        if (std::chrono::steady_clock::now() < deadline) {
+          // Meant for a call that was done before the message arrived
+          continue;
+        }
         if (flags & TPGETANY) {
           *cd = 0;
         } else {
-- 
2.43.0


From 5b15eb2c6d58f00330b7cd2ced1866a3049df44c Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:06:44 +0000
Subject: [PATCH 078/131] fix: tpgetrply with TPNOBLOCK does not wait for a
 reply

---
 src/client.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index dfc5b3d..4b12c85 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -160,7 +160,17 @@ class client {
         }
       }
 
-      if (!has_res) {
+      if (!has_res && (flags & TPNOBLOCK)) {
+        try {
+          fux::ipc::qrecv(rpid, res, 0, IPC_NOWAIT);
+        } catch (const std::system_error &e) {
+          if (e.code().value() != ENOMSG) {
+            throw;
+          }
+          TPERROR(TPEBLOCK, "No reply available");
+          return -1;
+        }
+      } else if (!has_res) {
         if (!has_deadline) {
           deadline = std::chrono::steady_clock::now() +
                      std::chrono::milliseconds(next_blocktime());
@@ -173,7 +183,7 @@ class client {
       }
 
       if (res->cat == fux::ipc::unblock) {
-        if (std::chrono::steady_clock::now() < deadline) {
+        if ((flags & TPNOBLOCK) || std::chrono::steady_clock::now() < deadline) {
           // Meant for a call that was done before the message arrived
           continue;
         }
@@ -418,7 +428,8 @@ int tpcall(char *svc, char *idata, long ilen, char **odata, long *olen,
           return -1;
         }
         const int callcd = cd;
-        int rc = tpgetrply(&cd, odata, olen, flags);
+        // The request has been sent, now wait for the reply to this call
+        int rc = tpgetrply(&cd, odata, olen, flags & ~(TPNOBLOCK | TPGETANY));
         if (rc == -1) {
           // Nobody can ask for the reply after this
           getclient().forget(callcd);
-- 
2.43.0


From cad87724ac064152c4f5a84a4d7edbe068b2203a Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:06:44 +0000
Subject: [PATCH 079/131] fix: block time of the next call applies to the reply
 of tpcall

---
 src/client.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/client.cpp b/src/client.cpp
index 4b12c85..49e55a9 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -236,6 +236,9 @@ class client {
     return 0;
   }
 
+  long peek_next_blocktime() { return blocktime_next; }
+  void set_next_blocktime(long timeout) { blocktime_next = timeout; }
+
   void forget(int cd) {
     if (cds.outstanding(cd)) {
       cds.release(cd);
@@ -423,11 +426,13 @@ int tpcall(char *svc, char *idata, long ilen, char **odata, long *olen,
   return fux::atmi::exception_boundary(
       [&] {
         fux::suspend_guard g(!(flags & TPNOTRAN));
+        const long next = getclient().peek_next_blocktime();
         int cd = getclient().tpacall_group(-1, svc, idata, ilen, flags);
         if (cd == -1) {
           return -1;
         }
         const int callcd = cd;
+        getclient().set_next_blocktime(next);
         // The request has been sent, now wait for the reply to this call
         int rc = tpgetrply(&cd, odata, olen, flags & ~(TPNOBLOCK | TPGETANY));
         if (rc == -1) {
-- 
2.43.0


From 9649e7d4a9bc3a256d3f966e6ffd4b8093dbd99b Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:06:44 +0000
Subject: [PATCH 080/131] fix: TPNOCHANGE refuses replies of another type

---
 src/client.cpp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 49e55a9..102b52f 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -210,10 +210,14 @@ class client {
         }
       }
 
-      auto datalen = res.get_data(data);
-      tpurcode = res->rcode;
       *cd = res->cd;
       cds.release(*cd);
+      if ((flags & TPNOCHANGE) && !same_type(*data, res)) {
+        TPERROR(TPEOTYPE, "Reply has a different type of buffer");
+        return -1;
+      }
+      auto datalen = res.get_data(data);
+      tpurcode = res->rcode;
       if (len != nullptr) {
         *len = datalen;
       }
@@ -327,6 +331,27 @@ class client {
     }
   }
 
+  // Data of the message has the type of the buffer
+  static bool same_type(char *data, fux::ipc::msg &res) {
+    char *tmp = tpalloc(const_cast<char *>("STRING"), nullptr, 0);
+    if (tmp == nullptr) {
+      throw std::bad_alloc();
+    }
+    struct free_guard {
+      char *&p;
+      ~free_guard() { tpfree(p); }
+    } guard{tmp};
+
+    if (res.size_data() == 0) {
+      return true;
+    }
+    res.get_data(&tmp);
+    char type[8], rtype[8];
+    tptypes(data, type, nullptr);
+    tptypes(tmp, rtype, nullptr);
+    return strncmp(type, rtype, sizeof(type)) == 0;
+  }
+
   mib &mibcon_;
   size_t client_;
   service_repository repo_;
-- 
2.43.0


From b6b7ee2819e86d8779586b73fe71cccc8ab339b2 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 081/131] fix: shutdown requests for another server are not
 dispatched

---
 src/server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server.cpp b/src/server.cpp
index 3ee78ee..b9bf99d 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -310,6 +310,7 @@ static void dispatch() {
           userlog("Not the target receiver of message, put back in queue");
           fux::ipc::qsend(main_ptr->request_queue, thread_ptr->req, 0,
                           fux::ipc::flags::notime);
+          continue;
         }
       }
     }  // lock
-- 
2.43.0


From 901263d5b1db6f8d6cabb5237222d97e9fee91a3 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 082/131] fix: services of multithreaded servers can advertise
 and unadvertise

---
 src/server.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index b9bf99d..9ab3ee6 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -79,7 +79,8 @@ struct server_main {
   char **argv;
   struct tmsvrargs_t *tmsvrargs;
 
-  std::mutex mutex;
+  std::mutex mutex;  // dispatch
+  std::mutex adv_mutex;
   std::map<const char *, void (*)(TPSVCINFO *), cmp_cstr> advertisements;
 
   mib &m_;
@@ -94,7 +95,7 @@ struct server_main {
 
   int tpadvertisex(const char *svcname, void (*func)(TPSVCINFO *), long flags) {
     // TODO: flags
-    fux::scoped_fuxlock lock(mutex);
+    fux::scoped_fuxlock lock(adv_mutex);
 
     if (svcname == nullptr || strlen(svcname) == 0) {
       TPERROR(TPEINVAL, "invalid svcname");
@@ -135,7 +136,7 @@ struct server_main {
   }
 
   int tpunadvertise(const char *svcname) {
-    fux::scoped_fuxlock lock(mutex);
+    fux::scoped_fuxlock lock(adv_mutex);
     if (svcname == nullptr || strlen(svcname) == 0) {
       TPERROR(TPEINVAL, "invalid svcname");
       return -1;
@@ -157,6 +158,13 @@ struct server_main {
     return 0;
   }
 
+  // Function of a service or nullptr when it is not advertised
+  void (*find(const char *svcname))(TPSVCINFO *) {
+    fux::scoped_fuxlock lock(adv_mutex);
+    auto it = advertisements.find(svcname);
+    return it != advertisements.end() ? it->second : nullptr;
+  }
+
   bool handle(long mtype, fux::fml32buf &buf) {
     // Do not want to see this message again
     mtype_ = -(mtype - 1);
@@ -324,8 +332,7 @@ static void dispatch() {
     }
 
     if (setjmp(thread_ptr->tpreturn_env) == 0) {
-      auto it = main_ptr->advertisements.find(tpsvcinfo.name);
-      it->second(&tpsvcinfo);
+      main_ptr->find(tpsvcinfo.name)(&tpsvcinfo);
     }
   }
 }
-- 
2.43.0


From 10a7d71bb9c033fa398d334c205b9f9b7ef249de Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 083/131] fix: requests for services no longer advertised are
 answered with TPENOENT

---
 src/server.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/server.cpp b/src/server.cpp
index 9ab3ee6..8d3aaef 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -270,6 +270,16 @@ struct server_thread {
     }
   }
 
+  // Replies on behalf of a service that could not do that itself
+  void fail(int rval) try {
+    if (fux::tx::transactional()) {
+      fux::tx_end(false);
+    }
+    reply(rval, 0, nullptr, 0, TPNOFLAGS);
+  } catch (const std::exception &e) {
+    userlog("Failed to reply: %s", e.what());
+  }
+
   void tpreturn(int rval, long rcode, char *data, long len, long flags) {
     if (fux::tx::transactional()) {
       fux::tx_end(rval == TPSUCCESS);
@@ -324,6 +334,12 @@ static void dispatch() {
     }  // lock
 
     checked_copy(thread_ptr->req->servicename, tpsvcinfo.name);
+    auto func = main_ptr->find(tpsvcinfo.name);
+    if (func == nullptr) {
+      userlog("Service %s is not advertised", tpsvcinfo.name);
+      thread_ptr->fail(TPENOENT);
+      continue;
+    }
     tpsvcinfo.flags = thread_ptr->req->flags;
     tpsvcinfo.cd = thread_ptr->req->cd;
 
@@ -332,7 +348,7 @@ static void dispatch() {
     }
 
     if (setjmp(thread_ptr->tpreturn_env) == 0) {
-      main_ptr->find(tpsvcinfo.name)(&tpsvcinfo);
+      func(&tpsvcinfo);
     }
   }
 }
-- 
2.43.0


From 447df95c5ce80da05c051ea6afbbf4ccf79a6fe4 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 084/131] fix: services that end without tpreturn are answered
 with TPESVCERR

---
 src/server.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server.cpp b/src/server.cpp
index 8d3aaef..18dc4f1 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -349,6 +349,8 @@ static void dispatch() {
 
     if (setjmp(thread_ptr->tpreturn_env) == 0) {
       func(&tpsvcinfo);
+      userlog("Service %s ended without tpreturn or tpforward", tpsvcinfo.name);
+      thread_ptr->fail(TPESVCERR);
     }
   }
 }
-- 
2.43.0


From f085c1ec0b67677277bdeaae67b00f3ed8d5b4a2 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 085/131] fix: failed tpreturn is answered with TPESVCERR

---
 src/server.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index 18dc4f1..184835b 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -285,7 +285,6 @@ struct server_thread {
       fux::tx_end(rval == TPSUCCESS);
     }
     reply(rval, rcode, data, len, flags);
-    longjmp(tpreturn_env, 1);
   }
 };
 
@@ -504,7 +503,7 @@ int tpunadvertise(char *svcname) {
   return main_ptr->tpunadvertise(svcname);
 }
 
-void tpreturn(int rval, long rcode, char *data, long len, long flags) try {
+void tpreturn(int rval, long rcode, char *data, long len, long flags) {
   if (!main_ptr) {
     TPERROR(TPEPROTO, "%s can't be called from client", __func__);
     abort();
@@ -518,10 +517,13 @@ void tpreturn(int rval, long rcode, char *data, long len, long flags) try {
   } else {
     rval = TPESVCERR;
   }
-  return thread_ptr->tpreturn(rval, rcode, data, len, flags);
-} catch (...) {
-  userlog("tpreturn failed");
-  longjmp(thread_ptr->tpreturn_env, -1);
+  try {
+    thread_ptr->tpreturn(rval, rcode, data, len, flags);
+  } catch (const std::exception &e) {
+    userlog("tpreturn failed: %s", e.what());
+    thread_ptr->fail(TPESVCERR);
+  }
+  longjmp(thread_ptr->tpreturn_env, 1);
 }
 
 void tpforward(char *svc, char *data, long len, long flags) try {
-- 
2.43.0


From 84a67faa1bb20ed86529222e3d523a3bf8f134be Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 086/131] fix: failed tpforward does not use the data after it
 was freed

---
 src/server.cpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index 184835b..7b6a8b6 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -221,17 +221,17 @@ struct server_thread {
 
   void tpforward(char *svc, char *data, long len, long flags) {
     auto gttid = fux::tx::gttid();
-    if (fux::tx::transactional()) {
-      fux::tx_end(true);
-    }
-
-    int msqid = get_queue(svc);
     res.set_data(data, len);
 
     if (data != nullptr && data != atmibuf) {
       tpfree(data);
     }
 
+    int msqid = get_queue(svc);
+    if (fux::tx::transactional()) {
+      fux::tx_end(true);
+    }
+
     if (flags != 0) {
       userlog("tpforward with flags!=0");
     }
@@ -243,8 +243,6 @@ struct server_thread {
     res->gttid = gttid;
 
     fux::ipc::qsend(msqid, res, 0, fux::ipc::flags::notime);
-
-    longjmp(tpreturn_env, 1);
   }
 
   void reply(int rval, long rcode, char *data, long len, long flags) {
@@ -526,13 +524,16 @@ void tpreturn(int rval, long rcode, char *data, long len, long flags) {
   longjmp(thread_ptr->tpreturn_env, 1);
 }
 
-void tpforward(char *svc, char *data, long len, long flags) try {
+void tpforward(char *svc, char *data, long len, long flags) {
   if (!main_ptr) {
     TPERROR(TPEPROTO, "%s can't be called from client", __func__);
     abort();
   }
-  return thread_ptr->tpforward(svc, data, len, flags);
-} catch (...) {
-  userlog("tpforward failed");
-  tpreturn(TPESVCERR, 0, data, len, flags);
+  try {
+    thread_ptr->tpforward(svc, data, len, flags);
+  } catch (const std::exception &e) {
+    userlog("tpforward failed: %s", e.what());
+    thread_ptr->fail(TPESVCERR);
+  }
+  longjmp(thread_ptr->tpreturn_env, 1);
 }
-- 
2.43.0


From 6afa418c25b1512e39baaa031a810da33c3cd423 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 087/131] fix: requests without reply can be forwarded

---
 src/server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server.cpp b/src/server.cpp
index 7b6a8b6..c5c5cad 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -238,7 +238,7 @@ struct server_thread {
     checked_copy(svc, res->servicename);
     res->flags = flags;
     res->replyq = req->replyq;
-    res->mtype = req->cd;
+    res->mtype = req->mtype;
     res->cd = req->cd;
     res->gttid = gttid;
 
-- 
2.43.0


From 1e7e25cb67fb8d1a548e54b436c8dbba3309251d Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 088/131] fix: forwarded requests stay in the transaction

---
 src/server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server.cpp b/src/server.cpp
index c5c5cad..1994e38 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -236,7 +236,7 @@ struct server_thread {
       userlog("tpforward with flags!=0");
     }
     checked_copy(svc, res->servicename);
-    res->flags = flags;
+    res->flags = gttid != fux::bad_gttid ? TPTRAN : TPNOFLAGS;
     res->replyq = req->replyq;
     res->mtype = req->mtype;
     res->cd = req->cd;
-- 
2.43.0


From 90f2f059580f7e8988a9b25ee1acc6022eebb879 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 089/131] fix: TPEXIT fails the service and ends the server

---
 src/server.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server.cpp b/src/server.cpp
index 1994e38..5169ab2 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -511,7 +511,8 @@ void tpreturn(int rval, long rcode, char *data, long len, long flags) {
   } else if (rval == TPFAIL) {
     rval = TPESVCFAIL;
   } else if (rval == TPEXIT) {
-    rval = TPESVCERR;
+    rval = TPESVCFAIL;
+    main_ptr->stop = true;
   } else {
     rval = TPESVCERR;
   }
-- 
2.43.0


From 7fca817ff3127eabec3925e840c4d808733a10fd Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 090/131] fix: services called without data do not see data of
 previous requests

---
 src/BBL.cpp    | 3 +++
 src/server.cpp | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/BBL.cpp b/src/BBL.cpp
index ee6f806..209f154 100644
--- a/src/BBL.cpp
+++ b/src/BBL.cpp
@@ -111,6 +111,9 @@ int tpsvrinit(int, char *[]) {
 }
 
 extern "C" void TMIB(TPSVCINFO *svcinfo) {
+  if (svcinfo->data == nullptr) {
+    tpreturn(TPFAIL, 0, nullptr, 0, 0);
+  }
   fux::fml32buf rq(svcinfo);
   fux::fml32buf rs;
 
diff --git a/src/server.cpp b/src/server.cpp
index 5169ab2..c29d0a9 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -308,7 +308,7 @@ static void dispatch() {
 
       thread_ptr->prepare();
       tpsvcinfo.len = thread_ptr->req.get_data(&thread_ptr->atmibuf);
-      tpsvcinfo.data = thread_ptr->atmibuf;
+      tpsvcinfo.data = thread_ptr->req.size_data() > 0 ? thread_ptr->atmibuf : nullptr;
       if (strcmp(thread_ptr->req->servicename, ".stop") == 0) {
         fux::fml32buf buf(&tpsvcinfo);
 
-- 
2.43.0


From c61c4dbf4eeb3bb6ea3fd615f01336f53394a377 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 091/131] fix: servers that end unadvertise their services

---
 src/server.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/server.cpp b/src/server.cpp
index c29d0a9..ea065d2 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -165,6 +165,16 @@ struct server_main {
     return it != advertisements.end() ? it->second : nullptr;
   }
 
+  void unadvertise_all() {
+    fux::scoped_fuxlock lock(adv_mutex);
+    auto data_lock = m_.data_lock();
+    for (auto &adv : advertisements) {
+      m_.unadvertise(adv.first, mib_queue, mib_server);
+      free(const_cast<char *>(adv.first));
+    }
+    advertisements.clear();
+  }
+
   bool handle(long mtype, fux::fml32buf &buf) {
     // Do not want to see this message again
     mtype_ = -(mtype - 1);
@@ -472,6 +482,8 @@ int _tmstartserver(int argc, char **argv, struct tmsvrargs_t *tmsvrargs) {
 
   tmsvrargs->mainloop(0);
 
+  main_ptr->unadvertise_all();
+
   tmsvrargs->svrdone();
   main_ptr->inactive();
   if (main_thread_ptr->reply_to_shutdown) {
-- 
2.43.0


From eef4ffe9ba2468bad8dcc5994a4c776492988001 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 092/131] fix: servers starting at the same time share the
 request queue

---
 src/server.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server.cpp b/src/server.cpp
index ea065d2..bdd6f0c 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -437,7 +437,10 @@ int _tmstartserver(int argc, char **argv, struct tmsvrargs_t *tmsvrargs) {
   fux::tx::grpno = grpno;
 
   auto thread_count = m.servers().at(main_ptr->mib_server).mindispatchthreads;
-  main_ptr->request_queue = m.make_service_rqaddr(main_ptr->mib_server);
+  {
+    auto lock = m.data_lock();
+    main_ptr->request_queue = m.make_service_rqaddr(main_ptr->mib_server);
+  }
   main_ptr->mib_queue = m.servers().at(main_ptr->mib_server).rqaddr;
   main_ptr->argc = argc;
   main_ptr->argv = argv;
-- 
2.43.0


From 0cc4660e5972b91195ccc32fa65b5c4f2b27af38 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 093/131] fix: tpadvertise refuses names that are too long

---
 src/server.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index bdd6f0c..ed90718 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -101,6 +101,10 @@ struct server_main {
       TPERROR(TPEINVAL, "invalid svcname");
       return -1;
     }
+    if (strlen(svcname) >= XATMI_SERVICE_NAME_LENGTH) {
+      TPERROR(TPEINVAL, "too long svcname");
+      return -1;
+    }
     if (func == nullptr) {
       TPERROR(TPEINVAL, "invalid func");
       return -1;
@@ -505,7 +509,8 @@ int tpadvertisex(char *svcname, void (*func)(TPSVCINFO *), long flags) {
     TPERROR(TPEPROTO, "%s can't be called from client", __func__);
     return -1;
   }
-  return main_ptr->tpadvertisex(svcname, func, flags);
+  return fux::atmi::exception_boundary(
+      [&] { return main_ptr->tpadvertisex(svcname, func, flags); }, -1);
 }
 
 int tpunadvertise(char *svcname) {
@@ -513,7 +518,8 @@ int tpunadvertise(char *svcname) {
     TPERROR(TPEPROTO, "%s can't be called from client", __func__);
     return -1;
   }
-  return main_ptr->tpunadvertise(svcname);
+  return fux::atmi::exception_boundary(
+      [&] { return main_ptr->tpunadvertise(svcname); }, -1);
 }
 
 void tpreturn(int rval, long rcode, char *data, long len, long flags) {
-- 
2.43.0


From 19afc08e017951a952aabca6376f52dc6e51e7bd Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 094/131] fix: full or removed queue of a client does not stop
 the watchdog

---
 src/BBL.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/BBL.cpp b/src/BBL.cpp
index 209f154..81beb08 100644
--- a/src/BBL.cpp
+++ b/src/BBL.cpp
@@ -42,6 +42,7 @@ int main(int argc, char **argv) {
 
 static void handle_blocktime() {
   mib &m = getmib();
+  auto lock = m.data_lock();
   auto now = std::chrono::steady_clock::now();
 
   auto accessers = m.accessers();
@@ -55,7 +56,12 @@ static void handle_blocktime() {
       req->cat = fux::ipc::unblock;
       userlog("Sending unblock message to client=%d queue=%0x", int(i),
               acc.rpid);
-      fux::ipc::qsend(acc.rpid, req, 0, fux::ipc::flags::notime);
+      try {
+        // Client with a full queue is not blocked
+        fux::ipc::qsend(acc.rpid, req, 0, fux::ipc::flags::noblock);
+      } catch (const std::system_error &e) {
+        userlog("Failed to unblock client=%d: %s", int(i), e.what());
+      }
     }
   }
 }
-- 
2.43.0


From d4f5db268981114ffcbdc4a3d5e0172831fb1c71 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 095/131] fix: watchdog ends quietly after the domain has been
 removed

---
 src/BBL.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/BBL.cpp b/src/BBL.cpp
index 81beb08..e6b275c 100644
--- a/src/BBL.cpp
+++ b/src/BBL.cpp
@@ -100,7 +100,7 @@ static void monitor_clients() {
   }
 }
 
-static void run_watchdog() {
+static void run_watchdog() try {
   while (true) {
     std::this_thread::sleep_for(std::chrono::seconds(1));
 
@@ -108,6 +108,8 @@ static void run_watchdog() {
     monitor_servers();
     monitor_clients();
   }
+} catch (const std::exception &e) {
+  userlog("Watchdog ends: %s", e.what());
 }
 
 int tpsvrinit(int, char *[]) {
-- 
2.43.0


From f0fbd7b710b0c19e6ad354845b8cc20c8737a39b Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 096/131] fix: watchdog removes services and queues of dead
 servers

---
 src/BBL.cpp    | 16 ++++++++++++++++
 src/mib.cpp    | 13 +++++++++++++
 src/mib.h      |  2 ++
 src/server.cpp |  3 +++
 4 files changed, 34 insertions(+)

diff --git a/src/BBL.cpp b/src/BBL.cpp
index e6b275c..81cbf64 100644
--- a/src/BBL.cpp
+++ b/src/BBL.cpp
@@ -69,6 +69,7 @@ static void handle_blocktime() {
 static void monitor_servers() {
   mib &m = getmib();
   auto servers = m.servers();
+  auto lock = m.data_lock();
 
   for (int i = servers->len - 1; i >= 0; i--) {
     auto &server = servers[i];
@@ -77,6 +78,21 @@ static void monitor_servers() {
     }
     if (!alive(server.pid)) {
       server.pid = 0;
+      server.state = state_t::INActive;
+      m.unadvertise(size_t(i));
+
+      bool shared = false;
+      for (size_t j = 0; j < servers->len; j++) {
+        if (servers[j].pid != 0 && servers[j].rqaddr == server.rqaddr) {
+          shared = true;
+        }
+      }
+      auto &queue = m.queues().at(server.rqaddr);
+      if (!shared && queue.msqid != -1) {
+        // Nobody will ever read from this queue
+        fux::ipc::qdelete(queue.msqid);
+        queue.msqid = -1;
+      }
     }
   }
 }
diff --git a/src/mib.cpp b/src/mib.cpp
index 8be3c13..aa7b02b 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -181,7 +181,20 @@ void mib::unadvertise(const std::string &servicename, size_t queue,
   if (i == badoff) {
     throw std::logic_error("Service not advertised");
   }
+  unadvertise_at(i);
+}
+
+void mib::unadvertise(size_t server) {
+  for (size_t i = 0; i < advertisements()->len; i++) {
+    if (advertisements().at(i).server == server) {
+      unadvertise_at(i);
+    }
+  }
+}
+
+void mib::unadvertise_at(size_t i) {
   auto &advertisement = advertisements().at(i);
+  auto service = advertisement.service;
   advertisement.state = state_t::INValid;
   advertisement.service = advertisement.queue = advertisement.server = badoff;
 
diff --git a/src/mib.h b/src/mib.h
index c02ed2b..e040b10 100644
--- a/src/mib.h
+++ b/src/mib.h
@@ -148,6 +148,7 @@ class mib {
 
   void advertise(const std::string &servicename, size_t queue, size_t server);
   void unadvertise(const std::string &servicename, size_t queue, size_t server);
+  void unadvertise(size_t server);
 
   size_t find_queue(const std::string &rqaddr);
   size_t make_queue(const std::string &rqaddr);
@@ -191,6 +192,7 @@ class mib {
 
  private:
   size_t find_advertisement(size_t service, size_t queue, size_t server);
+  void unadvertise_at(size_t i);
   void init_memory();
 
   tuxconfig cfg_;
diff --git a/src/server.cpp b/src/server.cpp
index ed90718..6acd7ce 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -443,6 +443,9 @@ int _tmstartserver(int argc, char **argv, struct tmsvrargs_t *tmsvrargs) {
   auto thread_count = m.servers().at(main_ptr->mib_server).mindispatchthreads;
   {
     auto lock = m.data_lock();
+    m.servers().at(main_ptr->mib_server).pid = getpid();
+    // Server might have been killed before
+    m.unadvertise(main_ptr->mib_server);
     main_ptr->request_queue = m.make_service_rqaddr(main_ptr->mib_server);
   }
   main_ptr->mib_queue = m.servers().at(main_ptr->mib_server).rqaddr;
-- 
2.43.0


From 9743572561393cc506017670eba4efa1be21f7fb Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 097/131] fix: tmshutdown does not wait for dead servers

---
 src/tmshutdown.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tmshutdown.cpp b/src/tmshutdown.cpp
index 87c7174..0194c34 100644
--- a/src/tmshutdown.cpp
+++ b/src/tmshutdown.cpp
@@ -63,6 +63,10 @@ int main(int argc, char *argv[]) {
       if (server.is_inactive()) {
         continue;
       }
+      if (!alive(server.pid)) {
+        // Nobody would reply
+        continue;
+      }
       server.suspend();
       auto &queue = queues.at(server.rqaddr);
 
-- 
2.43.0


From 5509421774a7db0778f3bc6d94b9b1478b75028f Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 098/131] fix: tmshutdown -g stops the servers of the group
 only

---
 src/tmshutdown.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/tmshutdown.cpp b/src/tmshutdown.cpp
index 0194c34..ea2281a 100644
--- a/src/tmshutdown.cpp
+++ b/src/tmshutdown.cpp
@@ -52,11 +52,23 @@ int main(int argc, char *argv[]) {
     auto queues = m.queues();
     auto servers = m.servers();
 
+    size_t grpidx = mib::badoff;
+    if (!grpname.empty()) {
+      grpidx = m.group_index(grpname);
+      if (grpidx == mib::badoff) {
+        throw std::logic_error("Group " + grpname + " does not exist");
+      }
+    }
+
     for (int i = servers->len - 1; i >= 0; i--) {
       auto &server = servers[i];
       if (srvid != -1 && srvid != server.srvid) {
         continue;
       }
+      if (grpidx != mib::badoff &&
+          server.grpno != m.groups().at(grpidx).grpno) {
+        continue;
+      }
       if (server.pid == 0) {
         continue;
       }
@@ -100,7 +112,7 @@ int main(int argc, char *argv[]) {
     }
 
     tpterm();
-    if (srvid == -1) {
+    if (srvid == -1 && grpname.empty()) {
       m.remove();
     }
   } catch (const std::exception &e) {
-- 
2.43.0


From 56379ba65ff2953d3a7fb453094a8df77ed7d60d Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:10:01 +0000
Subject: [PATCH 099/131] fix: tmboot -i and -g start the selected servers only

---
 src/tmboot.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/tmboot.cpp b/src/tmboot.cpp
index 8814da1..63aa1b1 100644
--- a/src/tmboot.cpp
+++ b/src/tmboot.cpp
@@ -122,9 +122,23 @@ int main(int argc, char *argv[]) {
 
     setenv("PATH", path.str().c_str(), 1);
 
+    size_t grpidx = mib::badoff;
+    if (!grpname.empty()) {
+      grpidx = m.group_index(grpname);
+      if (grpidx == mib::badoff) {
+        throw std::logic_error("Group " + grpname + " does not exist");
+      }
+    }
+
     auto servers = m.servers();
     for (size_t i = 0; i < servers->len; i++) {
       auto &srv = servers[i];
+      // BBL is the first one and the others need it
+      if (i != 0 && ((srvid != -1 && srvid != srv.srvid) ||
+                     (grpidx != mib::badoff &&
+                      srv.grpno != m.groups().at(grpidx).grpno))) {
+        continue;
+      }
       if (srv.autostart) {
         start(srv, no, d1);
       }
-- 
2.43.0


From 59c981f18241443a37311dba82981438c16dab01 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:36:59 +0000
Subject: [PATCH 100/131] fix: clients and BBL, which have no group, open,
 close and begin without one

---
 src/trx.h  | 14 ++++++++++----
 src/tx.cpp | 23 ++++++++++++++---------
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/trx.h b/src/trx.h
index dbb6c19..ca4f6c9 100644
--- a/src/trx.h
+++ b/src/trx.h
@@ -4,6 +4,7 @@
 
 #include <time.h>
 #include <cstring>
+#include <limits>
 #include <stdexcept>
 #include <type_traits>
 
@@ -85,6 +86,9 @@ struct transaction {
 };
 
 struct transaction_table {
+  // Transaction started by a process that is not in any group
+  constexpr static size_t no_group = std::numeric_limits<size_t>::max();
+
   size_t len;
   size_t size;
   size_t max_groups;
@@ -117,7 +121,7 @@ struct transaction_table {
            transactions * size_of_transaction(groups);
   }
 
-  transaction &join(uint16_t transaction, uint16_t group) {
+  transaction &join(uint16_t transaction, size_t group) {
     if (group >= max_groups) {
       throw std::out_of_range("group out of range");
     }
@@ -134,14 +138,16 @@ struct transaction_table {
     return t.groups[group] > 0;
   }
 
-  fux::gttid init(fux::gttid i, const XID &xid, uint16_t group) {
+  fux::gttid init(fux::gttid i, const XID &xid, size_t group) {
     memset(&(*this)[i], 0, entry_size);
     (*this)[i].xid = xid;
-    join(i, group);
+    if (group != no_group) {
+      join(i, group);
+    }
     return i;
   }
 
-  fux::gttid start(const XID &xid, uint16_t group) {
+  fux::gttid start(const XID &xid, size_t group) {
     for (size_t i = 0; i < len; i++) {
       if ((*this)[i].xid.formatID == -1) {
         return init(i, xid, group);
diff --git a/src/tx.cpp b/src/tx.cpp
index 0ae2a08..2c2bd7d 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -28,7 +28,6 @@ enum xa_func { prepare, commit, rollback };
 
 namespace fux::tx {
 uint16_t grpno = 0;
-size_t grpidx = 0;
 }  // namespace fux::tx
 
 namespace fux::glob {
@@ -56,7 +55,7 @@ struct tx_context {
     state = tx_state::s0;
     if (fux::tx::grpno != 0) {
       grpcfg = &mibcon_.group_by_id(fux::tx::grpno);
-      fux::tx::grpidx = mibcon_.find_group(fux::tx::grpno);
+      grpidx = mibcon_.find_group(fux::tx::grpno);
     }
     notrx();
   }
@@ -65,7 +64,12 @@ struct tx_context {
     gttid = fux::bad_gttid;
   }
   tx_state state;
+  // Clients and BBL do not belong to any group
+  char *openinfo() { return grpcfg != nullptr ? grpcfg->openinfo : noinfo; }
+  char *closeinfo() { return grpcfg != nullptr ? grpcfg->closeinfo : noinfo; }
   group *grpcfg = nullptr;
+  size_t grpidx = transaction_table::no_group;
+  char noinfo[1] = {'\0'};
   TXINFO info;
   fux::gttid gttid;
   mib &mibcon_;
@@ -92,17 +96,18 @@ static int rm_err(int xarc, const char *func) {
 }
 
 int tx_open() {
-  char *info = getctxt().grpcfg->openinfo;
-  auto len = strlen(xasw->name);
-  if (strlen(getctxt().grpcfg->openinfo) > 0) {
+  char *info = getctxt().openinfo();
+  if (strlen(info) > 0) {
+    auto len = strlen(xasw->name);
     if (strncmp(xasw->name, info, len) != 0 || info[len] != ':') {
       userlog("Resource Manager mismatch %s and open info %s", xasw->name,
               info);
       return TX_ERROR;
     }
+    info += len + 1;
   }
 
-  auto xarc = xasw->xa_open_entry(info + len + 1, fux::tx::grpno, TMNOFLAGS);
+  auto xarc = xasw->xa_open_entry(info, fux::tx::grpno, TMNOFLAGS);
   if (xarc == XA_OK) {
     if (getctxt().state == tx_state::s0) {
       getctxt().notrx();
@@ -119,7 +124,7 @@ int tx_close() {
         getctxt().state == tx_state::s2)) {
     return TX_PROTOCOL_ERROR;
   }
-  auto xarc = xasw->xa_close_entry(getctxt().grpcfg->closeinfo, fux::tx::grpno,
+  auto xarc = xasw->xa_close_entry(getctxt().closeinfo(), fux::tx::grpno,
                                    TMNOFLAGS);
   if (xarc == XA_OK) {
     getctxt().state = tx_state::s0;
@@ -165,7 +170,7 @@ int tx_begin() {
 
   TXINFO info;
   info.xid = xid();
-  getctxt().gttid = getmib().transactions().start(info.xid, fux::tx::grpidx);
+  getctxt().gttid = getmib().transactions().start(info.xid, getctxt().grpidx);
   return _tx_start(&info);
 }
 
@@ -386,7 +391,7 @@ void tx_resume() { _tx_resume(nullptr); }
 void tx_suspend() { _tx_suspend(nullptr); }
 void tx_end(bool ok) { _tx_end(ok); }
 void tx_join(fux::gttid gttid) {
-  auto &t = getmib().transactions().join(gttid, fux::tx::grpidx);
+  auto &t = getmib().transactions().join(gttid, getctxt().grpidx);
   TXINFO info;
   info.xid = t.xid;
   _tx_start(&info, TMJOIN);
-- 
2.43.0


From d742b335f169daf05d19e2670c266183adcda637 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:36:59 +0000
Subject: [PATCH 101/131] fix: tx_info reports initial values after tx_open,
 nothing uninitialised

---
 src/trx.h  | 2 +-
 src/tx.cpp | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/trx.h b/src/trx.h
index ca4f6c9..c0f9e2f 100644
--- a/src/trx.h
+++ b/src/trx.h
@@ -46,7 +46,7 @@ inline std::string to_string(XID *xid) {
 }
 
 inline XID to_xid(const std::string &s) {
-  XID xid;
+  XID xid = {};
   auto parts = fux::split(s, ".");
   if (parts.size() != 2 && parts.size() != 3) {
     throw std::logic_error("Invalid XID string");
diff --git a/src/tx.cpp b/src/tx.cpp
index 2c2bd7d..837e858 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -60,6 +60,7 @@ struct tx_context {
     notrx();
   }
   void notrx() {
+    memset(&info.xid, 0, sizeof(info.xid));
     info.xid.formatID = -1;
     gttid = fux::bad_gttid;
   }
@@ -70,7 +71,7 @@ struct tx_context {
   group *grpcfg = nullptr;
   size_t grpidx = transaction_table::no_group;
   char noinfo[1] = {'\0'};
-  TXINFO info;
+  TXINFO info = {};
   fux::gttid gttid;
   mib &mibcon_;
 };
@@ -110,6 +111,8 @@ int tx_open() {
   auto xarc = xasw->xa_open_entry(info, fux::tx::grpno, TMNOFLAGS);
   if (xarc == XA_OK) {
     if (getctxt().state == tx_state::s0) {
+      // Characteristics have their initial values after each tx_open()
+      getctxt().info = {};
       getctxt().notrx();
       getctxt().state = tx_state::s1;
     }
@@ -150,7 +153,7 @@ int tx_info(TXINFO *info) {
 static XID xid() {
   auto id = getmib().genuid();
 
-  XID xid;
+  XID xid = {};
   // 0 for OSI-CCR
   // >0 for other
   // Use a single-digit value for shorter output
-- 
2.43.0


From a5326d069356f80f9762b77ee5241ee7baddd03a Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:36:59 +0000
Subject: [PATCH 102/131] fix: tx_begin checks the state first and reports a
 full table and a failed xa_start

---
 src/tx.cpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 837e858..e555fea 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -64,6 +64,14 @@ struct tx_context {
     info.xid.formatID = -1;
     gttid = fux::bad_gttid;
   }
+  // Releases the entry of transaction
+  void end(XID &xid) try {
+    auto lock = mibcon_.data_lock();
+    auto &transactions = mibcon_.transactions();
+    transactions.end(transactions.find(xid));
+  } catch (const std::out_of_range &e) {
+    userlog("Failed to end transaction: %s", e.what());
+  }
   tx_state state;
   // Clients and BBL do not belong to any group
   char *openinfo() { return grpcfg != nullptr ? grpcfg->openinfo : noinfo; }
@@ -171,10 +179,26 @@ int tx_begin() {
     // return TX_OK;
   }
 
+  auto &ctxt = getctxt();
+  if (!(ctxt.state == tx_state::s1 || ctxt.state == tx_state::s2)) {
+    return TX_PROTOCOL_ERROR;
+  }
+
   TXINFO info;
   info.xid = xid();
-  getctxt().gttid = getmib().transactions().start(info.xid, getctxt().grpidx);
-  return _tx_start(&info);
+  try {
+    auto lock = ctxt.mibcon_.data_lock();
+    ctxt.gttid = ctxt.mibcon_.transactions().start(info.xid, ctxt.grpidx);
+  } catch (const std::out_of_range &e) {
+    userlog("Failed to start a transaction: %s", e.what());
+    return TX_ERROR;
+  }
+  auto rc = _tx_start(&info);
+  if (rc != TX_OK) {
+    ctxt.end(info.xid);
+    ctxt.notrx();
+  }
+  return rc;
 }
 
 static bool tx_set1(int rc) {
-- 
2.43.0


From c0e57de0805d354b0e685fa990cf5d6f3b853343 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:37:40 +0000
Subject: [PATCH 103/131] fix: chained mode starts one next transaction, after
 the end, and tells when it could not

---
 src/tx.cpp | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index e555fea..fa12fca 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -212,6 +212,21 @@ static bool tx_set2(int rc) {
          rc == TX_COMMITTED_NO_BEGIN;
 }
 
+static int no_begin(int rc) {
+  switch (rc) {
+    case TX_ROLLBACK:
+      return TX_ROLLBACK_NO_BEGIN;
+    case TX_MIXED:
+      return TX_MIXED_NO_BEGIN;
+    case TX_HAZARD:
+      return TX_HAZARD_NO_BEGIN;
+    case TX_COMMITTED:
+      return TX_COMMITTED_NO_BEGIN;
+    default:
+      return TX_NO_BEGIN;
+  }
+}
+
 static int change_state(int rc) {
   if (tx_set1(rc)) {
     if (getctxt().state == tx_state::s3) {
@@ -219,7 +234,9 @@ static int change_state(int rc) {
     } else if (getctxt().state == tx_state::s4) {
       // Chained
       getctxt().state = tx_state::s2;
-      return tx_begin();
+      if (tx_begin() != TX_OK) {
+        return no_begin(rc);
+      }
     }
   } else if (tx_set2(rc)) {
     if (getctxt().state == tx_state::s4) {
@@ -256,10 +273,10 @@ static std::vector<branch> collect(XID *xid) {
   return branches;
 }
 
-int _tx_end(TXINFO *info);
+static int _tx_end(TXINFO *info, long flags);
 int tx_commit() {
   TXINFO info;
-  auto rc = _tx_end(&info);
+  auto rc = _tx_end(&info, TMSUCCESS);
   if (rc != TX_OK) {
     return rc;
   }
@@ -298,7 +315,7 @@ int tx_commit() {
 
 int tx_rollback() {
   TXINFO info;
-  auto rc = _tx_end(&info);
+  auto rc = _tx_end(&info, TMSUCCESS);
   if (rc != TX_OK) {
     return rc;
   }
@@ -357,15 +374,16 @@ int _tx_suspend(TXINFO *info) {
   return rc;
 }
 
-int _tx_end(TXINFO *info) {
-  auto rc = _tx_end(info, TMSUCCESS);
-  return change_state(rc);
-}
-
+// Ends work of a participant, there is no next transaction in chained mode
 int _tx_end(bool ok) {
   TXINFO info;
   auto rc = _tx_end(&info, ok ? TMSUCCESS : TMFAIL);
-  return change_state(rc);
+  if (getctxt().state == tx_state::s3) {
+    getctxt().state = tx_state::s1;
+  } else if (getctxt().state == tx_state::s4) {
+    getctxt().state = tx_state::s2;
+  }
+  return rc;
 }
 
 static int _tx_start(TXINFO *info, long flags) {
-- 
2.43.0


From f79f6b87c7194323d0e011e53f58d3a5c6d03ed2 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:37:40 +0000
Subject: [PATCH 104/131] fix: tx_commit and tx_rollback end every branch,
 release the transaction and report what became of it

---
 src/tx.cpp | 105 +++++++++++++++++++++++++++++++++++++----------------
 1 file changed, 74 insertions(+), 31 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index fa12fca..10c1f74 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -261,13 +261,49 @@ static void clean_tlog(XID *xid) {
   // TODO
 }
 
+// What became of the transaction after the 2nd phase
+static int outcome(const std::vector<branch> &branches, int command) {
+  bool committed = command == fux::tm::commit && branches.empty();
+  bool rolledback = command == fux::tm::rollback && branches.empty();
+  bool mixed = false;
+  bool hazard = false;
+  for (auto &p : branches) {
+    if (p.result == XA_HEURMIX) {
+      mixed = true;
+    } else if (p.result == XA_HEURCOM) {
+      committed = true;
+    } else if (p.result == XA_HEURRB ||
+               (p.result >= XA_RBBASE && p.result <= XA_RBEND)) {
+      rolledback = true;
+    } else if (command == fux::tm::commit && p.result == XA_OK) {
+      committed = true;
+    } else if (command == fux::tm::commit && p.result == XAER_RMERR) {
+      rolledback = true;
+    } else if (command == fux::tm::rollback &&
+               (p.result == XA_OK || p.result == XAER_NOTA)) {
+      // Branch that is not known to resource manager has been rolled back
+      rolledback = true;
+    } else {
+      hazard = true;
+    }
+  }
+  if (mixed || (committed && rolledback)) {
+    return TX_MIXED;
+  }
+  if (hazard) {
+    return TX_HAZARD;
+  }
+  return committed ? TX_COMMITTED : TX_ROLLBACK;
+}
+
 static std::vector<branch> collect(XID *xid) {
   std::vector<branch> branches;
+  auto lock = getmib().data_lock();
   auto max = getmib().transactions().max_groups;
   auto &tx = getmib().transactions()[getmib().transactions().find(*xid)];
   for (size_t group = 0; group < max; group++) {
     if (tx.groups[group] > 0) {
-      branches.push_back({getmib().groups().at(group).grpno});
+      branches.push_back({getmib().groups().at(group).grpno, -1, TMER_TMERR});
     }
   }
   return branches;
@@ -277,26 +313,30 @@ static int _tx_end(TXINFO *info, long flags);
 int tx_commit() {
   TXINFO info;
   auto rc = _tx_end(&info, TMSUCCESS);
-  if (rc != TX_OK) {
+  if (rc == TX_PROTOCOL_ERROR) {
     return rc;
   }
 
   std::vector<branch> branches1 = collect(&info.xid);
 
-  command(branches1, &info.xid, fux::tm::prepare);
-
   // Collect interested branches for the 2nd phase
   std::vector<branch> branches2;
-  bool commit = true;
-  for (auto &p : branches1) {
-    if (p.result == XA_RDONLY) {
-      // Nothing to do
-      continue;
-    }
-    if (p.result != XA_OK) {
-      commit = false;
+  bool commit = rc == TX_OK;
+  if (commit) {
+    command(branches1, &info.xid, fux::tm::prepare);
+
+    for (auto &p : branches1) {
+      if (p.result == XA_RDONLY) {
+        // Nothing to do
+        continue;
+      }
+      if (p.result != XA_OK) {
+        commit = false;
+      }
+      branches2.push_back(p);
     }
-    branches2.push_back(p);
+  } else {
+    branches2 = branches1;
   }
 
   if (commit) {
@@ -306,17 +346,19 @@ int tx_commit() {
   if (commit) {
     command(branches2, &info.xid, fux::tm::commit);
     clean_tlog(&info.xid);
-    return change_state(TX_OK);
+    rc = outcome(branches2, fux::tm::commit);
   } else {
     command(branches2, &info.xid, fux::tm::rollback);
-    return change_state(TX_FAIL);
+    rc = outcome(branches2, fux::tm::rollback);
   }
+  getctxt().end(info.xid);
+  return change_state(rc == TX_COMMITTED ? TX_OK : rc);
 }
 
 int tx_rollback() {
   TXINFO info;
   auto rc = _tx_end(&info, TMSUCCESS);
-  if (rc != TX_OK) {
+  if (rc == TX_PROTOCOL_ERROR) {
     return rc;
   }
 
@@ -324,7 +366,9 @@ int tx_rollback() {
 
   command(branches, &info.xid, fux::tm::rollback);
 
-  return change_state(TX_OK);
+  rc = outcome(branches, fux::tm::rollback);
+  getctxt().end(info.xid);
+  return change_state(rc == TX_ROLLBACK ? TX_OK : rc);
 }
 
 static int _tx_end(TXINFO *info, long flags) {
@@ -501,7 +545,6 @@ int tx_set_transaction_timeout(TRANSACTION_TIMEOUT timeout) {
 int tpacall_group(int grpno, char *svc, char *data, long len, long flags);
 void command(std::vector<branch> &branches, XID *xid, int command) {
   fux::fml32buf buf;
-  int pending = 0;
 
   for (auto &p : branches) {
     buf.put(TA_XAFUNC, 0, command);
@@ -510,30 +553,30 @@ void command(std::vector<branch> &branches, XID *xid, int command) {
     buf.put(TA_FLAGS, 0, 0);
     userlog("Calling TM in group %d for %s", p.grpno,
             fux::to_string(xid).c_str());
+    p.result = TMER_TMERR;
     p.cd = tpacall_group(p.grpno, const_cast<char *>(".TM"),
                          reinterpret_cast<char *>(*buf.ptrptr()), 0,
                          TPNOTIME | TPNOTRAN);
     if (p.cd == -1) {
       userlog("Failed to call TM in group %d (%s)", p.grpno,
               tpstrerror(tperrno));
-      p.result = TMER_TMERR;
-      break;
     }
-    pending++;
   }
 
-  while (pending > 0) {
-    int cd;
+  for (auto &p : branches) {
+    if (p.cd == -1) {
+      continue;
+    }
+    int cd = p.cd;
     long len = 0;
-    int rc =
-        tpgetrply(&cd, reinterpret_cast<char **>(buf.ptrptr()), &len, TPGETANY);
-
-    for (auto &p : branches) {
-      if (p.cd == cd) {
-        p.result = buf.get<long>(TA_XARET, 0);
-        pending--;
-      }
+    if (tpgetrply(&cd, reinterpret_cast<char **>(buf.ptrptr()), &len,
+                  TPNOFLAGS) == -1) {
+      userlog("Failed to get reply from TM in group %d (%s)", p.grpno,
+              tpstrerror(tperrno));
+      tpcancel(p.cd);
+      continue;
     }
+    p.result = buf.get<long>(TA_XARET, 0);
   }
 }
 
-- 
2.43.0


From 4fdfb88d0ddbe38134b9f739fae6dbf41d150586 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:38:19 +0000
Subject: [PATCH 105/131] fix: services join the branch of their group properly
 and report when they cannot

---
 src/server.cpp | 10 +++++++--
 src/trx.h      |  4 ++--
 src/tx.cpp     | 56 ++++++++++++++++++++++++++++++++++++++++++++------
 3 files changed, 60 insertions(+), 10 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index 6acd7ce..ca13aef 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -294,7 +294,9 @@ struct server_thread {
 
   void tpreturn(int rval, long rcode, char *data, long len, long flags) {
     if (fux::tx::transactional()) {
-      fux::tx_end(rval == TPSUCCESS);
+      if (!fux::tx_end(rval == TPSUCCESS) && rval == TPSUCCESS) {
+        rval = TPESVCERR;
+      }
     }
     reply(rval, rcode, data, len, flags);
   }
@@ -355,7 +357,11 @@ static void dispatch() {
     tpsvcinfo.cd = thread_ptr->req->cd;
 
     if (thread_ptr->req->flags & TPTRAN) {
-      fux::tx_join(thread_ptr->req->gttid);
+      if (!fux::tx_join(thread_ptr->req->gttid)) {
+        userlog("Service %s cannot join transaction", tpsvcinfo.name);
+        thread_ptr->fail(TPESVCERR);
+        continue;
+      }
     }
 
     if (setjmp(thread_ptr->tpreturn_env) == 0) {
diff --git a/src/trx.h b/src/trx.h
index c0f9e2f..18ac549 100644
--- a/src/trx.h
+++ b/src/trx.h
@@ -19,8 +19,8 @@ bool transactional();
 }  // namespace tx
 void tx_resume();
 void tx_suspend();
-void tx_join(fux::gttid id);
-void tx_end(bool ok);
+bool tx_join(fux::gttid id);
+bool tx_end(bool ok);
 
 inline std::string to_string(XID *xid) {
   char buf[32];
diff --git a/src/tx.cpp b/src/tx.cpp
index 10c1f74..880331e 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -63,6 +63,7 @@ struct tx_context {
     memset(&info.xid, 0, sizeof(info.xid));
     info.xid.formatID = -1;
     gttid = fux::bad_gttid;
+    joined = false;
   }
   // Releases the entry of transaction
   void end(XID &xid) try {
@@ -80,6 +81,8 @@ struct tx_context {
   size_t grpidx = transaction_table::no_group;
   char noinfo[1] = {'\0'};
   TXINFO info = {};
+  // Started by another process
+  bool joined;
   fux::gttid gttid;
   mib &mibcon_;
 };
@@ -311,6 +314,10 @@ static std::vector<branch> collect(XID *xid) {
 
 static int _tx_end(TXINFO *info, long flags);
 int tx_commit() {
+  if (getctxt().joined) {
+    // Only the one who started transaction ends it
+    return TX_PROTOCOL_ERROR;
+  }
   TXINFO info;
   auto rc = _tx_end(&info, TMSUCCESS);
   if (rc == TX_PROTOCOL_ERROR) {
@@ -356,6 +363,10 @@ int tx_commit() {
 }
 
 int tx_rollback() {
+  if (getctxt().joined) {
+    // Only the one who started transaction ends it
+    return TX_PROTOCOL_ERROR;
+  }
   TXINFO info;
   auto rc = _tx_end(&info, TMSUCCESS);
   if (rc == TX_PROTOCOL_ERROR) {
@@ -430,7 +441,7 @@ int _tx_end(bool ok) {
   return rc;
 }
 
-static int _tx_start(TXINFO *info, long flags) {
+static int _tx_start(TXINFO *info, long flags, int *xaresult = nullptr) {
   if (!(getctxt().state == tx_state::s1 || getctxt().state == tx_state::s2)) {
     return TX_PROTOCOL_ERROR;
   }
@@ -445,6 +456,9 @@ static int _tx_start(TXINFO *info, long flags) {
   userlog("xa_start(%s, %d, 0x%08lx) = %d",
           fux::to_string(&getctxt().info.xid).c_str(), fux::tx::grpno, flags,
           xarc);
+  if (xaresult != nullptr) {
+    *xaresult = xarc;
+  }
   if (xarc == XA_OK) {
     if (getctxt().state == tx_state::s1) {
       getctxt().state = tx_state::s3;
@@ -478,12 +492,42 @@ int _tx_start(TXINFO *info) { return _tx_start(info, TMNOFLAGS); }
 namespace fux {
 void tx_resume() { _tx_resume(nullptr); }
 void tx_suspend() { _tx_suspend(nullptr); }
-void tx_end(bool ok) { _tx_end(ok); }
-void tx_join(fux::gttid gttid) {
-  auto &t = getmib().transactions().join(gttid, getctxt().grpidx);
+bool tx_end(bool ok) { return _tx_end(ok) == TX_OK; }
+bool tx_join(fux::gttid gttid) try {
+  auto &ctxt = getctxt();
   TXINFO info;
-  info.xid = t.xid;
-  _tx_start(&info, TMJOIN);
+  // The first one of the group starts the branch, others join it
+  long flags;
+  {
+    auto lock = ctxt.mibcon_.data_lock();
+    auto &transactions = ctxt.mibcon_.transactions();
+    info.xid = transactions.at(gttid).xid;
+    if (info.xid.formatID == -1) {
+      userlog("Transaction has ended already");
+      return false;
+    }
+    flags =
+        transactions.has_joined(gttid, ctxt.grpidx) ? TMJOIN : TMNOFLAGS;
+    transactions.join(gttid, ctxt.grpidx);
+  }
+  int xarc = XA_OK;
+  auto rc = _tx_start(&info, flags, &xarc);
+  // The one that joined before might be about to start the branch or did not
+  // succeed
+  for (int i = 0; i < 10 && (xarc == XAER_NOTA || xarc == XAER_DUPID); i++) {
+    flags = xarc == XAER_NOTA ? TMNOFLAGS : TMJOIN;
+    rc = _tx_start(&info, flags, &xarc);
+  }
+  if (rc != TX_OK) {
+    ctxt.notrx();
+    return false;
+  }
+  ctxt.gttid = gttid;
+  ctxt.joined = true;
+  return true;
+} catch (const std::out_of_range &e) {
+  userlog("Failed to join transaction: %s", e.what());
+  return false;
 }
 namespace tx {
 fux::gttid gttid() { return getctxt().gttid; }
-- 
2.43.0


From 80103af04c59c29018fed9f0f2d113689efda364 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 106/131] fix: work of a successful service is ended with
 TMSUCCESS, not TMFAIL

---
 src/server.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/server.cpp b/src/server.cpp
index ca13aef..94d1e57 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -294,7 +294,9 @@ struct server_thread {
 
   void tpreturn(int rval, long rcode, char *data, long len, long flags) {
     if (fux::tx::transactional()) {
-      if (!fux::tx_end(rval == TPSUCCESS) && rval == TPSUCCESS) {
+      // Result of the service has been translated already
+      const bool success = rval == TPMINVAL && flags == 0;
+      if (!fux::tx_end(success) && success) {
         rval = TPESVCERR;
       }
     }
-- 
2.43.0


From f8aec5826e291f40141995dae865b3341f3a34ed Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 107/131] fix: transaction is rolled back when a service fails
 or cannot join or end its work

---
 src/trx.h  |  1 +
 src/tx.cpp | 33 ++++++++++++++++++++++++++++++++-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/trx.h b/src/trx.h
index 18ac549..55b36fc 100644
--- a/src/trx.h
+++ b/src/trx.h
@@ -82,6 +82,7 @@ struct transaction {
   time_t started;
   time_t timeout;
   enum { active, preparing, do_commit, do_rollback, finished } state;
+  bool rollback_only;
   char groups[];
 };
 
diff --git a/src/tx.cpp b/src/tx.cpp
index 880331e..5573126 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -65,6 +65,22 @@ struct tx_context {
     gttid = fux::bad_gttid;
     joined = false;
   }
+  // Transaction can only be rolled back after this
+  void rollback_only() try {
+    auto lock = mibcon_.data_lock();
+    auto &transactions = mibcon_.transactions();
+    transactions.at(transactions.find(info.xid)).rollback_only = true;
+  } catch (const std::out_of_range &e) {
+    userlog("Failed to mark transaction: %s", e.what());
+  }
+  bool is_rollback_only(XID &xid) try {
+    auto lock = mibcon_.data_lock();
+    auto &transactions = mibcon_.transactions();
+    return transactions.at(transactions.find(xid)).rollback_only;
+  } catch (const std::out_of_range &e) {
+    // It has been rolled back already
+    return true;
+  }
   // Releases the entry of transaction
   void end(XID &xid) try {
     auto lock = mibcon_.data_lock();
@@ -156,6 +172,10 @@ int tx_info(TXINFO *info) {
 
   if (info != nullptr) {
     *info = getctxt().info;
+    info->transaction_state = TX_ACTIVE;
+    if (info->xid.formatID != -1 && getctxt().is_rollback_only(info->xid)) {
+      info->transaction_state = TX_ROLLBACK_ONLY;
+    }
   }
 
   return getctxt().info.xid.formatID == -1 ? 0 : 1;
@@ -328,7 +348,7 @@ int tx_commit() {
 
   // Collect interested branches for the 2nd phase
   std::vector<branch> branches2;
-  bool commit = rc == TX_OK;
+  bool commit = rc == TX_OK && !getctxt().is_rollback_only(info.xid);
   if (commit) {
     command(branches1, &info.xid, fux::tm::prepare);
 
@@ -432,7 +452,16 @@ int _tx_suspend(TXINFO *info) {
 // Ends work of a participant, there is no next transaction in chained mode
 int _tx_end(bool ok) {
   TXINFO info;
+  if (!ok) {
+    getctxt().rollback_only();
+  }
+  const XID xid = getctxt().info.xid;
   auto rc = _tx_end(&info, ok ? TMSUCCESS : TMFAIL);
+  if (rc != TX_OK) {
+    getctxt().info.xid = xid;
+    getctxt().rollback_only();
+    getctxt().notrx();
+  }
   if (getctxt().state == tx_state::s3) {
     getctxt().state = tx_state::s1;
   } else if (getctxt().state == tx_state::s4) {
@@ -519,6 +548,8 @@ bool tx_join(fux::gttid gttid) try {
     rc = _tx_start(&info, flags, &xarc);
   }
   if (rc != TX_OK) {
+    ctxt.info.xid = info.xid;
+    ctxt.rollback_only();
     ctxt.notrx();
     return false;
   }
-- 
2.43.0


From 8bfd04b1d9386709116f2631b0d10ef73424c106 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:39:20 +0000
Subject: [PATCH 108/131] fix: transaction a service started and left open is
 rolled back and reported

---
 src/server.cpp |  4 +++-
 src/tx.cpp     | 11 ++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index 94d1e57..c8ea159 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -243,7 +243,9 @@ struct server_thread {
 
     int msqid = get_queue(svc);
     if (fux::tx::transactional()) {
-      fux::tx_end(true);
+      if (!fux::tx_end(true)) {
+        throw std::runtime_error("work in transaction cannot be ended");
+      }
     }
 
     if (flags != 0) {
diff --git a/src/tx.cpp b/src/tx.cpp
index 5573126..9ad6ddc 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -521,7 +521,16 @@ int _tx_start(TXINFO *info) { return _tx_start(info, TMNOFLAGS); }
 namespace fux {
 void tx_resume() { _tx_resume(nullptr); }
 void tx_suspend() { _tx_suspend(nullptr); }
-bool tx_end(bool ok) { return _tx_end(ok) == TX_OK; }
+bool tx_end(bool ok) {
+  if (!getctxt().joined) {
+    // Transaction the service started itself and did not end
+    userlog("Rolling back transaction left open by a service");
+    tx_set_transaction_control(TX_UNCHAINED);
+    tx_rollback();
+    return false;
+  }
+  return _tx_end(ok) == TX_OK;
+}
 bool tx_join(fux::gttid gttid) try {
   auto &ctxt = getctxt();
   TXINFO info;
-- 
2.43.0


From c2ae1a6c1ffa411a0df0135b6288d47fcd1f809f Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:39:20 +0000
Subject: [PATCH 109/131] fix: resumed transaction can be ended and called in
 again, unknown ones are refused

---
 src/trx.cpp | 13 ++++++++++++-
 src/tx.cpp  | 52 ++++++++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 56 insertions(+), 9 deletions(-)

diff --git a/src/trx.cpp b/src/trx.cpp
index a097296..a67f806 100644
--- a/src/trx.cpp
+++ b/src/trx.cpp
@@ -193,15 +193,26 @@ int tpresume(TPTRANID *tranid, long flags) {
     TPERROR(TPEINVAL, "Invalid TRANID, too big");
     return -1;
   }
-  TXINFO info;
+  TXINFO info = {};
   std::copy_n(reinterpret_cast<char *>(&tranid->info), sizeof(*tranid),
               reinterpret_cast<char *>(&info.xid));
+  const long datalen = sizeof(*tranid) - offsetof(XID, data);
+  if (info.xid.gtrid_length < 0 || info.xid.bqual_length < 0 ||
+      info.xid.gtrid_length > datalen ||
+      info.xid.bqual_length > datalen - info.xid.gtrid_length) {
+    TPERROR(TPEINVAL, "Invalid TRANID");
+    return -1;
+  }
 
   int rc = _tx_resume(&info);
   if (rc == TX_OK) {
     fux::atmi::reset_tperrno();
     return 0;
   }
+  if (rc == TX_EINVAL) {
+    TPERROR(TPEMATCH, "Transaction does not exist");
+    return -1;
+  }
 
   return trx_err(rc, "_tx_start");
 }
diff --git a/src/tx.cpp b/src/tx.cpp
index 9ad6ddc..0a3e0bf 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -99,6 +99,8 @@ struct tx_context {
   TXINFO info = {};
   // Started by another process
   bool joined;
+  // The one joined that is suspended
+  XID joined_xid = {};
   fux::gttid gttid;
   mib &mibcon_;
 };
@@ -437,15 +439,26 @@ static int _tx_end(TXINFO *info, long flags) {
 // The main difference is that suspend does not start a new transaction even in
 // chained mode
 int _tx_suspend(TXINFO *info) {
-  auto rc = _tx_end(info, TMSUSPEND);
-  if (rc == TX_OK) {
-    if (getctxt().state == tx_state::s3) {
-      getctxt().state = tx_state::s1;
-    } else if (getctxt().state == tx_state::s4) {
-      getctxt().state = tx_state::s2;
+  auto &ctxt = getctxt();
+  if (!(ctxt.state == tx_state::s3 || ctxt.state == tx_state::s4)) {
+    return TX_PROTOCOL_ERROR;
+  }
+  auto rc = _tx_end(nullptr, TMSUSPEND);
+  if (rc != TX_OK) {
+    return rc;
+  }
+  if (ctxt.state == tx_state::s3) {
+    ctxt.state = tx_state::s1;
+  } else if (ctxt.state == tx_state::s4) {
+    ctxt.state = tx_state::s2;
+  }
+  if (info != nullptr) {
+    *info = ctxt.info;
+    if (ctxt.joined) {
+      ctxt.joined_xid = ctxt.info.xid;
     }
+    ctxt.notrx();
   }
-
   return rc;
 }
 
@@ -514,7 +527,30 @@ static int _tx_start(TXINFO *info, long flags, int *xaresult = nullptr) {
   return TX_FAIL;
 }
 
-int _tx_resume(TXINFO *info) { return _tx_start(info, TMRESUME); }
+int _tx_resume(TXINFO *info) {
+  auto &ctxt = getctxt();
+  if (info == nullptr) {
+    return _tx_start(nullptr, TMRESUME);
+  }
+  if (!(ctxt.state == tx_state::s1 || ctxt.state == tx_state::s2)) {
+    return TX_PROTOCOL_ERROR;
+  }
+  fux::gttid gttid;
+  try {
+    auto lock = ctxt.mibcon_.data_lock();
+    gttid = ctxt.mibcon_.transactions().find(info->xid);
+  } catch (const std::out_of_range &e) {
+    return TX_EINVAL;
+  }
+  auto rc = _tx_start(info, TMRESUME);
+  if (rc == TX_OK) {
+    ctxt.gttid = gttid;
+    ctxt.joined = fux::to_string(&info->xid) == fux::to_string(&ctxt.joined_xid);
+  } else {
+    ctxt.notrx();
+  }
+  return rc;
+}
 
 int _tx_start(TXINFO *info) { return _tx_start(info, TMNOFLAGS); }
 
-- 
2.43.0


From 42e34720abd42fc72fdd315367fef6ca663581fb Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:40:00 +0000
Subject: [PATCH 110/131] fix: transaction whose branch cannot be suspended or
 resumed around a call is rolled back

---
 src/tx.cpp | 36 ++++++++++++++++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 0a3e0bf..434322d 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -64,6 +64,7 @@ struct tx_context {
     info.xid.formatID = -1;
     gttid = fux::bad_gttid;
     joined = false;
+    detached = false;
   }
   // Transaction can only be rolled back after this
   void rollback_only() try {
@@ -73,6 +74,11 @@ struct tx_context {
   } catch (const std::out_of_range &e) {
     userlog("Failed to mark transaction: %s", e.what());
   }
+  // Work with resource manager can't be continued
+  void detach() {
+    detached = true;
+    rollback_only();
+  }
   bool is_rollback_only(XID &xid) try {
     auto lock = mibcon_.data_lock();
     auto &transactions = mibcon_.transactions();
@@ -99,6 +105,8 @@ struct tx_context {
   TXINFO info = {};
   // Started by another process
   bool joined;
+  // Not associated with the branch anymore
+  bool detached;
   // The one joined that is suspended
   XID joined_xid = {};
   fux::gttid gttid;
@@ -408,6 +416,13 @@ static int _tx_end(TXINFO *info, long flags) {
   if (!(getctxt().state == tx_state::s3 || getctxt().state == tx_state::s4)) {
     return TX_PROTOCOL_ERROR;
   }
+  if (getctxt().detached) {
+    if (info != nullptr) {
+      *info = getctxt().info;
+      getctxt().notrx();
+    }
+    return TX_FAIL;
+  }
 
   userlog("xa_end(%s, %d, 0x%0lx) ...",
           fux::to_string(&getctxt().info.xid).c_str(), fux::tx::grpno, flags);
@@ -555,8 +570,25 @@ int _tx_resume(TXINFO *info) {
 int _tx_start(TXINFO *info) { return _tx_start(info, TMNOFLAGS); }
 
 namespace fux {
-void tx_resume() { _tx_resume(nullptr); }
-void tx_suspend() { _tx_suspend(nullptr); }
+void tx_resume() {
+  auto &ctxt = getctxt();
+  auto rc = _tx_resume(nullptr);
+  if (rc != TX_OK && rc != TX_PROTOCOL_ERROR) {
+    // Still in transaction, but it can only be rolled back
+    if (ctxt.state == tx_state::s1) {
+      ctxt.state = tx_state::s3;
+    } else if (ctxt.state == tx_state::s2) {
+      ctxt.state = tx_state::s4;
+    }
+    ctxt.detach();
+  }
+}
+void tx_suspend() {
+  auto rc = _tx_suspend(nullptr);
+  if (rc != TX_OK && rc != TX_PROTOCOL_ERROR) {
+    getctxt().detach();
+  }
+}
 bool tx_end(bool ok) {
   if (!getctxt().joined) {
     // Transaction the service started itself and did not end
-- 
2.43.0


From 99e3bd05ee1043ad30e1ec3029ee3bd2037464c8 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:40:21 +0000
Subject: [PATCH 111/131] fix: transaction that ends with calls outstanding is
 rolled back and their descriptors released

---
 src/client.cpp | 28 ++++++++++++++++++++++++++--
 src/resp.h     | 24 +++++++++++++++++++++++-
 src/trx.cpp    |  2 --
 src/trx.h      |  1 +
 src/tx.cpp     | 12 ++++++++++++
 5 files changed, 62 insertions(+), 5 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 102b52f..5afee74 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -82,6 +82,12 @@ class client {
       }
     }
 
+    const bool tran = !(flags & TPNOTRAN) && fux::tx::transactional();
+    if (tran && (flags & TPNOREPLY)) {
+      TPERROR(TPEINVAL, "TPNOREPLY in transaction requires TPNOTRAN");
+      return -1;
+    }
+
     rq.set_data(data, len);
     checked_copy(svc, rq->servicename);
     if (flags & TPNOREPLY) {
@@ -94,9 +100,10 @@ class client {
         return -1;
       }
     }
-    if (!(flags & TPNOTRAN) && fux::tx::transactional()) {
+    if (tran) {
       rq->flags = TPTRAN;
       rq->gttid = fux::tx::gttid();
+      cds.transactional(rq->cd, rq->gttid);
     } else {
       rq->flags = 0;
       rq->gttid = fux::bad_gttid;
@@ -232,10 +239,13 @@ class client {
   }
 
   int tpcancel(int cd) {
+    if (cds.is_transactional(cd)) {
+      TPERROR(TPETRAN, "Call is a part of transaction");
+      return -1;
+    }
     if (cds.release(cd) == -1) {
       return -1;
     }
-    // TPETRAN
     fux::atmi::reset_tperrno();
     return 0;
   }
@@ -243,8 +253,16 @@ class client {
   long peek_next_blocktime() { return blocktime_next; }
   void set_next_blocktime(long timeout) { blocktime_next = timeout; }
 
+  size_t forget_transactional(fux::gttid gttid) {
+    return cds.release_transactional(gttid);
+  }
+
   void forget(int cd) {
     if (cds.outstanding(cd)) {
+      if (cds.is_transactional(cd)) {
+        // Service might be still working in the transaction
+        fux::tx_rollback_only();
+      }
       cds.release(cd);
     }
   }
@@ -479,4 +497,10 @@ int tpgblktime(long flags) {
       [&] { return getclient().tpgblktime(flags); }, -1);
 }
 
+namespace fux {
+size_t forget_transactional(fux::gttid gttid) {
+  return current_client ? current_client->forget_transactional(gttid) : 0;
+}
+}  // namespace fux
+
 int get_queue(const char *svc) { return getclient().get_queue(svc); }
diff --git a/src/resp.h b/src/resp.h
index e6d8486..28aed2f 100644
--- a/src/resp.h
+++ b/src/resp.h
@@ -11,6 +11,8 @@ class responses {
   struct response {
     flags status;
     fux::ipc::msg res;
+    // Transaction the call is a part of
+    fux::gttid gttid;
   };
   std::map<int, response> calls_;
   int seq_;
@@ -40,7 +42,7 @@ class responses {
       // If cd wrapped around and cd has still no response
       // assume it will never come
     }
-    calls_[cd] = response{flags::none, {}};
+    calls_[cd] = response{flags::none, {}, fux::bad_gttid};
     return cd;
   }
 
@@ -62,6 +64,26 @@ class responses {
     return -1;
   }
 
+  // Call is done on behalf of transaction
+  void transactional(int cd, fux::gttid gttid) { calls_[cd].gttid = gttid; }
+  bool is_transactional(int cd) {
+    auto it = calls_.find(cd);
+    return it != calls_.end() && it->second.gttid != fux::bad_gttid;
+  }
+  // Calls of the transaction that ends; their number
+  size_t release_transactional(fux::gttid gttid) {
+    size_t n = 0;
+    for (auto it = calls_.begin(); it != calls_.end();) {
+      if (it->second.gttid == gttid) {
+        it = calls_.erase(it);
+        n++;
+      } else {
+        ++it;
+      }
+    }
+    return n;
+  }
+
   bool outstanding(int cd) { return calls_.find(cd) != calls_.end(); }
 
   void buffer(fux::ipc::msg &&res) {
diff --git a/src/trx.cpp b/src/trx.cpp
index a67f806..b6c7b12 100644
--- a/src/trx.cpp
+++ b/src/trx.cpp
@@ -114,7 +114,6 @@ int tpabort(long flags) {
     return -1;
   }
 
-  // TODO: clean call descriptors
   int rc = tx_rollback();
 
   if (rc == TX_OK) {
@@ -135,7 +134,6 @@ int tpcommit(long flags) {
     return -1;
   }
 
-  // TODO: clean call descriptors, do rollback
   int rc = tx_commit();
 
   if (rc == TX_OK) {
diff --git a/src/trx.h b/src/trx.h
index 55b36fc..ab98736 100644
--- a/src/trx.h
+++ b/src/trx.h
@@ -19,6 +19,7 @@ bool transactional();
 }  // namespace tx
 void tx_resume();
 void tx_suspend();
+void tx_rollback_only();
 bool tx_join(fux::gttid id);
 bool tx_end(bool ok);
 
diff --git a/src/tx.cpp b/src/tx.cpp
index 434322d..ed1d146 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -26,6 +26,10 @@ namespace fux::tm {
 enum xa_func { prepare, commit, rollback };
 }
 
+namespace fux {
+size_t forget_transactional(fux::gttid gttid);
+}  // namespace fux
+
 namespace fux::tx {
 uint16_t grpno = 0;
 }  // namespace fux::tx
@@ -348,6 +352,7 @@ int tx_commit() {
     // Only the one who started transaction ends it
     return TX_PROTOCOL_ERROR;
   }
+  const auto gttid = getctxt().gttid;
   TXINFO info;
   auto rc = _tx_end(&info, TMSUCCESS);
   if (rc == TX_PROTOCOL_ERROR) {
@@ -359,6 +364,10 @@ int tx_commit() {
   // Collect interested branches for the 2nd phase
   std::vector<branch> branches2;
   bool commit = rc == TX_OK && !getctxt().is_rollback_only(info.xid);
+  // Replies not received are not valid anymore and neither is the work done
+  if (fux::forget_transactional(gttid) > 0) {
+    commit = false;
+  }
   if (commit) {
     command(branches1, &info.xid, fux::tm::prepare);
 
@@ -397,6 +406,7 @@ int tx_rollback() {
     // Only the one who started transaction ends it
     return TX_PROTOCOL_ERROR;
   }
+  const auto gttid = getctxt().gttid;
   TXINFO info;
   auto rc = _tx_end(&info, TMSUCCESS);
   if (rc == TX_PROTOCOL_ERROR) {
@@ -404,6 +414,7 @@ int tx_rollback() {
   }
 
   std::vector<branch> branches = collect(&info.xid);
+  fux::forget_transactional(gttid);
 
   command(branches, &info.xid, fux::tm::rollback);
 
@@ -589,6 +600,7 @@ void tx_suspend() {
     getctxt().detach();
   }
 }
+void tx_rollback_only() { getctxt().rollback_only(); }
 bool tx_end(bool ok) {
   if (!getctxt().joined) {
     // Transaction the service started itself and did not end
-- 
2.43.0


From 489ba36f13221e4789ba9630185a263f2e252208 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:40:51 +0000
Subject: [PATCH 112/131] fix: services that run when their transaction is
 rolled back do not work in another one or leave a branch

---
 src/client.cpp |  2 ++
 src/ipc.h      |  1 +
 src/server.cpp |  4 +++-
 src/trx.h      |  3 ++-
 src/tx.cpp     | 38 +++++++++++++++++++++++++++++++++-----
 5 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 5afee74..8488ebd 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -103,10 +103,12 @@ class client {
     if (tran) {
       rq->flags = TPTRAN;
       rq->gttid = fux::tx::gttid();
+      rq->gtrid = fux::tx::gtrid();
       cds.transactional(rq->cd, rq->gttid);
     } else {
       rq->flags = 0;
       rq->gttid = fux::bad_gttid;
+      rq->gtrid = 0;
     }
 
     try {
diff --git a/src/ipc.h b/src/ipc.h
index c57e47e..57f9080 100644
--- a/src/ipc.h
+++ b/src/ipc.h
@@ -63,6 +63,7 @@ struct msgfile : msgbase {
 struct msgmem : msgbase {
   char servicename[XATMI_SERVICE_NAME_LENGTH];
   fux::gttid gttid;
+  uint64_t gtrid;
   long flags;
   int cd;
   int replyq;
diff --git a/src/server.cpp b/src/server.cpp
index c8ea159..1ae5fb8 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -235,6 +235,7 @@ struct server_thread {
 
   void tpforward(char *svc, char *data, long len, long flags) {
     auto gttid = fux::tx::gttid();
+    auto gtrid = fux::tx::gtrid();
     res.set_data(data, len);
 
     if (data != nullptr && data != atmibuf) {
@@ -257,6 +258,7 @@ struct server_thread {
     res->mtype = req->mtype;
     res->cd = req->cd;
     res->gttid = gttid;
+    res->gtrid = gtrid;
 
     fux::ipc::qsend(msqid, res, 0, fux::ipc::flags::notime);
   }
@@ -361,7 +363,7 @@ static void dispatch() {
     tpsvcinfo.cd = thread_ptr->req->cd;
 
     if (thread_ptr->req->flags & TPTRAN) {
-      if (!fux::tx_join(thread_ptr->req->gttid)) {
+      if (!fux::tx_join(thread_ptr->req->gttid, thread_ptr->req->gtrid)) {
         userlog("Service %s cannot join transaction", tpsvcinfo.name);
         thread_ptr->fail(TPESVCERR);
         continue;
diff --git a/src/trx.h b/src/trx.h
index ab98736..743f6ab 100644
--- a/src/trx.h
+++ b/src/trx.h
@@ -15,12 +15,13 @@ namespace fux {
 
 namespace tx {
 fux::gttid gttid();
+uint64_t gtrid();
 bool transactional();
 }  // namespace tx
 void tx_resume();
 void tx_suspend();
 void tx_rollback_only();
-bool tx_join(fux::gttid id);
+bool tx_join(fux::gttid id, uint64_t gtrid);
 bool tx_end(bool ok);
 
 inline std::string to_string(XID *xid) {
diff --git a/src/tx.cpp b/src/tx.cpp
index ed1d146..21d9216 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -83,6 +83,13 @@ struct tx_context {
     detached = true;
     rollback_only();
   }
+  bool is_active(XID &xid) try {
+    auto lock = mibcon_.data_lock();
+    auto &transactions = mibcon_.transactions();
+    return transactions.at(transactions.find(xid)).state == transaction::active;
+  } catch (const std::out_of_range &e) {
+    return false;
+  }
   bool is_rollback_only(XID &xid) try {
     auto lock = mibcon_.data_lock();
     auto &transactions = mibcon_.transactions();
@@ -211,6 +218,12 @@ static XID xid() {
   return xid;
 }
 
+static uint64_t get_gtrid(const XID &xid) {
+  uint64_t id;
+  std::copy_n(xid.data, sizeof(id), reinterpret_cast<char *>(&id));
+  return id;
+}
+
 int tx_begin() {
   if (TMREGISTER) {
     // return TX_OK;
@@ -317,8 +330,10 @@ static int outcome(const std::vector<branch> &branches, int command) {
     } else if (command == fux::tm::commit && p.result == XAER_RMERR) {
       rolledback = true;
     } else if (command == fux::tm::rollback &&
-               (p.result == XA_OK || p.result == XAER_NOTA)) {
-      // Branch that is not known to resource manager has been rolled back
+               (p.result == XA_OK || p.result == XAER_NOTA ||
+                p.result == XAER_PROTO)) {
+      // Branch that is not known to resource manager has been rolled back and
+      // the one still active will be when its service returns
       rolledback = true;
     } else {
       hazard = true;
@@ -333,11 +348,13 @@ static int outcome(const std::vector<branch> &branches, int command) {
   return committed ? TX_COMMITTED : TX_ROLLBACK;
 }
 
+// Branches of the transaction, nobody joins it after this
 static std::vector<branch> collect(XID *xid) {
   std::vector<branch> branches;
   auto lock = getmib().data_lock();
   auto max = getmib().transactions().max_groups;
   auto &tx = getmib().transactions()[getmib().transactions().find(*xid)];
+  tx.state = transaction::preparing;
   for (size_t group = 0; group < max; group++) {
     if (tx.groups[group] > 0) {
       branches.push_back({getmib().groups().at(group).grpno, -1, TMER_TMERR});
@@ -501,6 +518,13 @@ int _tx_end(bool ok) {
     getctxt().rollback_only();
     getctxt().notrx();
   }
+  if (!getctxt().is_active(info.xid)) {
+    // Was rolled back while the branch was still active
+    auto xarc = xasw->xa_rollback_entry(&info.xid, fux::tx::grpno, TMNOFLAGS);
+    userlog("xa_rollback(%s, %d, 0) = %d", fux::to_string(&info.xid).c_str(),
+            fux::tx::grpno, xarc);
+    rc = TX_ROLLBACK;
+  }
   if (getctxt().state == tx_state::s3) {
     getctxt().state = tx_state::s1;
   } else if (getctxt().state == tx_state::s4) {
@@ -611,7 +635,7 @@ bool tx_end(bool ok) {
   }
   return _tx_end(ok) == TX_OK;
 }
-bool tx_join(fux::gttid gttid) try {
+bool tx_join(fux::gttid gttid, uint64_t gtrid) try {
   auto &ctxt = getctxt();
   TXINFO info;
   // The first one of the group starts the branch, others join it
@@ -619,8 +643,11 @@ bool tx_join(fux::gttid gttid) try {
   {
     auto lock = ctxt.mibcon_.data_lock();
     auto &transactions = ctxt.mibcon_.transactions();
-    info.xid = transactions.at(gttid).xid;
-    if (info.xid.formatID == -1) {
+    auto &tx = transactions.at(gttid);
+    info.xid = tx.xid;
+    // Entry might be used by another transaction already
+    if (info.xid.formatID == -1 || get_gtrid(info.xid) != gtrid ||
+        tx.state != transaction::active) {
       userlog("Transaction has ended already");
       return false;
     }
@@ -651,6 +678,7 @@ bool tx_join(fux::gttid gttid) try {
 }
 namespace tx {
 fux::gttid gttid() { return getctxt().gttid; }
+uint64_t gtrid() { return get_gtrid(getctxt().info.xid); }
 bool transactional() { return !(getctxt().info.xid.formatID == -1); }
 }  // namespace tx
 };  // namespace fux
-- 
2.43.0


From a12a0a24515536102ed5ad9f8e8688dcb652ea80 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 113/131] fix: servers detach before they tell that they have
 stopped, removal of the domain meanwhile does not end them abnormally

---
 src/client.cpp | 17 ++++++++++-------
 src/ipc.h      |  8 +++++++-
 src/server.cpp |  6 ++++++
 3 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 8488ebd..dc3aa4b 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -52,13 +52,15 @@ class client {
     rpid = mibcon_.accessers().at(client_).rpid = fux::ipc::qcreate();
   }
 
-  ~client() try {
-    auto lock = mibcon_.data_lock();
-    fux::ipc::qdelete(mibcon_.accessers().at(client_).rpid);
-    mibcon_.accessers().at(client_).invalidate();
-  } catch (const std::exception &e) {
-    // The domain might have been removed already
-    userlog("Failed to detach from the domain: %s", e.what());
+  ~client() {
+    try {
+      auto lock = mibcon_.data_lock();
+      fux::ipc::qdelete(mibcon_.accessers().at(client_).rpid);
+      mibcon_.accessers().at(client_).invalidate();
+    } catch (const std::exception &e) {
+      // The domain might have been removed already
+      userlog("Failed to detach from the domain: %s", e.what());
+    }
   }
 
   int tpacall_group(int grpno, const char *svc, char *data, long len,
@@ -500,6 +502,7 @@ int tpgblktime(long flags) {
 }
 
 namespace fux {
+void detach_client() { current_client.reset(); }
 size_t forget_transactional(fux::gttid gttid) {
   return current_client ? current_client->forget_transactional(gttid) : 0;
 }
diff --git a/src/ipc.h b/src/ipc.h
index 57f9080..0337ba6 100644
--- a/src/ipc.h
+++ b/src/ipc.h
@@ -31,7 +31,13 @@ class scoped_semlock {
   scoped_semlock(int semid, int num) : semid_(semid), num_(num) {
     semlock(semid_, num_);
   }
-  ~scoped_semlock() { semunlock(semid_, num_); }
+  ~scoped_semlock() {
+    try {
+      semunlock(semid_, num_);
+    } catch (const std::exception &) {
+      // Semaphores have been removed together with the domain
+    }
+  }
   scoped_semlock(scoped_semlock &&) = default;
   scoped_semlock &operator=(scoped_semlock &&) = default;
 
diff --git a/src/server.cpp b/src/server.cpp
index 1ae5fb8..d6e171e 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -389,6 +389,10 @@ static void thread_dispatch(tmsvrargs_t *tmsvrargs, int argc, char *argv[]) {
   thread_ptr.reset();
 }
 
+namespace fux {
+void detach_client();
+}  // namespace fux
+
 namespace fux::glob {
 extern xa_switch_t *xasw;
 }
@@ -507,6 +511,8 @@ int _tmstartserver(int argc, char **argv, struct tmsvrargs_t *tmsvrargs) {
   main_ptr->unadvertise_all();
 
   tmsvrargs->svrdone();
+  // The domain might be removed as soon as the reply is sent
+  fux::detach_client();
   main_ptr->inactive();
   if (main_thread_ptr->reply_to_shutdown) {
     main_thread_ptr->reply(TPMINVAL, 0, main_thread_ptr->atmibuf, 0, TPNOFLAGS);
-- 
2.43.0


From e983eca55b55fe70100ebc7378f025211eb46bb8 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 00:12:12 +0000
Subject: [PATCH 114/131] fix: calls a service leaves outstanding do not take
 descriptors from the next requests or answer them

---
 src/client.cpp | 12 ++++++++++++
 src/resp.h     | 10 ++++++++++
 src/server.cpp | 10 ++++++++++
 3 files changed, 32 insertions(+)

diff --git a/src/client.cpp b/src/client.cpp
index dc3aa4b..3ea495e 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -261,6 +261,13 @@ class client {
     return cds.release_transactional(gttid);
   }
 
+  void forget_all() {
+    if (cds.release_all() && fux::tx::transactional()) {
+      // Services might be still working in the transaction
+      fux::tx_rollback_only();
+    }
+  }
+
   void forget(int cd) {
     if (cds.outstanding(cd)) {
       if (cds.is_transactional(cd)) {
@@ -506,6 +513,11 @@ void detach_client() { current_client.reset(); }
 size_t forget_transactional(fux::gttid gttid) {
   return current_client ? current_client->forget_transactional(gttid) : 0;
 }
+void forget_calls() {
+  if (current_client) {
+    current_client->forget_all();
+  }
+}
 }  // namespace fux
 
 int get_queue(const char *svc) { return getclient().get_queue(svc); }
diff --git a/src/resp.h b/src/resp.h
index 28aed2f..2f02d7e 100644
--- a/src/resp.h
+++ b/src/resp.h
@@ -84,6 +84,16 @@ class responses {
     return n;
   }
 
+  // All calls; tells if any of them was a part of transaction
+  bool release_all() {
+    bool transactional = false;
+    for (auto &it : calls_) {
+      transactional = transactional || it.second.gttid != fux::bad_gttid;
+    }
+    calls_.clear();
+    return transactional;
+  }
+
   bool outstanding(int cd) { return calls_.find(cd) != calls_.end(); }
 
   void buffer(fux::ipc::msg &&res) {
diff --git a/src/server.cpp b/src/server.cpp
index d6e171e..61f0178 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -217,6 +217,10 @@ int _tmrunserver(int) {
   return 0;
 }
 
+namespace fux {
+void forget_calls();
+}  // namespace fux
+
 struct server_thread {
   server_thread() : atmibuf(nullptr), reply_to_shutdown(false) {}
 
@@ -234,6 +238,9 @@ struct server_thread {
   jmp_buf tpreturn_env;
 
   void tpforward(char *svc, char *data, long len, long flags) {
+    // Replies nobody asked for are not for the next request
+    fux::forget_calls();
+
     auto gttid = fux::tx::gttid();
     auto gtrid = fux::tx::gtrid();
     res.set_data(data, len);
@@ -288,6 +295,7 @@ struct server_thread {
 
   // Replies on behalf of a service that could not do that itself
   void fail(int rval) try {
+    fux::forget_calls();
     if (fux::tx::transactional()) {
       fux::tx_end(false);
     }
@@ -297,6 +305,8 @@ struct server_thread {
   }
 
   void tpreturn(int rval, long rcode, char *data, long len, long flags) {
+    fux::forget_calls();
+
     if (fux::tx::transactional()) {
       // Result of the service has been translated already
       const bool success = rval == TPMINVAL && flags == 0;
-- 
2.43.0


From 960c3a92f083c1a94706f816cdb8161b0f53c738 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 01:04:58 +0000
Subject: [PATCH 115/131] fix: administrative service refuses requests that are
 not FML32 instead of crashing

---
 src/BBL.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/BBL.cpp b/src/BBL.cpp
index 81cbf64..8d16bb5 100644
--- a/src/BBL.cpp
+++ b/src/BBL.cpp
@@ -9,6 +9,7 @@
 
 #include <atmi.h>
 #include <stdio.h>
+#include <string.h>
 #include <tpadm.h>
 #include <userlog.h>
 #include <xa.h>
@@ -135,7 +136,10 @@ int tpsvrinit(int, char *[]) {
 }
 
 extern "C" void TMIB(TPSVCINFO *svcinfo) {
-  if (svcinfo->data == nullptr) {
+  char type[8] = {0};
+  if (svcinfo->data == nullptr ||
+      tptypes(svcinfo->data, type, nullptr) == -1 ||
+      strncmp(type, "FML32", sizeof(type)) != 0) {
     tpreturn(TPFAIL, 0, nullptr, 0, 0);
   }
   fux::fml32buf rq(svcinfo);
-- 
2.43.0


From 61218701169b2bc028fc9b422efd798c5fb9b41c Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 02:48:43 +0000
Subject: [PATCH 116/131] fix: tptypes returns the size of the buffer

---
 src/mem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mem.cpp b/src/mem.cpp
index 5e6eebe..e56afad 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -182,7 +182,7 @@ long tptypes(char *ptr, char *type, char *subtype) {
   }
 
   fux::atmi::reset_tperrno();
-  return 0;
+  return mem->size;
 }
 
 int tpimport(char *istr, long ilen, char **obuf, long *olen, long flags) {
@@ -334,7 +334,7 @@ void tpfree(char *ptr) {
 
 long tptypes(char *ptr, char *type, char *subtype) {
   return fux::atmi::exception_boundary(
-      [&] { return fux::mem::tptypes(ptr, type, subtype); }, -1);
+      [&] { return fux::mem::tptypes(ptr, type, subtype); }, -1L);
 }
 
 int tpimport(char *istr, long ilen, char **obuf, long *olen, long flags) {
-- 
2.43.0


From 2407804d86a968d8e0467af5f214afc5ca97f5d8 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 02:59:21 +0000
Subject: [PATCH 117/131] fix: BBL stops its watchdog before it ends

---
 src/BBL.cpp | 56 ++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 11 deletions(-)

diff --git a/src/BBL.cpp b/src/BBL.cpp
index 8d16bb5..4b6d8ca 100644
--- a/src/BBL.cpp
+++ b/src/BBL.cpp
@@ -3,6 +3,9 @@
 
 #include <xa.h>
 #include <algorithm>
+#include <condition_variable>
+#include <mutex>
+#include <thread>
 
 #include "fux.h"
 #include "mib.h"
@@ -117,24 +120,55 @@ static void monitor_clients() {
   }
 }
 
-static void run_watchdog() try {
-  while (true) {
-    std::this_thread::sleep_for(std::chrono::seconds(1));
-
-    handle_blocktime();
-    monitor_servers();
-    monitor_clients();
+// Ends before the things it looks at do
+class watchdog {
+ public:
+  void start() {
+    thread_ = std::thread([this] { run(); });
   }
-} catch (const std::exception &e) {
-  userlog("Watchdog ends: %s", e.what());
+  void stop() {
+    {
+      std::lock_guard<std::mutex> lock(mutex_);
+      stop_ = true;
+    }
+    cond_.notify_one();
+    if (thread_.joinable()) {
+      thread_.join();
+    }
+  }
+  ~watchdog() { stop(); }
+
+ private:
+  void run() try {
+    std::unique_lock<std::mutex> lock(mutex_);
+    while (!cond_.wait_for(lock, std::chrono::seconds(1),
+                           [this] { return stop_; })) {
+      handle_blocktime();
+      monitor_servers();
+      monitor_clients();
+    }
+  } catch (const std::exception &e) {
+    userlog("Watchdog ends: %s", e.what());
+  }
+
+  std::thread thread_;
+  std::mutex mutex_;
+  std::condition_variable cond_;
+  bool stop_ = false;
+};
+
+static watchdog &getwatchdog() {
+  static watchdog w;
+  return w;
 }
 
 int tpsvrinit(int, char *[]) {
-  std::thread t(run_watchdog);
-  t.detach();
+  getwatchdog().start();
   return 0;
 }
 
+void tpsvrdone() { getwatchdog().stop(); }
+
 extern "C" void TMIB(TPSVCINFO *svcinfo) {
   char type[8] = {0};
   if (svcinfo->data == nullptr ||
-- 
2.43.0


From 6140770fdd2efd4a9b98653554ef509474132e11 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:42:17 +0000
Subject: [PATCH 118/131] fix: ud32 does not free its buffer twice when the
 reply moves it

---
 src/extreader.h | 1 +
 src/ud32.cpp    | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/extreader.h b/src/extreader.h
index 067e69a..fdb6439 100644
--- a/src/extreader.h
+++ b/src/extreader.h
@@ -22,6 +22,7 @@ class extreader : public basic_parser {
     return true;
   }
   FBFR32 *get() { return buf.get(); }
+  FBFR32 *release() { return buf.release(); }
 
  private:
   fux::fml32ptr buf;
diff --git a/src/ud32.cpp b/src/ud32.cpp
index b9bd3fc..11dad37 100644
--- a/src/ud32.cpp
+++ b/src/ud32.cpp
@@ -50,7 +50,7 @@ int main(int argc, char *argv[]) {
   try {
     extreader r(stdin);
     r.parse();
-    FBFR32 *fbfr = r.get();
+    FBFR32 *fbfr = r.release();
     fux::fml32buf rq(&fbfr);
 
     char *srvcnm = Ffind32(fbfr, SRVCNM, 0, nullptr);
-- 
2.43.0


From 6b0c0326bb7b4cb65d179d550c308854484cf4c0 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:42:17 +0000
Subject: [PATCH 119/131] fix: ud32 refuses a request without a service name
 and keeps the name while the buffer changes

---
 src/ud32.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ud32.cpp b/src/ud32.cpp
index 11dad37..7de90d8 100644
--- a/src/ud32.cpp
+++ b/src/ud32.cpp
@@ -53,10 +53,14 @@ int main(int argc, char *argv[]) {
     FBFR32 *fbfr = r.release();
     fux::fml32buf rq(&fbfr);
 
-    char *srvcnm = Ffind32(fbfr, SRVCNM, 0, nullptr);
-    if (srvcnm == nullptr) {
+    char *name = Ffind32(fbfr, SRVCNM, 0, nullptr);
+    if (name == nullptr) {
       fprintf(stderr, "No service name found (%s)\n", Fstrerror32(Ferror32));
+      return -1;
     }
+    // the reply replaces the content of the buffer
+    std::string service = name;
+    char *srvcnm = &service[0];
     Fprint32(fbfr);
 
     if (timeout > 0) {
-- 
2.43.0


From 32b29f71de7157f1a171fbfd94e533544e2eda1c Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:42:17 +0000
Subject: [PATCH 120/131] fix: ud32 -r sends a request without expecting a
 reply

---
 src/ud32.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ud32.cpp b/src/ud32.cpp
index 7de90d8..1e1a271 100644
--- a/src/ud32.cpp
+++ b/src/ud32.cpp
@@ -69,7 +69,7 @@ int main(int argc, char *argv[]) {
 
     int cd;
     if (noreply) {
-      cd = tpacall(srvcnm, reinterpret_cast<char *>(rq.ptr()), 0, TPNOFLAGS);
+      cd = tpacall(srvcnm, reinterpret_cast<char *>(rq.ptr()), 0, TPNOREPLY);
     } else {
       long olen = 0;
       cd = tpcall(srvcnm, reinterpret_cast<char *>(rq.ptr()), 0,
-- 
2.43.0


From 094e96de3c9664ce19e866f17157311b79bae349 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:42:17 +0000
Subject: [PATCH 121/131] fix: ud32 -p prints neither request nor reply, and
 only a reply that came is printed

---
 src/ud32.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ud32.cpp b/src/ud32.cpp
index 1e1a271..6d697dc 100644
--- a/src/ud32.cpp
+++ b/src/ud32.cpp
@@ -61,17 +61,19 @@ int main(int argc, char *argv[]) {
     // the reply replaces the content of the buffer
     std::string service = name;
     char *srvcnm = &service[0];
-    Fprint32(fbfr);
+    if (!noprint) {
+      Fprint32(fbfr);
+    }
 
     if (timeout > 0) {
       tpbegin(timeout, 0);
     }
 
     int cd;
+    long olen = 0;
     if (noreply) {
       cd = tpacall(srvcnm, reinterpret_cast<char *>(rq.ptr()), 0, TPNOREPLY);
     } else {
-      long olen = 0;
       cd = tpcall(srvcnm, reinterpret_cast<char *>(rq.ptr()), 0,
                   reinterpret_cast<char **>(rq.ptrptr()), &olen, TPNOFLAGS);
     }
@@ -80,7 +82,9 @@ int main(int argc, char *argv[]) {
               tpstrerror(tperrno));
     }
 
-    Fprint32(fbfr);
+    if (!noprint && olen > 0) {
+      Fprint32(fbfr);
+    }
     if (cd == -1) {
       if (timeout > 0) {
         tpabort(0);
-- 
2.43.0


From b8c6668d47e76b63e79ddc71a45d70304bc56589 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:42:17 +0000
Subject: [PATCH 122/131] fix: ud32 -t sends the request in a transaction or
 not at all

---
 src/ud32.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ud32.cpp b/src/ud32.cpp
index 6d697dc..f8c1b86 100644
--- a/src/ud32.cpp
+++ b/src/ud32.cpp
@@ -66,7 +66,11 @@ int main(int argc, char *argv[]) {
     }
 
     if (timeout > 0) {
-      tpbegin(timeout, 0);
+      if (tpopen() == -1 || tpbegin(timeout, 0) == -1) {
+        fprintf(stderr, "Failed to begin a transaction (%s)\n",
+                tpstrerror(tperrno));
+        return -1;
+      }
     }
 
     int cd;
@@ -90,7 +94,10 @@ int main(int argc, char *argv[]) {
         tpabort(0);
       }
     } else if (timeout > 0) {
-      tpcommit(0);
+      if (tpcommit(0) == -1) {
+        fprintf(stderr, "Failed to commit the transaction (%s)\n",
+                tpstrerror(tperrno));
+      }
     }
   } catch (const std::system_error &e) {
     std::cerr << e.code().message() << std::endl;
-- 
2.43.0


From 164f8915208cf2e80bd81451e0ce00211516abc2 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:42:17 +0000
Subject: [PATCH 123/131] fix: ud32 --help shows the help

---
 src/ud32.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ud32.cpp b/src/ud32.cpp
index f8c1b86..75835e3 100644
--- a/src/ud32.cpp
+++ b/src/ud32.cpp
@@ -43,6 +43,10 @@ int main(int argc, char *argv[]) {
     std::cerr << parser;
     return -1;
   }
+  if (show_help) {
+    std::cout << parser;
+    return 0;
+  }
 
   FLDID32 SRVCNM = Fldid32(const_cast<char *>("SRVCNM"));
   if (SRVCNM == BADFLDID) {
-- 
2.43.0


From 47e364b3882c56f9740a6e7fbb13acfe7fbf386a Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:46:24 +0000
Subject: [PATCH 124/131] fix: ud32 does not take a reply of another type for a
 fielded buffer

---
 src/ud32.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ud32.cpp b/src/ud32.cpp
index 75835e3..caa4706 100644
--- a/src/ud32.cpp
+++ b/src/ud32.cpp
@@ -2,6 +2,7 @@
 // Copyright (C) 2017 Aivars Kalvans <aivars.kalvans@gmail.com>
 
 #include <clara.hpp>
+#include <cstring>
 #include <fstream>
 #include <iostream>
 #include <string>
@@ -90,7 +91,10 @@ int main(int argc, char *argv[]) {
               tpstrerror(tperrno));
     }
 
-    if (!noprint && olen > 0) {
+    char type[8];
+    if (!noprint && olen > 0 &&
+        tptypes(reinterpret_cast<char *>(fbfr), type, nullptr) != -1 &&
+        strncmp(type, "FML32", sizeof(type)) == 0) {
       Fprint32(fbfr);
     }
     if (cd == -1) {
-- 
2.43.0


From 776c702280a254ba56ab8f968d1b982724db0b1c Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 03:46:55 +0000
Subject: [PATCH 125/131] fix: a service sees TPNOREPLY when its caller expects
 no reply

---
 src/server.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server.cpp b/src/server.cpp
index 61f0178..6dff918 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -370,6 +370,9 @@ static void dispatch() {
       continue;
     }
     tpsvcinfo.flags = thread_ptr->req->flags;
+    if (thread_ptr->req->replyq == -1) {
+      tpsvcinfo.flags |= TPNOREPLY;
+    }
     tpsvcinfo.cd = thread_ptr->req->cd;
 
     if (thread_ptr->req->flags & TPTRAN) {
-- 
2.43.0


From 53ef69bec73dbab616d151dcd1621bad09c27eda Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 06:34:13 +0000
Subject: [PATCH 126/131] fix: a process stopped and continued while it waits
 for the lock still gets it

---
 src/ipc.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index 5313b37..3b1c240 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -80,7 +80,12 @@ int seminit(key_t key, int nsems) {
 }
 
 static void semop(int semid, struct sembuf sop) {
-  if (semop(semid, &sop, 1) == -1) {
+  int n;
+  do {
+    // Interrupted also when the process is stopped and continued
+    n = semop(semid, &sop, 1);
+  } while (n == -1 && errno == EINTR);
+  if (n == -1) {
     throw std::system_error(errno, std::generic_category(),
                             "Semaphore lock failed");
   }
-- 
2.43.0


From 61b689ab2855acc7951c74fd0e599c48a14c89d5 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 06:43:29 +0000
Subject: [PATCH 127/131] fix: signals that are handled do not end servers or
 lose their replies

---
 src/ipc.cpp    |  7 +++++--
 src/server.cpp | 12 ++++++++++--
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index 3b1c240..7007760 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -142,7 +142,10 @@ static const size_t MAX_QUEUE_MSG_SIZE = 4000;
 static bool msgsnd_timed(int msqid, void *ptr, size_t len, enum flags flag,
                          long msec) {
   if (flag == fux::ipc::notime) {
-    int n = msgsnd(msqid, ptr, len - sizeof(long), 0);
+    int n;
+    do {
+      n = msgsnd(msqid, ptr, len - sizeof(long), 0);
+    } while (n == -1 && errno == EINTR);
     if (n != -1) {
       return true;
     } else {
@@ -176,7 +179,7 @@ static bool msgsnd_timed(int msqid, void *ptr, size_t len, enum flags flag,
       }
 
       struct timespec req = {0, interval_msec * 1000000};
-      if (nanosleep(&req, nullptr) == -1) {
+      if (nanosleep(&req, nullptr) == -1 && errno != EINTR) {
         fprintf(stderr, "!!ERROR %d %s\n", errno, strerror(errno));
         throw std::system_error(errno, std::system_category());
       }
diff --git a/src/server.cpp b/src/server.cpp
index 6dff918..f7633d3 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -335,8 +335,16 @@ static void dispatch() {
         break;
       }
 
-      fux::ipc::qrecv(main_ptr->request_queue, thread_ptr->req,
-                      main_ptr->mtype(), 0);
+      try {
+        fux::ipc::qrecv(main_ptr->request_queue, thread_ptr->req,
+                        main_ptr->mtype(), 0);
+      } catch (const std::system_error &e) {
+        if (e.code().value() == EINTR) {
+          // Signals are no reason to stop serving
+          continue;
+        }
+        throw;
+      }
 
       thread_ptr->prepare();
       tpsvcinfo.len = thread_ptr->req.get_data(&thread_ptr->atmibuf);
-- 
2.43.0


From 535614e8f15e8a01600bd21f7bbcfde02598cd60 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 06:43:44 +0000
Subject: [PATCH 128/131] fix: a call interrupted by a signal goes on with
 TPSIGRSTRT and gives TPGOTSIG without

---
 src/client.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/client.cpp b/src/client.cpp
index 3ea495e..dde28bb 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -188,7 +188,19 @@ class client {
           has_deadline = true;
         }
         mibcon_.accessers().at(client_).rpid_timeout = deadline;
-        fux::ipc::qrecv(rpid, res, 0, 0);
+        try {
+          fux::ipc::qrecv(rpid, res, 0, 0);
+        } catch (const std::system_error &e) {
+          if (e.code().value() == EINTR && (flags & TPSIGRSTRT)) {
+            continue;
+          }
+          mibcon_.accessers().at(client_).rpid_timeout = INVALID_TIME;
+          if (e.code().value() != EINTR) {
+            throw;
+          }
+          TPERROR(TPGOTSIG, "Interrupted by a signal");
+          return -1;
+        }
         mibcon_.accessers().at(client_).rpid_timeout = INVALID_TIME;
         userlog("%s received on %0x", __func__, rpid);
       }
-- 
2.43.0


From 6543740a99d619efb60c4908f12dbccf63e64019 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 06:48:01 +0000
Subject: [PATCH 129/131] fix: a send interrupted by signals still waits for
 its whole block time

---
 src/ipc.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index 7007760..bec00e6 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -179,9 +179,11 @@ static bool msgsnd_timed(int msqid, void *ptr, size_t len, enum flags flag,
       }
 
       struct timespec req = {0, interval_msec * 1000000};
-      if (nanosleep(&req, nullptr) == -1 && errno != EINTR) {
-        fprintf(stderr, "!!ERROR %d %s\n", errno, strerror(errno));
-        throw std::system_error(errno, std::system_category());
+      while (nanosleep(&req, &req) == -1) {
+        if (errno != EINTR) {
+          fprintf(stderr, "!!ERROR %d %s\n", errno, strerror(errno));
+          throw std::system_error(errno, std::system_category());
+        }
       }
     }
   }
-- 
2.43.0


From fcd089f3cddc13cbb82e4f1349deb80fa4d09ec3 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 06:48:42 +0000
Subject: [PATCH 130/131] fix: signals do not lose the outcome of resource
 managers

---
 src/tx.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 21d9216..fc8b6a9 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -762,7 +762,7 @@ void command(std::vector<branch> &branches, XID *xid, int command) {
     int cd = p.cd;
     long len = 0;
     if (tpgetrply(&cd, reinterpret_cast<char **>(buf.ptrptr()), &len,
-                  TPNOFLAGS) == -1) {
+                  TPSIGRSTRT) == -1) {
       userlog("Failed to get reply from TM in group %d (%s)", p.grpno,
               tpstrerror(tperrno));
       tpcancel(p.cd);
-- 
2.43.0


From bdd989c3be4fef2cd1cae639f1aa3b87ff2335c8 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 08:18:37 +0000
Subject: [PATCH 131/131] fix: no junk in the padding of FML32 fields

Checksums of equal buffers were different and leftovers of other values or
memory were sent to others
---
 src/fbfr32.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index cdf882b..92bd044 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -102,7 +102,7 @@ struct Fbfr32 {
     size_ = buflen - min_size();
     len_ = 0;
 
-    memset(offsets_, 0, sizeof(offsets_));
+    std::fill(reinterpret_cast<char *>(offsets_), data_, '\0');
     return 0;
   }
   void reinit(FLDLEN32 buflen) { size_ = buflen - min_size(); }
@@ -252,11 +252,16 @@ struct Fbfr32 {
       memset(f->data, 0x0, sizeof(f->data));
       std::copy_n(value, flen, reinterpret_cast<field8b *>(field)->data);
     } else if (klass == FIELD16) {
-      std::copy_n(value, flen, reinterpret_cast<field16b *>(field)->data);
+      auto f = reinterpret_cast<field16b *>(field);
+      auto padding = reinterpret_cast<char *>(f) + sizeof(fieldhead);
+      std::fill(padding, f->data, '\0');
+      std::copy_n(value, flen, f->data);
     } else if (klass == FIELDN) {
       auto f = reinterpret_cast<fieldn *>(field);
       f->flen = flen;
       std::copy_n(value, flen, f->data);
+      // Same for the padding
+      std::fill_n(f->data + flen, fieldn::size(flen) - flen, '\0');
       if (type == FLD_FML32) {
         FBFR32 *fbfr = reinterpret_cast<FBFR32 *>(f->data);
         fbfr->size_ = fbfr->len_;
-- 
2.43.0

