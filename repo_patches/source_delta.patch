From 7c6bb6c9fd3314e6c3f40355f1eebbe0b73d41f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:04 +0000
Subject: [PATCH 01/15] fix: list the Mersenne exponent 24036583

---
 lib/period.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/period.cpp b/lib/period.cpp
index 556a495..0c77c76 100644
--- a/lib/period.cpp
+++ b/lib/period.cpp
@@ -17,7 +17,7 @@ namespace MTToolBox {
      2203, 2281, 3217, 4253, 4423, 9689, 9941, 11213, 19937, 21701,
      23209, 44497, 86243, 110503, 132049, 216091, 756839, 859433,
      1257787, 1398269, 2976221, 3021377, 6972593, 13466917,
-     20996011, 25964951, -1};
+     20996011, 24036583, 25964951, -1};
 
     /**
      * 既約判定
-- 
2.43.0


From 3f7cea8bfd30ea7aac4088cfc12d0d22681e403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:35 +0000
Subject: [PATCH 02/15] fix: initialise every member of a default-constructed
 Sequential

---
 include/MTToolBox/Sequential.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/MTToolBox/Sequential.hpp b/include/MTToolBox/Sequential.hpp
index 8e2264d..a8689e1 100644
--- a/include/MTToolBox/Sequential.hpp
+++ b/include/MTToolBox/Sequential.hpp
@@ -56,6 +56,9 @@ namespace MTToolBox {
          *\endenglish
          */
         Sequential() {
+            status = static_cast<T>(-1);
+            mask = 0;
+            error = false;
         }
 
         /**
-- 
2.43.0


From 30405f2a3198e372fab16fc45becf0b4e16ba107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:12 +0000
Subject: [PATCH 03/15] fix: set up the tempering before measuring it in the
 best-bits search

---
 include/MTToolBox/AlgorithmBestBits.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/MTToolBox/AlgorithmBestBits.hpp b/include/MTToolBox/AlgorithmBestBits.hpp
index 6b96656..b619c5f 100644
--- a/include/MTToolBox/AlgorithmBestBits.hpp
+++ b/include/MTToolBox/AlgorithmBestBits.hpp
@@ -392,6 +392,7 @@ namespace MTToolBox {
                 for (int j = 0; j < size; j++) {
                     rand.setTemperingPattern(mask, pattern->param[j], j);
                 }
+                rand.setUpTempering();
                 pattern->delta = get_equidist(rand, v_bit + 1);
                 if (verbose) {
                     cout << "pattern->delta:" << dec << pattern->delta << endl;
-- 
2.43.0


From 20d0c26c37248f82c76ebfee8c9b7817f33e4985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:28 +0000
Subject: [PATCH 04/15] fix: measure a reducible generator's defect against its
 Mersenne exponent

---
 include/MTToolBox/AlgorithmReducibleRT.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/MTToolBox/AlgorithmReducibleRT.hpp b/include/MTToolBox/AlgorithmReducibleRT.hpp
index a2b8279..fa8595a 100644
--- a/include/MTToolBox/AlgorithmReducibleRT.hpp
+++ b/include/MTToolBox/AlgorithmReducibleRT.hpp
@@ -136,7 +136,7 @@ namespace MTToolBox {
             int veq[bit_size<U>()];
             AlgorithmReducibleRecursionSearch<U> search(rg, *baseGenerator);
             AlgorithmCalculateParity<U, G> cp;
-            int mexp = rg.bitSize();
+            int mexp = rg.getMexp();
             bool found = false;
             for (int i = 0;; i++) {
                 if (search.start(1000 * mexp)) {
@@ -166,7 +166,7 @@ namespace MTToolBox {
             NTL::GF2X quotient = lcm / poly;
             annihilate(&rg, quotient);
             if (verbose) {
-                AlgorithmEquidistribution<U> sb(rg, bit_size<U>());
+                AlgorithmEquidistribution<U> sb(rg, bit_size<U>(), mexp);
                 int delta = sb.get_all_equidist(veq);
                 print_kv(veq, mexp, bit_size<U>());
                 *out << "delta = " << dec << delta << endl;
@@ -177,7 +177,7 @@ namespace MTToolBox {
                     if (st2.isLSBTempering()) {
                         rg.setReverseOutput();
                     }
-                    AlgorithmEquidistribution<U> sc(rg, bit_size<U>());
+                    AlgorithmEquidistribution<U> sc(rg, bit_size<U>(), mexp);
                     delta = sc.get_all_equidist(veq);
                     rg.resetReverseOutput();
                     time_t t = time(NULL);
@@ -188,7 +188,7 @@ namespace MTToolBox {
                 }
             }
             st1(rg, verbose);
-            AlgorithmEquidistribution<U> sc(rg, bit_size<U>());
+            AlgorithmEquidistribution<U> sc(rg, bit_size<U>(), mexp);
             delta = sc.get_all_equidist(veq);
             if (verbose) {
                 time_t t = time(NULL);
-- 
2.43.0


From dbb1e3eea17edd33fafcf72675ae71e821c1a19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:28 +0000
Subject: [PATCH 05/15] fix: set state bits above the 31st in
 RMT64Search::setOneBit

---
 samples/RMT/rmt64.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/RMT/rmt64.hpp b/samples/RMT/rmt64.hpp
index 23a7245..3ffe367 100644
--- a/samples/RMT/rmt64.hpp
+++ b/samples/RMT/rmt64.hpp
@@ -128,7 +128,7 @@ public:
 #endif
             return;
         }
-        state[idx] = 1 << r;
+        state[idx] = UINT64_C(1) << r;
 #if defined(DEBUG) && 0
         debug_print();
         fflush(stdout);
-- 
2.43.0


From ea0efe34689c205932b8f1191ee3c3a128511cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:28 +0000
Subject: [PATCH 06/15] fix: let the single-tempering search of a reducible
 generator compile

---
 include/MTToolBox/AlgorithmReducibleRT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/MTToolBox/AlgorithmReducibleRT.hpp b/include/MTToolBox/AlgorithmReducibleRT.hpp
index fa8595a..f57c200 100644
--- a/include/MTToolBox/AlgorithmReducibleRT.hpp
+++ b/include/MTToolBox/AlgorithmReducibleRT.hpp
@@ -230,7 +230,7 @@ namespace MTToolBox {
          * state transition function are found.
          *\endenglish
          */
-        bool search(TemperingCalculatable<U>& rg,
+        bool search(G& rg,
                     AlgorithmTempering<U>& st,
                     bool verbose = false,
                     std::ostream& os = std::cout) {
-- 
2.43.0


From b264c8dadd821241cf93b6cda9fa050e112ec95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:42 +0000
Subject: [PATCH 07/15] fix: test the state, not the newest word's mask, for
 zero in the twisters

---
 samples/MTDC/mt1.cpp            | 5 +++--
 samples/MTDC/mt2.cpp            | 5 +++--
 samples/MTGPDC/MTGP32search.hpp | 6 +++---
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/samples/MTDC/mt1.cpp b/samples/MTDC/mt1.cpp
index 4beff09..8ce2aeb 100644
--- a/samples/MTDC/mt1.cpp
+++ b/samples/MTDC/mt1.cpp
@@ -40,10 +40,11 @@ public:
     }
 
     bool isZero() const {
-        if ((upper_mask & state[index]) != 0) {
+        // only the upper bits of the oldest word belong to the state
+        if ((upper_mask & state[(index + 1) % N]) != 0) {
             return false;
         }
-        for (int i = 1; i < N; i++) {
+        for (int i = 2; i <= N; i++) {
             if (state[(index + i) % N] != 0) {
                 return false;
             }
diff --git a/samples/MTDC/mt2.cpp b/samples/MTDC/mt2.cpp
index e55a6ca..fefbb5d 100644
--- a/samples/MTDC/mt2.cpp
+++ b/samples/MTDC/mt2.cpp
@@ -102,10 +102,11 @@ public:
     }
 
     bool isZero() const {
-        if ((upper_mask & state[index]) != 0) {
+        // only the upper bits of the oldest word belong to the state
+        if ((upper_mask & state[(index + 1) % size]) != 0) {
             return false;
         }
-        for (int i = 1; i < size; i++) {
+        for (int i = 2; i <= size; i++) {
             if (state[(index + i) % size] != 0) {
                 return false;
             }
diff --git a/samples/MTGPDC/MTGP32search.hpp b/samples/MTGPDC/MTGP32search.hpp
index 2720d43..7ca3d19 100644
--- a/samples/MTGPDC/MTGP32search.hpp
+++ b/samples/MTGPDC/MTGP32search.hpp
@@ -275,10 +275,11 @@ namespace mtgp {
          * @return true if all elements of status is zero
          */
         bool isZero() const {
-            if ((state[idx] & mask) != 0) {
+            // only the masked bits of the oldest word belong to the state
+            if ((state[(idx + 1) % state_size] & param.mask) != 0) {
                 return false;
             }
-            for (int i = 1; i < state_size; i++) {
+            for (int i = 2; i <= state_size; i++) {
                 if (state[(idx + i) % state_size] != 0) {
                     return false;
                 }
@@ -305,7 +306,6 @@ namespace mtgp {
             return reverse_bit_flag;
         }
     private:
-        uint32_t mask;
         int state_size;
         mtgp_param<uint32_t> param;
         int idx;
-- 
2.43.0


From fa2df3a2366654e204ddc6109a5a8f4da335f000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:42 +0000
Subject: [PATCH 08/15] fix: copy the bit order when copying a tinymt32

---
 samples/TinyMTDC/tinymt32search.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/TinyMTDC/tinymt32search.hpp b/samples/TinyMTDC/tinymt32search.hpp
index 3fa9084..9841971 100644
--- a/samples/TinyMTDC/tinymt32search.hpp
+++ b/samples/TinyMTDC/tinymt32search.hpp
@@ -145,7 +145,7 @@ namespace tinymt {
          */
         tinymt32(const tinymt32& src) : TemperingCalculatable<uint32_t>(),
                                         param(src.param) {
-            reverse_bit_flag = false;
+            reverse_bit_flag = src.reverse_bit_flag;
             status[0] = src.status[0];
             status[1] = src.status[1];
             status[2] = src.status[2];
-- 
2.43.0


From 9c0036bd29f6b5279902648a54f93443dd2e8fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:42 +0000
Subject: [PATCH 09/15] fix: test the whole previous lane for zero in dSFMT's
 weight mode 1

---
 samples/dSFMTdc/dSFMTsearch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/dSFMTdc/dSFMTsearch.hpp b/samples/dSFMTdc/dSFMTsearch.hpp
index e54d833..74699c9 100644
--- a/samples/dSFMTdc/dSFMTsearch.hpp
+++ b/samples/dSFMTdc/dSFMTsearch.hpp
@@ -424,7 +424,7 @@ namespace MTToolBox {
                 return true;
             case 1:
             default:
-                return previous.u[1] == 0;
+                return previous.u64[1] == 0;
             }
         }
 
-- 
2.43.0


From c449cad7f09896bec3137543e32c4a986b71afae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:42 +0000
Subject: [PATCH 10/15] fix: let xorshift128_init_by_array set the state from
 the key

---
 samples/XORSHIFT/xorshift128.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/samples/XORSHIFT/xorshift128.c b/samples/XORSHIFT/xorshift128.c
index 26807ea..bd7cf55 100644
--- a/samples/XORSHIFT/xorshift128.c
+++ b/samples/XORSHIFT/xorshift128.c
@@ -93,6 +93,10 @@ void xorshift128_init_by_array(xorshift128_t * xor,
         st[i % size] = r;
         i = (i + 1) % size;
     }
+    xor->x = st[0];
+    xor->y = st[1];
+    xor->z = st[2];
+    xor->w = st[3];
     period_certification(xor);
 }
 
-- 
2.43.0


From 72063077f406930747aece1e2609772e76ce6f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:52 +0000
Subject: [PATCH 11/15] fix: declare sfmt's calc_parity as it is defined

---
 samples/sfmtdc/calc_parity.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/samples/sfmtdc/calc_parity.h b/samples/sfmtdc/calc_parity.h
index b3350bf..8d0d0ad 100644
--- a/samples/sfmtdc/calc_parity.h
+++ b/samples/sfmtdc/calc_parity.h
@@ -4,6 +4,6 @@
 #include <NTL/GF2X.h>
 #include "sfmtsearch.hpp"
 
-MTToolBox::w128_t calc_parity(const MTToolBox::sfmt& dsfmt,
+MTToolBox::w128_t calc_parity(MTToolBox::sfmt& sf,
                               const NTL::GF2X& irreducible);
 #endif
-- 
2.43.0


From dc6cceeb74e3f1323f160b1e16d946e7cb6876f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:57 +0000
Subject: [PATCH 12/15] fix: initialise and copy the sha1 field of mtgp_param

Without USE_SHA a parameter object that was not given a digest, and every
copy, printed an uninitialised byte (and what followed it in memory) as its
first field.
---
 samples/MTGPDC/mtgp_param.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/samples/MTGPDC/mtgp_param.h b/samples/MTGPDC/mtgp_param.h
index 6fc46f3..350f8a6 100644
--- a/samples/MTGPDC/mtgp_param.h
+++ b/samples/MTGPDC/mtgp_param.h
@@ -37,6 +37,9 @@ namespace mtgp {
                 p[i] = 0;
                 tp[i] = 0;
             }
+            for (size_t i = 0; i < sizeof(sha1); i++) {
+                sha1[i] = 0;
+            }
         }
         mtgp_param(const mtgp_param<T>& that) {
             mexp = that.mexp;
@@ -57,12 +60,9 @@ namespace mtgp {
             for (int i = 0; i < 16; i++) {
                 tp[i] = that.tp[i];
             }
-#if defined(USE_SHA)
-            for (int i = 0; i < SHA_DIGEST_LENGTH * 2; i++) {
+            for (size_t i = 0; i < sizeof(sha1); i++) {
                 sha1[i] = that.sha1[i];
             }
-            sha1[0] = that.sha1[0];
-#endif
         }
 
 #if __cplusplus >= 201103L
-- 
2.43.0


From 208fdc631b77afb2c992ccfcfa7b4daa56b8c41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:59 +0000
Subject: [PATCH 13/15] fix: reject option values that are not numbers or do
 not fit

The search programs say that an option must be a number, but took 'abc'
as 0 and '3x' as 3, and silently truncated values that do not fit the
variable (a TinyMT start position above 2^32 passed the range check).
---
 samples/MTDC/mt2.cpp           | 36 +++++++++++++++++++++++++---------
 samples/MTGPDC/parse_opt.cpp   | 26 ++++++++++++++++++------
 samples/RMT/rmt64dc.cpp        | 25 ++++++++++++++++++-----
 samples/TinyMTDC/parse_opt.cpp | 34 +++++++++++++++++++++++---------
 samples/dSFMTdc/dSFMTdc.cpp    | 29 ++++++++++++++++++++-------
 samples/sfmtdc/sfmtdc.cpp      | 25 ++++++++++++++++++-----
 samples/sfmtdc/sfmtdcfixed.cpp | 25 ++++++++++++++++++-----
 7 files changed, 154 insertions(+), 46 deletions(-)

diff --git a/samples/MTDC/mt2.cpp b/samples/MTDC/mt2.cpp
index fefbb5d..18b7a5f 100644
--- a/samples/MTDC/mt2.cpp
+++ b/samples/MTDC/mt2.cpp
@@ -258,8 +258,21 @@ void output_help(string& pgm)
          << endl;
 }
 
+/**
+ * check that the whole of a string was converted to a number
+ * @param str the string
+ * @param end where the conversion ended
+ * @return true if str was a number
+ */
+static bool is_number(const char *str, const char *end) {
+    return end != str && *end == '\0';
+}
+
 bool parse_opt(options& opt, int argc, char **argv) {
     int c;
+    char *end;
+    long max_delta;
+    long long count;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -304,22 +317,24 @@ bool parse_opt(options& opt, int argc, char **argv) {
             opt.verbose = true;
             break;
         case 's':
-            opt.seed = static_cast<uint32_t>(strtoull(optarg, NULL, 0));
-            if (errno) {
+            opt.seed = static_cast<uint32_t>(strtoull(optarg, &end, 0));
+            if (errno || !is_number(optarg, end)) {
                 error = true;
                 cerr << "seed must be a number" << endl;
             }
             break;
         case 'm':
-            opt.max_delta = static_cast<int>(strtol(optarg, NULL, 10));
-            if (errno) {
+            max_delta = strtol(optarg, &end, 10);
+            opt.max_delta = static_cast<int>(max_delta);
+            if (errno || !is_number(optarg, end) || max_delta != opt.max_delta) {
                 error = true;
                 cerr << "max must be a number" << endl;
             }
             break;
         case 'c':
-            opt.count = static_cast<int>(strtoll(optarg, NULL, 10));
-            if (errno) {
+            count = strtoll(optarg, &end, 10);
+            opt.count = static_cast<int>(count);
+            if (errno || !is_number(optarg, end) || count > INT_MAX) {
                 error = true;
                 cerr << "count must be a number" << endl;
             }
@@ -335,7 +350,10 @@ bool parse_opt(options& opt, int argc, char **argv) {
     if (argc < 2) {
         error = true;
     } else {
-        long mexp = strtol(argv[0], NULL, 10);
+        long mexp = strtol(argv[0], &end, 10);
+        if (!is_number(argv[0], end)) {
+            error = true;
+        }
         static const int allowed_mexp[] = {521, 607, 1279, 2203,
                                            2281, 3217, 4253, 4423,
                                            9689, 9941, 11213, 19937,
@@ -361,8 +379,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
             cerr << endl;
         }
         opt.mexp = static_cast<int>(mexp);
-        long id = strtol(argv[1], NULL, 10);
-        if (errno != 0 || (id < 0 || id > 0xffff)) {
+        long id = strtol(argv[1], &end, 10);
+        if (errno != 0 || !is_number(argv[1], end) || (id < 0 || id > 0xffff)) {
             error = true;
             cerr << "id must be a number between 0 and " << 0xffff
                  << endl;
diff --git a/samples/MTGPDC/parse_opt.cpp b/samples/MTGPDC/parse_opt.cpp
index 707528d..43db8e2 100644
--- a/samples/MTGPDC/parse_opt.cpp
+++ b/samples/MTGPDC/parse_opt.cpp
@@ -24,8 +24,19 @@
 
 using namespace std;
 
+/**
+ * check that the whole of a string was converted to a number
+ * @param str the string
+ * @param end where the conversion ended
+ * @return true if str was a number
+ */
+static bool is_number(const char *str, const char *end) {
+    return end != str && *end == '\0';
+}
+
 bool parse_opt(mtgp_options& opt, int argc, char **argv) {
     int c;
+    char *end;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -36,6 +47,7 @@ bool parse_opt(mtgp_options& opt, int argc, char **argv) {
         {NULL, 0, NULL, 0}};
     opt.verbose = false;
     opt.count = 1;
+    errno = 0;
     for (;;) {
         c = getopt_long(argc, argv, "vs:f:c:", longopts, NULL);
         if (error) {
@@ -55,8 +67,8 @@ bool parse_opt(mtgp_options& opt, int argc, char **argv) {
             opt.filename = optarg;
             break;
         case 'c':
-            opt.count = strtoll(optarg, NULL, 10);
-            if (errno) {
+            opt.count = strtoll(optarg, &end, 10);
+            if (errno || !is_number(optarg, end)) {
                 error = true;
                 cerr << "count must be number" << endl;
             }
@@ -72,8 +84,9 @@ bool parse_opt(mtgp_options& opt, int argc, char **argv) {
     if (argc < 2) {
         error = true;
     } else {
-        opt.mexp = static_cast<int>(strtol(argv[0], NULL, 10));
-        if (errno != 0) {
+        long mexp = strtol(argv[0], &end, 10);
+        opt.mexp = static_cast<int>(mexp);
+        if (errno != 0 || !is_number(argv[0], end) || mexp != opt.mexp) {
             error = true;
             cerr << "mexp must be number" << endl;
         } else {
@@ -89,9 +102,10 @@ bool parse_opt(mtgp_options& opt, int argc, char **argv) {
                     " 110503 or 216091" << endl;
             }
         }
-        long long id = strtoll(argv[1], NULL, 10);
+        long long id = strtoll(argv[1], &end, 10);
         opt.id = static_cast<uint32_t>(id);
-        if (errno != 0) {
+        if (errno != 0 || !is_number(argv[1], end)
+            || id < 0 || id > 0xffffffffLL) {
             error = true;
             cerr << "id must be a number between 0 and 2^32-1" << endl;
         }
diff --git a/samples/RMT/rmt64dc.cpp b/samples/RMT/rmt64dc.cpp
index 07bbe92..05bd40c 100644
--- a/samples/RMT/rmt64dc.cpp
+++ b/samples/RMT/rmt64dc.cpp
@@ -34,6 +34,7 @@
 #include <MTToolBox/AlgorithmPartialBitPattern.hpp>
 #include <getopt.h>
 #include <errno.h>
+#include <limits.h>
 #include "rmt64.hpp"
 
 using namespace std;
@@ -115,6 +116,16 @@ int search(rmt_options& opt, int count) {
 
 static void output_help(string& pgm);
 
+/**
+ * check that the whole of a string was converted to a number
+ * @param str the string
+ * @param end where the conversion ended
+ * @return true if str was a number
+ */
+static bool is_number(const char *str, const char *end) {
+    return end != str && *end == '\0';
+}
+
 /**
  * command line option parser
  * @param opt a structure to keep the result of parsing
@@ -130,6 +141,7 @@ bool parse_opt(rmt_options& opt, int argc, char **argv) {
     opt.seed = (uint64_t)clock();
     opt.filename = "";
     int c;
+    char *end;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -149,8 +161,8 @@ bool parse_opt(rmt_options& opt, int argc, char **argv) {
         }
         switch (c) {
         case 's':
-            opt.seed = strtoull(optarg, NULL, 0);
-            if (errno) {
+            opt.seed = strtoull(optarg, &end, 0);
+            if (errno || !is_number(optarg, end)) {
                 error = true;
                 cerr << "seed must be a number" << endl;
             }
@@ -162,8 +174,8 @@ bool parse_opt(rmt_options& opt, int argc, char **argv) {
             opt.filename = optarg;
             break;
         case 'c':
-            opt.count = strtoll(optarg, NULL, 10);
-            if (errno) {
+            opt.count = strtoll(optarg, &end, 10);
+            if (errno || !is_number(optarg, end) || opt.count > INT_MAX) {
                 error = true;
                 cerr << "count must be a number" << endl;
             }
@@ -179,7 +191,10 @@ bool parse_opt(rmt_options& opt, int argc, char **argv) {
     if (argc < 1) {
         error = true;
     } else {
-        long mexp = strtol(argv[0], NULL, 10);
+        long mexp = strtol(argv[0], &end, 10);
+        if (!is_number(argv[0], end)) {
+            error = true;
+        }
         static const int allowed_mexp[] = {521, 607, 1279, 2203,
                                            2281, 3217, 4253, 4423,
                                            9689, 9941, 11213, 19937,
diff --git a/samples/TinyMTDC/parse_opt.cpp b/samples/TinyMTDC/parse_opt.cpp
index 56f36e3..0f90323 100644
--- a/samples/TinyMTDC/parse_opt.cpp
+++ b/samples/TinyMTDC/parse_opt.cpp
@@ -21,6 +21,7 @@
 #include <getopt.h>
 #include <stdlib.h>
 #include <errno.h>
+#include <limits.h>
 #include <iostream>
 #include <fstream>
 #include <sstream>
@@ -31,6 +32,16 @@ using namespace std;
 
 static void output_help(string& pgm, uint32_t start);
 
+/**
+ * check that the whole of a string was converted to a number
+ * @param str the string
+ * @param end where the conversion ended
+ * @return true if str was a number
+ */
+static bool is_number(const char *str, const char *end) {
+    return end != str && *end == '\0';
+}
+
 /**
  * command line option parser
  * @param opt a structure to keep the result of parsing
@@ -41,6 +52,9 @@ static void output_help(string& pgm, uint32_t start);
  */
 bool parse_opt(tinymt_options& opt, int argc, char **argv, uint32_t start) {
     int c;
+    char *end;
+    long max_delta;
+    unsigned long long start_pos;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -73,12 +87,13 @@ bool parse_opt(tinymt_options& opt, int argc, char **argv, uint32_t start) {
             opt.verbose = true;
             break;
         case 's':
-            opt.start = static_cast<uint32_t>(strtoull(optarg, NULL, 0));
-            if (errno) {
+            start_pos = strtoull(optarg, &end, 0);
+            opt.start = static_cast<uint32_t>(start_pos);
+            if (errno || !is_number(optarg, end)) {
                 error = true;
                 cerr << "start must be a number" << endl;
             }
-            if (opt.start > start) {
+            if (start_pos > start) {
                 error = true;
                 cerr << "start must be less than or equal to " << start << endl;
             }
@@ -87,15 +102,16 @@ bool parse_opt(tinymt_options& opt, int argc, char **argv, uint32_t start) {
             opt.filename = optarg;
             break;
         case 'm':
-            opt.max_delta = static_cast<int>(strtol(optarg, NULL, 10));
-            if (errno) {
+            max_delta = strtol(optarg, &end, 10);
+            opt.max_delta = static_cast<int>(max_delta);
+            if (errno || !is_number(optarg, end) || max_delta != opt.max_delta) {
                 error = true;
                 cerr << "max must be a number" << endl;
             }
             break;
         case 'c':
-            opt.count = strtoll(optarg, NULL, 10);
-            if (errno) {
+            opt.count = strtoll(optarg, &end, 10);
+            if (errno || !is_number(optarg, end) || opt.count > INT_MAX) {
                 error = true;
                 cerr << "count must be a number" << endl;
             }
@@ -111,8 +127,8 @@ bool parse_opt(tinymt_options& opt, int argc, char **argv, uint32_t start) {
     if (argc < 1) {
         error = true;
     } else {
-        long long id = strtoll(argv[0], NULL, 10);
-        if (errno != 0 || (id < 0 || id > 0xffffffff)) {
+        long long id = strtoll(argv[0], &end, 10);
+        if (errno != 0 || !is_number(argv[0], end) || (id < 0 || id > 0xffffffff)) {
             error = true;
             cerr << "id must be a number between 0 and " << 0xffffffff
                  << endl;
diff --git a/samples/dSFMTdc/dSFMTdc.cpp b/samples/dSFMTdc/dSFMTdc.cpp
index a1b18d4..a355ad3 100644
--- a/samples/dSFMTdc/dSFMTdc.cpp
+++ b/samples/dSFMTdc/dSFMTdc.cpp
@@ -31,6 +31,7 @@
 #include <MTToolBox/MersenneTwister64.hpp>
 #include <NTL/GF2X.h>
 #include <getopt.h>
+#include <limits.h>
 #include "dSFMTsearch.hpp"
 #include "AlgorithmDSFMTEquidistribution.hpp"
 #include "Annihilate.h"
@@ -142,6 +143,16 @@ int search(options& opt, int count) {
 
 static void output_help(string& pgm);
 
+/**
+ * check that the whole of a string was converted to a number
+ * @param str the string
+ * @param end where the conversion ended
+ * @return true if str was a number
+ */
+static bool is_number(const char *str, const char *end) {
+    return end != str && *end == '\0';
+}
+
 /**
  * command line option parser
  * @param opt a structure to keep the result of parsing
@@ -159,6 +170,7 @@ bool parse_opt(options& opt, int argc, char **argv) {
     opt.fixed = false;
     opt.fixedSL1 = 19;
     int c;
+    char *end;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -179,8 +191,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
         }
         switch (c) {
         case 's':
-            opt.seed = strtoull(optarg, NULL, 0);
-            if (errno) {
+            opt.seed = strtoull(optarg, &end, 0);
+            if (errno || !is_number(optarg, end)) {
                 error = true;
                 cerr << "seed must be a number" << endl;
             }
@@ -189,8 +201,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
             opt.fixed = true;
             //if ((optarg != NULL) && (strlen(optarg) > 0)) {
             if (optarg != NULL) {
-                opt.fixedSL1 = static_cast<int>(strtoull(optarg, NULL, 0));
-                if (errno) {
+                opt.fixedSL1 = static_cast<int>(strtoull(optarg, &end, 0));
+                if (errno || !is_number(optarg, end)) {
                     error = true;
                     cerr << "fixed sl1 must be a number" << endl;
                 }
@@ -205,8 +217,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
             opt.filename = optarg;
             break;
         case 'c':
-            opt.count = strtoll(optarg, NULL, 10);
-            if (errno) {
+            opt.count = strtoll(optarg, &end, 10);
+            if (errno || !is_number(optarg, end) || opt.count > INT_MAX) {
                 error = true;
                 cerr << "count must be a number" << endl;
             }
@@ -222,7 +234,10 @@ bool parse_opt(options& opt, int argc, char **argv) {
     if (argc < 1) {
         error = true;
     } else {
-        long mexp = strtol(argv[0], NULL, 10);
+        long mexp = strtol(argv[0], &end, 10);
+        if (!is_number(argv[0], end)) {
+            error = true;
+        }
         static const int allowed_mexp[] = {521, 1279,
                                            2203, 4253,
                                            11213, 19937,
diff --git a/samples/sfmtdc/sfmtdc.cpp b/samples/sfmtdc/sfmtdc.cpp
index 9154042..de72d20 100644
--- a/samples/sfmtdc/sfmtdc.cpp
+++ b/samples/sfmtdc/sfmtdc.cpp
@@ -31,6 +31,7 @@
 #include <MTToolBox/MersenneTwister.hpp>
 #include <NTL/GF2X.h>
 #include <getopt.h>
+#include <limits.h>
 #include "sfmtsearch.hpp"
 #include "AlgorithmSIMDEquidistribution.hpp"
 #include "Annihilate.h"
@@ -165,6 +166,16 @@ int search(options& opt, int count) {
 
 static void output_help(string& pgm);
 
+/**
+ * check that the whole of a string was converted to a number
+ * @param str the string
+ * @param end where the conversion ended
+ * @return true if str was a number
+ */
+static bool is_number(const char *str, const char *end) {
+    return end != str && *end == '\0';
+}
+
 /**
  * command line option parser
  * @param opt a structure to keep the result of parsing
@@ -180,6 +191,7 @@ bool parse_opt(options& opt, int argc, char **argv) {
     opt.seed = (uint64_t)clock();
     opt.filename = "";
     int c;
+    char *end;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -199,8 +211,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
         }
         switch (c) {
         case 's':
-            opt.seed = strtoull(optarg, NULL, 0);
-            if (errno) {
+            opt.seed = strtoull(optarg, &end, 0);
+            if (errno || !is_number(optarg, end)) {
                 error = true;
                 cerr << "seed must be a number" << endl;
             }
@@ -212,8 +224,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
             opt.filename = optarg;
             break;
         case 'c':
-            opt.count = strtoll(optarg, NULL, 10);
-            if (errno) {
+            opt.count = strtoll(optarg, &end, 10);
+            if (errno || !is_number(optarg, end) || opt.count > INT_MAX) {
                 error = true;
                 cerr << "count must be a number" << endl;
             }
@@ -229,7 +241,10 @@ bool parse_opt(options& opt, int argc, char **argv) {
     if (argc < 1) {
         error = true;
     } else {
-        long mexp = strtol(argv[0], NULL, 10);
+        long mexp = strtol(argv[0], &end, 10);
+        if (!is_number(argv[0], end)) {
+            error = true;
+        }
         static const int allowed_mexp[] = {607, 1279,
                                            2281, 3217, 4253, 4423,
                                            9689, 9941, 11213, 19937,
diff --git a/samples/sfmtdc/sfmtdcfixed.cpp b/samples/sfmtdc/sfmtdcfixed.cpp
index 0fa1c9a..bc4a0fc 100644
--- a/samples/sfmtdc/sfmtdcfixed.cpp
+++ b/samples/sfmtdc/sfmtdcfixed.cpp
@@ -31,6 +31,7 @@
 #include <MTToolBox/MersenneTwister.hpp>
 #include <NTL/GF2X.h>
 #include <getopt.h>
+#include <limits.h>
 #define SFMT_PARAM_FIXED 1
 #include "sfmtsearch.hpp"
 #include "AlgorithmSIMDEquidistribution.hpp"
@@ -166,6 +167,16 @@ int search(options& opt, int count) {
 
 static void output_help(string& pgm);
 
+/**
+ * check that the whole of a string was converted to a number
+ * @param str the string
+ * @param end where the conversion ended
+ * @return true if str was a number
+ */
+static bool is_number(const char *str, const char *end) {
+    return end != str && *end == '\0';
+}
+
 /**
  * command line option parser
  * @param opt a structure to keep the result of parsing
@@ -181,6 +192,7 @@ bool parse_opt(options& opt, int argc, char **argv) {
     opt.seed = (uint64_t)clock();
     opt.filename = "";
     int c;
+    char *end;
     bool error = false;
     string pgm = argv[0];
     static struct option longopts[] = {
@@ -200,8 +212,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
         }
         switch (c) {
         case 's':
-            opt.seed = strtoull(optarg, NULL, 0);
-            if (errno) {
+            opt.seed = strtoull(optarg, &end, 0);
+            if (errno || !is_number(optarg, end)) {
                 error = true;
                 cerr << "seed must be a number" << endl;
             }
@@ -213,8 +225,8 @@ bool parse_opt(options& opt, int argc, char **argv) {
             opt.filename = optarg;
             break;
         case 'c':
-            opt.count = strtoll(optarg, NULL, 10);
-            if (errno) {
+            opt.count = strtoll(optarg, &end, 10);
+            if (errno || !is_number(optarg, end) || opt.count > INT_MAX) {
                 error = true;
                 cerr << "count must be a number" << endl;
             }
@@ -230,7 +242,10 @@ bool parse_opt(options& opt, int argc, char **argv) {
     if (argc < 1) {
         error = true;
     } else {
-        long mexp = strtol(argv[0], NULL, 10);
+        long mexp = strtol(argv[0], &end, 10);
+        if (!is_number(argv[0], end)) {
+            error = true;
+        }
         static const int allowed_mexp[] = {607, 1279,
                                            2281, 3217, 4253, 4423,
                                            9689, 9941, 11213, 19937,
-- 
2.43.0


From 36697fac43d8c4ce479e469ae32bd6ed9aa93898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:21 +0000
Subject: [PATCH 14/15] fix: write the parameters to the file given with -f

The file was created (and emptied), but the parameters went to standard
output regardless, against what the help of the programs says.
---
 samples/MTGPDC/MTGP32dc.cpp     | 15 ++++++++++-----
 samples/RMT/rmt64dc.cpp         |  9 +++++++--
 samples/TinyMTDC/tinymt32dc.cpp |  9 +++++++--
 samples/dSFMTdc/dSFMTdc.cpp     | 11 ++++++++---
 samples/sfmtdc/sfmtdc.cpp       | 11 ++++++++---
 samples/sfmtdc/sfmtdcfixed.cpp  | 11 ++++++++---
 6 files changed, 48 insertions(+), 18 deletions(-)

diff --git a/samples/MTGPDC/MTGP32dc.cpp b/samples/MTGPDC/MTGP32dc.cpp
index ffc523a..90f3531 100644
--- a/samples/MTGPDC/MTGP32dc.cpp
+++ b/samples/MTGPDC/MTGP32dc.cpp
@@ -32,7 +32,7 @@ typedef AlgorithmPartialBitPattern<uint32_t, 32, 4, 23, 5> st32;
 typedef AlgorithmPartialBitPattern<uint32_t, 32, 4, 9, 5, true>
 stlsb32;
 
-int indexed_search(mtgp_options& opt, bool first);
+int indexed_search(mtgp_options& opt, bool first, ostream& os);
 
 int main(int argc, char** argv) {
     mtgp_options opt;
@@ -41,8 +41,13 @@ int main(int argc, char** argv) {
     if (!parse) {
         return -1;
     }
+    ofstream ofs;
+    if (!opt.filename.empty()) {
+        ofs.open(opt.filename.c_str());
+    }
+    ostream& os = opt.filename.empty() ? cout : ofs;
     while (opt.count > 0) {
-        if (indexed_search(opt, first)) {
+        if (indexed_search(opt, first, os)) {
             opt.id += 1;
             opt.count -= 1;
         } else {
@@ -53,7 +58,7 @@ int main(int argc, char** argv) {
     return 0;
 }
 
-int indexed_search(mtgp_options& opt, bool first) {
+int indexed_search(mtgp_options& opt, bool first, ostream& os) {
     mtgp32 mtgp(opt.mexp, opt.id);
     if (opt.verbose) {
         time_t t = time(NULL);
@@ -78,9 +83,9 @@ int indexed_search(mtgp_options& opt, bool first) {
 #endif
         mtgp.set_param(param);
         if (first) {
-            cout << '#' << mtgp.getHeaderString() << endl;
+            os << '#' << mtgp.getHeaderString() << endl;
         }
-        cout << mtgp.getParamString()
+        os << mtgp.getParamString()
              << dec << weight << ","
              << dec << delta << endl;
         return 1;
diff --git a/samples/RMT/rmt64dc.cpp b/samples/RMT/rmt64dc.cpp
index 05bd40c..8e95a7f 100644
--- a/samples/RMT/rmt64dc.cpp
+++ b/samples/RMT/rmt64dc.cpp
@@ -88,8 +88,13 @@ int search(rmt_options& opt, int count) {
     typedef AlgorithmPartialBitPattern<uint64_t, 64, 2, 63, 6> st64;
     st64 st;
     AlgorithmReducibleRecursionAndTempering<uint64_t, RMT64Search> all(mt);
+    ofstream ofs;
+    if (!opt.filename.empty()) {
+        ofs.open(opt.filename.c_str());
+    }
+    ostream& os = opt.filename.empty() ? cout : ofs;
     int i = 0;
-    cout << "# "
+    os << "# "
          << g.getHeaderString()
          << ", delta"
          << endl;
@@ -100,7 +105,7 @@ int search(rmt_options& opt, int count) {
             //rmt64_param param = g.get_param();
             //int weight = all.getWeight();
             //GF2X poly = all.getCharacteristicPolynomial();
-            cout << g.getParamString() << "," << dec << delta << endl;
+            os << g.getParamString() << "," << dec << delta << endl;
             i++;
         } else {
             cout << "search failed" << endl;
diff --git a/samples/TinyMTDC/tinymt32dc.cpp b/samples/TinyMTDC/tinymt32dc.cpp
index 412e569..96161f5 100644
--- a/samples/TinyMTDC/tinymt32dc.cpp
+++ b/samples/TinyMTDC/tinymt32dc.cpp
@@ -76,6 +76,11 @@ int search(tinymt_options& opt, int count) {
     AlgorithmRecursionAndTempering<uint32_t> all(sq);
     st32 st;
     stlsb32 stlsb;
+    ofstream ofs;
+    if (!opt.filename.empty()) {
+        ofs.open(opt.filename.c_str());
+    }
+    ostream& os = opt.filename.empty() ? cout : ofs;
     int i = 0;
     while (i < count || opt.all) {
         if (all.search(g, st, stlsb, opt.verbose)) {
@@ -88,12 +93,12 @@ int search(tinymt_options& opt, int count) {
             int weight = all.getWeight();
             GF2X poly = all.getCharacteristicPolynomial();
             if (i == 0) {
-                cout << "# characteristic, "
+                os << "# characteristic, "
                      << g.getHeaderString()
                      << ", weight, delta"
                      << endl;
             }
-            cout << toString(poly) << ","
+            os << toString(poly) << ","
                  << g.getParamString()
                  << dec << weight << "," << delta
                  << endl;
diff --git a/samples/dSFMTdc/dSFMTdc.cpp b/samples/dSFMTdc/dSFMTdc.cpp
index a355ad3..a9c2d00 100644
--- a/samples/dSFMTdc/dSFMTdc.cpp
+++ b/samples/dSFMTdc/dSFMTdc.cpp
@@ -94,7 +94,12 @@ int search(options& opt, int count) {
     AlgorithmReducibleRecursionSearch<w128_t> ars(g, mt);
     int i = 0;
     AlgorithmCalculateParity<w128_t, dSFMT> cp;
-    cout << "# " << g.getHeaderString() << ", delta52"
+    ofstream ofs;
+    if (!opt.filename.empty()) {
+        ofs.open(opt.filename.c_str());
+    }
+    ostream& os = opt.filename.empty() ? cout : ofs;
+    os << "# " << g.getHeaderString() << ", delta52"
          << endl;
     while (i < count) {
         if (ars.start(opt.mexp * 100)) {
@@ -126,8 +131,8 @@ int search(options& opt, int count) {
             int delta52
                 = calc_dSFMT_equidistribution<w128_t, dSFMT>(g, veq52, 52, info,
                                                            opt.mexp);
-            cout << g.getParamString();
-            cout << dec << delta52 << endl;
+            os << g.getParamString();
+            os << dec << delta52 << endl;
             i++;
         } else {
             cout << "search failed" << endl;
diff --git a/samples/sfmtdc/sfmtdc.cpp b/samples/sfmtdc/sfmtdc.cpp
index de72d20..2ef7492 100644
--- a/samples/sfmtdc/sfmtdc.cpp
+++ b/samples/sfmtdc/sfmtdc.cpp
@@ -87,7 +87,12 @@ int search(options& opt, int count) {
     AlgorithmReducibleRecursionSearch<w128_t> ars(g, mt);
     int i = 0;
     AlgorithmCalculateParity<w128_t, sfmt> cp;
-    cout << "# " << g.getHeaderString() << ", delta32, delta64, delta128"
+    ofstream ofs;
+    if (!opt.filename.empty()) {
+        ofs.open(opt.filename.c_str());
+    }
+    ostream& os = opt.filename.empty() ? cout : ofs;
+    os << "# " << g.getHeaderString() << ", delta32, delta64, delta128"
          << endl;
     while (i < count) {
         if (ars.start(opt.mexp * 100)) {
@@ -131,8 +136,8 @@ int search(options& opt, int count) {
             delta64
                 = calc_SIMD_equidistribution<w128_t, sfmt>(g, veq64, 64, info,
                                                            opt.mexp);
-            cout << g.getParamString();
-            cout << dec << delta32 << "," << delta64 << ","
+            os << g.getParamString();
+            os << dec << delta32 << "," << delta64 << ","
                  << delta128 << endl;
 #if 0
             cout << "32bit veq" << endl;
diff --git a/samples/sfmtdc/sfmtdcfixed.cpp b/samples/sfmtdc/sfmtdcfixed.cpp
index bc4a0fc..5207e71 100644
--- a/samples/sfmtdc/sfmtdcfixed.cpp
+++ b/samples/sfmtdc/sfmtdcfixed.cpp
@@ -88,7 +88,12 @@ int search(options& opt, int count) {
     AlgorithmReducibleRecursionSearch<w128_t> ars(g, mt);
     int i = 0;
     AlgorithmCalculateParity<w128_t, sfmt> cp;
-    cout << "# " << g.getHeaderString() << ", delta32, delta64, delta128"
+    ofstream ofs;
+    if (!opt.filename.empty()) {
+        ofs.open(opt.filename.c_str());
+    }
+    ostream& os = opt.filename.empty() ? cout : ofs;
+    os << "# " << g.getHeaderString() << ", delta32, delta64, delta128"
          << endl;
     while (i < count) {
         if (ars.start(opt.mexp * 100)) {
@@ -132,8 +137,8 @@ int search(options& opt, int count) {
             delta64
                 = calc_SIMD_equidistribution<w128_t, sfmt>(g, veq64, 64, info,
                                                            opt.mexp);
-            cout << g.getParamString();
-            cout << dec << delta32 << "," << delta64 << ","
+            os << g.getParamString();
+            os << dec << delta32 << "," << delta64 << ","
                  << delta128 << endl;
 #if 0
             cout << "32bit veq" << endl;
-- 
2.43.0


From e44d22c3b343946e04d4207ae1c73ef0aeb11f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:21 +0000
Subject: [PATCH 15/15] fix: give mt2 a seed when none is requested

The seed option was left uninitialised without --seed.
---
 samples/MTDC/mt2.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/samples/MTDC/mt2.cpp b/samples/MTDC/mt2.cpp
index 18b7a5f..3cc654a 100644
--- a/samples/MTDC/mt2.cpp
+++ b/samples/MTDC/mt2.cpp
@@ -10,6 +10,7 @@
 #include <string>
 #include <errno.h>
 #include <stdlib.h>
+#include <time.h>
 #include <iostream>
 #include <fstream>
 #include <iomanip>
@@ -286,6 +287,7 @@ bool parse_opt(options& opt, int argc, char **argv) {
     opt.verbose = false;
     opt.count = 1;
     opt.max_delta = INT_MAX;
+    opt.seed = static_cast<uint32_t>(clock());
     opt.all = false;
     errno = 0;
     for (;;) {
-- 
2.43.0

