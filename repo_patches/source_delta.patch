From 9dd33a6740144d93fe5427612345fd9841d50333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 01/10] fix: 64-bit vclamp on AVX2 used AVX-512 only intrinsics

---
 avx2.hh        | 4 +++-
 avx2_double.hh | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/avx2.hh b/avx2.hh
index b275cee..3e7f99c 100644
--- a/avx2.hh
+++ b/avx2.hh
@@ -1150,7 +1150,9 @@ template <>
 inline SIMD<int64_t, 4> vclamp(SIMD<int64_t, 4> x, int64_t a, int64_t b)
 {
 	SIMD<int64_t, 4> tmp;
-	tmp.m = _mm256_min_epi64(_mm256_max_epi64(x.m, _mm256_set1_epi64x(a)), _mm256_set1_epi64x(b));
+	__m256i lo = _mm256_set1_epi64x(a), hi = _mm256_set1_epi64x(b);
+	__m256i c = _mm256_blendv_epi8(x.m, lo, _mm256_cmpgt_epi64(lo, x.m));
+	tmp.m = _mm256_blendv_epi8(c, hi, _mm256_cmpgt_epi64(c, hi));
 	return tmp;
 }
 
diff --git a/avx2_double.hh b/avx2_double.hh
index 82a82bc..d0d807f 100644
--- a/avx2_double.hh
+++ b/avx2_double.hh
@@ -1276,8 +1276,11 @@ template <>
 inline SIMD<int64_t, 8> vclamp(SIMD<int64_t, 8> x, int64_t a, int64_t b)
 {
 	SIMD<int64_t, 8> tmp;
-	for (int i = 0; i < 2; ++i)
-		tmp.m[i] = _mm256_min_epi64(_mm256_max_epi64(x.m[i], _mm256_set1_epi64x(a)), _mm256_set1_epi64x(b));
+	__m256i lo = _mm256_set1_epi64x(a), hi = _mm256_set1_epi64x(b);
+	for (int i = 0; i < 2; ++i) {
+		__m256i c = _mm256_blendv_epi8(x.m[i], lo, _mm256_cmpgt_epi64(lo, x.m[i]));
+		tmp.m[i] = _mm256_blendv_epi8(c, hi, _mm256_cmpgt_epi64(c, hi));
+	}
 	return tmp;
 }
 
-- 
2.43.0


From 2b2d3d9ae75f644158688256b8b61046fa271f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 02/10] fix: double errors failed in fields where one
 Artin-Schreier table entry was skipped

---
 reed_solomon_error_correction.hh | 2 --
 1 file changed, 2 deletions(-)

diff --git a/reed_solomon_error_correction.hh b/reed_solomon_error_correction.hh
index 4796adf..1bb1d47 100644
--- a/reed_solomon_error_correction.hh
+++ b/reed_solomon_error_correction.hh
@@ -44,8 +44,6 @@ struct ArtinSchreier
 		for (int i = 2; i < GF::N; i += 2) {
 			ValueType x(i);
 			ValueType xxx(x * x + x);
-			if (xxx == ValueType(GF::N))
-				continue;
 			assert(xxx.v);
 			assert(!imap[xxx.v].v);
 			imap[xxx.v] = x;
-- 
2.43.0


From 5d929c1f16223315b1d9eb0c4858c1d5b920ccc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 03/10] fix: reject locators shorter than the register length
 instead of miscorrecting

---
 reed_solomon_error_correction.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/reed_solomon_error_correction.hh b/reed_solomon_error_correction.hh
index 1bb1d47..a5b06c1 100644
--- a/reed_solomon_error_correction.hh
+++ b/reed_solomon_error_correction.hh
@@ -205,9 +205,8 @@ struct ReedSolomonErrorCorrection
 		assert(locator_degree);
 		assert(locator_degree <= NR);
 		assert(locator[0] == ValueType(1));
-		while (!locator[locator_degree])
-			if (--locator_degree < 0)
-				return -1;
+		if (!locator[locator_degree])
+			return -1;
 		int count = search(locator, locator_degree, locations);
 		if (count < locator_degree)
 			return -1;
-- 
2.43.0


From 0449afef192bf74b6d65c3d160bf5fd58a1d969c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:20 +0000
Subject: [PATCH 04/10] fix: Chase decoding kept flipping position 0 when it
 was the least reliable

---
 short_bch_code_decoder.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/short_bch_code_decoder.hh b/short_bch_code_decoder.hh
index 6e68966..e6db72b 100644
--- a/short_bch_code_decoder.hh
+++ b/short_bch_code_decoder.hh
@@ -98,7 +98,7 @@ public:
 			int worst[L] = { 0 };
 			for (int k = 0; k < N; ++k) {
 				int j = 0;
-				while (j < L && std::abs(code[worst[j]]) < std::abs(code[k]))
+				while (j < L && j < k && std::abs(code[worst[j]]) < std::abs(code[k]))
 					++j;
 				for (int i = L-1; i > j; --i)
 					worst[i] = worst[i-1];
-- 
2.43.0


From 7339e18bf011c9447290d0da41244f23b8fd05da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:46 +0000
Subject: [PATCH 05/10] fix: a failed hard decode could displace a valid word
 with negative metric

---
 short_bch_code_decoder.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/short_bch_code_decoder.hh b/short_bch_code_decoder.hh
index e6db72b..20212e7 100644
--- a/short_bch_code_decoder.hh
+++ b/short_bch_code_decoder.hh
@@ -6,6 +6,8 @@ Copyright 2020 Ahmet Inan <inan@aicodix.de>
 
 #pragma once
 
+#include <limits>
+
 namespace CODE {
 
 template <int N, int K, int G, int T>
@@ -30,7 +32,7 @@ class ShortBCHCodeDecoder
 	static int metric(const int8_t *soft, int hard)
 	{
 		if (hard < 0)
-			return -1;
+			return std::numeric_limits<int>::min();
 		int lol = 8 * sizeof(hard) - 1;
 		int sum = 0;
 		for (int i = 0; i < N; ++i)
@@ -71,7 +73,7 @@ public:
 			return word;
 		// metric of hard decision
 		int best = metric(code, word);
-		int next = -2;
+		int next = std::numeric_limits<int>::min();
 		auto update = [code, &word, &best, &next](int hard) {
 			if (hard == word)
 				return;
-- 
2.43.0


From 7d325bd5469964e6f2e62a0eb7c4b919a2d7d5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 06/10] fix: OSD reported wrong uniqueness when the best metric
 was negative

---
 osd.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/osd.hh b/osd.hh
index dfbc0c1..b9f9259 100644
--- a/osd.hh
+++ b/osd.hh
@@ -6,6 +6,7 @@ Copyright 2020 Ahmet Inan <inan@aicodix.de>
 
 #pragma once
 
+#include <limits>
 #include <initializer_list>
 #include "bitman.hh"
 #include "sort.hh"
@@ -191,7 +192,7 @@ public:
 		for (int i = 0; i < N; ++i)
 			candidate[i] = codeword[i];
 		int best = metric(codeword, softperm);
-		int next = -1;
+		int next = std::numeric_limits<int>::min();
 		auto update = [this, &best, &next]() {
 			int met = metric(codeword, softperm);
 			if (met > best) {
-- 
2.43.0


From 023c855c2f12da1b7aacadc963903538fcca9612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 07/10] fix: OSD list dropped candidates with negative metric
 and returned stale entries

---
 osd.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osd.hh b/osd.hh
index b9f9259..351245d 100644
--- a/osd.hh
+++ b/osd.hh
@@ -353,7 +353,7 @@ public:
 			candidate[i] = codeword[i];
 		score[0] = metric();
 		for (int i = 1; i < L; ++i)
-			score[i] = -1;
+			score[i] = std::numeric_limits<int>::min();
 		for (int i = 0; i < L; ++i)
 			cperm[i] = i;
 		for (int a = 0; O >= 1 && a < K; ++a) {
-- 
2.43.0


From 85ddaf49acb374f58ea136db2cf414c4faedeb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:42 +0000
Subject: [PATCH 08/10] fix: restore LDPC decoder's write disable masks for
 every codeword

They are rotated by each iteration, so the decoding result depended on the
codewords the decoder had seen before.
---
 ldpc_decoder.hh | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/ldpc_decoder.hh b/ldpc_decoder.hh
index 010ae96..50e4d2a 100644
--- a/ldpc_decoder.hh
+++ b/ldpc_decoder.hh
@@ -109,6 +109,20 @@ class LDPCDecoder
 		}
 		return false;
 	}
+	void reset()
+	{
+		Loc *lo = loc;
+		for (int i = 0; i < q; ++i) {
+			int cnt = cnc[i];
+			for (int j = 0; j < W; ++j) {
+				wd[W*i+j] = 0;
+				for (int c = 0; c < cnt-1; ++c)
+					if (lo[c].off == lo[c+1].off)
+						wd[W*i+j] |= 1 << c;
+				lo += cnt;
+			}
+		}
+	}
 	void update()
 	{
 		TYPE *bl = bnl;
@@ -248,10 +262,6 @@ public:
 					shift[c] = (shift[c] + 1) % M;
 				}
 				std::sort(lo, lo + cnt, [](const Loc &a, const Loc &b){ return a.off < b.off; });
-				wd[W*i+j] = 0;
-				for (int c = 0; c < cnt-1; ++c)
-					if (lo[c].off == lo[c+1].off)
-						wd[W*i+j] |= 1 << c;
 				lo += cnt;
 			}
 		}
@@ -260,6 +270,7 @@ public:
 	}
 	int operator()(int8_t *message, int8_t *parity, int trials = 25)
 	{
+		reset();
 		for (int i = 0; i < BNL; ++i)
 			bnl[i] = vzero<TYPE>();
 		for (int i = 0; i < K/M; ++i)
-- 
2.43.0


From e2d8627d4afd595797769f664a6b2e539756a750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:04 +0000
Subject: [PATCH 09/10] fix: don't write before the message when polar parity
 decoding starts with a parity bit

With first == 0 there is no message symbol before the first parity bit, yet
message[-1] and maps[-1] were shuffled.
---
 polar_parity_aided.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/polar_parity_aided.hh b/polar_parity_aided.hh
index f1230b0..2a3e771 100644
--- a/polar_parity_aided.hh
+++ b/polar_parity_aided.hh
@@ -135,8 +135,10 @@ struct PolarParityNode<TYPE, 0>
 			++*index;
 			--*count;
 		} else {
-			message[*index-1] = vshuf(message[*index-1], map);
-			maps[*index-1] = vshuf(maps[*index-1], map);
+			if (*index) {
+				message[*index-1] = vshuf(message[*index-1], map);
+				maps[*index-1] = vshuf(maps[*index-1], map);
+			}
 			*count = stride;
 		}
 		*hard = hrd;
-- 
2.43.0


From 1a1d4cd2af01310653b4787bfe3a2162010dd5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:16 +0000
Subject: [PATCH 10/10] fix: rotate the write disable mask only among links to
 the same word

A run of links ending before the last link of its check was rotated together
with that last link, so from the second iteration on two links to the same
word were both written, dropping the update of one, and links standing alone
were disabled.
---
 ldpc_decoder.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ldpc_decoder.hh b/ldpc_decoder.hh
index 50e4d2a..d2b2dad 100644
--- a/ldpc_decoder.hh
+++ b/ldpc_decoder.hh
@@ -206,7 +206,7 @@ class LDPCDecoder
 					for (int first = 0, c = 1; c < cnt; ++c) {
 						if (lo[first].off != lo[c].off || c == cnt-1) {
 							int last = c - 1;
-							if (c == cnt-1)
+							if (lo[first].off == lo[c].off)
 								++last;
 							if (last != first) {
 								int count = last - first + 1;
-- 
2.43.0

