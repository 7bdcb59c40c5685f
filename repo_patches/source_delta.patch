From e3842738d12b833182470ac643c47630f08726a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 1/9] fix: ArtinSchreier map skipped a solvable quadratic

Whenever x*x+x hits the all-ones element (for example in GF(32) with
polynomial 0x25) its solution was left out of the table and the matching
double errors were reported as uncorrectable.
---
 reed_solomon_error_correction.hh | 2 --
 1 file changed, 2 deletions(-)

diff --git a/reed_solomon_error_correction.hh b/reed_solomon_error_correction.hh
index 4796adf..1bb1d47 100644
--- a/reed_solomon_error_correction.hh
+++ b/reed_solomon_error_correction.hh
@@ -44,8 +44,6 @@ struct ArtinSchreier
 		for (int i = 2; i < GF::N; i += 2) {
 			ValueType x(i);
 			ValueType xxx(x * x + x);
-			if (xxx == ValueType(GF::N))
-				continue;
 			assert(xxx.v);
 			assert(!imap[xxx.v].v);
 			imap[xxx.v] = x;
-- 
2.43.0


From f7a7c699fc67c4e2e9305d00d3f7cfcad28000c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:56 +0000
Subject: [PATCH 2/9] fix: reject error locator of too low degree

A locator with a degree below the length of the shortest shift register
can not explain the syndromes. Going on with the lower degree reported
success, and for degree zero even the absence of errors, while the
resulting word was no codeword.
---
 reed_solomon_error_correction.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/reed_solomon_error_correction.hh b/reed_solomon_error_correction.hh
index 1bb1d47..a5b06c1 100644
--- a/reed_solomon_error_correction.hh
+++ b/reed_solomon_error_correction.hh
@@ -205,9 +205,8 @@ struct ReedSolomonErrorCorrection
 		assert(locator_degree);
 		assert(locator_degree <= NR);
 		assert(locator[0] == ValueType(1));
-		while (!locator[locator_degree])
-			if (--locator_degree < 0)
-				return -1;
+		if (!locator[locator_degree])
+			return -1;
 		int count = search(locator, locator_degree, locations);
 		if (count < locator_degree)
 			return -1;
-- 
2.43.0


From 2c005ea7775accfbcf466b87b2c81ea7519b6866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 3/9] fix: parity bit before the first message bit

With first = 0 the very first information position carries a parity bit
and the decoder read and wrote one element in front of message and maps.
---
 polar_parity_aided.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/polar_parity_aided.hh b/polar_parity_aided.hh
index f1230b0..2a3e771 100644
--- a/polar_parity_aided.hh
+++ b/polar_parity_aided.hh
@@ -135,8 +135,10 @@ struct PolarParityNode<TYPE, 0>
 			++*index;
 			--*count;
 		} else {
-			message[*index-1] = vshuf(message[*index-1], map);
-			maps[*index-1] = vshuf(maps[*index-1], map);
+			if (*index) {
+				message[*index-1] = vshuf(message[*index-1], map);
+				maps[*index-1] = vshuf(maps[*index-1], map);
+			}
 			*count = stride;
 		}
 		*hard = hrd;
-- 
2.43.0


From 305ddd5c1523695c177073f0cbfaeb88a6cb3ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 4/9] fix: Chase decoder lost the least reliable positions

The search compared against array entries that were not filled in yet and
all start out as position zero. When position zero was among the least
reliable ones, some of the others never made it into the list.
---
 short_bch_code_decoder.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/short_bch_code_decoder.hh b/short_bch_code_decoder.hh
index 6e68966..e6db72b 100644
--- a/short_bch_code_decoder.hh
+++ b/short_bch_code_decoder.hh
@@ -98,7 +98,7 @@ public:
 			int worst[L] = { 0 };
 			for (int k = 0; k < N; ++k) {
 				int j = 0;
-				while (j < L && std::abs(code[worst[j]]) < std::abs(code[k]))
+				while (j < L && j < k && std::abs(code[worst[j]]) < std::abs(code[k]))
 					++j;
 				for (int i = L-1; i > j; --i)
 					worst[i] = worst[i-1];
-- 
2.43.0


From 47bb4ffdc595e0fa8082d2b5d6683ac1409842ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 5/9] fix: negative metrics in soft decoder for short BCH codes

Metrics of valid words can be negative, so neither may failed hard
decisions count as metric -1 nor may the runner-up start out with -2:
Good words were dropped in favor of a failure or reported as ambiguous.
---
 short_bch_code_decoder.hh | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/short_bch_code_decoder.hh b/short_bch_code_decoder.hh
index e6db72b..4fe2d8a 100644
--- a/short_bch_code_decoder.hh
+++ b/short_bch_code_decoder.hh
@@ -6,6 +6,8 @@ Copyright 2020 Ahmet Inan <inan@aicodix.de>
 
 #pragma once
 
+#include <climits>
+
 namespace CODE {
 
 template <int N, int K, int G, int T>
@@ -30,7 +32,7 @@ class ShortBCHCodeDecoder
 	static int metric(const int8_t *soft, int hard)
 	{
 		if (hard < 0)
-			return -1;
+			return INT_MIN;
 		int lol = 8 * sizeof(hard) - 1;
 		int sum = 0;
 		for (int i = 0; i < N; ++i)
@@ -71,9 +73,9 @@ public:
 			return word;
 		// metric of hard decision
 		int best = metric(code, word);
-		int next = -2;
+		int next = INT_MIN;
 		auto update = [code, &word, &best, &next](int hard) {
-			if (hard == word)
+			if (hard < 0 || hard == word)
 				return;
 			int met = metric(code, hard);
 			if (met > best) {
-- 
2.43.0


From e7e7e9fd4be8ddf4afbe7bd3d529f3dc84f9e91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 6/9] fix: negative metrics in ordered statistics decoding

Metrics of candidates can be negative. The list decoder dropped them and
returned uninitialized words instead while the decoder could miss or make
up an ambiguity.
---
 osd.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/osd.hh b/osd.hh
index dfbc0c1..fceee07 100644
--- a/osd.hh
+++ b/osd.hh
@@ -6,6 +6,7 @@ Copyright 2020 Ahmet Inan <inan@aicodix.de>
 
 #pragma once
 
+#include <climits>
 #include <initializer_list>
 #include "bitman.hh"
 #include "sort.hh"
@@ -191,7 +192,7 @@ public:
 		for (int i = 0; i < N; ++i)
 			candidate[i] = codeword[i];
 		int best = metric(codeword, softperm);
-		int next = -1;
+		int next = INT_MIN;
 		auto update = [this, &best, &next]() {
 			int met = metric(codeword, softperm);
 			if (met > best) {
@@ -352,7 +353,7 @@ public:
 			candidate[i] = codeword[i];
 		score[0] = metric();
 		for (int i = 1; i < L; ++i)
-			score[i] = -1;
+			score[i] = INT_MIN;
 		for (int i = 0; i < L; ++i)
 			cperm[i] = i;
 		for (int a = 0; O >= 1 && a < K; ++a) {
-- 
2.43.0


From 2273e5deb7226f16e0efd553181cbade7fd63c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:04 +0000
Subject: [PATCH 7/9] fix: clamping 64 bit lanes needs more than AVX2

The specialisation used AVX-512VL intrinsics, so any use of it failed to
compile. Without AVX-512VL the generic version does.
---
 avx2.hh        | 2 ++
 avx2_double.hh | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/avx2.hh b/avx2.hh
index b275cee..247be88 100644
--- a/avx2.hh
+++ b/avx2.hh
@@ -1146,6 +1146,7 @@ inline SIMD<int32_t, 8> vclamp(SIMD<int32_t, 8> x, int32_t a, int32_t b)
 	return tmp;
 }
 
+#ifdef __AVX512VL__
 template <>
 inline SIMD<int64_t, 4> vclamp(SIMD<int64_t, 4> x, int64_t a, int64_t b)
 {
@@ -1153,6 +1154,7 @@ inline SIMD<int64_t, 4> vclamp(SIMD<int64_t, 4> x, int64_t a, int64_t b)
 	tmp.m = _mm256_min_epi64(_mm256_max_epi64(x.m, _mm256_set1_epi64x(a)), _mm256_set1_epi64x(b));
 	return tmp;
 }
+#endif
 
 template <>
 inline SIMD<uint8_t, 32> vshuf(SIMD<uint8_t, 32> a, SIMD<uint8_t, 32> b)
diff --git a/avx2_double.hh b/avx2_double.hh
index 82a82bc..45bf4c8 100644
--- a/avx2_double.hh
+++ b/avx2_double.hh
@@ -1272,6 +1272,7 @@ inline SIMD<int32_t, 16> vclamp(SIMD<int32_t, 16> x, int32_t a, int32_t b)
 	return tmp;
 }
 
+#ifdef __AVX512VL__
 template <>
 inline SIMD<int64_t, 8> vclamp(SIMD<int64_t, 8> x, int64_t a, int64_t b)
 {
@@ -1280,6 +1281,7 @@ inline SIMD<int64_t, 8> vclamp(SIMD<int64_t, 8> x, int64_t a, int64_t b)
 		tmp.m[i] = _mm256_min_epi64(_mm256_max_epi64(x.m[i], _mm256_set1_epi64x(a)), _mm256_set1_epi64x(b));
 	return tmp;
 }
+#endif
 
 template <>
 inline SIMD<uint8_t, 64> vshuf(SIMD<uint8_t, 64> a, SIMD<uint8_t, 64> b)
-- 
2.43.0


From 2fa803510e9302ad5dca482fadfbc7a974adc02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:19 +0000
Subject: [PATCH 8/9] fix: taking turns with repeated links before a single
 last one

The rotation of the write disable mask took in the last link even if it
was to another word: every third time both repeated links were written,
the later one undoing the earlier one, and the last link was left out.
---
 ldpc_decoder.hh | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ldpc_decoder.hh b/ldpc_decoder.hh
index 010ae96..1d9a3fd 100644
--- a/ldpc_decoder.hh
+++ b/ldpc_decoder.hh
@@ -189,11 +189,9 @@ class LDPCDecoder
 					}
 				}
 				if (wd[W*i+j]) {
-					for (int first = 0, c = 1; c < cnt; ++c) {
-						if (lo[first].off != lo[c].off || c == cnt-1) {
+					for (int first = 0, c = 1; c <= cnt; ++c) {
+						if (c == cnt || lo[first].off != lo[c].off) {
 							int last = c - 1;
-							if (c == cnt-1)
-								++last;
 							if (last != first) {
 								int count = last - first + 1;
 								wd_t mask = ((1 << count) - 1) << first;
-- 
2.43.0


From ee3bc0d6820a1cadbfccb0062e55e61ceaf52b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:43 +0000
Subject: [PATCH 9/9] fix: metrics of unused paths in polar list decoding were
 too small

---
 polar_list_decoder.hh | 3 ++-
 polar_parity_aided.hh | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/polar_list_decoder.hh b/polar_list_decoder.hh
index 07a1cb1..d78b93b 100644
--- a/polar_list_decoder.hh
+++ b/polar_list_decoder.hh
@@ -6,6 +6,7 @@ Copyright 2020 Ahmet Inan <inan@aicodix.de>
 
 #pragma once
 
+#include <limits>
 #include "sort.hh"
 #include "polar_helper.hh"
 
@@ -289,7 +290,7 @@ public:
 		int count = 0;
 		metric[0] = 0;
 		for (int k = 1; k < TYPE::SIZE; ++k)
-			metric[k] = 1000000;
+			metric[k] = std::numeric_limits<PATH>::max() / 2;
 		int length = 1 << level;
 		for (int i = 0; i < length; ++i)
 			soft[length+i] = vdup<TYPE>(codeword[i]);
diff --git a/polar_parity_aided.hh b/polar_parity_aided.hh
index 2a3e771..d4979a7 100644
--- a/polar_parity_aided.hh
+++ b/polar_parity_aided.hh
@@ -6,6 +6,7 @@ Copyright 2023 Ahmet Inan <inan@aicodix.de>
 
 #pragma once
 
+#include <limits>
 #include "sort.hh"
 #include "polar_helper.hh"
 
@@ -114,9 +115,9 @@ struct PolarParityNode<TYPE, 0>
 			*parity = PH::one();
 			for (int k = 0; k < TYPE::SIZE; ++k)
 				if (chk.v[k] < 0)
-					fork[2*k] = 1000000;
+					fork[2*k] = std::numeric_limits<PATH>::max() / 2;
 				else
-					fork[2*k+1] = 1000000;
+					fork[2*k+1] = std::numeric_limits<PATH>::max() / 2;
 		}
 		int perm[2*TYPE::SIZE];
 		CODE::insertion_sort(perm, fork, 2*TYPE::SIZE);
@@ -356,7 +357,7 @@ public:
 		PATH metric[TYPE::SIZE];
 		metric[0] = 0;
 		for (int k = 1; k < TYPE::SIZE; ++k)
-			metric[k] = 1000000;
+			metric[k] = std::numeric_limits<PATH>::max() / 2;
 		int length = 1 << level;
 		for (int i = 0; i < length; ++i)
 			soft[length+i] = vdup<TYPE>(codeword[i]);
-- 
2.43.0

