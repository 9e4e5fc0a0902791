From 10138db7b8645056989105c764eb034fb5d75976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:27 +0000
Subject: [PATCH 01/22] fix: multi-byte encoders no longer read past the end of
 the input

Near the end of the input the run detection compared against a symbol that
lies (partly) behind the input, and loaded 24/48 bit symbols with 4/8 byte
loads. The bytes behind the input could end up in the compressed stream and
the read could fault.
---
 src/rle128_extreme_cpu.h               |  7 ++--
 src/rle24_extreme_cpu_encode.h         | 19 +++++++----
 src/rle48_extreme_cpu_encode.h         | 19 +++++++----
 src/rleX_Xsl_multibyte_encoder.h       | 34 +++++++++----------
 src/rleX_Xsl_short.h                   | 45 +++++++++++---------------
 src/rleX_Xsl_short_multibyte_encoder.h | 30 ++++++++---------
 src/rleX_extreme_cpu_encode.h          |  7 ++--
 7 files changed, 80 insertions(+), 81 deletions(-)

diff --git a/src/rle128_extreme_cpu.h b/src/rle128_extreme_cpu.h
index 006952d..b276276 100644
--- a/src/rle128_extreme_cpu.h
+++ b/src/rle128_extreme_cpu.h
@@ -47,7 +47,7 @@ uint32_t CONCAT3(rle128_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_
 	const size_t symbolSize = sizeof(symbol_t);
 
 	int64_t count = 0;
-	symbol_t symbol = _mm_xor_si128(_mm_setzero_si128(), _mm_loadu_si128((const symbol_t *)pIn));
+	symbol_t symbol = inSize >= sizeof(symbol_t) ? _mm_loadu_si128((const symbol_t *)pIn) : _mm_setzero_si128();
 
 #ifdef PACKED
 	symbol_t lastSymbol = _mm_setzero_si128();
@@ -265,9 +265,10 @@ uint32_t CONCAT3(rle128_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_
 				}
 			}
 
-			symbol = _mm_loadu_si128((const symbol_t *)&pIn[i]);
+			if (i + symbolSize <= inSize)
+				symbol = _mm_loadu_si128((const symbol_t *)&pIn[i]);
 
-			if (i + symbolSize <= inSize && _mm_movemask_epi8(_mm_cmpeq_epi8(symbol, _mm_loadu_si128((const symbol_t *)((&pIn[i]) + symbolSize)))) == 0xFFFF)
+			if (i + symbolSize * 2 <= inSize && _mm_movemask_epi8(_mm_cmpeq_epi8(symbol, _mm_loadu_si128((const symbol_t *)((&pIn[i]) + symbolSize)))) == 0xFFFF)
 			{
 				count = symbolSize * 2;
 				i += symbolSize * 2;
diff --git a/src/rle24_extreme_cpu_encode.h b/src/rle24_extreme_cpu_encode.h
index 5fac1a6..0c0f04c 100644
--- a/src/rle24_extreme_cpu_encode.h
+++ b/src/rle24_extreme_cpu_encode.h
@@ -34,7 +34,13 @@ uint32_t CONCAT3(rle24_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
   const size_t symbolSize = 3;
 
   int64_t count = 0;
-  symbol_t symbol = (~(*((symbol_t *)(pIn)))) & symbolMask;
+  symbol_t symbol = 0;
+
+  if (inSize >= symbolSize)
+  {
+    memcpy(&symbol, pIn, symbolSize);
+    symbol = (~symbol) & symbolMask;
+  }
 
 #if defined(COMPRESS_IMPL_SSE2)
   __m128i symbolSimd = CONCAT2(_mm_set1_epi, SIMD_TYPE_SIZE)(symbol);
@@ -131,7 +137,8 @@ uint32_t CONCAT3(rle24_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
     {
       if (i + symbolSize <= inSize)
       {
-        const symbol_t next = ((*(symbol_t *)&pIn[i]) & symbolMask);
+        symbol_t next = 0;
+        memcpy(&next, &pIn[i], symbolSize);
 
         if (next == symbol)
         {
@@ -142,7 +149,7 @@ uint32_t CONCAT3(rle24_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
 #ifdef UNBOUND
         else
         {
-          const symbol_t diff = symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -352,10 +359,10 @@ uint32_t CONCAT3(rle24_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
       }
 #endif
 
-      symbol = (*(symbol_t *)(&pIn[i])) & symbolMask;
-
-      if (i + symbolSize <= inSize && ((*(symbol_t *)((&pIn[i]) + symbolSize)) & symbolMask) == symbol)
+      if (i + symbolSize * 2 <= inSize && memcmp(&pIn[i], &pIn[i + symbolSize], symbolSize) == 0)
       {
+        symbol = 0;
+        memcpy(&symbol, &pIn[i], symbolSize);
         count = symbolSize * 2;
         i += symbolSize * 2;
       }
diff --git a/src/rle48_extreme_cpu_encode.h b/src/rle48_extreme_cpu_encode.h
index 82321b6..93ac9dc 100644
--- a/src/rle48_extreme_cpu_encode.h
+++ b/src/rle48_extreme_cpu_encode.h
@@ -34,7 +34,13 @@ uint32_t CONCAT3(rle48_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
   const size_t symbolSize = 6;
 
   int64_t count = 0;
-  symbol_t symbol = (~(*((symbol_t *)(pIn)))) & symbolMask;
+  symbol_t symbol = 0;
+
+  if (inSize >= symbolSize)
+  {
+    memcpy(&symbol, pIn, symbolSize);
+    symbol = (~symbol) & symbolMask;
+  }
 
 #if defined(COMPRESS_IMPL_SSE2)
   __m128i symbolSimd = CONCAT2(_mm_set1_epi, SIMD_TYPE_SIZE)(symbol);
@@ -129,7 +135,8 @@ uint32_t CONCAT3(rle48_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
     {
       if (i + symbolSize <= inSize)
       {
-        const symbol_t next = ((*(symbol_t *)&pIn[i]) & symbolMask);
+        symbol_t next = 0;
+        memcpy(&next, &pIn[i], symbolSize);
 
         if (next == symbol)
         {
@@ -140,7 +147,7 @@ uint32_t CONCAT3(rle48_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
 #ifdef UNBOUND
         else
         {
-          const symbol_t diff = symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -351,10 +358,10 @@ uint32_t CONCAT3(rle48_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t
       }
 #endif
 
-      symbol = (*(symbol_t *)(&pIn[i])) & symbolMask;
-
-      if (i + symbolSize <= inSize && ((*(symbol_t *)((&pIn[i]) + symbolSize)) & symbolMask) == symbol)
+      if (i + symbolSize * 2 <= inSize && memcmp(&pIn[i], &pIn[i + symbolSize], symbolSize) == 0)
       {
+        symbol = 0;
+        memcpy(&symbol, &pIn[i], symbolSize);
         count = symbolSize * 2;
         i += symbolSize * 2;
       }
diff --git a/src/rleX_Xsl_multibyte_encoder.h b/src/rleX_Xsl_multibyte_encoder.h
index 2792827..6a52d58 100644
--- a/src/rleX_Xsl_multibyte_encoder.h
+++ b/src/rleX_Xsl_multibyte_encoder.h
@@ -38,7 +38,13 @@ uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t
   state.lastSymbols[6] = 0xFE * VALUE_BROADCAST;
 #endif
 
-  state.symbol = ~(*((symbol_t *)(pIn)));
+  state.symbol = 0;
+
+  if (inSize >= (TYPE_SIZE / 8))
+  {
+    memcpy(&state.symbol, pIn, TYPE_SIZE / 8);
+    state.symbol = ~state.symbol;
+  }
 
 #ifdef SYMBOL_MASK
   state.symbol &= SYMBOL_MASK;
@@ -177,11 +183,8 @@ uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t
     {
       if (i + (TYPE_SIZE / 8) <= inSize)
       {
-#ifndef SYMBOL_MASK
-        const symbol_t next = *(symbol_t *)&pIn[i];
-#else
-        const symbol_t next = *(symbol_t *)&pIn[i] & SYMBOL_MASK;
-#endif
+        symbol_t next = 0;
+        memcpy(&next, &pIn[i], TYPE_SIZE / 8);
 
         if (next == state.symbol)
         {
@@ -202,7 +205,7 @@ uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t
             i++;
           }
 #elif TYPE_SIZE == 32 || TYPE_SIZE == 24
-          const symbol_t diff = state.symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = state.symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -214,7 +217,7 @@ uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t
           i += (offset / 8);
           state.count += (offset / 8);
 #elif TYPE_SIZE == 64 || TYPE_SIZE == 48
-          const symbol_t diff = state.symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = state.symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -315,18 +318,11 @@ uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t
       }
 #endif
 
-#ifndef SYMBOL_MASK
-      state.symbol = *(symbol_t *)(&pIn[i]);
-#else
-      state.symbol = *(symbol_t *)(&pIn[i]) & SYMBOL_MASK;
-#endif
-
-#ifndef SYMBOL_MASK
-      if (i + (TYPE_SIZE / 8) <= inSize && ((symbol_t *)(&pIn[i]))[1] == state.symbol)
-#else
-      if (i + (TYPE_SIZE / 8) <= inSize && (*((symbol_t *)(&pIn[i + (TYPE_SIZE / 8)])) & SYMBOL_MASK) == state.symbol)
-#endif
+      if (i + (TYPE_SIZE / 8) * 2 <= inSize && memcmp(&pIn[i], &pIn[i + (TYPE_SIZE / 8)], TYPE_SIZE / 8) == 0)
       {
+        state.symbol = 0;
+        memcpy(&state.symbol, &pIn[i], TYPE_SIZE / 8);
+
         state.count = (TYPE_SIZE / 8) * 2;
         i += (TYPE_SIZE / 8) * 2;
       }
diff --git a/src/rleX_Xsl_short.h b/src/rleX_Xsl_short.h
index 1553dc0..6c478ee 100644
--- a/src/rleX_Xsl_short.h
+++ b/src/rleX_Xsl_short.h
@@ -772,7 +772,13 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
 #endif
 #endif
 
-  state.symbol = ~(*((symbol_t *)(pIn)));
+  state.symbol = 0;
+
+  if (inSize >= (TYPE_SIZE / 8))
+  {
+    memcpy(&state.symbol, pIn, TYPE_SIZE / 8);
+    state.symbol = ~state.symbol;
+  }
 
 #ifdef SYMBOL_MASK
   state.symbol &= SYMBOL_MASK;
@@ -786,11 +792,8 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
     {
       if (i + (TYPE_SIZE / 8) <= inSize)
       {
-#ifndef SYMBOL_MASK
-        const symbol_t next = *(symbol_t *)&pIn[i];
-#else
-        const symbol_t next = *(symbol_t *)&pIn[i] & SYMBOL_MASK;
-#endif
+        symbol_t next = 0;
+        memcpy(&next, &pIn[i], TYPE_SIZE / 8);
 
         if (next == state.symbol)
         {
@@ -811,7 +814,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
             i++;
           }
 #elif TYPE_SIZE == 32 || TYPE_SIZE == 24
-          const symbol_t diff = state.symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = state.symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -823,7 +826,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
           i += (offset / 8);
           state.count += (offset / 8);
 #elif TYPE_SIZE == 64 || TYPE_SIZE == 48
-          const symbol_t diff = state.symbol ^ *(symbol_t *)&pIn[i];
+          const symbol_t diff = state.symbol ^ next;
 
 #ifdef _MSC_VER
           unsigned long offset;
@@ -858,19 +861,15 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
     {
       CONCAT3(_rle, TYPE_SIZE, CONCAT3(_, CODEC, process_symbol))(pIn, pOut, i, &state);
 
-#ifndef SYMBOL_MASK
-      state.symbol = *(symbol_t *)(&pIn[i]);
-#else
-      state.symbol = *(symbol_t *)(&pIn[i]) & SYMBOL_MASK;
-#endif
-
       const bool symbolWouldFit = i + (TYPE_SIZE / 8) <= inSize;
+      symbol_t next = 0;
 
-#ifndef SYMBOL_MASK
-      if (symbolWouldFit && ((symbol_t *)(&pIn[i]))[1] == state.symbol)
-#else
-      if (symbolWouldFit && (*((symbol_t *)(&pIn[i + (TYPE_SIZE / 8)])) & SYMBOL_MASK) == state.symbol)
-#endif
+      if (symbolWouldFit)
+        memcpy(&next, &pIn[i], TYPE_SIZE / 8);
+
+      state.symbol = next;
+
+      if (i + (TYPE_SIZE / 8) * 2 <= inSize && memcmp(&pIn[i], &pIn[i + (TYPE_SIZE / 8)], TYPE_SIZE / 8) == 0)
       {
         state.count = (TYPE_SIZE / 8) * 2;
         i += (TYPE_SIZE / 8) * 2;
@@ -879,12 +878,6 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
       {
         if (symbolWouldFit)
         {
-#ifndef SYMBOL_MASK
-          const symbol_t next = *(symbol_t *)&pIn[i];
-#else
-          const symbol_t next = *(symbol_t *)&pIn[i] & SYMBOL_MASK;
-#endif
-
           size_t possibleCount = 0;
 
 #if SYMBOL_COUNT == 1
@@ -969,7 +962,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const ui
 #endif
 
 #if TYPE_SIZE != 16
-            if (state.count < TYPE_SIZE / 8)
+            if (state.count < TYPE_SIZE / 8 && i < inSize)
               goto not_a_full_match_but_a_match;
 #endif
           }
diff --git a/src/rleX_Xsl_short_multibyte_encoder.h b/src/rleX_Xsl_short_multibyte_encoder.h
index e971f8f..f4fd2d4 100644
--- a/src/rleX_Xsl_short_multibyte_encoder.h
+++ b/src/rleX_Xsl_short_multibyte_encoder.h
@@ -44,7 +44,13 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, FUNC_NAME))(IN const uint8_t
 #endif
 #endif
 
-  state.symbol = ~(*((symbol_t *)(pIn)));
+  state.symbol = 0;
+
+  if (inSize >= (TYPE_SIZE / 8))
+  {
+    memcpy(&state.symbol, pIn, TYPE_SIZE / 8);
+    state.symbol = ~state.symbol;
+  }
 
 #ifdef SYMBOL_MASK
   state.symbol &= SYMBOL_MASK;
@@ -183,11 +189,8 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, FUNC_NAME))(IN const uint8_t
     {
       if (i + (TYPE_SIZE / 8) <= inSize)
       {
-#ifndef SYMBOL_MASK
-        const symbol_t next = *(symbol_t *)&pIn[i];
-#else
-        const symbol_t next = *(symbol_t *)&pIn[i] & SYMBOL_MASK;
-#endif
+        symbol_t next = 0;
+        memcpy(&next, &pIn[i], TYPE_SIZE / 8);
 
         if (next == state.symbol)
         {
@@ -321,18 +324,11 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, FUNC_NAME))(IN const uint8_t
       }
 #endif
 
-#ifndef SYMBOL_MASK
-      state.symbol = *(symbol_t *)(&pIn[i]);
-#else
-      state.symbol = *(symbol_t *)(&pIn[i]) & SYMBOL_MASK;
-#endif
-
-#ifndef SYMBOL_MASK
-      if (i + (TYPE_SIZE / 8) <= inSize && ((symbol_t *)(&pIn[i]))[1] == state.symbol)
-#else
-      if (i + (TYPE_SIZE / 8) <= inSize && (*((symbol_t *)(&pIn[i + (TYPE_SIZE / 8)])) & SYMBOL_MASK) == state.symbol)
-#endif
+      if (i + (TYPE_SIZE / 8) * 2 <= inSize && memcmp(&pIn[i], &pIn[i + (TYPE_SIZE / 8)], TYPE_SIZE / 8) == 0)
       {
+        state.symbol = 0;
+        memcpy(&state.symbol, &pIn[i], TYPE_SIZE / 8);
+
         state.count = (TYPE_SIZE / 8) * 2;
         i += (TYPE_SIZE / 8) * 2;
       }
diff --git a/src/rleX_extreme_cpu_encode.h b/src/rleX_extreme_cpu_encode.h
index bab39a5..6fba7b1 100644
--- a/src/rleX_extreme_cpu_encode.h
+++ b/src/rleX_extreme_cpu_encode.h
@@ -29,7 +29,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, ENCODE_FUNC_NAME))(IN const u
   typedef CONCAT3(uint, TYPE_SIZE, _t) symbol_t;
 
   int64_t count = 0;
-  symbol_t symbol = ~(*((symbol_t *)(pIn)));
+  symbol_t symbol = inSize >= sizeof(symbol_t) ? (symbol_t)~(*((symbol_t *)(pIn))) : 0;
 
 #if defined(COMPRESS_IMPL_SSE2)
   __m128i symbolSimd = CONCAT2(_mm_set1_epi, TYPE_SIZE)(symbol);
@@ -366,10 +366,9 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, ENCODE_FUNC_NAME))(IN const u
       }
 #endif
 
-      symbol = *(symbol_t *)(&pIn[i]);
-
-      if (i + sizeof(symbol_t) <= inSize && ((symbol_t *)(&pIn[i]))[1] == symbol)
+      if (i + sizeof(symbol_t) * 2 <= inSize && ((symbol_t *)(&pIn[i]))[1] == *(symbol_t *)(&pIn[i]))
       {
+        symbol = *(symbol_t *)(&pIn[i]);
         count = sizeof(symbol_t) * 2;
         i += sizeof(symbol_t) * 2;
       }
-- 
2.43.0


From 60e2c9067fbbfdc8f0c1ef015f59ed2da1cce16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:35 +0000
Subject: [PATCH 02/22] fix: rle8_mmtf128 no longer decides on an uninitialised
 bit mask; bounds include the file header

The compressed size bound left out the 8 byte file header, so compressing
into a buffer of the advertised size wrote past its end. The bit mask used
to pick the copy packing was read before it was initialised.
---
 src/rle8_mmtf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rle8_mmtf.c b/src/rle8_mmtf.c
index c5cb7ca..a120f00 100644
--- a/src/rle8_mmtf.c
+++ b/src/rle8_mmtf.c
@@ -28,7 +28,7 @@ uint32_t rle8_mmtf128_compress_bounds(const uint32_t inSize)
   if (inSize > (1 << 30))
     return 0;
 
-  return inSize + sizeof(uint8_t) + sizeof(uint8_t) + sizeof(uint8_t) + sizeof(uint32_t) + 1;
+  return inSize + sizeof(uint32_t) * 2 + sizeof(uint8_t) + sizeof(uint8_t) + sizeof(uint8_t) + sizeof(uint32_t) + 1;
 }
 
 uint32_t rle8_mmtf256_compress_bounds(const uint32_t inSize)
@@ -179,7 +179,7 @@ uint32_t rle8_mmtf128_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT
     const __m128i hi5BitMask = _mm_set1_epi8((uint8_t)0b11111000);
     const __m128i hi6BitMask = _mm_set1_epi8((uint8_t)0b11111100);
 
-    __m128i currentBitMask = _mm_undefined_si128();
+    __m128i currentBitMask = _mm_setzero_si128();
     //__m128i lastOut = _mm_xor_si128(_mm_set1_epi8((int8_t)-1), _mm_loadu_si128((const __m128i *)pIn));
 
     uint8_t *pLastHeader = pOut;
-- 
2.43.0


From aefa1bd4d9f87c13d08ed07b9a4ebcf5c987438e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:00 +0000
Subject: [PATCH 03/22] fix: rle8_sh bound covers the worst case and is the one
 compression checks

The bit header (at the end of the output buffer) and the data collided or ran
past the buffer when the input did not compress.
---
 src/rle_sh.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/rle_sh.c b/src/rle_sh.c
index f113437..7bd675d 100644
--- a/src/rle_sh.c
+++ b/src/rle_sh.c
@@ -92,7 +92,11 @@ inline void rle8_sh_consume_bits(rle8_sh_read_header *pHeader, const int8_t bits
 
 uint32_t rle8_sh_bounds(const uint32_t size)
 {
-  return size + sizeof(uint32_t) * 2 + 1 + sizeof(uint32_t);
+  if (size > (1 << 30))
+    return 0;
+
+  // Worst case: encoded copy blocks, 7 bits header + 1 byte length for every 416 bytes. Constant: file header, last copy block, terminator, and one byte the bit header is ahead.
+  return size + size / 128 + sizeof(uint32_t) * 8;
 }
 
 inline void rle8_sh_encoded_copy(IN const uint8_t *pBlockStart, OUT uint8_t **ppOut, const size_t copyCount, rle8_sh_header_state *pHeader, const uint8_t lastRleSymbol, uint8_t *pSecondMostImportant, uint8_t *pThirdMostImportant, uint8_t *pLastOccuredSymbol)
@@ -268,7 +272,7 @@ inline void rle8_sh_copy(IN const uint8_t *pBlockStart, OUT uint8_t **ppOut, con
 
 uint32_t rle8_sh_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_mmtf128_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_sh_bounds(inSize))
     return 0;
 
   uint32_t *pFileHeader = (uint32_t *)pOut;
-- 
2.43.0


From 632cf7360342c428d9f65ad3141c9bec65efc39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:10 +0000
Subject: [PATCH 04/22] fix: low entropy decoders count all 256 run-length
 symbols

---
 src/rle8_low_entropy_cpu.c       | 2 +-
 src/rle8_low_entropy_short_cpu.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index d5ee063..49f4eaa 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -937,7 +937,7 @@ uint32_t rle8_low_entropy_decompress_with_info(IN const uint8_t *pIn, IN const u
 
   const uint8_t *pPreEnd = pEnd - 256;
 
-  uint8_t rleSymbolCount = 0;
+  uint32_t rleSymbolCount = 0;
 
   for (size_t i = 0; i < 256; i++)
     rleSymbolCount += rle[i];
diff --git a/src/rle8_low_entropy_short_cpu.c b/src/rle8_low_entropy_short_cpu.c
index d02033c..8ee44bf 100644
--- a/src/rle8_low_entropy_short_cpu.c
+++ b/src/rle8_low_entropy_short_cpu.c
@@ -447,7 +447,7 @@ uint32_t rle8_low_entropy_short_decompress_with_info(IN const uint8_t *pIn, IN c
 
   const uint8_t *pPreEnd = pEnd - 256;
 
-  uint8_t rleSymbolCount = 0;
+  uint32_t rleSymbolCount = 0;
 
   for (size_t i = 0; i < 256; i++)
     rleSymbolCount += rle[i];
-- 
2.43.0


From 0d3dfe56f6a7cc586fcad588d60f909d3c8cb26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:32 +0000
Subject: [PATCH 05/22] fix: low entropy bounds cover the final run; split
 final runs are counted when choosing symbols

---
 src/rle8_low_entropy_cpu.c       | 7 ++++---
 src/rle8_low_entropy_short_cpu.c | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index 49f4eaa..b698f34 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -5,7 +5,8 @@
 
 uint32_t rle8_low_entropy_compress_bounds(const uint32_t inSize)
 {
-  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2;
+  // the last byte never joins the final run, which can cost an additional symbol & count.
+  return inSize + 2 + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2;
 }
 
 uint32_t rle8_low_entropy_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
@@ -293,7 +294,7 @@ bool rle8_low_entropy_get_compress_info(IN const uint8_t *pIn, const uint32_t in
     }
 
     prob[lastSymbol] += count;
-    pcount[lastSymbol]++;
+    pcount[lastSymbol] += (count / 255) + 1;
 
     for (size_t i = 0; i < 256; i++)
       if (pcount[i] > 0)
@@ -380,7 +381,7 @@ bool rle8_low_entropy_get_compress_info_only_max_frequency(IN const uint8_t * pI
     }
 
     prob[lastSymbol] += count;
-    pcount[lastSymbol]++;
+    pcount[lastSymbol] += (count / 255) + 1;
 
     size_t maxBytesSaved = 0;
     size_t maxBytesSavedIndexIndex = 0;
diff --git a/src/rle8_low_entropy_short_cpu.c b/src/rle8_low_entropy_short_cpu.c
index 8ee44bf..82a6ef7 100644
--- a/src/rle8_low_entropy_short_cpu.c
+++ b/src/rle8_low_entropy_short_cpu.c
@@ -15,7 +15,8 @@ bool rle8_low_entropy_short_get_compress_info_only_max_frequency(IN const uint8_
 
 uint32_t rle8_low_entropy_short_compress_bounds(const uint32_t inSize)
 {
-  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2;
+  // the last byte never joins the final run, which can cost an additional symbol & count.
+  return inSize + 2 + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2;
 }
 
 uint32_t rle8_low_entropy_short_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
@@ -575,7 +576,7 @@ bool rle8_low_entropy_short_get_compress_info(IN const uint8_t *pIn, const uint3
     }
 
     prob[lastSymbol] += count;
-    pcount[lastSymbol]++;
+    pcount[lastSymbol] += (count / ULTRA_MAX_BLOCK_LENGTH) + 1;
 
     for (size_t i = 0; i < 256; i++)
       if (pcount[i] > 0)
@@ -662,7 +663,7 @@ bool rle8_low_entropy_short_get_compress_info_only_max_frequency(IN const uint8_
     }
 
     prob[lastSymbol] += count;
-    pcount[lastSymbol]++;
+    pcount[lastSymbol] += (count / ULTRA_MAX_BLOCK_LENGTH) + 1;
 
     size_t maxBytesSaved = 0;
     size_t maxBytesSavedIndexIndex = 0;
-- 
2.43.0


From fd53fd404624e5c0a759908c4219179047a90ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:49 +0000
Subject: [PATCH 06/22] fix: rle8m ignores bytes after the stream, its bound
 covers every section, oversized section counts are refused

---
 src/rle8_low_entropy_cpu.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index b698f34..288b302 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -126,12 +126,20 @@ uint32_t rle8_low_entropy_decompress(IN const uint8_t *pIn, const uint32_t inSiz
 
 uint32_t rle8m_compress_bounds(const uint32_t subSections, const uint32_t inSize)
 {
-  return inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * (2 + subSections - 1 + 1);
+  // every section can split a run and never adds its last byte to a run: up to two additional symbols & counts.
+  const uint64_t bounds = (uint64_t)inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * (2 + (uint64_t)subSections * 2);
+
+  return bounds > UINT32_MAX ? 0 : (uint32_t)bounds;
 }
 
 uint32_t rle8m_compress(const uint32_t subSections, IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8m_compress_bounds(subSections, inSize) || subSections == 0)
+  if (pIn == NULL || inSize == 0 || pOut == NULL || subSections == 0 || subSections > inSize)
+    return 0;
+
+  const uint32_t bounds = rle8m_compress_bounds(subSections, inSize);
+
+  if (bounds == 0 || outSize < bounds)
     return 0;
 
   rle8_low_entropy_compress_info_t compressInfo;
@@ -239,7 +247,7 @@ uint32_t rle8m_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint
 
   // Decode last section.
   {
-    const uint8_t *pEnd = pIn + inSize;
+    const uint8_t *pEnd = pIn + expectedInSize;
 
     const uint32_t size = rle8_low_entropy_decompress_with_info(pCIn, pEnd, &decompressInfo, pOut, (uint32_t)remainingSize);
 
-- 
2.43.0


From f8ddb756c9854d747a76a917e7d20d125f854f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:24 +0000
Subject: [PATCH 07/22] fix: rle_compress_bounds covers inputs that grow by a
 byte per token

---
 src/rle8_extreme_cpu.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rle8_extreme_cpu.c b/src/rle8_extreme_cpu.c
index 5c17905..cfb0f5b 100644
--- a/src/rle8_extreme_cpu.c
+++ b/src/rle8_extreme_cpu.c
@@ -24,7 +24,9 @@ uint32_t rle_compress_bounds(const uint32_t inSize)
   if (inSize > (1 << 30))
     return 0;
 
-  return inSize + (16 + 4 + 1 + 4 + 1 + 64) * 2 + (3 * 4) + 1;
+  // `inSize / 64`: a run of minimum length followed by the shortest range that requires the extended encoding grows the output
+  // (worst case: one byte per 62 copied bytes + 6 bytes of run for 24 bit symbols with 7 last used symbols).
+  return inSize + inSize / 64 + (16 + 4 + 1 + 4 + 1 + 64) * 2 + (3 * 4) + 1;
 }
 
 //////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From be1fc1798688cfa657ce1dca4453d7581902b2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:38 +0000
Subject: [PATCH 08/22] fix: inputs larger than the supported maximum are
 refused by every encoder

---
 src/rle128_extreme_cpu.h               | 2 +-
 src/rle24_extreme_cpu.h                | 2 +-
 src/rle24_extreme_cpu_encode.h         | 2 +-
 src/rle48_extreme_cpu.h                | 2 +-
 src/rle48_extreme_cpu_encode.h         | 2 +-
 src/rle8_extreme_cpu.h                 | 4 ++--
 src/rle8_low_entropy_cpu.c             | 9 ++++++---
 src/rle8_low_entropy_short_cpu.c       | 7 +++++--
 src/rle8_mmtf.c                        | 2 +-
 src/rleX_Xsl.h                         | 4 ++--
 src/rleX_Xsl_multibyte_encoder.h       | 2 +-
 src/rleX_Xsl_short.h                   | 6 +++---
 src/rleX_Xsl_short_multibyte_encoder.h | 2 +-
 src/rleX_extreme_cpu.h                 | 2 +-
 src/rleX_extreme_cpu_encode.h          | 2 +-
 src/rle_sh.c                           | 2 +-
 16 files changed, 29 insertions(+), 23 deletions(-)

diff --git a/src/rle128_extreme_cpu.h b/src/rle128_extreme_cpu.h
index b276276..6951a25 100644
--- a/src/rle128_extreme_cpu.h
+++ b/src/rle128_extreme_cpu.h
@@ -31,7 +31,7 @@
 
 uint32_t CONCAT3(rle128_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-	if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+	if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
 		return 0;
 
 	size_t index = 0;
diff --git a/src/rle24_extreme_cpu.h b/src/rle24_extreme_cpu.h
index a453a1b..6e99e45 100644
--- a/src/rle24_extreme_cpu.h
+++ b/src/rle24_extreme_cpu.h
@@ -54,7 +54,7 @@
 
 uint32_t CONCAT3(rle24_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   _DetectCPUFeatures();
diff --git a/src/rle24_extreme_cpu_encode.h b/src/rle24_extreme_cpu_encode.h
index 0c0f04c..ae149a7 100644
--- a/src/rle24_extreme_cpu_encode.h
+++ b/src/rle24_extreme_cpu_encode.h
@@ -17,7 +17,7 @@
 #endif
 uint32_t CONCAT3(rle24_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   size_t index = 0;
diff --git a/src/rle48_extreme_cpu.h b/src/rle48_extreme_cpu.h
index 17d79a2..ad8c6a5 100644
--- a/src/rle48_extreme_cpu.h
+++ b/src/rle48_extreme_cpu.h
@@ -54,7 +54,7 @@
 
 uint32_t CONCAT3(rle48_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   _DetectCPUFeatures();
diff --git a/src/rle48_extreme_cpu_encode.h b/src/rle48_extreme_cpu_encode.h
index 93ac9dc..4403864 100644
--- a/src/rle48_extreme_cpu_encode.h
+++ b/src/rle48_extreme_cpu_encode.h
@@ -17,7 +17,7 @@
 #endif
 uint32_t CONCAT3(rle48_, CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   size_t index = 0;
diff --git a/src/rle8_extreme_cpu.h b/src/rle8_extreme_cpu.h
index 097b5f2..3e32979 100644
--- a/src/rle8_extreme_cpu.h
+++ b/src/rle8_extreme_cpu.h
@@ -85,7 +85,7 @@ static void CONCAT3(rle8, CODEC, decompress_single_avx512f)(IN const uint8_t *pI
 
 uint32_t CONCAT3(rle8, CODEC, multi_compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   rle_extreme_t header;
@@ -345,7 +345,7 @@ uint32_t CONCAT3(rle8, CODEC, multi_compress)(IN const uint8_t *pIn, const uint3
 
 uint32_t CONCAT3(rle8, CODEC, single_compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   rle_extreme_t header;
diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index 288b302..99b6695 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -5,13 +5,16 @@
 
 uint32_t rle8_low_entropy_compress_bounds(const uint32_t inSize)
 {
+  if (inSize > (1 << 30))
+    return 0;
+
   // the last byte never joins the final run, which can cost an additional symbol & count.
   return inSize + 2 + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2;
 }
 
 uint32_t rle8_low_entropy_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle8_low_entropy_compress_bounds(inSize) == 0 || outSize < rle8_low_entropy_compress_bounds(inSize))
     return 0;
 
   rle8_low_entropy_compress_info_t compressInfo;
@@ -52,7 +55,7 @@ uint32_t rle8_low_entropy_compress(IN const uint8_t *pIn, const uint32_t inSize,
 
 uint32_t rle8_low_entropy_compress_only_max_frequency(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle8_low_entropy_compress_bounds(inSize) == 0 || outSize < rle8_low_entropy_compress_bounds(inSize))
     return 0;
 
   rle8_low_entropy_compress_info_t compressInfo;
@@ -129,7 +132,7 @@ uint32_t rle8m_compress_bounds(const uint32_t subSections, const uint32_t inSize
   // every section can split a run and never adds its last byte to a run: up to two additional symbols & counts.
   const uint64_t bounds = (uint64_t)inSize + (256 / 8) + 1 + 256 + sizeof(uint32_t) * (2 + (uint64_t)subSections * 2);
 
-  return bounds > UINT32_MAX ? 0 : (uint32_t)bounds;
+  return inSize > (1 << 30) || bounds > UINT32_MAX ? 0 : (uint32_t)bounds;
 }
 
 uint32_t rle8m_compress(const uint32_t subSections, IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
diff --git a/src/rle8_low_entropy_short_cpu.c b/src/rle8_low_entropy_short_cpu.c
index 82a6ef7..fcd3c3b 100644
--- a/src/rle8_low_entropy_short_cpu.c
+++ b/src/rle8_low_entropy_short_cpu.c
@@ -15,13 +15,16 @@ bool rle8_low_entropy_short_get_compress_info_only_max_frequency(IN const uint8_
 
 uint32_t rle8_low_entropy_short_compress_bounds(const uint32_t inSize)
 {
+  if (inSize > (1 << 30))
+    return 0;
+
   // the last byte never joins the final run, which can cost an additional symbol & count.
   return inSize + 2 + (256 / 8) + 1 + 256 + sizeof(uint32_t) * 2;
 }
 
 uint32_t rle8_low_entropy_short_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle8_low_entropy_compress_bounds(inSize) == 0 || outSize < rle8_low_entropy_compress_bounds(inSize))
     return 0;
 
   rle8_low_entropy_compress_info_t compressInfo;
@@ -62,7 +65,7 @@ uint32_t rle8_low_entropy_short_compress(IN const uint8_t *pIn, const uint32_t i
 
 uint32_t rle8_low_entropy_short_compress_only_max_frequency(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_low_entropy_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle8_low_entropy_compress_bounds(inSize) == 0 || outSize < rle8_low_entropy_compress_bounds(inSize))
     return 0;
 
   rle8_low_entropy_compress_info_t compressInfo;
diff --git a/src/rle8_mmtf.c b/src/rle8_mmtf.c
index a120f00..9ef3b81 100644
--- a/src/rle8_mmtf.c
+++ b/src/rle8_mmtf.c
@@ -152,7 +152,7 @@ inline static uint8_t *bitpack_encode3_simple_sse2_unaligned_m128i(const __m128i
 
 uint32_t rle8_mmtf128_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_mmtf128_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle8_mmtf128_compress_bounds(inSize) == 0 || outSize < rle8_mmtf128_compress_bounds(inSize))
     return 0;
 
   uint32_t *pHeader = (uint32_t *)pOut;
diff --git a/src/rleX_Xsl.h b/src/rleX_Xsl.h
index 217936e..aa7f7ff 100644
--- a/src/rleX_Xsl.h
+++ b/src/rleX_Xsl.h
@@ -268,7 +268,7 @@ bool CONCAT3(CONCAT3(_rle, TYPE_SIZE, _), CODEC, process_symbol)(IN const uint8_
 #if TYPE_SIZE == 8
 uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   ((uint32_t *)pOut)[0] = (uint32_t)inSize;
@@ -507,7 +507,7 @@ static int64_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, compress_avx2)(IN cons
 
 uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   _DetectCPUFeatures();
diff --git a/src/rleX_Xsl_multibyte_encoder.h b/src/rleX_Xsl_multibyte_encoder.h
index 6a52d58..408ac2c 100644
--- a/src/rleX_Xsl_multibyte_encoder.h
+++ b/src/rleX_Xsl_multibyte_encoder.h
@@ -17,7 +17,7 @@ __attribute__((target("avx2")))
 #endif
 uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, FUNC_NAME)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   ((uint32_t *)pOut)[0] = (uint32_t)inSize;
diff --git a/src/rleX_Xsl_short.h b/src/rleX_Xsl_short.h
index 6c478ee..4c1a3d2 100644
--- a/src/rleX_Xsl_short.h
+++ b/src/rleX_Xsl_short.h
@@ -380,7 +380,7 @@ uint8_t rle8_single_compress_get_approx_optimal_symbol_avx2(IN const uint8_t *pI
 
 uint32_t CONCAT3(rle8_, CODEC, compress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   ((uint32_t *)pOut)[0] = (uint32_t)inSize;
@@ -684,7 +684,7 @@ static int64_t CONCAT3(rle8_, CODEC, compress_avx2)(IN const uint8_t *pIn, const
 
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   _DetectCPUFeatures();
@@ -745,7 +745,7 @@ size_t CONCAT3(rleX_Xsl_short_get_match_length, CODEC, TYPE_SIZE)(const uintXX_t
 
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, compress_greedy))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   ((uint32_t *)pOut)[0] = (uint32_t)inSize;
diff --git a/src/rleX_Xsl_short_multibyte_encoder.h b/src/rleX_Xsl_short_multibyte_encoder.h
index f4fd2d4..8081f97 100644
--- a/src/rleX_Xsl_short_multibyte_encoder.h
+++ b/src/rleX_Xsl_short_multibyte_encoder.h
@@ -17,7 +17,7 @@ __attribute__((target("avx2")))
 #endif
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, FUNC_NAME))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   ((uint32_t *)pOut)[0] = (uint32_t)inSize;
diff --git a/src/rleX_extreme_cpu.h b/src/rleX_extreme_cpu.h
index 49b5125..3815a7b 100644
--- a/src/rleX_extreme_cpu.h
+++ b/src/rleX_extreme_cpu.h
@@ -46,7 +46,7 @@
 
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, _compress))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   _DetectCPUFeatures();
diff --git a/src/rleX_extreme_cpu_encode.h b/src/rleX_extreme_cpu_encode.h
index 6fba7b1..13be502 100644
--- a/src/rleX_extreme_cpu_encode.h
+++ b/src/rleX_extreme_cpu_encode.h
@@ -13,7 +13,7 @@ __attribute__((target("avx2")))
 #endif
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, ENCODE_FUNC_NAME))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle_compress_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle_compress_bounds(inSize) == 0 || outSize < rle_compress_bounds(inSize))
     return 0;
 
   size_t index = 0;
diff --git a/src/rle_sh.c b/src/rle_sh.c
index 7bd675d..35029b8 100644
--- a/src/rle_sh.c
+++ b/src/rle_sh.c
@@ -272,7 +272,7 @@ inline void rle8_sh_copy(IN const uint8_t *pBlockStart, OUT uint8_t **ppOut, con
 
 uint32_t rle8_sh_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || inSize == 0 || pOut == NULL || outSize < rle8_sh_bounds(inSize))
+  if (pIn == NULL || inSize == 0 || pOut == NULL || rle8_sh_bounds(inSize) == 0 || outSize < rle8_sh_bounds(inSize))
     return 0;
 
   uint32_t *pFileHeader = (uint32_t *)pOut;
-- 
2.43.0


From b93bf30abfb03e585367a4607572148da167072a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:38 +0000
Subject: [PATCH 09/22] fix: decoders refuse inputs shorter than their header

---
 src/rle128_extreme_cpu.h         | 2 +-
 src/rle24_extreme_cpu.h          | 2 +-
 src/rle48_extreme_cpu.h          | 2 +-
 src/rle8_extreme_cpu.h           | 2 +-
 src/rle8_low_entropy_cpu.c       | 4 ++--
 src/rle8_low_entropy_short_cpu.c | 2 +-
 src/rle8_mmtf.c                  | 2 +-
 src/rleX_Xsl.h                   | 2 +-
 src/rleX_Xsl_short.h             | 2 +-
 src/rleX_extreme_cpu.h           | 2 +-
 src/rle_sh.c                     | 2 +-
 11 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/rle128_extreme_cpu.h b/src/rle128_extreme_cpu.h
index 6951a25..e0568bd 100644
--- a/src/rle128_extreme_cpu.h
+++ b/src/rle128_extreme_cpu.h
@@ -778,7 +778,7 @@ static void CONCAT3(rle128_, CODEC, _decompress_avx512f)(IN const uint8_t *pInSt
 
 uint32_t CONCAT3(rle128_, CODEC, _decompress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-	if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+	if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
 		return 0;
 
 	const size_t expectedInSize = ((uint32_t *)pIn)[1];
diff --git a/src/rle24_extreme_cpu.h b/src/rle24_extreme_cpu.h
index 6e99e45..f02d2f3 100644
--- a/src/rle24_extreme_cpu.h
+++ b/src/rle24_extreme_cpu.h
@@ -83,7 +83,7 @@ uint32_t CONCAT3(rle24_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_t
 
 uint32_t CONCAT3(rle24_, CODEC, _decompress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[1];
diff --git a/src/rle48_extreme_cpu.h b/src/rle48_extreme_cpu.h
index ad8c6a5..1e0bdf4 100644
--- a/src/rle48_extreme_cpu.h
+++ b/src/rle48_extreme_cpu.h
@@ -83,7 +83,7 @@ uint32_t CONCAT3(rle48_, CODEC, _compress)(IN const uint8_t *pIn, const uint32_t
 
 uint32_t CONCAT3(rle48_, CODEC, _decompress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[1];
diff --git a/src/rle8_extreme_cpu.h b/src/rle8_extreme_cpu.h
index 3e32979..9405983 100644
--- a/src/rle8_extreme_cpu.h
+++ b/src/rle8_extreme_cpu.h
@@ -701,7 +701,7 @@ uint32_t CONCAT3(rle8, CODEC, single_compress)(IN const uint8_t *pIn, const uint
 
 uint32_t CONCAT3(rle8, CODEC, decompress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((rle_extreme_t *)pIn)->compressedLength;
diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index 99b6695..e1fd5e0 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -104,7 +104,7 @@ uint32_t rle8_low_entropy_decompressed_size(IN const uint8_t *pIn, const uint32_
 
 uint32_t rle8_low_entropy_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[0];
@@ -204,7 +204,7 @@ uint32_t rle8m_compress(const uint32_t subSections, IN const uint8_t *pIn, const
 
 uint32_t rle8m_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 3 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[0];
diff --git a/src/rle8_low_entropy_short_cpu.c b/src/rle8_low_entropy_short_cpu.c
index fcd3c3b..9487347 100644
--- a/src/rle8_low_entropy_short_cpu.c
+++ b/src/rle8_low_entropy_short_cpu.c
@@ -106,7 +106,7 @@ uint32_t rle8_low_entropy_short_compress_only_max_frequency(IN const uint8_t *pI
 
 uint32_t rle8_low_entropy_short_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[0];
diff --git a/src/rle8_mmtf.c b/src/rle8_mmtf.c
index 9ef3b81..13c1af8 100644
--- a/src/rle8_mmtf.c
+++ b/src/rle8_mmtf.c
@@ -648,7 +648,7 @@ uint32_t rle8_mmtf128_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT
 
 uint32_t rle8_mmtf128_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedOutSize = ((uint32_t *)pIn)[0];
diff --git a/src/rleX_Xsl.h b/src/rleX_Xsl.h
index aa7f7ff..798127c 100644
--- a/src/rleX_Xsl.h
+++ b/src/rleX_Xsl.h
@@ -1847,7 +1847,7 @@ static void CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, decompress_avx512f)(IN co
 
 uint32_t CONCAT3(CONCAT3(rle, TYPE_SIZE, _), CODEC, decompress)(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[1];
diff --git a/src/rleX_Xsl_short.h b/src/rleX_Xsl_short.h
index 4c1a3d2..33be79d 100644
--- a/src/rleX_Xsl_short.h
+++ b/src/rleX_Xsl_short.h
@@ -2607,7 +2607,7 @@ uint32_t CONCAT3(rle8_, CODEC, decompress)(IN const uint8_t *pIn, const uint32_t
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, decompress))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 #endif
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[1];
diff --git a/src/rleX_extreme_cpu.h b/src/rleX_extreme_cpu.h
index 3815a7b..f348181 100644
--- a/src/rleX_extreme_cpu.h
+++ b/src/rleX_extreme_cpu.h
@@ -81,7 +81,7 @@ uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, _compress))(IN const uint8_t
 
 uint32_t CONCAT3(rle, TYPE_SIZE, CONCAT3(_, CODEC, _decompress))(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const size_t expectedInSize = ((uint32_t *)pIn)[1];
diff --git a/src/rle_sh.c b/src/rle_sh.c
index 35029b8..8100b98 100644
--- a/src/rle_sh.c
+++ b/src/rle_sh.c
@@ -512,7 +512,7 @@ uint32_t rle8_sh_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint
 
 uint32_t rle8_sh_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (pIn == NULL || pOut == NULL || inSize == 0 || outSize == 0)
+  if (pIn == NULL || pOut == NULL || inSize < sizeof(uint32_t) * 2 || outSize == 0)
     return 0;
 
   const uint32_t expectedOutSize = ((uint32_t *)pIn)[0];
-- 
2.43.0


From 69846dc2bbe4a6ccd2d370703f07fde702ba487d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:44 +0000
Subject: [PATCH 10/22] fix: AVX2 and AVX-512 are only used when the OS enables
 their registers

---
 src/simd_platform.c | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/simd_platform.c b/src/simd_platform.c
index eef735e..007cbd9 100644
--- a/src/simd_platform.c
+++ b/src/simd_platform.c
@@ -61,6 +61,10 @@ void _DetectCPUFeatures()
   cpuid(info, 0);
   int32_t idCount = info[0];
 
+  // The OS has to save & restore the wider registers (XCR0: XMM & YMM; opmask & ZMM), otherwise the instructions using them fault.
+  bool osSupportsAVX = false;
+  bool osSupportsAVX512 = false;
+
   if (idCount >= 0x1)
   {
     int32_t cpuInfo[4];
@@ -72,7 +76,9 @@ void _DetectCPUFeatures()
     if (osUsesXSAVE_XRSTORE && cpuAVXSuport)
     {
       uint64_t xcrFeatureMask = _xgetbv(_XCR_XFEATURE_ENABLED_MASK);
-      avxSupported = (xcrFeatureMask & 0x6) != 0;
+      osSupportsAVX = (xcrFeatureMask & 0x6) == 0x6;
+      osSupportsAVX512 = (xcrFeatureMask & 0xE6) == 0xE6;
+      avxSupported = osSupportsAVX;
     }
 
     sseSupported = (cpuInfo[3] & (1 << 25)) != 0;
@@ -81,7 +87,7 @@ void _DetectCPUFeatures()
     ssse3Supported = (cpuInfo[2] & (1 << 9)) != 0;
     sse41Supported = (cpuInfo[2] & (1 << 19)) != 0;
     sse42Supported = (cpuInfo[2] & (1 << 20)) != 0;
-    fma3Supported = (cpuInfo[2] & (1 << 12)) != 0;
+    fma3Supported = osSupportsAVX && (cpuInfo[2] & (1 << 12)) != 0;
     aesNiSupported = (cpuInfo[2] & (1 << 25)) != 0;
   }
 
@@ -90,22 +96,22 @@ void _DetectCPUFeatures()
     int32_t cpuInfo[4];
     cpuid(cpuInfo, 7);
 
-    avx2Supported = (cpuInfo[1] & (1 << 5)) != 0;
-    avx512FSupported = (cpuInfo[1] & 1 << 16) != 0;
-    avx512PFSupported = (cpuInfo[1] & 1 << 26) != 0;
-    avx512ERSupported = (cpuInfo[1] & 1 << 27) != 0;
-    avx512CDSupported = (cpuInfo[1] & 1 << 28) != 0;
-    avx512BWSupported = (cpuInfo[1] & 1 << 30) != 0;
-    avx512DQSupported = (cpuInfo[1] & 1 << 17) != 0;
-    avx512VLSupported = (cpuInfo[1] & 1 << 31) != 0;
-    avx512IFMASupported = (cpuInfo[1] & 1 << 21) != 0;
-    avx512VBMISupported = (cpuInfo[2] & 1 << 1) != 0;
-    avx512VNNISupported = (cpuInfo[2] & 1 << 11) != 0;
-    avx512VBMI2Supported = (cpuInfo[2] & 1 << 6) != 0;
-    avx512POPCNTDQSupported = (cpuInfo[2] & 1 << 14) != 0;
-    avx512BITALGSupported = (cpuInfo[2] & 1 << 12) != 0;
-    avx5124VNNIWSupported = (cpuInfo[3] & 1 << 2) != 0;
-    avx5124FMAPSSupported = (cpuInfo[3] & 1 << 3) != 0;
+    avx2Supported = osSupportsAVX && (cpuInfo[1] & (1 << 5)) != 0;
+    avx512FSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 16) != 0;
+    avx512PFSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 26) != 0;
+    avx512ERSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 27) != 0;
+    avx512CDSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 28) != 0;
+    avx512BWSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 30) != 0;
+    avx512DQSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 17) != 0;
+    avx512VLSupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 31) != 0;
+    avx512IFMASupported = osSupportsAVX512 && (cpuInfo[1] & 1 << 21) != 0;
+    avx512VBMISupported = osSupportsAVX512 && (cpuInfo[2] & 1 << 1) != 0;
+    avx512VNNISupported = osSupportsAVX512 && (cpuInfo[2] & 1 << 11) != 0;
+    avx512VBMI2Supported = osSupportsAVX512 && (cpuInfo[2] & 1 << 6) != 0;
+    avx512POPCNTDQSupported = osSupportsAVX512 && (cpuInfo[2] & 1 << 14) != 0;
+    avx512BITALGSupported = osSupportsAVX512 && (cpuInfo[2] & 1 << 12) != 0;
+    avx5124VNNIWSupported = osSupportsAVX512 && (cpuInfo[3] & 1 << 2) != 0;
+    avx5124FMAPSSupported = osSupportsAVX512 && (cpuInfo[3] & 1 << 3) != 0;
   }
 
   _CpuFeaturesDetected = true;
-- 
2.43.0


From 0e4a399b03a75a855498afca22306834c0c952c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:52 +0000
Subject: [PATCH 11/22] fix: mmtf128 and mmtf256 transforms refuse missing
 buffers like bitmmtf does

---
 src/mmtf.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mmtf.c b/src/mmtf.c
index a29bd7d..b86bdf8 100644
--- a/src/mmtf.c
+++ b/src/mmtf.c
@@ -34,7 +34,7 @@ uint32_t mmtf_bounds(const uint32_t inSize)
 
 uint32_t mmtf128_encode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (inSize > outSize)
+  if (pIn == NULL || pOut == NULL || inSize > outSize)
     return 0;
 
   _DetectCPUFeatures();
@@ -50,7 +50,7 @@ uint32_t mmtf128_encode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_
 
 uint32_t mmtf128_decode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (inSize > outSize)
+  if (pIn == NULL || pOut == NULL || inSize > outSize)
     return 0;
 
   _DetectCPUFeatures();
@@ -68,7 +68,7 @@ uint32_t mmtf128_decode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_
 
 uint32_t mmtf256_encode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (inSize > outSize)
+  if (pIn == NULL || pOut == NULL || inSize > outSize)
     return 0;
 
   _DetectCPUFeatures();
@@ -87,7 +87,7 @@ uint32_t mmtf256_encode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_
 
 uint32_t mmtf256_decode(IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
-  if (inSize > outSize)
+  if (pIn == NULL || pOut == NULL || inSize > outSize)
     return 0;
 
   _DetectCPUFeatures();
-- 
2.43.0


From c5f6e9a0027e728c337919b0fee94385494c1f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:43 +0000
Subject: [PATCH 12/22] fix: rle8m no longer refuses inputs whose first
 sections expand

A symbol that is worth run-length coding in the input as a whole can still cost
more than it saves in a single section; the bounds cover the sum of all sections,
but each section was required to fit in whatever its predecessors had left.
---
 src/rle8_low_entropy_cpu.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index e1fd5e0..7864a6f 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -135,6 +135,8 @@ uint32_t rle8m_compress_bounds(const uint32_t subSections, const uint32_t inSize
   return inSize > (1 << 30) || bounds > UINT32_MAX ? 0 : (uint32_t)bounds;
 }
 
+static uint32_t rle8_low_entropy_compress_section(IN const uint8_t *pIn, const uint32_t inSize, IN const rle8_low_entropy_compress_info_t *pCompressInfo, OUT uint8_t *pOut);
+
 uint32_t rle8m_compress(const uint32_t subSections, IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
   if (pIn == NULL || inSize == 0 || pOut == NULL || subSections == 0 || subSections > inSize)
@@ -173,9 +175,10 @@ uint32_t rle8m_compress(const uint32_t subSections, IN const uint8_t *pIn, const
 
   const uint32_t subSectionSize = inSize / subSections;
 
+  // the bounds hold for all sections together, individual sections can take more than their input size.
   for (uint32_t i = 0; i < subSections - 1; i++)
   {
-    const uint32_t size = rle8_low_entropy_compress_with_info(pIn + subSectionSize * i, subSectionSize, &compressInfo, pOut + index, (uint32_t)(outSize - index));
+    const uint32_t size = rle8_low_entropy_compress_section(pIn + subSectionSize * i, subSectionSize, &compressInfo, pOut + index);
 
     if (size == 0)
       return 0;
@@ -189,7 +192,7 @@ uint32_t rle8m_compress(const uint32_t subSections, IN const uint8_t *pIn, const
 
   // Compress last block.
   {
-    const uint32_t size = rle8_low_entropy_compress_with_info(pIn + subSectionSize * (subSections - 1), (uint32_t)remainingSize, &compressInfo, pOut + index, (uint32_t)(outSize - index));
+    const uint32_t size = rle8_low_entropy_compress_section(pIn + subSectionSize * (subSections - 1), (uint32_t)remainingSize, &compressInfo, pOut + index);
 
     if (size == 0)
       return 0;
@@ -483,11 +486,8 @@ uint32_t rle8_low_entropy_write_compress_info(IN rle8_low_entropy_compress_info_
   return index;
 }
 
-uint32_t rle8_low_entropy_compress_with_info(IN const uint8_t *pIn, const uint32_t inSize, IN const rle8_low_entropy_compress_info_t *pCompressInfo, OUT uint8_t *pOut, const uint32_t outSize)
+static uint32_t rle8_low_entropy_compress_section(IN const uint8_t *pIn, const uint32_t inSize, IN const rle8_low_entropy_compress_info_t *pCompressInfo, OUT uint8_t *pOut)
 {
-  if (pIn == NULL || inSize == 0 || pCompressInfo == NULL || pOut == NULL || outSize < inSize)
-    return 0;
-
   size_t index = 0;
   size_t i = 0;
   size_t target_ = (inSize - 256);
@@ -554,6 +554,14 @@ uint32_t rle8_low_entropy_compress_with_info(IN const uint8_t *pIn, const uint32
   return (uint32_t)index;
 }
 
+uint32_t rle8_low_entropy_compress_with_info(IN const uint8_t *pIn, const uint32_t inSize, IN const rle8_low_entropy_compress_info_t *pCompressInfo, OUT uint8_t *pOut, const uint32_t outSize)
+{
+  if (pIn == NULL || inSize == 0 || pCompressInfo == NULL || pOut == NULL || outSize < inSize)
+    return 0;
+
+  return rle8_low_entropy_compress_section(pIn, inSize, pCompressInfo, pOut);
+}
+
 uint32_t rle8_low_entropy_read_decompress_info(IN const uint8_t *pIn, const uint32_t inSize, OUT rle8_low_entropy_decompress_info_t *pDecompressInfo)
 {
   if (pIn == NULL || pDecompressInfo == NULL || inSize == 0)
-- 
2.43.0


From 0671938737f3a7a392991bc8e1c2164052ecda76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:19 +0000
Subject: [PATCH 13/22] fix: rle8_sh encodes a run of a new symbol at the end
 of the input as a run

The change of the run symbol was only written when another symbol followed, so
an input ending in (or consisting of) such a run stored it uncompressed.
---
 src/rle_sh.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/rle_sh.c b/src/rle_sh.c
index 8100b98..df0889f 100644
--- a/src/rle_sh.c
+++ b/src/rle_sh.c
@@ -461,7 +461,23 @@ uint32_t rle8_sh_compress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint
       rleCount = 0;
     }
 
+    // Does the input end with a run of a different symbol?
+    const bool changeRleSymbol = rleChangeCount >= SH_MIN_CHANGE_SYMBOL_BYTES;
+
+    if (changeRleSymbol)
+      copyCount -= rleChangeCount;
+
     rle8_sh_copy(pBlockStart, &pOut, copyCount, &header, lastRleSymbol, &secondMostImportant, &thirdMostImportant, &lastOccuredSymbol);
+
+    if (changeRleSymbol)
+    {
+      rle8_sh_write_bits(&header, SH_RLE_LARGE_BLOCK_PATTERN, SH_RLE_LARGE_BLOCK_BITS);
+      *(uint32_t *)pOut = (uint32_t)(rleChangeCount - SH_MIN_RLE_BLOCK_BYTES);
+      rle8_write_to_hist0(rleChangeCount);
+      pOut += sizeof(uint32_t);
+      *pOut = lastSymbol;
+      pOut++;
+    }
   }
   else
   {
-- 
2.43.0


From 6fd9d621e072706a164d3951b7ae7ea4b8ce08e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:16 +0000
Subject: [PATCH 14/22] fix: low entropy compress_with_info never writes beyond
 the output buffer

---
 src/rle8_low_entropy_cpu.c       | 16 +++++++++++-----
 src/rle8_low_entropy_short_cpu.c |  6 ++++++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index 7864a6f..5002164 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -135,7 +135,7 @@ uint32_t rle8m_compress_bounds(const uint32_t subSections, const uint32_t inSize
   return inSize > (1 << 30) || bounds > UINT32_MAX ? 0 : (uint32_t)bounds;
 }
 
-static uint32_t rle8_low_entropy_compress_section(IN const uint8_t *pIn, const uint32_t inSize, IN const rle8_low_entropy_compress_info_t *pCompressInfo, OUT uint8_t *pOut);
+static uint32_t rle8_low_entropy_compress_section(IN const uint8_t *pIn, const uint32_t inSize, IN const rle8_low_entropy_compress_info_t *pCompressInfo, OUT uint8_t *pOut, const size_t outSize);
 
 uint32_t rle8m_compress(const uint32_t subSections, IN const uint8_t *pIn, const uint32_t inSize, OUT uint8_t *pOut, const uint32_t outSize)
 {
@@ -178,7 +178,7 @@ uint32_t rle8m_compress(const uint32_t subSections, IN const uint8_t *pIn, const
   // the bounds hold for all sections together, individual sections can take more than their input size.
   for (uint32_t i = 0; i < subSections - 1; i++)
   {
-    const uint32_t size = rle8_low_entropy_compress_section(pIn + subSectionSize * i, subSectionSize, &compressInfo, pOut + index);
+    const uint32_t size = rle8_low_entropy_compress_section(pIn + subSectionSize * i, subSectionSize, &compressInfo, pOut + index, outSize - index);
 
     if (size == 0)
       return 0;
@@ -192,7 +192,7 @@ uint32_t rle8m_compress(const uint32_t subSections, IN const uint8_t *pIn, const
 
   // Compress last block.
   {
-    const uint32_t size = rle8_low_entropy_compress_section(pIn + subSectionSize * (subSections - 1), (uint32_t)remainingSize, &compressInfo, pOut + index);
+    const uint32_t size = rle8_low_entropy_compress_section(pIn + subSectionSize * (subSections - 1), (uint32_t)remainingSize, &compressInfo, pOut + index, outSize - index);
 
     if (size == 0)
       return 0;
@@ -486,7 +486,7 @@ uint32_t rle8_low_entropy_write_compress_info(IN rle8_low_entropy_compress_info_
   return index;
 }
 
-static uint32_t rle8_low_entropy_compress_section(IN const uint8_t *pIn, const uint32_t inSize, IN const rle8_low_entropy_compress_info_t *pCompressInfo, OUT uint8_t *pOut)
+static uint32_t rle8_low_entropy_compress_section(IN const uint8_t *pIn, const uint32_t inSize, IN const rle8_low_entropy_compress_info_t *pCompressInfo, OUT uint8_t *pOut, const size_t outSize)
 {
   size_t index = 0;
   size_t i = 0;
@@ -501,6 +501,9 @@ static uint32_t rle8_low_entropy_compress_section(IN const uint8_t *pIn, const u
   {
     const uint8_t b = pIn[i];
 
+    if (outSize - index < (size_t)1 + pCompressInfo->rle[b]) // an arbitrary symbol table can take up to twice the size of the input.
+      return 0;
+
     pOut[index] = b;
     index++;
 
@@ -528,6 +531,9 @@ static uint32_t rle8_low_entropy_compress_section(IN const uint8_t *pIn, const u
   {
     const uint8_t b = pIn[i];
 
+    if (outSize - index < (size_t)1 + pCompressInfo->rle[b]) // an arbitrary symbol table can take up to twice the size of the input.
+      return 0;
+
     pOut[index] = b;
     index++;
 
@@ -559,7 +565,7 @@ uint32_t rle8_low_entropy_compress_with_info(IN const uint8_t *pIn, const uint32
   if (pIn == NULL || inSize == 0 || pCompressInfo == NULL || pOut == NULL || outSize < inSize)
     return 0;
 
-  return rle8_low_entropy_compress_section(pIn, inSize, pCompressInfo, pOut);
+  return rle8_low_entropy_compress_section(pIn, inSize, pCompressInfo, pOut, outSize);
 }
 
 uint32_t rle8_low_entropy_read_decompress_info(IN const uint8_t *pIn, const uint32_t inSize, OUT rle8_low_entropy_decompress_info_t *pDecompressInfo)
diff --git a/src/rle8_low_entropy_short_cpu.c b/src/rle8_low_entropy_short_cpu.c
index 9487347..6c31077 100644
--- a/src/rle8_low_entropy_short_cpu.c
+++ b/src/rle8_low_entropy_short_cpu.c
@@ -147,6 +147,9 @@ uint32_t rle8_low_entropy_short_compress_with_info(IN const uint8_t *pIn, const
   {
     const uint8_t b = pIn[i];
 
+    if (outSize - index < (size_t)1 + pCompressInfo->rle[b]) // an arbitrary symbol table can take up to twice the size of the input.
+      return 0;
+
     pOut[index] = b;
     index++;
 
@@ -174,6 +177,9 @@ uint32_t rle8_low_entropy_short_compress_with_info(IN const uint8_t *pIn, const
   {
     const uint8_t b = pIn[i];
 
+    if (outSize - index < (size_t)1 + pCompressInfo->rle[b]) // an arbitrary symbol table can take up to twice the size of the input.
+      return 0;
+
     pOut[index] = b;
     index++;
 
-- 
2.43.0


From a829cd1026a7722eab84fd0a8037ce1575fe73f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:16 +0000
Subject: [PATCH 15/22] fix: low entropy decoders refuse streams that end
 inside their tables

---
 src/rle8_low_entropy_cpu.c       | 24 ++++++++++++++++++++----
 src/rle8_low_entropy_short_cpu.c |  7 ++++++-
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index 5002164..c50d704 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -117,7 +117,12 @@ uint32_t rle8_low_entropy_decompress(IN const uint8_t *pIn, const uint32_t inSiz
   
   rle8_low_entropy_decompress_info_t decompressInfo;
 
-  index += rle8_low_entropy_read_decompress_info(&pIn[index], inSize, &decompressInfo);
+  const uint32_t infoSize = rle8_low_entropy_read_decompress_info(&pIn[index], inSize - (uint32_t)index, &decompressInfo);
+
+  if (infoSize == 0)
+    return 0;
+
+  index += infoSize;
 
   const uint8_t *pEnd = pIn + expectedInSize;
   pIn += index;
@@ -221,7 +226,7 @@ uint32_t rle8m_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint
   const uint32_t subSections = *((uint32_t *)(&pIn[index]));
   index += sizeof(uint32_t);
 
-  if (subSections == 0)
+  if (subSections == 0 || (subSections - 1) > (inSize - index) / sizeof(uint32_t))
     return 0;
 
   const size_t subSectionIndex = index;
@@ -229,7 +234,12 @@ uint32_t rle8m_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint
 
   rle8_low_entropy_decompress_info_t decompressInfo;
 
-  index += rle8_low_entropy_read_decompress_info(&pIn[index], inSize, &decompressInfo);
+  const uint32_t infoSize = rle8_low_entropy_read_decompress_info(&pIn[index], inSize - (uint32_t)index, &decompressInfo);
+
+  if (infoSize == 0)
+    return 0;
+
+  index += infoSize;
 
   const uint32_t subSectionSize = (uint32_t)(expectedOutSize / subSections);
 
@@ -240,6 +250,9 @@ uint32_t rle8m_decompress(IN const uint8_t *pIn, const uint32_t inSize, OUT uint
     const uint32_t sectionCompressedOffset = ((uint32_t *)(&pIn[subSectionIndex]))[i];
     const uint8_t *pEnd = pIn + sectionCompressedOffset;
 
+    if (sectionCompressedOffset > expectedInSize)
+      return 0;
+
     const uint32_t size = rle8_low_entropy_decompress_with_info(pCIn, pEnd, &decompressInfo, pOut, subSectionSize);
 
     if (size != subSectionSize)
@@ -570,7 +583,7 @@ uint32_t rle8_low_entropy_compress_with_info(IN const uint8_t *pIn, const uint32
 
 uint32_t rle8_low_entropy_read_decompress_info(IN const uint8_t *pIn, const uint32_t inSize, OUT rle8_low_entropy_decompress_info_t *pDecompressInfo)
 {
-  if (pIn == NULL || pDecompressInfo == NULL || inSize == 0)
+  if (pIn == NULL || pDecompressInfo == NULL || inSize < 256 / 8 + 1)
     return 0;
 
   size_t index = 0;
@@ -602,6 +615,9 @@ uint32_t rle8_low_entropy_read_decompress_info(IN const uint8_t *pIn, const uint
     if (!symbolsWithProb)
       symbolsWithProb = 255;
 
+    if (inSize - index < symbolsWithProb)
+      return 0;
+
     for (uint8_t i = 0; i < symbolsWithProb; i++)
     {
       symbolsByProb[i] = pIn[index];
diff --git a/src/rle8_low_entropy_short_cpu.c b/src/rle8_low_entropy_short_cpu.c
index 6c31077..b634235 100644
--- a/src/rle8_low_entropy_short_cpu.c
+++ b/src/rle8_low_entropy_short_cpu.c
@@ -119,7 +119,12 @@ uint32_t rle8_low_entropy_short_decompress(IN const uint8_t *pIn, const uint32_t
 
   rle8_low_entropy_decompress_info_t decompressInfo;
 
-  index += rle8_low_entropy_read_decompress_info(&pIn[index], inSize, &decompressInfo);
+  const uint32_t infoSize = rle8_low_entropy_read_decompress_info(&pIn[index], inSize - (uint32_t)index, &decompressInfo);
+
+  if (infoSize == 0)
+    return 0;
+
+  index += infoSize;
 
   const uint8_t *pEnd = pIn + expectedInSize;
   pIn += index;
-- 
2.43.0


From 4be0f80c96e6d2ae000c92298eaf034d3e123545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:15:16 +0000
Subject: [PATCH 16/22] fix: low entropy decompress_with_info refuses missing
 buffers

---
 src/rle8_low_entropy_cpu.c       | 3 +++
 src/rle8_low_entropy_short_cpu.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/rle8_low_entropy_cpu.c b/src/rle8_low_entropy_cpu.c
index c50d704..d16d5e3 100644
--- a/src/rle8_low_entropy_cpu.c
+++ b/src/rle8_low_entropy_cpu.c
@@ -971,6 +971,9 @@ const uint8_t * rle8_low_entropy_decompress_multi_avx(IN const uint8_t *pIn, IN
 
 uint32_t rle8_low_entropy_decompress_with_info(IN const uint8_t *pIn, IN const uint8_t *pEnd, IN const rle8_low_entropy_decompress_info_t *pDecompressInfo, OUT uint8_t *pOut, const uint32_t expectedOutSize)
 {
+  if (pIn == NULL || pEnd == NULL || pDecompressInfo == NULL || pOut == NULL)
+    return 0;
+
   bool rle[256];
   uint8_t symbolToCount[256];
 
diff --git a/src/rle8_low_entropy_short_cpu.c b/src/rle8_low_entropy_short_cpu.c
index b634235..e89025f 100644
--- a/src/rle8_low_entropy_short_cpu.c
+++ b/src/rle8_low_entropy_short_cpu.c
@@ -454,6 +454,9 @@ void _DetectCPUFeatures();
 
 uint32_t rle8_low_entropy_short_decompress_with_info(IN const uint8_t *pIn, IN const uint8_t *pEnd, IN const rle8_low_entropy_decompress_info_t *pDecompressInfo, OUT uint8_t *pOut, const uint32_t expectedOutSize)
 {
+  if (pIn == NULL || pEnd == NULL || pDecompressInfo == NULL || pOut == NULL)
+    return 0;
+
   bool rle[256];
   uint8_t symbolToCount[256];
 
-- 
2.43.0


From 73426d477f8859356e3fa61c95408484e7f13d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 17/22] fix: fuzzer comparison only looked at the topmost bit
 of each byte

MemoryEquals collected the differences of both buffers and then tested them
with _mm256_movemask_epi8, which only returns the most significant bit of each
byte. Apart from the last bytes of a buffer, a wrong value in any of the lower
seven bits went unnoticed. Test all bits.
---
 src/rle_fuzz.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rle_fuzz.c b/src/rle_fuzz.c
index d786f95..3a80a01 100644
--- a/src/rle_fuzz.c
+++ b/src/rle_fuzz.c
@@ -481,7 +481,7 @@ bool MemoryEquals(const uint8_t *pBufferA, const uint8_t *pBufferB, const size_t
       for (; offset < endInSimd; offset += sizeof(__m256i))
         cmp[0] = _mm256_or_si256(cmp[0], _mm256_xor_si256(_mm256_load_si256((__m256i *)(pBufferA + offset)), _mm256_load_si256((__m256i *)(pBufferB + offset))));
 
-      if (_mm256_movemask_epi8(cmp[0]) != 0)
+      if (!_mm256_testz_si256(cmp[0], cmp[0]))
         return false;
     }
     else
@@ -507,7 +507,7 @@ bool MemoryEquals(const uint8_t *pBufferA, const uint8_t *pBufferB, const size_t
       for (; offset < endInSimd; offset += sizeof(__m256i))
         cmp[0] = _mm256_or_si256(cmp[0], _mm256_xor_si256(_mm256_loadu_si256((__m256i *)(pBufferA + offset)), _mm256_loadu_si256((__m256i *)(pBufferB + offset))));
 
-      if (_mm256_movemask_epi8(cmp[0]) != 0)
+      if (!_mm256_testz_si256(cmp[0], cmp[0]))
         return false;
     }
   }
-- 
2.43.0


From 0de27921fb504e482506154bd40ef06493295b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 18/22] fix: test runs accepted the output of the previous
 codec and wrong sizes

Before decompressing, the buffer was meant to be cleared, but decompressedSize
is still zero at that point, so nothing was cleared and a codec that wrote only
part of its output (or nothing) was validated against what the codec before it
had left there. The returned size was never compared with the file size.
---
 src/main.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 89de070..da4044c 100644
--- a/src/main.c
+++ b/src/main.c
@@ -944,7 +944,9 @@ int main(int argc, char **pArgv)
         for (size_t i = compressedSize; i < compressedBufferSize; i++)
           pCompressedData[i] = ~pCompressedData[i];
 
-        memset(pDecompressedData, 0, decompressedSize);
+        // Leftovers of the previous codec mustn't be mistaken for the output of this one.
+        for (size_t i = 0; i < fileSize; i++)
+          pDecompressedData[i] = ~pUncompressedData[i];
       }
 
       if (noDelays)
@@ -1068,6 +1070,14 @@ int main(int argc, char **pArgv)
 
       puts("");
 
+      if (decompressedSize != fileSize32)
+      {
+        puts("Decompressed to incorrect size.");
+
+        if (isTestRun)
+          return -1;
+      }
+
       if (!Validate(pUncompressedData, pDecompressedData, fileSize))
       {
         if (isTestRun)
-- 
2.43.0


From bab1fcc63de6eb7bbcf44f6f6d61ced51e9e1fc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:18 +0000
Subject: [PATCH 19/22] fix: an input file that can't be read was reported as
 success

hsrlekit exited with 0 when the file could not be opened, was empty, or the
memory for it could not be allocated, even for test runs.
---
 src/main.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index da4044c..ffae65f 100644
--- a/src/main.c
+++ b/src/main.c
@@ -697,6 +697,7 @@ int main(int argc, char **pArgv)
   uint8_t *pCompressedData = NULL;
 
   FILE *pFile = NULL;
+  int returnValue = 1;
 
   if (!fuzzing)
   {
@@ -1088,6 +1089,7 @@ int main(int argc, char **pArgv)
 
   //////////////////////////////////////////////////////////////////////////
 
+  returnValue = 0;
   goto epilogue;
 
 epilogue:
@@ -1098,7 +1100,7 @@ epilogue:
   ALIGNED_FREE(pDecompressedData);
   ALIGNED_FREE(pCompressedData);
 
-  return 0;
+  return returnValue;
 }
 
 //////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From f7b065703047993eded29712814b71fc222636fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:49 +0000
Subject: [PATCH 20/22] fix: --analyze does not compare symbols beyond the end
 of the file

The last symbols of the file were compared with up to 15 bytes beyond the
buffer, so the report depended on whatever was there.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index ffae65f..729de15 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1304,7 +1304,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
       if (i < j)
         continue;
 
-      const bool match = memcmp(pData + i, pData + i - j, j) == 0;
+      const bool match = i + j <= size && memcmp(pData + i, pData + i - j, j) == 0;
 
       rle_data_t *pRLE = &byRLE[j - 1];
 
-- 
2.43.0


From 5c02056d345c9dec3e75453c6eae793018c66dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:49 +0000
Subject: [PATCH 21/22] fix: --analyze counts lengths by their own number of
 bits

63 - __builtin_clz(x) is 32 too large: every length was listed 32 rows too
far down, and the table of copy length against run length had everything in
its last cell. A run without a preceding copy passed 0, which has no bits to
count.
---
 src/main.c | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/main.c b/src/main.c
index 729de15..9c69901 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1338,7 +1338,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
             unsigned long index;
             _BitScanReverse64(&index, pRLE->currentNonLength);
 #else
-            const uint32_t index = 63 - __builtin_clz(pRLE->currentNonLength);
+            const uint32_t index = 63 - __builtin_clzll(pRLE->currentNonLength);
 #endif
 
             pRLE->emptyLengthByBits[index]++;
@@ -1368,7 +1368,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
           unsigned long index;
           _BitScanReverse64(&index, pRLE->currentLength);
 #else
-          const uint32_t index = 63 - __builtin_clz(pRLE->currentLength);
+          const uint32_t index = 63 - __builtin_clzll(pRLE->currentLength);
 #endif
 
           pRLE->rleLengthByBits[index]++;
@@ -1381,9 +1381,9 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
 
 #ifdef _MSC_VER
           unsigned long lastNonLengthBits;
-          _BitScanReverse64(&lastNonLengthBits, pRLE->lastNonLength);
+          _BitScanReverse64(&lastNonLengthBits, pRLE->lastNonLength | 1);
 #else
-          const uint32_t lastNonLengthBits = 63 - __builtin_clz(pRLE->lastNonLength);
+          const uint32_t lastNonLengthBits = 63 - __builtin_clzll(pRLE->lastNonLength | 1);
 #endif
 
           pRLE->copyBitsVsRleLengthBits[(max((int64_t)0, min((int64_t)lastNonLengthBits - 1, (int64_t)15))) * 16 + (max((int64_t)0, min((int64_t)index - 1, (int64_t)15)))]++;
@@ -1429,7 +1429,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
               unsigned long index;
               _BitScanReverse64(&index, pRLE->alignedCurrentNonLength);
 #else
-              const uint32_t index = 63 - __builtin_clz(pRLE->alignedCurrentNonLength);
+              const uint32_t index = 63 - __builtin_clzll(pRLE->alignedCurrentNonLength);
 #endif
 
               pRLE->alignedEmptyLengthByBits[index]++;
@@ -1459,7 +1459,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
             unsigned long index;
             _BitScanReverse64(&index, pRLE->alignedCurrentLength);
 #else
-            const uint32_t index = 63 - __builtin_clz(pRLE->alignedCurrentLength);
+            const uint32_t index = 63 - __builtin_clzll(pRLE->alignedCurrentLength);
 #endif
 
             pRLE->alignedRleLengthByBits[index]++;
@@ -1472,9 +1472,9 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
 
 #ifdef _MSC_VER
             unsigned long lastNonLengthBits;
-            _BitScanReverse64(&lastNonLengthBits, pRLE->alignedLastNonLength);
+            _BitScanReverse64(&lastNonLengthBits, pRLE->alignedLastNonLength | 1);
 #else
-            const uint32_t lastNonLengthBits = 63 - __builtin_clz(pRLE->alignedLastNonLength);
+            const uint32_t lastNonLengthBits = 63 - __builtin_clzll(pRLE->alignedLastNonLength | 1);
 #endif
 
             pRLE->alignedCopyBitsVsRleLengthBits[(max((int64_t)0, min((int64_t)lastNonLengthBits - 1, (int64_t)15))) * 16 + (max((int64_t)0, min((int64_t)index - 1, (int64_t)15)))]++;
@@ -1513,7 +1513,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
       unsigned long index;
       _BitScanReverse64(&index, pRLE->currentNonLength);
 #else
-      const uint32_t index = 63 - __builtin_clz(pRLE->currentNonLength);
+      const uint32_t index = 63 - __builtin_clzll(pRLE->currentNonLength);
 #endif
 
       pRLE->emptyLengthByBits[index]++;
@@ -1529,7 +1529,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
       unsigned long index;
       _BitScanReverse64(&index, pRLE->currentLength);
 #else
-      const uint32_t index = 63 - __builtin_clz(pRLE->currentLength);
+      const uint32_t index = 63 - __builtin_clzll(pRLE->currentLength);
 #endif
 
       pRLE->rleLengthByBits[index]++;
@@ -1547,7 +1547,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
       unsigned long index;
       _BitScanReverse64(&index, pRLE->alignedCurrentNonLength);
 #else
-      const uint32_t index = 63 - __builtin_clz(pRLE->alignedCurrentNonLength);
+      const uint32_t index = 63 - __builtin_clzll(pRLE->alignedCurrentNonLength);
 #endif
 
       pRLE->alignedEmptyLengthByBits[index]++;
@@ -1563,7 +1563,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
       unsigned long index;
       _BitScanReverse64(&index, pRLE->alignedCurrentLength);
 #else
-      const uint32_t index = 63 - __builtin_clz(pRLE->alignedCurrentLength);
+      const uint32_t index = 63 - __builtin_clzll(pRLE->alignedCurrentLength);
 #endif
 
       pRLE->alignedRleLengthByBits[index]++;
-- 
2.43.0


From ce1b25bae7fa80460012bfd0920f53245265de4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:49 +0000
Subject: [PATCH 22/22] fix: --analyze relates the aligned copy differences to
 the aligned runs

They were given as a percentage of the number of non-aligned runs.
---
 src/main.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.c b/src/main.c
index 9c69901..5098c36 100644
--- a/src/main.c
+++ b/src/main.c
@@ -1655,7 +1655,7 @@ void AnalyzeData(const uint8_t *pData, const size_t size)
         printf("%3" PRIi8 " | ", (int8_t)j - 15);
 
       for (size_t k = 0; k < 32; k++)
-        printf("%4.1f ", pRLE->alignedCopyDiffVsCountDiff[j * 32 + k] / (double)pRLE->totalRleCount * 100.0);
+        printf("%4.1f ", pRLE->alignedCopyDiffVsCountDiff[j * 32 + k] / (double)pRLE->alignedTotalRleCount * 100.0);
 
       puts("");
     }
-- 
2.43.0

