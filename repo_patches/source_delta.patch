From 92ea7b2c3542b315b3b18ed144daf463f13772cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:10 +0000
Subject: [PATCH 01/27] fix: SHA-512 length field drops the top three bits of
 the 64-bit byte count

---
 src/digest/sha2.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/digest/sha2.c b/src/digest/sha2.c
index fac0c6b..30f97e3 100644
--- a/src/digest/sha2.c
+++ b/src/digest/sha2.c
@@ -552,7 +552,7 @@ static void _RaSha512Final(struct RaSha2Ctx* ctx, /*out*/uint8_t *output)
 	val = (uint32_t)(ctx->totalLen_hh >> 29);
 	PUT_UINT32_BE(ctx->buffer + 128 - 16, val);
 
-	val = (uint32_t)(ctx->totalLen_hh << 3);
+	val = (uint32_t)(ctx->totalLen_hh << 3) | (ctx->totalLen_h >> 29);
 	PUT_UINT32_BE(ctx->buffer + 128 - 12, val);
 
 	val = (ctx->totalLen_h << 3) | (ctx->totalLen_l >> 29);
-- 
2.43.0


From 04b3be87f6816aed93e972e3a00f36232e152703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 02/27] fix: sign toggles of big numbers leave sign at -1 or
 keep it when flipped twice

---
 src/com/bignumber.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 48fffad..18b5749 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -974,7 +974,7 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	uint64_t cw;
 
 	if (multiplier < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		multiplier = -multiplier;
 	}
 	val.high = 0;
@@ -1001,7 +1001,7 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	int i;
 
 	if (multiplier < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		multiplier = -multiplier;
 	}
 	val = 0;
@@ -1081,7 +1081,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 		return RA_ERR_DIVIDED_BY_ZERO;
 	}
 	if (divisor < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		divisor = -divisor;
 	}
 
@@ -1121,7 +1121,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 		return RA_ERR_DIVIDED_BY_ZERO;
 	}
 	if (divisor < 0) {
-		bn->sign = -bn->sign;
+		bn->sign = !bn->sign;
 		divisor = -divisor;
 	}
 	val = 0;
@@ -1961,7 +1961,7 @@ static int _BnSubUInt(struct RaBigNumber *a, bn_uint_t val)
 
 	if (al == 1 && (*ad) < val) {
 		*ad = val - (*ad);
-		a->sign = -a->sign;
+		a->sign = !a->sign;
 		return RA_ERR_SUCCESS;
 	}
 
-- 
2.43.0


From 11549f428afa0787d40da5801459e118fbf03320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 03/27] fix: BnCmp orders zero by its sign flag

---
 src/com/bignumber.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 18b5749..eb4c9f8 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -260,6 +260,9 @@ int BnSetUByteArray(struct RaBigNumber *bn, const uint8_t *data, int len)
 // a < b : -1, a > b : 1, a = b : 0
 int BnCmp(struct RaBigNumber *a, struct RaBigNumber *b)
 {
+	// zero has no sign
+	if (BN_ISZERO(a) && BN_ISZERO(b))
+		return 0;
 	if (a->sign == 0) {
 		if (b->sign == 0)
 			return _BnCmp(a, b);
-- 
2.43.0


From 0c7e74b4de1b39334a55a462ca4b40d9e434a29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 04/27] fix: BnAdd checks the room for the first operand only

---
 src/com/bignumber.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index eb4c9f8..f738858 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1615,7 +1615,7 @@ static int _BnAdd(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumb
 	int al;
 	int bl;
 
-	if (r->max_length < a->length) {
+	if (r->max_length < a->length || r->max_length < b->length) {
 		assert(0);
 		return RA_ERR_NUMBER_SIZE;
 	}
-- 
2.43.0


From dbb2e54fee5994ab04dbd071268fd142a49b78bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:57 +0000
Subject: [PATCH 05/27] fix: division by a word loses the quotient digit of a
 part equal to the divisor

---
 src/com/bignumber.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index f738858..b3983db 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1095,7 +1095,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 		val.high = val.low;
 		val.low = bn->data[i];
 
-		if (val.high != 0 || val.low > (bn_uint_t)divisor) {
+		if (val.high != 0 || val.low >= (bn_uint_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = _BnDiv128(val, (bn_uint_t)divisor, &val.low);
@@ -1130,7 +1130,7 @@ int BnDivInt(struct RaBigNumber *bn, bn_int_t divisor, /*out*/bn_uint_t *remaind
 	val = 0;
 	for (i = bn->length - 1; i >= 0; i--) {
 		val = (val << 32) + bn->data[i];
-		if (val > (uint32_t)divisor) {
+		if (val >= (uint32_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = (uint32_t)(val / (uint32_t)divisor);
@@ -1173,7 +1173,7 @@ int BnDivUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 		val.high = val.low;
 		val.low = bn->data[i];
 
-		if (val.high != 0 || val.low > (bn_uint_t)divisor) {
+		if (val.high != 0 || val.low >= (bn_uint_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = _BnDiv128(val, (bn_uint_t)divisor, &val.low);
@@ -1204,7 +1204,7 @@ int BnDivUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 	val = 0;
 	for (i = bn->length - 1; i >= 0; i--) {
 		val = (val << 32) + bn->data[i];
-		if (val > (uint32_t)divisor) {
+		if (val >= (uint32_t)divisor) {
 			if (length == 0)
 				length = i + 1;
 			bn->data[i] = (uint32_t)(val / (uint32_t)divisor);
@@ -1246,7 +1246,7 @@ int BnModUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 		val.high = val.low;
 		val.low = bn->data[i];
 
-		if (val.high > 0 || val.low > divisor) {
+		if (val.high > 0 || val.low >= divisor) {
 			if (length == 0)
 				length = i + 1;
 			_BnDiv128(val, divisor, &val.low);
@@ -1266,7 +1266,7 @@ int BnModUInt(struct RaBigNumber *bn, bn_uint_t divisor, /*out*/bn_uint_t *remai
 	val = 0;
 	for (i = bn->length - 1; i >= 0; i--) {
 		val = (val << 32) + bn->data[i];
-		if (val > divisor) {
+		if (val >= divisor) {
 			if (length == 0)
 				length = i + 1;
 			val %= (uint32_t)divisor;
-- 
2.43.0


From a9e90650a4058ea537ab2ba80f35a003919d9a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 06/27] fix: multiplying a longer number by the word zero
 leaves leading zero words

---
 src/com/bignumber.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index b3983db..6bd693b 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -976,6 +976,10 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	int i;
 	uint64_t cw;
 
+	if (multiplier == 0) {
+		BnSetUInt(bn, 0);
+		return RA_ERR_SUCCESS;
+	}
 	if (multiplier < 0) {
 		bn->sign = !bn->sign;
 		multiplier = -multiplier;
@@ -1003,6 +1007,10 @@ int BnMulInt(struct RaBigNumber *bn, bn_int_t multiplier)
 	uint64_t val;
 	int i;
 
+	if (multiplier == 0) {
+		BnSetUInt(bn, 0);
+		return RA_ERR_SUCCESS;
+	}
 	if (multiplier < 0) {
 		bn->sign = !bn->sign;
 		multiplier = -multiplier;
@@ -1032,6 +1040,10 @@ int BnMulUInt(struct RaBigNumber *bn, bn_uint_t multiplier)
 	int i;
 	uint64_t cw;
 
+	if (multiplier == 0) {
+		BnSetUInt(bn, 0);
+		return RA_ERR_SUCCESS;
+	}
 	val.high = 0;
 	val.low = 0;
 	for (i = 0; i < bn->length; i++) {
@@ -1054,6 +1066,10 @@ int BnMulUInt(struct RaBigNumber *bn, bn_uint_t multiplier)
 	uint64_t val;
 	int i;
 
+	if (multiplier == 0) {
+		BnSetUInt(bn, 0);
+		return RA_ERR_SUCCESS;
+	}
 	val = 0;
 	for (i = 0; i < bn->length; i++) {
 		val = (uint64_t)bn->data[i] * (uint32_t)multiplier + (val >> 32);
-- 
2.43.0


From 917d34f0e45ee7f161f73d0cd4a9a6b79f21de56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 07/27] fix: BnMod writes one word past a result as long as the
 divisor, or aborts

---
 src/com/bignumber.c | 49 +++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 6bd693b..53e7188 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -578,6 +578,7 @@ int BnSqr(struct RaBigNumber *r, struct RaBigNumber *a)
 // r = a % b
 int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 {
+	struct RaBigNumber *rr;
 	struct RaBigNumber *aa;		// a << n
 	struct RaBigNumber *bb;		// b << n
 	struct RaBigNumber *bq;		// b * q
@@ -609,11 +610,13 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 	aa = BnNewW(a->length + 1);		// a << n
 	bb = BnNewW(b->length + 1);		// b << n
 	bq = BnNewW(b->length + 1);		// b * qu(32bit)
+	rr = BnNewW(b->length + 1);
 
-	if (aa == NULL || bb == NULL || bq == NULL) {
+	if (aa == NULL || bb == NULL || bq == NULL || rr == NULL) {
 		BN_SAFEFREE(aa);
 		BN_SAFEFREE(bb);
 		BN_SAFEFREE(bq);
+		BN_SAFEFREE(rr);
 		return RA_ERR_OUT_OF_MEMORY;
 	}
 
@@ -625,33 +628,33 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 	BnShiftL(aa, (uint32_t)bit);
 	BnShiftL(bb, (uint32_t)bit);
 
-	// copy first bb->length-1 of aa->data to r
-	// this reduce loop count until r gets greater than bb
-	BnSetInt(r, 0);
+	// copy first bb->length-1 of aa->data to rr
+	// this reduce loop count until rr gets greater than bb
+	BnSetInt(rr, 0);
 	if (b->length > 1) {
-		memcpy(r->data, aa->data + aa->length - bb->length + 1, sizeof(bn_uint_t) * ((size_t)bb->length - 1));
-		r->data[bb->length] = 0;
-		r->length = bb->length - 1;
+		memcpy(rr->data, aa->data + aa->length - bb->length + 1, sizeof(bn_uint_t) * ((size_t)bb->length - 1));
+		rr->data[bb->length] = 0;
+		rr->length = bb->length - 1;
 	}
 
 	bu = bb->data[bb->length - 1];		// highst word of bb
 	ad = &aa->data[aa->length - bb->length];
-	rd = &r->data[bb->length - 1];
+	rd = &rr->data[bb->length - 1];
 
 #if BN_WORD_BYTE == 8
 	ru.high = 0;
 	ru.low = 0;
 
 	while (ad >= aa->data) {
-		BnShiftL(r, 64);
-		r->data[0] = (*ad);
+		BnShiftL(rr, 64);
+		rr->data[0] = (*ad);
 
 		// check the length
-		if (r->length > b->length) {
+		if (rr->length > b->length) {
 			ru.low = *rd;
 			ru.high = *(rd + 1);
 		}
-		else if (r->length == b->length) {
+		else if (rr->length == b->length) {
 			ru.low = *rd;
 			ru.high = 0;
 		}
@@ -665,11 +668,11 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 
 			BnSet(bq, bb);
 			BnMulUInt(bq, qu);		// bq = bb * qu
-			while (_BnCmp(r, bq) < 0) {
+			while (_BnCmp(rr, bq) < 0) {
 				_BnSubR(bq, bb);
 				qu--;
 			}
-			_BnSubR(r, bq);		// rr -= bb * qu
+			_BnSubR(rr, bq);		// rr -= bb * qu
 		}
 
 		ad--;
@@ -678,13 +681,13 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 	ru = 0;
 
 	while (ad >= aa->data) {
-		BnShiftL(r, 32);
-		r->data[0] = (*ad);
+		BnShiftL(rr, 32);
+		rr->data[0] = (*ad);
 
 		// check the length
-		if (r->length > b->length)
+		if (rr->length > b->length)
 			ru = ((uint64_t)(*(rd + 1)) << 32) | (*rd);
-		else if (r->length == b->length)
+		else if (rr->length == b->length)
 			ru = *rd;
 		else
 			ru = 0;
@@ -697,23 +700,25 @@ int BnMod(struct RaBigNumber *r, struct RaBigNumber *a, struct RaBigNumber *b)
 
 			BnSet(bq, bb);
 			BnMulUInt(bq, qu);		// bq = bb * qu
-			while (_BnCmp(r, bq) < 0) {
+			while (_BnCmp(rr, bq) < 0) {
 				_BnSubR(bq, bb);
 				qu--;
 			}
-			_BnSubR(r, bq);		// rr -= bb * qu
+			_BnSubR(rr, bq);		// rr -= bb * qu
 		}
 
 		ad--;
 	}
 #endif
 
-	BnShiftR(r, (uint32_t)bit);
-	r->sign = a->sign;
+	BnShiftR(rr, (uint32_t)bit);
+	rr->sign = a->sign;
+	BnSet(r, rr);
 
 	BnFree(aa);
 	BnFree(bb);
 	BnFree(bq);
+	BnFree(rr);
 
 	return RA_ERR_SUCCESS;
 }
-- 
2.43.0


From 0ddd364cdffb788d40647ef8f86377f2c0341660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 08/27] fix: BnDiv does not round down when a shorter dividend
 has the opposite sign

---
 src/com/bignumber.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 53e7188..85d2267 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -759,8 +759,14 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 	}
 
 	if (a->length < b->length) {
-		BnSet(r, a);
-		BnSetInt(q, 0);
+		if (a->sign != b->sign && !BN_ISZERO(a)) {
+			BnAdd(r, a, b);
+			BnSetInt(q, -1);
+		}
+		else {
+			BnSet(r, a);
+			BnSetInt(q, 0);
+		}
 		return RA_ERR_SUCCESS;
 	}
 
-- 
2.43.0


From 635be7c6d6f14daba0174b0e0462e6f523f57ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 09/27] fix: BnDiv with 32-bit words takes a stale word for the
 quotient overflow

---
 src/com/bignumber.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 85d2267..8721d66 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -868,7 +868,7 @@ int BnDiv(struct RaBigNumber *q, struct RaBigNumber *r, struct RaBigNumber *a, s
 			ru = 0;
 
 		if (ru >= bu) {
-			if  (*(rd + 1) == bu)		// overflow
+			if ((ru >> 32) == bu)		// overflow
 				qu = 0xFFFFFFFF;
 			else
 				qu = (uint32_t)(ru / bu);		// guess the quotient
-- 
2.43.0


From 1d4ac0d238a874cdc50965618887b4b480874103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 10/27] fix: shifting zero left or everything out to the right
 leaves a number that is not normalised

---
 src/com/bignumber.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 8721d66..03695b3 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1363,7 +1363,7 @@ int BnShiftL(struct RaBigNumber *bn, uint32_t bit)
 		*dest-- = 0;
 	}
 	bn->length += word;
-	if (bn->length > 1 && bn->data[bn->length - 1] == 0)
+	while (bn->length > 1 && bn->data[bn->length - 1] == 0)
 		bn->length--;
 
 	return RA_ERR_SUCCESS;
@@ -1385,6 +1385,12 @@ int BnShiftR(struct RaBigNumber *bn, uint32_t bit)
 	word = bit / BN_WORD_BIT;
 	bit %= BN_WORD_BIT;
 
+	if (word >= bn->length) {
+		bn->data[0] = 0;
+		bn->length = 1;
+		return RA_ERR_SUCCESS;
+	}
+
 	dest = &bn->data[0];
 	src = &bn->data[word];
 	bn_end = bn->data + bn->length;
-- 
2.43.0


From e7dcca0d57f285449bfc5b66f04e671bff5daaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 11/27] fix: BnSetByteArray aborts instead of failing when the
 magnitude needs one more word

---
 src/com/bignumber.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 03695b3..4c12912 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -241,8 +241,14 @@ static int _BnSetByteArray(struct RaBigNumber *bn, const uint8_t *data, int len,
 	while( bn->length > 1 && bn->data[bn->length-1] == 0 ) {
 		bn->length--;
 	}
-	if (bn->sign)
-		BnSubInt(bn, 1);
+	if (bn->sign) {
+		// the magnitude of -2^n can take one more word
+		for (byte = 0; byte < bn->length && bn->data[byte] == (bn_uint_t)-1; byte++)
+			;
+		if (byte == bn->length && bn->max_length <= bn->length)
+			return RA_ERR_NUMBER_SIZE;
+		return BnSubInt(bn, 1);
+	}
 
 	return RA_ERR_SUCCESS;
 }
-- 
2.43.0


From cea42a19ee5505eed6d3ede2476e3aaf85de7f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:30 +0000
Subject: [PATCH 12/27] fix: BnGenRandom masks the top word with a 32-bit shift
 and keeps an old sign

---
 src/com/bignumber.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 4c12912..08bc8d3 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1467,9 +1467,10 @@ int BnGenRandom(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 	bit %= BN_WORD_BIT;
 
 	if (bit > 0) {
-		bn->data[word - 1] &= (1 << bit) - 1;
+		bn->data[word - 1] &= ((bn_uint_t)1 << bit) - 1;
 	}
 	bn->length = word;
+	bn->sign = 0;
 	while (bn->length > 1 && bn->data[bn->length - 1] == 0)
 		bn->length--;
 
-- 
2.43.0


From c8d309df9d77d6d5995b774270ea2c2518bbe6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 13/27] fix: BnCmpUInt takes a negative number with a zero
 lowest word for equal to anything

---
 src/com/bignumber.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 08bc8d3..24e4bd4 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -318,7 +318,7 @@ int BnCmpUInt(struct RaBigNumber *a, bn_uint_t val)
 		return 0;
 	}
 	else {
-		if (a->data[0] == 0)
+		if (a->length == 1 && a->data[0] == 0 && val == 0)
 			return 0;
 		return -1;
 	}
-- 
2.43.0


From cb8b026e49b0b0b7b3ab042e88a539f217eeb01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:15 +0000
Subject: [PATCH 14/27] fix: BnDouble in place loses the carry between words

---
 src/com/bignumber.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index 24e4bd4..adf1304 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -370,6 +370,7 @@ int BnDouble(struct RaBigNumber *r, struct RaBigNumber *a)
 {
 	int i;
 	int c;
+	bn_uint_t t;
 	bn_uint_t *rd;
 	bn_uint_t *ad;
 
@@ -383,8 +384,9 @@ int BnDouble(struct RaBigNumber *r, struct RaBigNumber *a)
 	ad = &a->data[0];
 	r->length = a->length;
 	for (i = 0; i < a->length; i++) {
-		*rd = ((*ad) << 1) + c;
-		c = (int)(((*ad) >> (BN_WORD_BIT - 1)) & 1);
+		t = *ad;		// r may be a
+		*rd = (t << 1) + c;
+		c = (int)((t >> (BN_WORD_BIT - 1)) & 1);
 		ad++;
 		rd++;
 	}
-- 
2.43.0


From ea5ef5a49bfe79ec5533d36723be30b7f5b700cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:33 +0000
Subject: [PATCH 15/27] fix: BnToByteArray writes the sign byte before it
 checks the buffer size

---
 src/com/bignumber.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index adf1304..a3dccf9 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1545,9 +1545,6 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 		word = neg->data[neg->length - 1];
 		bit = _BnGetMSBPos(word);
 		if ((bit % 8) == 7) {			// if most significant bit is set.
-			if (buffer != NULL) {
-				buffer[0] = 0xff;		// negative
-			}
 			offset++;
 		}
 		len = offset + (bit / 8 + 1) + (neg->length - 1) * BN_WORD_BYTE;
@@ -1559,6 +1556,9 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 			BnFree(neg);
 			return 0;
 		}
+		if (offset > 0) {
+			buffer[0] = 0xff;		// negative
+		}
 		bit = (bit / 8) * 8;
 		for (i = neg->length - 1; i >= 0; i--) {
 			word = ~neg->data[i];
@@ -1577,9 +1577,6 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 		word = bn->data[bn->length - 1];
 		bit = _BnGetMSBPos(word);
 		if ((bit % 8) == 7) {			// if most significant bit is set.
-			if (buffer != NULL) {
-				buffer[0] = 0x00;		// positive
-			}
 			offset++;
 		}
 		len = offset + (bit / 8 + 1) + (bn->length - 1) * BN_WORD_BYTE;
@@ -1589,6 +1586,9 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 		if (bufferlen < len) {
 			return 0;
 		}
+		if (offset > 0) {
+			buffer[0] = 0x00;		// positive
+		}
 		bit = (bit / 8) * 8;
 		for (i = bn->length - 1; i >= 0; i--) {
 			word = bn->data[i];
-- 
2.43.0


From d87475026ba2f7d03b2dca56c004298316779650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:54 +0000
Subject: [PATCH 16/27] fix: RaRandom can return 0, which it promises not to

---
 src/com/random.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/com/random.c b/src/com/random.c
index c7618da..1eb0870 100644
--- a/src/com/random.c
+++ b/src/com/random.c
@@ -244,7 +244,7 @@ double RaRandom(struct RaRandom *ctx)
 	do {
 		RaRandomBytes(ctx, 4, rnd_buffer);
 		rnd_val = (rnd_buffer[0] << 24) | (rnd_buffer[1] << 16) | (rnd_buffer[2] << 8) | rnd_buffer[3];
-	} while (rnd_val == UINT32_MAX);
+	} while (rnd_val == 0 || rnd_val == UINT32_MAX);
 
 	return (double)rnd_val / UINT32_MAX;
 }
-- 
2.43.0


From b5eeaf7c4e741fe1ed9f2f4f4eac48997804ea8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:12 +0000
Subject: [PATCH 17/27] fix: the DER parser loses elements after nested or
 empty containers and accepts unfinished ones

---
 src/pk/asn1.c | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/pk/asn1.c b/src/pk/asn1.c
index d8e2d60..a9f7927 100644
--- a/src/pk/asn1.c
+++ b/src/pk/asn1.c
@@ -182,25 +182,40 @@ static int ASN1Parse(struct RaAsn1Ctx *ctx)
 {
 	int result;
 
-	while (ctx->dataIndex < ctx->dataEnd) {
+	for (;;) {
+		// leave every definite length container that is complete
+		while (ctx->dataSP > 0 && ctx->dataIndex >= ctx->dataEnd &&
+			ctx->dataStack[ctx->dataSP - 1].prevObj->dataLength >= 0) {
+			result = ASN1Pop(ctx);
+			if (result != RA_ERR_SUCCESS) goto _EXIT;
+		}
+		if (ctx->dataIndex >= ctx->dataEnd) {
+			break;
+		}
+
 		result = ASN1Read(ctx);
 		if (result != RA_ERR_SUCCESS) goto _EXIT;
 
 		if (ctx->cur->type & RA_ASN1_OBJ_TYPE_CONST) {
-			ASN1Push(ctx);
+			result = ASN1Push(ctx);
+			if (result != RA_ERR_SUCCESS) goto _EXIT;
 			continue;
 		}
 
-		if (ctx->dataIndex >= ctx->dataEnd ||
-			(ctx->cur->type == 0 && ctx->cur->dataLength == 0) ) {		// end-of-content
+		if (ctx->cur->type == 0 && ctx->cur->dataLength == 0 &&
+			ctx->dataIndex - ctx->cur->offset == 2) {		// end-of-content
 			result = ASN1Pop(ctx);
 			if (result == RA_ERR_OUT_OF_BUFFER) {
-				result = RA_ERR_SUCCESS;
 				break;
 			}
 			if (result != RA_ERR_SUCCESS) goto _EXIT;
 		}
-	};
+	}
+
+	if (ctx->dataSP > 0) {	// indefinite length container without end-of-content
+		result = RA_ERR_OUT_OF_BUFFER;
+		goto _EXIT;
+	}
 
 	result = RA_ERR_SUCCESS;
 _EXIT:
-- 
2.43.0


From 82fe6131203391de62c489f260efcbfabde3bb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:29 +0000
Subject: [PATCH 18/27] fix: RaMontCreate destroys uninitialised numbers when
 an allocation fails

---
 src/com/bignumber.c  | 2 ++
 src/com/montexpmod.c | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index a3dccf9..b0aa337 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -67,6 +67,8 @@ void BnFree(struct RaBigNumber * bn)
 
 void BnClearFree(struct RaBigNumber* bn)
 {
+	if (bn == NULL)
+		return;
 	memset(bn, 0, sizeof(struct RaBigNumber) + sizeof(bn_uint_t) * bn->max_length);
 	free(bn);
 }
diff --git a/src/com/montexpmod.c b/src/com/montexpmod.c
index 7d6ad32..c525669 100644
--- a/src/com/montexpmod.c
+++ b/src/com/montexpmod.c
@@ -75,6 +75,7 @@ int RaMontCreate(struct RaBigNumber *N, /*out*/struct RaMontCtx **montCtx)
 		result = RA_ERR_OUT_OF_MEMORY;
 		goto _EXIT;
 	}
+	memset(ctx, 0, sizeof(struct RaMontCtx));
 
 	B = BnNewW(2);
 	if (B == NULL) {
-- 
2.43.0


From b9b7ff94d6937b393eec59d4df83e0e80f557524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:29 +0000
Subject: [PATCH 19/27] fix: BnToByteArray and BnGenRandom go on after a failed
 allocation

---
 src/com/bignumber.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/com/bignumber.c b/src/com/bignumber.c
index b0aa337..879f57b 100644
--- a/src/com/bignumber.c
+++ b/src/com/bignumber.c
@@ -1453,6 +1453,7 @@ int BnGetBitLength(struct RaBigNumber *bn)
 
 int BnGenRandom(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 {
+	int result;
 	int word;
 
 	if (bit <= 0) {
@@ -1466,7 +1467,9 @@ int BnGenRandom(struct RaBigNumber *bn, int bit, struct RaRandom *rnd)
 		return RA_ERR_NUMBER_SIZE;
 	}
 
-	BnGenRandomByteArray((uint8_t*)bn->data, word * BN_WORD_BYTE, rnd);
+	result = BnGenRandomByteArray((uint8_t*)bn->data, word * BN_WORD_BYTE, rnd);
+	if (result != RA_ERR_SUCCESS)
+		return result;
 
 	bit %= BN_WORD_BIT;
 
@@ -1543,6 +1546,8 @@ int BnToByteArray(struct RaBigNumber *bn, uint8_t *buffer, int bufferlen)
 	if (bn->sign && !BN_ISZERO(bn)) {
 		struct RaBigNumber *neg;
 		neg = BnClone(bn);
+		if (neg == NULL)
+			return 0;
 		BnAddInt(neg, 1);		// neg = ~bn + 1 = ~(bn + 1)
 		word = neg->data[neg->length - 1];
 		bit = _BnGetMSBPos(word);
-- 
2.43.0


From 4747eb1b2c7ea49efcbbf644b28c6a73fe159a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:29 +0000
Subject: [PATCH 20/27] fix: the primality test uses a failed clone, and
 RaGenPrimeNumberEx leaks its generator on errors

---
 src/com/prime.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/com/prime.c b/src/com/prime.c
index 0f00fec..3c04ae7 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -292,6 +292,10 @@ static int CheckMillerRabin(struct RaBigNumber *bn, int count, struct RaRandom *
 	}
 
 	n1 = BnClone(bn);
+	if (n1 == NULL) {
+		result = RA_ERR_OUT_OF_MEMORY;
+		goto _EXIT;
+	}
 	BnSubInt(n1, 1);	// n1 = n - 1
 
 	s = 0;
@@ -453,21 +457,23 @@ int RaGenPrimeNumberEx(struct RaBigNumber *bn, int bit, int(*progress)(int count
 		}
 		result = GenProbablePrimeNumber(bn, bit, rnd);
 		if (result != RA_ERR_SUCCESS) {
-			return result;
+			goto _EXIT;
 		}
 
 		result = CheckMillerRabin(bn, checkCount, rnd, &isPrime);
 		if (result != RA_ERR_SUCCESS) {
-			return result;
+			goto _EXIT;
 		}
 		if (isPrime) {
 			break;
 		}
 	}
+	result = RA_ERR_SUCCESS;
+_EXIT:
 	if (tmpRnd != NULL)
 		RaRandomDestroy(tmpRnd);
 
-	return RA_ERR_SUCCESS;
+	return result;
 }
 
 int RaIsPrimeNumber(struct RaBigNumber *bn)
-- 
2.43.0


From 88590c43e0f65517129f8cff3c575bff21e75e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:30 +0000
Subject: [PATCH 21/27] fix: RaRsaVerifyKey and RaRsaVerify go on after a
 failed allocation

---
 src/pk/rsa.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index f90f6ce..f100792 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -185,7 +185,11 @@ int RaRsaVerify(struct RaRsaKeyPair* key, struct RaBigNumber *secure, struct RaB
 	if (decrypted == NULL)
 		return RA_ERR_OUT_OF_MEMORY;
 
-	RaMontExpMod(key->mont, decrypted, secure, key->pub);
+	result = RaMontExpMod(key->mont, decrypted, secure, key->pub);
+	if (result != RA_ERR_SUCCESS) {
+		BnFree(decrypted);
+		return result;
+	}
 	result = BnCmp(message, decrypted);
 
 	BnFree(decrypted);
@@ -221,6 +225,10 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 	bit = BnGetBitLength(key->mod);
 	temp = BnNew(bit);
 	phi = BnNew(bit);
+	if (temp == NULL || phi == NULL) {
+		result = RA_ERR_OUT_OF_MEMORY;
+		goto _EXIT;
+	}
 
 	CHECK_KEY_DATA(BnGetBitLength(key->prime1) + BnGetBitLength(key->prime2) == bit);
 
-- 
2.43.0


From 6e0a1b73b600f926ed30a828c3142a90c2925fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:14 +0000
Subject: [PATCH 22/27] fix: key import reads past the end for empty integers
 and short identifiers, and aborts for a zero modulus

---
 src/com/montexpmod.c | 1 -
 src/pk/rsa.c         | 4 ++--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/com/montexpmod.c b/src/com/montexpmod.c
index c525669..4585659 100644
--- a/src/com/montexpmod.c
+++ b/src/com/montexpmod.c
@@ -66,7 +66,6 @@ int RaMontCreate(struct RaBigNumber *N, /*out*/struct RaMontCtx **montCtx)
 	struct RaBigNumber *B = NULL;
 
 	if (BN_ISZERO(N)) {
-		assert(0);
 		result = RA_ERR_DIVIDED_BY_ZERO;
 		goto _EXIT;
 	}
diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index f100792..164d187 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -290,7 +290,7 @@ static int RaRsaNewASN1Integer(const uint8_t *asn1Data, struct RaAsn1Node *node,
 	struct RaBigNumber *bn = NULL;
 	int bit;
 
-	if (node->type != RA_ASN1_OBJ_INTEGER) {
+	if (node->type != RA_ASN1_OBJ_INTEGER || node->dataLength < 1) {
 		result = RA_ERR_INVALID_DATA;
 		goto _EXIT;
 	}
@@ -447,7 +447,7 @@ _EXIT:
 }
 
 #define OID_RSA_Encryption		"\x2a\x86\x48\x86\xf7\x0d\x01\x01\x01"		// 1.2.840.113549.1.1.1
-#define IS_OID(data, node, oid)		((node)->type == RA_ASN1_OBJ_IDENTIFIER && memcmp((uint8_t*)data+(node)->dataOffset, oid, sizeof(oid)-1) == 0)
+#define IS_OID(data, node, oid)		((node)->type == RA_ASN1_OBJ_IDENTIFIER && (node)->dataLength == sizeof(oid)-1 && memcmp((uint8_t*)data+(node)->dataOffset, oid, sizeof(oid)-1) == 0)
 
 
 // pkcs#8, byte array = BER
-- 
2.43.0


From ea04648f8bc32ce5506a5cf4712bd7ac9a74c837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:14 +0000
Subject: [PATCH 23/27] fix: the primality test does not end for 3 and for
 negative odd numbers

---
 src/com/prime.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/com/prime.c b/src/com/prime.c
index 3c04ae7..cf4dc8e 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -286,10 +286,14 @@ static int CheckMillerRabin(struct RaBigNumber *bn, int count, struct RaRandom *
 	bn_uint_t data;
 	struct RaMontCtx *ctx = NULL;
 
-	if (BN_ISZERO(bn) || BN_ISONE(bn) || BN_ISEVEN(bn) ) {
+	if (BN_ISZERO(bn) || BN_ISNEG(bn) || BN_ISONE(bn) || BN_ISEVEN(bn) ) {
 		*probable = BN_ISTWO(bn);
 		return RA_ERR_SUCCESS;
 	}
+	if (BnCmpUInt(bn, 3) == 0) {	// there is no witness between 1 and n - 1
+		*probable = 1;
+		return RA_ERR_SUCCESS;
+	}
 
 	n1 = BnClone(bn);
 	if (n1 == NULL) {
-- 
2.43.0


From 811ad9d577e14ef577c9edbfcd05ce298de8f46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:14 +0000
Subject: [PATCH 24/27] fix: an RSA message or signature longer than the
 modulus aborts instead of failing

---
 src/com/montexpmod.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/com/montexpmod.c b/src/com/montexpmod.c
index 4585659..9de9c99 100644
--- a/src/com/montexpmod.c
+++ b/src/com/montexpmod.c
@@ -332,7 +332,6 @@ int RaMontExpMod(struct RaMontCtx *ctx, /*out*/struct RaBigNumber *r, struct RaB
 	memset(window, 0, sizeof(window));
 
 	if (a->length > ctx->N->length) {
-		assert(0);
 		result = RA_ERR_NUMBER_SIZE;
 		goto _EXIT;
 	}
-- 
2.43.0


From e66613d865e1b1eac400940066395612bacaae93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:14 +0000
Subject: [PATCH 25/27] fix: RaRsaVerifyKey aborts for a zero public exponent

---
 src/pk/rsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index 164d187..ec36516 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -215,7 +215,7 @@ int RaRsaVerifyKey(struct RaRsaKeyPair *key)
 	struct RaBigNumber *prime2Sub1 = NULL;
 	int bit;
 
-	CHECK_KEY_DATA(BnCmp(key->pub, key->mod) < 0);
+	CHECK_KEY_DATA(!BN_ISZERO(key->pub) && BnCmp(key->pub, key->mod) < 0);
 
 	if (key->priv == NULL) {
 		result = RA_ERR_SUCCESS;
-- 
2.43.0


From 0bb9266d94fd8f5f246c634f2f2df0623b211309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:14 +0000
Subject: [PATCH 26/27] fix: RaRsaCreateKeyPair returns a useless key when
 65537 divides p-1 or q-1

---
 src/pk/rsa.c | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/pk/rsa.c b/src/pk/rsa.c
index ec36516..cf6417e 100644
--- a/src/pk/rsa.c
+++ b/src/pk/rsa.c
@@ -67,22 +67,25 @@ int RaRsaCreateKeyPair(int bit, /*out*/struct RaRsaKeyPair** keyPair) {
 	BnSetUInt(key->pub, 65537);
 
 	do {
-		result = RaGenPrimeNumberEx(key->prime1, bit / 2, NULL, NULL, rnd);
-		if (result != RA_ERR_SUCCESS) goto _EXIT;
-
 		do {
-			result = RaGenPrimeNumberEx(key->prime2, bit / 2, NULL, NULL, rnd);
+			result = RaGenPrimeNumberEx(key->prime1, bit / 2, NULL, NULL, rnd);
 			if (result != RA_ERR_SUCCESS) goto _EXIT;
-		} while ( BnCmp( key->prime1, key->prime2 ) == 0 );
 
-		BnMul(key->mod, key->prime1, key->prime2);
-	} while(BnGetBitLength(key->mod) != bit);
+			do {
+				result = RaGenPrimeNumberEx(key->prime2, bit / 2, NULL, NULL, rnd);
+				if (result != RA_ERR_SUCCESS) goto _EXIT;
+			} while ( BnCmp( key->prime1, key->prime2 ) == 0 );
 
-	BnSubInt(key->prime1, 1);
-	BnSubInt(key->prime2, 1);
-	BnMul(phi, key->prime1, key->prime2);
-	result = GetGCDEx(NULL, key->priv, NULL, key->pub, phi, 1);
-	if (result != RA_ERR_SUCCESS) goto _EXIT;
+			BnMul(key->mod, key->prime1, key->prime2);
+		} while(BnGetBitLength(key->mod) != bit);
+
+		BnSubInt(key->prime1, 1);
+		BnSubInt(key->prime2, 1);
+		BnMul(phi, key->prime1, key->prime2);
+		// the public exponent has an inverse only if gcd(e, phi) is 1 (coeff holds the gcd here)
+		result = GetGCDEx(key->coeff, key->priv, NULL, key->pub, phi, 1);
+		if (result != RA_ERR_SUCCESS) goto _EXIT;
+	} while (!BN_ISONE(key->coeff));
 	
 	//*
 	result = BnMod(key->exp1, key->priv, key->prime1);
-- 
2.43.0


From a26b63612ff9ad1df481a27f912cc82b4ef1099d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:48 +0000
Subject: [PATCH 27/27] fix: RaGenPrimeNumber can return a prime of another
 size, and never one of the small primes

---
 src/com/prime.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/com/prime.c b/src/com/prime.c
index cf4dc8e..77dc89b 100644
--- a/src/com/prime.c
+++ b/src/com/prime.c
@@ -388,6 +388,7 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 	int i;
 	uint32_t add;
 	uint64_t val;
+	uint64_t small;
 	bn_uint_t mod;
 
 	mods = malloc(NUM_PRIME * sizeof(uint32_t));
@@ -402,10 +403,12 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 			BnModUInt(bn, primes[i], &mod);
 			mods[i] = (uint32_t)mod;
 		}
+		// a small number can be one of the primes itself
+		small = bit <= 32 ? _BnGetUInt64(bn) : 0;
 		add = 0;
 		for (;;) {
 			for (i = 0; i < NUM_PRIME; i++) {
-				if ((mods[i] + add) % primes[i] == 0) {
+				if ((mods[i] + add) % primes[i] == 0 && small + add != primes[i]) {
 					add += 2;
 					break;
 				}
@@ -419,10 +422,13 @@ static int GenProbablePrimeNumber(struct RaBigNumber *bn, int bit, struct RaRand
 		if (val + add < val)
 			continue;
 
+		BnAddUInt(bn, add);
+		if (BnGetBitLength(bn) != bit)
+			continue;
+
 		break;
 	}
 
-	BnAddUInt(bn, add);
 	free(mods);
 
 	return RA_ERR_SUCCESS;
@@ -441,6 +447,9 @@ int RaGenPrimeNumberEx(struct RaBigNumber *bn, int bit, int(*progress)(int count
 	int isPrime;
     struct RaRandom *tmpRnd = NULL;
 
+	if (bit < 2) {		// there is no such prime number
+		return RA_ERR_INVALID_PARAM;
+	}
 	if (rnd == NULL) {
 		result = RaRandomCreate(RA_RAND_SHA160, NULL, 0, &tmpRnd);
 		if (result != RA_ERR_SUCCESS)
-- 
2.43.0

