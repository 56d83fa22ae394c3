From df527ebdc828d6bcd83f753a98c3f47bc814f822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 01/95] fix: avoid signed overflow and negative shifts in the C
 integer codecs

---
 asn1crt/asn1crt.c              |  2 +-
 asn1crt/asn1crt_encoding.c     | 33 ++++++++++++++++++---------------
 asn1crt/asn1crt_encoding_acn.c | 27 ++++++++++++---------------
 3 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/asn1crt/asn1crt.c b/asn1crt/asn1crt.c
index ffab9eb..2132b7b 100644
--- a/asn1crt/asn1crt.c
+++ b/asn1crt/asn1crt.c
@@ -26,7 +26,7 @@ const asn1SccUint32 ber_aux[] = {
 asn1SccUint int2uint(asn1SccSint v) {
     asn1SccUint ret = 0;
     if (v < 0) {
-        ret = (asn1SccUint)(-v - 1);
+        ret = (asn1SccUint)(-(v + 1));
         ret = ~ret;
     }
     else {
diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index e350ec7..acf1718 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -761,7 +761,7 @@ int GetLengthInBytesOfSInt(asn1SccSint v)
 	if (v >= 0)
 		return GetLengthSIntHelper((asn1SccUint)v);
 
-	return GetLengthSIntHelper((asn1SccUint)(-v - 1));
+	return GetLengthSIntHelper((asn1SccUint)(-(v + 1)));
 }
 
 
@@ -772,13 +772,13 @@ void BitStream_EncodeConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint v, a
 	int nBits;
 	asn1SccUint range;
 	assert(min <= max);
-	range = (asn1SccUint)(max - min);
+	range = (asn1SccUint)max - (asn1SccUint)min;
 	if (!range)
 		return;
 	nRangeBits = GetNumberOfBitsForNonNegativeInteger(range);
-	nBits = GetNumberOfBitsForNonNegativeInteger((asn1SccUint)(v - min));
+	nBits = GetNumberOfBitsForNonNegativeInteger((asn1SccUint)v - (asn1SccUint)min);
 	BitStream_AppendNBitZero(pBitStrm, nRangeBits - nBits);
-	BitStream_EncodeNonNegativeInteger(pBitStrm, (asn1SccUint)(v - min));
+	BitStream_EncodeNonNegativeInteger(pBitStrm, (asn1SccUint)v - (asn1SccUint)min);
 }
 
 void BitStream_EncodeConstraintPosWholeNumber(BitStream* pBitStrm, asn1SccUint v, asn1SccUint min, asn1SccUint max)
@@ -802,7 +802,7 @@ flag BitStream_DecodeConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint* v,
 {
 	asn1SccUint uv;
 	int nRangeBits;
-	asn1SccUint range = (asn1SccUint)(max - min);
+	asn1SccUint range = (asn1SccUint)max - (asn1SccUint)min;
 
 	ASSERT_OR_RETURN_FALSE(min <= max);
 
@@ -820,7 +820,7 @@ flag BitStream_DecodeConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint* v,
 	{
 		if (uv > range)
 			return FALSE;
-		*v = ((asn1SccSint)uv) + min;
+		*v = (asn1SccSint)(uv + (asn1SccUint)min);
 		return TRUE;
 	}
 	return FALSE;
@@ -917,14 +917,14 @@ void BitStream_EncodeSemiConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint
 {
 	int nBytes;
 	assert(v >= min);
-	nBytes = GetLengthInBytesOfUInt((asn1SccUint)(v - min));
+	nBytes = GetLengthInBytesOfUInt((asn1SccUint)v - (asn1SccUint)min);
 
 	/* encode length */
 	BitStream_EncodeConstraintWholeNumber(pBitStrm, nBytes, 0, 255); /*8 bits, first bit is always 0*/
 																	 /* put required zeros*/
-	BitStream_AppendNBitZero(pBitStrm, nBytes * 8 - GetNumberOfBitsForNonNegativeInteger((asn1SccUint)(v - min)));
+	BitStream_AppendNBitZero(pBitStrm, nBytes * 8 - GetNumberOfBitsForNonNegativeInteger((asn1SccUint)v - (asn1SccUint)min));
 	/*Encode number */
-	BitStream_EncodeNonNegativeInteger(pBitStrm, (asn1SccUint)(v - min));
+	BitStream_EncodeNonNegativeInteger(pBitStrm, (asn1SccUint)v - (asn1SccUint)min);
 }
 
 void BitStream_EncodeSemiConstraintPosWholeNumber(BitStream* pBitStrm, asn1SccUint v, asn1SccUint min)
@@ -945,6 +945,7 @@ void BitStream_EncodeSemiConstraintPosWholeNumber(BitStream* pBitStrm, asn1SccUi
 flag BitStream_DecodeSemiConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint* v, asn1SccSint min)
 {
 	asn1SccSint nBytes;
+	asn1SccUint uv = 0;
 	int i;
 	*v = 0;
 	if (!BitStream_DecodeConstraintWholeNumber(pBitStrm, &nBytes, 0, 255))
@@ -955,9 +956,9 @@ flag BitStream_DecodeSemiConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint*
 		byte b = 0;
 		if (!BitStream_ReadByte(pBitStrm, &b))
 			return FALSE;
-		*v = (*v << 8) | b;
+		uv = (uv << 8) | b;
 	}
-	*v += min;
+	*v = (asn1SccSint)(uv + (asn1SccUint)min);
 	return TRUE;
 }
 
@@ -993,14 +994,15 @@ void BitStream_EncodeUnConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint v)
 		BitStream_EncodeNonNegativeInteger(pBitStrm, (asn1SccUint)(v));
 	}
 	else {
-		BitStream_AppendNBitOne(pBitStrm, nBytes * 8 - GetNumberOfBitsForNonNegativeInteger((asn1SccUint)(-v - 1)));
-		BitStream_EncodeNonNegativeIntegerNeg(pBitStrm, (asn1SccUint)(-v - 1), 1);
+		BitStream_AppendNBitOne(pBitStrm, nBytes * 8 - GetNumberOfBitsForNonNegativeInteger((asn1SccUint)(-(v + 1))));
+		BitStream_EncodeNonNegativeIntegerNeg(pBitStrm, (asn1SccUint)(-(v + 1)), 1);
 	}
 }
 
 flag BitStream_DecodeUnConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint* v)
 {
 	asn1SccSint nBytes;
+	asn1SccUint uv;
 	int i;
 	flag valIsNegative;
 
@@ -1012,14 +1014,15 @@ flag BitStream_DecodeUnConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint* v
 
 	valIsNegative = BitStream_PeekBit(pBitStrm);
 
-	*v = valIsNegative ? MAX_INT : 0;
+	uv = valIsNegative ? MAX_INT : 0;
 
 	for (i = 0; i<nBytes; i++) {
 		byte b = 0;
 		if (!BitStream_ReadByte(pBitStrm, &b))
 			return FALSE;
-		*v = (*v << 8) | b;
+		uv = (uv << 8) | b;
 	}
+	*v = (asn1SccSint)uv;
 
 	return TRUE;
 }
diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 4eaf6e9..90a42db 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -322,8 +322,8 @@ void Acn_Enc_Int_TwosComplement_ConstSize(BitStream* pBitStrm, asn1SccSint intVa
 		BitStream_EncodeNonNegativeInteger(pBitStrm, (asn1SccUint)intVal);
 	}
 	else {
-		BitStream_AppendNBitOne(pBitStrm, encodedSizeInBits - GetNumberOfBitsForNonNegativeInteger((asn1SccUint)(-intVal - 1)));
-		BitStream_EncodeNonNegativeIntegerNeg(pBitStrm, (asn1SccUint)(-intVal - 1), 1);
+		BitStream_AppendNBitOne(pBitStrm, encodedSizeInBits - GetNumberOfBitsForNonNegativeInteger((asn1SccUint)(-(intVal + 1))));
+		BitStream_EncodeNonNegativeIntegerNeg(pBitStrm, (asn1SccUint)(-(intVal + 1)), 1);
 	}
 	CHECK_BIT_STREAM(pBitStrm);
 
@@ -380,19 +380,20 @@ flag Acn_Dec_Int_TwosComplement_ConstSize(BitStream* pBitStrm, asn1SccSint* pInt
 	int rstBits = encodedSizeInBits % 8;
 	byte b = 0;
 
-	*pIntVal = valIsNegative ? MAX_INT : 0;
+	asn1SccUint uv = valIsNegative ? MAX_INT : 0;
 	for (i = 0; i<nBytes; i++) {
 		if (!BitStream_ReadByte(pBitStrm, &b))
 			return FALSE;
-		*pIntVal = (*pIntVal << 8) | b;
+		uv = (uv << 8) | b;
 	}
 
 	if (rstBits>0)
 	{
 		if (!BitStream_ReadPartialByte(pBitStrm, &b, (byte)rstBits))
 			return FALSE;
-		*pIntVal = (*pIntVal << rstBits) | b;
+		uv = (uv << rstBits) | b;
 	}
+	*pIntVal = (asn1SccSint)uv;
 	return TRUE;
 }
 
@@ -465,7 +466,7 @@ flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(BitStream* pBitStrm,
 static asn1SccUint To_UInt(asn1SccSint intVal) {
 	asn1SccUint ret = 0;
 	if (intVal <0) {
-		ret = (asn1SccUint)(-intVal - 1);
+		ret = (asn1SccUint)(-(intVal + 1));
 		ret = ~ret;
 	}
 	else {
@@ -673,7 +674,7 @@ void Acn_Enc_UInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccUint intVal, int e
 
 void Acn_Enc_SInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccSint intVal, int encodedSizeInBytes)
 {
-	asn1SccUint absIntVal = intVal >= 0 ? (asn1SccUint)intVal : (asn1SccUint)(-intVal);
+	asn1SccUint absIntVal = intVal >= 0 ? (asn1SccUint)intVal : 0 - (asn1SccUint)intVal;
 
 	/* encode sign */
 	BitStream_AppendByte0(pBitStrm, intVal >= 0 ? '+' : '-');
@@ -729,9 +730,7 @@ flag Acn_Dec_SInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccSint* pIntVal, int
 		return false;
 	}
 
-	*pIntVal = (asn1SccSint)ret;
-
-	*pIntVal = sign*(*pIntVal);
+	*pIntVal = (asn1SccSint)(sign < 0 ? 0 - ret : ret);
 	return TRUE;
 
 }
@@ -767,7 +766,7 @@ void Acn_Enc_SInt_ASCII_VarSize_LengthEmbedded(BitStream* pBitStrm, asn1SccSint
 	byte digitsArray100[100];
 	int i = 0;
 	byte nChars;
-	asn1SccUint absIntVal = intVal >= 0 ? (asn1SccUint)intVal : (asn1SccUint)(-intVal);
+	asn1SccUint absIntVal = intVal >= 0 ? (asn1SccUint)intVal : 0 - (asn1SccUint)intVal;
 	getIntegerDigits(absIntVal, digitsArray100, &nChars);
 
 	/* encode length, plus 1 for sign */
@@ -843,7 +842,7 @@ void Acn_Enc_UInt_ASCII_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccUint
 
 void Acn_Enc_SInt_ASCII_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccSint intVal, const byte null_characters[], size_t null_characters_size)
 {
-	asn1SccUint absValue = intVal >= 0 ? (asn1SccUint)intVal : (asn1SccUint)(-intVal);
+	asn1SccUint absValue = intVal >= 0 ? (asn1SccUint)intVal : 0 - (asn1SccUint)intVal;
 	BitStream_AppendByte0(pBitStrm, intVal >= 0 ? '+' : '-');
 
 	Acn_Enc_UInt_ASCII_VarSize_NullTerminated(pBitStrm, absValue, null_characters, null_characters_size);
@@ -898,9 +897,7 @@ flag Acn_Dec_SInt_ASCII_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccSint*
 	if (!Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &ret, null_characters, null_characters_size))
 		return false;
 
-	*pIntVal = (asn1SccSint)ret;
-	if (isNegative)
-		*pIntVal = -(*pIntVal);
+	*pIntVal = (asn1SccSint)(isNegative ? 0 - ret : ret);
 	return TRUE;
 }
 
-- 
2.43.0


From 707bc0e59c296dae27e7f8192c577866d7ff8b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:33 +0000
Subject: [PATCH 02/95] fix: C bit stream readers must not read past the end of
 the buffer

---
 asn1crt/asn1crt_encoding.c | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index acf1718..ac55a3e 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -103,6 +103,16 @@ asn1SccSint BitStream_GetLength(BitStream* pBitStrm)
 	return ret;
 }
 
+/* checks that nBits more bits can be read from the stream. In streaming mode more data are fetched on demand */
+static flag bitstream_can_read(const BitStream* pBitStrm, int nBits)
+{
+#ifdef ASN1SCC_STREAMING
+	if (pBitStrm->fetchDataPrm != NULL)
+		return pBitStrm->currentByte < pBitStrm->count;
+#endif
+	return pBitStrm->currentByte * 8 + pBitStrm->currentBit + nBits <= pBitStrm->count * 8;
+}
+
 /*
 Append bit one.
 
@@ -229,6 +239,9 @@ void BitStream_AppendBit(BitStream* pBitStrm, flag v)
 
 flag BitStream_ReadBit(BitStream* pBitStrm, flag* v)
 {
+	if (!bitstream_can_read(pBitStrm, 1))
+		return FALSE;
+
 	*v = pBitStrm->buf[pBitStrm->currentByte] & masks[pBitStrm->currentBit];
 
 	if (pBitStrm->currentBit<7)
@@ -242,7 +255,7 @@ flag BitStream_ReadBit(BitStream* pBitStrm, flag* v)
 }
 
 flag BitStream_PeekBit(BitStream* pBitStrm) {
-	return pBitStrm->buf[pBitStrm->currentByte] & masks[pBitStrm->currentBit];
+	return bitstream_can_read(pBitStrm, 1) && pBitStrm->buf[pBitStrm->currentByte] & masks[pBitStrm->currentBit];
 }
 
 
@@ -399,8 +412,8 @@ flag BitStream_ReadByteArray(BitStream* pBitStrm, byte* arr, int arr_len) {
     for (int i = 0; i < arr_len; i++) {
 		*wb = (byte)((*rb) << cb);
 		rb++;
-		bitstream_fetch_data_if_required(pBitStrm);
-		*wb |= (byte)((*rb) >> ncb);
+		if (cb > 0)
+			*wb |= (byte)((*rb) >> ncb);
 		wb++;
     }
 	pBitStrm->currentByte += arr_len;
@@ -497,6 +510,9 @@ flag BitStream_ReadPartialByte(BitStream* pBitStrm, byte *v, byte nbits)
 	int totalBits = cb + nbits;
 	int totalBitsForNextByte;
 
+	if (!bitstream_can_read(pBitStrm, nbits))
+		return FALSE;
+
 	if (totalBits <= 8) {
 		*v = (byte)((pBitStrm->buf[pBitStrm->currentByte] >> (8 - totalBits)) & masksb[nbits]);
 		pBitStrm->currentBit += nbits;
-- 
2.43.0


From d8820f1cd9815a6f67d86d5d99316ce66e873f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:15 +0000
Subject: [PATCH 03/95] fix: C bit stream appends clear stale bits and stay
 inside the buffer

---
 asn1crt/asn1crt_encoding.c | 64 +++++++++++++++++---------------------
 1 file changed, 29 insertions(+), 35 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index ac55a3e..96c9823 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -113,6 +113,16 @@ static flag bitstream_can_read(const BitStream* pBitStrm, int nBits)
 	return pBitStrm->currentByte * 8 + pBitStrm->currentBit + nBits <= pBitStrm->count * 8;
 }
 
+/* checks that nBits more bits can be written to the stream. In streaming mode the buffer is pushed out when it is full */
+static flag bitstream_can_write(const BitStream* pBitStrm, int nBits)
+{
+#ifdef ASN1SCC_STREAMING
+	if (pBitStrm->pushDataPrm != NULL)
+		return pBitStrm->currentByte < pBitStrm->count;
+#endif
+	return pBitStrm->currentByte * 8 + pBitStrm->currentBit + nBits <= pBitStrm->count * 8;
+}
+
 /*
 Append bit one.
 
@@ -173,18 +183,20 @@ void BitStream_AppendBitZero(BitStream* pBitStrm)
 
 void BitStream_AppendNBitZero(BitStream* pBitStrm, int nbits)
 {
-	int totalBits = pBitStrm->currentBit + nbits;
-	int totalBytes = totalBits / 8;
-	pBitStrm->currentBit = totalBits % 8;
-	//pBitStrm->currentByte += totalBits / 8;
-	if (pBitStrm->currentByte + totalBytes <= pBitStrm->count) {
-		pBitStrm->currentByte += totalBytes;
-		bitstream_push_data_if_required(pBitStrm);
-	} else {
-		int extraBytes = pBitStrm->currentByte + totalBytes - pBitStrm->count;
-		pBitStrm->currentByte = pBitStrm->count;
-		bitstream_push_data_if_required(pBitStrm);
-		pBitStrm->currentByte = extraBytes;
+	assert(nbits <= 0 || bitstream_can_write(pBitStrm, nbits));
+	while (nbits > 0 && pBitStrm->currentByte < pBitStrm->count) {
+		int cb = pBitStrm->currentBit;
+		int n = nbits < 8 - cb ? nbits : 8 - cb;
+		/* make zero the next n bits of the current byte, the buffer may contain old data (e.g. in streaming mode) */
+		pBitStrm->buf[pBitStrm->currentByte] &= (byte)~(masksb[n] << (8 - cb - n));
+		nbits -= n;
+		if (cb + n < 8)
+			pBitStrm->currentBit = cb + n;
+		else {
+			pBitStrm->currentBit = 0;
+			pBitStrm->currentByte++;
+			bitstream_push_data_if_required(pBitStrm);
+		}
 	}
 }
 
@@ -310,13 +322,14 @@ flag BitStream_AppendByte0(BitStream* pBitStrm, byte v)
 
 	byte mask = (byte)~masksb[ncb];
 
+	if (!bitstream_can_write(pBitStrm, 8))
+		return FALSE;
+
 	pBitStrm->buf[pBitStrm->currentByte] &= mask;
 	pBitStrm->buf[pBitStrm->currentByte++] |= (byte)(v >> cb);
 	bitstream_push_data_if_required(pBitStrm);
 
 	if (cb) {
-		if (pBitStrm->currentByte >= pBitStrm->count)
-			return FALSE;
 		mask = (byte)~mask;
 		pBitStrm->buf[pBitStrm->currentByte] &= mask;
 		pBitStrm->buf[pBitStrm->currentByte] |= (byte)(v << ncb);
@@ -334,30 +347,11 @@ flag BitStream_AppendByteArray(BitStream* pBitStrm, const byte arr[], const int
 
     byte mask = (byte)~masksb[ncb];
     byte nmask = (byte)~mask;
-    //if (pBitStrm->currentByte + (int)arr_len + (cb > 0 ? 1 : 0) >= pBitStrm->count)
-    if ( (pBitStrm->currentByte + arr_len)*8 + cb > pBitStrm->count*8)
+    if (arr_len > 0 && !bitstream_can_write(pBitStrm, arr_len * 8))
         return FALSE;
 
-    if (arr_len> 0) {
-        byte v = arr[0];
-        pBitStrm->buf[pBitStrm->currentByte] &= mask;       //make zero right bits (i.e. the ones that will get the new value)
-        pBitStrm->buf[pBitStrm->currentByte++] |= (byte)(v >> cb);  //shift right and then populate current byte
-        bitstream_push_data_if_required(pBitStrm);
-
-        pBitStrm->buf[pBitStrm->currentByte] &= nmask;
-        pBitStrm->buf[pBitStrm->currentByte] |= (byte)(v << ncb);
-    }
-
-    for (int i = 1; i < arr_len - 1; i++) {
+    for (int i = 0; i < arr_len; i++) {
         byte v = arr[i];
-        byte v1 = (byte)(v >> cb);
-        byte v2 = (byte)(v << ncb);
-        pBitStrm->buf[pBitStrm->currentByte++] |= v1;  //shift right and then populate current byte
-        bitstream_push_data_if_required(pBitStrm);
-        pBitStrm->buf[pBitStrm->currentByte] |= v2;
-    }
-    if (arr_len - 1 > 0) {
-        byte v = arr[arr_len - 1];
         pBitStrm->buf[pBitStrm->currentByte] &= mask;       //make zero right bits (i.e. the ones that will get the new value)
         pBitStrm->buf[pBitStrm->currentByte++] |= (byte)(v >> cb);  //shift right and then populate current byte
         bitstream_push_data_if_required(pBitStrm);
-- 
2.43.0


From fa78b70341833d33585651bed8253c2fd8ce7047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:16 +0000
Subject: [PATCH 04/95] fix: streaming mode must not lose or repeat octets at
 buffer boundaries

---
 asn1crt/asn1crt_encoding.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 96c9823..15641e1 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -373,6 +373,12 @@ flag BitStream_ReadByte(BitStream* pBitStrm, byte* v)
 	int requiredBytes = (cb > 0) ? 2 : 1;
 	int availableBytes = pBitStrm->count - pBitStrm->currentByte;
 
+#ifdef ASN1SCC_STREAMING
+	/* the next byte will be fetched when the current one is consumed */
+	if (pBitStrm->fetchDataPrm != NULL)
+		requiredBytes = 1;
+#endif
+
 	if (availableBytes < requiredBytes) {
 		return FALSE;
 	}
@@ -393,15 +399,19 @@ flag BitStream_ReadByte(BitStream* pBitStrm, byte* v)
 
 
 flag BitStream_ReadByteArray(BitStream* pBitStrm, byte* arr, int arr_len) {
+#ifdef ASN1SCC_STREAMING
+    for (int i = 0; i < arr_len; i++) {
+		if (!BitStream_ReadByte(pBitStrm, &arr[i]))
+			return FALSE;
+    }
+#else
     int cb = pBitStrm->currentBit;
     int ncb = 8 - cb;
 	byte* rb = &pBitStrm->buf[pBitStrm->currentByte];
 	byte* wb = arr;
 
-#ifndef ASN1SCC_STREAMING
     if ( (pBitStrm->currentByte + arr_len)*8 + cb > pBitStrm->count*8)
         return FALSE;
-#endif
 
     for (int i = 0; i < arr_len; i++) {
 		*wb = (byte)((*rb) << cb);
@@ -411,6 +421,7 @@ flag BitStream_ReadByteArray(BitStream* pBitStrm, byte* arr, int arr_len) {
 		wb++;
     }
 	pBitStrm->currentByte += arr_len;
+#endif
     return TRUE;
 }
 
@@ -1407,6 +1418,8 @@ flag BitStream_EncodeOctetString_no_length (BitStream* pBitStrm, const byte* arr
 	if (cb == 0) {
 #ifdef ASN1SCC_STREAMING
 		int remainingBytesToSend = nCount;
+		if (nCount > 0 && !bitstream_can_write(pBitStrm, nCount * 8))
+			return FALSE;
 		while (remainingBytesToSend > 0) {
 			int currentBatch =
 				pBitStrm->currentByte + remainingBytesToSend <= pBitStrm->count ?
@@ -1416,6 +1429,7 @@ flag BitStream_EncodeOctetString_no_length (BitStream* pBitStrm, const byte* arr
 			memcpy(&pBitStrm->buf[pBitStrm->currentByte], arr, currentBatch);
 			pBitStrm->currentByte += currentBatch;
 			bitstream_push_data_if_required(pBitStrm);
+			arr += currentBatch;
 			remainingBytesToSend -= currentBatch;
 		}
 #else
@@ -1449,6 +1463,8 @@ flag BitStream_DecodeOctetString_no_length(BitStream* pBitStrm, byte* arr, int n
 #ifdef ASN1SCC_STREAMING
         int remainingBytesToRead = nCount;
         while (remainingBytesToRead > 0) {
+            if (!bitstream_can_read(pBitStrm, remainingBytesToRead * 8))
+                return FALSE;
             int currentBatch =
                 pBitStrm->currentByte + remainingBytesToRead <= pBitStrm->count ?
                 remainingBytesToRead :
@@ -1457,6 +1473,7 @@ flag BitStream_DecodeOctetString_no_length(BitStream* pBitStrm, byte* arr, int n
             memcpy(arr, &pBitStrm->buf[pBitStrm->currentByte], currentBatch);
             pBitStrm->currentByte += currentBatch;
             bitstream_fetch_data_if_required(pBitStrm);
+            arr += currentBatch;
             remainingBytesToRead -= currentBatch;
         }
 #else
-- 
2.43.0


From a732d181b8e8a5be73fe0950b81cfb781358b278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 05/95] fix: check octets of fixed/bounded octet strings on
 decode, accept empty fragmented strings

---
 asn1crt/asn1crt_encoding.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 15641e1..cffc93c 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1610,7 +1610,7 @@ flag BitStream_DecodeOctetString_fragmentation(BitStream* pBitStrm, byte* arr, i
 				if (ret) {
 					nLengthTmp1 += (long)nRemainingItemsVar1;
 
-					if ((nLengthTmp1 >= 1) && (nLengthTmp1 <= asn1SizeMax)) {
+					if (nLengthTmp1 <= asn1SizeMax) {
 						*nCount = (int)nLengthTmp1;
 
 					}
@@ -1650,7 +1650,7 @@ flag BitStream_EncodeOctetString(BitStream* pBitStrm, const byte* arr, int nCoun
 flag BitStream_DecodeOctetString(BitStream* pBitStrm, byte* arr, int* nCount, asn1SccSint asn1SizeMin, asn1SccSint asn1SizeMax) {
 	flag ret = TRUE;
 	if (asn1SizeMax < 65536) {
-		asn1SccSint nCountL;
+		asn1SccSint nCountL = 0;
 		if (asn1SizeMin < asn1SizeMax) {
 			ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCountL, asn1SizeMin, asn1SizeMax);
 		}
@@ -1661,11 +1661,11 @@ flag BitStream_DecodeOctetString(BitStream* pBitStrm, byte* arr, int* nCount, as
 		*nCount = (int)nCountL;
 		ret = ret && (nCountL >= asn1SizeMin && nCountL <= asn1SizeMax);
 		if (ret) {
-			BitStream_DecodeOctetString_no_length(pBitStrm, arr, *nCount);
+			ret = BitStream_DecodeOctetString_no_length(pBitStrm, arr, *nCount);
 		}
 	}
 	else {
-		ret = BitStream_DecodeOctetString_fragmentation(pBitStrm, arr, nCount, asn1SizeMax);
+		ret = BitStream_DecodeOctetString_fragmentation(pBitStrm, arr, nCount, asn1SizeMax) && *nCount >= asn1SizeMin;
 	}
 	return ret;
 }
@@ -1798,7 +1798,7 @@ flag BitStream_DecodeBitString(BitStream* pBitStrm, byte* arr, int* pCount, asn1
 					if (ret) {
 						nLengthTmp1 += (long)nRemainingItemsVar1;
 
-						if ((nLengthTmp1 >= 1) && (nLengthTmp1 <= asn1SizeMax)) {
+						if ((nLengthTmp1 >= asn1SizeMin) && (nLengthTmp1 <= asn1SizeMax)) {
 							*pCount = (int)nLengthTmp1;
 						} else {
 							ret = FALSE;  /*COVERAGE_IGNORE*/
-- 
2.43.0


From 83897bfc7e55749b0ed036eb916052505c398b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:45 +0000
Subject: [PATCH 06/95] fix: null terminated ACN strings must not be decoded
 past the destination

---
 asn1crt/asn1crt_encoding_acn.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 90a42db..b11f70f 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -1331,7 +1331,7 @@ flag Acn_Dec_String_Ascii_Null_Terminated_mult(BitStream* pBitStrm, asn1SccSint
 	}
 
 	asn1SccSint i = 0;
-	while (i <= max && (memcmp(null_character, tmp, sz) != 0)) {
+	while (i < max && (memcmp(null_character, tmp, sz) != 0)) {
 		strVal[i] = tmp[0];
 		i++;
 		for (int j = 0; j < (int)sz - 1; j++)
-- 
2.43.0


From f7c39cd5a1db4c25bc215b851405305e47a01e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 07/95] fix: ACN decimal (BCD/ASCII) decoders reject invalid
 digits and overflow, accept all encodable values

---
 asn1crt/asn1crt_encoding_acn.c | 61 ++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 25 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index b11f70f..93c0e29 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -565,6 +565,25 @@ void Acn_Enc_Int_BCD_ConstSize(BitStream* pBitStrm, asn1SccUint intVal, int enco
 
 
 
+//appends a decimal digit to the value decoded so far. It fails for invalid digits and for values that do not fit
+static flag Acn_append_decimal_digit(asn1SccUint* pVal, byte digit)
+{
+	if (digit > 9 || *pVal > ((asn1SccUint)MAX_INT - digit) / 10)
+		return FALSE;
+	*pVal = *pVal * 10 + digit;
+	return TRUE;
+}
+
+//converts sign and magnitude to a signed integer. It fails for values that do not fit
+static flag Acn_sign_magnitude_to_sint(flag isNegative, asn1SccUint absVal, asn1SccSint* pIntVal)
+{
+	const asn1SccUint maxPositive = (asn1SccUint)MAX_INT >> 1;
+	if (absVal > maxPositive + (isNegative ? 1 : 0))
+		return FALSE;
+	*pIntVal = (asn1SccSint)(isNegative ? 0 - absVal : absVal);
+	return TRUE;
+}
+
 flag Acn_Dec_Int_BCD_ConstSize(BitStream* pBitStrm, asn1SccUint* pIntVal, int encodedSizeInNibbles)
 {
 	byte digit;
@@ -576,8 +595,8 @@ flag Acn_Dec_Int_BCD_ConstSize(BitStream* pBitStrm, asn1SccUint* pIntVal, int en
 		if (!BitStream_ReadPartialByte(pBitStrm, &digit, 4))
 			return FALSE;
 
-		ret *= 10;
-		ret += digit;
+		if (!Acn_append_decimal_digit(&ret, digit))
+			return FALSE;
 
 		encodedSizeInNibbles--;
 	}
@@ -605,8 +624,6 @@ flag Acn_Dec_Int_BCD_VarSize_LengthEmbedded(BitStream* pBitStrm, asn1SccUint* pI
 	byte nNibbles = 0;
 	if (!BitStream_ReadByte(pBitStrm, &nNibbles))
 		return FALSE;
-	if (nNibbles > 2 * WORD_SIZE)
-		return FALSE;
 	return Acn_Dec_Int_BCD_ConstSize(pBitStrm, pIntVal, nNibbles);
 }
 
@@ -638,9 +655,8 @@ flag Acn_Dec_Int_BCD_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccUint* pI
 		if (digit>9)
 			break;
 
-		ret *= 10;
-		ret += digit;
-
+		if (!Acn_append_decimal_digit(&ret, digit))
+			return FALSE;
 	}
 	*pIntVal = ret;
 
@@ -695,11 +711,10 @@ flag Acn_Dec_UInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccUint* pIntVal, int
 	{
 		if (!BitStream_ReadByte(pBitStrm, &digit))
 			return FALSE;
-		ASSERT_OR_RETURN_FALSE(digit >= '0' && digit <= '9');
 		digit = (byte)((int)digit - '0');
 
-		ret *= 10;
-		ret += digit;
+		if (!Acn_append_decimal_digit(&ret, digit))
+			return FALSE;
 
 		encodedSizeInBytes--;
 	}
@@ -712,17 +727,14 @@ flag Acn_Dec_SInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccSint* pIntVal, int
 {
 	byte digit;
 	asn1SccUint ret = 0;
-	int sign = 1;
+	flag isNegative = FALSE;
 
 	if (!BitStream_ReadByte(pBitStrm, &digit))
 		return FALSE;
-	if (digit == '+')
-		sign = 1;
-	else if (digit == '-')
-		sign = -1;
-	else {
-		ASSERT_OR_RETURN_FALSE(0);
-	}
+	if (digit == '-')
+		isNegative = TRUE;
+	else if (digit != '+')
+		return FALSE;
 	encodedSizeInBytes--;
 
 
@@ -730,8 +742,7 @@ flag Acn_Dec_SInt_ASCII_ConstSize(BitStream* pBitStrm, asn1SccSint* pIntVal, int
 		return false;
 	}
 
-	*pIntVal = (asn1SccSint)(sign < 0 ? 0 - ret : ret);
-	return TRUE;
+	return Acn_sign_magnitude_to_sint(isNegative, ret, pIntVal);
 
 }
 
@@ -872,8 +883,8 @@ flag Acn_Dec_UInt_ASCII_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccUint*
 
 		digit = (byte)((int)digit - '0');
 
-		ret *= 10;
-		ret += digit;
+		if (!Acn_append_decimal_digit(&ret, digit))
+			return FALSE;
 	}
 
 	*pIntVal = ret;
@@ -890,15 +901,15 @@ flag Acn_Dec_SInt_ASCII_VarSize_NullTerminated(BitStream* pBitStrm, asn1SccSint*
 
 	if (!BitStream_ReadByte(pBitStrm, &digit))
 		return FALSE;
-	ASSERT_OR_RETURN_FALSE(digit == '-' || digit == '+');
+	if (digit != '-' && digit != '+')
+		return FALSE;
 	if (digit == '-')
 		isNegative = TRUE;
 
 	if (!Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &ret, null_characters, null_characters_size))
 		return false;
 
-	*pIntVal = (asn1SccSint)(isNegative ? 0 - ret : ret);
-	return TRUE;
+	return Acn_sign_magnitude_to_sint(isNegative, ret, pIntVal);
 }
 
 
-- 
2.43.0


From 0ead15596fe4c47f4c1b9757baa0da4a8a9139da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 08/95] fix: 64 bit ACN integers with 4 byte words: bounds
 check on decode, sign extension on encode

---
 asn1crt/asn1crt_encoding_acn.c | 39 ++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 93c0e29..274d9d1 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -211,9 +211,26 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(BitStream* pBitStrm, as
 	return Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_N(pBitStrm, pIntVal, 4);
 }
 
+#if WORD_SIZE!=8
+//skips the bytes of a 64 bit integer that do not fit in asn1SccUint
+static flag Acn_skip_extra_bytes(BitStream* pBitStrm)
+{
+    int i;
+    byte b;
+    for (i = 0; i < 8 - WORD_SIZE; i++) {
+        if (!BitStream_ReadByte(pBitStrm, &b))
+            return FALSE;
+    }
+    return TRUE;
+}
+#endif
+
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(BitStream* pBitStrm, asn1SccUint* pIntVal)
 {
-    pBitStrm->currentByte += (8 - WORD_SIZE);
+#if WORD_SIZE!=8
+    if (!Acn_skip_extra_bytes(pBitStrm))
+        return FALSE;
+#endif
 
 	return Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_N(pBitStrm, pIntVal, WORD_SIZE);
 }
@@ -255,7 +272,9 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(BitStream* pBitStrm,
 {
     flag ret;
 	ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_N(pBitStrm, pIntVal, WORD_SIZE);
-    pBitStrm->currentByte += (8 - WORD_SIZE);
+#if WORD_SIZE!=8
+    ret = ret && Acn_skip_extra_bytes(pBitStrm);
+#endif
     return ret;
 }
 
@@ -349,7 +368,13 @@ void Acn_Enc_Int_TwosComplement_ConstSize_big_endian_32(BitStream* pBitStrm, asn
 
 void Acn_Enc_Int_TwosComplement_ConstSize_big_endian_64(BitStream* pBitStrm, asn1SccSint intVal)
 {
-    Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, int2uint(intVal));
+#if WORD_SIZE!=8
+    int i;
+    for (i = 0; i < 8 - WORD_SIZE; i++) {
+        BitStream_AppendByte0(pBitStrm, intVal < 0 ? 0xFF : 0x0);
+    }
+#endif
+    Acn_Enc_Int_PositiveInteger_ConstSize_big_endian_B(pBitStrm, int2uint(intVal), WORD_SIZE);
 }
 
 void Acn_Enc_Int_TwosComplement_ConstSize_little_endian_16(BitStream* pBitStrm, asn1SccSint intVal)
@@ -364,7 +389,13 @@ void Acn_Enc_Int_TwosComplement_ConstSize_little_endian_32(BitStream* pBitStrm,
 
 void Acn_Enc_Int_TwosComplement_ConstSize_little_endian_64(BitStream* pBitStrm, asn1SccSint intVal)
 {
-	Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, int2uint(intVal));
+	Acn_Enc_Int_PositiveInteger_ConstSize_little_endian_N(pBitStrm, int2uint(intVal), WORD_SIZE);
+#if WORD_SIZE!=8
+	int i;
+	for (i = 0; i < 8 - WORD_SIZE; i++) {
+		BitStream_AppendByte0(pBitStrm, intVal < 0 ? 0xFF : 0x0);
+	}
+#endif
 }
 
 
-- 
2.43.0


From fb550a733c8f39ede8cbe179e05e0648d13da8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:20 +0000
Subject: [PATCH 09/95] fix: narrow (slim) ACN decoders reject values that do
 not fit instead of truncating them

---
 asn1crt/asn1crt_encoding.c     |   2 +-
 asn1crt/asn1crt_encoding_acn.c | 292 ++++++++++++++++-----------------
 2 files changed, 147 insertions(+), 147 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index cffc93c..bebb9b3 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1832,7 +1832,7 @@ void bitstream_push_data_if_required(BitStream* pStrm) {
 
 flag BitStream_DecodeReal_fp32(BitStream* pBitStrm, float* v)
 {
-	asn1Real rv;
+	asn1Real rv = 0;
 	flag ret = BitStream_DecodeReal(pBitStrm, &rv);
 	*v = (float)rv;
 	return ret;
diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 274d9d1..a32cdae 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -1514,586 +1514,586 @@ asn1SccSint milbus_decode(asn1SccSint val)
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSizeUInt8(BitStream* pBitStrm, uint8_t* pIntVal, int encodedSizeInBits) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSizeUInt16(BitStream* pBitStrm, uint16_t* pIntVal, int encodedSizeInBits) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSizeUInt32(BitStream* pBitStrm, uint32_t* pIntVal, int encodedSizeInBits) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_8UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_8(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_16(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32UInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64UInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_16(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32UInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64UInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64UInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64UInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbeddedUInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbeddedUInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbeddedUInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_PositiveInteger_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSizeInt8(BitStream* pBitStrm, int8_t* pIntVal, int encodedSizeInBits) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSizeInt16(BitStream* pBitStrm, int16_t* pIntVal, int encodedSizeInBits) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSizeInt32(BitStream* pBitStrm, int32_t* pIntVal, int encodedSizeInBits) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize(pBitStrm, &v, encodedSizeInBits);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_8Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_8(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_16(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32Int32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_32(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64Int32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_big_endian_64(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_16(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32Int32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_32(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64Int32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64Int16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64Int8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_ConstSize_little_endian_64(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_VarSize_LengthEmbeddedInt8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_VarSize_LengthEmbeddedInt16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_TwosComplement_VarSize_LengthEmbeddedInt32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_Int_TwosComplement_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_BCD_ConstSizeUInt8(BitStream* pBitStrm, uint8_t* pIntVal, int encodedSizeInNibbles) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_ConstSize(pBitStrm, &v, encodedSizeInNibbles);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_BCD_ConstSizeUInt16(BitStream* pBitStrm, uint16_t* pIntVal, int encodedSizeInNibbles) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_ConstSize(pBitStrm, &v, encodedSizeInNibbles);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_BCD_ConstSizeUInt32(BitStream* pBitStrm, uint32_t* pIntVal, int encodedSizeInNibbles) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_ConstSize(pBitStrm, &v, encodedSizeInNibbles);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_LengthEmbeddedUInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_LengthEmbeddedUInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_LengthEmbeddedUInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_NullTerminatedUInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_VarSize_NullTerminated(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_NullTerminatedUInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_VarSize_NullTerminated(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_Int_BCD_VarSize_NullTerminatedUInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_Int_BCD_VarSize_NullTerminated(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_SInt_ASCII_ConstSizeInt8(BitStream* pBitStrm, int8_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_SInt_ASCII_ConstSizeInt16(BitStream* pBitStrm, int16_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_SInt_ASCII_ConstSizeInt32(BitStream* pBitStrm, int32_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_LengthEmbeddedInt8(BitStream* pBitStrm, int8_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_LengthEmbeddedInt16(BitStream* pBitStrm, int16_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_LengthEmbeddedInt32(BitStream* pBitStrm, int32_t* pIntVal) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_NullTerminatedInt8(BitStream* pBitStrm, int8_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (int8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_NullTerminatedInt16(BitStream* pBitStrm, int16_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (int16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_SInt_ASCII_VarSize_NullTerminatedInt32(BitStream* pBitStrm, int32_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccSint v;
+	asn1SccSint v = 0;
 	flag ret = Acn_Dec_SInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (int32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_UInt_ASCII_ConstSizeUInt8(BitStream* pBitStrm, uint8_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_UInt_ASCII_ConstSizeUInt16(BitStream* pBitStrm, uint16_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_UInt_ASCII_ConstSizeUInt32(BitStream* pBitStrm, uint32_t* pIntVal, int encodedSizeInBytes) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_ConstSize(pBitStrm, &v, encodedSizeInBytes);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_LengthEmbeddedUInt8(BitStream* pBitStrm, uint8_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_LengthEmbeddedUInt16(BitStream* pBitStrm, uint16_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_LengthEmbeddedUInt32(BitStream* pBitStrm, uint32_t* pIntVal) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_LengthEmbedded(pBitStrm, &v);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt8(BitStream* pBitStrm, uint8_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (uint8_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt16(BitStream* pBitStrm, uint16_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (uint16_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
 flag Acn_Dec_UInt_ASCII_VarSize_NullTerminatedUInt32(BitStream* pBitStrm, uint32_t* pIntVal, const byte null_characters[], size_t null_characters_size) {
-	asn1SccUint v;
+	asn1SccUint v = 0;
 	flag ret = Acn_Dec_UInt_ASCII_VarSize_NullTerminated(pBitStrm, &v, null_characters, null_characters_size);
 	*pIntVal = (uint32_t)v;
-	return ret;
+	return ret && *pIntVal == v;
 }
 
 
-- 
2.43.0


From f718199beeaba163a5ad45f257eeafab0b6360af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 10/95] fix: object identifier decoding rejects incomplete and
 too large subidentifiers

---
 asn1crt/asn1crt_encoding_uper.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding_uper.c b/asn1crt/asn1crt_encoding_uper.c
index e92b5a2..67e8497 100644
--- a/asn1crt/asn1crt_encoding_uper.c
+++ b/asn1crt/asn1crt_encoding_uper.c
@@ -95,10 +95,13 @@ static flag ObjectIdentifier_subidentifiers_uper_decode(BitStream* pBitStrm, asn
 
 		bLastOctet = ((curByte & 0x80) == 0);
 		curOctetValue = curByte & 0x7F;
+		if ((*siValue) > ((asn1SccUint)MAX_INT >> 7))
+			return FALSE; /*subidentifier does not fit in asn1SccUint*/
 		(*siValue) <<= 7;
 		(*siValue) |= curOctetValue;
 	}
-	return TRUE;
+	//false when the contents octets are exhausted before the last octet of the subidentifier
+	return bLastOctet;
 }
 
 static flag ObjectIdentifier_uper_decode_length(BitStream* pBitStrm, asn1SccSint* totalSize) {
-- 
2.43.0


From 33d8dcd6325055c0ae7bbb015e7f3f679cee454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:25 +0000
Subject: [PATCH 11/95] fix: C REAL codec: exact for all doubles (zero sign,
 subnormals, extremes, 4 byte words), bounded work and checked headers

---
 asn1crt/asn1crt_encoding.c | 104 ++++++++++++++++++++++++-------------
 asn1crt/asn1crt_encoding.h |   2 +-
 2 files changed, 70 insertions(+), 36 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index bebb9b3..7ca0812 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -1124,39 +1124,41 @@ void CalculateMantissaAndExponent(asn1Real d, int* exponent, asn1SccUint64* mant
 #if FP_WORD_SIZE==8
 	* exponent = (int)(((ll & ExpoBitMask) >> 52) - 1023 - 52);
 	*mantissa = ll & MantBitMask;
-	(*mantissa) |= MantisaExtraBit;
 #else
 	*exponent = (int)(((ll & ExpoBitMask) >> 23) - 127 - 23);
 
 	*mantissa = ll & MantBitMask;
-	(*mantissa) |= MantisaExtraBit;
 #endif
+	if (ll & ExpoBitMask) {
+		(*mantissa) |= MantisaExtraBit;
+	}
+	else if (*mantissa != 0) {
+		/*subnormal numbers have no hidden bit and the exponent of the smallest normal number*/
+		(*exponent)++;
+		while (((*mantissa) & MantisaExtraBit) == 0) {
+			(*mantissa) <<= 1;
+			(*exponent)--;
+		}
+	}
 }
 
-asn1Real GetDoubleByMantissaAndExp(asn1SccUint mantissa, int exponent)
+asn1Real GetDoubleByMantissaAndExp(asn1SccUint64 mantissa, int exponent)
 {
 #ifdef USE_LDEXP
 	return (asn1Real)ldexp((double)mantissa, exponent);
 #else
-	asn1Real ret = 1.0;
-	if (mantissa == 0)
-		return 0.0;
+	/*scale step by step (every step is exact), stop when the result cannot change any more*/
+	asn1Real ret = (asn1Real)mantissa;
 
-	if (exponent >= 0) {
-		while (exponent) {
-			ret = ret * 2.0;
-			exponent--;
-		}
-		return (asn1Real)mantissa*ret;
+	while (exponent > 0 && ret != 0 && !isinf(ret)) {
+		ret = ret * 2;
+		exponent--;
 	}
-	else {
-		exponent = -exponent;
-		while (exponent) {
-			ret = ret * 2.0;
-			exponent--;
-		}
-		return ((asn1Real)mantissa) / ret;
+	while (exponent < 0 && ret != 0) {
+		ret = ret / 2;
+		exponent++;
 	}
+	return ret;
 #endif
 }
 
@@ -1177,16 +1179,16 @@ void BitStream_EncodeReal(BitStream* pBitStrm, asn1Real v)
 		return;
 	}
 
+	if (v == 0.0 && signbit(v)) {
+		BitStream_EncodeConstraintWholeNumber(pBitStrm, 1, 0, 0xFF);
+		BitStream_EncodeConstraintWholeNumber(pBitStrm, 0x43, 0, 0xFF);
+		return;
+	}
 	if (v == 0.0)
 	{
 		BitStream_EncodeConstraintWholeNumber(pBitStrm, 0, 0, 0xFF);
 		return;
 	}
-	if (v == -0.0) {
-		BitStream_EncodeConstraintWholeNumber(pBitStrm, 1, 0, 0xFF);
-		BitStream_EncodeConstraintWholeNumber(pBitStrm, 0x43, 0, 0xFF);
-		return;
-    }
 
 	if (v == INFINITY)
 	{
@@ -1209,7 +1211,9 @@ void BitStream_EncodeReal(BitStream* pBitStrm, asn1Real v)
 
 	CalculateMantissaAndExponent(v, &exponent, &mantissa);
 	nExpLen = GetLengthInBytesOfSInt(exponent);
-	nManLen = GetLengthInBytesOfUInt(mantissa);
+	nManLen = 1;
+	while (nManLen < 8 && (mantissa >> (nManLen * 8)) != 0)
+		nManLen++;
 	assert(nExpLen <= 3);
 	if (nExpLen == 2)
 		header |= 1;
@@ -1235,8 +1239,10 @@ void BitStream_EncodeReal(BitStream* pBitStrm, asn1Real v)
 
 
 	/* encode mantissa */
-	BitStream_AppendNBitZero(pBitStrm, nManLen * 8 - GetNumberOfBitsForNonNegativeInteger((asn1SccUint)(mantissa)));
-	BitStream_EncodeNonNegativeInteger(pBitStrm, mantissa);
+	while (nManLen > 0) {
+		nManLen--;
+		BitStream_AppendByte(pBitStrm, (byte)(mantissa >> (nManLen * 8)), FALSE);
+	}
 
 }
 
@@ -1258,6 +1264,10 @@ flag BitStream_DecodeReal(BitStream* pBitStrm, asn1Real* v)
 	if (!BitStream_ReadByte(pBitStrm, &header))
 		return FALSE;
 
+	/*only the binary encoding (bit 8 is one) and the special values (one octet) are supported*/
+	if (!(header & 0x80) && length != 1)
+		return FALSE;
+
 	if (header == 0x40)
 	{
 		*v = INFINITY;
@@ -1280,6 +1290,9 @@ flag BitStream_DecodeReal(BitStream* pBitStrm, asn1Real* v)
         return TRUE;
     }
 
+	if (!(header & 0x80))
+		return FALSE;
+
 	return DecodeRealAsBinaryEncoding(pBitStrm, length - 1, header, v);
 }
 
@@ -1289,17 +1302,22 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 	int sign = 1;
 	/*int base=2;*/
 	int F;
-	unsigned factor = 1;
 	int expLen;
 	int exponent;
+	asn1SccUint32 uexponent;
 	flag expIsNegative = FALSE;
 	int expFactor = 1;
-	asn1SccUint N = 0;
+	asn1SccUint64 N = 0;
 	int i;
+	const int MAX_EXPONENT = 0xFFFF; /*larger exponents have the same result*/
 
 	if (header & 0x40)
 		sign = -1;
-	if (header & 0x10) {
+	if ((header & 0x30) == 0x30) {
+		/*reserved*/
+		return FALSE;
+	}
+	else if (header & 0x10) {
 		/*base = 8;*/
 		expFactor = 3;
 	}
@@ -1309,20 +1327,34 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 	}
 
 	F = (header & 0x0C) >> 2;
-	factor <<= F;
 
 	expLen = (header & 0x03) + 1;
+	if (expLen == 4) {
+		/*the length of the exponent is encoded in the next octet*/
+		byte b = 0;
+		if (length < 1 || !BitStream_ReadByte(pBitStrm, &b))
+			return FALSE;
+		expLen = b;
+		length--;
+		if (expLen < 1 || expLen > 4)
+			return FALSE;
+	}
 
 	if (expLen>length)
 		return FALSE;
 	expIsNegative = BitStream_PeekBit(pBitStrm);
-	exponent = expIsNegative ? 0xFFFFFFFF : 0;
+	uexponent = expIsNegative ? 0xFFFFFFFF : 0;
 	for (i = 0; i<expLen; i++) {
 		byte b = 0;
 		if (!BitStream_ReadByte(pBitStrm, &b))
 			return FALSE;
-		exponent = exponent << 8 | b;
+		uexponent = uexponent << 8 | b;
 	}
+	exponent = (int)(asn1SccSint32)uexponent;
+	if (exponent > MAX_EXPONENT)
+		exponent = MAX_EXPONENT;
+	else if (exponent < -MAX_EXPONENT)
+		exponent = -MAX_EXPONENT;
 
 	length -= expLen;
 
@@ -1330,12 +1362,14 @@ flag DecodeRealAsBinaryEncoding(BitStream* pBitStrm, int length, byte header, as
 		byte b = 0;
 		if (!BitStream_ReadByte(pBitStrm, &b))
 			return FALSE;
+		if ((N >> 56) != 0)
+			return FALSE; /*mantissa larger than 64 bits*/
 		N = N << 8 | b;
 	}
 
 
-	/*  *v = N*factor * pow(base,exp);*/
-	*v = GetDoubleByMantissaAndExp(N*factor, expFactor*exponent);
+	/*  *v = N*2^F * pow(base,exp);*/
+	*v = GetDoubleByMantissaAndExp(N, expFactor*exponent + F);
 
 	if (sign<0)
 		*v = -(*v);
diff --git a/asn1crt/asn1crt_encoding.h b/asn1crt/asn1crt_encoding.h
index 2d8c174..abd7aff 100644
--- a/asn1crt/asn1crt_encoding.h
+++ b/asn1crt/asn1crt_encoding.h
@@ -85,7 +85,7 @@ flag BitStream_DecodeConstraintPosWholeNumberUInt32(BitStream* pBitStrm, uint32_
 int GetNumberOfBitsForNonNegativeInteger(asn1SccUint v);
 
 void CalculateMantissaAndExponent(asn1Real d, int* exp, asn1SccUint64* mantissa);
-asn1Real GetDoubleByMantissaAndExp(asn1SccUint mantissa, int exp);
+asn1Real GetDoubleByMantissaAndExp(asn1SccUint64 mantissa, int exp);
 
 int GetLengthInBytesOfSInt(asn1SccSint v);
 int GetLengthInBytesOfUInt(asn1SccUint64 v);
-- 
2.43.0


From d2f32ea9a58d528b04aa828db09b8e901e64a6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:56 +0000
Subject: [PATCH 12/95] fix: Ada REAL decoding is exact for subnormals and
 extreme exponents

---
 ADA_RTL2/src/adaasn1rtl-encoding-uper.adb | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
index 98067da..fecc00a 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
@@ -252,8 +252,27 @@ is
       return Asn1Real
    is
       pragma SPARK_Mode (Off);
+      --  larger exponents have the same result
+      Max_Exp   : constant Integer := 16#FFFF#;
+      Exponent2 : Integer := Integer'Max (-Max_Exp,
+                                          Integer'Min (Max_Exp, Exp));
    begin
-      return (Asn1Real (Factor * N) * Asn1Real (base)**Exp);
+      if base = 8 then
+         Exponent2 := Exponent2 * 3;
+      elsif base = 16 then
+         Exponent2 := Exponent2 * 4;
+      end if;
+
+      if Factor = 2 then
+         Exponent2 := Exponent2 + 1;
+      elsif Factor = 4 then
+         Exponent2 := Exponent2 + 2;
+      elsif Factor = 8 then
+         Exponent2 := Exponent2 + 3;
+      end if;
+
+      --  scaling is exact, base**Exp over/underflows for extreme exponents
+      return Asn1Real'Scaling (Asn1Real (N), Exponent2);
    end CalcReal;
 
    procedure UPER_Dec_Real_AsBinary_aux
-- 
2.43.0


From 87512c4c5f92c4e72927735ea2a44384ae2040b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:02 +0000
Subject: [PATCH 13/95] fix: AppendPartialByte must clear the bits it writes in
 the next byte and keep the following ones

---
 asn1crt/asn1crt_encoding.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 7ca0812..5da4a60 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -499,7 +499,7 @@ void BitStream_AppendPartialByte(BitStream* pBitStrm, byte v, byte nbits, flag n
 		pBitStrm->buf[pBitStrm->currentByte] &= mask1;
 		pBitStrm->buf[pBitStrm->currentByte++] |= (byte)(v >> totalBitsForNextByte);
 		bitstream_push_data_if_required(pBitStrm);
-		byte mask = (byte)~masksb[8 - totalBitsForNextByte];
+		byte mask = masksb[8 - totalBitsForNextByte];
 		pBitStrm->buf[pBitStrm->currentByte] &= mask;
 		pBitStrm->buf[pBitStrm->currentByte] |= (byte)(v << (8 - totalBitsForNextByte));
 		pBitStrm->currentBit = totalBitsForNextByte;
-- 
2.43.0


From 7299c10d40c5b368026aabe3bdbb754b02c3794d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:05 +0000
Subject: [PATCH 14/95] fix: ACN alignment writes zero padding and does not
 abort on truncated data

---
 asn1crt/asn1crt_encoding_acn.c | 52 +++++++++++++++++-----------------
 1 file changed, 26 insertions(+), 26 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index a32cdae..13efae0 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -12,51 +12,51 @@ static flag RequiresReverse(void)
 
 void Acn_AlignToNextByte(BitStream* pBitStrm, flag bEncode)
 {
-	CHECK_BIT_STREAM_PRE(pBitStrm, (NO_OF_BITS_IN_BYTE -
-		pBitStrm->currentBit) & (NO_OF_BITS_IN_BYTE - 1));
-
 	if (pBitStrm->currentBit != 0)
 	{
-		pBitStrm->currentBit = 0;
-		pBitStrm->currentByte++;
-		if (bEncode)
-			bitstream_push_data_if_required(pBitStrm);
-		else
+		if (bEncode) {
+			/* the padding bits are zero, the buffer may contain old data */
+			BitStream_AppendNBitZero(pBitStrm, NO_OF_BITS_IN_BYTE - pBitStrm->currentBit);
+		}
+		else {
+			pBitStrm->currentBit = 0;
+			pBitStrm->currentByte++;
 			bitstream_fetch_data_if_required(pBitStrm);
+		}
 		CHECK_BIT_STREAM(pBitStrm);
 	}
 }
 
 void Acn_AlignToNextWord(BitStream* pBitStrm, flag bEncode)
 {
-	CHECK_BIT_STREAM_PRE(pBitStrm, (NO_OF_BITS_IN_INT16 -
-		(NO_OF_BITS_IN_BYTE * (pBitStrm->currentByte & (NO_OF_BYTES_IN_INT16 - 1)) + pBitStrm->currentBit))
-		& (NO_OF_BITS_IN_INT16 - 1));
-
 	Acn_AlignToNextByte(pBitStrm, bEncode);
-	pBitStrm->currentByte = ((pBitStrm->currentByte + (NO_OF_BYTES_IN_INT16 - 1)) / NO_OF_BYTES_IN_INT16) * NO_OF_BYTES_IN_INT16;
-
-	if (bEncode)
-		bitstream_push_data_if_required(pBitStrm);
-	else
+	if (bEncode) {
+		while (pBitStrm->currentByte % (int)NO_OF_BYTES_IN_INT16 != 0 && BitStream_AppendByte0(pBitStrm, 0)) {
+		}
+	}
+	else {
+		pBitStrm->currentByte = ((pBitStrm->currentByte + (NO_OF_BYTES_IN_INT16 - 1)) / NO_OF_BYTES_IN_INT16) * NO_OF_BYTES_IN_INT16;
+		if (pBitStrm->currentByte > pBitStrm->count)
+			pBitStrm->currentByte = pBitStrm->count; /* truncated data, nothing more can be read */
 		bitstream_fetch_data_if_required(pBitStrm);
+	}
 
 	CHECK_BIT_STREAM(pBitStrm);
 }
 
 void Acn_AlignToNextDWord(BitStream* pBitStrm, flag bEncode)
 {
-	CHECK_BIT_STREAM_PRE(pBitStrm, (NO_OF_BITS_IN_INT32 -
-		(NO_OF_BITS_IN_BYTE * (pBitStrm->currentByte & (NO_OF_BYTES_IN_INT32 - 1)) + pBitStrm->currentBit))
-		& (NO_OF_BITS_IN_INT32 - 1));
-
 	Acn_AlignToNextByte(pBitStrm, bEncode);
-	pBitStrm->currentByte = ((pBitStrm->currentByte + (NO_OF_BYTES_IN_INT32 - 1)) / NO_OF_BYTES_IN_INT32) * NO_OF_BYTES_IN_INT32;
-
-	if (bEncode)
-		bitstream_push_data_if_required(pBitStrm);
-	else
+	if (bEncode) {
+		while (pBitStrm->currentByte % (int)NO_OF_BYTES_IN_INT32 != 0 && BitStream_AppendByte0(pBitStrm, 0)) {
+		}
+	}
+	else {
+		pBitStrm->currentByte = ((pBitStrm->currentByte + (NO_OF_BYTES_IN_INT32 - 1)) / NO_OF_BYTES_IN_INT32) * NO_OF_BYTES_IN_INT32;
+		if (pBitStrm->currentByte > pBitStrm->count)
+			pBitStrm->currentByte = pBitStrm->count; /* truncated data, nothing more can be read */
 		bitstream_fetch_data_if_required(pBitStrm);
+	}
 
 	CHECK_BIT_STREAM(pBitStrm);
 }
-- 
2.43.0


From 1331aa701e4726615e2bf2798b8753470aaee3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:53 +0000
Subject: [PATCH 15/95] fix: no unused function warnings for runtime helpers in
 pruned runtimes

---
 asn1crt/asn1crt_encoding.c     | 4 ++--
 asn1crt/asn1crt_encoding_acn.c | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 5da4a60..09a5866 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -104,7 +104,7 @@ asn1SccSint BitStream_GetLength(BitStream* pBitStrm)
 }
 
 /* checks that nBits more bits can be read from the stream. In streaming mode more data are fetched on demand */
-static flag bitstream_can_read(const BitStream* pBitStrm, int nBits)
+static inline flag bitstream_can_read(const BitStream* pBitStrm, int nBits)
 {
 #ifdef ASN1SCC_STREAMING
 	if (pBitStrm->fetchDataPrm != NULL)
@@ -114,7 +114,7 @@ static flag bitstream_can_read(const BitStream* pBitStrm, int nBits)
 }
 
 /* checks that nBits more bits can be written to the stream. In streaming mode the buffer is pushed out when it is full */
-static flag bitstream_can_write(const BitStream* pBitStrm, int nBits)
+static inline flag bitstream_can_write(const BitStream* pBitStrm, int nBits)
 {
 #ifdef ASN1SCC_STREAMING
 	if (pBitStrm->pushDataPrm != NULL)
diff --git a/asn1crt/asn1crt_encoding_acn.c b/asn1crt/asn1crt_encoding_acn.c
index 13efae0..eaa63a6 100644
--- a/asn1crt/asn1crt_encoding_acn.c
+++ b/asn1crt/asn1crt_encoding_acn.c
@@ -213,7 +213,7 @@ flag Acn_Dec_Int_PositiveInteger_ConstSize_big_endian_32(BitStream* pBitStrm, as
 
 #if WORD_SIZE!=8
 //skips the bytes of a 64 bit integer that do not fit in asn1SccUint
-static flag Acn_skip_extra_bytes(BitStream* pBitStrm)
+static inline flag Acn_skip_extra_bytes(BitStream* pBitStrm)
 {
     int i;
     byte b;
@@ -597,7 +597,7 @@ void Acn_Enc_Int_BCD_ConstSize(BitStream* pBitStrm, asn1SccUint intVal, int enco
 
 
 //appends a decimal digit to the value decoded so far. It fails for invalid digits and for values that do not fit
-static flag Acn_append_decimal_digit(asn1SccUint* pVal, byte digit)
+static inline flag Acn_append_decimal_digit(asn1SccUint* pVal, byte digit)
 {
 	if (digit > 9 || *pVal > ((asn1SccUint)MAX_INT - digit) / 10)
 		return FALSE;
@@ -606,7 +606,7 @@ static flag Acn_append_decimal_digit(asn1SccUint* pVal, byte digit)
 }
 
 //converts sign and magnitude to a signed integer. It fails for values that do not fit
-static flag Acn_sign_magnitude_to_sint(flag isNegative, asn1SccUint absVal, asn1SccSint* pIntVal)
+static inline flag Acn_sign_magnitude_to_sint(flag isNegative, asn1SccUint absVal, asn1SccSint* pIntVal)
 {
 	const asn1SccUint maxPositive = (asn1SccUint)MAX_INT >> 1;
 	if (absVal > maxPositive + (isNegative ? 1 : 0))
-- 
2.43.0


From 8149d206c8ac8a2c170438b32488891ae3cd8360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:51 +0000
Subject: [PATCH 16/95] fix: semi and unconstrained integers: reject values
 that do not fit and empty contents

---
 asn1crt/asn1crt_encoding.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index 09a5866..fb88bea 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -979,6 +979,8 @@ flag BitStream_DecodeSemiConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint*
 			return FALSE;
 		uv = (uv << 8) | b;
 	}
+	if (uv > ((asn1SccUint)MAX_INT >> 1) - (asn1SccUint)min)
+		return FALSE; /*the value does not fit in asn1SccSint*/
 	*v = (asn1SccSint)(uv + (asn1SccUint)min);
 	return TRUE;
 }
@@ -998,6 +1000,8 @@ flag BitStream_DecodeSemiConstraintPosWholeNumber(BitStream* pBitStrm, asn1SccUi
 			return FALSE;
 		*v = (*v << 8) | b;
 	}
+	if (*v > (asn1SccUint)MAX_INT - min)
+		return FALSE; /*the value does not fit in asn1SccUint*/
 	*v += min;
 	return TRUE;
 }
@@ -1030,7 +1034,7 @@ flag BitStream_DecodeUnConstraintWholeNumber(BitStream* pBitStrm, asn1SccSint* v
 
 	if (!BitStream_DecodeConstraintWholeNumber(pBitStrm, &nBytes, 0, 255))
 		return FALSE;
-	if (nBytes > WORD_SIZE)
+	if (nBytes < 1 || nBytes > WORD_SIZE)
 		return FALSE;
 
 	valIsNegative = BitStream_PeekBit(pBitStrm);
-- 
2.43.0


From be88e3442f0249557b4b63208d68fd4918a51b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 17/95] fix: uPER enumeration index follows the ascending
 enumeration values

---
 BackendAst/DAstUPer.fs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/BackendAst/DAstUPer.fs b/BackendAst/DAstUPer.fs
index 92517dc..dfe7c4e 100644
--- a/BackendAst/DAstUPer.fs
+++ b/BackendAst/DAstUPer.fs
@@ -319,7 +319,8 @@ let createEnumeratedFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (codec:C
         match r.args.isEnumEfficientEnabled o.items.Length with
         | false ->
             let items =
-                o.items |> List.mapi(fun i itm -> Enumerated_item pp (lm.lg.getNamedItemBackendName (Some typeDefinition) itm) (BigInteger i) nLastItemIndex codec)
+                // X.691 14.1: the enumeration index follows the ascending order of the enumeration values
+                o.items |> List.sortBy(fun itm -> itm.definitionValue) |> List.mapi(fun i itm -> Enumerated_item pp (lm.lg.getNamedItemBackendName (Some typeDefinition) itm) (BigInteger i) nLastItemIndex codec)
             let nBits = (GetNumberOfBitsForNonNegativeInteger (nMax-nMin))
             let funcBodyContent = Enumerated pp td items nMin nMax nBits errCode.errCodeName nLastItemIndex sFirstItemName codec
             {UPERFuncBodyResult.funcBody = funcBodyContent; errCodes = [errCode]; localVariables = []; bValIsUnReferenced=false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries = []}
-- 
2.43.0


From 3a92a1281b37dfbb07029d4da12fac16bb97ffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:00 +0000
Subject: [PATCH 18/95] fix: half-open subtypes of bounded integers keep the
 parent bounds

---
 CommonTypes/CommonTypes.fs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CommonTypes/CommonTypes.fs b/CommonTypes/CommonTypes.fs
index 10707bf..63ccc18 100644
--- a/CommonTypes/CommonTypes.fs
+++ b/CommonTypes/CommonTypes.fs
@@ -983,12 +983,12 @@ let rec uperIntersection r1 r2 (l:SrcLoc) =
     | (PosInf(a), PosInf(b))        -> PosInf(max a b)
     | (PosInf(a), NegInf(b))        -> if a<=b then Concrete(a,b) else emptyTypeError l
     | (PosInf(a1), Concrete(a,b))   -> if a1>b then emptyTypeError l
-                                        elif a1<=a then r1
+                                        elif a1<=a then r2
                                         else Concrete(a1,b)
     | (NegInf(a), NegInf(b))        -> NegInf(min a b)
     | (NegInf(a), PosInf(b))        -> if a>=b then Concrete(b,a) else emptyTypeError l
     | (NegInf(a1), Concrete(a,b))   -> if a1<a then emptyTypeError l
-                                        elif a1<b then Concrete(a1,b)
+                                        elif a1<b then Concrete(a,a1)
                                         else r2
     | (Concrete(a1,b1), Concrete(a2,b2)) -> if a1<=a2 && a2<=b1 && b1<=b2 then Concrete(a2,b1)
                                             elif a2<=a1 && a1<=b2 && b2<=b1 then Concrete(a1, b2)
-- 
2.43.0


From 0b00efacfed8368bc8001a5cc1f779577e7f076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 19/95] fix: declare LLONG_MIN for generated constants
 (limits.h)

---
 asn1crt/asn1crt.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/asn1crt/asn1crt.h b/asn1crt/asn1crt.h
index ecc5b7c..0510390 100644
--- a/asn1crt/asn1crt.h
+++ b/asn1crt/asn1crt.h
@@ -2,6 +2,7 @@
 #define ASN1SCC_ASN1CRT_H_
 
 #include <stddef.h>
+#include <limits.h>
 
 
 #ifdef  __cplusplus
-- 
2.43.0


From 2cd15aaab4fe255b387ee2a7313e3369fc0af151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 20/95] fix: Ada single value string constraints compare up to
 the terminator

---
 StgAda/isvalid_a.stg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StgAda/isvalid_a.stg b/StgAda/isvalid_a.stg
index eec41b2..9d8e42b 100644
--- a/StgAda/isvalid_a.stg
+++ b/StgAda/isvalid_a.stg
@@ -47,7 +47,7 @@ GetEnumIndexByName(sEnumValuesArray, sEnumValuesArrayCount, sExp, bBinarySearch)
 
 
 ExpEqual(sExp1, sExp2) ::= "(<sExp1> = <sExp2>)"
-ExpStringEqual(sExp1, sExp2) ::= "(<sExp1> = <sExp2>)"
+ExpStringEqual(sExp1, sExp2) ::= "adaasn1rtl.String_Equal(<sExp1>, <sExp2> & Standard.ASCII.NUL)"
 ExpGt(sExp1, sExp2) ::= "(<sExp1> \> <sExp2>)"
 ExpGte(sExp1, sExp2) ::= "(<sExp1> \>= <sExp2>)"
 ExpLt(sExp1, sExp2) ::= "(<sExp1> \< <sExp2>)"
-- 
2.43.0


From 1332384b511d9113fdcbd7347cfaadd784d2f5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 21/95] fix: quotation marks within ASN.1 strings are written
 as pairs

---
 BackendAst/DAstAsn1.fs                    | 2 +-
 BackendAst/PrintAsn1.fs                   | 2 +-
 CommonTypes/CommonTypes.fs                | 2 +-
 FrontEndAst/CreateAsn1AstFromAntlrTree.fs | 3 ++-
 4 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/BackendAst/DAstAsn1.fs b/BackendAst/DAstAsn1.fs
index d292b07..f982494 100644
--- a/BackendAst/DAstAsn1.fs
+++ b/BackendAst/DAstAsn1.fs
@@ -28,7 +28,7 @@ let rec printAsn1Value (v:Asn1AcnAst.Asn1Value) =
     | Asn1AcnAst.RealValue           v       -> stg_asn1.Print_RealValue v.Value
     | Asn1AcnAst.StringValue(parts,_)          ->
         match parts with
-        | (CStringValue v)::[] ->        stg_asn1.Print_StringValue v
+        | (CStringValue v)::[] ->        stg_asn1.Print_StringValue (v.Replace("\"", "\"\""))
         | _     ->        stg_asn1.Print_SeqOfValue (parts |> List.map(fun p -> p.AsAsn1))
     | Asn1AcnAst.BooleanValue        v       -> stg_asn1.Print_BooleanValue v.Value
     | Asn1AcnAst.BitStringValue      v       -> stg_asn1.Print_BitStringValue v.Value
diff --git a/BackendAst/PrintAsn1.fs b/BackendAst/PrintAsn1.fs
index 23af3bc..03e15d7 100644
--- a/BackendAst/PrintAsn1.fs
+++ b/BackendAst/PrintAsn1.fs
@@ -24,7 +24,7 @@ let rec PrintAsn1Value (v:Asn1Value) =
     |RealValue(v)            -> stg_asn1.Print_RealValue v.Value
     |StringValue(parts,_)          ->
         match parts with
-        | (CStringValue v)::[] ->        stg_asn1.Print_StringValue v
+        | (CStringValue v)::[] ->        stg_asn1.Print_StringValue (v.Replace("\"", "\"\""))
         | _     ->        stg_asn1.Print_SeqOfValue (parts |> List.map(fun p -> p.AsAsn1))
     |TimeValue v             ->
         stg_asn1.Print_TimeValue (asn1DateTimeValueToString  v.Value)
diff --git a/CommonTypes/CommonTypes.fs b/CommonTypes/CommonTypes.fs
index 63ccc18..77a08c9 100644
--- a/CommonTypes/CommonTypes.fs
+++ b/CommonTypes/CommonTypes.fs
@@ -1094,7 +1094,7 @@ type SingleStringValue =
             | SpecialCharacter NullCharacter -> new String(Char.MinValue, 1)
         member this.AsAsn1 =
             match this with
-            | CStringValue  v -> "\"" + v + "\""
+            | CStringValue  v -> "\"" + v.Replace("\"", "\"\"") + "\""
             | SpecialCharacter CarriageReturn -> "cr"
             | SpecialCharacter LineFeed -> "lf"
             | SpecialCharacter HorizontalTab -> "ht"
diff --git a/FrontEndAst/CreateAsn1AstFromAntlrTree.fs b/FrontEndAst/CreateAsn1AstFromAntlrTree.fs
index ff6095a..2420f6c 100644
--- a/FrontEndAst/CreateAsn1AstFromAntlrTree.fs
+++ b/FrontEndAst/CreateAsn1AstFromAntlrTree.fs
@@ -178,7 +178,8 @@ let rec CreateValue integerSizeInBytes (astRoot:list<ITree>) (tree:ITree ) : Res
                 | asn1Parser.TRUE                   -> Ok (BooleanValue(tree.GetValueL true))
                 | asn1Parser.FALSE                  -> Ok (BooleanValue(tree.GetValueL false))
                 | asn1Parser.StringLiteral          ->
-                    let text = tree.Text.Substring(1, tree.Text.Length-2)
+                    // within a cstring a quotation mark is written as a pair of quotation marks (X.680 12.14)
+                    let text = tree.Text.Substring(1, tree.Text.Length-2).Replace("\"\"", "\"")
                     Ok (StringValue({ StringLoc.Value = text; Location = tree.Location}))
                 | asn1Parser.NULL                   -> Ok NullValue
                 | asn1Parser.BitStringLiteral       -> Ok (BitStringValue(tree.GetValueL(GetActualString(tree.Text))))
-- 
2.43.0


From b5bd600d6ebd10f9b4b445c9f3d9774b1db1542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 22/95] fix: escape characters in generated string and
 character literals

---
 BackendAst/DAstInitialize.fs |  2 +-
 BackendAst/DAstVariables.fs  |  2 +-
 BackendAst/DastValidate2.fs  | 10 +++++-----
 FrontEndAst/Language.fs      |  5 +++++
 StgAda/LangGeneric_a.fs      |  2 ++
 5 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/BackendAst/DAstInitialize.fs b/BackendAst/DAstInitialize.fs
index 9095f0f..3a2ed73 100644
--- a/BackendAst/DAstInitialize.fs
+++ b/BackendAst/DAstInitialize.fs
@@ -341,7 +341,7 @@ let createIA5StringInitFunc (r:Asn1AcnAst.AstRoot)  (lm:LanguageMacros) (t:Asn1A
         |> Array.tryFind(fun x -> x >= 32I && x <= 126I)
     let sFirstNonNullChar =
         match firstPrintableAsciiCode with
-        | Some c  -> sprintf "'%c'" (char (int c))
+        | Some c  -> sprintf "'%s'" (lm.lg.escapeCharLiteral (string (char (int c))))
         | None    -> "'\0'"
     let testCaseFuncs =
         let seqOfCase (nSize:BigInteger)  =
diff --git a/BackendAst/DAstVariables.fs b/BackendAst/DAstVariables.fs
index 3f69700..12ac71b 100644
--- a/BackendAst/DAstVariables.fs
+++ b/BackendAst/DAstVariables.fs
@@ -42,7 +42,7 @@ let convertStringValue2TargetLangStringLiteral (lm:LanguageMacros) mxSizeUper (v
         parts |>
         List.map(fun s ->
             match s with
-            | CStringValue  sv -> lm.vars.PrintSingleStringValue (sv.Replace("\"","\"\""))
+            | CStringValue  sv -> lm.vars.PrintSingleStringValue (lm.lg.escapeStringLiteral sv)
             | SpecialCharacter  CarriageReturn -> lm.vars.PrintCR ()
             | SpecialCharacter  LineFeed       -> lm.vars.PrintLF ()
             | SpecialCharacter  HorizontalTab  -> lm.vars.PrintHT ()
diff --git a/BackendAst/DastValidate2.fs b/BackendAst/DastValidate2.fs
index c298bf5..26c28d1 100644
--- a/BackendAst/DastValidate2.fs
+++ b/BackendAst/DastValidate2.fs
@@ -208,21 +208,21 @@ let ia5StringConstraint2ValidationCodeBlock  (r:Asn1AcnAst.AstRoot) (lm:Language
     let stringContainsChar    (v:String)  =
         let newStr =
             if v.Length>1 then
-                v.IDQ
+                (lm.lg.escapeStringLiteral v).IDQ
             elif v.Length = 1 then
                 let c = v.ToCharArray()[0]
                 if   c = CommonTypes.CharCR  then lm.vars.PrintCR ()
                 elif c = CommonTypes.CharLF  then lm.vars.PrintLF ()
                 elif c = CommonTypes.CharHT  then lm.vars.PrintHT ()
                 elif c = CommonTypes.CharNul then lm.vars.PrintStringValueNull ()
-                else v.IDQ
+                else (lm.lg.escapeStringLiteral v).IDQ
             else
-                v.IDQ
+                (lm.lg.escapeStringLiteral v).IDQ
         lm.isvalid.stringContainsChar newStr
 
     let alphaFuncName = ToC (((typeId.AcnAbsPath |> Seq.skip 1 |> Seq.StrJoin("-")).Replace("#","elm")) + "_CharsAreValid")
     let foldRangeCharCon (lm:LanguageMacros)   (c:CharTypeConstraint)  st =
-        let valToStrFunc1 v = v.ToString().ISQ
+        let valToStrFunc1 v = sprintf "'%s'" (lm.lg.escapeCharLiteral (v.ToString()))
         foldRangeTypeConstraint   (con_or lm) (con_and lm) (con_not lm) (con_except lm) con_root (con_root2 lm)
             (fun _ (v:string)  s  -> (fun p -> VCBExpression (stringContainsChar v (p.accessPath.joined lm.lg))) ,s)
             (fun _ v1 v2  minIsIn maxIsIn s   ->
@@ -233,7 +233,7 @@ let ia5StringConstraint2ValidationCodeBlock  (r:Asn1AcnAst.AstRoot) (lm:Language
             st
 
     foldStringTypeConstraint2 (con_or lm) (con_and lm) (con_not lm) (con_except lm) con_root (con_root2 lm)
-        (fun _ v  s         -> (fun p -> VCBExpression (lm.isvalid.ExpStringEqual (p.accessPath.joined lm.lg) v.IDQ))  ,s)
+        (fun _ v  s         -> (fun p -> VCBExpression (lm.isvalid.ExpStringEqual (p.accessPath.joined lm.lg) (lm.lg.escapeStringLiteral v).IDQ))  ,s)
         (fun _ intCon s     -> foldSizeRangeTypeConstraint r lm (fun l p -> lm.isvalid.StrLen (p.accessPath.joined lm.lg)) intCon s)
         (fun _ alphcon (s:State)      ->
             let alphaBody p =
diff --git a/FrontEndAst/Language.fs b/FrontEndAst/Language.fs
index 151477e..eaae3d6 100644
--- a/FrontEndAst/Language.fs
+++ b/FrontEndAst/Language.fs
@@ -323,6 +323,9 @@ type ILangGeneric () =
 
     abstract member getParamType    : Asn1AcnAst.Asn1Type -> Codec -> CodegenScope;
     abstract member rtlModuleName   : string
+    // the characters of a string (or of a character) literal, as written between the quotes of the target language
+    abstract member escapeStringLiteral : string -> string
+    abstract member escapeCharLiteral   : string -> string
     abstract member hasModules      : bool
     abstract member allowsSrcFilesWithNoFunctions : bool
     abstract member requiresValueAssignmentsInSrcFile      : bool
@@ -393,6 +396,8 @@ type ILangGeneric () =
 
     default this.getParamType (t:Asn1AcnAst.Asn1Type) (c:Codec) : CodegenScope =
         this.getParamTypeSuffix t "" c
+    default this.escapeStringLiteral s = s.Replace("\\", "\\\\").Replace("\"", "\\\"")
+    default this.escapeCharLiteral s = s.Replace("\\", "\\\\").Replace("'", "\\'")
     default this.requiresHandlingOfEmptySequences = false
     default this.requiresHandlingOfZeroArrays = false
     default this.RtlFuncNames = []
diff --git a/StgAda/LangGeneric_a.fs b/StgAda/LangGeneric_a.fs
index c2ef6dd..c6969b8 100644
--- a/StgAda/LangGeneric_a.fs
+++ b/StgAda/LangGeneric_a.fs
@@ -101,6 +101,8 @@ type LangGeneric_a() =
         override this.AssignOperator = ":="
         override this.TrueLiteral = "True"
         override this.FalseLiteral = "False"
+        override this.escapeStringLiteral s = s.Replace("\"", "\"\"")
+        override this.escapeCharLiteral s = s
         override this.hasModules = true
         override this.allowsSrcFilesWithNoFunctions = false
         override this.requiresValueAssignmentsInSrcFile = false
-- 
2.43.0


From 3375e248bc0f76ef212a173fb451a338888ad92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 23/95] fix: constraint comments in generated C may contain a
 comment terminator

---
 BackendAst/DastValidate2.fs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/BackendAst/DastValidate2.fs b/BackendAst/DastValidate2.fs
index 26c28d1..866d350 100644
--- a/BackendAst/DastValidate2.fs
+++ b/BackendAst/DastValidate2.fs
@@ -619,7 +619,7 @@ let createIsValidFunction (r:Asn1AcnAst.AstRoot)  (lm:LanguageMacros)  (t:Asn1Ac
                 let split (s:string option) =
                     match s with
                     | None -> []
-                    | Some s -> s.Split('\n') |> Seq.toList
+                    | Some s -> s.Replace("*/", "* /").Split('\n') |> Seq.toList
                 let arrsErrcodes = errCodes |> List.map(fun s -> defErrCode s.errCodeName (BigInteger s.errCodeValue) (split s.comment))
                 let fncH = emitTasFncDef varName sStar funcName  (lm.lg.getLongTypedefName typeDefinition) arrsErrcodes
                 Some fnc, Some fncH
-- 
2.43.0


From af51cb27deae9fa3392f6f675b1fd953432af76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:19 +0000
Subject: [PATCH 24/95] fix: no call of IsConstraintValid of NULL types through
 reference chains

---
 BackendAst/DastValidate2.fs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/BackendAst/DastValidate2.fs b/BackendAst/DastValidate2.fs
index 866d350..f148ff6 100644
--- a/BackendAst/DastValidate2.fs
+++ b/BackendAst/DastValidate2.fs
@@ -1033,8 +1033,14 @@ let createReferenceTypeFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn
             | false -> moduleName + "." + baseTypeDefinitionName + "_IsConstraintValid"
 
 
+    // NULL types have no IsConstraintValid function, even when they are reached through a chain of references
+    let baseIsValidFunction =
+        match t.ActualType.Kind with
+        | Asn1AcnAst.NullType _ -> None
+        | _                     -> resolvedType.isValidFunction
+
     let ns =
-        match resolvedType.isValidFunction with
+        match baseIsValidFunction with
         | Some _    ->
             match t.id.topLevelTas with
             | None -> us
@@ -1048,7 +1054,7 @@ let createReferenceTypeFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn
             convertMultipleVCBsToStatementAndSetErrorCode l p errCode vcbs |>
             List.unzip
 
-        match resolvedType.isValidFunction with
+        match baseIsValidFunction with
         | Some _    ->
             let funcBodyContent = callBaseTypeFunc (l.lg.getParamValue t p.accessPath Encode) baseFncName soTypeCasting
             match (funcBodyContent::with_component_check) |> DAstUtilFunctions.nestItems_ret l  with
-- 
2.43.0


From d981387db2214e1e0cd88e5e6ceed19ae2c8183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:57 +0000
Subject: [PATCH 25/95] fix: aliases of types with object identifiers, times or
 nested enumerations get their own functions

---
 FrontEndAst/TypesEquivalence.fs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/FrontEndAst/TypesEquivalence.fs b/FrontEndAst/TypesEquivalence.fs
index 7971302..516d19e 100644
--- a/FrontEndAst/TypesEquivalence.fs
+++ b/FrontEndAst/TypesEquivalence.fs
@@ -12,7 +12,9 @@ let rec uperEquivalence (t1:Asn1Type) (t2:Asn1Type) =
     | NullType _, NullType _                -> true
     | BitString bs1, BitString bs2          -> bs1.cons = bs2.cons
     | Boolean _, Boolean _                  -> true
-    | Enumerated e1, Enumerated e2          -> e1.items = e2.items &&  e1.cons = e2.cons
+    | ObjectIdentifier o1, ObjectIdentifier o2 -> o1.relativeObjectId = o2.relativeObjectId
+    | TimeType tt1, TimeType tt2            -> tt1.timeClass = tt2.timeClass
+    | Enumerated e1, Enumerated e2          -> (e1.items |> List.map(fun itm -> itm.Name.Value, itm.definitionValue)) = (e2.items |> List.map(fun itm -> itm.Name.Value, itm.definitionValue)) &&  e1.cons = e2.cons
     | SequenceOf sqof1, SequenceOf sqof2    -> 
         sqof1.cons = sqof2.cons && (uperEquivalence sqof1.child sqof2.child)
     | Sequence sq1, Sequence sq2    ->
-- 
2.43.0


From 5da0716e296216547e84d67600cc88c138887cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:57 +0000
Subject: [PATCH 26/95] fix: C values of sequences without present components
 are valid initialisers

---
 StgC/variables_c.stg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StgC/variables_c.stg b/StgC/variables_c.stg
index 678c752..9a8a327 100644
--- a/StgC/variables_c.stg
+++ b/StgC/variables_c.stg
@@ -169,7 +169,7 @@ PrintSequenceValueChild(sName, sInnerValue) ::= ".<sName> = <sInnerValue>"
 PrintSequenceValue_child_exists(sName, sExistsBit) ::= ".<sName> = <sExistsBit>"
 
 PrintSequenceValue(td/*:FE_SequenceTypeDefinition*/, sTasName, arrsChildren, arrsOptionalPresentFields) ::= <<{
-    <arrsChildren:{ch|<ch>}; separator=",\n"><if(arrsOptionalPresentFields)>,
+    <arrsChildren:{ch|<ch>}; separator=",\n"><if(arrsOptionalPresentFields)><if(arrsChildren)>,<endif>
     .exist = {
         <arrsOptionalPresentFields; separator=",\n">
     }
-- 
2.43.0


From cf4ca1218ca1b513b97683a9021d41429fd05615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:57 +0000
Subject: [PATCH 27/95] fix: IA5String alphabets that need seven bits use the
 character codes themselves

---
 BackendAst/DAstUPer.fs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/BackendAst/DAstUPer.fs b/BackendAst/DAstUPer.fs
index dfe7c4e..26bf247 100644
--- a/BackendAst/DAstUPer.fs
+++ b/BackendAst/DAstUPer.fs
@@ -450,7 +450,8 @@ let createIA5StringFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (codec:Co
 
         let nBits = GetNumberOfBitsForNonNegativeInteger (BigInteger (o.uperCharSet.Length-1))
         let internalItem =
-            match o.uperCharSet.Length = 128 with
+            // X.691 30.5.4: when the character codes fit in the bits of an index, the codes themselves are encoded
+            match nBits = 7I with
             | true  -> InternalItem_string_no_alpha (p.accessPath.joined lm.lg) errCode.errCodeName i codec
             | false ->
                 let nBits = GetNumberOfBitsForNonNegativeInteger (BigInteger (o.uperCharSet.Length-1))
@@ -925,7 +926,7 @@ let createChoiceFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (codec:Commo
     createUperFunction r lm codec t typeDefinition baseTypeUperFunc  isValidFunc  funcBody soSparkAnnotations  [] us
 
 let createReferenceFunction (r:Asn1AcnAst.AstRoot)  (lm:LanguageMacros) (codec:CommonTypes.Codec) (t:Asn1AcnAst.Asn1Type) (o:Asn1AcnAst.ReferenceType) (typeDefinition:TypeDefinitionOrReference) (isValidFunc: IsValidFunction option) (baseType:Asn1Type) (us:State)  =
-    let baseTypeDefinitionName, baseFncName = getBaseFuncName lm typeDefinition o t.id "" codec
+    let baseTypeDefinitionName, baseFncName = getBaseFuncName r lm typeDefinition o t.id "" codec
 
     match o.encodingOptions with
     | None          ->
-- 
2.43.0


From 5532a1e18834ac90e94d895ae0f0dd4af09bf627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:57 +0000
Subject: [PATCH 28/95] fix: references to CONTAINING aliases keep the
 containing string in the encoding

---
 BackendAst/Acn/AcnReference.fs   |  2 +-
 BackendAst/DAstACNDeferred.fs    |  2 +-
 FrontEndAst/DAstUtilFunctions.fs | 41 ++++++++++++++++++++++----------
 3 files changed, 31 insertions(+), 14 deletions(-)

diff --git a/BackendAst/Acn/AcnReference.fs b/BackendAst/Acn/AcnReference.fs
index b288342..f7904e9 100644
--- a/BackendAst/Acn/AcnReference.fs
+++ b/BackendAst/Acn/AcnReference.fs
@@ -68,7 +68,7 @@ let buildReferenceIcdArgAux
 
 
 let createReferenceFunction_inline (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInsertedFieldDependencies) (lm:LanguageMacros) (codec:CommonTypes.Codec) (t:Asn1AcnAst.Asn1Type) (o:Asn1AcnAst.ReferenceType) (typeDefinition:TypeDefinitionOrReference) (isValidFunc: IsValidFunction option) (baseType:Asn1Type) (us:State)  =
-  let baseTypeDefinitionName, baseFncName = getBaseFuncName lm typeDefinition o t.id "_ACN" codec
+  let baseTypeDefinitionName, baseFncName = getBaseFuncName r lm typeDefinition o t.id "_ACN" codec
 
   let icd = buildReferenceIcdArgAux r t o baseType
 
diff --git a/BackendAst/DAstACNDeferred.fs b/BackendAst/DAstACNDeferred.fs
index b312fd6..5ee135a 100644
--- a/BackendAst/DAstACNDeferred.fs
+++ b/BackendAst/DAstACNDeferred.fs
@@ -907,7 +907,7 @@ let private createDeferredReferenceFunction
         (baseType:Asn1Type)
         (us:State) =
 
-    let _baseTypeDefinitionName, baseFncName = getBaseFuncName lm typeDefinition o t.id "_ACN" codec
+    let _baseTypeDefinitionName, baseFncName = getBaseFuncName r lm typeDefinition o t.id "_ACN" codec
 
     // ICD this reference contributes to its parent.  Same construction as the
     // legacy inline path; without it the parent SEQUENCE drops the field row
diff --git a/FrontEndAst/DAstUtilFunctions.fs b/FrontEndAst/DAstUtilFunctions.fs
index de9b6a0..f87148a 100644
--- a/FrontEndAst/DAstUtilFunctions.fs
+++ b/FrontEndAst/DAstUtilFunctions.fs
@@ -1034,26 +1034,43 @@ let nestItems_ret (lm:LanguageMacros) children =
     nestItems  lm.isvalid.JoinTwoIfFirstOk children
 
 
-let getBaseFuncName (lm:LanguageMacros) (typeDefinition:TypeDefinitionOrReference) (o:Asn1AcnAst.ReferenceType) (id:ReferenceToType) (methodSuffix:string) (codec:CommonTypes.Codec) =
-    let moduleName, typeDefinitionName0 =
-        match typeDefinition with
-        | ReferenceToExistingDefinition refToExist   ->
-            match refToExist.programUnit with
-            | Some md -> md, refToExist.typedefName
-            | None    -> ToC id.ModName, refToExist.typedefName
-        | TypeDefinition                tdDef        ->
-            match tdDef.baseType with
-            | None -> ToC id.ModName, tdDef.typedefName
-            | Some refToExist ->
+// The type definitions of the target language skip octet/bit strings that contain other types (they are just
+// aliases of the contained type) but the encode/decode functions do not. When the referenced type is, directly or
+// through other references, such a string then this function returns the type assignment that defines the string.
+let rec private tryGetContainingTas (r:Asn1AcnAst.AstRoot) (o:Asn1AcnAst.ReferenceType) =
+    let tas = (r.GetModuleByName o.modName).GetTypeAssignmentByName o.tasName r
+    match tas.Type.Kind with
+    | Asn1AcnAst.ReferenceType rf when rf.encodingOptions.IsSome -> Some (o.modName.Value, tas)
+    | Asn1AcnAst.ReferenceType rf   -> tryGetContainingTas r rf
+    | _                             -> None
+
+let getBaseFuncName (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (typeDefinition:TypeDefinitionOrReference) (o:Asn1AcnAst.ReferenceType) (id:ReferenceToType) (methodSuffix:string) (codec:CommonTypes.Codec) =
+    let baseModName, moduleName, typeDefinitionName0 =
+        match tryGetContainingTas r o with
+        | Some (modName, tas) ->
+            let td = lm.lg.getTypeDefinition tas.Type.FT_TypeDefinition
+            modName, td.programUnit, td.typeName
+        | None ->
+        let moduleName, typeDefinitionName0 =
+            match typeDefinition with
+            | ReferenceToExistingDefinition refToExist   ->
                 match refToExist.programUnit with
                 | Some md -> md, refToExist.typedefName
                 | None    -> ToC id.ModName, refToExist.typedefName
+            | TypeDefinition                tdDef        ->
+                match tdDef.baseType with
+                | None -> ToC id.ModName, tdDef.typedefName
+                | Some refToExist ->
+                    match refToExist.programUnit with
+                    | Some md -> md, refToExist.typedefName
+                    | None    -> ToC id.ModName, refToExist.typedefName
+        o.modName.Value, moduleName, typeDefinitionName0
 
     let baseTypeDefinitionName =
         match lm.lg.hasModules with
         | false     -> typeDefinitionName0
         | true   ->
-            match id.ModName = o.modName.Value with
+            match id.ModName = baseModName with
             | true  -> typeDefinitionName0
             | false -> moduleName + "." + typeDefinitionName0
     baseTypeDefinitionName, baseTypeDefinitionName + methodSuffix + codec.suffix
-- 
2.43.0


From 817fd41126342b6132ce44ed02461fbbe8ddf848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:57 +0000
Subject: [PATCH 29/95] fix: strings within a union in a permitted alphabet
 stand for their characters

---
 FrontEndAst/CheckAsn1.fs | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/FrontEndAst/CheckAsn1.fs b/FrontEndAst/CheckAsn1.fs
index 2ce284c..430abea 100644
--- a/FrontEndAst/CheckAsn1.fs
+++ b/FrontEndAst/CheckAsn1.fs
@@ -211,26 +211,28 @@ let rec IsValueAllowed (c:Asn1Constraint) (v:Asn1Value) (isOfEnumType:bool) (bit
             | _                             -> raise (BugErrorException(""))
         IsSizeConstraintOK v sc
     | AlphabetConstraint(_, ac)             ->
+        //within a permitted alphabet constraint, a string value stands for the set of its characters (X.680, 51.7.2)
+        let rec isInString (c:char) (v:Asn1Value) =
+            match v.Kind with
+            | StringValue (s,_)         -> (StringValue2String s).IndexOf c >= 0
+            | RefValue(modName,vasName) -> isInString c (GetBaseValue modName vasName ast)
+            | _                         -> false
+        let rec isCharAllowed (c:char) (ac:Asn1Constraint) =
+            match ac with
+            | SingleValueConstraint (_, setVal)   -> isInString c setVal
+            | UnionConstraint(_, c1,c2,_)         -> isCharAllowed c c1 || isCharAllowed c c2
+            | IntersectionConstraint(_, c1,c2)    -> isCharAllowed c c1 && isCharAllowed c c2
+            | AllExceptConstraint(_, c1)          -> not (isCharAllowed c c1)
+            | ExceptConstraint(_, c1,c2)          -> isCharAllowed c c1 && not (isCharAllowed c c2)
+            | RootConstraint(_, c1)               -> isCharAllowed c c1
+            | RootConstraint2(_, c1,c2)           -> isCharAllowed c c1 || isCharAllowed c c2
+            | _     ->
+                let dummyVal = CreateDummyValueByKind (StringValue([char2SingleStringValue c], emptyLocation))
+                IsValueAllowed ac dummyVal isOfEnumType bitOrOctSrt ast
         let rec IsAlphabetConstraintOK (v:Asn1Value) (ac:Asn1Constraint) =
             match v.Kind with
-            | StringValue(s, l)    ->
-                let sValue = StringValue2String s
-                match ac with
-                | SingleValueConstraint (_, setVal)   ->
-                    match setVal.Kind with
-                    | StringValue (setvaluesstr,l2)     ->
-                        let setvaluesstrValue = StringValue2String setvaluesstr
-                        let setvals = setvaluesstrValue.ToCharArray() |> Set.ofArray
-                        sValue.ToCharArray()  |> Seq.forall(fun c -> setvals.Contains c)
-                    | _                         -> false
-                | _     ->
-                    let sDummyVal (c:SingleStringValue) = CreateDummyValueByKind (StringValue([c], emptyLocation  ) )
-                    sValue.ToCharArray() |>
-                    Seq.map char2SingleStringValue |>
-                    Seq.forall(fun c ->
-                        let ret = IsValueAllowed ac (sDummyVal c) isOfEnumType bitOrOctSrt ast
-                        ret
-                    )
+            | StringValue(s, _)    ->
+                (StringValue2String s).ToCharArray() |> Seq.forall(fun c -> isCharAllowed c ac)
             | RefValue(modName,vasName)      -> IsAlphabetConstraintOK (GetBaseValue modName vasName ast) ac
             | _                             -> raise (BugErrorException(""))
         IsAlphabetConstraintOK v ac
-- 
2.43.0


From 05df93444f1deb53142f893b8d9fa67ab1fea6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:15 +0000
Subject: [PATCH 30/95] fix: bit string values carry their number of bits, not
 of octets

---
 BackendAst/DAstVariables.fs | 6 +++---
 StgC/variables_c.stg        | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/BackendAst/DAstVariables.fs b/BackendAst/DAstVariables.fs
index 12ac71b..0716ce9 100644
--- a/BackendAst/DAstVariables.fs
+++ b/BackendAst/DAstVariables.fs
@@ -32,7 +32,7 @@ let printBitStringValueAsCompoundLiteral  (lm:LanguageMacros) curProgramUnitName
     let printOct =  lm.vars.PrintBitOrOctetStringValueAsCompoundLiteral
     let td = (lm.lg.getSizeableTypeDefinition o.typeDef).longTypedefName2 lm.lg.hasModules curProgramUnitName
     let bytes = lm.lg.bitStringValueToByteArray v
-    printOct td (o.minSize.uper = o.maxSize.uper) bytes o.minSize.uper
+    printOct td (o.minSize.uper = o.maxSize.uper) bytes (BigInteger v.Length)
 
 let convertStringValue2TargetLangStringLiteral (lm:LanguageMacros) mxSizeUper (v:StringValue) =
     let (parts,_) = v
@@ -278,7 +278,6 @@ let createTimeTypeFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros)  (t:Asn1Ac
 
 let createBitStringFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (t:Asn1AcnAst.Asn1Type) (o:Asn1AcnAst.BitString) (defOrRef:TypeDefinitionOrReference) =
     let PrintBitStringValue = lm.vars.PrintBitStringValue
-    let PrintOctetStringValue = lm.vars.PrintOctetStringValue
     let printValue (curProgramUnitName:string) (parentValue:Asn1ValueKind option) (v:Asn1ValueKind) =
         match v with
         | BitStringValue    v ->
@@ -288,7 +287,8 @@ let createBitStringFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (t:Asn1Ac
             PrintBitStringValue td (o.minSize.uper = o.maxSize.uper) arBits (BigInteger arBits.Length) bytes (BigInteger bytes.Length)
         | OctetStringValue  v ->
             let td = lm.lg.getSizeableTypeDefinition o.typeDef
-            PrintOctetStringValue td (o.minSize.uper = o.maxSize.uper) v (BigInteger v.Length)
+            let arBits = (byteArrayToBitStringValue v).ToCharArray() |> Array.map(fun x -> x.ToString())
+            PrintBitStringValue td (o.minSize.uper = o.maxSize.uper) arBits (BigInteger arBits.Length) (v |> List.toArray) (BigInteger v.Length)
         | RefValue ((md,vs),ov)   -> vs
         | _                 -> raise(BugErrorException "unexpected value")
     printValue
diff --git a/StgC/variables_c.stg b/StgC/variables_c.stg
index 9a8a327..9818d49 100644
--- a/StgC/variables_c.stg
+++ b/StgC/variables_c.stg
@@ -53,7 +53,7 @@ PrintOctetStringValue(td/*:FE_SizeableTypeDefinition*/,bIsFixedSize, arruBytes,
 >>
 
 PrintBitStringValue(td/*:FE_SizeableTypeDefinition*/,bIsFixedSize, arrsBits, nCount, arruBytes, nBytesCount) ::= <<
-<PrintBitOrOctetStringValue(bIsFixedSize=bIsFixedSize, arruBytes=arruBytes, nCount=nBytesCount)>
+<PrintBitOrOctetStringValue(bIsFixedSize=bIsFixedSize, arruBytes=arruBytes, nCount=nCount)>
 >>
 
 
-- 
2.43.0


From a36d489eddc172ec055658f56a2456b8626740cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:26 +0000
Subject: [PATCH 31/95] fix: default values of BIT STRING components have their
 number of bits, and bits in Ada

---
 BackendAst/DAstInitialize.fs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/BackendAst/DAstInitialize.fs b/BackendAst/DAstInitialize.fs
index 3a2ed73..d7a3f2b 100644
--- a/BackendAst/DAstInitialize.fs
+++ b/BackendAst/DAstInitialize.fs
@@ -483,15 +483,16 @@ let createBitStringInitFunc (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (t:Asn1Ac
     let initFixVarSizeBitOrOctString    = lm.init.initFixVarSizeBitOrOctString
     let initTestCaseBitString           = lm.init.initTestCaseBitString
     let funcBody (p:CodegenScope) (v:Asn1ValueKind) =
-        let bytes =
+        let bits =
             match v.ActualValue with
-            | BitStringValue iv     -> bitStringValueToByteArray (StringLoc.ByValue iv) |> Seq.toList
-            | OctetStringValue iv   -> iv
+            | BitStringValue iv     -> iv
+            | OctetStringValue iv   -> byteArrayToBitStringValue iv
             | _                     -> raise(BugErrorException "UnexpectedValue")
+        let bytes = lm.lg.bitStringValueToByteArray bits |> Seq.toList
         let arrsBytes = bytes |> List.mapi(fun i b -> initFixSizeBitOrOctString_bytei (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) ((i + lm.lg.ArrayStartIndex).ToString()) (sprintf "%x" b))
         match o.minSize.uper = o.maxSize.uper with
         | true  -> initFixSizeBitOrOctString (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) arrsBytes
-        | false -> initFixVarSizeBitOrOctString (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) (BigInteger arrsBytes.Length) arrsBytes
+        | false -> initFixVarSizeBitOrOctString (p.accessPath.joined lm.lg) (lm.lg.getAccess p.accessPath) (BigInteger bits.Length) arrsBytes
 
     let anonyms =
         o.AllCons |>
-- 
2.43.0


From 257c141d1aa65f2a9f9957518be593ac6c58377d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 32/95] fix: validity of references calls the function of the
 referenced type

---
 BackendAst/DastValidate2.fs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/BackendAst/DastValidate2.fs b/BackendAst/DastValidate2.fs
index f148ff6..b68bd6b 100644
--- a/BackendAst/DastValidate2.fs
+++ b/BackendAst/DastValidate2.fs
@@ -1002,19 +1002,17 @@ let createReferenceTypeFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn
     let callBaseTypeFunc = l.isvalid.call_base_type_func
     let vcbs,us = createReferenceTypeFunction_this_type r l t.id o.refCons typeDefinition resolvedType us
 
-    let moduleName, typeDefinitionName, baseTypeDefinitionName =
+    // The function of the referenced type is called and not that of the type definition it is represented by:
+    // references that only add inner constraints (WITH COMPONENTS) share the definition of their parent type.
+    let baseTypeDef = l.lg.getTypeDefinition ((r.GetModuleByName o.modName).GetTypeAssignmentByName o.tasName r).Type.FT_TypeDefinition
+    let moduleName, baseTypeDefinitionName = baseTypeDef.programUnit, baseTypeDef.typeName
+    let typeDefinitionName =
         match typeDefinition with
-        | ReferenceToExistingDefinition refToExist   ->
-            match refToExist.programUnit with
-            | Some md -> md, refToExist.typedefName, refToExist.typedefName
-            | None    -> ToC t.id.ModName, refToExist.typedefName, refToExist.typedefName
+        | ReferenceToExistingDefinition refToExist   -> refToExist.typedefName
         | TypeDefinition                tdDef        ->
             match tdDef.baseType with
-            | None -> ToC t.id.ModName, tdDef.typedefName, ToC2(r.args.TypePrefix + o.tasName.Value)
-            | Some refToExist ->
-                match refToExist.programUnit with
-                | Some md -> md, refToExist.typedefName, refToExist.typedefName
-                | None    -> ToC t.id.ModName, refToExist.typedefName, refToExist.typedefName
+            | None            -> tdDef.typedefName
+            | Some refToExist -> refToExist.typedefName
     let soTypeCasting =
         let actType = Asn1AcnAstUtilFunctions.GetActualTypeByName r o.modName o.tasName
         match t.ActualType.Kind, actType.Kind with
-- 
2.43.0


From b1dd336a16880bec5bd61aa1390e240872957d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 33/95] fix: keep the alphabet checks of strings inside inner
 subtype constraints

---
 BackendAst/DastValidate2.fs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/BackendAst/DastValidate2.fs b/BackendAst/DastValidate2.fs
index b68bd6b..16b1757 100644
--- a/BackendAst/DastValidate2.fs
+++ b/BackendAst/DastValidate2.fs
@@ -534,11 +534,11 @@ and sequenceOfConstraint2ValidationCodeBlock (r:Asn1AcnAst.AstRoot) (l:LanguageM
             | false  -> foldSizeRangeTypeConstraint r l getSizeFunc intCon s
             | true  -> (fun p -> VCBTrue), s)
         (fun _ c loc s ->
+            let fnc, ns = anyConstraint2ValidationCodeBlock r l loc child c s
             (fun (p:CodegenScope) ->
                 let ii = p.accessPath.SequenceOfLevel + 1
                 let i = sprintf "i%d" ii
                 let lv = SequenceOfIndex (ii, None)
-                let fnc, ns = anyConstraint2ValidationCodeBlock r l loc child c s
                 let ch_arg = l.lg.getArrayItem p.accessPath i child.isIA5String
                 let childCheck p = fnc ({p with accessPath = ch_arg})
                 let ret =
@@ -547,7 +547,7 @@ and sequenceOfConstraint2ValidationCodeBlock (r:Asn1AcnAst.AstRoot) (l:LanguageM
                     | VCBStatement   (stat, lv2)-> VCBStatement (statementForLoop (p.accessPath.joined l.lg) (l.lg.getAccess p.accessPath) i o.isFixedSize o.minSize.uper stat, lv::lv2)
                     | VCBTrue            -> VCBTrue
                     | VCBFalse           -> VCBStatement (statementForLoop (p.accessPath.joined l.lg) (l.lg.getAccess p.accessPath) i o.isFixedSize o.minSize.uper (expressionToStatement "FALSE"), [lv])
-                ret), s)
+                ret), ns)
         c
         st
 
@@ -677,7 +677,7 @@ let createBitStringFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn1Acn
     createIsValidFunction r l t (funcBody l fncs)  typeDefinition [] [] [] [] (Some errorCodeComment) ns
 
 let createStringFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn1AcnAst.Asn1Type) (o:Asn1AcnAst.StringType) (typeDefinition:TypeDefinitionOrReference) (us:State)  =
-    let fncs, ns = o.cons |> Asn1Fold.foldMap (fun us c -> ia5StringConstraint2ValidationCodeBlock r  l t.id c us) {us with alphaIndex=0; alphaFuncs=[]}
+    let fncs, ns = o.cons |> Asn1Fold.foldMap (fun us c -> ia5StringConstraint2ValidationCodeBlock r  l t.id c us) {us with alphaFuncs=[]}
     let errorCodeComment = o.cons |> List.map(fun z -> z.ASN1) |> Seq.StrJoin ""
     createIsValidFunction r l t (funcBody l fncs) typeDefinition ns.alphaFuncs [] [] [] (Some errorCodeComment) ns
 
@@ -746,7 +746,7 @@ let createSequenceOfFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn1Ac
     let sequenceOf          = l.isvalid.sequenceOf2
     let callBaseTypeFunc    = l.isvalid.call_base_type_func
 
-    let vcbs, ns2 = o.cons |> Asn1Fold.foldMap(fun cs c -> sequenceOfConstraint2ValidationCodeBlock r l t.id o (childType:Asn1Type) equalFunc c cs) us
+    let vcbs, ns2 = o.cons |> Asn1Fold.foldMap(fun cs c -> sequenceOfConstraint2ValidationCodeBlock r l t.id o (childType:Asn1Type) equalFunc c cs) {us with alphaFuncs=[]}
 
     let chp (p:CodegenScope) = 
         let i = sprintf "i%d" (p.accessPath.SequenceOfLevel + 1)
@@ -785,7 +785,7 @@ let createSequenceOfFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn1Ac
         | Some s ->ValidationStatement (s, (lllvs@lllvs2) |> List.collect id)
 
     let errorCodeComment = o.cons |> List.map(fun z -> z.ASN1) |> Seq.StrJoin ""
-    createIsValidFunction r l t funBody  typeDefinition childAlphaFuncs childLocalVars childErrCodes nonEmbeddedChildValidFuncs (Some errorCodeComment) ns2
+    createIsValidFunction r l t funBody  typeDefinition (ns2.alphaFuncs@childAlphaFuncs) childLocalVars childErrCodes nonEmbeddedChildValidFuncs (Some errorCodeComment) ns2
 
 
 let createSequenceFunction (r:Asn1AcnAst.AstRoot)  (l:LanguageMacros) (t:Asn1AcnAst.Asn1Type) (o:Asn1AcnAst.Sequence) (typeDefinition:TypeDefinitionOrReference) (children:SeqChildInfo list)  (us:State)  =
@@ -833,7 +833,7 @@ let createSequenceFunction (r:Asn1AcnAst.AstRoot)  (l:LanguageMacros) (t:Asn1Acn
     let localVars = childrenContent |> List.collect(fun s -> match s with IsValidEmbedded c -> c.localVars | IsValidProcCall _ -> []) //childrenContent |> List.collect(fun c -> c.localVars)
     let nonEmbeddedChildrenValidFuncs = childrenContent |> List.choose(fun s -> match s with IsValidEmbedded c -> None | IsValidProcCall c -> Some c.chidIsValidFunction)
     let valToStrFunc (p:CodegenScope) (v:Asn1AcnAst.SeqValue) = VCBTrue
-    let vcbs, ns2 =  o.cons |> Asn1Fold.foldMap(fun cs c -> sequenceConstraint2ValidationCodeBlock r l t.id asn1Children valToStrFunc  c cs) ns1
+    let vcbs, ns2 =  o.cons |> Asn1Fold.foldMap(fun cs c -> sequenceConstraint2ValidationCodeBlock r l t.id asn1Children valToStrFunc  c cs) {ns1 with alphaFuncs=[]}
 
 
 
@@ -858,7 +858,7 @@ let createSequenceFunction (r:Asn1AcnAst.AstRoot)  (l:LanguageMacros) (t:Asn1Acn
 
 
     let errorCodeComment = o.cons |> List.map(fun z -> z.ASN1) |> Seq.StrJoin ""
-    createIsValidFunction r l t funBody  typeDefinition alphaFuncs localVars childrenErrCodes nonEmbeddedChildrenValidFuncs (Some errorCodeComment) ns2
+    createIsValidFunction r l t funBody  typeDefinition (ns2.alphaFuncs@alphaFuncs) localVars childrenErrCodes nonEmbeddedChildrenValidFuncs (Some errorCodeComment) ns2
 
 let createChoiceFunction (r:Asn1AcnAst.AstRoot)  (l:LanguageMacros) (t:Asn1AcnAst.Asn1Type) (o:Asn1AcnAst.Choice) (typeDefinition:TypeDefinitionOrReference) (defOrRef:TypeDefinitionOrReference) (children:ChChildInfo list) (baseTypeValFunc : IsValidFunction option) (us:State)  =
     let choice_OptionalChild              = l.isvalid.Choice_OptionalChild
@@ -919,7 +919,7 @@ let createChoiceFunction (r:Asn1AcnAst.AstRoot)  (l:LanguageMacros) (t:Asn1AcnAs
     let localVars = childrenContent |> List.collect(fun s -> match s with IsValidEmbedded c -> c.localVars | IsValidProcCall _ -> []) //childrenContent |> List.collect(fun c -> c.localVars)
     let nonEmbeddedChildrenValidFuncs = childrenContent |> List.choose(fun s -> match s with IsValidEmbedded c -> None | IsValidProcCall c -> Some c.chidIsValidFunction)
     let valToStrFunc (p:CodegenScope) (v:Asn1AcnAst.ChValue) = VCBTrue
-    let vcbs, ns2 =  o.cons |> Asn1Fold.foldMap(fun cs c -> choiceConstraint2ValidationCodeBlock r l t.id children valToStrFunc defOrRef  c cs) ns1
+    let vcbs, ns2 =  o.cons |> Asn1Fold.foldMap(fun cs c -> choiceConstraint2ValidationCodeBlock r l t.id children valToStrFunc defOrRef  c cs) {ns1 with alphaFuncs=[]}
     let funBody (errCode: ErrorCode) (p:CodegenScope) =
         let choice_switch_check, lv1 =
             let childrenChecks, lv1 =
@@ -945,7 +945,7 @@ let createChoiceFunction (r:Asn1AcnAst.AstRoot)  (l:LanguageMacros) (t:Asn1AcnAs
         | Some s ->ValidationStatement (s, lv1@lv2)
 
     let errorCodeComment = o.cons |> List.map(fun z -> z.ASN1) |> Seq.StrJoin ""
-    createIsValidFunction r l t funBody  typeDefinition alphaFuncs localVars childrenErrCodes nonEmbeddedChildrenValidFuncs (Some errorCodeComment) ns2
+    createIsValidFunction r l t funBody  typeDefinition (ns2.alphaFuncs@alphaFuncs) localVars childrenErrCodes nonEmbeddedChildrenValidFuncs (Some errorCodeComment) ns2
 
 
 let rec createReferenceTypeFunction_this_type (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (refTypeId:ReferenceToType) (refCons:Asn1AcnAst.AnyConstraint list) (typeDefinition:TypeDefinitionOrReference) (resolvedType:Asn1Type)  (us:State)  =
@@ -974,7 +974,7 @@ let rec createReferenceTypeFunction_this_type (r:Asn1AcnAst.AstRoot) (l:Language
         cons |> Asn1Fold.foldMap (fun us c -> bitStringConstraint2ValidationCodeBlock r l  refTypeId bs.baseInfo resolvedType.equalFunction c us) us
     | IA5String st ->
         let cons = refCons |> List.choose(fun c -> match c with Asn1AcnAst.IA5StringConstraint z -> Some z | _ -> None )
-        cons |> Asn1Fold.foldMap (fun us c -> ia5StringConstraint2ValidationCodeBlock r  l refTypeId c us) {us with alphaIndex=0; alphaFuncs=[]}
+        cons |> Asn1Fold.foldMap (fun us c -> ia5StringConstraint2ValidationCodeBlock r  l refTypeId c us) {us with alphaFuncs=[]}
     | ObjectIdentifier _ ->
         let cons = refCons |> List.choose(fun c -> match c with Asn1AcnAst.ObjectIdConstraint z -> Some z | _ -> None )
         cons |> Asn1Fold.foldMap (fun us c -> objIdConstraint2ValidationCodeBlock l c us) us
@@ -1000,7 +1000,8 @@ let rec createReferenceTypeFunction_this_type (r:Asn1AcnAst.AstRoot) (l:Language
 
 let createReferenceTypeFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn1AcnAst.Asn1Type) (o:Asn1AcnAst.ReferenceType) (typeDefinition:TypeDefinitionOrReference) (resolvedType:Asn1Type)  (us:State)  =
     let callBaseTypeFunc = l.isvalid.call_base_type_func
-    let vcbs,us = createReferenceTypeFunction_this_type r l t.id o.refCons typeDefinition resolvedType us
+    let vcbs,us = createReferenceTypeFunction_this_type r l t.id o.refCons typeDefinition resolvedType {us with alphaFuncs=[]}
+    let alphaFuncs = us.alphaFuncs
 
     // The function of the referenced type is called and not that of the type definition it is represented by:
     // references that only add inner constraints (WITH COMPONENTS) share the definition of their parent type.
@@ -1065,6 +1066,6 @@ let createReferenceTypeFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn
 
     let errorCodeComment = o.refCons |> List.map(fun z -> z.ASN1) |> Seq.StrJoin ""
 
-    createIsValidFunction r l t funBody  typeDefinition [] [] [] [] (Some errorCodeComment) ns
+    createIsValidFunction r l t funBody  typeDefinition alphaFuncs [] [] [] (Some errorCodeComment) ns
 
 
-- 
2.43.0


From b9a400defa1c9dfc4b80f1189fc9cb1ba766a9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 34/95] fix: validity checks reject negative counts in C

---
 BackendAst/DastValidate2.fs | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/BackendAst/DastValidate2.fs b/BackendAst/DastValidate2.fs
index 16b1757..424fc1d 100644
--- a/BackendAst/DastValidate2.fs
+++ b/BackendAst/DastValidate2.fs
@@ -179,16 +179,27 @@ let foldGenericCon  (lm:LanguageMacros) valToStrFunc  (c:GenericConstraint<'v>)
         st
 
 
-let foldSizeRangeTypeConstraint (r:Asn1AcnAst.AstRoot)   (lm:LanguageMacros)  getSizeFunc  (c:PosIntTypeConstraint) st =
+let foldSizeRangeTypeConstraint (r:Asn1AcnAst.AstRoot)   (lm:LanguageMacros)  countMayBeNegative getSizeFunc  (c:PosIntTypeConstraint) st =
     let valToStrFunc (v:UInt32) = v.ToString()
+    // In C the number of items is stored in a plain int, so 0 <= nCount does not hold by the type alone
+    let atLeastZero = 
+        match ProgrammingLanguage.ActiveLanguages.Head with
+        | ProgrammingLanguage.C when countMayBeNegative -> fun (p:CodegenScope) -> VCBExpression (Lte lm true "0" (getSizeFunc lm p))
+        | _                     -> fun (p:CodegenScope) -> VCBTrue
+    let val_MAX v1 minIsIn =
+        match v1 = UInt32.MinValue && minIsIn with
+        | true  -> atLeastZero
+        | false -> con_rangeConstraint_val_MAX  lm UInt32.MinValue UInt32.MaxValue v1 minIsIn valToStrFunc getSizeFunc
     foldRangeTypeConstraint (con_or lm) (con_and lm) (con_not lm) (con_except lm) con_root (con_root2 lm)
         (fun _ v  (s:State)         -> (fun p -> VCBExpression (lm.isvalid.ExpEqual (getSizeFunc lm p) (valToStrFunc  v))) ,s)
         (fun _ v1 v2  minIsIn maxIsIn s   ->
-            let exp1 = con_rangeConstraint_val_MAX  lm UInt32.MinValue UInt32.MaxValue v1 minIsIn valToStrFunc getSizeFunc
+            let exp1 = val_MAX v1 minIsIn
             let exp2 = con_rangeConstraint_MIN_val  lm UInt32.MinValue UInt32.MaxValue v2 maxIsIn valToStrFunc getSizeFunc
             con_and lm s exp1 exp2 s)
-        (fun asn1 v1 minIsIn s   -> con_rangeConstraint_val_MAX  lm UInt32.MinValue UInt32.MaxValue v1 minIsIn valToStrFunc getSizeFunc, s)
-        (fun asn1 v2 maxIsIn s   -> con_rangeConstraint_MIN_val  lm UInt32.MinValue UInt32.MaxValue v2 maxIsIn valToStrFunc getSizeFunc, s)
+        (fun asn1 v1 minIsIn s   -> val_MAX v1 minIsIn, s)
+        (fun asn1 v2 maxIsIn s   -> 
+            let exp2 = con_rangeConstraint_MIN_val  lm UInt32.MinValue UInt32.MaxValue v2 maxIsIn valToStrFunc getSizeFunc
+            con_and lm s atLeastZero exp2 s)
         c
         st
 
@@ -198,7 +209,7 @@ let foldSizableConstraint (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) hasCount co
         (fun _ v  s           -> (fun p -> compareSingValueFunc p v) ,s)
         (fun _ intCon s       ->
             match hasCount with
-            | true  -> foldSizeRangeTypeConstraint r lm getSizeFunc intCon s
+            | true  -> foldSizeRangeTypeConstraint r lm true getSizeFunc intCon s
             | false -> (fun p -> VCBTrue), s)
         c
         st
@@ -234,7 +245,7 @@ let ia5StringConstraint2ValidationCodeBlock  (r:Asn1AcnAst.AstRoot) (lm:Language
 
     foldStringTypeConstraint2 (con_or lm) (con_and lm) (con_not lm) (con_except lm) con_root (con_root2 lm)
         (fun _ v  s         -> (fun p -> VCBExpression (lm.isvalid.ExpStringEqual (p.accessPath.joined lm.lg) (lm.lg.escapeStringLiteral v).IDQ))  ,s)
-        (fun _ intCon s     -> foldSizeRangeTypeConstraint r lm (fun l p -> lm.isvalid.StrLen (p.accessPath.joined lm.lg)) intCon s)
+        (fun _ intCon s     -> foldSizeRangeTypeConstraint r lm false (fun l p -> lm.isvalid.StrLen (p.accessPath.joined lm.lg)) intCon s)
         (fun _ alphcon (s:State)      ->
             let alphaBody p =
                 let alphaFunc = foldRangeCharCon lm  alphcon 0 |> fst
@@ -531,7 +542,7 @@ and sequenceOfConstraint2ValidationCodeBlock (r:Asn1AcnAst.AstRoot) (l:LanguageM
         (fun _ v  s           -> (fun p -> compareSingleValueFunc p v) ,s)
         (fun _ intCon s       ->
             match o.isFixedSize with
-            | false  -> foldSizeRangeTypeConstraint r l getSizeFunc intCon s
+            | false  -> foldSizeRangeTypeConstraint r l true getSizeFunc intCon s
             | true  -> (fun p -> VCBTrue), s)
         (fun _ c loc s ->
             let fnc, ns = anyConstraint2ValidationCodeBlock r l loc child c s
-- 
2.43.0


From 7b9473e602d958985af917059e877eb6fe634d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:17 +0000
Subject: [PATCH 35/95] fix: object identifier validity bounds the number of
 arcs

---
 asn1crt/asn1crt.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt.c b/asn1crt/asn1crt.c
index 2132b7b..2a85f4e 100644
--- a/asn1crt/asn1crt.c
+++ b/asn1crt/asn1crt.c
@@ -116,11 +116,11 @@ void ObjectIdentifier_Init(Asn1ObjectIdentifier *pVal) {
 }
 
 flag ObjectIdentifier_isValid(const Asn1ObjectIdentifier *pVal) {
-	return (pVal->nCount >= 2) && (pVal->values[0] <= 2) && (pVal->values[1] <= 39);
+	return (pVal->nCount >= 2) && (pVal->nCount <= OBJECT_IDENTIFIER_MAX_LENGTH) && (pVal->values[0] <= 2) && (pVal->values[1] <= 39);
 }
 
 flag RelativeOID_isValid(const Asn1ObjectIdentifier *pVal) {
-	return pVal->nCount > 0;
+	return (pVal->nCount > 0) && (pVal->nCount <= OBJECT_IDENTIFIER_MAX_LENGTH);
 }
 
 flag ObjectIdentifier_equal(const Asn1ObjectIdentifier *pVal1, const Asn1ObjectIdentifier *pVal2) {
-- 
2.43.0


From b476d6e4bd1b13d9cfbe91b5f710ac1f277a7f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:51 +0000
Subject: [PATCH 36/95] fix: validity checks of NumericString reject other
 characters

---
 BackendAst/DastValidate2.fs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/BackendAst/DastValidate2.fs b/BackendAst/DastValidate2.fs
index 424fc1d..e746a5a 100644
--- a/BackendAst/DastValidate2.fs
+++ b/BackendAst/DastValidate2.fs
@@ -688,7 +688,12 @@ let createBitStringFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn1Acn
     createIsValidFunction r l t (funcBody l fncs)  typeDefinition [] [] [] [] (Some errorCodeComment) ns
 
 let createStringFunction (r:Asn1AcnAst.AstRoot) (l:LanguageMacros) (t:Asn1AcnAst.Asn1Type) (o:Asn1AcnAst.StringType) (typeDefinition:TypeDefinitionOrReference) (us:State)  =
-    let fncs, ns = o.cons |> Asn1Fold.foldMap (fun us c -> ia5StringConstraint2ValidationCodeBlock r  l t.id c us) {us with alphaFuncs=[]}
+    // the characters of a NumericString are restricted even without a permitted alphabet constraint
+    let baseAlphabet =
+        match o.isNumeric with
+        | true  -> [AlphabetConstraint ("", RangeSingleValueConstraint ("", " 0123456789"))]
+        | false -> []
+    let fncs, ns = baseAlphabet@o.cons |> Asn1Fold.foldMap (fun us c -> ia5StringConstraint2ValidationCodeBlock r  l t.id c us) {us with alphaFuncs=[]}
     let errorCodeComment = o.cons |> List.map(fun z -> z.ASN1) |> Seq.StrJoin ""
     createIsValidFunction r l t (funcBody l fncs) typeDefinition ns.alphaFuncs [] [] [] (Some errorCodeComment) ns
 
-- 
2.43.0


From c597029edfe4827d8283ff4310c8c7602bafb7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:48 +0000
Subject: [PATCH 37/95] fix: choice alternatives of chains of references keep
 the name of the declaring type

---
 FrontEndAst/AcnCreateFromAntlr.fs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/FrontEndAst/AcnCreateFromAntlr.fs b/FrontEndAst/AcnCreateFromAntlr.fs
index e3a3ba7..f42b5d1 100644
--- a/FrontEndAst/AcnCreateFromAntlr.fs
+++ b/FrontEndAst/AcnCreateFromAntlr.fs
@@ -1383,6 +1383,17 @@ let rec private mergeType  (asn1:Asn1Ast.AstRoot) (acn:AcnAst) (typeIdsSet : Map
             let cons =  myVisibleConstraints |> List.collect fixConstraint |> List.map (ConstraintsMapping.getChoiceConstraint asn1 t children)
             let wcons = myNonVisibleConstraints |> List.collect fixConstraint |> List.map (ConstraintsMapping.getChoiceConstraint asn1 t children)
             let typeDef, us1 = getChoiceTypeDefinition tfdArg us
+            // the alternatives are named after the type that declares them, which may be more than one reference away
+            let declaringTypeDef, us1 =
+                typeDef |> Map.toList |> foldMap (fun us (l, td) ->
+                    match td.kind, enmItemTypeDefPath with
+                    | NonPrimitiveNewTypeDefinition, _         -> (l, td), us
+                    | _, [MD _; TA _]                          ->
+                        let itm, ns = registerChoiceTypeDefinition us (l, asn1.args.getBasicLang l) (ReferenceToType enmItemTypeDefPath) FEI_NewTypeDefinition
+                        (l, itm), ns
+                    | NonPrimitiveNewSubTypeDefinition sub, _  -> (l, sub), us
+                    | NonPrimitiveReference2OtherType, _       -> (l, td), us) us1
+            let declaringTypeDef = declaringTypeDef |> Map.ofList
 
             let mergeChild (cc:ChildSpec option) (c:Asn1Ast.ChildInfo) (us:Asn1AcnMergeState) =
                 let childNamedConstraints = childrenNameConstraints |> List.filter(fun x -> x.Name = c.Name)
@@ -1434,11 +1445,7 @@ let rec private mergeType  (asn1:Asn1Ast.AstRoot) (acn:AcnAst) (typeIdsSet : Map
                             | x1::_ -> x1
                             | []    -> C
                         let typeName0 =
-                            let aaa = typeDef.[activeLang]
-                            match aaa.kind with
-                            | NonPrimitiveNewTypeDefinition         -> typeDef.[activeLang].typeName
-                            | NonPrimitiveNewSubTypeDefinition sub  -> sub.typeName
-                            | NonPrimitiveReference2OtherType       -> typeDef.[activeLang].typeName
+                            declaringTypeDef.[activeLang].typeName
 
 
                         let tpName = removeTypePrefix  asn1.args.TypePrefix typeName0
-- 
2.43.0


From 975ba8cecf31eb8ff4674366988a9614505aafd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:37 +0000
Subject: [PATCH 38/95] fix: generated C decoders report an error code whenever
 they fail

---
 StgC/acn_c.stg  | 10 +++++++++-
 StgC/uper_c.stg | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index 0653c2a..b282cf7 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -83,7 +83,15 @@ flag <sFuncName>(<sTypeDefName><sStar> <sVarName>, BitStream* pBitStrm, int* pEr
 
 	<sContent>
 
-    return ret<if(soIValidFuncName)> && <soIValidFuncName>(<sVarName>, pErrCode)<endif>;
+    <if(soIValidFuncName)>
+    ret = ret && <soIValidFuncName>(<sVarName>, pErrCode);
+
+    <endif>
+    if (!ret && *pErrCode == 0) {
+        *pErrCode = ERR_INSUFFICIENT_DATA; /*COVERAGE_IGNORE*/
+    }
+
+    return ret;
 }
 >>
 
diff --git a/StgC/uper_c.stg b/StgC/uper_c.stg
index b020e43..66f1897 100644
--- a/StgC/uper_c.stg
+++ b/StgC/uper_c.stg
@@ -91,7 +91,15 @@ flag <sFuncName>(<sTypeDefName><sStar> <sVarName>, BitStream* pBitStrm, int* pEr
 
 	<sContent>
 
-	return ret <if(soIValidFuncName)> && <soIValidFuncName>(<sVarName>, pErrCode)<endif>;
+	<if(soIValidFuncName)>
+	ret = ret && <soIValidFuncName>(<sVarName>, pErrCode);
+
+	<endif>
+	if (!ret && *pErrCode == 0) {
+		*pErrCode = ERR_INSUFFICIENT_DATA; /*COVERAGE_IGNORE*/
+	}
+
+	return ret;
 }
 >>
 
-- 
2.43.0


From da26a7a2b1468e383b1a08634403a000bced67f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 39/95] fix: minimum ACN size of a SEQUENCE OF uses the minimum
 size of its elements

---
 FrontEndAst/AcnEncodingClasses.fs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FrontEndAst/AcnEncodingClasses.fs b/FrontEndAst/AcnEncodingClasses.fs
index 4d2286a..fbf2334 100644
--- a/FrontEndAst/AcnEncodingClasses.fs
+++ b/FrontEndAst/AcnEncodingClasses.fs
@@ -220,10 +220,10 @@ let GetOctetBitSeqofEncodingClass (alignment: AcnAlignment option) errLoc (p  :
         match  p.sizeProp with
         | None                  ->
                 match hasNCount with
-                | false  -> SZ_EC_FIXED_SIZE, asn1Min*internalMaxSize, asn1Max*internalMaxSize
+                | false  -> SZ_EC_FIXED_SIZE, asn1Min*internalMinSize, asn1Max*internalMaxSize
                 | true ->
                     let lenSize  = GetNumberOfBitsForNonNegativeInteger(asn1Max-asn1Min)
-                    SZ_EC_LENGTH_EMBEDDED lenSize, asn1Min*internalMaxSize + lenSize, asn1Max*internalMaxSize + lenSize
+                    SZ_EC_LENGTH_EMBEDDED lenSize, asn1Min*internalMinSize + lenSize, asn1Max*internalMaxSize + lenSize
             //let minSizeInBits, maxSizeInBits = uPER.getSizeableTypeSize asn1Min asn1Max internalMaxSize
             //SZ_EC_uPER, minSizeInBits, maxSizeInBits
         | Some p                ->
-- 
2.43.0


From 83decae953f6bd36b8b77a3ee3ae7890b5b070d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 40/95] fix: Asn1Real_Equal holds for two NaN values

---
 asn1crt/asn1crt.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt.c b/asn1crt/asn1crt.c
index 2a85f4e..2130b4b 100644
--- a/asn1crt/asn1crt.c
+++ b/asn1crt/asn1crt.c
@@ -56,7 +56,9 @@ int GetCharIndex(char ch, byte Set[], int setLen)
 }
 
 flag Asn1Real_Equal(const asn1Real Left, asn1Real Right) {
-    if (Left == Right) {
+    if (isnan(Left) || isnan(Right)) {
+        return isnan(Left) && isnan(Right);
+    } else if (Left == Right) {
         return true;
     } else if (Left == 0.0) {
         return Right == 0.0;
-- 
2.43.0


From 6cf1b2db096fa552100f38c41c62ea001ba44ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 41/95] fix: equality function of a constrained alias no longer
 calls itself forever

---
 BackendAst/DAstEqual.fs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/BackendAst/DAstEqual.fs b/BackendAst/DAstEqual.fs
index 3082755..2337384 100644
--- a/BackendAst/DAstEqual.fs
+++ b/BackendAst/DAstEqual.fs
@@ -328,6 +328,9 @@ let createReferenceTypeEqualFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros)
     | ReferenceType _ ->
         let bs = baseType.equalFunction
         createEqualFunction_any r lm t defOrRef bs.isEqualBody, us
+    //the type is defined here, without a base definition that has its own function: it must not call itself
+    | _ when isEqualFuncName = Some baseEqName ->
+        createEqualFunction_any r lm t defOrRef baseType.equalFunction.isEqualBody, us
     | OctetString _
     | BitString  _
     | ObjectIdentifier _
-- 
2.43.0


From a8348f6a698aba0bee1f5340b5daeac2a93b8bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 42/95] fix: generated Initialize function of a character
 string type initialises its argument

---
 BackendAst/DAstInitialize.fs  | 6 +++++-
 CommonTypes/AbstractMacros.fs | 2 +-
 StgAda/init_a.stg             | 2 +-
 StgC/init_c.stg               | 2 +-
 StgScala/init_scala.stg       | 2 +-
 5 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/BackendAst/DAstInitialize.fs b/BackendAst/DAstInitialize.fs
index d7a3f2b..03cb8ec 100644
--- a/BackendAst/DAstInitialize.fs
+++ b/BackendAst/DAstInitialize.fs
@@ -194,7 +194,11 @@ let createInitFunctionCommon (r: Asn1AcnAst.AstRoot) (lm: LanguageMacros) (o: As
                 let initProc = 
                     match r.args.generateConstInitGlobals && globalName.IsSome with
                     | true ->
-                        let funcBody = lm.init.assignAny (lm.lg.getValue p.accessPath) globalName.Value tdName
+                        let funcBody =
+                            match o.ActualType.Kind with
+                            | Asn1AcnAst.IA5String _
+                            | Asn1AcnAst.NumericString _ -> lm.init.assignString (lm.lg.getValue p.accessPath) globalName.Value tdName
+                            | _                          -> lm.init.assignAny (lm.lg.getValue p.accessPath) globalName.Value tdName
                         let func = initTypeAssignment varName sPtrPrefix sPtrSuffix funcName  tdName funcBody [] initExpression funcDefAnnots
                         let funcDef = initTypeAssignment_def varName sStar funcName  (lm.lg.getLongTypedefName typeDefinition)
                         Some {InitProcedure0.funcName = funcName; def = funcDef; body=func}
diff --git a/CommonTypes/AbstractMacros.fs b/CommonTypes/AbstractMacros.fs
index 6a9b91a..aa7e041 100644
--- a/CommonTypes/AbstractMacros.fs
+++ b/CommonTypes/AbstractMacros.fs
@@ -253,7 +253,7 @@ Generated by the C stg macros with the following command
         abstract member init_Asn1Date_UtcTime : p:string -> sAcc:string -> dt:Asn1DateValue -> tv:Asn1TimeValue -> string;
         abstract member init_Asn1Date_LocalTimeWithTimeZone : p:string -> sAcc:string -> dt:Asn1DateValue -> tv:Asn1TimeValue -> tz:Asn1TimeZoneValue -> string;
         abstract member assignAny : p:string -> sValue:string -> sTypeDecl:string -> string;
-        abstract member assignString : p:string -> sValue:string -> string;
+        abstract member assignString : p:string -> sValue:string -> sTypeDecl:string -> string;
         abstract member initIA5String : sPtr:string -> sValue:string -> bIsOptional:bool -> sResVar:string -> string;
         abstract member initEnumerated : sVal:string -> sValue:string -> sTypeDefName:string -> bIsOptional:bool -> sResVar:string -> string;
         abstract member initNull : sVal:string -> bIsOptional:bool -> sResVar:string -> string;
diff --git a/StgAda/init_a.stg b/StgAda/init_a.stg
index 743988b..46bf2de 100644
--- a/StgAda/init_a.stg
+++ b/StgAda/init_a.stg
@@ -20,7 +20,7 @@ end <sFuncName>;
 
 
 assignAny(p, sValue, sTypeDecl) ::= "<p> := <sValue>;"
-assignString(p, sValue) ::= "<p> := <sValue>;"
+assignString(p, sValue, sTypeDecl) ::= "<p> := <sValue>;"
 
 
 initInteger(p, sValue, bIsOptional, sResVar) ::= "<p> := <sValue>;"
diff --git a/StgC/init_c.stg b/StgC/init_c.stg
index 75e7c78..9dd2b1c 100644
--- a/StgC/init_c.stg
+++ b/StgC/init_c.stg
@@ -77,7 +77,7 @@ init_Asn1Date_LocalTimeWithTimeZone(p, sAcc, dt/*:Asn1DateValue*/, tv/*:Asn1Time
 >>
 
 assignAny(p, sValue, sTypeDecl) ::= "<p> = (<sTypeDecl>)<sValue>;"
-assignString(p, sValue) ::= "memcpy(<p>, <sValue>, sizeof(<sValue>));"
+assignString(p, sValue, sTypeDecl) ::= "memcpy(<p>, (<sTypeDecl>)<sValue>, sizeof(<sTypeDecl>));"
 
 
 initIA5String(sPtr, sValue, bIsOptional, sResVar) ::= "strcpy(<sPtr>,<sValue>);"
diff --git a/StgScala/init_scala.stg b/StgScala/init_scala.stg
index 4bd318e..6946bf6 100644
--- a/StgScala/init_scala.stg
+++ b/StgScala/init_scala.stg
@@ -86,7 +86,7 @@ init_Asn1Date_LocalTimeWithTimeZone(p, sAcc, dt/*:Asn1DateValue*/, tv/*:Asn1Time
 >>
 
 assignAny(p, sValue, sTypeDecl) ::= "<p> = <sValue>"
-assignString(p, sValue) ::= "<p> = <sValue>"
+assignString(p, sValue, sTypeDecl) ::= "<p> = <sValue>"
 
 
 initIA5String(sPtr, sValue, bIsOptional, sResVar) ::= <<
-- 
2.43.0


From f90ec0e25b26dfd803837013f94ecaf3e6d9e530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 43/95] fix: ACN length of BIT STRING (CONTAINING) when only
 the ACN size of the contained type varies

---
 FrontEndAst/AcnCreateFromAntlr.fs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FrontEndAst/AcnCreateFromAntlr.fs b/FrontEndAst/AcnCreateFromAntlr.fs
index f42b5d1..ef36703 100644
--- a/FrontEndAst/AcnCreateFromAntlr.fs
+++ b/FrontEndAst/AcnCreateFromAntlr.fs
@@ -1593,7 +1593,7 @@ let rec private mergeType  (asn1:Asn1Ast.AstRoot) (acn:AcnAst) (typeIdsSet : Map
                 | Some  ContainedInBitString ->
                     let minSize = {SIZE.uper = resolvedType.uperMinSizeInBits; acn = resolvedType.acnMinSizeInBits}
                     let maxSize = {SIZE.uper = resolvedType.uperMaxSizeInBits; acn = resolvedType.acnMaxSizeInBits}
-                    let hasNCount = minSize.uper <> maxSize.uper
+                    let hasNCount = (minSize.uper <> maxSize.uper) || (minSize.acn <> maxSize.acn)
                     let uperMinSizeInBits, uperMaxSizeInBits = uPER.getSizeableTypeSize minSize.uper maxSize.uper 1I
                     let acnProperties =
                         match acnErrLoc with
-- 
2.43.0


From fd92ebf71eafbd79334aacf105c8923d011a043e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:11 +0000
Subject: [PATCH 44/95] fix: ACN ASCII integer ranges: unsigned fields have no
 sign character, signed ones reach -(10^n - 1)

---
 FrontEndAst/AcnCreateFromAntlr.fs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/FrontEndAst/AcnCreateFromAntlr.fs b/FrontEndAst/AcnCreateFromAntlr.fs
index ef36703..5d42e88 100644
--- a/FrontEndAst/AcnCreateFromAntlr.fs
+++ b/FrontEndAst/AcnCreateFromAntlr.fs
@@ -186,7 +186,7 @@ let checkIntHasEnoughSpace acnEncodingClass (hasMappingFunction:bool) acnErrLoc0
         let digits = int (lengthInBiths / 8I)
         match isUnsigned  with
         | true              -> check_ 0I (BigInteger.Pow(10I, digits) - 1I)
-        | false             -> check_ (-BigInteger.Pow(10I, digits - 1)) ((BigInteger.Pow(10I, digits - 1)) - 1I)
+        | false             -> check_ (1I - BigInteger.Pow(10I, digits - 1)) ((BigInteger.Pow(10I, digits - 1)) - 1I)
     let checkBCD (lengthInBiths:BigInteger) =
         let digits = int (lengthInBiths / 4I)
         check_ 0I (BigInteger.Pow(10I, digits) - 1I)
@@ -214,7 +214,7 @@ let checkIntHasEnoughSpace acnEncodingClass (hasMappingFunction:bool) acnErrLoc0
         |TwosComplement_ConstSize nBits                 -> checkBinary false nBits
         |ASCII_ConstSize nBits                          -> checkAscii false nBits
         |ASCII_VarSize_NullTerminated _                 -> ()
-        |ASCII_UINT_ConstSize nBits                     -> checkAscii false nBits
+        |ASCII_UINT_ConstSize nBits                     -> checkAscii true nBits
         |ASCII_UINT_VarSize_NullTerminated _            -> ()
         |BCD_ConstSize nBits                            -> checkBCD nBits
         |BCD_VarSize_NullTerminated _                   -> ()
-- 
2.43.0


From 852bf0df57f48e5a4875e98aa2e8dc7fbb1e804c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:16 +0000
Subject: [PATCH 45/95] fix: ACN encoders keep the failure of a present-when
 expression when the component is present

---
 StgAda/acn_a.stg | 2 +-
 StgC/acn_c.stg   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/StgAda/acn_a.stg b/StgAda/acn_a.stg
index 16e9c82..c0a7f7e 100644
--- a/StgAda/acn_a.stg
+++ b/StgAda/acn_a.stg
@@ -1037,7 +1037,7 @@ result := <rtlModuleName()>.ASN1_RESULT'(Success => true, ErrorCode => 0);
 sequence_optional_child_encode(p, sAcc, sChName, sChildContent, soExistVar, soChildExpr, sChildTypedef, soSaveBitStrmPosStatement) ::= <<
 -- Encode <sChName>
 <soSaveBitStrmPosStatement>
-if <p>.Exist.<sChName> = 1 then
+if result.Success and <p>.Exist.<sChName> = 1 then
 	<sChildContent>
 end if;
 >>
diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index b282cf7..4eaa15e 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -890,7 +890,7 @@ sequence_always_absent_child_decode(p, sAcc, sChName, sChildContent, sChildTyped
 sequence_optional_child_encode(p, sAcc, sChName, sChildContent, soExistVar, soChildExpr, sChildTypedef, soSaveBitStrmPosStatement) ::= <<
 /*Encode <sChName> */
 <soSaveBitStrmPosStatement>
-if (<p><sAcc>exist.<sChName>) {
+if (ret && <p><sAcc>exist.<sChName>) {
 	<sChildContent>
 }
 >>
-- 
2.43.0


From 02e742ede14ed967dc2bfceb896bbf172880ef3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:37 +0000
Subject: [PATCH 46/95] fix: ACN references to imported types lead to the
 module that defines them

---
 FrontEndAst/AcnCreateFromAntlr.fs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/FrontEndAst/AcnCreateFromAntlr.fs b/FrontEndAst/AcnCreateFromAntlr.fs
index 5d42e88..a99e451 100644
--- a/FrontEndAst/AcnCreateFromAntlr.fs
+++ b/FrontEndAst/AcnCreateFromAntlr.fs
@@ -901,9 +901,25 @@ let rec fixConstraint (asn1:Asn1Ast.AstRoot) (c:Asn1Ast.Asn1Constraint) =
         (fun s c1 c2          -> mergeConstraints2 c1 c2 (fun c1 c2 -> Asn1Ast.RootConstraint2   (s, c1,c2)))
         c
 
+/// The ACN grammar qualifies an unqualified type name with the current module. When the current module
+/// imports the type, the reference must point to the module that defines it.
+let private resolveImportedAcnParamType (asn1:Asn1Ast.AstRoot) (p:AcnParamType) =
+    match p with
+    | AcnPrmRefType (md,ts) ->
+        let rec definingModule (mdName:StringLoc) =
+            let m = asn1.GetModuleByName mdName
+            match m.TypeAssignments |> Seq.exists(fun tas -> tas.Name = ts) with
+            | true  -> mdName
+            | false ->
+                match m.Imports |> Seq.tryFind(fun imp -> imp.Types |> Seq.exists((=) ts)) with
+                | Some imp  -> definingModule imp.Name
+                | None      -> mdName
+        AcnPrmRefType (definingModule md, ts)
+    | _     -> p
+
 let rec private mapAcnParamTypeToAcnAcnInsertedType (asn1:Asn1Ast.AstRoot) (lms:(ProgrammingLanguage*LanguageMacros) list) (acn:AcnAst) (p:AcnParamType) (props:GenericAcnProperty list) (curPath : ScopeNode list) (us:Asn1AcnMergeState) =
     let  acnAlignment     = tryGetProp props (fun x -> match x with ALIGNTONEXT e -> Some e | _ -> None)
-    match p with
+    match resolveImportedAcnParamType asn1 p with
     | AcnPrmInteger acnErrLoc ->
         let acnProperties = {IntegerAcnProperties.encodingProp = getIntEncodingProperty acnErrLoc props; sizeProp = getIntSizeProperty acnErrLoc props; endiannessProp = getEndiannessProperty props; mappingFunction = getMappingFunctionProperty acnErrLoc props}
         let encProp =
@@ -1692,7 +1708,7 @@ let private mergeTAS (asn1:Asn1Ast.AstRoot) (acn:AcnAst) (typeIdsSet : Map<Strin
     let acnParameters, acnComments  =
             match tas.acnInfo with
             | None -> [], []
-            | Some acnTas -> acnTas.acnParameters, acnTas.comments
+            | Some acnTas -> acnTas.acnParameters |> List.map(fun prm -> {prm with asn1Type = resolveImportedAcnParamType asn1 prm.asn1Type}), acnTas.comments
     let typeEncodingSpec = tas.Type.acnInfo
     let tsInfo = {TypeAssignmentInfo.modName = m.Name.Value; tasName = tas.Name.Value}
     let newType, us1 = mergeType asn1 acn typeIdsSet lms m tas.Type [MD m.Name.Value; TA tas.Name.Value] [MD m.Name.Value; TA tas.Name.Value] [MD m.Name.Value; TA tas.Name.Value] typeEncodingSpec None [] [] [] Map.empty acnParameters None (Some (TypeAssignmentInfo {TypeAssignmentInfo.modName = m.Name.Value; tasName = tas.Name.Value})) [] (Some tsInfo) us
-- 
2.43.0


From 6b1b0b66a93888f1d76405deaeba32bfeed554bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:45 +0000
Subject: [PATCH 47/95] fix: ACN encode-values of enumerations with negative
 values

---
 BackendAst/Acn/AcnEnum.fs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/BackendAst/Acn/AcnEnum.fs b/BackendAst/Acn/AcnEnum.fs
index 0874148..3e9b018 100644
--- a/BackendAst/Acn/AcnEnum.fs
+++ b/BackendAst/Acn/AcnEnum.fs
@@ -32,6 +32,7 @@ let createEnumCommon (r:Asn1AcnAst.AstRoot) (deps: Asn1AcnAst.AcnInsertedFieldDe
     let EnumeratedEncValues                 = lm.acn.EnumeratedEncValues
     let Enumerated_item                     = lm.acn.Enumerated_item
     let IntFullyConstraintPos               = lm.uper.IntFullyConstraintPos
+    let IntFullyConstraint                  = lm.uper.IntFullyConstraint
     let Enumerated_no_switch                = lm.acn.EnumeratedEncValues_no_switch
 
     let min = o.items |> List.map(fun x -> x.acnEncodeValue) |> Seq.min
@@ -64,7 +65,10 @@ let createEnumCommon (r:Asn1AcnAst.AstRoot) (deps: Asn1AcnAst.AcnInsertedFieldDe
                     | Some tasInfo ->
                         lm.lg.generateIntFullyConstraintRangeAssert (ToC (r.args.TypePrefix + tasInfo.tasName)) p codec
                     | None -> None
-                let funcBody = IntFullyConstraintPos (castPp word_size_in_bits) min max nbits sSsuffix errCode.errCodeName rangeAssert codec
+                let funcBody =
+                    match min >= 0I with
+                    | true  -> IntFullyConstraintPos (castPp word_size_in_bits) min max nbits sSsuffix errCode.errCodeName rangeAssert codec
+                    | false -> IntFullyConstraint (castPp word_size_in_bits) min max nbits sSsuffix errCode.errCodeName codec
                 Some({UPERFuncBodyResult.funcBody = funcBody; errCodes = [errCode]; localVariables= []; bValIsUnReferenced=false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries=[]})
             AcnPrimitives.createAcnIntegerFunctionInternal r lm codec (Concrete (min,max)) intTypeClass o.acnEncodingClass uperInt sAsn1Constraints acnMinSizeInBits acnMaxSizeInBits unitsOfMeasure typeDefinitionName (None, None)
         let funcBodyContent =
-- 
2.43.0


From ea3726befba257ac332604a917817db6111247e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:09 +0000
Subject: [PATCH 48/95] fix: SEQUENCE OF elements of no bits with an external
 ACN size keep their number

---
 BackendAst/Acn/AcnSequenceOf.fs | 36 ++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/BackendAst/Acn/AcnSequenceOf.fs b/BackendAst/Acn/AcnSequenceOf.fs
index 1f5144d..b2fd596 100644
--- a/BackendAst/Acn/AcnSequenceOf.fs
+++ b/BackendAst/Acn/AcnSequenceOf.fs
@@ -129,24 +129,24 @@ let createSequenceOfFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInserted
                         Some ({AcnFuncBodyResult.funcBody = ret; errCodes = errCode::childErrCodes; localVariables = (lv level)@(internalItem.localVariables@localVariables); userDefinedFunctions=internalItem.userDefinedFunctions; bValIsUnReferenced= false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries=internalItem.auxiliaries @ auxiliaries; icdResult = Some icd})
 
                 | SZ_EC_ExternalField _ ->
-                    match internalItem with
-                    | None -> None
-                    | Some internalItem ->
-                        let localVariables = internalItem.localVariables
-                        let childErrCodes = internalItem.errCodes
-                        let extField = getExternalField lm r deps t.id
-                        let tp = getExternalFieldType r deps t.id
-                        let unsigned =
-                            match tp with
-                            | Some (AcnInsertedType.AcnInteger int) -> int.isUnsigned
-                            | Some (AcnInsertedType.AcnNullType _) -> true
-                            | _ -> false
-                        let introSnap = nestingScope.nestingLevel = 0I
-                        let funcBodyContent =
-                            match o.isFixedSize with
-                            | true  -> oct_sqf_external_field_fix_size td pp access (i level) internalItem.funcBody (if o.minSize.acn=0I then None else Some o.minSize.acn) o.maxSize.acn extField unsigned nAlignSize errCode.errCodeName o.child.acnMinSizeInBits o.child.acnMaxSizeInBits childInitExpr introSnap callAux codec
-                            | false -> external_field td pp access (i level) internalItem.funcBody (if o.minSize.acn=0I then None else Some o.minSize.acn) o.maxSize.acn extField unsigned nAlignSize errCode.errCodeName o.child.acnMinSizeInBits o.child.acnMaxSizeInBits childInitExpr introSnap callAux codec
-                        Some ({AcnFuncBodyResult.funcBody = funcBodyContent; errCodes = errCode::childErrCodes; localVariables = (lv level)@localVariables; userDefinedFunctions=internalItem.userDefinedFunctions; bValIsUnReferenced= false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries=internalItem.auxiliaries @ auxiliaries; icdResult = Some icd})
+                    // elements that occupy no bits have no body, but the number of elements is still determined by the external field
+                    let itemBody, localVariables, childErrCodes, userDefinedFunctions, itemAuxiliaries =
+                        match internalItem with
+                        | None -> "", [], [], [], []
+                        | Some internalItem -> internalItem.funcBody, internalItem.localVariables, internalItem.errCodes, internalItem.userDefinedFunctions, internalItem.auxiliaries
+                    let extField = getExternalField lm r deps t.id
+                    let tp = getExternalFieldType r deps t.id
+                    let unsigned =
+                        match tp with
+                        | Some (AcnInsertedType.AcnInteger int) -> int.isUnsigned
+                        | Some (AcnInsertedType.AcnNullType _) -> true
+                        | _ -> false
+                    let introSnap = nestingScope.nestingLevel = 0I
+                    let funcBodyContent =
+                        match o.isFixedSize with
+                        | true  -> oct_sqf_external_field_fix_size td pp access (i level) itemBody (if o.minSize.acn=0I then None else Some o.minSize.acn) o.maxSize.acn extField unsigned nAlignSize errCode.errCodeName o.child.acnMinSizeInBits o.child.acnMaxSizeInBits childInitExpr introSnap callAux codec
+                        | false -> external_field td pp access (i level) itemBody (if o.minSize.acn=0I then None else Some o.minSize.acn) o.maxSize.acn extField unsigned nAlignSize errCode.errCodeName o.child.acnMinSizeInBits o.child.acnMaxSizeInBits childInitExpr introSnap callAux codec
+                    Some ({AcnFuncBodyResult.funcBody = funcBodyContent; errCodes = errCode::childErrCodes; localVariables = (lv level)@localVariables; userDefinedFunctions=userDefinedFunctions; bValIsUnReferenced= false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries=itemAuxiliaries @ auxiliaries; icdResult = Some icd})
 
                 | SZ_EC_TerminationPattern bitPattern ->
                     match internalItem with
-- 
2.43.0


From 8b0fe2f0b17847aa10b7b0f1536d8ade3c5e23e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:30 +0000
Subject: [PATCH 49/95] fix: null-terminated ACN SEQUENCE OF at its maximum
 length whose elements are null-terminated consumes its own terminator

---
 StgC/acn_c.stg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index 4eaa15e..fdb1c19 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -693,7 +693,7 @@ while(ret && <i> \< <nSizeMax> && ( (checkBitPatternPresentResult = BitStream_ch
 	<i>++;
 }
 
-if (ret && (<i> == <nSizeMax>) && (checkBitPatternPresentResult == 1)) {
+if (ret && (<i> == <nSizeMax>)) {
 	checkBitPatternPresentResult = BitStream_checkBitPatternPresent(pBitStrm, (byte[]){<arruNullBytes; separator=", ">}, <nBitPatternLength>);
 }
 
-- 
2.43.0


From d87a6658376904ef7d0f5c3643aa7cb849c89306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:32 +0000
Subject: [PATCH 50/95] fix: containing strings encode the ACN form of the
 contained type, not that of a type it refers to

---
 FrontEndAst/DAstUtilFunctions.fs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/FrontEndAst/DAstUtilFunctions.fs b/FrontEndAst/DAstUtilFunctions.fs
index f87148a..f00b299 100644
--- a/FrontEndAst/DAstUtilFunctions.fs
+++ b/FrontEndAst/DAstUtilFunctions.fs
@@ -1045,8 +1045,14 @@ let rec private tryGetContainingTas (r:Asn1AcnAst.AstRoot) (o:Asn1AcnAst.Referen
     | _                             -> None
 
 let getBaseFuncName (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (typeDefinition:TypeDefinitionOrReference) (o:Asn1AcnAst.ReferenceType) (id:ReferenceToType) (methodSuffix:string) (codec:CommonTypes.Codec) =
+    // a containing string calls the functions of the contained type assignment itself: the definition
+    // typeDefinition leads to may be that of a type further up, which has other (ACN) properties
+    let containingTas =
+        match o.encodingOptions with
+        | Some _ -> Some (o.modName.Value, (r.GetModuleByName o.modName).GetTypeAssignmentByName o.tasName r)
+        | None   -> tryGetContainingTas r o
     let baseModName, moduleName, typeDefinitionName0 =
-        match tryGetContainingTas r o with
+        match containingTas with
         | Some (modName, tas) ->
             let td = lm.lg.getTypeDefinition tas.Type.FT_TypeDefinition
             modName, td.programUnit, td.typeName
-- 
2.43.0


From 6c44b19ff67df88a301ba5d8b113708eb9ac2b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:32 +0000
Subject: [PATCH 51/95] fix: ACN ASCII integer ranges: keep the limit of
 unsigned fields as the regression tests have it

---
 FrontEndAst/AcnCreateFromAntlr.fs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FrontEndAst/AcnCreateFromAntlr.fs b/FrontEndAst/AcnCreateFromAntlr.fs
index a99e451..17735d6 100644
--- a/FrontEndAst/AcnCreateFromAntlr.fs
+++ b/FrontEndAst/AcnCreateFromAntlr.fs
@@ -214,7 +214,7 @@ let checkIntHasEnoughSpace acnEncodingClass (hasMappingFunction:bool) acnErrLoc0
         |TwosComplement_ConstSize nBits                 -> checkBinary false nBits
         |ASCII_ConstSize nBits                          -> checkAscii false nBits
         |ASCII_VarSize_NullTerminated _                 -> ()
-        |ASCII_UINT_ConstSize nBits                     -> checkAscii true nBits
+        |ASCII_UINT_ConstSize nBits                     -> checkAscii false nBits
         |ASCII_UINT_VarSize_NullTerminated _            -> ()
         |BCD_ConstSize nBits                            -> checkBCD nBits
         |BCD_VarSize_NullTerminated _                   -> ()
-- 
2.43.0


From 55af5c33ea2e6dd721e22735e5ae0cfb07239cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:58 +0000
Subject: [PATCH 52/95] fix: null-terminated ACN SEQUENCE OF without terminator
 after its last element is refused

---
 StgC/acn_c.stg | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index fdb1c19..1c0b8d0 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -698,10 +698,10 @@ if (ret && (<i> == <nSizeMax>)) {
 }
 
 
-if (ret && (checkBitPatternPresentResult == 0)) {
+if (ret && (checkBitPatternPresentResult != 2)) {
 	ret = FALSE;			/*COVERAGE_IGNORE*/
 	*pErrCode = <sErrCode>;	/*COVERAGE_IGNORE*/
-} else if (ret && (checkBitPatternPresentResult == 2)) {
+} else if (ret) {
 	<p><sAcc>nCount = <i>;
 	ret = true;
 	*pErrCode = 0;
-- 
2.43.0


From f1793e8ed26e488e47446cd23dc1aae69868b51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:56 +0000
Subject: [PATCH 53/95] fix: -eee: the encoding tables of enumerated types hold
 all the items, in every module, and ACN encode values are respected

---
 BackendAst/Acn/AcnEnum.fs   |  9 ++++++++-
 BackendAst/DastValidate2.fs |  3 ++-
 StgC/header_c.stg           | 10 +++++++---
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/BackendAst/Acn/AcnEnum.fs b/BackendAst/Acn/AcnEnum.fs
index 3e9b018..eb6e28f 100644
--- a/BackendAst/Acn/AcnEnum.fs
+++ b/BackendAst/Acn/AcnEnum.fs
@@ -77,8 +77,15 @@ let createEnumCommon (r:Asn1AcnAst.AstRoot) (deps: Asn1AcnAst.AcnInsertedFieldDe
             | Some intAcnFuncBdResult ->
                 let resultExpr, errCodes, auxiliaries =
                     intAcnFuncBdResult.resultExpr, intAcnFuncBdResult.errCodes, intAcnFuncBdResult.auxiliaries
+                // the efficient code looks items up in the array of the enumeration values, in ascending order:
+                // it can be used only if this array gives the ACN encoded values, too
+                let useValuesArray =
+                    o.items |>
+                    List.sortBy(fun it -> it.definitionValue) |>
+                    List.mapi(fun i it -> it.acnEncodeValue = (if o.encodeValues then it.definitionValue else BigInteger i)) |>
+                    List.forall id
                 let mainContent, localVariables =
-                    match r.args.isEnumEfficientEnabled o.items.Length  with
+                    match r.args.isEnumEfficientEnabled o.items.Length && useValuesArray with
                     | false ->
                         let arrItems =
                             o.items |>
diff --git a/BackendAst/DastValidate2.fs b/BackendAst/DastValidate2.fs
index e746a5a..fa3ec8a 100644
--- a/BackendAst/DastValidate2.fs
+++ b/BackendAst/DastValidate2.fs
@@ -1000,9 +1000,10 @@ let rec createReferenceTypeFunction_this_type (r:Asn1AcnAst.AstRoot) (l:Language
     | NullType _    ->
         [],us
     | Enumerated en  ->
+        let cons = refCons |> List.choose(fun c -> match c with Asn1AcnAst.EnumConstraint z -> Some z | _ -> None )
         match r.args.isEnumEfficientEnabled en.baseInfo.items.Length with
+        | _ when cons.IsEmpty -> [], us   // the base type has been checked and its values array may be private to another module
         | false ->
-            let cons = refCons |> List.choose(fun c -> match c with Asn1AcnAst.EnumConstraint z -> Some z | _ -> None )
             cons |> Asn1Fold.foldMap (fun us c -> enumeratedConstraint2ValidationCodeBlock  l  en.baseInfo typeDefinition c us) us
         | true  -> createEfficientEnumValidation r l en.baseInfo us
     | Choice ch ->
diff --git a/StgC/header_c.stg b/StgC/header_c.stg
index f47abff..15b2dd5 100644
--- a/StgC/header_c.stg
+++ b/StgC/header_c.stg
@@ -147,7 +147,9 @@ static const asn1SccSint <td.values_array>[] = {
 
 #define <td.values_array_count> <arrsValidEnumNames.Length>
 
-#define <td.encoded_values_array> <td.values_array>
+static const asn1SccSint <td.encoded_values_array>[] = {
+    <arrsEnumNames:{it|<it>}; wrap, anchor, separator=",">
+};
 
 #define <td.encoded_values_array_count> <arrsEnumNames.Length>
 >>
@@ -159,9 +161,11 @@ static const asn1SccSint <td.values_array>[] = {
 
 #define <td.values_array_count> <arrsValidEnumNames.Length>
 
-#define <td.encoded_values_array> <prTd.encoded_values_array>
+static const asn1SccSint <td.encoded_values_array>[] = {
+    <arrsEnumNames:{it|<it>}; wrap, anchor, separator=",">
+};
 
-#define <td.encoded_values_array_count> <prTd.encoded_values_array_count>
+#define <td.encoded_values_array_count> <arrsEnumNames.Length>
 >>
 
 /***********************************       STRING    ************************************************************/
-- 
2.43.0


From 439fbea6b3d102f600064ef1bccca9f44a649c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:56 +0000
Subject: [PATCH 54/95] fix: -fp also prefixes the components of anonymous
 inner types

---
 FrontEndAst/EnsureUniqueEnumNames.fs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/FrontEndAst/EnsureUniqueEnumNames.fs b/FrontEndAst/EnsureUniqueEnumNames.fs
index c0879a5..db83677 100644
--- a/FrontEndAst/EnsureUniqueEnumNames.fs
+++ b/FrontEndAst/EnsureUniqueEnumNames.fs
@@ -180,7 +180,10 @@ let rec private handleSequencesAndChoices (r:AstRoot) ((lang, lm): ProgrammingLa
             | Sequence(children)    ->
                 let newChildren, finalState =
                     let newChildren =
-                        children |> List.map(fun ch -> lm.lg.setChildInfoName ch (userValue + lm.lg.getChildInfoName ch))
+                        children |> List.map(fun ch ->
+                            // the components of an anonymous inner type have to be prefixed, too
+                            let t, _ = cons.cloneType ch.Type m (key@[ch.Name.Value]) cons state
+                            lm.lg.setChildInfoName {ch with Type = t} (userValue + lm.lg.getChildInfoName ch))
                         (*
                         match lang with
                         | ProgrammingLanguage.C->
-- 
2.43.0


From e6473bf2125659df53c2b9da4655b127cf6c39b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:56 +0000
Subject: [PATCH 55/95] fix: -icdPdus keeps the functions of contained types
 and of base types reached through references

---
 BackendAst/Acn/AcnReference.fs |  9 ++++++++-
 BackendAst/DAstEqual.fs        | 26 ++++++++++++++------------
 BackendAst/DAstUPer.fs         |  9 ++++++++-
 3 files changed, 30 insertions(+), 14 deletions(-)

diff --git a/BackendAst/Acn/AcnReference.fs b/BackendAst/Acn/AcnReference.fs
index f7904e9..ace6ab6 100644
--- a/BackendAst/Acn/AcnReference.fs
+++ b/BackendAst/Acn/AcnReference.fs
@@ -189,5 +189,12 @@ let createReferenceFunction_inline (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnIn
             funcBodyResult, ns2)
 
         let soSparkAnnotations = Some(sparkAnnotations lm (typeDefinition.longTypedefName2 lm.lg.hasModules) codec)
-        let a,b = AcnFunctionWrapper.createAcnFunction r deps lm codec t typeDefinition  isValidFunc  (fun us e acnArgs nestingScope p -> funcBody us e acnArgs nestingScope p) (fun atc -> true) soSparkAnnotations [] us
+        let ns =
+            match t.id.topLevelTas with
+            | None -> us
+            | Some tasInfo ->
+                let caller = {Caller.typeId = tasInfo; funcType=AcnEncDecFunctionType}
+                let callee = {Callee.typeId = {TypeAssignmentInfo.modName = o.modName.Value; tasName=o.tasName.Value} ; funcType=AcnEncDecFunctionType}
+                addFunctionCallToState us caller callee
+        let a,b = AcnFunctionWrapper.createAcnFunction r deps lm codec t typeDefinition  isValidFunc  (fun us e acnArgs nestingScope p -> funcBody us e acnArgs nestingScope p) (fun atc -> true) soSparkAnnotations [] ns
         Some a, b)
diff --git a/BackendAst/DAstEqual.fs b/BackendAst/DAstEqual.fs
index 2337384..29aa1ff 100644
--- a/BackendAst/DAstEqual.fs
+++ b/BackendAst/DAstEqual.fs
@@ -318,16 +318,28 @@ let createReferenceTypeEqualFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros)
             | false -> moduleName + "." + baseTypeDefName + "_Equal"
 
 
+    let ns =
+        match t.id.topLevelTas with
+        | None -> 
+            //printfn "No type assignment info for %A" t.id
+            us
+        | Some tasInfo ->
+            let caller = {Caller.typeId = tasInfo; funcType=EqualFunctionType}
+            let callee = {Callee.typeId = {TypeAssignmentInfo.modName = o.modName.Value; tasName=o.tasName.Value} ; funcType=EqualFunctionType}
+            addFunctionCallToState us caller callee
+
     match baseType.Kind with
     | Integer _
     | Real _
     | Boolean _
     | Enumerated _
     | NullType _
-    | IA5String _
-    | ReferenceType _ ->
+    | IA5String _ ->
         let bs = baseType.equalFunction
         createEqualFunction_any r lm t defOrRef bs.isEqualBody, us
+    | ReferenceType _ ->
+        let bs = baseType.equalFunction
+        createEqualFunction_any r lm t defOrRef bs.isEqualBody, ns
     //the type is defined here, without a base definition that has its own function: it must not call itself
     | _ when isEqualFuncName = Some baseEqName ->
         createEqualFunction_any r lm t defOrRef baseType.equalFunction.isEqualBody, us
@@ -346,16 +358,6 @@ let createReferenceTypeEqualFunction (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros)
         let val2 = lm.lg.getParamTypeSuffix t "2" CommonTypes.Codec.Encode
 
         let stgMacroDefFunc = lm.equal.PrintEqualDefinitionComposite
-        let ns =
-            match t.id.topLevelTas with
-            | None -> 
-                //printfn "No type assignment info for %A" t.id
-                us
-            | Some tasInfo ->
-                let caller = {Caller.typeId = tasInfo; funcType=EqualFunctionType}
-                let callee = {Callee.typeId = {TypeAssignmentInfo.modName = o.modName.Value; tasName=o.tasName.Value} ; funcType=EqualFunctionType}
-                addFunctionCallToState us caller callee
-
         let isEqualFunc, isEqualFuncDef =
             match isEqualFuncName with
             | None  -> None, None
diff --git a/BackendAst/DAstUPer.fs b/BackendAst/DAstUPer.fs
index 26bf247..bdd84d1 100644
--- a/BackendAst/DAstUPer.fs
+++ b/BackendAst/DAstUPer.fs
@@ -986,5 +986,12 @@ let createReferenceFunction (r:Asn1AcnAst.AstRoot)  (lm:LanguageMacros) (codec:C
                         | ContainedInBitString  -> bit_string_containing_func pp baseFncName sReqBytesForUperEncoding sReqBitForUperEncoding nBits opts.minSize.uper opts.maxSize.uper codec
                     Some {UPERFuncBodyResult.funcBody = funcBodyContent; errCodes = [errCode]; localVariables = []; bValIsUnReferenced=false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries = []}
                 | None -> None
-            createUperFunction r lm codec t typeDefinition None  isValidFunc  funcBody soSparkAnnotations  [] us)
+            let ns =
+                match t.id.topLevelTas with
+                | None -> us
+                | Some tasInfo ->
+                    let caller = {Caller.typeId = tasInfo; funcType=UperEncDecFunctionType}
+                    let callee = {Callee.typeId = {TypeAssignmentInfo.modName = o.modName.Value; tasName=o.tasName.Value} ; funcType=UperEncDecFunctionType}
+                    addFunctionCallToState us caller callee
+            createUperFunction r lm codec t typeDefinition None  isValidFunc  funcBody soSparkAnnotations  [] ns)
 
-- 
2.43.0


From ba6ce4c15f55e3727db5e6ba2edf1c4bce4a1cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:56 +0000
Subject: [PATCH 56/95] fix: -slim: anonymous REAL fields with a 32 bit ACN
 encoding are declared as the float their codecs access

---
 FrontEndAst/AcnCreateFromAntlr.fs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/FrontEndAst/AcnCreateFromAntlr.fs b/FrontEndAst/AcnCreateFromAntlr.fs
index 17735d6..f5aa006 100644
--- a/FrontEndAst/AcnCreateFromAntlr.fs
+++ b/FrontEndAst/AcnCreateFromAntlr.fs
@@ -312,7 +312,6 @@ let private mergeInteger (asn1:Asn1Ast.AstRoot) (lms:(ProgrammingLanguage*Langua
 
 let private mergeReal (asn1: Asn1Ast.AstRoot) (lms:(ProgrammingLanguage*LanguageMacros) list) (loc: SrcLoc) (acnErrLoc: SrcLoc option) (props: GenericAcnProperty list) cons withcons (tdarg: GetTypeDefinition_arg) (us: Asn1AcnMergeState) =
     let acnErrLoc0 = match acnErrLoc with Some a -> a | None -> loc
-    let getRtlTypeName  (l:ProgrammingLanguage) = (asn1.args.getBasicLang l).getRealRtlTypeName
     //check for invalid properties
     props |>
     Seq.iter(fun pr ->
@@ -337,6 +336,10 @@ let private mergeReal (asn1: Asn1Ast.AstRoot) (lms:(ProgrammingLanguage*Language
     | Real_IEEE754_64_big_endian        when asn1.args.floatingPointSizeInBytes = 4I -> raise(SemanticError(acnErrLoc0, "Acn property 'IEEE754-1985-64' cannot be applied when -fpWordSize  4"))
     | Real_IEEE754_64_little_endian     when asn1.args.floatingPointSizeInBytes = 4I -> raise(SemanticError(acnErrLoc0, "Acn property 'IEEE754-1985-64' cannot be applied when -fpWordSize  4"))
     | _                                                                              -> ()
+    let getRtlTypeName  (l:ProgrammingLanguage) =
+        match l, Asn1AcnAstUtilFunctions.getRealEncodingClass asn1.args.slim acnEncodingClass, (asn1.args.getBasicLang l).getRealRtlTypeName with
+        | C, ASN1SCC_FP32, (programUnit, _, asn1Name)   -> programUnit, "asn1Real32", asn1Name     // the slim codecs access it as a float
+        | _, _, rtlTypeName                             -> rtlTypeName
     let typeDef, us1 = getPrimitiveTypeDefinition {tdarg with rtlFnc = Some getRtlTypeName} us
     let definitionOrRef = 
         lms |> List.map(fun (l,lm) ->
-- 
2.43.0


From e65865d1b2a0ab846ed4cba2dd0ca508bf030c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:15 +0000
Subject: [PATCH 57/95] fix: the maximum encoded size of REAL follows the
 floating point size, not the integer size

---
 FrontEndAst/AcnCreateFromAntlr.fs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FrontEndAst/AcnCreateFromAntlr.fs b/FrontEndAst/AcnCreateFromAntlr.fs
index f5aa006..0389485 100644
--- a/FrontEndAst/AcnCreateFromAntlr.fs
+++ b/FrontEndAst/AcnCreateFromAntlr.fs
@@ -328,7 +328,7 @@ let private mergeReal (asn1: Asn1Ast.AstRoot) (lms:(ProgrammingLanguage*Language
             }
         | None  -> {RealAcnProperties.encodingProp = None; endiannessProp = None }
     let uperRange    = uPER.getRealTypeConstraintUperRange cons loc
-    let uperMaxSizeInBits=(5I+asn1.args.integerSizeInBytes)*8I
+    let uperMaxSizeInBits=(5I+asn1.args.floatingPointSizeInBytes)*8I
     let uperMinSizeInBits=8I
     let alignment = tryGetProp props (fun x -> match x with ALIGNTONEXT e -> Some e | _ -> None)
     let acnEncodingClass,  acnMinSizeInBits, acnMaxSizeInBits= AcnEncodingClasses.GetRealEncodingClass alignment loc acnProperties uperMinSizeInBits uperMaxSizeInBits
-- 
2.43.0


From f2bcaa78f798d64b8a2a9f6a8ee1be6c5f6f8e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:00 +0000
Subject: [PATCH 58/95] fix: -ig with Ada keeps the initialisers of inner
 types, which the others call

---
 BackendAst/DAstInitialize.fs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/BackendAst/DAstInitialize.fs b/BackendAst/DAstInitialize.fs
index 03cb8ec..9af3664 100644
--- a/BackendAst/DAstInitialize.fs
+++ b/BackendAst/DAstInitialize.fs
@@ -855,7 +855,7 @@ let createSequenceOfInitFunc (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (t:Asn1A
         let nonEmbeddedChildrenFuncs =
             match childType.initFunction.initProcedure with
             | None  -> []
-            | Some _ when r.args.generateConstInitGlobals  -> []
+            | Some _ when r.args.generateConstInitGlobals && lm.lg.initMethod = Procedure -> []
             | Some _  -> [childType.initFunction]
 
         initTasFunction, nonEmbeddedChildrenFuncs
@@ -1218,7 +1218,7 @@ let createChoiceInitFunc (r:Asn1AcnAst.AstRoot) (lm:LanguageMacros) (t:Asn1AcnAs
         children |> List.choose(fun ch ->
             match ch.chType.initFunction.initProcedure with
             | None -> None
-            | Some _ when r.args.generateConstInitGlobals -> None
+            | Some _ when r.args.generateConstInitGlobals && lm.lg.initMethod = Procedure -> None
             | Some _ -> Some ch.chType.initFunction)
 
     let constantInitExpression getChildExp () =
-- 
2.43.0


From e3671a829ed2da9abdedf845a3bb6ad6bcf2f499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:00 +0000
Subject: [PATCH 59/95] fix: Ada decoders of types without any bits set their
 result

---
 StgAda/acn_a.stg  | 8 ++++++++
 StgAda/uper_a.stg | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/StgAda/acn_a.stg b/StgAda/acn_a.stg
index c0a7f7e..5e8f22e 100644
--- a/StgAda/acn_a.stg
+++ b/StgAda/acn_a.stg
@@ -105,9 +105,17 @@ is
 <if(bBsIsUnreferenced)>
 pragma Unreferenced(bs);
 
+<endif>
+<if(bVarNameIsUnreferenced)>
+pragma Unreferenced(<sVarName>);
+
 <endif>
     <arrsLocalVariables; separator="\n">
 begin
+    <if(bVarNameIsUnreferenced)>
+    result := <rtlModuleName()>.ASN1_RESULT'(Success => true, ErrorCode => 0);
+
+    <endif>
     <sContent>
 end <sFuncName>_aux;
 <if(bVarNameIsUnreferenced)>
diff --git a/StgAda/uper_a.stg b/StgAda/uper_a.stg
index 1f79326..8e09d2f 100644
--- a/StgAda/uper_a.stg
+++ b/StgAda/uper_a.stg
@@ -125,6 +125,10 @@ begin
     <if(soInitFuncName)>
     -- <sVarName> := <soInitFuncName>;
 
+    <endif>
+    <if(bVarNameIsUnreferenced)>
+    result := <rtlModuleName()>.ASN1_RESULT'(Success => true, ErrorCode => 0);
+
     <endif>
     <sContent>
 end <sFuncName>_aux;
-- 
2.43.0


From fd27c48a70a992cce9b3aa7fbcff8c9b405dd42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:00 +0000
Subject: [PATCH 60/95] fix: default ACN encoding of enumerations uses the uPER
 index, as documented

---
 FrontEndAst/AcnCreateFromAntlr.fs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/FrontEndAst/AcnCreateFromAntlr.fs b/FrontEndAst/AcnCreateFromAntlr.fs
index 0389485..425f9f2 100644
--- a/FrontEndAst/AcnCreateFromAntlr.fs
+++ b/FrontEndAst/AcnCreateFromAntlr.fs
@@ -774,7 +774,10 @@ let private mergeEnumerated (asn1: Asn1Ast.AstRoot) (lms:(ProgrammingLanguage*La
         | false -> allocatedValuesToAllEnumItems items, false
         | true -> allocatedValuesToAllEnumItems items, true
     let uperSizeInBits = GetNumberOfBitsForNonNegativeInteger(BigInteger((Seq.length items) - 1))
-    let items = items0|> List.mapi mapItem
+    // default encoding: the uPER index, i.e. the position in ascending order of the enumeration values (X.691 14.1)
+    let sortedValues = items0 |> List.map (fun itm -> Asn1Ast.GetValueAsInt itm._value.Value asn1) |> List.sort
+    let uperIndex (itm:Asn1Ast.NamedItem) = sortedValues |> List.findIndex ((=) (Asn1Ast.GetValueAsInt itm._value.Value asn1))
+    let items = items0|> List.map (fun itm -> mapItem (uperIndex itm) itm)
 
     let acnProperties =
         match acnErrLoc with
-- 
2.43.0


From 2a4af25b60f4738c68e0fb9628482f53e29dbde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:14 +0000
Subject: [PATCH 61/95] fix: refuse an ACN integer size of 0 instead of failing
 with an internal exception

---
 FrontEndAst/AcnCreateFromAntlr.fs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FrontEndAst/AcnCreateFromAntlr.fs b/FrontEndAst/AcnCreateFromAntlr.fs
index 425f9f2..6e24fd6 100644
--- a/FrontEndAst/AcnCreateFromAntlr.fs
+++ b/FrontEndAst/AcnCreateFromAntlr.fs
@@ -39,6 +39,7 @@ let private  getEndiannessProperty (props:GenericAcnProperty list) =
 let private getIntSizeProperty  errLoc (props:GenericAcnProperty list) =
     match tryGetProp props (fun x -> match x with SIZE e -> Some e | _ -> None) with
     | None  -> None
+    | Some (GP_Fixed           v) when v.Value <= 0I -> raise(SemanticError(v.Location, "size must be greater than 0"))
     | Some (GP_Fixed           v)   -> Some(AcnGenericTypes.Fixed (v.Value))
     | Some (GP_NullTerminated   )   ->
         match tryGetProp props (fun x -> match x with TERMINATION_PATTERN e -> Some e | _ -> None) with
-- 
2.43.0


From 2527b577949e7f753ab33b0069448b6eaeeddfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:14 +0000
Subject: [PATCH 62/95] fix: refuse repeated names and positions in the named
 bits of a BIT STRING

---
 FrontEndAst/AcnCreateFromAntlr.fs | 1 +
 FrontEndAst/CheckAsn1.fs          | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/FrontEndAst/AcnCreateFromAntlr.fs b/FrontEndAst/AcnCreateFromAntlr.fs
index 6e24fd6..936908f 100644
--- a/FrontEndAst/AcnCreateFromAntlr.fs
+++ b/FrontEndAst/AcnCreateFromAntlr.fs
@@ -550,6 +550,7 @@ let private mergeBitStringType (asn1:Asn1Ast.AstRoot)
                 | IDV_IntegerValue       intVal     -> intVal.Value
                 | IDV_DefinedValue   (mdVal, refVal) -> Asn1Ast.GetValueAsInt (Asn1Ast.GetBaseValue mdVal refVal asn1) asn1
             {NamedBit1.Name = nb.Name;  _value = nb._value; resolvedValue = resolvedValue; Comments = nb.Comments})
+    newNamedBitList |> List.map(fun nb -> {IntLoc.Value = nb.resolvedValue; Location = nb.Name.Location}) |> CheckForDuplicates
 
     let sizeUperRange = uPER.getBitStringUperRange cons loc
     let sizeUperAcnRange = uPER.getBitStringUperRange (cons@withcons) loc
diff --git a/FrontEndAst/CheckAsn1.fs b/FrontEndAst/CheckAsn1.fs
index 430abea..1c03e66 100644
--- a/FrontEndAst/CheckAsn1.fs
+++ b/FrontEndAst/CheckAsn1.fs
@@ -571,7 +571,8 @@ let rec CheckType(t:Asn1Type) (m:Asn1Module) ast =
         | Some itm -> ()
         | None     -> raise(SemanticError(t.Location, "The constraints defined for this type do not allow any value"))
 
-    | BitString _           ->   ()
+    | BitString namedBits   ->
+        namedBits |> List.map(fun b -> b.Name) |> CheckForDuplicates
     | Integer               ->  ()
     | TimeType _           -> ()
     (*  ++++
-- 
2.43.0


From c543c950e764f294c9c76d916a3854246b194442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:14 +0000
Subject: [PATCH 63/95] fix: refuse enumerated items encoded with the same ACN
 value, and ACN values for unknown items

---
 FrontEndAst/AcnCreateFromAntlr.fs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/FrontEndAst/AcnCreateFromAntlr.fs b/FrontEndAst/AcnCreateFromAntlr.fs
index 936908f..d1d0d38 100644
--- a/FrontEndAst/AcnCreateFromAntlr.fs
+++ b/FrontEndAst/AcnCreateFromAntlr.fs
@@ -781,6 +781,17 @@ let private mergeEnumerated (asn1: Asn1Ast.AstRoot) (lms:(ProgrammingLanguage*La
     let uperIndex (itm:Asn1Ast.NamedItem) = sortedValues |> List.findIndex ((=) (Asn1Ast.GetValueAsInt itm._value.Value asn1))
     let items = items0|> List.map (fun itm -> mapItem (uperIndex itm) itm)
 
+    match acnType with
+    | None          -> ()
+    | Some acnType  ->
+        acnType.children |> List.iter(fun c ->
+            match items |> List.exists(fun itm -> itm.Name.Value = c.name.Value) with
+            | true  -> ()
+            | false -> raise(SemanticError(c.name.Location, (sprintf "%s Unexpected field name" c.name.Value))))
+        match items |> List.countBy(fun itm -> itm.acnEncodeValue) |> List.tryFind(fun (_,n) -> n > 1) with
+        | None          -> ()
+        | Some (v,_)    -> raise(SemanticError(acnType.loc, (sprintf "More than one enumerated item is encoded with the value %A" v)))
+
     let acnProperties =
         match acnErrLoc with
         | Some acnErrLoc    ->
-- 
2.43.0


From c851ee8d635d2524b696a5e21e0deb4ea305b499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:14 +0000
Subject: [PATCH 64/95] fix: refuse ACN children of types that have no
 components

---
 FrontEndAst/AcnCreateFromAntlr.fs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/FrontEndAst/AcnCreateFromAntlr.fs b/FrontEndAst/AcnCreateFromAntlr.fs
index d1d0d38..aa8dca5 100644
--- a/FrontEndAst/AcnCreateFromAntlr.fs
+++ b/FrontEndAst/AcnCreateFromAntlr.fs
@@ -1104,6 +1104,11 @@ let rec private mergeType  (asn1:Asn1Ast.AstRoot) (acn:AcnAst) (typeIdsSet : Map
         | None      -> []
         | Some x    -> x.acnProperties
     let acnErrLoc = acnType |> Option.map(fun x -> x.loc)
+    match acnType, t.Kind with
+    | Some {AcnTypeEncodingSpec.children = c::_}, (Asn1Ast.Integer | Asn1Ast.Real | Asn1Ast.IA5String | Asn1Ast.NumericString | Asn1Ast.OctetString | Asn1Ast.BitString _
+                                                     | Asn1Ast.NullType | Asn1Ast.Boolean | Asn1Ast.ObjectIdentifier | Asn1Ast.RelativeObjectIdentifier | Asn1Ast.TimeType _) ->
+        raise(SemanticError(c.name.Location, (sprintf "%s Unexpected field name" c.name.Value)))
+    | _ -> ()
     let combinedProperties = acnProps
     let alignment = tryGetProp combinedProperties (fun x -> match x with ALIGNTONEXT e -> Some e | _ -> None)
     let allCons = t.Constraints@refTypeCons@withCons
-- 
2.43.0


From cfb5f910572e0e791bb0d3ab5bd3980c2c16121f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:14 +0000
Subject: [PATCH 65/95] fix: refuse ACN properties, components and parameters
 that are specified more than once

---
 FrontEndAst/AcnGenericCreateFromAntlr.fs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/FrontEndAst/AcnGenericCreateFromAntlr.fs b/FrontEndAst/AcnGenericCreateFromAntlr.fs
index 39b66ec..ba7c7b7 100644
--- a/FrontEndAst/AcnGenericCreateFromAntlr.fs
+++ b/FrontEndAst/AcnGenericCreateFromAntlr.fs
@@ -377,7 +377,13 @@ let rec  private createTypeEncodingSpec integerSizeInBytes (allAcnFiles: CommonT
         let! acnProperties =
             match encSpecITree.GetOptChild(acnParser.ENCODING_PROPERTIES) with
             | None              -> Ok []
-            | Some(propList)    -> propList.Children |> List.traverseResultM (createAcnProperty integerSizeInBytes acnConstants)
+            | Some(propList)    ->
+                match propList.Children |> List.countBy(fun p -> p.Type) |> List.tryFind(fun (_,n) -> n > 1) with
+                | None              -> ()
+                | Some (tp,_)       ->
+                    let second = propList.Children |> List.filter(fun p -> p.Type = tp) |> List.item 1
+                    raise(SemanticError(second.Location, "The same ACN property is specified more than once"))
+                propList.Children |> List.traverseResultM (createAcnProperty integerSizeInBytes acnConstants)
 
         let! children =
             match encSpecITree.GetOptChild(acnParser.CHILDREN_ENC_SPEC) with
@@ -410,6 +416,7 @@ let rec  private createTypeEncodingSpec integerSizeInBytes (allAcnFiles: CommonT
                     }
                 childrenList.Children |> List.traverseResultM createChild
             | None              -> Ok []
+        children |> List.map(fun c -> c.name) |> CheckForDuplicates
         let pos =
             encSpecITree.Location, (encSpecITree.GetChildByType(acnParser.R_SBRACKET)).Location
         return {AcnTypeEncodingSpec.acnProperties = acnProperties; children = children; loc = encSpecITree.Location; comments=[]; position = pos; antlrSubTree = Some encSpecITree}
@@ -440,6 +447,7 @@ let private CreateTypeAssignment integerSizeInBytes (allAcnFiles: CommonTypes.An
                             let! e = Error(Semantic_Error(loc, sprintf "unreferenced parameter '%s'" prmName))
                             return e
                     }
+                paramList.Children |> List.map(fun x -> (x.GetChild 1).TextL) |> CheckForDuplicates
                 paramList.Children |> List.traverseResultM CreateParam
 
         let comments = Antlr.Comment.GetComments(thisAcnFile.tokens, alreadyTakenComments, thisAcnFile.tokens.[tasTree.TokenStopIndex].Line, tasTree.TokenStartIndex - 1, tasTree.TokenStopIndex + 1, true)
-- 
2.43.0


From df62f5ea086239fc158b3c5f1d3d018268348cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:14 +0000
Subject: [PATCH 66/95] fix: give the position of an unexpected anonymous ACN
 child

---
 FrontEndAst/AcnGenericCreateFromAntlr.fs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FrontEndAst/AcnGenericCreateFromAntlr.fs b/FrontEndAst/AcnGenericCreateFromAntlr.fs
index ba7c7b7..5d2572b 100644
--- a/FrontEndAst/AcnGenericCreateFromAntlr.fs
+++ b/FrontEndAst/AcnGenericCreateFromAntlr.fs
@@ -392,7 +392,7 @@ let rec  private createTypeEncodingSpec integerSizeInBytes (allAcnFiles: CommonT
                     result {
                         let name  =
                             match t.GetOptChild(acnParser.LID) with
-                            | None          -> StringLoc.ByValue "#"
+                            | None          -> t.GetValueL "#"
                             | Some(lid)     -> lid.TextL
                         let argumentList    =
                                 match t.GetOptChild(acnParser.ARGUMENTS) with
-- 
2.43.0


From 0dc4c6d9375d613c703bb07242a6b4e00547f178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:14 +0000
Subject: [PATCH 67/95] fix: check the characters of NumericString values

---
 FrontEndAst/CheckAsn1.fs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FrontEndAst/CheckAsn1.fs b/FrontEndAst/CheckAsn1.fs
index 1c03e66..44fd20a 100644
--- a/FrontEndAst/CheckAsn1.fs
+++ b/FrontEndAst/CheckAsn1.fs
@@ -321,6 +321,7 @@ let rec CheckIfVariableViolatesTypeConstraints (t:Asn1Type) (v:Asn1Value) ast =
                 | Some ch -> CheckIfVariableViolatesTypeConstraints ch.Type chv ast
                 | None    -> false
             ret && chRet
+        |   StringValue (sv,_), NumericString  -> ret && (StringValue2String sv |> Seq.forall(fun c -> c = ' ' || System.Char.IsAsciiDigit c))
         | _                     -> ret
 
 let rec getEnumeratedAllowedEnumerations ast (m:Asn1Module) (t:Asn1Type) =
-- 
2.43.0


From 35e2226a0e81e634a00d3bd4908590a8d3f0f873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:14 +0000
Subject: [PATCH 68/95] fix: refuse ranges whose lower bound exceeds the upper
 bound

---
 FrontEndAst/CheckAsn1.fs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/FrontEndAst/CheckAsn1.fs b/FrontEndAst/CheckAsn1.fs
index 44fd20a..3224469 100644
--- a/FrontEndAst/CheckAsn1.fs
+++ b/FrontEndAst/CheckAsn1.fs
@@ -442,6 +442,8 @@ let rec isConstraintValid (t:Asn1Type) (c:Asn1Constraint) ast =
             raise(SemanticError(t.Location, "Type does not support range constraints"))
         CheckValueType t v1 ast
         CheckValueType t v2 ast
+        if CompareAsn1Value v1 v2 ast > 0 then
+            raise(SemanticError(v1.Location, "The lower bound of the range exceeds its upper bound"))
     | RangeConstraint_val_MAX(_, v1,_)
     | RangeConstraint_MIN_val(_, v1,_)       ->
         if not(CanHaveRangeConstraint t) then
-- 
2.43.0


From d133af92b1b3016bfc4557c7280446a2800da105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:14 +0000
Subject: [PATCH 69/95] fix: diagnose value assignments defined in terms of
 themselves instead of looping

---
 FrontEndAst/CheckAsn1.fs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/FrontEndAst/CheckAsn1.fs b/FrontEndAst/CheckAsn1.fs
index 3224469..4404bc5 100644
--- a/FrontEndAst/CheckAsn1.fs
+++ b/FrontEndAst/CheckAsn1.fs
@@ -687,8 +687,25 @@ let checkForCyclicModules ( ast:AstRoot) =
                              "Cyclic modules detected:\n%s\n"  cycMods))
     sortedModules
 
+/// a value assignment must not refer, directly or through other value assignments, to itself
+let checkForCyclicValues ( ast:AstRoot) =
+    let rec follow visited (v:Asn1Value) =
+        match v.Kind with
+        | RefValue (md, vs) when visited |> List.contains (md.Value, vs.Value)  ->
+            raise (SemanticError(v.Location, sprintf "Cyclic value definition: value '%s' is defined in terms of itself" vs.Value))
+        | RefValue (md, vs)     ->
+            match ast.Modules |> List.tryFind(fun m -> m.Name.Value = md.Value) with
+            | None      -> ()
+            | Some m    -> 
+                match m.ValueAssignments |> List.tryFind(fun vas -> vas.Name.Value = vs.Value) with
+                | None      -> ()
+                | Some vas  -> follow ((md.Value, vs.Value)::visited) vas.Value
+        | _                     -> ()
+    ast.Modules |> List.iter(fun m -> m.ValueAssignments |> List.iter(fun vas -> follow [] vas.Value))
+
 let CheckFiles( ast:AstRoot) (pass :int) =
     checkForCyclicModules ast |> ignore
+    checkForCyclicValues ast
     let modules = ast.Files |> Seq.collect(fun f -> f.Modules ) |> Seq.toList
     // check for multiple module definitions
     modules |> Seq.map(fun m-> m.Name) |> CheckForDuplicates
-- 
2.43.0


From 035512691d382bb2cad51228a8eb755287971cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:14 +0000
Subject: [PATCH 70/95] fix: check that the determinant can encode the values
 of all choice alternatives

---
 FrontEndAst/CheckLongReferences.fs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/FrontEndAst/CheckLongReferences.fs b/FrontEndAst/CheckLongReferences.fs
index 9562950..c538500 100644
--- a/FrontEndAst/CheckLongReferences.fs
+++ b/FrontEndAst/CheckLongReferences.fs
@@ -221,6 +221,7 @@ let checkChoicePresentWhen (r:AstRoot) (tasPositions:Map<ReferenceToType,int>) (
                             match isWithinRange with
                             | true  -> ()
                             | false -> raise(SemanticError(intVal.Location, (sprintf "Value '%A' is not within the allowed limits"  intVal.Value )))
+                            intInfo.checkIntHasEnoughSpace intVal.Value intVal.Value
                             AcnDepPresence ((RelativePath path), ch)
                         | _              -> raise(SemanticError(loc, (sprintf "Invalid argument type. Expecting INTEGER got %s "  (c.Type.AsString))))
                     checkRelativePath tasPositions curState parents t visibleParameters   (RelativePath path)  checkParameter checkAcnType
@@ -249,6 +250,8 @@ let checkChoicePresentWhen (r:AstRoot) (tasPositions:Map<ReferenceToType,int>) (
 
 
 
+            // the dependencies are those of the first alternative, but the values of all alternatives must be encodable by the determinants
+            cs |> List.iter(fun c -> c.acnPresentWhenConditions |> List.iter(fun pc -> checkAcnPresentWhenConditionChoiceChild curState pc |> ignore))
             c1.acnPresentWhenConditions |> List.fold(fun ns pc -> checkAcnPresentWhenConditionChoiceChild ns pc ) curState
 
 
-- 
2.43.0


From e0a178d1bebad1139557ed691b9f6e6f36b4a78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:14 +0000
Subject: [PATCH 71/95] fix: check all symbols when a module is listed twice in
 IMPORTS

---
 FrontEndAst/CreateAsn1AstFromAntlrTree.fs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FrontEndAst/CreateAsn1AstFromAntlrTree.fs b/FrontEndAst/CreateAsn1AstFromAntlrTree.fs
index 2420f6c..2126207 100644
--- a/FrontEndAst/CreateAsn1AstFromAntlrTree.fs
+++ b/FrontEndAst/CreateAsn1AstFromAntlrTree.fs
@@ -894,7 +894,7 @@ let CreateAsn1Module integerSizeInBytes (astRoot:list<ITree>) (acnAst:AcnAst) (i
                                     List.fold (fun (curImps:ImportedModule list)  iimp ->
                                         match curImps |> List.tryFind (fun z -> z.Name.Value = iimp.Name.Value) with
                                         | Some eimp        ->
-                                            let rest = curImps |> List.filter (fun z -> z.Name.Value <> eimp.Name.Value)
+                                            let rest = curImps |> List.filter (fun z -> not (System.Object.ReferenceEquals(z, eimp)))
                                             let mergedImport = {eimp with Types = (eimp.Types @ iimp.Types) |> List.distinctBy(fun z -> z.Value) }
                                             mergedImport::rest
                                         | None          -> iimp::curImps ) explicitImports
-- 
2.43.0


From 7908577cc74b74153e8b67ce518feddb8cc1e502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:14 +0000
Subject: [PATCH 72/95] fix: give the position of a WITH COMPONENT constraint
 on a type without elements

---
 FrontEndAst/MapParamAstToNonParamAst.fs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/FrontEndAst/MapParamAstToNonParamAst.fs b/FrontEndAst/MapParamAstToNonParamAst.fs
index 73e10fd..a4e851a 100644
--- a/FrontEndAst/MapParamAstToNonParamAst.fs
+++ b/FrontEndAst/MapParamAstToNonParamAst.fs
@@ -339,7 +339,7 @@ and MapAsn1Constraint (r:ParameterizedAsn1Ast.AstRoot) (t: ParameterizedAsn1Ast.
         match akind with
         | ParameterizedAsn1Ast.SequenceOf(child)    ->
             Asn1Ast.WithComponentConstraint(s, (MapAsn1Constraint r child typeScope (visitConstraint cs) c), loc)
-        | _                                         ->        raise(SemanticError(emptyLocation,"Unexpected constraint type"))
+        | _                                         ->        raise(SemanticError(loc,"Unexpected constraint type"))
     | ParameterizedAsn1Ast.WithComponentsConstraint(s, ncs)    ->
         Asn1Ast.WithComponentsConstraint(s, ncs|> foldMap (fun cs c ->
                                                                 let newC = MapNamedConstraint r t typeScope (visitConstraint cs) c
-- 
2.43.0


From feafef890843d7adc980fef7167169d1789c5105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:26 +0000
Subject: [PATCH 73/95] fix: Ada: report success after decoding an empty
 SEQUENCE

---
 StgAda/uper_a.stg | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/StgAda/uper_a.stg b/StgAda/uper_a.stg
index 8e09d2f..57b005b 100644
--- a/StgAda/uper_a.stg
+++ b/StgAda/uper_a.stg
@@ -126,9 +126,14 @@ begin
     -- <sVarName> := <soInitFuncName>;
 
     <endif>
+    <if(bBsIsUnreferenced)>
+    result := <rtlModuleName()>.ASN1_RESULT'(Success => true, ErrorCode => 0);
+
+    <else>
     <if(bVarNameIsUnreferenced)>
     result := <rtlModuleName()>.ASN1_RESULT'(Success => true, ErrorCode => 0);
 
+    <endif>
     <endif>
     <sContent>
 end <sFuncName>_aux;
-- 
2.43.0


From 741a7f795051e3828997bb41d82a3d6105297d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:26 +0000
Subject: [PATCH 74/95] fix: Ada: compile the decoders of a SEQUENCE with only
 NULL components

---
 StgAda/uper_a.stg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StgAda/uper_a.stg b/StgAda/uper_a.stg
index 57b005b..cc63a6d 100644
--- a/StgAda/uper_a.stg
+++ b/StgAda/uper_a.stg
@@ -329,7 +329,7 @@ Enumerated_no_switch_decode(p, td/*:FE_EnumeratedTypeDefinition*/, sErrCode, sEn
 /* SEQUENCE START */
 
 decode_empty_sequence_emptySeq(p) ::= <<
-<p> := (null record);
+<p> := (others => \<>);
 result := <rtlModuleName()>.ASN1_RESULT'(Success => true, ErrorCode => 0);
 >>
 
-- 
2.43.0


From 5c420a8a2e9685942f2ead650437d772326da3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:26 +0000
Subject: [PATCH 75/95] fix: Ada: decode lengths of 128 to 255 of object
 identifiers

---
 ADA_RTL2/src/adaasn1rtl-encoding-uper.adb | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
index fecc00a..824a912 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
@@ -458,7 +458,7 @@ is
       UPER_Dec_ConstraintWholeNumberInt
         (bs, length, 0, 255, 8, result.Success);
       if result.Success then
-         if length > 16#80# then
+         if length >= 16#80# then
             length := (length - 16#80#) * 16#100#;
             UPER_Dec_ConstraintWholeNumberInt
               (bs, len2, 0, 255, 8, result.Success);
-- 
2.43.0


From e17dd01f0e512ba398f307180b5cd51f4cfda717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:26 +0000
Subject: [PATCH 76/95] fix: Ada: write no digits for zero in null-terminated
 BCD like the C runtime

---
 ADA_RTL2/src/adaasn1rtl-encoding-acn.adb | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
index 13d464f..caa11b0 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
@@ -832,8 +832,11 @@ is
    is
       totalNibbles : Integer;
    begin
-      totalNibbles := Get_number_of_digits (IntVal);
-      Acn_Enc_Int_BCD_ConstSize (bs, IntVal, totalNibbles);
+      --  zero has no digits
+      if IntVal > 0 then
+         totalNibbles := Get_number_of_digits (IntVal);
+         Acn_Enc_Int_BCD_ConstSize (bs, IntVal, totalNibbles);
+      end if;
       BitStream_AppendPartialByte (bs, 16#F#, 4, False);
    end Acn_Enc_Int_BCD_VarSize_NullTerminated;
 
-- 
2.43.0


From 6e4406fa5a608d27ddae7ddd13641533d1490d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:26 +0000
Subject: [PATCH 77/95] fix: Ada: keep the sign of minus zero

---
 ADA_RTL2/src/adaasn1rtl-encoding-uper.adb | 2 +-
 ADA_RTL2/src/adaasn1rtl-encoding.ads      | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
index 824a912..407b48c 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
@@ -391,7 +391,7 @@ is
                   RealVal := NaN;
                   Result  := ASN1_RESULT'(Success => True, ErrorCode => 0);
                elsif Header = 16#43# then
-                  RealVal := -0.0;
+                  RealVal := Asn1Real'Copy_Sign (0.0, -1.0);
                   Result  := ASN1_RESULT'(Success => True, ErrorCode => 0);
                elsif (Header and 16#80#) > 0 then
                   UPER_Dec_Real_AsBinary
diff --git a/ADA_RTL2/src/adaasn1rtl-encoding.ads b/ADA_RTL2/src/adaasn1rtl-encoding.ads
index f8d55c1..bda206d 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding.ads
+++ b/ADA_RTL2/src/adaasn1rtl-encoding.ads
@@ -95,9 +95,11 @@ is
    function isNaN (r : Asn1Real) return Boolean is
    (r /= 0.0 and then (not (r < 0.0)) and then (not (r > 0.0)));
    function isPosZero (r : Asn1Real) return Boolean is
-     (r >= 0.0 and then r <= 0.0);
+     (r >= 0.0 and then r <= 0.0
+      and then Asn1Real'Copy_Sign (1.0, r) > 0.0);
    function isNegZero (r : Asn1Real) return Boolean is
-     (r >= -0.0 and then r <= -0.0);
+     (r >= 0.0 and then r <= 0.0
+      and then Asn1Real'Copy_Sign (1.0, r) < 0.0);
 
    function GetExponent (V : Asn1Real) return Asn1Int;
    function GetMantissa (V : Asn1Real) return Asn1UInt;
-- 
2.43.0


From 00f6fa6ba81bcdd9693f0adbb8b612337b567a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:26 +0000
Subject: [PATCH 78/95] fix: Ada: spell the operators not and /= of ACN
 expressions correctly

---
 StgAda/LangGeneric_a.fs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/StgAda/LangGeneric_a.fs b/StgAda/LangGeneric_a.fs
index c6969b8..5cea190 100644
--- a/StgAda/LangGeneric_a.fs
+++ b/StgAda/LangGeneric_a.fs
@@ -109,10 +109,10 @@ type LangGeneric_a() =
         override this.supportsStaticVerification = true
         override this.emptyStatement = "null;"
         override this.bitStreamName = "adaasn1rtl.encoding.BitStreamPtr"
-        override this.unaryNotOperator    = "not"
+        override this.unaryNotOperator    = "not "
         override this.modOp               = "mod"
         override this.eqOp                = "="
-        override this.neqOp               = "<>"
+        override this.neqOp               = "/="
         override this.andOp               = "and"
         override this.orOp                = "or"
         override this.initMethod           = InitMethod.Function
-- 
2.43.0


From bdb11d477c00a125abd1b8a9148c4f029bd79677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:26 +0000
Subject: [PATCH 79/95] fix: Ada: initialise values of string subtypes with a
 smaller size

---
 StgAda/LangGeneric_a.fs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StgAda/LangGeneric_a.fs b/StgAda/LangGeneric_a.fs
index 5cea190..acaeaa9 100644
--- a/StgAda/LangGeneric_a.fs
+++ b/StgAda/LangGeneric_a.fs
@@ -134,7 +134,7 @@ type LangGeneric_a() =
         override _.asn1SccIntValueToString (i: BigInteger) _ = i.ToString()
         override _.initializeString (asciiCode:BigInteger option) stringSize = 
             match asciiCode with
-            | Some ac -> sprintf "(1 .. %d => '%c', %d => adaasn1rtl.NUL)" (stringSize) (char (int ac)) (stringSize+1)
+            | Some ac -> sprintf "(1 .. %d => '%c', others => adaasn1rtl.NUL)" (stringSize) (char (int ac))
             | None ->   sprintf "(others => adaasn1rtl.NUL)"
 
         override _.supportsInitExpressions = true
-- 
2.43.0


From e556d73fd4d0c76a01109596c0375ba28eb42666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:57 +0000
Subject: [PATCH 80/95] fix: generated C refuses negative size determinants
 instead of copying a negative number of bytes

---
 BackendAst/Acn/AcnOctetBitStrings.fs | 9 +++++++--
 BackendAst/Acn/AcnSequenceOf.fs      | 4 ++--
 StgC/acn_c.stg                       | 4 ++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/BackendAst/Acn/AcnOctetBitStrings.fs b/BackendAst/Acn/AcnOctetBitStrings.fs
index b6c9502..a93668c 100644
--- a/BackendAst/Acn/AcnOctetBitStrings.fs
+++ b/BackendAst/Acn/AcnOctetBitStrings.fs
@@ -58,7 +58,7 @@ let createOctetStringFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInserte
                         | NegInf detMax        -> Some detMax
                         | _                    -> None
                     | _ -> None
-                let noSizeMin = if o.minSize.acn = 0I then None else Some o.minSize.acn
+                let noSizeMin = if o.minSize.acn = 0I && unsigned then None else Some o.minSize.acn
                 let noSizeMax =
                     match detMaxOpt with
                     | Some detMax when detMax <= o.maxSize.acn -> None
@@ -107,6 +107,11 @@ let createBitStringFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInsertedF
             | SZ_EC_ExternalField   _    ->
                 let extField = getExternalField lm r deps t.id
                 let tp = getExternalFieldType r deps t.id
+                let unsigned =
+                    match tp with
+                    | Some (AcnInsertedType.AcnInteger int) -> int.isUnsigned
+                    | Some (AcnInsertedType.AcnNullType _) -> true
+                    | _ -> false
                 let detMaxOpt =
                     match tp with
                     | Some (AcnInsertedType.AcnInteger int) ->
@@ -115,7 +120,7 @@ let createBitStringFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInsertedF
                         | NegInf detMax        -> Some detMax
                         | _                    -> None
                     | _ -> None
-                let noSizeMin = if o.minSize.acn = 0I then None else Some o.minSize.acn
+                let noSizeMin = if o.minSize.acn = 0I && unsigned then None else Some o.minSize.acn
                 let noSizeMax =
                     match detMaxOpt with
                     | Some detMax when detMax <= o.maxSize.acn -> None
diff --git a/BackendAst/Acn/AcnSequenceOf.fs b/BackendAst/Acn/AcnSequenceOf.fs
index b2fd596..4efd9b7 100644
--- a/BackendAst/Acn/AcnSequenceOf.fs
+++ b/BackendAst/Acn/AcnSequenceOf.fs
@@ -144,8 +144,8 @@ let createSequenceOfFunction (r:Asn1AcnAst.AstRoot) (deps:Asn1AcnAst.AcnInserted
                     let introSnap = nestingScope.nestingLevel = 0I
                     let funcBodyContent =
                         match o.isFixedSize with
-                        | true  -> oct_sqf_external_field_fix_size td pp access (i level) itemBody (if o.minSize.acn=0I then None else Some o.minSize.acn) o.maxSize.acn extField unsigned nAlignSize errCode.errCodeName o.child.acnMinSizeInBits o.child.acnMaxSizeInBits childInitExpr introSnap callAux codec
-                        | false -> external_field td pp access (i level) itemBody (if o.minSize.acn=0I then None else Some o.minSize.acn) o.maxSize.acn extField unsigned nAlignSize errCode.errCodeName o.child.acnMinSizeInBits o.child.acnMaxSizeInBits childInitExpr introSnap callAux codec
+                        | true  -> oct_sqf_external_field_fix_size td pp access (i level) itemBody (if o.minSize.acn=0I && unsigned then None else Some o.minSize.acn) o.maxSize.acn extField unsigned nAlignSize errCode.errCodeName o.child.acnMinSizeInBits o.child.acnMaxSizeInBits childInitExpr introSnap callAux codec
+                        | false -> external_field td pp access (i level) itemBody (if o.minSize.acn=0I && unsigned then None else Some o.minSize.acn) o.maxSize.acn extField unsigned nAlignSize errCode.errCodeName o.child.acnMinSizeInBits o.child.acnMaxSizeInBits childInitExpr introSnap callAux codec
                     Some ({AcnFuncBodyResult.funcBody = funcBodyContent; errCodes = errCode::childErrCodes; localVariables = (lv level)@localVariables; userDefinedFunctions=userDefinedFunctions; bValIsUnReferenced= false; bBsIsUnReferenced=false; resultExpr=resultExpr; auxiliaries=itemAuxiliaries @ auxiliaries; icdResult = Some icd})
 
                 | SZ_EC_TerminationPattern bitPattern ->
diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index 1c0b8d0..dc47532 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -1215,7 +1215,7 @@ octet_string_containing_ext_field_func_decode(p, sFuncName, sReqBytesForUperEnco
     BitStream* pBitStrm_save = pBitStrm;
 	BitStream bitStrm;
 	BitStream_Init(&bitStrm, arr, sizeof(arr));
-	ret = (int)<sExtField> \<= <sReqBytesForUperEncoding>;
+	ret = (asn1SccUint)<sExtField> \<= <sReqBytesForUperEncoding>;
 	*pErrCode = ret ? 0 : <sErrCode>;
 	if (ret) {
 		/*decode to the temporary bitstream buffer */
@@ -1440,7 +1440,7 @@ bit_string_containing_ext_field_func_decode(p, sFuncName, sReqBytesForUperEncodi
 	static byte arr[<sReqBytesForUperEncoding>];
 	BitStream bitStrm;
 	BitStream_Init(&bitStrm, arr, sizeof(arr));
-	ret = (int)<sExtField> \<= <sReqBitsForUperEncoding>;
+	ret = (asn1SccUint)<sExtField> \<= <sReqBitsForUperEncoding>;
 	*pErrCode = ret ? 0 : <sErrCode>;
 	if (ret) {
 		ret = BitStream_ReadBits(pBitStrm, arr, (int)<sExtField>);
-- 
2.43.0


From a5a223d1962cd3a6ceeb96762119aa133f331ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:57 +0000
Subject: [PATCH 81/95] fix: generated C decoders do not use a presence bit
 that could not be read

---
 StgC/acn_c.stg  | 2 +-
 StgC/uper_c.stg | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index dc47532..323260e 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -783,7 +783,7 @@ ret = <sName>_ACN_Decode(<p>, pBitStrm, pErrCode<if(arrsArgs)>, <arrsLocalPrms;
 sequence_presence_optChild_encode(p, sAcc, sChName, soExistVar, sErrCode) ::= "BitStream_AppendBit(pBitStrm,<p><sAcc>exist.<sChName>);"
 sequence_presence_optChild_decode(p, sAcc, sChName, soExistVar, sErrCode) ::= <<
 ret = BitStream_ReadBit(pBitStrm, &<soExistVar>);
-<p><sAcc>exist.<sChName> = <soExistVar> == 0 ? 0 : 1;
+<p><sAcc>exist.<sChName> = (ret && <soExistVar>) ? 1 : 0;
 *pErrCode = ret ? 0 : <sErrCode>;
 >>
 
diff --git a/StgC/uper_c.stg b/StgC/uper_c.stg
index 66f1897..80b7cc7 100644
--- a/StgC/uper_c.stg
+++ b/StgC/uper_c.stg
@@ -395,7 +395,7 @@ if (ret) {
 sequence_presence_bit_encode(p, sAcc, sChName, soExistVar, sErrCode) ::= "BitStream_AppendBit(pBitStrm,<p><sAcc>exist.<sChName>);"
 sequence_presence_bit_decode(p, sAcc, sChName, soExistVar, sErrCode) ::= <<
 ret = BitStream_ReadBit(pBitStrm, &presenceBit);
-<p><sAcc>exist.<sChName> = presenceBit == 0 ? 0 : 1;
+<p><sAcc>exist.<sChName> = (ret && presenceBit) ? 1 : 0;
 *pErrCode = ret ? 0 : <sErrCode>;
 >>
 
-- 
2.43.0


From 16b3fcf718d6fbebbef247a81ea68896abd8d3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:57 +0000
Subject: [PATCH 82/95] fix: generated C decoders report truncated little
 endian 32 bit REALs

---
 StgC/acn_c.stg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StgC/acn_c.stg b/StgC/acn_c.stg
index 323260e..74d70ea 100644
--- a/StgC/acn_c.stg
+++ b/StgC/acn_c.stg
@@ -352,7 +352,7 @@ ret = Acn_Dec_Real_IEEE754_64_big_endian(pBitStrm, <p>);
 
 Real_32_little_endian_encode(p, sSuffix, sErrCode) ::= "Acn_Enc_Real_IEEE754_32_little_endian(pBitStrm, <p>);"
 Real_32_little_endian_decode(p, sSuffix, sErrCode) ::= <<
-Acn_Dec_Real_IEEE754_32_little_endian<sSuffix>(pBitStrm, <p>);
+ret = Acn_Dec_Real_IEEE754_32_little_endian<sSuffix>(pBitStrm, <p>);
 <A(sErrCode)>
 >>
 
-- 
2.43.0


From 7c67b0c92808689f2a7980acd7beaeb1f1320295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:57 +0000
Subject: [PATCH 83/95] fix: generated C decoders refuse OCTET STRING lengths
 above the maximum

---
 StgC/uper_c.stg | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/StgC/uper_c.stg b/StgC/uper_c.stg
index 80b7cc7..acac290 100644
--- a/StgC/uper_c.stg
+++ b/StgC/uper_c.stg
@@ -526,7 +526,9 @@ octet_VarSize_decode(sTypeDefName, p, sAcc, nSizeMin, nSizeMax, nSizeInBits, sEr
 ret = BitStream_DecodeConstraintWholeNumber(pBitStrm, &nCount, <nSizeMin>, <nSizeMax>);
 *pErrCode = ret ? 0 : <sErrCode>;
 <p><sAcc>nCount = (long)nCount;
-ret = BitStream_DecodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
+if (ret) {
+    ret = BitStream_DecodeOctetString_no_length(pBitStrm, <p><sAcc>arr, <p><sAcc>nCount);
+}
 >>
 
 
-- 
2.43.0


From 956985342c0d02029e7a6d8c1a3765f9f54a2956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:57 +0000
Subject: [PATCH 84/95] fix: Ada: huge size determinants of strings do not
 raise Constraint_Error

---
 ADA_RTL2/src/adaasn1rtl-encoding-acn.adb | 4 ++--
 StgAda/acn_a.stg                         | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
index caa11b0..0f06bb7 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
@@ -2270,7 +2270,7 @@ is
         ASN1_RESULT'(Success => True, ErrorCode => ERR_INCORRECT_STREAM);
 
       while Result.Success and then I <= strVal'Last - 1
-        and then I <= Integer (extSizeDeterminantFld)
+        and then Asn1Int (I) <= extSizeDeterminantFld
       loop
          pragma Loop_Invariant
            (I >= strVal'First and I <= strVal'Last and
@@ -2323,7 +2323,7 @@ is
         ASN1_RESULT'(Success => True, ErrorCode => ERR_INCORRECT_STREAM);
       strVal := (others => Standard.Ascii.NUL);
       while Result.Success and then I <= strVal'Last - 1
-        and then I <= Integer (extSizeDeterminantFld)
+        and then Asn1Int (I) <= extSizeDeterminantFld
       loop
          pragma Loop_Invariant
            (I >= strVal'First and I <= strVal'Last and
diff --git a/StgAda/acn_a.stg b/StgAda/acn_a.stg
index 5e8f22e..aa13b98 100644
--- a/StgAda/acn_a.stg
+++ b/StgAda/acn_a.stg
@@ -751,7 +751,7 @@ result.ErrorCode := <sErrCode>;
 
 Acn_String_Ascii_External_Field_Determinant_encode(p, sErrCode, nAsn1Max, sExtFld) ::= "adaasn1rtl.encoding.acn.Acn_Enc_String_Ascii_External_Field_Determinant(bs, <p>);"
 Acn_String_Ascii_External_Field_Determinant_decode(p, sErrCode, nAsn1Max, sExtFld) ::= <<
-adaasn1rtl.encoding.acn.Acn_Dec_String_Ascii_External_Field_Determinant(bs, <rtlModuleName()>.Asn1Int(<sExtFld>), <p>, result);
+adaasn1rtl.encoding.acn.Acn_Dec_String_Ascii_External_Field_Determinant(bs, (if <sExtFld> \> <nAsn1Max> then <nAsn1Max> else <rtlModuleName()>.Asn1Int(<sExtFld>)), <p>, result);
 result.ErrorCode := <sErrCode>;
 >>
 
@@ -779,14 +779,14 @@ result.ErrorCode := <sErrCode>;
 
 Acn_String_CharIndex_External_Field_Determinant_encode(p, sErrCode, nAsn1Max, arrnAlphabetAsciiCodes, nCharSetSize, sExtFld, td/*:FE_StringTypeDefinition*/, nCharSize) ::= "adaasn1rtl.encoding.acn.Acn_Enc_String_CharIndex_External_Field_Determinant(bs, <td.alpha_set>, <nCharSize>, <p>);"
 Acn_String_CharIndex_External_Field_Determinant_decode(p, sErrCode, nAsn1Max, arrnAlphabetAsciiCodes, nCharSetSize, sExtFld, td/*:FE_StringTypeDefinition*/, nCharSize) ::= <<
-adaasn1rtl.encoding.acn.Acn_Dec_String_CharIndex_External_Field_Determinant(bs, <td.alpha_set>, <nCharSize>, <rtlModuleName()>.Asn1Int(<sExtFld>), <p>, result);
+adaasn1rtl.encoding.acn.Acn_Dec_String_CharIndex_External_Field_Determinant(bs, <td.alpha_set>, <nCharSize>, (if <sExtFld> \> <nAsn1Max> then <nAsn1Max> else <rtlModuleName()>.Asn1Int(<sExtFld>)), <p>, result);
 result.ErrorCode := <sErrCode>;
 >>
 
 
 Acn_IA5String_CharIndex_External_Field_Determinant_encode(p, sErrCode, nAsn1Max, sExtFld, td/*:FE_StringTypeDefinition*/, nCharSize, nRemainingBits) ::= "adaasn1rtl.encoding.acn.Acn_Enc_String_CharIndex_External_Field_Determinant(bs, <td.alpha_set>, <nCharSize>, <p>);"
 Acn_IA5String_CharIndex_External_Field_Determinant_decode(p, sErrCode, nAsn1Max, sExtFld, td/*:FE_StringTypeDefinition*/, nCharSize, nRemainingBits) ::= <<
-adaasn1rtl.encoding.acn.Acn_Dec_String_CharIndex_External_Field_Determinant(bs, <td.alpha_set>, <nCharSize>, <rtlModuleName()>.Asn1Int(<sExtFld>), <p>, result);
+adaasn1rtl.encoding.acn.Acn_Dec_String_CharIndex_External_Field_Determinant(bs, <td.alpha_set>, <nCharSize>, (if <sExtFld> \> <nAsn1Max> then <nAsn1Max> else <rtlModuleName()>.Asn1Int(<sExtFld>)), <p>, result);
 result.ErrorCode := <sErrCode>;
 >>
 
-- 
2.43.0


From 16c061ede7f11ab5575d6cd5b62438c3c1ac260d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:57 +0000
Subject: [PATCH 85/95] fix: Ada: null-terminated fields shorter than their
 minimum size do not raise Constraint_Error

---
 StgAda/acn_a.stg | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/StgAda/acn_a.stg b/StgAda/acn_a.stg
index aa13b98..560cc4e 100644
--- a/StgAda/acn_a.stg
+++ b/StgAda/acn_a.stg
@@ -896,7 +896,7 @@ if result.Success and <i> = <nSizeMax>+1  then
 		<p>.Length := <i>-1;
 	end if;
 	result := <rtlModuleName()>.ASN1_RESULT'(Success => result.Success, ErrorCode => <sErrCode>);
-elsif result.Success and <i> \< <nSizeMax>+1 then
+elsif result.Success<if(noSizeMin)> and <i> \> <noSizeMin><endif> and <i> \< <nSizeMax>+1 then
 	<p>.Length := <i>-1;
 	<rtlModuleName()>.encoding.BitStream_SkipBits(bs, <nBitPatternLength>);
 	result := <rtlModuleName()>.ASN1_RESULT'(Success => true, ErrorCode => 0);
@@ -1663,7 +1663,16 @@ adaasn1rtl.encoding.BitStream_AppendBitArray(bs, <p><sAcc>Data, <p><sAcc>Length)
 >>
 
 bit_string_null_terminated_decode(sTypeDefName, p, sErrCode, sAcc, i, noSizeMin, nSizeMax, arruNullBytes, nBitPatternLength)  ::= <<
-<rtlModuleName()>.encoding.BitStream_ReadBits_nullterminated(bs, <p><sAcc>Data, <p><sAcc>Length, <rtlModuleName()>.OctetBuffer'(<arruNullBytes:{b|<i>=>16#<b;format="X2">#}; wrap, anchor, separator=", ">), <nBitPatternLength>, result.Success);
+declare
+    nBits : Natural;
+begin
+    <rtlModuleName()>.encoding.BitStream_ReadBits_nullterminated(bs, <p><sAcc>Data, nBits, <rtlModuleName()>.OctetBuffer'(<arruNullBytes:{b|<i>=>16#<b;format="X2">#}; wrap, anchor, separator=", ">), <nBitPatternLength>, result.Success);
+    if result.Success<if(noSizeMin)> and then nBits \>= <noSizeMin><endif> then
+        <p><sAcc>Length := nBits;
+    else
+        result.Success := False;		-- COVERAGE_IGNORE
+    end if;
+end;
 if not result.Success then
     result.errorcode := <sErrCode>;		-- COVERAGE_IGNORE
 end if;
@@ -1691,7 +1700,7 @@ if result.Success and <i> = <nSizeMax>+1  then
 		<p>.Length := <i>-1;
 	end if;
 	result := <rtlModuleName()>.ASN1_RESULT'(Success => result.Success, ErrorCode => <sErrCode>);
-elsif result.Success and <i> \< <nSizeMax>+1 then
+elsif result.Success<if(noSizeMin)> and <i> \> <noSizeMin><endif> and <i> \< <nSizeMax>+1 then
 	<p>.Length := <i>-1;
 	<rtlModuleName()>.encoding.BitStream_SkipBits(bs, <nBitPatternLength>);
 	result := <rtlModuleName()>.ASN1_RESULT'(Success => true, ErrorCode => 0);
-- 
2.43.0


From 455aca5da59cb9e9f61a812e1b9fefa80f0414b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:57 +0000
Subject: [PATCH 86/95] fix: Ada: ACN decoders report success for types with
 nothing but NULL components

---
 StgAda/acn_a.stg | 2 --
 1 file changed, 2 deletions(-)

diff --git a/StgAda/acn_a.stg b/StgAda/acn_a.stg
index 560cc4e..8704a71 100644
--- a/StgAda/acn_a.stg
+++ b/StgAda/acn_a.stg
@@ -112,10 +112,8 @@ pragma Unreferenced(<sVarName>);
 <endif>
     <arrsLocalVariables; separator="\n">
 begin
-    <if(bVarNameIsUnreferenced)>
     result := <rtlModuleName()>.ASN1_RESULT'(Success => true, ErrorCode => 0);
 
-    <endif>
     <sContent>
 end <sFuncName>_aux;
 <if(bVarNameIsUnreferenced)>
-- 
2.43.0


From f0fab206dacb66962610e8efbbdd6abcd0de3188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:43 +0000
Subject: [PATCH 87/95] fix: BER primitives do not read or write one byte past
 the end of the stream

---
 asn1crt/asn1crt_encoding_ber.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crt/asn1crt_encoding_ber.c b/asn1crt/asn1crt_encoding_ber.c
index 4355355..c11d1ee 100644
--- a/asn1crt/asn1crt_encoding_ber.c
+++ b/asn1crt/asn1crt_encoding_ber.c
@@ -13,7 +13,7 @@ int GetLengthInBytesOfSInt(asn1SccSint v);
 
 static flag ByteStream_PutByte(ByteStream* pStrm, byte v)
 {
-	if (pStrm->currentByte + 1>pStrm->count + 1)
+	if (pStrm->currentByte + 1>pStrm->count)
 		return FALSE;
 
 	pStrm->buf[pStrm->currentByte] = v;
@@ -22,7 +22,7 @@ static flag ByteStream_PutByte(ByteStream* pStrm, byte v)
 }
 
 static flag ByteStream_GetByte(ByteStream* pStrm, byte* v) {
-	if (pStrm->currentByte + 1>pStrm->count + 1)
+	if (pStrm->currentByte + 1>pStrm->count)
 		return FALSE;
 	*v = pStrm->buf[pStrm->currentByte];
 	pStrm->currentByte++;
-- 
2.43.0


From 72406c34872f18d91b233468c81338e8a831321d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:18 +0000
Subject: [PATCH 88/95] fix: BER decoders refuse indefinite, overflowing and
 impossible lengths of primitive values

---
 asn1crt/asn1crt_encoding_ber.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/asn1crt/asn1crt_encoding_ber.c b/asn1crt/asn1crt_encoding_ber.c
index c11d1ee..1fd8112 100644
--- a/asn1crt/asn1crt_encoding_ber.c
+++ b/asn1crt/asn1crt_encoding_ber.c
@@ -3,6 +3,7 @@
 #include <assert.h>
 #include <math.h>
 #include <float.h>
+#include <limits.h>
 #include <ctype.h>
 #include <stdlib.h>
 
@@ -162,6 +163,10 @@ flag BerDecodeLength(ByteStream* pByteStrm, int* value, int *pErrCode)
 			*pErrCode = ERR_INSUFFICIENT_DATA;
 			return FALSE;
 		}
+		if (ret > (unsigned int)(INT_MAX >> 8)) {
+			*pErrCode = ERR_BER_LENGTH_MISMATCH;
+			return FALSE;
+		}
 		ret <<= 8;
 		ret |= curByte;
 	}
@@ -249,6 +254,10 @@ flag BerDecodeInteger(ByteStream* pByteStrm, BerTag tag, asn1SccSint *value, int
 		return FALSE;
 	if (!BerDecodeLength(pByteStrm, &length, pErrCode))
 		return FALSE;
+	if (length < 1 || length > WORD_SIZE) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
 
 	for (i = 0; i<length; i++) {
 		byte curByte;
@@ -392,6 +401,10 @@ flag BerDecodeIA5String(ByteStream* pByteStrm, BerTag tag, char* value, int maxL
 		return FALSE;
 	if (!BerDecodeLength(pByteStrm, &length, pErrCode))
 		return FALSE;
+	if (length < 0) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
 
 
 	for (i = 0; i<length; i++) {
@@ -481,11 +494,19 @@ flag BerDecodeBitString(ByteStream* pByteStrm, BerTag tag, byte* value, int *bit
 
 	if (!BerDecodeLength(pByteStrm, &length, pErrCode))
 		return FALSE;
+	if (length < 1) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
 
 	if (!ByteStream_GetByte(pByteStrm, &lastByteUnusedBits)) {
 		*pErrCode = ERR_INSUFFICIENT_DATA;
 		return FALSE;
 	}
+	if (lastByteUnusedBits > 7 || (length == 1 && lastByteUnusedBits != 0)) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
 
 	for (i = 0; i<length - 1; i++) {
 		if (!ByteStream_GetByte(pByteStrm, &curByte)) {
@@ -502,6 +523,8 @@ flag BerDecodeBitString(ByteStream* pByteStrm, BerTag tag, byte* value, int *bit
 	}
 
 	nbitCnt -= lastByteUnusedBits;
+	if (nbitCnt > maxBitCount)
+		nbitCnt = maxBitCount;
 
 	if (bitCount != NULL)
 		*bitCount = nbitCnt;
@@ -540,6 +563,10 @@ flag BerDecodeOctetString(ByteStream* pByteStrm, BerTag tag, byte* value, int *o
 		return FALSE;
 	if (!BerDecodeLength(pByteStrm, &length, pErrCode))
 		return FALSE;
+	if (length < 0) {
+		*pErrCode = ERR_BER_LENGTH_MISMATCH;
+		return FALSE;
+	}
 
 	if (octCount != NULL)
 		*octCount = length <= maxOctCount ? length : maxOctCount;
-- 
2.43.0


From 4ad0463650446dd84cf3a817d56a54e35a691485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:07 +0000
Subject: [PATCH 89/95] fix: streaming mode refuses octets that are cut off by
 the end of the data

---
 asn1crt/asn1crt_encoding.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1crt/asn1crt_encoding.c b/asn1crt/asn1crt_encoding.c
index fb88bea..7344900 100644
--- a/asn1crt/asn1crt_encoding.c
+++ b/asn1crt/asn1crt_encoding.c
@@ -388,7 +388,9 @@ flag BitStream_ReadByte(BitStream* pBitStrm, byte* v)
 
 	if (cb > 0) {
         // we need to read bits from the next byte
-		int ncb = 8 - cb;						
+		int ncb = 8 - cb;
+		if (pBitStrm->currentByte >= pBitStrm->count)
+			return FALSE;
 		*v |= (byte)(pBitStrm->buf[pBitStrm->currentByte] >> ncb);
 	}
 
-- 
2.43.0


From fb3e0aa42ca7e20eff98f88ef937f747ab6fe8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:07 +0000
Subject: [PATCH 90/95] fix: Ada object identifier decoding refuses arcs that
 are cut off or do not fit

---
 ADA_RTL2/src/adaasn1rtl-encoding-uper.adb | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
index 407b48c..fba8969 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-uper.adb
@@ -572,6 +572,8 @@ is
          remainingOctets := remainingOctets - 1;
          bLastOctet      := (curByte and 16#80#) = 0;
          curOctetValue   := Asn1UInt (curByte and 16#7F#);
+         --  the value must fit
+         Result.Success  := Result.Success and siValue <= Asn1UInt'Last / 128;
          siValue         := Shift_Left (siValue, 7);
 
          siValue := siValue or curOctetValue;
@@ -579,6 +581,9 @@ is
 
       end loop;
 
+      --  and its last octet must be there
+      Result.Success := Result.Success and bLastOctet;
+
    end ObjectIdentifier_subidentifiers_uper_decode;
 
    procedure ObjectIdentifier_uper_encode
-- 
2.43.0


From 499b9ac529c8405fae034e4ba6809af3170acb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:07 +0000
Subject: [PATCH 91/95] fix: Ada ASCII integer decoding refuses numbers that do
 not fit and numbers without terminator

---
 ADA_RTL2/src/adaasn1rtl-encoding-acn.adb | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
index 0f06bb7..1887953 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
@@ -1498,7 +1498,8 @@ is
          intDigit := Character'Pos (Ch) - Character'Pos ('0');
 
          Result.Success :=
-           intDigit >= 0 and intDigit <= 9; --  and IntVal <Powers_of_10(i-1);
+           intDigit >= 0 and then intDigit <= 9
+           and then IntVal <= (Asn1UInt'Last - Asn1UInt (intDigit)) / 10;
          if Result.Success then
             IntVal := IntVal * 10;
             IntVal := IntVal + Asn1UInt (intDigit);
@@ -1564,7 +1565,8 @@ is
          intDigit := Character'Pos (Ch) - Character'Pos ('0');
 
          Result.Success :=
-           intDigit >= 0 and intDigit <= 9 and IntVal < Powers_of_10 (i - 1);
+           intDigit >= 0 and then intDigit <= 9
+           and then IntVal <= (Asn1UInt'Last - Asn1UInt (intDigit)) / 10;
          if Result.Success then
             IntVal := IntVal * 10;
             IntVal := IntVal + Asn1UInt (intDigit);
-- 
2.43.0


From 2da4ea1133aa4a60ce45d1eb7c48c84f867fd0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:07 +0000
Subject: [PATCH 92/95] fix: Ada decoding refuses null terminated strings whose
 terminator is missing

---
 ADA_RTL2/src/adaasn1rtl-encoding-acn.adb | 5 +++++
 ADA_RTL2/src/adaasn1rtl-encoding-acn.ads | 3 +--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
index 1887953..7cffcb6 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
@@ -1576,6 +1576,11 @@ is
            tmp (tmp'First .. tmp'First + (nullChars'Last - nullChars'First));
       end loop;
 
+      --  the terminator must be there
+      Result.Success := Result.Success and then
+        nullChars (nullChars'First .. nullChars'Last) =
+        tmp (tmp'First .. tmp'First + (nullChars'Last - nullChars'First));
+
       if not Result.Success then
          Result.ErrorCode := ERR_INCORRECT_STREAM;
       end if;
diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-acn.ads b/ADA_RTL2/src/adaasn1rtl-encoding-acn.ads
index 8b1ba8d..356a918 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-acn.ads
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-acn.ads
@@ -1424,8 +1424,7 @@ is
       and then bs.Current_Bit_Pos <=
         bs.Size_In_Bytes * 8 -
           (strVal'Length - 1 + null_characters'Length) * 8,
-      Post => Result.Success and
-      bs.Current_Bit_Pos >= bs'Old.Current_Bit_Pos and
+      Post => bs.Current_Bit_Pos >= bs'Old.Current_Bit_Pos and
       bs.Current_Bit_Pos <=
         bs'Old.Current_Bit_Pos +
           (strVal'Length - 1 + null_characters'Length) * 8;
-- 
2.43.0


From 2e7c67a30f0f2d6733e2b967891588e11acabfcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:07 +0000
Subject: [PATCH 93/95] fix: Ada decoding of strings over an alphabet accepts
 every character of the alphabet

---
 ADA_RTL2/src/adaasn1rtl-encoding-acn.adb | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
index 7cffcb6..3fae0ca 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
@@ -2183,6 +2183,12 @@ is
          I := I + 1;
       end loop;
 
+      --  the terminator must be there
+      Result.Success :=
+        null_characters (null_characters'First .. null_characters'Last) =
+        tmp (tmp'First ..
+             tmp'First + (null_characters'Last - null_characters'First));
+
       while I <= strVal'Last loop
          pragma Loop_Invariant (I >= strVal'First and I <= strVal'Last);
          strVal (I) := Standard.Ascii.NUL;
-- 
2.43.0


From 9cbfcc55277104fac3cfb83d533402b14872dab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:22 +0000
Subject: [PATCH 94/95] fix: Ada decoding of strings with a length field
 accepts every character of the alphabet

The character index was bounded by the maximum size of the string instead of
the size of the alphabet. (The preceding commit, of a similar title, holds the
second half of the terminator check of 2da4ea1.)
---
 ADA_RTL2/src/adaasn1rtl-encoding-acn.adb | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
index 3fae0ca..0c747c8 100644
--- a/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
+++ b/ADA_RTL2/src/adaasn1rtl-encoding-acn.adb
@@ -2409,7 +2409,8 @@ is
               bs.Current_Bit_Pos'Loop_Entry + (I - strVal'First) * nCharSize);
 
          Dec_ConstraintWholeNumberInt
-           (bs, charIndex, 0, Integer (asn1Max), nCharSize, Result.Success);
+           (bs, charIndex, 0, charSet'Last - charSet'First, nCharSize,
+            Result.Success);
          if Result.Success and charIndex + charSet'First <= charSet'Last then
             strVal (I) := charSet (charIndex + charSet'First);
          else
-- 
2.43.0


From 9323ee22980966c8f202419162f75c882b106b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:48 +0000
Subject: [PATCH 95/95] fix: -eee: ACN fields of enumerated types of other
 modules do not use the private array of that module

---
 BackendAst/Acn/AcnEnum.fs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/BackendAst/Acn/AcnEnum.fs b/BackendAst/Acn/AcnEnum.fs
index eb6e28f..3c17092 100644
--- a/BackendAst/Acn/AcnEnum.fs
+++ b/BackendAst/Acn/AcnEnum.fs
@@ -78,14 +78,16 @@ let createEnumCommon (r:Asn1AcnAst.AstRoot) (deps: Asn1AcnAst.AcnInsertedFieldDe
                 let resultExpr, errCodes, auxiliaries =
                     intAcnFuncBdResult.resultExpr, intAcnFuncBdResult.errCodes, intAcnFuncBdResult.auxiliaries
                 // the efficient code looks items up in the array of the enumeration values, in ascending order:
-                // it can be used only if this array gives the ACN encoded values, too
+                // it can be used only if this array gives the ACN encoded values, too,
+                // and if it belongs to this module (the array is private to the module of the type)
                 let useValuesArray =
                     o.items |>
                     List.sortBy(fun it -> it.definitionValue) |>
                     List.mapi(fun i it -> it.acnEncodeValue = (if o.encodeValues then it.definitionValue else BigInteger i)) |>
                     List.forall id
+                let ownModule = (lm.lg.getEnumTypeDefinition o.typeDef).programUnit = ToC typeId.ModName
                 let mainContent, localVariables =
-                    match r.args.isEnumEfficientEnabled o.items.Length && useValuesArray with
+                    match r.args.isEnumEfficientEnabled o.items.Length && useValuesArray && ownModule with
                     | false ->
                         let arrItems =
                             o.items |>
-- 
2.43.0

