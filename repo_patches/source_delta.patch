From 3696ac1f0414ffe4273790dc5750ddaddb94e5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 01/64] fix: steim1/steim2 encoders silently corrupt narrow,
 wide and late-float input

Differences of int8/int16/uint8/uint16 arrays wrapped in the narrow type,
large negative int64 values wrapped as only the maximum was checked, floats
after the first item of a list were truncated, and lists with a difference
over 32 bits raised OverflowError. Convert to a checked int32 array first.
---
 src/simplemseed/steim1.py          | 17 +++--------------
 src/simplemseed/steim2.py          | 18 +++---------------
 src/simplemseed/steimframeblock.py | 24 ++++++++++++++++++++++++
 3 files changed, 30 insertions(+), 29 deletions(-)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index cf44750..3dc4fe4 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -8,7 +8,7 @@ from .exceptions import (
     CodecException,
     SteimException,
 )
-from .steimframeblock import SteimFrameBlock
+from .steimframeblock import SteimFrameBlock, asSteimSamples
 from .steimframeblock import getUint32, getInt32
 
 #
@@ -218,19 +218,8 @@ def encodeSteim1FrameBlock(
             "Offset bigger than samples array: " + offset + " >= " + len(samples)
         )
 
-    # check if numpy array
-    if isinstance(samples, np.ndarray):
-        if len(np.shape(samples)) != 1:
-            raise SteimException(f"numpy array not one dimensional: {np.shape(samples)}")
-        if np.issubdtype(samples.dtype, np.floating):
-            raise SteimException(f"Cannot steim1 compress floating point numpy array: {samples.dtype}")
-        if np.issubdtype(samples.dtype, np.integer) and \
-                not np.can_cast(samples.dtype, np.int32, casting="safe"):
-            if abs(np.max(samples)) > np.iinfo(np.int32).max:
-                raise SteimException(f"max value of numpy array, {np.max(samples)} cannot fit into 32 bit integer")
-            samples = samples.astype(np.int32)
-    elif isinstance(samples[0], float):
-        raise SteimException(f"Cannot steim1 compress floating point list, first sample is float: {samples[0]}")
+    # work on 32 bit integers, whatever the type of the input
+    samples = asSteimSamples(samples, "steim1")
 
     # all encoding will be contained within a frame block
     # Steim encoding 1
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index edfc702..154bf1d 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -7,7 +7,7 @@ from .exceptions import (
     CodecException,
     SteimException,
 )
-from .steimframeblock import SteimFrameBlock
+from .steimframeblock import SteimFrameBlock, asSteimSamples
 from .steimframeblock import getUint32, getInt32
 
 
@@ -319,20 +319,8 @@ def encodeSteim2FrameBlock(
     if frames < 0:
         raise SteimException("number of frames is  a negative value")
 
-    # check if numpy array
-    # check if numpy array
-    if isinstance(samples, np.ndarray):
-        if len(np.shape(samples)) != 1:
-            raise SteimException(f"numpy array not one dimensional: {np.shape(samples)}")
-        if np.issubdtype(samples.dtype, np.floating):
-            raise SteimException(f"Cannot steim2 compress floating point numpy array: {samples.dtype}")
-        if np.issubdtype(samples.dtype, np.integer) and \
-                not np.can_cast(samples.dtype, np.int32, casting="safe"):
-            if abs(np.max(samples)) > np.iinfo(np.int32).max:
-                raise SteimException(f"max value of numpy array, {np.max(samples)} cannot fit into 32 bit integer")
-            samples = samples.astype(np.int32)
-    if isinstance(samples[0], float):
-        raise SteimException(f"Cannot steim2 compress floating point list, first sample is float: {samples[0]}")
+    # work on 32 bit integers, whatever the type of the input
+    samples = asSteimSamples(samples, "steim2")
 
     # all encoding will be contained within a frame block
     # Steim encoding 2
diff --git a/src/simplemseed/steimframeblock.py b/src/simplemseed/steimframeblock.py
index 098c40a..e43ed27 100644
--- a/src/simplemseed/steimframeblock.py
+++ b/src/simplemseed/steimframeblock.py
@@ -2,6 +2,30 @@ import struct
 
 import numpy as np
 
+from .exceptions import SteimException
+
+
+def asSteimSamples(samples, steimName: str) -> np.ndarray:
+    """
+    Convert samples to a 32 bit integer array, as used by steim compression.
+
+    @param samples the data points, as list or array of integers
+    @param steimName compression name, for error messages
+    @throws SteimException if samples cannot be represented as a one
+    dimensional array of 32 bit integers.
+    """
+    data = np.asarray(samples)
+    if data.ndim != 1:
+        raise SteimException(f"numpy array not one dimensional: {np.shape(data)}")
+    if np.issubdtype(data.dtype, np.floating):
+        raise SteimException(f"Cannot {steimName} compress floating point samples: {data.dtype}")
+    if not np.issubdtype(data.dtype, np.integer):
+        raise SteimException(f"Cannot {steimName} compress samples that are not 32 bit integers: {data.dtype}")
+    for val in (np.min(data), np.max(data)):
+        if val < np.iinfo(np.int32).min or val > np.iinfo(np.int32).max:
+            raise SteimException(f"value {val} in samples cannot fit into 32 bit integer")
+    return data.astype(np.int32)
+
 
 def getInt16(dataBytes, offset, littleEndian):
     endianChar = "<" if littleEndian else ">"
-- 
2.43.0


From 67286431247bbb1621b8dabdc5c0fe37145c13a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:07 +0000
Subject: [PATCH 02/64] fix: steim encoder refusals raise SteimException, not
 TypeError from message

---
 src/simplemseed/steim1.py | 4 ++--
 src/simplemseed/steim2.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index 3dc4fe4..b176fbb 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -211,11 +211,11 @@ def encodeSteim1FrameBlock(
         raise SteimException("number of frames is a negative value")
 
     if offset < 0:
-        raise SteimException("Offset cannot be negatuve: " + offset)
+        raise SteimException(f"Offset cannot be negative: {offset}")
 
     if offset >= len(samples):
         raise SteimException(
-            "Offset bigger than samples array: " + offset + " >= " + len(samples)
+            f"Offset bigger than samples array: {offset} >= {len(samples)}"
         )
 
     # work on 32 bit integers, whatever the type of the input
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index 154bf1d..ede3de6 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -414,7 +414,7 @@ def encodeSteim2FrameBlock(
             nibble = 2
         else:
             raise SteimException(
-                "Unable to encode " + nbits + " bit difference in Steim2 format"
+                f"Unable to encode {nbits} bit difference in Steim2 format"
             )
 
         word = steimPackWord(diff, nbits, ndiff, bitmask, submask)
-- 
2.43.0


From b720fed3d3dc497946c832b699d26276e2688d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:31 +0000
Subject: [PATCH 03/64] fix: steim decoders take unused words of the first
 frame as samples

Asking for more samples than a first frame holds returned invented values
made from its zero padding instead of a CodecException.
---
 src/simplemseed/steim1.py | 13 +++++++------
 src/simplemseed/steim2.py | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index b176fbb..bf088c3 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -75,14 +75,14 @@ def decodeSteim1(
             #  end = tempSamples[2]    # X(n) is byte 2 for frame 0
             firstData = 3  # d(0) is byte 3 for frame 0
 
-            # if bias was zero, then we want the first sample to be X(0) constant
-            if bias == 0:
-                lastValue = start - tempSamples[3]  # X(-1) = X(0) - d(0)
-
         for j in range(firstData, len(tempSamples)):
             if current >= numSamples:
                 break
-            samples[current] = lastValue + tempSamples[j]  # X(n) = X(n-1) + d(n)
+            if current == 0 and bias == 0:
+                # if bias was zero, then we want the first sample to be X(0) constant
+                samples[current] = start
+            else:
+                samples[current] = lastValue + tempSamples[j]  # X(n) = X(n-1) + d(n)
 
             lastValue = samples[current]
             current += 1
@@ -142,7 +142,8 @@ def extractSteim1Samples(
         if currNibble == 0:
             #  ("0 means header info")
             # only include header info if offset is 0
-            if offset == 0:
+            # and word is one of the first three, otherwise the word is unused
+            if offset == 0 and i < 3:
                 temp.append(getInt32(dataBytes, offset + i * 4, False))
                 currNum += 1
         elif currNibble == 1:
diff --git a/src/simplemseed/steim2.py b/src/simplemseed/steim2.py
index ede3de6..6ab811b 100644
--- a/src/simplemseed/steim2.py
+++ b/src/simplemseed/steim2.py
@@ -103,14 +103,14 @@ def decodeSteim2(
             # end = tempSamples[2]    # X(n) is byte 2 for frame 0
             firstData = 3  # d(0) is byte 3 for frame 0
 
-            # if bias was zero, then we want the first sample to be X(0) constant
-            if bias == 0:
-                lastValue = start - tempSamples[3]  # X(-1) = X(0) - d(0)
-
         for j in range(firstData, len(tempSamples)):
             if current >= numSamples:
                 break
-            samples[current] = lastValue + tempSamples[j]  # X(n) = X(n-1) + d(n)
+            if current == 0 and bias == 0:
+                # if bias was zero, then we want the first sample to be X(0) constant
+                samples[current] = start
+            else:
+                samples[current] = lastValue + tempSamples[j]  # X(n) = X(n-1) + d(n)
 
             lastValue = samples[current]
             current += 1
@@ -172,7 +172,8 @@ def extractSteim2Samples(
         if currNibble == 0:
             # "0 means header info"
             # only include header info if offset is 0
-            if offset == 0:
+            # and word is one of the first three, otherwise the word is unused
+            if offset == 0 and i < 3:
                 temp[currNum] = getInt32(dataBytes, offset + i * 4, False)
                 currNum += 1
 
-- 
2.43.0


From 23ea060dd03053f1f3223a68889d59efe8a54b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:31 +0000
Subject: [PATCH 04/64] fix: decodeSteim1 raises CodecException, not
 OverflowError, for an illegal frame code

---
 src/simplemseed/steim1.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/simplemseed/steim1.py b/src/simplemseed/steim1.py
index bf088c3..ea4bd2e 100644
--- a/src/simplemseed/steim1.py
+++ b/src/simplemseed/steim1.py
@@ -30,7 +30,6 @@ from .steimframeblock import getUint32, getInt32
 
 ONE_BYTE = np.int32(0xFF)
 TWO_BYTE = np.int32(0xFFFF)
-TWO_BITS = np.int32(0x3)
 
 def decodeSteim1(
     dataBytes: bytearray,
@@ -119,17 +118,19 @@ def extractSteim1Samples(
     offset: int,
 ) -> list:
     # get nibbles
-    nibbles = np.int32(getUint32(dataBytes, offset, False))
-    currNibble = np.int32(0)
+    nibbles = getUint32(dataBytes, offset, False)
+    currNibble = 0
     temp = []  # 4 samples * 16 longwords, can't be more than 64
 
     currNum = 0
 
+    headNib = (nibbles >> 30) & 0x03
+    if headNib != 0:
+        raise CodecException(f"nibble bytes must start with 00, but was {headNib:02b}")
+
     for i in range(16):
         # i is the word number of the frame starting at 0
-        shiftBits = np.int32(30 - i * 2)
-        shiftNibble=np.right_shift(nibbles, shiftBits)
-        currNibble = np.bitwise_and(shiftNibble, TWO_BITS)  # count from top to bottom each nibble in W(0)
+        currNibble = (nibbles >> (30 - i * 2)) & 0x03  # count from top to bottom each nibble in W(0)
 
         # Rule appears to be:
         # only check for byte-swap on actual value-atoms, so a 32-bit word in of itself
-- 
2.43.0


From f3fe5628bba013197a5264ed6a3d265cfc4d9503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:04 +0000
Subject: [PATCH 05/64] fix: encode() of a list without encoding raises
 UnsupportedCompressionType, not TypeError

---
 src/simplemseed/seedcodec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/seedcodec.py b/src/simplemseed/seedcodec.py
index 5eecf7c..c1d0864 100644
--- a/src/simplemseed/seedcodec.py
+++ b/src/simplemseed/seedcodec.py
@@ -244,7 +244,7 @@ def encode(data, encoding=None, littleEndian=True):
             encoding = mseed3EncodingFromArrayTypecode(data.typecode, data.itemsize)
         else:
             raise UnsupportedCompressionType(
-                "Unable to guess encoding for data, encoding is " + encoding
+                f"Unable to guess encoding for data of type {type(data)}, encoding is {encoding}"
             )
     try:
         compCode = arrayTypecodeFromMSeed(encoding)
-- 
2.43.0


From ebae56681ec35e7fb4d60a2bc0360b50ff6777fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 06/64] fix: int64 samples below the 32 bit range are silently
 wrapped, empty int64 array is refused

---
 src/simplemseed/mseed3.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index f160ab2..6d975d2 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -362,8 +362,11 @@ class MSeed3Record:
             # special case for int64
             if np.issubdtype(data.dtype, np.integer) and \
                     not np.can_cast(data.dtype, np.int32, casting="safe"):
-                if abs(np.max(data)) > np.iinfo(np.int32).max:
+                limits = np.iinfo(np.int32)
+                if len(data) > 0 and np.max(data) > limits.max:
                     raise Miniseed3Exception(f"max value of numpy array, {np.max(data)} cannot fit into 32 bit integer")
+                if len(data) > 0 and np.min(data) < limits.min:
+                    raise Miniseed3Exception(f"min value of numpy array, {np.min(data)} cannot fit into 32 bit integer")
                 data = data.astype(np.int32)
 
             encoding = mseed3EncodingFromNumpyDT(data.dtype)
-- 
2.43.0


From 509f2f7eafd6a307f175d17168f7318899ea4e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 07/64] fix: getSize() is None for a packed record without data

---
 src/simplemseed/mseed3.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 6d975d2..e6f91a9 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -509,7 +509,8 @@ class MSeed3Record:
         if (
             self.header.identifierLength is not None
             and self.header.extraHeadersLength is not None
-            and self.header.dataLength
+            # zero length is real, not unset, once packed, when crc is also set
+            and (self.header.dataLength or self.header.crc)
         ):
             return (
                 FIXED_HEADER_SIZE
-- 
2.43.0


From f0852cb32a0250308469a1188655676ff5b05bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 08/64] fix: big endian EncodedDataSegment corrupts samples in
 a miniseed3 record

---
 src/simplemseed/mseed3.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index e6f91a9..efe67f2 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -12,6 +12,7 @@ from .seedcodec import (
     canDecompress,
     decompress,
     encode,
+    isPrimitiveCompression,
     STEIM1,
     STEIM2,
     STEIM3,
@@ -342,6 +343,9 @@ class MSeed3Record:
             encoding = 0
             numSamples = 0
         elif isinstance(data, EncodedDataSegment):
+            if isPrimitiveCompression(data.compressionType) and not data.littleEndian:
+                # primitive types are always little endian in miniseed3
+                data = encode(data.decode(), data.compressionType, littleEndian=True)
             self._data = data.dataBytes
             encoding = data.compressionType
             numSamples = data.numSamples
-- 
2.43.0


From edebc913c16bb286f807dbae784855f3f17044af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 09/64] fix: list of non-integer values is silently truncated
 for an integer encoding

---
 src/simplemseed/mseed3.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index efe67f2..50bf259 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -384,6 +384,9 @@ class MSeed3Record:
             else:
                 encoding = self.header.encoding
             self._data = np.array(data, dtype=numpyDTFromMseed3Encoding(encoding))
+            if np.issubdtype(self._data.dtype, np.integer) \
+                    and not np.array_equal(self._data, np.array(data)):
+                raise Miniseed3Exception(f"values in list are not integers, cannot use encoding {encoding}")
             encoding = mseed3EncodingFromNumpyDT(self._data.dtype)
             numSamples = len(self._data)
         else:
-- 
2.43.0


From 2d39574f2ace4ff2a1fc788ab86a2ddb54136b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 10/64] fix: areCompatible() ignores different sample rates

---
 src/simplemseed/mseed3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 50bf259..032c037 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -828,7 +828,7 @@ def areCompatible(ms3a: MSeed3Record, ms3b: MSeed3Record, timeTolFactor=0.5) ->
     """
     out = True
     out = out and ms3a.identifier == ms3b.identifier
-    out = out and ms3b.header.sampleRatePeriod == ms3b.header.sampleRatePeriod
+    out = out and ms3a.header.sampleRatePeriod == ms3b.header.sampleRatePeriod
     out = out and ms3a.header.encoding == ms3b.header.encoding
     out = out and ms3a.header.publicationVersion == ms3b.header.publicationVersion
     out = out and ms3a.endtime < ms3b.starttime
-- 
2.43.0


From 2467568c09d11c3c1ba710d7d5e16111bac0b3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 11/64] fix: mseed3merge() takes padding after the samples as
 samples

---
 src/simplemseed/mseed3.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 032c037..2b33713 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -870,8 +870,13 @@ def mseed3merge(ms3a: MSeed3Record, ms3b: MSeed3Record) -> list[MSeed3Record]:
         header = ms3a.header.clone()
         header.numSamples += ms3b.header.numSamples
         encodedDataBytes = bytearray()
-        encodedDataBytes.extend(ms3a.encodedDataBytes())
-        encodedDataBytes.extend(ms3b.encodedDataBytes())
+        for ms3 in (ms3a, ms3b):
+            dataBytes = ms3.encodedDataBytes()
+            if isPrimitiveCompression(ms3.header.encoding):
+                # leave out any padding after the last sample
+                itemsize = np.dtype(numpyDTFromMseed3Encoding(ms3.header.encoding)).itemsize
+                dataBytes = dataBytes[: ms3.header.numSamples * itemsize]
+            encodedDataBytes.extend(dataBytes)
         if ms3a.hasExtraHeaders():
             eh = json.loads(json.dumps(ms3a.eh))
         else:
-- 
2.43.0


From c5fef566b6d6906f42d07cdff1dc0a408cb1f3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 12/64] fix: start time within a leap second raises ValueError

---
 src/simplemseed/mseed3.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 2b33713..23af1ff 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -238,13 +238,12 @@ class MSeed3Header:
             1,
             hour=self.hour,
             minute=self.minute,
-            second=self.second,
             microsecond=int(self.nanosecond / 1000),
             tzinfo=timezone.utc,
         )
-        # start Jan 1, so shift by dayOfYear minus 1
-        doyMinusOne = timedelta(days=self.dayOfYear - 1)
-        return st + doyMinusOne
+        # start Jan 1, so shift by dayOfYear minus 1, seconds can be 60 for
+        # leap second, which datetime can only represent as the next second
+        return st + timedelta(days=self.dayOfYear - 1, seconds=self.second)
 
     @starttime.setter
     def starttime(self, stime):
-- 
2.43.0


From 64bb94c70b0a64d40fa90d701cfb2aaa25b8504e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:33 +0000
Subject: [PATCH 13/64] fix: samplePeriod, endtime and summary() raise
 ZeroDivisionError without a sample rate

---
 src/simplemseed/mseed3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 23af1ff..f7bd29a 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -180,7 +180,9 @@ class MSeed3Header:
 
     @property
     def samplePeriod(self):
-        """ Sampling as a period, number of seconds between samples."""
+        """ Sampling as a period, number of seconds between samples, zero if no sample rate."""
+        if self.sampleRatePeriod == 0:
+            return 0
         return (
             -1 * self.sampleRatePeriod
             if self.sampleRatePeriod < 0
-- 
2.43.0


From 6f3c04456f05c031c1a6e679569bea809f15a280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:43 +0000
Subject: [PATCH 14/64] fix: record without extra headers attribute after del
 eh cannot be packed

---
 src/simplemseed/mseed3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index f7bd29a..cd047f4 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -427,7 +427,7 @@ class MSeed3Record:
 
     @eh.deleter
     def eh(self):
-        del self._eh
+        self._eh = None
         self.header.extraHeadersLength = 0
 
     def parseIdentifier(self) -> FDSNSourceId:
-- 
2.43.0


From 911b24d0aabafc3cb2e16133507820caa165363f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:53 +0000
Subject: [PATCH 15/64] fix: miniseed2 start time within a leap second raises
 ValueError

---
 src/simplemseed/miniseed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 639fb8b..f1b527e 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -256,10 +256,10 @@ class MiniseedHeader:
                 1,
                 hour=self.btime.hour,
                 minute=self.btime.minute,
-                second=self.btime.second,
                 microsecond=100 * self.btime.tenthMilli,
                 tzinfo=timezone.utc,
-            ) + timedelta(days=self.btime.yday - 1)
+            ) + timedelta(days=self.btime.yday - 1, seconds=self.btime.second)
+            # seconds can be 60 for leap second, becomes the next second
         else:
             raise MiniseedException(
                 f"unknown type of starttime {type(starttime)}"
-- 
2.43.0


From bcc54c73f2389ddc2f24412bae6f5648334b7c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:53 +0000
Subject: [PATCH 16/64] fix: blank or NUL sequence number makes a miniseed2
 record unreadable

---
 src/simplemseed/miniseed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index f1b527e..009f745 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -582,7 +582,7 @@ def unpackMiniseedHeader(recordBytes, endianChar=">"):
     sta = sta.decode("utf-8").strip()
     loc = loc.decode("utf-8").strip()
     chan = chan.decode("utf-8").strip()
-    seq = seq.decode("utf-8").strip()
+    seq = seq.decode("utf-8").strip().strip("\0")
     qualityChar = qualityChar.decode("utf-8").strip()
     starttime = BTime(year, yday, hour, minute, sec, tenthMilli)
     sampleRate = 0  # recalc in constructor
@@ -606,7 +606,7 @@ def unpackMiniseedHeader(recordBytes, endianChar=">"):
         timeCorr=timeCorr,
         dataOffset=dataOffset,
         blocketteOffset=blocketteOffset,
-        sequence_number=int(seq),
+        sequence_number=int(seq) if len(seq) > 0 else 0,
         dataquality=qualityChar,
     )
 
-- 
2.43.0


From 4d8dddc4e83a0099016e224d4713b177ca7d672e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:27 +0000
Subject: [PATCH 17/64] fix: negative sample rate factor and multiplier read as
 unsigned

---
 src/simplemseed/miniseed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 009f745..9b89572 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -573,7 +573,7 @@ def unpackMiniseedHeader(recordBytes, endianChar=">"):
         timeCorr,
         dataOffset,
         blocketteOffset,
-    ) = struct.unpack(endianChar + "6scc5s2s3s2sHHBBBxHHHHBBBBiHH", recordBytes[0:48])
+    ) = struct.unpack(endianChar + "6scc5s2s3s2sHHBBBxHHhhBBBBiHH", recordBytes[0:48])
     if endianChar == ">":
         byteorder = BIG_ENDIAN
     else:
-- 
2.43.0


From c677aaa27b3384a90af84363878f80ebe7425464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:27 +0000
Subject: [PATCH 18/64] fix: zero sample rate factor or multiplier raises
 ZeroDivisionError

---
 src/simplemseed/miniseed.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 9b89572..6976a6f 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -102,13 +102,20 @@ class MiniseedHeader:
         self.sampRateMult = sampRateMult
         if sampleRate == 0 and not (sampRateFactor == 0 and sampRateMult == 0):
             # calc sampleRate from sampRateFactor and sampRateMult
-            if sampRateFactor > 0:
-                if sampRateMult > 0:
+            if sampRateFactor == 0:
+                # no sample rate, ex log records with multiplier of 1
+                self.sampleRate = 0
+            elif sampRateFactor > 0:
+                if sampRateMult == 0:
+                    self.sampleRate = 1.0 * sampRateFactor
+                elif sampRateMult > 0:
                     self.sampleRate = 1.0 * sampRateFactor * sampRateMult
                 else:
                     self.sampleRate = -1.0 * sampRateFactor / sampRateMult
             else:
-                if sampRateMult > 0:
+                if sampRateMult == 0:
+                    self.sampleRate = -1.0 / sampRateFactor
+                elif sampRateMult > 0:
                     self.sampleRate = -1.0 * sampRateMult / sampRateFactor
                 else:
                     self.sampleRate = 1.0 / (sampRateFactor * sampRateMult)
-- 
2.43.0


From 66953d58d82e60e02c1f7b752cc5dff4ff57c100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:51 +0000
Subject: [PATCH 19/64] fix: blockettes after blockette 1000 are read in the
 byte order of the samples

---
 src/simplemseed/miniseed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 6976a6f..8ab4993 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -751,8 +751,8 @@ def readMiniseed2Records(fileptr, matchsid=None):
                     blockettes.append(b)
                     if type(b).__name__ == "Blockette1000":
                         header.encoding = b.encoding
+                        # byte order of the samples, blockettes are in the order of the header
                         header.byteorder = b.byteorder
-                        endianChar = "<" if header.byteorder == LITTLE_ENDIAN else ">"
                         header.recordLengthExp = b.recLength
                         header.recordLength = 2**header.recordLengthExp
                         foundB1000 = b
-- 
2.43.0


From c9a6b7fd3d0cfcfad87d5cd57062573dff39df65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:20 +0000
Subject: [PATCH 20/64] fix: packing a miniseed2 header drops quality, flags
 and time correction

---
 src/simplemseed/miniseed.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 8ab4993..5007cc9 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -169,7 +169,7 @@ class MiniseedHeader:
             header,
             0,
             seq,
-            b"D",
+            self.dataquality.ljust(1).encode("UTF-8"),
             b" ",
             sta,
             loc,
@@ -189,6 +189,16 @@ class MiniseedHeader:
             tempsampRateFactor,
             tempsampRateMult,
         )
+        struct.pack_into(
+            self.endianChar + "BBBBi",
+            header,
+            36,
+            self.actFlag,
+            self.ioFlag,
+            self.qualFlag,
+            self.numBlockettes,
+            self.timeCorr,
+        )
         return header
 
     def calcSeedMultipilerFactor(self):
-- 
2.43.0


From 7e3389a66119fc53108a96650c499938a624a8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:46 +0000
Subject: [PATCH 21/64] fix: blockette 100 sample rate is a 32 bit float and
 the blockette is 12 bytes long

---
 src/simplemseed/miniseed.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 5007cc9..d7b1a87 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -452,18 +452,18 @@ class MiniseedRecord:
 
     def packB100(self, recordBytes, offset, b):
         struct.pack_into(
-            self.header.endianChar + "HHixxxx",
+            self.header.endianChar + "HHfxxxx",
             recordBytes,
             offset,
             b.blocketteNum,
             b.nextOffset,
             b.sampleRate,
         )
-        return offset + 8
+        return offset + 12
 
     def createB100(self):
         return Blockette100(
-            1000,
+            100,
             0,
             self.header.sampleRate,
         )
@@ -650,7 +650,7 @@ def unpackBlockette(recordBytes, offset, endianChar, dataOffset):
 def unpackBlockette100(recordBytes, offset, endianChar):
     """named Tuple of blocketteNum, nextOffset, sample rate"""
     blocketteNum, nextOffset, sampRate = struct.unpack(
-        endianChar + "HHixxxx", recordBytes[offset : offset + 12]
+        endianChar + "HHfxxxx", recordBytes[offset : offset + 12]
     )
     return Blockette100(blocketteNum, nextOffset, sampRate)
 
-- 
2.43.0


From b15906f92ff88bfc1d989cc61045c1ab3cd6ea47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:46 +0000
Subject: [PATCH 22/64] fix: createB1001() creates a blockette of type 1000

---
 src/simplemseed/miniseed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index d7b1a87..ecc3ff1 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -506,7 +506,7 @@ class MiniseedRecord:
     def createB1001(self):
         microseconds = self.starttime().microsecond % 100
         return Blockette1001(
-            1000,
+            1001,
             0,
             0,  # time quality
             microseconds,  # microseconds
-- 
2.43.0


From 6bf1ff27ddaf949766154bb91e9b21b55bf84b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:46 +0000
Subject: [PATCH 23/64] fix: setSampleRate(0) raises ZeroDivisionError

---
 src/simplemseed/miniseed.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index ecc3ff1..23f6a6b 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -242,9 +242,14 @@ class MiniseedHeader:
 
     def setSampleRate(self, sampleRate):
         self.sampleRate = sampleRate
-        self.sampPeriod = timedelta(
-            microseconds=MICRO / self.sampleRate
-        )  # Nominal sample period (Sec) */
+        if self.sampleRate == 0:
+            self.sampPeriod = timedelta(
+                microseconds=0
+            )
+        else:
+            self.sampPeriod = timedelta(
+                microseconds=MICRO / self.sampleRate
+            )  # Nominal sample period (Sec) */
 
     def setStartTime(self, starttime):
         if type(starttime).__name__ == "str":
-- 
2.43.0


From bb23297b94023df4ab0d849657ca4b460ef0b179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:39 +0000
Subject: [PATCH 24/64] fix: first blockette is assumed to follow the fixed
 header without a gap

---
 src/simplemseed/miniseed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 23f6a6b..418a24d 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -739,6 +739,10 @@ def readMiniseed2Records(fileptr, matchsid=None):
         foundB1000 = None
         if header.numBlockettes > 0:
             blocketteNextOffset = header.blocketteOffset
+            if blocketteNextOffset > numRecBytesRead:
+                # first blockette may not be right after the fixed header
+                _skipBytes = fileptr.read(blocketteNextOffset - numRecBytesRead)
+                numRecBytesRead = blocketteNextOffset
             prevBOffset = blocketteNextOffset
             while blocketteNextOffset > 0 and len(blockettes) < header.numBlockettes:
                 try:
-- 
2.43.0


From 895e11ceeff7acc37f94c58473665ffb99bc013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:39 +0000
Subject: [PATCH 25/64] fix: records without data shorter than 512 bytes are
 read past their end

---
 src/simplemseed/miniseed.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 418a24d..c46702e 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -36,6 +36,7 @@ ENC_INT = 3
 
 HEADER_SIZE = 48
 B1000_SIZE = 8
+BLOCKETTE_SIZES = {100: 12, 1000: B1000_SIZE, 1001: 8}
 MAX_INT_PER_512 = (512 - HEADER_SIZE - B1000_SIZE) // 4
 MAX_SHORT_PER_512 = (512 - HEADER_SIZE - B1000_SIZE) // 2
 
@@ -747,7 +748,7 @@ def readMiniseed2Records(fileptr, matchsid=None):
             while blocketteNextOffset > 0 and len(blockettes) < header.numBlockettes:
                 try:
                     blocketteFourBytes = fileptr.read(4)
-                    _blocketteNum, blocketteNextOffset = struct.unpack(
+                    blocketteNum, blocketteNextOffset = struct.unpack(
                         endianChar + "HH", blocketteFourBytes
                     )
                     if foundB1000 is not None and blocketteNextOffset > header.recordLength:
@@ -756,6 +757,9 @@ def readMiniseed2Records(fileptr, matchsid=None):
                         )
                     if blocketteNextOffset > prevBOffset+4:
                         numBytesToRead = blocketteNextOffset-prevBOffset-4
+                    elif blocketteNextOffset == 0 and blocketteNum in BLOCKETTE_SIZES:
+                        # last one, length is known, record length might not be yet
+                        numBytesToRead = BLOCKETTE_SIZES[blocketteNum] - 4
                     elif header.dataOffset > prevBOffset:
                         numBytesToRead = header.dataOffset-prevBOffset-4
                     else:
-- 
2.43.0


From 00d6063d40aa997b8c96ce3662e9bb96ee38150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:17 +0000
Subject: [PATCH 26/64] fix: start time drifts by blockette 1001 microseconds
 on each read and pack

---
 src/simplemseed/miniseed.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index c46702e..d17a2d9 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -423,6 +423,13 @@ class MiniseedRecord:
             self.blockettes.insert(0, self.createB1000())
         recordBytes[39] = len(self.blockettes)
         for b in self.blockettes:
+            if type(b).__name__ == "Blockette1001":
+                # start time is that in the header plus microseconds from b1001
+                b = self.adjustB1001(b)
+                self.header.packBTime(
+                    recordBytes,
+                    self.header.starttime - timedelta(microseconds=b.microseconds)
+                )
             offset = self.packBlockette(recordBytes, offset, b)
         # set offset to data in header
         if self.header.encoding in (STEIM1, STEIM2) and offset < 64:
@@ -509,6 +516,15 @@ class MiniseedRecord:
         )
         return offset + 8
 
+    def adjustB1001(self, b):
+        """
+        Set microseconds if start time was changed after b1001 was created.
+        """
+        micros = self.starttime().microsecond
+        if not -50 <= b.microseconds <= 99 or (micros - b.microseconds) % 100 != 0:
+            b = b._replace(microseconds=micros % 100)
+        return b
+
     def createB1001(self):
         microseconds = self.starttime().microsecond % 100
         return Blockette1001(
@@ -782,9 +798,7 @@ def readMiniseed2Records(fileptr, matchsid=None):
                     elif type(b).__name__ == "Blockette100":
                         header.setSampleRate(b.sampleRate)
                     elif type(b).__name__ == "Blockette1001":
-                        header.setStartTime(
-                            header.starttime + timedelta(microseconds=b.microseconds)
-                        )
+                        header.starttime += timedelta(microseconds=b.microseconds)
                     prevBOffset += len(blocketteBytes)
                     numRecBytesRead += len(blocketteBytes)
                 except struct.error as e:
-- 
2.43.0


From 5b456f05ef0f034558f0c8ae3a91e379da72672b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:14 +0000
Subject: [PATCH 27/64] fix: packing chains blockettes by stale next offsets

---
 src/simplemseed/miniseed.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index d17a2d9..754bb06 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -430,7 +430,13 @@ class MiniseedRecord:
                     recordBytes,
                     self.header.starttime - timedelta(microseconds=b.microseconds)
                 )
-            offset = self.packBlockette(recordBytes, offset, b)
+            nextOffset = self.packBlockette(recordBytes, offset, b)
+            # offset to next blockette, last one is zero, set below
+            struct.pack_into(
+                self.header.endianChar + "H", recordBytes, offset + 2, nextOffset
+            )
+            lastOffset, offset = offset, nextOffset
+        struct.pack_into(self.header.endianChar + "H", recordBytes, lastOffset + 2, 0)
         # set offset to data in header
         if self.header.encoding in (STEIM1, STEIM2) and offset < 64:
             offset = 64
-- 
2.43.0


From 27fc9974c4a4c3e88c30706a0c1f4092f4779743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 28/64] fix: steim record cannot be packed after decompress()

---
 src/simplemseed/miniseed.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 754bb06..2b8cd21 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -441,7 +441,8 @@ class MiniseedRecord:
         if self.header.encoding in (STEIM1, STEIM2) and offset < 64:
             offset = 64
         struct.pack_into(self.header.endianChar + "H", recordBytes, 44, offset)
-        if self.encodedDataBytes is not None and self._data is None:
+        if self.encodedDataBytes is not None:
+            # still valid after decompress(), which does not change the data
             recordBytes[offset : offset + len(self.encodedDataBytes)] = self.encodedDataBytes
         else:
             self.packData(recordBytes, offset, self._data)
-- 
2.43.0


From 2df4b7e39cbc89edf706e3c1c6afb12f16d4984e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 29/64] fix: encoded data larger than the record is packed
 beyond its end

---
 src/simplemseed/miniseed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 2b8cd21..f66da09 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -443,6 +443,10 @@ class MiniseedRecord:
         struct.pack_into(self.header.endianChar + "H", recordBytes, 44, offset)
         if self.encodedDataBytes is not None:
             # still valid after decompress(), which does not change the data
+            if len(recordBytes) < offset + len(self.encodedDataBytes):
+                raise MiniseedException(
+                    f"not enough bytes in record to fit data: byte:{len(recordBytes):d} offset: {offset:d} len(encodedDataBytes): {len(self.encodedDataBytes):d}  enc:{self.header.encoding:d}"
+                )
             recordBytes[offset : offset + len(self.encodedDataBytes)] = self.encodedDataBytes
         else:
             self.packData(recordBytes, offset, self._data)
-- 
2.43.0


From 43f0aa862942407d706d63fd589dd97e313b2937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:12 +0000
Subject: [PATCH 30/64] fix: codes too long for miniseed2 are silently
 truncated

---
 src/simplemseed/miniseed.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index f66da09..e55e3c7 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -165,6 +165,16 @@ class MiniseedHeader:
         loc = self.location.ljust(2).encode("UTF-8")
         chan = self.channel.ljust(3).encode("UTF-8")
         seq = ("%06d" % self.sequence_number).encode("UTF-8")
+        if (
+            len(net) > 2
+            or len(sta) > 5
+            or len(loc) > 2
+            or len(chan) > 3
+            or len(seq) > 6
+        ):
+            raise MiniseedException(
+                f"codes or sequence number too long for miniseed2: {self.codes()} {self.sequence_number}"
+            )
         struct.pack_into(
             self.endianChar + "6scc5s2s3s2s",
             header,
-- 
2.43.0


From 8d5de5c3e4f69e544de6da9985da6177c3434be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:00 +0000
Subject: [PATCH 31/64] fix: list of non-integer values is silently truncated
 for an integer miniseed2 encoding

---
 src/simplemseed/miniseed.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index e55e3c7..362667c 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -362,6 +362,9 @@ class MiniseedRecord:
             else:
                 encoding = self.header.encoding
             self._data = np.array(data, dtype=numpyDTFromMseed3Encoding(encoding))
+            if np.issubdtype(self._data.dtype, np.integer) \
+                    and not np.array_equal(self._data, np.array(data)):
+                raise MiniseedException(f"values in list are not integers, cannot use encoding {encoding}")
             encoding = mseed3EncodingFromNumpyDT(self._data.dtype)
             numSamples = len(self._data)
             byteorder = LITTLE_ENDIAN if sys.byteorder == "little" else BIG_ENDIAN
-- 
2.43.0


From 4574d0556bb432e781ad53a8b7fe1d61947bd8c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:00 +0000
Subject: [PATCH 32/64] fix: sample rates above 32766 or periods above 32765
 are lost in factor and multiplier

---
 src/simplemseed/miniseed.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 362667c..7b8268a 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -220,6 +220,14 @@ class MiniseedHeader:
         if self.sampleRate == 0:
             factor = 0
             divisor = 0
+        elif self.sampleRate > SHORT_MAX_VALUE - 1:
+            # too large for factor alone, both positive
+            divisor = math.ceil(self.sampleRate / (SHORT_MAX_VALUE - 1))
+            factor = round(self.sampleRate / divisor)
+        elif self.sampleRate * (SHORT_MAX_VALUE - 2) < 1:
+            # period too large for factor alone, both negative
+            divisor = -1 * math.ceil(1 / self.sampleRate / (SHORT_MAX_VALUE - 1))
+            factor = round(1 / self.sampleRate / divisor)
         elif self.sampleRate >= 1:
             # don't get too close to the max for a short, use ceil as neg
             divisor = math.ceil((SHORT_MIN_VALUE + 2) / self.sampleRate)
-- 
2.43.0


From 625be9b5b88d3362d5721612a5e3ea3fb9c04001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 33/64] fix: steim data after more than 16 bytes of blockettes
 is not at a multiple of 64

---
 src/simplemseed/miniseed.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 7b8268a..3d8f664 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -459,8 +459,9 @@ class MiniseedRecord:
             lastOffset, offset = offset, nextOffset
         struct.pack_into(self.header.endianChar + "H", recordBytes, lastOffset + 2, 0)
         # set offset to data in header
-        if self.header.encoding in (STEIM1, STEIM2) and offset < 64:
-            offset = 64
+        if self.header.encoding in (STEIM1, STEIM2):
+            # steim frames start at a multiple of 64
+            offset = math.ceil(offset / 64) * 64
         struct.pack_into(self.header.endianChar + "H", recordBytes, 44, offset)
         if self.encodedDataBytes is not None:
             # still valid after decompress(), which does not change the data
-- 
2.43.0


From 14f04296b64297b5d55666933b3e8c154ee492da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:13 +0000
Subject: [PATCH 34/64] fix: setSampleRate() does not change factor and
 multiplier of a record that was read

---
 src/simplemseed/miniseed.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 3d8f664..9dd07f0 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -261,6 +261,9 @@ class MiniseedHeader:
 
     def setSampleRate(self, sampleRate):
         self.sampleRate = sampleRate
+        # old factor and multiplier no longer apply, recalc on pack
+        self.sampRateFactor = 0
+        self.sampRateMult = 0
         if self.sampleRate == 0:
             self.sampPeriod = timedelta(
                 microseconds=0
@@ -829,7 +832,10 @@ def readMiniseed2Records(fileptr, matchsid=None):
                         header.recordLength = 2**header.recordLengthExp
                         foundB1000 = b
                     elif type(b).__name__ == "Blockette100":
+                        factor, mult = header.sampRateFactor, header.sampRateMult
                         header.setSampleRate(b.sampleRate)
+                        # keep as read, b100 is just more precise
+                        header.sampRateFactor, header.sampRateMult = factor, mult
                     elif type(b).__name__ == "Blockette1001":
                         header.starttime += timedelta(microseconds=b.microseconds)
                     prevBOffset += len(blocketteBytes)
-- 
2.43.0


From 9e7d3759c5386b7ff4fbb517c6d663b507db6766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:13 +0000
Subject: [PATCH 35/64] fix: endtime() and next_starttime() accumulate rounding
 of the sample period to microseconds

---
 src/simplemseed/miniseed.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 9dd07f0..1991445 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -423,10 +423,16 @@ class MiniseedRecord:
         return self.header.starttime
 
     def endtime(self):
-        return self.starttime() + self.header.sampPeriod * (self.header.numSamples - 1)
+        return self._timeOfSample(self.header.numSamples - 1)
 
     def next_starttime(self):
-        return self.starttime() + self.header.sampPeriod * (self.header.numSamples)
+        return self._timeOfSample(self.header.numSamples)
+
+    def _timeOfSample(self, num):
+        if self.header.sampleRate == 0:
+            return self.starttime()
+        # not via sampPeriod, as that is rounded to microseconds
+        return self.starttime() + timedelta(microseconds=num * MICRO / self.header.sampleRate)
 
     def clone(self):
         return unpackMiniseedRecord(self.pack())
-- 
2.43.0


From c29797d2025b2487396c0093f5fdca6cc9082bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:35 +0000
Subject: [PATCH 36/64] fix: blockette cannot be added to a record that was
 read

---
 src/simplemseed/miniseed.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 1991445..62db2f6 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -15,6 +15,7 @@ from .exceptions import (
 from .seedcodec import (
     decompress,
     encode,
+    isPrimitiveCompression,
     mseed3EncodingFromArrayTypecode,
     mseed3EncodingFromNumpyDT,
     EncodedDataSegment,
@@ -474,15 +475,28 @@ class MiniseedRecord:
         struct.pack_into(self.header.endianChar + "H", recordBytes, 44, offset)
         if self.encodedDataBytes is not None:
             # still valid after decompress(), which does not change the data
-            if len(recordBytes) < offset + len(self.encodedDataBytes):
+            if len(recordBytes) < offset + self._usedEncodedLength():
                 raise MiniseedException(
                     f"not enough bytes in record to fit data: byte:{len(recordBytes):d} offset: {offset:d} len(encodedDataBytes): {len(self.encodedDataBytes):d}  enc:{self.header.encoding:d}"
                 )
-            recordBytes[offset : offset + len(self.encodedDataBytes)] = self.encodedDataBytes
+            encoded = self.encodedDataBytes[: len(recordBytes) - offset]
+            recordBytes[offset : offset + len(encoded)] = encoded
         else:
             self.packData(recordBytes, offset, self._data)
         return recordBytes
 
+    def _usedEncodedLength(self):
+        """
+        Length of encoded bytes without the padding at the end, as a record
+        that was read has all bytes up to the end of the record.
+        """
+        if isPrimitiveCompression(self.header.encoding):
+            itemsize = np.dtype(numpyDTFromMseed3Encoding(self.header.encoding)).itemsize
+            return self.header.numSamples * itemsize
+        if self.header.encoding in (STEIM1, STEIM2) or self.header.numSamples == 0:
+            return len(bytes(self.encodedDataBytes).rstrip(b"\0"))
+        return len(self.encodedDataBytes)
+
     def packBlockette(self, recordBytes, offset, b):
         if type(b).__name__ == "Blockette100":
             return self.packB100(recordBytes, offset, b)
-- 
2.43.0


From ac08f32bf8ef1571ece512af585874df1a4fc049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:35 +0000
Subject: [PATCH 37/64] fix: unknown blockette too large for the record is
 packed beyond its end

---
 src/simplemseed/miniseed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 62db2f6..4e7f216 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -468,6 +468,10 @@ class MiniseedRecord:
             )
             lastOffset, offset = offset, nextOffset
         struct.pack_into(self.header.endianChar + "H", recordBytes, lastOffset + 2, 0)
+        if offset > self.header.recordLength:
+            raise MiniseedException(
+                f"not enough bytes in record to fit blockettes: byte:{self.header.recordLength:d} offset: {offset:d}"
+            )
         # set offset to data in header
         if self.header.encoding in (STEIM1, STEIM2):
             # steim frames start at a multiple of 64
-- 
2.43.0


From dcab41adf640079ce7e6180df78d0214afeabc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:23 +0000
Subject: [PATCH 38/64] fix: conversion of uncompressed data corrupts big
 endian samples, keeps padding, fails without data

---
 src/simplemseed/mseed2to3.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 0ea4919..e6892cf 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -6,7 +6,7 @@ import sys
 from .mseed3 import MSeed3Record, MSeed3Header, UNKNOWN_PUBLICATION_VERSION
 from .miniseed import MiniseedRecord, MiniseedException, readMiniseed2Records
 from .fdsnsourceid import FDSNSourceId
-from .seedcodec import isPrimitiveCompression, BIG_ENDIAN
+from .seedcodec import isPrimitiveCompression
 from .version import VERSION
 
 
@@ -50,14 +50,14 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
 
     ms3Header.encoding = b1000.encoding
     ms3Header.publicationVersion = UNKNOWN_PUBLICATION_VERSION
-    if ms2.encodedDataBytes is not None:
-        if isPrimitiveCompression(b1000.encoding) and ms2H.byteorder == BIG_ENDIAN:
-            # need to decompress to byte swap primitive array
-            data = ms2.decompressed().byteswap()
-        else:
-            ms3Header.dataLength = len(ms2.encodedDataBytes)
-            data = ms2.encodedDataBytes
+    if ms2.encodedDataBytes is not None and not isPrimitiveCompression(b1000.encoding):
+        ms3Header.dataLength = len(ms2.encodedDataBytes)
+        data = ms2.encodedDataBytes
+    elif ms2H.numSamples == 0:
+        data = bytes(0)
     else:
+        # need to decompress to byte swap primitive array and to not take
+        # the padding at the end of the miniseed2 record as data
         data = ms2.decompressed()
     identifier = FDSNSourceId.fromNslc(
         ms2H.network, ms2H.station, ms2H.location, ms2H.channel
-- 
2.43.0


From d6c72d54407f507455f8c1d28a414f226d51b238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:23 +0000
Subject: [PATCH 39/64] fix: calibration, questionable time and clock locked
 flags are converted wrongly

---
 src/simplemseed/mseed2to3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index e6892cf..4e06352 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -19,7 +19,9 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
 
     ms2H = ms2.header
     ms3Header.flags = (
-        (ms2H.actFlag & 1) * 2 + (ms2H.ioFlag & 64) * 4 + (ms2H.qualFlag & 16) * 8
+        (1 if ms2H.actFlag & 0x01 else 0)  # calibration signals present
+        | (2 if ms2H.qualFlag & 0x80 else 0)  # time tag is questionable
+        | (4 if ms2H.ioFlag & 0x20 else 0)  # clock locked
     )
     ms3Header.publicationVersion = 0
 
-- 
2.43.0


From 6d97dc1235ff4117a70f909b5887037bea03a008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:55 +0000
Subject: [PATCH 40/64] fix: conversion drops or misplaces microseconds of the
 start time

---
 src/simplemseed/mseed2to3.py | 35 +++++++++--------------------------
 1 file changed, 9 insertions(+), 26 deletions(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 4e06352..6c55d5e 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -25,12 +25,15 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
     )
     ms3Header.publicationVersion = 0
 
-    ms3Header.year = ms2H.btime.year
-    ms3Header.dayOfYear = ms2H.btime.yday
-    ms3Header.hour = ms2H.btime.hour
-    ms3Header.minute = ms2H.btime.minute
-    ms3Header.second = ms2H.btime.second
-    ms3Header.nanosecond = ms2H.btime.tenthMilli * 100000
+    # includes microseconds from blockette 1001
+    ms3Header.starttime = ms2H.starttime
+    if ms2H.btime.second == 60 and ms2H.starttime.second == 0:
+        # keep leap second
+        ms3Header.year = ms2H.btime.year
+        ms3Header.dayOfYear = ms2H.btime.yday
+        ms3Header.hour = ms2H.btime.hour
+        ms3Header.minute = ms2H.btime.minute
+        ms3Header.second = ms2H.btime.second
     if ms2.header.sampleRate == 0:
         ms3Header.sampleRatePeriod = 0
     else:
@@ -70,7 +73,6 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
     if ms2H.dataquality != 0 and ms2H.dataquality != "D":
         fdsnExtras["DataQuality"] = ms2H.dataquality
         ms3Extras["FDSN"] = fdsnExtras
-    nanos = 0
     for b in ms2.blockettes:
         if b.blocketteNum == 100:
             ms3Header.sampleRatePeriod = b.sampleRate
@@ -78,31 +80,12 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
             if "Time" not in fdsnExtras:
                 fdsnExtras["Time"] = {}
             fdsnExtras["Time"]["Quality"] = b.timeQuality
-            nanos = 1000 * b.microseconds
 
     if ms2H.btime.second == 60:
         if "Time" not in fdsnExtras:
             fdsnExtras["Time"] = {}
         fdsnExtras["Time"]["LeapSecond"] = 1
 
-    ms3Header.nanosecond += nanos
-    if ms3Header.nanosecond < 0:
-        ms3Header.second -= 1
-        ms3Header.nanosecond += 1000000000
-        if ms3Header.second < 0:
-            # might be wrong for leap seconds
-            ms3Header.second += 60
-            ms3Header.minute -= 1
-            if ms3Header.minute < 0:
-                ms3Header.minute += 60
-                ms3Header.hour -= 1
-                if ms3Header.hour < 0:
-                    ms3Header.hour += 24
-                    ms3Header.dayOfYear = -1
-                    if ms3Header.dayOfYear < 0:
-                        # wrong for leap years
-                        ms3Header.year -= 1
-                        ms3Header.dayOfYear += 365 if ms3Header.year % 4 != 0 else 366
     if len(fdsnExtras) > 0:
         ms3Extras["FDSN"] = fdsnExtras
     if len(ms3Extras) == 0:
-- 
2.43.0


From d20c7c5a9b182f2ffe15dd5c1686ed9cab4ce4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:55 +0000
Subject: [PATCH 41/64] fix: mseed2to3 command fails as there is no
 args.version

---
 src/simplemseed/mseed2to3.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 6c55d5e..e323e6d 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -130,9 +130,6 @@ def do_parseargs():
 def main():
 
     args = do_parseargs()
-    if args.version:
-        print(f"mseed2to3 Version {VERSION}")
-        return 0
     bytesWritten = 0
     with args.ms2 as inms2:
         with args.ms3 as outms3:
-- 
2.43.0


From 25cccd3142e1bf4a45e139085bd28c404ebe47c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:04 +0000
Subject: [PATCH 42/64] fix: location code None of a channel source id is
 printed as text None

---
 src/simplemseed/fdsnsourceid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index d214a5e..14fa38c 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -148,6 +148,8 @@ class FDSNSourceId:
             self.networkCode = networkCode.networkCode
         else:
             self.networkCode = networkCode
+        if locationCode is None:
+            locationCode = ""
         self.stationCode = stationCode
         self.locationCode = locationCode
         self.bandCode = bandCode
-- 
2.43.0


From e8d3fc3f293380e4d50ecc43cc844d2893b1c679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:04 +0000
Subject: [PATCH 43/64] fix: channel codes with empty band or too many parts
 are misread, extended ones cannot be parsed with separator _

---
 src/simplemseed/fdsnsourceid.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index 14fa38c..830e6ff 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -228,21 +228,18 @@ class FDSNSourceId:
         Optionally give the start year of the network, which will be appended
         if it is a SEED-style temporary network like XD.
         """
-        if len(channelCode) == 3:
+        items = channelCode.split(SEP)
+        if len(items) == 1 and len(channelCode) == 3:
             band = channelCode[0]
             source = channelCode[1]
             subsource = channelCode[2]
+        elif len(items) == 3 and len(items[0]) <= 1 and len(items[1]) > 0:
+            # band and subsource may be empty
+            band, source, subsource = items
         else:
-            b_s_ss = r"(\w)_(\w+)_(\w*)"
-            match = re.match(b_s_ss, channelCode)
-            if match:
-                band = match[1]
-                source = match[2]
-                subsource = match[3]
-            else:
-                raise FDSNSourceIdException(
-                    f"channel code must be length 3 or have 3 items separated by '{SEP}', first len 1, last may be missing: {channelCode}"
-                )
+            raise FDSNSourceIdException(
+                f"channel code must be length 3 or have 3 items separated by '{SEP}', first at most len 1, first and last may be empty: {channelCode}"
+            )
         netId = NetworkSourceId(net, startYear)
 
         return FDSNSourceId(netId, sta, loc, band, source, subsource)
@@ -255,7 +252,10 @@ class FDSNSourceId:
         separator, which defaults to a dot, '.'.
         """
         items = nslc.split(sep)
-        if len(items) < 4:
+        if sep == SEP and len(items) == 6:
+            # extended channel code itself contains the separator
+            items = items[:3] + [SEP.join(items[3:])]
+        if len(items) != 4:
             raise FDSNSourceIdException(
                 f"channel nslc must have 4 items separated by '{sep}': {nslc}"
             )
-- 
2.43.0


From a0b4f364aaa6448017196ffb28edf533b7656ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:55 +0000
Subject: [PATCH 44/64] fix: digits of other scripts are accepted as valid
 codes and years

---
 src/simplemseed/fdsnsourceid.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index 830e6ff..0ea25ed 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -14,29 +14,29 @@ from .version import VERSION
 
 
 
-TEMP_NET_SEED = re.compile(r"[\dXYZ][A-Z\d]")
+TEMP_NET_SEED = re.compile(r"[\dXYZ][A-Z\d]", re.ASCII)
 """
 Older SEED style temp networks, like XD. Starts with XYZ or a digit.
 """
 
-TEMP_NET_MAPPING = re.compile(r"[\dXYZ][A-Z\d]\d{4}")
+TEMP_NET_MAPPING = re.compile(r"[\dXYZ][A-Z\d]\d{4}", re.ASCII)
 """
 Mapping of older SEED style temp networks to include start year,
 like XD maps to XD1994. Starts with XYZ or a digit and ends with 4 digit year.
 """
 
-TEMP_NET_CONVENTION = re.compile(r"[A-Z\d]{1,4}\d{4}")
+TEMP_NET_CONVENTION = re.compile(r"[A-Z\d]{1,4}\d{4}", re.ASCII)
 """
 Network codes for temporary networks convention, ends with 4 digit year.
 """
 
-NET_VALID = re.compile(r"[A-Z\d]{1,8}")
+NET_VALID = re.compile(r"[A-Z\d]{1,8}", re.ASCII)
 "Regular expression for network code"
-STATION_VALID = re.compile(r"[A-Z\d-]{1,8}")
+STATION_VALID = re.compile(r"[A-Z\d-]{1,8}", re.ASCII)
 "Regular expression for station code"
-LOCATION_VALID = re.compile(r"[A-Z\d-]{0,8}")
+LOCATION_VALID = re.compile(r"[A-Z\d-]{0,8}", re.ASCII)
 "Regular expression for location code"
-SOURCE_SUBSOURCE_VALID = re.compile(r"[A-Z\d]+") # current spec has no length restrictions
+SOURCE_SUBSOURCE_VALID = re.compile(r"[A-Z\d]+", re.ASCII) # current spec has no length restrictions
 "Regular expression for source and subsource codes"
 
 FDSN_PREFIX = "FDSN:"
-- 
2.43.0


From 85aaabddeac417032a61bfed8970a83220ca2382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:43 +0000
Subject: [PATCH 45/64] fix: response down to exactly 10 seconds is broadband

---
 src/simplemseed/fdsnsourceid.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index 0ea25ed..072a8c5 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -562,19 +562,19 @@ def bandCodeForRate(
     if sampRate >= 5000:
         return "J"
     if 1000 <= sampRate < 5000:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "F"
         return "G"
     if 250 <= sampRate < 1000:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "C"
         return "D"
     if 80 <= sampRate < 250:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "H"
         return "E"
     if 10 <= sampRate < 80:
-        if respHz is not None and respHz < 0.1:
+        if respHz is not None and respHz <= 0.1:
             return "B"
         return "S"
     if 1 < sampRate < 10:
-- 
2.43.0


From b35940a25a85beaf80d57d0445cd07656e17bf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:42 +0000
Subject: [PATCH 46/64] fix: set with match removes records that do not match
 from the file

---
 src/simplemseed/mseed3details.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index 27616a5..68803c7 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -4,6 +4,7 @@ import argparse
 from datetime import datetime
 import json
 import os
+import re
 import sys
 from jsonpointer import set_pointer, JsonPointer, JsonPointerException
 from .mseed3 import readMSeed3Records
@@ -109,14 +110,18 @@ def do_set_eh(setptr, setval, ms3files, matchsid=None, setall=False, verbose=Fal
     looking = True
     setjson = json.loads(setval)
     now = datetime.utcnow().strftime("%Y%m%dT%H%M%S.%f")
+    matchPat = re.compile(matchsid) if matchsid is not None else None
     # empty or "/" mean replace all extra headers
     usePointer = len(setptr) > 1
     for ms3file in ms3files:
         tmpfile = f"{ms3file}_tmp{now}"
         with open(tmpfile, "wb") as fp:
             with open(ms3file, "rb") as inms3file:
-                for ms3 in readMSeed3Records(inms3file, matchsid=matchsid):
-                    if looking or setall:
+                # read all, as records that do not match are kept in the file
+                for ms3 in readMSeed3Records(inms3file):
+                    if (looking or setall) and (
+                        matchPat is None or matchPat.search(ms3.identifier) is not None
+                    ):
                         looking = False
                         # only set in first record
                         if usePointer:
-- 
2.43.0


From e205c81ec839be38f482b22c2c5cb29f843b9c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:42 +0000
Subject: [PATCH 47/64] fix: set of all extra headers is never stored

---
 src/simplemseed/mseed3details.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index 68803c7..e0b9711 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -112,7 +112,7 @@ def do_set_eh(setptr, setval, ms3files, matchsid=None, setall=False, verbose=Fal
     now = datetime.utcnow().strftime("%Y%m%dT%H%M%S.%f")
     matchPat = re.compile(matchsid) if matchsid is not None else None
     # empty or "/" mean replace all extra headers
-    usePointer = len(setptr) > 1
+    usePointer = setptr not in ("", "/")
     for ms3file in ms3files:
         tmpfile = f"{ms3file}_tmp{now}"
         with open(tmpfile, "wb") as fp:
@@ -129,6 +129,7 @@ def do_set_eh(setptr, setval, ms3files, matchsid=None, setall=False, verbose=Fal
                         else:
                             # replace all
                             ehptr = setjson
+                            ms3.eh = setjson
                         if verbose:
                             print(ms3.summary())
                             print(f"  {json.dumps(ehptr)}")
-- 
2.43.0


From a61762bf8edd0d8efdc501af6cc03a4767eb00b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:08 +0000
Subject: [PATCH 48/64] fix: extra headers that are neither dict nor str are
 silently dropped

---
 src/simplemseed/mseed3.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index cd047f4..4822750 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -555,7 +555,9 @@ class MSeed3Record:
         elif isinstance(self._eh, str):
             extraHeadersStr = self._eh
         else:
-            extraHeadersStr = ""
+            raise Miniseed3Exception(
+                f"extra headers must be a dict or json object as str, not {type(self._eh)}"
+            )
         extraHeadersBytes = extraHeadersStr.encode("UTF-8")
         self.header.extraHeadersLength = len(extraHeadersBytes)
         if self._data is None:
-- 
2.43.0


From 7c24bb2d8645f40868f83a664b3e64d76926a497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:08 +0000
Subject: [PATCH 49/64] fix: set of all extra headers to json that is not an
 object makes an invalid record

---
 src/simplemseed/mseed3details.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index e0b9711..3da6379 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -113,6 +113,8 @@ def do_set_eh(setptr, setval, ms3files, matchsid=None, setall=False, verbose=Fal
     matchPat = re.compile(matchsid) if matchsid is not None else None
     # empty or "/" mean replace all extra headers
     usePointer = setptr not in ("", "/")
+    if not usePointer and not isinstance(setjson, dict):
+        raise ValueError(f"extra headers must be a json object, not {setval}")
     for ms3file in ms3files:
         tmpfile = f"{ms3file}_tmp{now}"
         with open(tmpfile, "wb") as fp:
-- 
2.43.0


From ecd582df3e72b0263e5f8339b8fedfaeab03ae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:46 +0000
Subject: [PATCH 50/64] fix: details with data fails for records with an
 encoding that cannot be decompressed

---
 src/simplemseed/miniseed.py | 11 +++++++++--
 src/simplemseed/mseed3.py   | 10 ++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 4e7f216..2d05c8e 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -24,6 +24,7 @@ from .seedcodec import (
     LITTLE_ENDIAN,
     STEIM1, STEIM2,
     encodingName,
+    UnsupportedCompressionType,
 )
 from .fdsnsourceid import FDSNSourceId
 from .util import isoWZ
@@ -632,8 +633,14 @@ class MiniseedRecord:
         if showData:
             out = out + "data: \n"
             line = ""
-            data = self.decompress()
-            for i in range(self.header.numSamples):
+            try:
+                data = self.decompress()
+                numSamples = self.header.numSamples
+            except UnsupportedCompressionType as e:
+                # text, opaque, etc, still show header
+                out += f" not shown, {e}\n"
+                numSamples = 0
+            for i in range(numSamples):
                 line += f" {data[i]:<8}"
                 if i % 10 == 9:
                     line += "\n"
diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 4822750..5e12d8b 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -657,8 +657,14 @@ class MSeed3Record:
         if showData:
             out = out + "data: \n"
             line = ""
-            data = self.decompress()
-            for i in range(self.header.numSamples):
+            try:
+                data = self.decompress()
+                numSamples = self.header.numSamples
+            except UnsupportedCompressionType as e:
+                # text, opaque, etc, still show header
+                out += f" not shown, {e}\n"
+                numSamples = 0
+            for i in range(numSamples):
                 line += f" {data[i]:<8}"
                 if i % 10 == 9:
                     line += "\n"
-- 
2.43.0


From cf2f73d552327970e5cbad278a20cbd88dd15465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:20 +0000
Subject: [PATCH 51/64] fix: fdsnsourceid command fails for network, station
 and location source ids

---
 src/simplemseed/fdsnsourceid.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index 072a8c5..d818cb8 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -750,8 +750,14 @@ def main():
         sid = FDSNSourceId.parse(a)
         print(f"      {sid}")
         print(f"       Net: {sid.networkCode}")
+        if isinstance(sid, NetworkSourceId):
+            continue
         print(f"       Sta: {sid.stationCode}")
+        if isinstance(sid, StationSourceId):
+            continue
         print(f"       Loc: {sid.locationCode}")
+        if isinstance(sid, LocationSourceId):
+            continue
         print(f"      Band: {sid.bandCode} - {bandCodeDescribe(sid.bandCode)}")
         print(f"    Source: {sid.sourceCode} - {sourceCodeDescribe(sid.sourceCode)}")
         print(f" Subsource: {sid.subsourceCode}")
-- 
2.43.0


From 33f78721f975744d86e908ff024dd7a06d08e50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:36 +0000
Subject: [PATCH 52/64] fix: fdsnsourceid command fails for codes that are not
 in the tables

---
 src/simplemseed/fdsnsourceid.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/simplemseed/fdsnsourceid.py b/src/simplemseed/fdsnsourceid.py
index d818cb8..3bd1444 100644
--- a/src/simplemseed/fdsnsourceid.py
+++ b/src/simplemseed/fdsnsourceid.py
@@ -717,6 +717,14 @@ def _do_parseargs():
     return args
 
 
+def _describeOrUnknown(describe, code: str) -> str:
+    """Description of a band or source code, may be valid but not be in the table."""
+    try:
+        return describe(code)
+    except KeyError:
+        return "unknown code"
+
+
 def main():
     args = _do_parseargs()
 
@@ -735,7 +743,7 @@ def main():
         for bands in args.band:
             # in case no space between arg chars
             for bandCode in bands:
-                print(f"      Band: {bandCode} - {bandCodeDescribe(bandCode)}")
+                print(f"      Band: {bandCode} - {_describeOrUnknown(bandCodeDescribe, bandCode)}")
 
     if args.allsources:
         for sourceCode in SOURCE_CODE_JSON:
@@ -743,8 +751,9 @@ def main():
 
     if args.source is not None:
         for sourceCode in args.source:
-            print(f"    Source: {sourceCode} - {sourceCodeDescribe(sourceCode)}")
-            print(f"       {SOURCE_CODE_JSON[sourceCode]['desc']}")
+            print(f"    Source: {sourceCode} - {_describeOrUnknown(sourceCodeDescribe, sourceCode)}")
+            if sourceCode in SOURCE_CODE_JSON:
+                print(f"       {SOURCE_CODE_JSON[sourceCode]['desc']}")
 
     for a in args.sid:
         sid = FDSNSourceId.parse(a)
@@ -758,8 +767,8 @@ def main():
         print(f"       Loc: {sid.locationCode}")
         if isinstance(sid, LocationSourceId):
             continue
-        print(f"      Band: {sid.bandCode} - {bandCodeDescribe(sid.bandCode)}")
-        print(f"    Source: {sid.sourceCode} - {sourceCodeDescribe(sid.sourceCode)}")
+        print(f"      Band: {sid.bandCode} - {_describeOrUnknown(bandCodeDescribe, sid.bandCode)}")
+        print(f"    Source: {sid.sourceCode} - {_describeOrUnknown(sourceCodeDescribe, sid.sourceCode)}")
         print(f" Subsource: {sid.subsourceCode}")
 
 
-- 
2.43.0


From 5f0d5646063466be5b4c6435704e48bb17ecf653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:07 +0000
Subject: [PATCH 53/64] fix: unpackMiniseedRecord of too few bytes raises
 StopIteration

---
 src/simplemseed/miniseed.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 2d05c8e..e2e0791 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -791,7 +791,11 @@ def unpackFixedHeaderGuessByteOrder(recordBytes):
 def unpackMiniseedRecord(recordBytes):
     f = io.BytesIO(recordBytes)
     # just send first msr
-    return next(readMiniseed2Records(f))
+    for msr in readMiniseed2Records(f):
+        return msr
+    raise MiniseedException(
+        f"Not enough bytes for header: {len(recordBytes):d}"
+    )
 
 
 def decompressEncodedData(encoding, byteorder, numSamples, recordBytes):
-- 
2.43.0


From 18d90ec68e541ddb4f66ce25044df82e4fee3529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:50 +0000
Subject: [PATCH 54/64] fix: miniseed2 record with offsets beyond its length
 swallows the rest of the file

---
 src/simplemseed/miniseed.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index e2e0791..672136d 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -851,6 +851,10 @@ def readMiniseed2Records(fileptr, matchsid=None):
                         numBytesToRead = header.dataOffset-prevBOffset-4
                     else:
                         numBytesToRead = header.recordLength-prevBOffset-4
+                    if numBytesToRead < 0:
+                        raise MiniseedException(
+                            f"blockette {blocketteNum:d} at {prevBOffset:d} goes past its end, next: {blocketteNextOffset:d} dataOffset: {header.dataOffset:d} rec len: {header.recordLength:d}"
+                        )
                     blocketteBytes = blocketteFourBytes + fileptr.read(numBytesToRead)
                     b = unpackBlockette(
                         blocketteBytes,
@@ -880,6 +884,10 @@ def readMiniseed2Records(fileptr, matchsid=None):
                         f"Unable to unpack blockette, fail codes: {header.codes()} start: {header.starttime} {e}"
                     )
                     raise
+        if max(numRecBytesRead, header.dataOffset) > header.recordLength:
+            raise MiniseedException(
+                f"header or dataOffset goes past end of record: {numRecBytesRead:d} dataOffset: {header.dataOffset:d} rec len: {header.recordLength:d}"
+            )
         encodedDataBytes = None
         if header.dataOffset > 0:
             if header.dataOffset < numRecBytesRead:
-- 
2.43.0


From 4c6c1943da796162db43e562db3260161e47ceb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 55/64] fix: truncated miniseed3 record is returned when its
 crc is not checked or fits what is left

---
 src/simplemseed/mseed3.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index 5e12d8b..f42b952 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -726,6 +726,10 @@ def unpackMSeed3Record(recordBytes, check_crc=True):
     """
     crc = 0
     ms3header = unpackMSeed3FixedHeader(recordBytes)
+    if len(recordBytes) < ms3header.recordSize():
+        raise Miniseed3Exception(
+            f"Not enough bytes for record: {len(recordBytes)} < {ms3header.recordSize()}"
+        )
     if check_crc:
         tempBytes = bytearray(recordBytes[:FIXED_HEADER_SIZE])
         struct.pack_into("<I", tempBytes, CRC_OFFSET, 0)
@@ -796,6 +800,11 @@ def readMSeed3Records(
                 crc = crc32c.crc32c(ehBytes, crc)
             extraHeadersStr = ehBytes.decode("utf-8")
             encodedDataBytes = fileptr.read(ms3header.dataLength)
+            recSize = len(headBytes) + len(identifierBytes) + len(ehBytes) + len(encodedDataBytes)
+            if recSize < ms3header.recordSize():
+                raise Miniseed3Exception(
+                    f"Not enough bytes for record: {recSize} < {ms3header.recordSize()}"
+                )
             if check_crc:
                 crc = crc32c.crc32c(encodedDataBytes, crc)
                 if ms3header.crc != crc:
-- 
2.43.0


From 6e73623b211642d6618f20c2d89ad9dfb0479bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:19 +0000
Subject: [PATCH 56/64] fix: miniseed2 record of 65536 bytes that is filled by
 its last blockette cannot be packed

---
 src/simplemseed/miniseed.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 672136d..10c432c 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -444,6 +444,7 @@ class MiniseedRecord:
         recordBytes[0:48] = self.header.pack()
 
         offset = 48
+        lastOffset = 0
         struct.pack_into(self.header.endianChar + "H", recordBytes, 46, offset)
         hasB1000 = False
         for b in self.blockettes:
@@ -463,12 +464,13 @@ class MiniseedRecord:
                     self.header.starttime - timedelta(microseconds=b.microseconds)
                 )
             nextOffset = self.packBlockette(recordBytes, offset, b)
-            # offset to next blockette, last one is zero, set below
-            struct.pack_into(
-                self.header.endianChar + "H", recordBytes, offset + 2, nextOffset
-            )
+            # offset to next blockette, zero until there is a next one
+            struct.pack_into(self.header.endianChar + "H", recordBytes, offset + 2, 0)
+            if lastOffset > 0:
+                struct.pack_into(
+                    self.header.endianChar + "H", recordBytes, lastOffset + 2, offset
+                )
             lastOffset, offset = offset, nextOffset
-        struct.pack_into(self.header.endianChar + "H", recordBytes, lastOffset + 2, 0)
         if offset > self.header.recordLength:
             raise MiniseedException(
                 f"not enough bytes in record to fit blockettes: byte:{self.header.recordLength:d} offset: {offset:d}"
@@ -477,7 +479,11 @@ class MiniseedRecord:
         if self.header.encoding in (STEIM1, STEIM2):
             # steim frames start at a multiple of 64
             offset = math.ceil(offset / 64) * 64
-        struct.pack_into(self.header.endianChar + "H", recordBytes, 44, offset)
+        struct.pack_into(
+            self.header.endianChar + "H", recordBytes, 44,
+            # zero is no data, as when blockettes fill the record
+            0 if offset == self.header.recordLength and self.header.numSamples == 0 else offset
+        )
         if self.encodedDataBytes is not None:
             # still valid after decompress(), which does not change the data
             if len(recordBytes) < offset + self._usedEncodedLength():
-- 
2.43.0


From 961faccbe7da49b998c80e52c2ba7266dc3e11ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:02 +0000
Subject: [PATCH 57/64] fix: looking at extra headers changes the bytes the
 record packs to

---
 src/simplemseed/mseed3.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/simplemseed/mseed3.py b/src/simplemseed/mseed3.py
index f42b952..373c5da 100644
--- a/src/simplemseed/mseed3.py
+++ b/src/simplemseed/mseed3.py
@@ -319,6 +319,7 @@ class MSeed3Record:
     header: MSeed3Header
     identifier: Union[FDSNSourceId, str]
     _eh: Union[str, dict, None]
+    _ehStr: Optional[str]
     _data: Optional[Union[np.ndarray, array, list[int], list[float]]]
 
     def __init__(
@@ -331,6 +332,7 @@ class MSeed3Record:
         self.header = header
         self.identifier = identifier
         self._eh = extraHeaders
+        self._ehStr = None
         self._internal_set_data(data)
 
     def _internal_set_data(self, data):
@@ -411,15 +413,19 @@ class MSeed3Record:
     def eh(self):
         """ Extra headers, from json."""
         if self._eh is not None and isinstance(self._eh, str):
+            ehStr = self._eh
             if len(self._eh) > 0:
                 self._eh = json.loads(self._eh)
             else:
                 self._eh = {}
+            # looking is not changing, see pack()
+            self._ehStr = ehStr
         return self._eh
 
     @eh.setter
     def eh(self, ehDict):
         self._eh = ehDict
+        self._ehStr = None
         if self._eh is not None and isinstance(self._eh, str):
             self.header.extraHeadersLength = len(self._eh.encode("UTF-8"))
         else:
@@ -428,6 +434,7 @@ class MSeed3Record:
     @eh.deleter
     def eh(self):
         self._eh = None
+        self._ehStr = None
         self.header.extraHeadersLength = 0
 
     def parseIdentifier(self) -> FDSNSourceId:
@@ -552,6 +559,11 @@ class MSeed3Record:
             extraHeadersStr = ""
         elif isinstance(self._eh, dict):
             extraHeadersStr = json.dumps(self._eh)
+            if self._ehStr is not None and extraHeadersStr == json.dumps(
+                json.loads(self._ehStr) if len(self._ehStr) > 0 else {}
+            ):
+                # not changed since parsed, so keep as it was
+                extraHeadersStr = self._ehStr
         elif isinstance(self._eh, str):
             extraHeadersStr = self._eh
         else:
-- 
2.43.0


From 1c2e4a1b494e7b1c26c9eefa3120923a5a6b289b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:02 +0000
Subject: [PATCH 58/64] fix: mseed3merge erases its input when it is named as
 output, too

---
 src/simplemseed/mseed3merge.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simplemseed/mseed3merge.py b/src/simplemseed/mseed3merge.py
index b156673..7824ea8 100644
--- a/src/simplemseed/mseed3merge.py
+++ b/src/simplemseed/mseed3merge.py
@@ -6,6 +6,7 @@ records for merging.
 """
 
 import argparse
+import os
 import sys
 from .mseed3 import readMSeed3Records
 from .version import VERSION
@@ -43,6 +44,9 @@ def do_parseargs():
 def main():
     "main function"
     args = do_parseargs()
+    if os.path.exists(args.outfile) and os.path.samefile(args.outfile, args.ms3file):
+        # opening for output would erase the input
+        raise ValueError(f"output file must not be the input file: {args.outfile}")
     with open(args.outfile, "wb") as outms3file:
         with open(args.ms3file, "rb") as inms3file:
             for ms3 in readMSeed3Records(inms3file, merge=True, verbose=args.verbose):
-- 
2.43.0


From 180f5a8db7c09c4d57f65800bf5c1c5c4991189c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:02 +0000
Subject: [PATCH 59/64] fix: mseed2to3 erases its input when it is named as
 output, too

---
 src/simplemseed/mseed2to3.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index e323e6d..437d669 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -1,6 +1,7 @@
 
 import argparse
 import json
+import os
 import sys
 
 from .mseed3 import MSeed3Record, MSeed3Header, UNKNOWN_PUBLICATION_VERSION
@@ -122,7 +123,6 @@ def do_parseargs():
         "--ms3",
         required=True,
         help="mseed3 file",
-        type=argparse.FileType("wb"),
     )
     return parser.parse_args()
 
@@ -132,7 +132,10 @@ def main():
     args = do_parseargs()
     bytesWritten = 0
     with args.ms2 as inms2:
-        with args.ms3 as outms3:
+        if os.path.exists(args.ms3) and os.path.samestat(os.fstat(inms2.fileno()), os.stat(args.ms3)):
+            # opening for output would erase the input
+            raise MiniseedException(f"mseed3 file must not be the miniseed2 file: {args.ms3}")
+        with argparse.FileType("wb")(args.ms3) as outms3:
             for ms2rec in readMiniseed2Records(inms2):
                 ms3rec = mseed2to3(ms2rec)
                 outBytes = ms3rec.pack()
-- 
2.43.0


From c63a37463748eac2538e8e16c69964e44e535e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:02 +0000
Subject: [PATCH 60/64] fix: mseed3details erases an input file when it is
 named as output, too

---
 src/simplemseed/mseed3details.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed3details.py b/src/simplemseed/mseed3details.py
index 3da6379..5462b9a 100644
--- a/src/simplemseed/mseed3details.py
+++ b/src/simplemseed/mseed3details.py
@@ -34,7 +34,6 @@ def do_parseargs():
     parser.add_argument(
         "-o",
         "--outfile",
-        type=argparse.FileType("w", encoding="UTF-8"),
         help="""output to file. For get, the output will be json, but for
         getall it will be jsonl, with a separate json object on each line.
         If a record does not have extra headers, a blank line will be output.
@@ -147,7 +146,11 @@ def do_details():
     totSamples = 0
     numRecords = 0
     if args.outfile is not None:
-        outfile = args.outfile
+        for ms3file in args.ms3files:
+            if os.path.exists(args.outfile) and os.path.samefile(args.outfile, ms3file):
+                # opening for output would erase the input
+                raise ValueError(f"outfile must not be an input file: {args.outfile}")
+        outfile = argparse.FileType("w", encoding="UTF-8")(args.outfile)
     else:
         outfile = sys.stdout
     if args.get is not None:
-- 
2.43.0


From 94f8dd3a0da4e7a96c31dbd12c75fe8cef48b05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 61/64] fix: miniseed2 record without samples cannot be packed
 when its blockettes go past 65535 bytes

---
 src/simplemseed/miniseed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index 10c432c..b9af6b2 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -481,8 +481,8 @@ class MiniseedRecord:
             offset = math.ceil(offset / 64) * 64
         struct.pack_into(
             self.header.endianChar + "H", recordBytes, 44,
-            # zero is no data, as when blockettes fill the record
-            0 if offset == self.header.recordLength and self.header.numSamples == 0 else offset
+            # zero is no data, as when blockettes fill the record or go past what the offset can hold
+            0 if offset >= min(self.header.recordLength, 65536) and self.header.numSamples == 0 else offset
         )
         if self.encodedDataBytes is not None:
             # still valid after decompress(), which does not change the data
-- 
2.43.0


From d5c368b1d07f48342a64d656102601a5cce578f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:14 +0000
Subject: [PATCH 62/64] fix: mseed2to3 takes the encoding from an out of date
 blockette 1000

---
 src/simplemseed/mseed2to3.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simplemseed/mseed2to3.py b/src/simplemseed/mseed2to3.py
index 437d669..c2624d8 100644
--- a/src/simplemseed/mseed2to3.py
+++ b/src/simplemseed/mseed2to3.py
@@ -54,9 +54,10 @@ def mseed2to3(ms2: MiniseedRecord) -> MSeed3Record:
     if b1000 is None:
         raise MiniseedException("Missing blockette 1000")
 
-    ms3Header.encoding = b1000.encoding
+    # not from b1000, as that is only updated when packed
+    ms3Header.encoding = ms2H.encoding
     ms3Header.publicationVersion = UNKNOWN_PUBLICATION_VERSION
-    if ms2.encodedDataBytes is not None and not isPrimitiveCompression(b1000.encoding):
+    if ms2.encodedDataBytes is not None and not isPrimitiveCompression(ms2H.encoding):
         ms3Header.dataLength = len(ms2.encodedDataBytes)
         data = ms2.encodedDataBytes
     elif ms2H.numSamples == 0:
-- 
2.43.0


From 9056daf5a509fb71415fecfdf055db44cdf751ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:28 +0000
Subject: [PATCH 63/64] fix: packing a miniseed2 record moves a start within a
 leap second to the next minute

---
 src/simplemseed/miniseed.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/miniseed.py b/src/simplemseed/miniseed.py
index b9af6b2..94b6440 100644
--- a/src/simplemseed/miniseed.py
+++ b/src/simplemseed/miniseed.py
@@ -249,6 +249,13 @@ class MiniseedHeader:
 
     def packBTime(self, header, time):
         tt = time.timetuple()
+        second = tt.tm_sec
+        if self.btime.second == 60:
+            before = (time - timedelta(seconds=1)).timetuple()
+            if self.btime[:5] == (before.tm_year, before.tm_yday, before.tm_hour, before.tm_min, before.tm_sec + 1):
+                # keep leap second
+                tt = before
+                second = 60
         struct.pack_into(
             self.endianChar + "HHBBBxH",
             header,
@@ -257,7 +264,7 @@ class MiniseedHeader:
             tt.tm_yday,
             tt.tm_hour,
             tt.tm_min,
-            tt.tm_sec,
+            second,
             int(time.microsecond / 100),
         )
 
-- 
2.43.0


From ae71554501e1fdaee40c94c0ec162c6b50021af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:31 +0000
Subject: [PATCH 64/64] fix: isoWZ of a time with an offset of under a minute
 is ISO text again

---
 src/simplemseed/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/simplemseed/util.py b/src/simplemseed/util.py
index 9bde0ad..535b59a 100644
--- a/src/simplemseed/util.py
+++ b/src/simplemseed/util.py
@@ -7,4 +7,6 @@ def isoWZ(time) -> str:
     Convert a datetime object to an ISO8601 string, replacing the ending
     timezone with a Z if it is +00:00.
     """
-    return time.isoformat().replace("+00:00", "Z")
+    iso = time.isoformat()
+    # only as the ending, an offset can also have seconds
+    return iso[:-6] + "Z" if iso.endswith("+00:00") else iso
-- 
2.43.0

