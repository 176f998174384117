From 8d69e19f788443144ab306d9a0b3e2f120f22cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:17 +0000
Subject: [PATCH 01/53] fix: data payload size of large fixed-length encodings
 truncated to 16 bits

msr3_data_bounds() cast the payload size to uint16_t, so the reported size of
any TEXT, INT16, INT32, FLOAT32 or FLOAT64 payload over 65535 bytes was wrong.
---
 libmseed/unpack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 06a59aa..e22d68c 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1074,7 +1074,7 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
     rawsize = msr->samplecnt * samplebytes;
 
     if (rawsize < *datasize)
-      *datasize = (uint16_t)rawsize;
+      *datasize = (uint32_t)rawsize;
   }
 
   /* If datasize is a multiple of 64-bytes and a Steim encoding, test for
-- 
2.43.0


From d0bae5adda857c51db44f0d7592ec06e29e80244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:17 +0000
Subject: [PATCH 02/53] fix: search for empty Steim frames within the data
 payload

msr3_data_bounds() tested frames relative to the start of the record instead of
the start of the payload: real frames were dropped when the bytes 64 before the
tested position happened to be zero, and padding was not removed.
---
 libmseed/unpack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index e22d68c..a4ce182 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1083,7 +1083,7 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
       (msr->encoding == DE_STEIM1 || msr->encoding == DE_STEIM2))
   {
     while (*datasize > 0 &&
-           memcmp (msr->record + (*datasize - 64), nullframe, 64) == 0)
+           memcmp (msr->record + *dataoffset + (*datasize - 64), nullframe, 64) == 0)
     {
       *datasize -= 64;
     }
-- 
2.43.0


From c2fae76d9a1693409608d6b61e6a8bcab5b8ed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:17 +0000
Subject: [PATCH 03/53] fix: keep data payload bounds within the record

msr3_data_bounds() used the string length of MS3Record.sid, which is shorter
than the identifier in the record when that contains a NULL byte, trusted the
v3 payload length, and wrapped around for a v2 data offset beyond the end of
the record.  All led to reading memory outside of the record.
---
 libmseed/unpack.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index a4ce182..d249d22 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1034,13 +1034,21 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
   /* Determine offset to data */
   if (msr->formatversion == 3)
   {
-    *dataoffset = MS3FSDH_LENGTH + (uint32_t)strlen (msr->sid) + msr->extralength;
-    *datasize = msr->datalength;
+    /* Lengths in the raw record determine the bounds, values in MS3Record may have been changed */
+    *dataoffset = MS3FSDH_LENGTH + *pMS3FSDH_SIDLENGTH (msr->record) +
+                  HO2u (*pMS3FSDH_EXTRALENGTH (msr->record), ms_bigendianhost ());
+    *datasize = HO4u (*pMS3FSDH_DATALENGTH (msr->record), ms_bigendianhost ());
+
+    if (msr->reclen < 0 || (uint64_t)*dataoffset + *datasize > (uint64_t)msr->reclen)
+    {
+      ms_log (2, "%s: Data payload extends beyond the end of record\n", msr->sid);
+      return MS_GENERROR;
+    }
   }
   else if (msr->formatversion == 2)
   {
     *dataoffset = HO2u (*pMS2FSDH_DATAOFFSET (msr->record), msr->swapflag & MSSWAP_HEADER);
-    *datasize = msr->reclen - *dataoffset;
+    *datasize = (msr->reclen > 0 && *dataoffset < (uint32_t)msr->reclen) ? msr->reclen - *dataoffset : 0;
   }
   else
   {
-- 
2.43.0


From bb93efa050c4e156eafb749a8a99d75f3950fd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:17 +0000
Subject: [PATCH 04/53] fix: do not decode more samples than the payload
 contains

ms_decode_data() only checked the size of the output buffer, a sample count
larger than the payload of a fixed sample length encoding resulted in reading
beyond the end of the input buffer.
---
 libmseed/unpack.c | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index d249d22..41f186c 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1285,6 +1285,7 @@ ms_decode_data (const void *input, uint64_t inputsize, uint8_t encoding,
                 char *sampletype, int8_t swapflag, const char *sid, int8_t verbose)
 {
   uint64_t decodedsize; /* byte size of decodeded samples */
+  uint64_t encodedsize = 0; /* byte size of encoded samples for fixed sample length encodings */
   int64_t nsamples; /* number of samples unpacked */
   uint8_t samplesize = 0; /* size of the data samples in bytes */
 
@@ -1311,6 +1312,39 @@ ms_decode_data (const void *input, uint64_t inputsize, uint8_t encoding,
     return MS_GENERROR;
   }
 
+  /* Check that input contains all samples for fixed sample length encodings */
+  switch (encoding)
+  {
+  case DE_TEXT:
+    encodedsize = samplecount;
+    break;
+  case DE_INT16:
+  case DE_GEOSCOPE163:
+  case DE_GEOSCOPE164:
+  case DE_CDSN:
+  case DE_SRO:
+  case DE_DWWSSN:
+    encodedsize = samplecount * 2;
+    break;
+  case DE_GEOSCOPE24:
+    encodedsize = samplecount * 3;
+    break;
+  case DE_INT32:
+  case DE_FLOAT32:
+    encodedsize = samplecount * 4;
+    break;
+  case DE_FLOAT64:
+    encodedsize = samplecount * 8;
+    break;
+  }
+
+  if (encodedsize > inputsize)
+  {
+    ms_log (2, "%s: Encoded data (%"PRIu64" bytes) is too small for %"PRIu64" samples\n",
+            (sid) ? sid : "", inputsize, samplecount);
+    return MS_GENERROR;
+  }
+
   /* Decode data samples according to encoding */
   switch (encoding)
   {
-- 
2.43.0


From 7f79ae08faa5540f453cacb38e0edad98bbbceec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:13 +0000
Subject: [PATCH 05/53] fix: avoid wrap around of detected miniSEED 3 record
 length

ms3_detect() summed the lengths in 32 bits, a payload length near 2^32 resulted
in detection of a small, wrong record length.
---
 libmseed/parseutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index 0ce29ec..a30e9e2 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -204,7 +204,7 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
   {
     *formatversion = 3;
 
-    reclen = MS3FSDH_LENGTH                   /* Length of fixed portion of header */
+    reclen = (int64_t)MS3FSDH_LENGTH          /* Length of fixed portion of header */
              + *pMS3FSDH_SIDLENGTH (record)   /* Length of source identifier */
              + *pMS3FSDH_EXTRALENGTH (record) /* Length of extra headers */
              + *pMS3FSDH_DATALENGTH (record); /* Length of data payload */
-- 
2.43.0


From d57a381ceb76a91e99a9019b146a651ded69f28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:13 +0000
Subject: [PATCH 06/53] fix: do not read beyond the buffer when detecting
 miniSEED 2 records

ms3_detect() read the blockette offset at bytes 46-47 of buffers as small as 40
bytes and up to 4 bytes of a blockette header beyond the end of the buffer.
---
 libmseed/parseutils.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index a30e9e2..14daf2d 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -219,12 +219,15 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
     if (!MS_ISVALIDYEARDAY (*pMS2FSDH_YEAR(record), *pMS2FSDH_DAY(record)))
       swapflag = 1;
 
-    blkt_offset = HO2u(*pMS2FSDH_BLOCKETTEOFFSET (record), swapflag);
+    /* Buffer must contain the full fixed header to follow the blockette chain */
+    blkt_offset = 0;
+    if (recbuflen >= 48)
+      blkt_offset = HO2u(*pMS2FSDH_BLOCKETTEOFFSET (record), swapflag);
 
     /* Loop through blockettes as long as number is non-zero and viable */
     while (blkt_offset != 0 &&
            blkt_offset > 47 &&
-           blkt_offset <= recbuflen)
+           (uint64_t)blkt_offset + 4 <= recbuflen)
     {
       memcpy (&blkt_type, record + blkt_offset, 2);
       memcpy (&next_blkt, record + blkt_offset + 2, 2);
-- 
2.43.0


From 6fc66743da56dd4fb196afdbba44d3fca23bd4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:13 +0000
Subject: [PATCH 07/53] fix: reject undefined record length exponents in
 Blockette 1000

ms3_detect() shifted by a value of up to 255, which is undefined beyond 63 and
wrapped around to a small record length on common hosts.
---
 libmseed/parseutils.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index 14daf2d..b80ebc1 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -242,11 +242,18 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
       if (blkt_type == 1000 &&
           (uint64_t)(blkt_offset + 8) <= recbuflen)
       {
+        if (*pMS2B1000_RECLEN (record + blkt_offset) > 62)
+        {
+          ms_log (2, "Invalid record length exponent in Blockette 1000: %d\n",
+                  *pMS2B1000_RECLEN (record + blkt_offset));
+          return -1;
+        }
+
         foundlen = 1;
 
         /* Field 3 of B1000 is a uint8_t value describing the record
          * length as 2^(value).  Calculate 2-raised with a shift. */
-        reclen = (uint64_t)1 << *pMS2B1000_RECLEN (record + blkt_offset);
+        reclen = (int64_t)1 << *pMS2B1000_RECLEN (record + blkt_offset);
 
         break;
       }
-- 
2.43.0


From d957155142e39a4cd0b8d6c49ddd1e66a5ade0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:13 +0000
Subject: [PATCH 08/53] fix: check lengths in miniSEED 3 header against record
 length

msr3_unpack_mseed3() copied the identifier and extra headers without a check
that they are within the record, reading beyond the end of a truncated record.
---
 libmseed/unpack.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 41f186c..0c8011d 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -123,6 +123,15 @@ msr3_unpack_mseed3 (const char *record, int reclen, MS3Record **ppmsr,
     return MS_GENERROR;
   }
 
+  /* Verify that all parts of the record are within the record length */
+  if ((uint64_t)MS3FSDH_LENGTH + sidlength +
+          HO2u (*pMS3FSDH_EXTRALENGTH (record), swapflag) +
+          HO4u (*pMS3FSDH_DATALENGTH (record), swapflag) > (uint64_t)reclen)
+  {
+    ms_log (2, "Record length (%d) is too short for the lengths in the record header\n", reclen);
+    return MS_WRONGLENGTH;
+  }
+
   /* Validate the CRC */
   if (flags & MSF_VALIDATECRC)
   {
-- 
2.43.0


From 4ee3028108e3ebb0384487ffd8d840b75973fc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:13 +0000
Subject: [PATCH 09/53] fix: do not read blockette headers beyond the end of
 the record

msr3_unpack_mseed2() read the 4 byte blockette header, and the length of
Blockette 2000, before checking that they are within the record.
---
 libmseed/unpack.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 0c8011d..974d175 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -421,7 +421,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
   blkt_offset = HO2u (*pMS2FSDH_BLOCKETTEOFFSET (record), msr->swapflag);
 
   while ((blkt_offset != 0) &&
-         (blkt_offset < reclen) &&
+         (blkt_offset + 4 <= reclen) &&
          (blkt_offset < MAXRECLEN))
   {
     /* Every blockette has a similar 4 byte header: type and next */
@@ -434,6 +434,13 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       ms_gswap2 (&next_blkt);
     }
 
+    /* Length of Blockette 2000 is in the 2 bytes following the blockette header */
+    if (blkt_type == 2000 && blkt_offset + 6 > reclen)
+    {
+      ms_log (2, "%s: Blockette %d extends beyond record size, truncated?\n", msr->sid, blkt_type);
+      break;
+    }
+
     /* Get blockette length */
     blkt_length = ms2_blktlen (blkt_type, record + blkt_offset, msr->swapflag);
 
-- 
2.43.0


From 78eb9f80a2d0dc7633d0f123848e183b158db272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:13 +0000
Subject: [PATCH 10/53] fix: limit miniSEED 2 record length to the bytes
 available

msr3_unpack_mseed2() replaced the record length by that of Blockette 1000 even
when larger than the record passed, so decoding read beyond the end of it, and
the data length wrapped around when the data offset is beyond the record.
---
 libmseed/unpack.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 974d175..5bd243f 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -838,15 +838,19 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       B1000offset = blkt_offset;
 
       /* Calculate record length in bytes as 2^(B1000->reclen) */
-      msr->reclen = (uint32_t)1 << *pMS2B1000_RECLEN (record + blkt_offset);
+      length = (*pMS2B1000_RECLEN (record + blkt_offset) < 31) ? 1 << *pMS2B1000_RECLEN (record + blkt_offset) : 0;
 
       /* Compare against the specified length */
-      if (msr->reclen != reclen && verbose)
+      if (length != reclen && verbose)
       {
         ms_log (1, "%s: Record length in Blockette 1000 (%d) != specified length (%d)\n",
-                msr->sid, msr->reclen, reclen);
+                msr->sid, length, reclen);
       }
 
+      /* Use length in blockette as long as it is within the specified length */
+      if (length >= MINRECLEN && length <= reclen)
+        msr->reclen = length;
+
       msr->encoding = *pMS2B1000_ENCODING (record + blkt_offset);
     }
 
@@ -964,7 +968,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
   msr->datalength = HO2u (*pMS2FSDH_DATAOFFSET (record), msr->swapflag);
   if (msr->datalength > 0)
-    msr->datalength = msr->reclen - msr->datalength;
+    msr->datalength = (msr->datalength < (uint32_t)msr->reclen) ? msr->reclen - msr->datalength : 0;
 
   /* Determine byte order of the data and set the swapflag as needed;
      if no Blkt1000, assume the order is the same as the header */
-- 
2.43.0


From 11dd492311bc2d3494ab12b71bd5f0430c2e69c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:39 +0000
Subject: [PATCH 11/53] fix: use lengths of miniSEED 2 blockettes defined by
 SEED

The lengths of Blockettes 200, 201, 300, 310, 320 and 500 were too small, so
that a blockette accepted as within the record was read beyond the end of it.
Blockette 405 was handled but had no length.
---
 libmseed/unpack.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 5bd243f..21793b9 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1636,19 +1636,19 @@ ms2_blktlen (uint16_t blkttype, const char *blkt, int8_t swapflag)
     blktlen = 12;
     break;
   case 200: /* Generic Event Detection */
-    blktlen = 28;
+    blktlen = 52;
     break;
   case 201: /* Murdock Event Detection */
-    blktlen = 36;
+    blktlen = 60;
     break;
   case 300: /* Step Calibration */
-    blktlen = 32;
+    blktlen = 60;
     break;
   case 310: /* Sine Calibration */
-    blktlen = 32;
+    blktlen = 60;
     break;
   case 320: /* Pseudo-random Calibration */
-    blktlen = 28;
+    blktlen = 64;
     break;
   case 390: /* Generic Calibration */
     blktlen = 28;
@@ -1659,8 +1659,11 @@ ms2_blktlen (uint16_t blkttype, const char *blkt, int8_t swapflag)
   case 400: /* Beam */
     blktlen = 16;
     break;
+  case 405: /* Beam Delay */
+    blktlen = 6;
+    break;
   case 500: /* Timing */
-    blktlen = 8;
+    blktlen = 200;
     break;
   case 1000: /* Data Only SEED */
     blktlen = 8;
-- 
2.43.0


From de0eeff64e96c4d77c8191d942861c43eb75884f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:39 +0000
Subject: [PATCH 12/53] fix: release parsed extra headers on errors parsing
 miniSEED 2

msr3_unpack_mseed2() leaked the parsed extra headers when returning with an
error in a blockette, and logged an uninitialized identifier when the
identifier could not be created.
---
 libmseed/unpack.c | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 21793b9..beab4fa 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -272,7 +272,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
   int64_t retval;
 
   MS3Record *msr = NULL;
-  char errorsid[64];
+  char errorsid[64] = {0};
 
   int length;
   int ione = 1;
@@ -493,7 +493,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       eventdetection.onsettime = ms_btime2nstime ((uint8_t*)pMS2B200_YEAR (record + blkt_offset), msr->swapflag);
       if (eventdetection.onsettime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       memset (eventdetection.medsnr, 0, 6);
       eventdetection.medlookback = -1;
@@ -503,6 +506,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_event_detection_r (msr, NULL, &eventdetection, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 200 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -526,7 +530,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       eventdetection.onsettime = ms_btime2nstime ((uint8_t*)pMS2B201_YEAR (record + blkt_offset), msr->swapflag);
       if (eventdetection.onsettime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       memcpy (eventdetection.medsnr, pMS2B201_MEDSNR (record + blkt_offset), 6);
       eventdetection.medlookback = *pMS2B201_LOOPBACK (record + blkt_offset);
@@ -536,6 +543,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_event_detection_r (msr, NULL, &eventdetection, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 201 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -549,7 +557,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B300_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       calibration.endtime = NSTERROR;
       calibration.steps = *pMS2B300_NUMCALIBRATIONS (record + blkt_offset);
@@ -591,6 +602,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 300 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -604,7 +616,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B310_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       calibration.endtime = NSTERROR;
       calibration.steps = -1;
@@ -648,6 +663,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 310 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -661,7 +677,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B320_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       calibration.endtime = NSTERROR;
       calibration.steps = -1;
@@ -699,6 +718,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 320 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -712,7 +732,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.begintime = ms_btime2nstime ((uint8_t*)pMS2B390_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.begintime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       calibration.endtime = NSTERROR;
       calibration.steps = -1;
@@ -746,6 +769,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 390 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -761,7 +785,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       calibration.endtime = ms_btime2nstime ((uint8_t*)pMS2B395_YEAR (record + blkt_offset), msr->swapflag);
       if (calibration.endtime == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       calibration.steps = -1;
       calibration.firstpulsepositive = -1;
@@ -784,6 +811,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_calibration_r (msr, NULL, &calibration, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 395 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
     }
@@ -809,7 +837,10 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
 
       exception.time = ms_btime2nstime ((uint8_t*)pMS2B500_YEAR (record + blkt_offset), msr->swapflag);
       if (exception.time == NSTERROR)
+      {
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
+      }
 
       /* Apply microsecond precision if non-zero */
       if (*pMS2B500_MICROSECOND (record + blkt_offset) != 0)
@@ -825,6 +856,7 @@ msr3_unpack_mseed2 (const char *record, int reclen, MS3Record **ppmsr,
       if (mseh_add_timing_exception_r (msr, NULL, &exception, &parsestate))
       {
         ms_log (2, "%s: Problem mapping Blockette 500 to extra headers\n", msr->sid);
+        mseh_free_parsestate (&parsestate);
         return MS_GENERROR;
       }
 
-- 
2.43.0


From 0c89ebf7515adfbe8c139c90b3ffbf600f6b4baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:31 +0000
Subject: [PATCH 13/53] Add labels for loop contracts, no effect unless
 LIBMSEED_VERIFY is defined

---
 libmseed/lmverify.h   | 37 +++++++++++++++++++++++++++++++++++++
 libmseed/packdata.c   |  9 +++++++++
 libmseed/unpackdata.c | 15 +++++++++++++++
 3 files changed, 61 insertions(+)
 create mode 100644 libmseed/lmverify.h

diff --git a/libmseed/lmverify.h b/libmseed/lmverify.h
new file mode 100644
index 0000000..41f4e49
--- /dev/null
+++ b/libmseed/lmverify.h
@@ -0,0 +1,37 @@
+/***************************************************************************
+ * Annotation points for deductive verification of the library.
+ *
+ * By default these macros expand to nothing and have no effect on the
+ * library.  When LIBMSEED_VERIFY is defined, as the quoted name of a header,
+ * that header provides a contract (loop invariants) for each labeled loop.
+ *
+ * This file is part of the miniSEED Library.
+ *
+ * Licensed under the Apache License, Version 2.0 (the "License");
+ * you may not use this file except in compliance with the License.
+ * You may obtain a copy of the License at
+ *
+ *   http://www.apache.org/licenses/LICENSE-2.0
+ *
+ * Unless required by applicable law or agreed to in writing, software
+ * distributed under the License is distributed on an "AS IS" BASIS,
+ * WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
+ * See the License for the specific language governing permissions and
+ * limitations under the License.
+ ***************************************************************************/
+
+#ifndef LMVERIFY_H
+#define LMVERIFY_H 1
+
+#ifdef LIBMSEED_VERIFY
+#include LIBMSEED_VERIFY
+/* Placed between a loop header and its body: the contract of the loop */
+#define LMV_LOOP(LABEL) LMV_LOOP_##LABEL
+/* Placed as a statement: a step for ghost (specification only) state */
+#define LMV_GHOST(LABEL) LMV_GHOST_##LABEL
+#else
+#define LMV_LOOP(LABEL)
+#define LMV_GHOST(LABEL)
+#endif
+
+#endif /* LMVERIFY_H */
diff --git a/libmseed/packdata.c b/libmseed/packdata.c
index 8187f94..c186419 100644
--- a/libmseed/packdata.c
+++ b/libmseed/packdata.c
@@ -25,6 +25,7 @@
 
 #include "libmseed.h"
 #include "packdata.h"
+#include "lmverify.h"
 
 /************************************************************************
  * msr_encode_text:
@@ -74,6 +75,7 @@ msr_encode_int16 (int32_t *input, uint64_t samplecount, int16_t *output,
     return -1;
 
   for (idx = 0; idx < samplecount && outputlength >= sizeof (int16_t); idx++)
+  LMV_LOOP (encode_int16)
   {
     output[idx] = (int16_t)input[idx];
 
@@ -107,6 +109,7 @@ msr_encode_int32 (int32_t *input, uint64_t samplecount, int32_t *output,
     return -1;
 
   for (idx = 0; idx < samplecount && outputlength >= sizeof (int32_t); idx++)
+  LMV_LOOP (encode_int32)
   {
     output[idx] = input[idx];
 
@@ -140,6 +143,7 @@ msr_encode_float32 (float *input, uint64_t samplecount, float *output,
     return -1;
 
   for (idx = 0; idx < samplecount && outputlength >= sizeof (float); idx++)
+  LMV_LOOP (encode_float32)
   {
     output[idx] = input[idx];
 
@@ -173,6 +177,7 @@ msr_encode_float64 (double *input, uint64_t samplecount, double *output,
     return -1;
 
   for (idx = 0; idx < samplecount && outputlength >= sizeof (double); idx++)
+  LMV_LOOP (encode_float64)
   {
     output[idx] = input[idx];
 
@@ -267,6 +272,7 @@ msr_encode_steim1 (int32_t *input, uint64_t samplecount, int32_t *output,
   diffcount = 1;
 
   for (frameidx = 0; frameidx < maxframes && outputsamples < samplecount; frameidx++)
+  LMV_LOOP (encode_steim1_frames)
   {
     frameptr = output + (16 * frameidx);
 
@@ -299,6 +305,7 @@ msr_encode_steim1 (int32_t *input, uint64_t samplecount, int32_t *output,
     }
 
     for (widx = startnibble; widx < 16 && outputsamples < samplecount; widx++)
+    LMV_LOOP (encode_steim1_words)
     {
       if (diffcount < 4)
       {
@@ -467,6 +474,7 @@ msr_encode_steim2 (int32_t *input, uint64_t samplecount, int32_t *output,
   diffcount = 1;
 
   for (frameidx = 0; frameidx < maxframes && outputsamples < samplecount; frameidx++)
+  LMV_LOOP (encode_steim2_frames)
   {
     frameptr = (uint32_t *)output + (16 * frameidx);
 
@@ -500,6 +508,7 @@ msr_encode_steim2 (int32_t *input, uint64_t samplecount, int32_t *output,
     }
 
     for (widx = startnibble; widx < 16 && outputsamples < samplecount; widx++)
+    LMV_LOOP (encode_steim2_words)
     {
       if (diffcount < 7)
       {
diff --git a/libmseed/unpackdata.c b/libmseed/unpackdata.c
index 0414b67..46fd729 100644
--- a/libmseed/unpackdata.c
+++ b/libmseed/unpackdata.c
@@ -26,6 +26,7 @@
 
 #include "libmseed.h"
 #include "unpackdata.h"
+#include "lmverify.h"
 
 /* Extract bit range.  Byte order agnostic & defined when used with unsigned values */
 #define EXTRACTBITRANGE(VALUE, STARTBIT, LENGTH) (((VALUE) >> (STARTBIT)) & ((1U << (LENGTH)) - 1))
@@ -57,6 +58,7 @@ msr_decode_int16 (int16_t *input, uint64_t samplecount, int32_t *output,
     return -1;
 
   for (idx = 0; idx < samplecount && outputlength >= sizeof (int32_t); idx++)
+  LMV_LOOP (decode_int16)
   {
     sample = input[idx];
 
@@ -93,6 +95,7 @@ msr_decode_int32 (int32_t *input, uint64_t samplecount, int32_t *output,
     return -1;
 
   for (idx = 0; idx < samplecount && outputlength >= sizeof (int32_t); idx++)
+  LMV_LOOP (decode_int32)
   {
     sample = input[idx];
 
@@ -129,6 +132,7 @@ msr_decode_float32 (float *input, uint64_t samplecount, float *output,
     return -1;
 
   for (idx = 0; idx < samplecount && outputlength >= sizeof (float); idx++)
+  LMV_LOOP (decode_float32)
   {
     memcpy (&sample, &input[idx], sizeof (float));
 
@@ -165,6 +169,7 @@ msr_decode_float64 (double *input, uint64_t samplecount, double *output,
     return -1;
 
   for (idx = 0; idx < samplecount && outputlength >= sizeof (double); idx++)
+  LMV_LOOP (decode_float64)
   {
     memcpy (&sample, &input[idx], sizeof (double));
 
@@ -232,6 +237,7 @@ msr_decode_steim1 (int32_t *input, uint64_t inputlength, uint64_t samplecount,
   for (frameidx = 0, outputidx = 0;
        frameidx < maxframes && outputidx < samplecount;
        frameidx++)
+  LMV_LOOP (decode_steim1_frames)
   {
     /* Copy frame, each is 16x32-bit quantities = 64 bytes */
     memcpy (frame, input + (16 * frameidx), 64);
@@ -272,6 +278,7 @@ msr_decode_steim1 (int32_t *input, uint64_t inputlength, uint64_t samplecount,
 
     /* Decode each 32-bit word according to nibble */
     for (widx = startnibble; widx < 16; widx++)
+    LMV_LOOP (decode_steim1_words)
     {
       /* W0: the first 32-bit contains 16 x 2-bit nibbles for each word */
       nibble = EXTRACTBITRANGE (frame[0], (30 - (2 * widx)), 2);
@@ -334,6 +341,7 @@ msr_decode_steim1 (int32_t *input, uint64_t inputlength, uint64_t samplecount,
     for (idx = (frameidx == 0) ? 1 : 0;
          idx < diffidx && outputidx < samplecount;
          idx++, outputidx++)
+    LMV_LOOP (decode_steim1_diffs)
     {
       output[outputidx] = output[outputidx - 1] + diff[idx];
     }
@@ -410,6 +418,7 @@ msr_decode_steim2 (int32_t *input, uint64_t inputlength, uint64_t samplecount,
   for (frameidx = 0, outputidx = 0;
        frameidx < maxframes && outputidx < samplecount;
        frameidx++)
+  LMV_LOOP (decode_steim2_frames)
   {
     /* Copy frame, each is 16x32-bit quantities = 64 bytes */
     memcpy (frame, input + (16 * frameidx), 64);
@@ -450,6 +459,7 @@ msr_decode_steim2 (int32_t *input, uint64_t inputlength, uint64_t samplecount,
 
     /* Decode each 32-bit word according to nibble */
     for (widx = startnibble; widx < 16; widx++)
+    LMV_LOOP (decode_steim2_words)
     {
       /* W0: the first 32-bit quantity contains 16 x 2-bit nibbles (high order bits) */
       nibble = EXTRACTBITRANGE (frame[0], (30 - (2 * widx)), 2);
@@ -584,6 +594,7 @@ msr_decode_steim2 (int32_t *input, uint64_t inputlength, uint64_t samplecount,
     for (idx = (frameidx == 0) ? 1 : 0;
          idx < diffidx && outputidx < samplecount;
          idx++, outputidx++)
+    LMV_LOOP (decode_steim2_diffs)
     {
       output[outputidx] = output[outputidx - 1] + diff[idx];
     }
@@ -651,6 +662,7 @@ msr_decode_geoscope (char *input, uint64_t samplecount, float *output,
   }
 
   for (idx = 0; idx < samplecount && outputlength >= sizeof (float); idx++)
+  LMV_LOOP (decode_geoscope)
   {
     switch (encoding)
     {
@@ -789,6 +801,7 @@ msr_decode_cdsn (int16_t *input, uint64_t samplecount, int32_t *output,
     return -1;
 
   for (idx = 0; idx < samplecount && outputlength >= sizeof (int32_t); idx++)
+  LMV_LOOP (decode_cdsn)
   {
     memcpy (&sint, &input[idx], sizeof (int16_t));
     if (swapflag)
@@ -885,6 +898,7 @@ msr_decode_sro (int16_t *input, uint64_t samplecount, int32_t *output,
   add2result = 10;
 
   for (idx = 0; idx < samplecount && outputlength >= sizeof (int32_t); idx++)
+  LMV_LOOP (decode_sro)
   {
     memcpy (&sint, &input[idx], sizeof (int16_t));
     if (swapflag)
@@ -941,6 +955,7 @@ msr_decode_dwwssn (int16_t *input, uint64_t samplecount, int32_t *output,
     return -1;
 
   for (idx = 0; idx < samplecount && outputlength >= sizeof (int32_t); idx++)
+  LMV_LOOP (decode_dwwssn)
   {
     memcpy (&sint, &input[idx], sizeof (uint16_t));
     if (swapflag)
-- 
2.43.0


From b8358c1e92988c06badf196b0da56ac38d2fdf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:35 +0000
Subject: [PATCH 14/53] fix: decode GEOSCOPE 24-bit samples in either byte
 order on either host

The placement of bytes without swapping was only correct on big endian hosts and
with swapping only on little endian hosts, otherwise samples were scaled by 256.
---
 libmseed/unpackdata.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmseed/unpackdata.c b/libmseed/unpackdata.c
index 46fd729..a1d133e 100644
--- a/libmseed/unpackdata.c
+++ b/libmseed/unpackdata.c
@@ -668,12 +668,12 @@ msr_decode_geoscope (char *input, uint64_t samplecount, float *output,
     {
     case DE_GEOSCOPE24:
       sample32.i = 0;
-      if (swapflag)
+      if (ms_bigendianhost ())
         for (k = 0; k < 3; k++)
-          sample32.b[2 - k] = input[k];
+          sample32.b[(swapflag) ? 3 - k : 1 + k] = input[k];
       else
         for (k = 0; k < 3; k++)
-          sample32.b[1 + k] = input[k];
+          sample32.b[(swapflag) ? 2 - k : k] = input[k];
 
       mantissa = sample32.i;
 
-- 
2.43.0


From c41a192de3899c6edcaee9a990ffde8e0a48c881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:35 +0000
Subject: [PATCH 15/53] Label remaining loops of GEOSCOPE decoding

---
 libmseed/unpackdata.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmseed/unpackdata.c b/libmseed/unpackdata.c
index a1d133e..8e981ff 100644
--- a/libmseed/unpackdata.c
+++ b/libmseed/unpackdata.c
@@ -670,9 +670,11 @@ msr_decode_geoscope (char *input, uint64_t samplecount, float *output,
       sample32.i = 0;
       if (ms_bigendianhost ())
         for (k = 0; k < 3; k++)
+        LMV_LOOP (decode_geoscope_be)
           sample32.b[(swapflag) ? 3 - k : 1 + k] = input[k];
       else
         for (k = 0; k < 3; k++)
+        LMV_LOOP (decode_geoscope_le)
           sample32.b[(swapflag) ? 2 - k : k] = input[k];
 
       mantissa = sample32.i;
-- 
2.43.0


From 9657d0c76e9b1ad0ce9a8178915862c324cb460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:52 +0000
Subject: [PATCH 16/53] fix: CRC of short unaligned input read beyond its end

The remaining length after the leading unaligned bytes was computed unsigned, so
for 1 or 2 bytes at an unaligned address more bytes than supplied were included.
---
 libmseed/crc32c.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/crc32c.c b/libmseed/crc32c.c
index d553409..1a0673d 100644
--- a/libmseed/crc32c.c
+++ b/libmseed/crc32c.c
@@ -328,7 +328,7 @@ static inline uint32_t s_crc_generic_align(
     size_t leading = (4 - input_alignment) & 0x3;
 
     /* Determine what's left without the leading input bytes (might be negative)*/
-    size_t remaining = *length - leading;
+    int remaining = *length - (int)leading;
 
     /* Process unaligned leading input bytes one at a time*/
     if (leading && remaining > 0) {
-- 
2.43.0


From 5df5f7da9fb068274b725ce7cd49d0f0ecdb9306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:08 +0000
Subject: [PATCH 17/53] Label loops of CRC calculation

---
 libmseed/crc32c.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/libmseed/crc32c.c b/libmseed/crc32c.c
index 1a0673d..1d18e84 100644
--- a/libmseed/crc32c.c
+++ b/libmseed/crc32c.c
@@ -22,6 +22,7 @@
 */
 
 #include "libmseed.h"
+#include "lmverify.h"
 
 /* The Castagnoli, iSCSI CRC32c polynomial (reverse of 0x1EDC6F41) */
 #define CRC32C_POLYNOMIAL 0x82F63B78
@@ -306,7 +307,10 @@ const uint32_t CRC32C_TABLE[8][256] = {
 /* private (static) function factoring out byte-by-byte CRC computation using just one slice of the lookup table*/
 static uint32_t s_crc_generic_sb1(const uint8_t *input, int length, uint32_t crc, const uint32_t *table_ptr) {
     uint32_t(*table)[8][256] = (uint32_t(*)[8][256])table_ptr;
-    while (length-- > 0) {
+    while (length-- > 0)
+    LMV_LOOP (crc_sb1)
+    {
+        LMV_GHOST (crc_sb1)
         crc = (crc >> 8) ^ (*table)[0][(crc & 0xff) ^ *input++];
     }
     return crc;
@@ -346,7 +350,10 @@ static uint32_t s_crc_generic_sb4(const uint8_t *input, int length, uint32_t crc
     int remaining = length;
     uint32_t(*table)[8][256] = (uint32_t(*)[8][256])table_ptr;
 
-    while (remaining >= 4) {
+    while (remaining >= 4)
+    LMV_LOOP (crc_sb4)
+    {
+        LMV_GHOST (crc_sb4)
         crc ^= *current++;
         crc = (*table)[3][crc & 0xff] ^ (*table)[2][(crc >> 8) & 0xff] ^ (*table)[1][(crc >> 16) & 0xff] ^
               (*table)[0][crc >> 24];
@@ -362,7 +369,10 @@ static uint32_t s_crc_generic_sb8(const uint8_t *input, int length, uint32_t crc
     int remaining = length;
     uint32_t(*table)[8][256] = (uint32_t(*)[8][256])table_ptr;
 
-    while (remaining >= 8) {
+    while (remaining >= 8)
+    LMV_LOOP (crc_sb8)
+    {
+        LMV_GHOST (crc_sb8)
         uint32_t c1 = *current++ ^ crc;
         uint32_t c2 = *current++;
         uint32_t t1 = (*table)[7][c1 & 0xff] ^ (*table)[6][(c1 >> 8) & 0xff] ^ (*table)[5][(c1 >> 16) & 0xff] ^
-- 
2.43.0


From 7312aba956b11c2dc9136fc625de9d6117a83d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:28 +0000
Subject: [PATCH 18/53] fix: NULL pointer dereference encoding Steim into less
 than one frame

With a payload of less than 64 bytes and byte swapping the encoders swapped the
reverse integration constant through a NULL pointer.
---
 libmseed/packdata.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/libmseed/packdata.c b/libmseed/packdata.c
index c186419..a6b1f80 100644
--- a/libmseed/packdata.c
+++ b/libmseed/packdata.c
@@ -404,9 +404,12 @@ msr_encode_steim1 (int32_t *input, uint64_t samplecount, int32_t *output,
 
   /* Set Xn (reverse integration constant) in first frame to last sample */
   if (Xnp)
+  {
     *Xnp = *(input + outputsamples - 1);
-  if (swapflag)
-    ms_gswap4 (Xnp);
+
+    if (swapflag)
+      ms_gswap4 (Xnp);
+  }
 
   if (byteswritten)
     *byteswritten = (uint32_t)(frameidx * 64);
@@ -722,9 +725,12 @@ msr_encode_steim2 (int32_t *input, uint64_t samplecount, int32_t *output,
 
   /* Set Xn (reverse integration constant) in first frame to last sample */
   if (Xnp)
+  {
     *Xnp = *(input + outputsamples - 1);
-  if (swapflag)
-    ms_gswap4 (Xnp);
+
+    if (swapflag)
+      ms_gswap4 (Xnp);
+  }
 
   if (byteswritten)
     *byteswritten = (uint32_t)(frameidx * 64);
-- 
2.43.0


From 2d35aa95cc802ae2625c71a03d6ade793e328293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:48 +0000
Subject: [PATCH 19/53] Label ghost steps of Steim encoding and decoding

---
 libmseed/packdata.c   |  7 +++++++
 libmseed/unpackdata.c | 10 ++++++++++
 2 files changed, 17 insertions(+)

diff --git a/libmseed/packdata.c b/libmseed/packdata.c
index a6b1f80..eaf02e3 100644
--- a/libmseed/packdata.c
+++ b/libmseed/packdata.c
@@ -395,6 +395,7 @@ msr_encode_steim1 (int32_t *input, uint64_t samplecount, int32_t *output,
 
       diffcount -= packedsamples;
       outputsamples += packedsamples;
+      LMV_GHOST (encode_steim1_word)
     } /* Done with words in frame */
 
     /* Swap word with nibbles */
@@ -402,6 +403,8 @@ msr_encode_steim1 (int32_t *input, uint64_t samplecount, int32_t *output,
       ms_gswap4 (&frameptr[0]);
   } /* Done with frames */
 
+  LMV_GHOST (encode_steim1_end)
+
   /* Set Xn (reverse integration constant) in first frame to last sample */
   if (Xnp)
   {
@@ -707,6 +710,7 @@ msr_encode_steim2 (int32_t *input, uint64_t samplecount, int32_t *output,
       else
       {
         ms_log (2, "%s: Unable to represent difference in <= 30 bits\n", sid);
+        LMV_GHOST (encode_steim2_refuse)
         return -1;
       }
 
@@ -716,6 +720,7 @@ msr_encode_steim2 (int32_t *input, uint64_t samplecount, int32_t *output,
 
       diffcount -= packedsamples;
       outputsamples += packedsamples;
+      LMV_GHOST (encode_steim2_word)
     } /* Done with words in frame */
 
     /* Swap word with nibbles */
@@ -723,6 +728,8 @@ msr_encode_steim2 (int32_t *input, uint64_t samplecount, int32_t *output,
       ms_gswap4 (&frameptr[0]);
   } /* Done with frames */
 
+  LMV_GHOST (encode_steim2_end)
+
   /* Set Xn (reverse integration constant) in first frame to last sample */
   if (Xnp)
   {
diff --git a/libmseed/unpackdata.c b/libmseed/unpackdata.c
index 8e981ff..f64288a 100644
--- a/libmseed/unpackdata.c
+++ b/libmseed/unpackdata.c
@@ -276,11 +276,14 @@ msr_decode_steim1 (int32_t *input, uint64_t inputlength, uint64_t samplecount,
     if (swapflag)
       ms_gswap4 (&frame[0]);
 
+    LMV_GHOST (decode_steim1_frame)
+
     /* Decode each 32-bit word according to nibble */
     for (widx = startnibble; widx < 16; widx++)
     LMV_LOOP (decode_steim1_words)
     {
       /* W0: the first 32-bit contains 16 x 2-bit nibbles for each word */
+      LMV_GHOST (decode_steim1_word)
       nibble = EXTRACTBITRANGE (frame[0], (30 - (2 * widx)), 2);
       word   = (union dword *)&frame[widx];
 
@@ -334,6 +337,7 @@ msr_decode_steim1 (int32_t *input, uint64_t inputlength, uint64_t samplecount,
 #endif
         break;
       } /* Done with decoding 32-bit word based on nibble */
+      LMV_GHOST (decode_steim1_word_end)
     }   /* Done looping over nibbles and 32-bit words */
 
     /* Apply differences in this frame to calculate output samples,
@@ -343,6 +347,7 @@ msr_decode_steim1 (int32_t *input, uint64_t inputlength, uint64_t samplecount,
          idx++, outputidx++)
     LMV_LOOP (decode_steim1_diffs)
     {
+      LMV_GHOST (decode_steim1_diff)
       output[outputidx] = output[outputidx - 1] + diff[idx];
     }
   } /* Done looping over frames */
@@ -457,11 +462,14 @@ msr_decode_steim2 (int32_t *input, uint64_t inputlength, uint64_t samplecount,
     if (swapflag)
       ms_gswap4 (&frame[0]);
 
+    LMV_GHOST (decode_steim2_frame)
+
     /* Decode each 32-bit word according to nibble */
     for (widx = startnibble; widx < 16; widx++)
     LMV_LOOP (decode_steim2_words)
     {
       /* W0: the first 32-bit quantity contains 16 x 2-bit nibbles (high order bits) */
+      LMV_GHOST (decode_steim2_word)
       nibble = EXTRACTBITRANGE (frame[0], (30 - (2 * widx)), 2);
 
       switch (nibble)
@@ -587,6 +595,7 @@ msr_decode_steim2 (int32_t *input, uint64_t inputlength, uint64_t samplecount,
 
         break;
       } /* Done with decoding 32-bit word based on nibble */
+      LMV_GHOST (decode_steim2_word_end)
     }   /* Done looping over nibbles and 32-bit words */
 
     /* Apply differences in this frame to calculate output samples,
@@ -596,6 +605,7 @@ msr_decode_steim2 (int32_t *input, uint64_t inputlength, uint64_t samplecount,
          idx++, outputidx++)
     LMV_LOOP (decode_steim2_diffs)
     {
+      LMV_GHOST (decode_steim2_diff)
       output[outputidx] = output[outputidx - 1] + diff[idx];
     }
   } /* Done looping over frames */
-- 
2.43.0


From 7862d412db06c960d25d508bec9bab8ef7ee81e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:42 +0000
Subject: [PATCH 20/53] fix: refuse day-of-month 0

---
 libmseed/genutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index 8a2b650..e1afdf4 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -124,7 +124,7 @@ static const int monthdays_leap[] = {31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30,
 #define VALIDMONTH(month) (month >= 1 && month <= 12)
 
 /* Check that a day-of-month is in a valid range */
-#define VALIDMONTHDAY(year, month, mday) (mday >= 0 && mday <= (LEAPYEAR (year) ? monthdays_leap[month - 1] : monthdays[month - 1]))
+#define VALIDMONTHDAY(year, month, mday) (mday >= 1 && mday <= (LEAPYEAR (year) ? monthdays_leap[month - 1] : monthdays[month - 1]))
 
 /* Check that a day-of-year is in a valid range */
 #define VALIDYEARDAY(year, yday) (yday >= 1 && yday <= (365 + (LEAPYEAR (year) ? 1 : 0)))
-- 
2.43.0


From 9202ae40aacd0c1b7ed9f59cfadc838c038e2da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:04 +0000
Subject: [PATCH 21/53] Label loops of calendar conversion

---
 libmseed/gmtime64.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libmseed/gmtime64.c b/libmseed/gmtime64.c
index 7d3eb8a..a4a24be 100644
--- a/libmseed/gmtime64.c
+++ b/libmseed/gmtime64.c
@@ -37,6 +37,7 @@ THE SOFTWARE.
 #include <stdlib.h>
 #include <stdint.h>
 #include <time.h>
+#include "lmverify.h"
 
 static const char days_in_month[2][12] = {
     {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31},
@@ -120,6 +121,7 @@ ms_gmtime64_r (const int64_t *in_time, struct tm *p)
     /* Years */
     leap = IS_LEAP (year);
     while (m >= (int64_t)length_of_year[leap])
+    LMV_LOOP (gmtime_years)
     {
       m -= (int64_t)length_of_year[leap];
       year++;
@@ -149,6 +151,7 @@ ms_gmtime64_r (const int64_t *in_time, struct tm *p)
     /* Years */
     leap = IS_LEAP (year);
     while (m < (int64_t)-length_of_year[leap])
+    LMV_LOOP (gmtime_years_neg)
     {
       m += (int64_t)length_of_year[leap];
       year--;
-- 
2.43.0


From bcb0786f71b8b00cbf8af558a60fca1874cdb7e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:43 +0000
Subject: [PATCH 22/53] Label steps of calendar conversion

---
 libmseed/gmtime64.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libmseed/gmtime64.c b/libmseed/gmtime64.c
index a4a24be..f7b6967 100644
--- a/libmseed/gmtime64.c
+++ b/libmseed/gmtime64.c
@@ -85,10 +85,13 @@ ms_gmtime64_r (const int64_t *in_time, struct tm *p)
 
   time = *in_time;
 
+  LMV_GHOST (gmtime_sec)
   v_tm_sec = (int)(time % 60);
   time /= 60;
+  LMV_GHOST (gmtime_min)
   v_tm_min = (int)(time % 60);
   time /= 60;
+  LMV_GHOST (gmtime_hour)
   v_tm_hour = (int)(time % 24);
   time /= 24;
   v_tm_tday = time;
@@ -97,6 +100,7 @@ ms_gmtime64_r (const int64_t *in_time, struct tm *p)
   WRAP_TIME64 (v_tm_min, v_tm_hour, 60);
   WRAP_TIME64 (v_tm_hour, v_tm_tday, 24);
 
+  LMV_GHOST (gmtime_split)
   v_tm_wday = (int)((v_tm_tday + 4) % 7);
   if (v_tm_wday < 0)
     v_tm_wday += 7;
@@ -131,10 +135,12 @@ ms_gmtime64_r (const int64_t *in_time, struct tm *p)
     /* Months */
     v_tm_mon = 0;
     while (m >= (int64_t)days_in_month[leap][v_tm_mon])
+    LMV_LOOP (gmtime_months)
     {
       m -= (int64_t)days_in_month[leap][v_tm_mon];
       v_tm_mon++;
     }
+    LMV_GHOST (gmtime_months)
   }
   else
   {
@@ -161,11 +167,13 @@ ms_gmtime64_r (const int64_t *in_time, struct tm *p)
     /* Months */
     v_tm_mon = 11;
     while (m < (int64_t)-days_in_month[leap][v_tm_mon])
+    LMV_LOOP (gmtime_months_neg)
     {
       m += (int64_t)days_in_month[leap][v_tm_mon];
       v_tm_mon--;
     }
     m += (int64_t)days_in_month[leap][v_tm_mon];
+    LMV_GHOST (gmtime_months)
   }
 
   p->tm_year = (int)year;
-- 
2.43.0


From 07e3fc7e228382cd2cf611e5a74058c0fb4deca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:39 +0000
Subject: [PATCH 23/53] Label steps of epoch time conversion

---
 libmseed/genutils.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index e1afdf4..f29915d 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -25,6 +25,7 @@
 #include <time.h>
 
 #include "gmtime64.h"
+#include "lmverify.h"
 #include "libmseed.h"
 
 static nstime_t ms_time2nstime_int (int year, int day, int hour,
@@ -866,6 +867,7 @@ ms_nstime2time (nstime_t nstime, uint16_t *year, uint16_t *yday,
   /* Reduce to Unix/POSIX epoch time and fractional seconds */
   isec   = MS_NSTIME2EPOCH (nstime);
   ifract = (int)(nstime - (isec * NSTMODULUS));
+  LMV_GHOST (nstime2time_split)
 
   /* Adjust for negative epoch times */
   if (nstime < 0 && ifract != 0)
@@ -874,9 +876,11 @@ ms_nstime2time (nstime_t nstime, uint16_t *year, uint16_t *yday,
     ifract = NSTMODULUS - (-ifract);
   }
 
+  LMV_GHOST (nstime2time_adjusted)
   if (year || yday || hour || min || sec)
     if (!(ms_gmtime64_r (&isec, &tms)))
       return -1;
+  LMV_GHOST (nstime2time_broken)
 
   if (year)
     *year = tms.tm_year + 1900;
@@ -1181,7 +1185,9 @@ ms_time2nstime_int (int year, int yday, int hour, int min, int sec, uint32_t nse
 
   days = (365 * (shortyear - 70) + intervening_leap_days + (yday - 1));
 
+  LMV_GHOST (time2nstime_days)
   nstime = (nstime_t) (60 * (60 * ((nstime_t)24 * days + hour) + min) + sec) * NSTMODULUS + nsec;
+  LMV_GHOST (time2nstime_end)
 
   return nstime;
 } /* End of ms_time2nstime_int() */
-- 
2.43.0


From c6598592b33dbe96574def094a416b07a0ba4564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:40 +0000
Subject: [PATCH 24/53] Label loops of record detection

---
 libmseed/parseutils.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libmseed/parseutils.c b/libmseed/parseutils.c
index b80ebc1..59da37f 100644
--- a/libmseed/parseutils.c
+++ b/libmseed/parseutils.c
@@ -27,6 +27,7 @@
 #include "libmseed.h"
 #include "unpack.h"
 #include "mseedformat.h"
+#include "lmverify.h"
 
 /***********************************************************************/ /**
  * @brief Parse miniSEED from a buffer
@@ -228,6 +229,7 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
     while (blkt_offset != 0 &&
            blkt_offset > 47 &&
            (uint64_t)blkt_offset + 4 <= recbuflen)
+    LMV_LOOP (detect_chain)
     {
       memcpy (&blkt_type, record + blkt_offset, 2);
       memcpy (&next_blkt, record + blkt_offset + 2, 2);
@@ -266,6 +268,7 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
         return -1;
       }
 
+      LMV_GHOST (detect_next)
       blkt_offset = next_blkt;
     }
 
@@ -277,7 +280,9 @@ ms3_detect (const char *record, uint64_t recbuflen, uint8_t *formatversion)
 
       /* Check for record header or blank/noise record at MINRECLEN byte offsets */
       while (((uint64_t)(nextfsdh - record) + 48) < recbuflen)
+      LMV_LOOP (detect_scan)
       {
+        LMV_GHOST (detect_scan)
         if (MS2_ISVALIDHEADER (nextfsdh))
         {
           foundlen = 1;
-- 
2.43.0


From 1de84bbb0240071e25a3d99c9a8c7ebf17351edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:16 +0000
Subject: [PATCH 25/53] Label loop of payload bounds

---
 libmseed/unpack.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index beab4fa..8c2739d 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -31,6 +31,7 @@
 
 #include "libmseed.h"
 #include "mseedformat.h"
+#include "lmverify.h"
 #include "unpack.h"
 #include "unpackdata.h"
 
@@ -1144,6 +1145,7 @@ msr3_data_bounds (const MS3Record *msr, uint32_t *dataoffset, uint32_t *datasize
   {
     while (*datasize > 0 &&
            memcmp (msr->record + *dataoffset + (*datasize - 64), nullframe, 64) == 0)
+    LMV_LOOP (bounds_steim)
     {
       *datasize -= 64;
     }
-- 
2.43.0


From abc296118392166d060b86b8ab01ea9d8ac50926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:04 +0000
Subject: [PATCH 26/53] fix: do not read a byte beyond the source in UTF-8
 length scan

---
 libmseed/genutils.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index f29915d..910028f 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -550,7 +550,7 @@ utf8length_int (const char *str, int maxlength)
   int length = 0;
   int offset;
 
-  for (offset = 0; str[offset] && offset < maxlength; offset++)
+  for (offset = 0; offset < maxlength && str[offset]; offset++)
   {
     type = utf8d[(uint8_t)str[offset]];
     state = utf8d[256 + state * 16 + type];
-- 
2.43.0


From 1c7d30fe087776f7eae30a8c50ffa48afbf5a1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:11 +0000
Subject: [PATCH 27/53] fix: refuse miniSEED 2 fractional seconds out of range

---
 libmseed/unpack.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libmseed/unpack.c b/libmseed/unpack.c
index 8c2739d..a0f54a2 100644
--- a/libmseed/unpack.c
+++ b/libmseed/unpack.c
@@ -1757,6 +1757,13 @@ ms_btime2nstime (uint8_t *btime, int8_t swapflag)
     return NSTUNSET;
   }
 
+  /* The fraction is in units of 0.0001 seconds */
+  if (HO2u (*(uint16_t *)(btime + 8), swapflag) > 9999)
+  {
+    ms_log (2, "Fractional seconds out of range: %u\n", HO2u (*(uint16_t *)(btime + 8), swapflag));
+    return NSTERROR;
+  }
+
   return ms_time2nstime (year,
                          HO2u (*((uint16_t *)(btime + 2)), swapflag),
                          *(btime + 4),
-- 
2.43.0


From c592077e8691c3254b3f7891e36681fb5295fb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:50 +0000
Subject: [PATCH 28/53] fix: adjust sample times for every leap second within
 the span

---
 libmseed/genutils.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index 910028f..4165fda 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -1657,7 +1657,7 @@ ms_sampletime (nstime_t time, int64_t offset, double samprate)
       span = (nstime_t) (((double)offset * -samprate * NSTMODULUS) + 0.5);
   }
 
-  /* Check if the time range contains a leap second, if list is available */
+  /* Check if the time range contains leap seconds, if list is available */
   if (lslist)
   {
     while (lslist)
@@ -1666,7 +1666,6 @@ ms_sampletime (nstime_t time, int64_t offset, double samprate)
           lslist->leapsecond <= (time + span - NSTMODULUS))
       {
         span -= NSTMODULUS;
-        break;
       }
 
       lslist = lslist->next;
-- 
2.43.0


From 7a38c7a2b19859418ed4b1e919df5d25048c85e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:27 +0000
Subject: [PATCH 29/53] fix: compare escaped characters in glob patterns

---
 libmseed/selection.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/selection.c b/libmseed/selection.c
index cd7cb31..5da15d7 100644
--- a/libmseed/selection.c
+++ b/libmseed/selection.c
@@ -916,7 +916,7 @@ ms_globmatch (const char *string, const char *pattern)
     case '\\':
       if (*pattern)
         c = *pattern++;
-      break;
+      /* fall through */
 
     default:
       if (c != *string)
-- 
2.43.0


From c48fbac6a39ffc835a9f6b114b741b8f5a599d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:34 +0000
Subject: [PATCH 30/53] fix: round negative samples and detect every loss of
 precision before converting

---
 libmseed/tracelist.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 920dede..5449e5a 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -1402,36 +1402,38 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
   {
     if (seg->sampletype == 'f') /* Convert floats to integers with simple rounding */
     {
-      for (idx = 0; idx < seg->numsamples; idx++)
+      /* Check all samples for loss of sub-integer before changing any */
+      for (idx = 0; !truncate && idx < seg->numsamples; idx++)
       {
-        /* Check for loss of sub-integer */
-        if (!truncate && (fdata[idx] - (int32_t)fdata[idx]) > 0.000001)
+        if (!(fabs (fdata[idx] - (int32_t)fdata[idx]) <= 0.000001))
         {
           ms_log (2, "Loss of precision when converting floats to integers, loss: %g\n",
                   (fdata[idx] - (int32_t)fdata[idx]));
           return -1;
         }
-
-        idata[idx] = (int32_t) (fdata[idx] + 0.5);
       }
+
+      for (idx = 0; idx < seg->numsamples; idx++)
+        idata[idx] = (int32_t) (fdata[idx] + ((fdata[idx] < 0) ? -0.5 : 0.5));
     }
     else if (seg->sampletype == 'd') /* Convert doubles to integers with simple rounding */
     {
-      for (idx = 0; idx < seg->numsamples; idx++)
+      /* Check all samples for loss of sub-integer before changing any */
+      for (idx = 0; !truncate && idx < seg->numsamples; idx++)
       {
-        /* Check for loss of sub-integer */
-        if (!truncate && (ddata[idx] - (int32_t)ddata[idx]) > 0.000001)
+        if (!(fabs (ddata[idx] - (int32_t)ddata[idx]) <= 0.000001))
         {
           ms_log (2, "Loss of precision when converting doubles to integers, loss: %g\n",
                   (ddata[idx] - (int32_t)ddata[idx]));
           return -1;
         }
-
-        idata[idx] = (int32_t) (ddata[idx] + 0.5);
       }
 
+      for (idx = 0; idx < seg->numsamples; idx++)
+        idata[idx] = (int32_t) (ddata[idx] + ((ddata[idx] < 0) ? -0.5 : 0.5));
+
       /* Reallocate buffer for reduced size needed, only if not pre-allocating */
-      if (libmseed_prealloc_block_size == 0)
+      if (libmseed_prealloc_block_size == 0 && seg->numsamples > 0)
       {
         if (!(seg->datasamples = libmseed_memory.realloc (seg->datasamples,
                                                           (size_t) (seg->numsamples * sizeof (int32_t)))))
@@ -1460,7 +1462,7 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
         fdata[idx] = (float)ddata[idx];
 
       /* Reallocate buffer for reduced size needed, only if not pre-allocating */
-      if (libmseed_prealloc_block_size == 0)
+      if (libmseed_prealloc_block_size == 0 && seg->numsamples > 0)
       {
         if (!(seg->datasamples = libmseed_memory.realloc (seg->datasamples,
                                                           (size_t) (seg->numsamples * sizeof (float)))))
-- 
2.43.0


From e51254c23e50b045c1c4ad26756587c2fc00a8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:11 +0000
Subject: [PATCH 31/53] Label loops of sample conversion

---
 libmseed/tracelist.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 5449e5a..f431b63 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -25,6 +25,7 @@
 #include <time.h>
 
 #include "libmseed.h"
+#include "lmverify.h"
 
 MS3TraceSeg *mstl3_msr2seg (const MS3Record *msr, nstime_t endtime);
 MS3TraceSeg *mstl3_addmsrtoseg (MS3TraceSeg *seg, const MS3Record *msr, nstime_t endtime, int8_t whence);
@@ -1404,6 +1405,7 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
     {
       /* Check all samples for loss of sub-integer before changing any */
       for (idx = 0; !truncate && idx < seg->numsamples; idx++)
+      LMV_LOOP (conv_check_f)
       {
         if (!(fabs (fdata[idx] - (int32_t)fdata[idx]) <= 0.000001))
         {
@@ -1414,12 +1416,14 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
       }
 
       for (idx = 0; idx < seg->numsamples; idx++)
+      LMV_LOOP (conv_fi)
         idata[idx] = (int32_t) (fdata[idx] + ((fdata[idx] < 0) ? -0.5 : 0.5));
     }
     else if (seg->sampletype == 'd') /* Convert doubles to integers with simple rounding */
     {
       /* Check all samples for loss of sub-integer before changing any */
       for (idx = 0; !truncate && idx < seg->numsamples; idx++)
+      LMV_LOOP (conv_check_d)
       {
         if (!(fabs (ddata[idx] - (int32_t)ddata[idx]) <= 0.000001))
         {
@@ -1430,6 +1434,7 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
       }
 
       for (idx = 0; idx < seg->numsamples; idx++)
+      LMV_LOOP (conv_di)
         idata[idx] = (int32_t) (ddata[idx] + ((ddata[idx] < 0) ? -0.5 : 0.5));
 
       /* Reallocate buffer for reduced size needed, only if not pre-allocating */
@@ -1454,11 +1459,13 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
     if (seg->sampletype == 'i') /* Convert integers to floats */
     {
       for (idx = 0; idx < seg->numsamples; idx++)
+      LMV_LOOP (conv_if)
         fdata[idx] = (float)idata[idx];
     }
     else if (seg->sampletype == 'd') /* Convert doubles to floats */
     {
       for (idx = 0; idx < seg->numsamples; idx++)
+      LMV_LOOP (conv_df)
         fdata[idx] = (float)ddata[idx];
 
       /* Reallocate buffer for reduced size needed, only if not pre-allocating */
@@ -1489,6 +1496,7 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
     if (seg->sampletype == 'i') /* Convert integers to doubles */
     {
       for (idx = 0; idx < seg->numsamples; idx++)
+      LMV_LOOP (conv_id)
         ddata[idx] = (double)idata[idx];
 
       libmseed_memory.free (idata);
@@ -1496,6 +1504,7 @@ mstl3_convertsamples (MS3TraceSeg *seg, char type, int8_t truncate)
     else if (seg->sampletype == 'f') /* Convert floats to doubles */
     {
       for (idx = 0; idx < seg->numsamples; idx++)
+      LMV_LOOP (conv_fd)
         ddata[idx] = (double)fdata[idx];
 
       libmseed_memory.free (fdata);
-- 
2.43.0


From 81657ccf8291ace2252096bdbe7db767640712b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:25 +0000
Subject: [PATCH 32/53] fix: no access outside the message when removing its
 trailing newline

---
 libmseed/logging.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libmseed/logging.c b/libmseed/logging.c
index 32b3859..f2e3e57 100644
--- a/libmseed/logging.c
+++ b/libmseed/logging.c
@@ -410,9 +410,10 @@ rlog_int (MSLogParam *logp, const char *function, int level,
   if (level >= 1 && logp->registry.maxmessages > 0)
   {
     /* Remove trailing newline if present */
-    if (message[printed - 1] == '\n')
+    presize = (int)strlen (message);
+    if (presize > 0 && message[presize - 1] == '\n')
     {
-      message[printed - 1] = '\0';
+      message[presize - 1] = '\0';
       printed -= 1;
     }
 
-- 
2.43.0


From 1af0b201476fc9054dc2f391ff9f2776b41debbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:25 +0000
Subject: [PATCH 33/53] fix: count messages of the registry and report the
 number emitted

---
 libmseed/logging.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/libmseed/logging.c b/libmseed/logging.c
index f2e3e57..83ca4b1 100644
--- a/libmseed/logging.c
+++ b/libmseed/logging.c
@@ -493,7 +493,10 @@ add_message_int (MSLogRegistry *logreg, const char *function, int level,
         logentry->next = NULL;
 
       if (count > logreg->maxmessages)
+      {
         free (logentry);
+        logreg->messagecnt -= 1;
+      }
 
       logentry = lognext;
     }
@@ -578,6 +581,7 @@ ms_rlog_emit (MSLogParam *logp, int count, int context)
   char local_message[MAX_LOG_MSG_LENGTH];
   char *message = NULL;
   int emit = (count > 0) ? count : -1;
+  int emitted = 0;
 
   if (!logp)
     logp = &gMSLogParam;
@@ -587,6 +591,7 @@ ms_rlog_emit (MSLogParam *logp, int count, int context)
   while (logentry && emit)
   {
     logp->registry.messages = logentry->next;
+    logp->registry.messagecnt -= 1;
 
     logentry->next = logprint;
     logprint = logentry;
@@ -620,9 +625,10 @@ ms_rlog_emit (MSLogParam *logp, int count, int context)
     logentry = logprint->next;
     free (logprint);
     logprint = logentry;
+    emitted++;
   }
 
-  return 0;
+  return emitted;
 } /* End of ms_rlog_emit() */
 
 
@@ -650,6 +656,7 @@ ms_rlog_free (MSLogParam *logp)
     freed++;
 
     logp->registry.messages = logentry->next;
+    logp->registry.messagecnt -= 1;
     free (logentry);
     logentry = logp->registry.messages;
   }
-- 
2.43.0


From 240ece3061d1073cee7ce4e041332bef206c443c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:37 +0000
Subject: [PATCH 34/53] fix: keep the sign of epoch time strings between -1 and
 0 seconds

---
 libmseed/genutils.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index 4165fda..393527f 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -1056,7 +1056,8 @@ ms_nstime2timestr (nstime_t nstime, char *timestr,
       break;
     case UNIXEPOCH:
       expected = -1;
-      printed  = snprintf (timestr, 22, "%" PRId64 ".%06d", rawisec, rawnanosec / 1000);
+      printed  = snprintf (timestr, 22, "%s%" PRId64 ".%06d", (nstime < 0 && rawisec == 0) ? "-" : "",
+                           rawisec, rawnanosec / 1000);
       break;
     case NANOSECONDEPOCH:
       expected = -1;
@@ -1100,7 +1101,8 @@ ms_nstime2timestr (nstime_t nstime, char *timestr,
       break;
     case UNIXEPOCH:
       expected = -1;
-      printed  = snprintf (timestr, 22, "%" PRId64 ".%09d", rawisec, rawnanosec);
+      printed  = snprintf (timestr, 22, "%s%" PRId64 ".%09d", (nstime < 0 && rawisec == 0) ? "-" : "",
+                           rawisec, rawnanosec);
       break;
     case NANOSECONDEPOCH:
       expected = -1;
@@ -1371,7 +1373,7 @@ ms_timestr2nstime (const char *timestr)
 
     if (fsec != 0.0)
     {
-      if (nstime >= 0)
+      if (timestr[0] != '-')
         nstime += (int)(fsec * 1000000000.0 + 0.5);
       else
         nstime -= (int)(fsec * 1000000000.0 + 0.5);
-- 
2.43.0


From d9064049e8451cb540c69fa2df243f000cf756ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:37 +0000
Subject: [PATCH 35/53] fix: refuse fractional seconds and epoch values out of
 range in time strings

---
 libmseed/genutils.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libmseed/genutils.c b/libmseed/genutils.c
index 393527f..24c4d5c 100644
--- a/libmseed/genutils.c
+++ b/libmseed/genutils.c
@@ -1368,6 +1368,12 @@ ms_timestr2nstime (const char *timestr)
       return NSTERROR;
     }
 
+    if (sec <= INT64_MIN / NSTMODULUS || sec >= INT64_MAX / NSTMODULUS)
+    {
+      ms_log (2, "Epoch value is out of range: '%s'\n", timestr);
+      return NSTERROR;
+    }
+
     /* Convert seconds and fractional seconds to nanoseconds, return combination */
     nstime = MS_EPOCH2NSTIME (sec);
 
@@ -1462,7 +1468,7 @@ ms_mdtimestr2nstime (const char *timestr)
   /* Convert fractional seconds to nanoseconds */
   if (fsec != 0.0)
   {
-    nsec = (uint32_t)(fsec * 1000000000.0 + 0.5);
+    nsec = (fsec > 0.0 && fsec < 1.0) ? (uint32_t)(fsec * 1000000000.0 + 0.5) : UINT32_MAX;
   }
 
   if (fields < 1)
@@ -1568,7 +1574,7 @@ ms_seedtimestr2nstime (const char *seedtimestr)
   /* Convert fractional seconds to nanoseconds */
   if (fsec != 0.0)
   {
-    nsec = (uint32_t)(fsec * 1000000000.0 + 0.5);
+    nsec = (fsec > 0.0 && fsec < 1.0) ? (uint32_t)(fsec * 1000000000.0 + 0.5) : UINT32_MAX;
   }
 
   if (fields < 1)
-- 
2.43.0


From 59991b689319a4ee4e8c316b6b9eafcb8493e6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:52 +0000
Subject: [PATCH 36/53] fix: include the identifier in the size of a repacked
 record

---
 libmseed/pack.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index d9a97dc..818521f 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -438,10 +438,10 @@ msr3_repack_mseed3 (const MS3Record *msr, char *record, uint32_t recbuflen,
     return -1;
   }
 
-  if (recbuflen < (uint32_t)(MS3FSDH_LENGTH + msr->extralength + origdatasize))
+  if (recbuflen < (uint64_t)dataoffset + origdatasize)
   {
-    ms_log (2, "%s: Destination record buffer length (%u) is not large enough for record (%d)\n",
-            msr->sid, recbuflen, (MS3FSDH_LENGTH + msr->extralength + origdatasize));
+    ms_log (2, "%s: Destination record buffer length (%u) is not large enough for record (%" PRIu64 ")\n",
+            msr->sid, recbuflen, (uint64_t)dataoffset + origdatasize);
     return -1;
   }
 
-- 
2.43.0


From d70ab7d265c055b54111abb2a925d964c81111fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:52 +0000
Subject: [PATCH 37/53] fix: no more MEDSNR values than the blockette holds

---
 libmseed/pack.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 818521f..d3f82aa 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1326,6 +1326,10 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
             if (!yyjson_is_num (ehsubiterval))
               continue;
 
+            /* The blockette holds 6 values */
+            if (idx >= 6)
+              break;
+
             pMS2B201_MEDSNR (record + written)[idx++] = (uint8_t)yyjson_get_num (ehsubiterval);
           }
         }
-- 
2.43.0


From 97ecd65e03b34b88c4110eeb72d0795eb166961b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:52 +0000
Subject: [PATCH 38/53] fix: refuse buffers too small for a miniSEED 2 header

---
 libmseed/pack.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index d3f82aa..c90e2a0 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -914,6 +914,13 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
     return -1;
   }
 
+  /* Check that the buffer can hold the fixed header and Blockettes 1000, 1001 and 100 */
+  if (recbuflen < MS2FSDH_LENGTH + 8 + 8 + 12)
+  {
+    ms_log (2, "%s: Buffer length (%u) is not large enough for header\n", msr->sid, recbuflen);
+    return -1;
+  }
+
   /* Check that record length is a power of 2.
    * Power of two if (X & (X - 1)) == 0 */
   if ((reclen & (reclen - 1)) != 0)
-- 
2.43.0


From 05b40f9934aa91fc567ca755f1b142c0781547ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:52 +0000
Subject: [PATCH 39/53] fix: update microseconds of miniSEED 2 records
 following the first

---
 libmseed/pack.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index c90e2a0..83e47c3 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -825,6 +825,11 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
     *pMS2FSDH_MIN (rawrec)  = min;
     *pMS2FSDH_SEC (rawrec)  = sec;
     *pMS2FSDH_FSEC (rawrec) = HO2u ((nsec / 100000), swapflag);
+
+    /* Update microsecond offset if Blockette 1001 is present, always following Blockette 1000 */
+    if (HO2u (*pMS2B1000_NEXT (rawrec + 48), swapflag) == 56 &&
+        HO2u (*pMS2B1001_TYPE (rawrec + 56), swapflag) == 1001)
+      *pMS2B1001_MICROSECOND (rawrec + 56) = (int8_t)((nsec / 1000) % 100);
   }
 
   if (verbose >= 2)
-- 
2.43.0


From c884d5922e5a09cd5f615d09f3419d4a5f03a5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:52 +0000
Subject: [PATCH 40/53] fix: pack more than 2^31 samples and refuse records
 without room for data

---
 libmseed/pack.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 83e47c3..612cf1c 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -300,11 +300,11 @@ msr3_pack_mseed3 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   {
     packsamples = msr_pack_data (encoded,
                                  (char *)msr->datasamples + packoffset,
-                                 (int)(msr->numsamples - totalpackedsamples), maxdatabytes,
+                                 (uint64_t)(msr->numsamples - totalpackedsamples), maxdatabytes,
                                  msr->sampletype, encoding, swapflag,
                                  &datalength, msr->sid, verbose);
 
-    if (packsamples < 0)
+    if (packsamples <= 0)
     {
       ms_log (2, "%s: Error packing data samples\n", msr->sid);
       libmseed_memory.free (encoded);
@@ -758,11 +758,11 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   {
     packsamples = msr_pack_data (encoded,
                                  (char *)msr->datasamples + packoffset,
-                                 (int)(msr->numsamples - totalpackedsamples), maxdatabytes,
+                                 (uint64_t)(msr->numsamples - totalpackedsamples), maxdatabytes,
                                  msr->sampletype, encoding, swapflag,
                                  &datalength, msr->sid, verbose);
 
-    if (packsamples < 0)
+    if (packsamples <= 0)
     {
       ms_log (2, "%s: Error packing data samples\n", msr->sid);
       libmseed_memory.free (encoded);
-- 
2.43.0


From a76c55d56596f57e63dae407035d51fc2d87e3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:52 +0000
Subject: [PATCH 41/53] fix: release record buffers when packing fails

---
 libmseed/pack.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index 612cf1c..a3f0bef 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -225,6 +225,7 @@ msr3_pack_mseed3 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   if (dataoffset < 0)
   {
     ms_log (2, "%s: Cannot pack miniSEED version 3 header\n", msr->sid);
+    libmseed_memory.free (rawrec);
     return -1;
   }
 
@@ -258,6 +259,7 @@ msr3_pack_mseed3 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   if (!samplesize)
   {
     ms_log (2, "%s: Unknown sample type '%c'\n", msr->sid, msr->sampletype);
+    libmseed_memory.free (rawrec);
     return -1;
   }
 
@@ -348,6 +350,7 @@ msr3_pack_mseed3 (const MS3Record *msr, void (*record_handler) (char *, int, voi
     if (ms_nstime2time (nextstarttime, &year, &day, &hour, &min, &sec, &nsec))
     {
       ms_log (2, "%s: Cannot convert next record starttime: %" PRId64 "\n", msr->sid, nextstarttime);
+      libmseed_memory.free (encoded);
       libmseed_memory.free (rawrec);
       return -1;
     }
@@ -668,7 +671,10 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   headerlen = msr3_pack_header2 (msr, rawrec, reclen, verbose);
 
   if (headerlen < 0)
+  {
+    libmseed_memory.free (rawrec);
     return -1;
+  }
 
   /* Short cut: if there are no samples, record packing is complete */
   if (msr->numsamples <= 0)
@@ -698,6 +704,7 @@ msr3_pack_mseed2 (const MS3Record *msr, void (*record_handler) (char *, int, voi
   if (!samplesize)
   {
     ms_log (2, "%s: Unknown sample type '%c'\n", msr->sid, msr->sampletype);
+    libmseed_memory.free (rawrec);
     return -1;
   }
 
-- 
2.43.0


From d3d5abd8c35a65b55816134e38320f503998d247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:23 +0000
Subject: [PATCH 42/53] fix: round negative time corrections to nearest

---
 libmseed/pack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/pack.c b/libmseed/pack.c
index a3f0bef..1b361d5 100644
--- a/libmseed/pack.c
+++ b/libmseed/pack.c
@@ -1108,7 +1108,7 @@ msr3_pack_header2 (const MS3Record *msr, char *record, uint32_t recbuflen, int8_
 
   if (yyjson_ptr_get_num (ehroot, "/FDSN/Time/Correction", &header_number))
   {
-    *pMS2FSDH_TIMECORRECT (record) = HO4d ((int32_t)(header_number * 10000 + 0.5), swapflag);
+    *pMS2FSDH_TIMECORRECT (record) = HO4d ((int32_t)(header_number * 10000 + (header_number < 0 ? -0.5 : 0.5)), swapflag);
 
     /* Set time correction applied bit in activity flags.
        Rationale: V3 records do not allow unapplied time corrections and unapplied
-- 
2.43.0


From 44ad44f90721c668d946e1eea1b17346602cd7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:19 +0000
Subject: [PATCH 43/53] fix: match sample rates within the given tolerance

---
 libmseed/tracelist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index f431b63..8d1480c 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -36,7 +36,7 @@ static uint32_t lm_lcg_r (uint64_t *state);
 static uint8_t lm_random_height (uint8_t maximum, uint64_t *state);
 
 /* Test if two sample rates are similar using either specified tolerance (if positive) or default tolerance */
-#define IS_SAMPRATE_SIMILAR(SR1, SR2, SRT) ((SRT > 0.0) ? fabs (SR1 - SR2) > SRT : MS_ISRATETOLERABLE (SR1, SR2))
+#define IS_SAMPRATE_SIMILAR(SR1, SR2, SRT) ((SRT > 0.0) ? fabs (SR1 - SR2) <= SRT : MS_ISRATETOLERABLE (SR1, SR2))
 
 /**********************************************************************/ /**
  * @brief Initialize a ::MS3TraceList container
-- 
2.43.0


From 29a1c1026570b09f435361b72d375c920a91bea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:19 +0000
Subject: [PATCH 44/53] fix: keep the first segment pointer valid when merging
 segments

---
 libmseed/tracelist.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 8d1480c..8bb236b 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -628,7 +628,9 @@ mstl3_addmsr_recordptr (MS3TraceList *mstl, const MS3Record *msr, MS3RecordPtr *
             return NULL;
           }
 
-          /* Shift last segment pointer if it's going to be removed */
+          /* Shift first and last segment pointers if going to be removed */
+          if (segafter == id->first)
+            id->first = id->first->next;
           if (segafter == id->last)
             id->last = id->last->prev;
 
-- 
2.43.0


From 069c5a968db04c060ca54d4cf7e16028edca35c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:19 +0000
Subject: [PATCH 45/53] fix: read a final record of minimum length from a
 buffer

---
 libmseed/tracelist.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libmseed/tracelist.c b/libmseed/tracelist.c
index 8bb236b..927a4ed 100644
--- a/libmseed/tracelist.c
+++ b/libmseed/tracelist.c
@@ -899,7 +899,7 @@ mstl3_readbuffer_selection (MS3TraceList **ppmstl, const char *buffer, uint64_t
   if ((flags & MSF_UNPACKDATA) && selections)
     pflags &= ~(MSF_UNPACKDATA);
 
-  while ((bufferlength - offset) > MINRECLEN)
+  while ((bufferlength - offset) >= MINRECLEN)
   {
     parsevalue = msr3_parse (buffer + offset, bufferlength - offset, &msr, pflags, verbose);
 
@@ -960,7 +960,10 @@ mstl3_readbuffer_selection (MS3TraceList **ppmstl, const char *buffer, uint64_t
     {
       /* Determine offset to data and length of data payload */
       if (msr3_data_bounds (msr, &dataoffset, &datasize))
+      {
+        msr3_free (&msr);
         return MS_GENERROR;
+      }
 
       recordptr->bufferptr  = buffer + offset;
       recordptr->fileptr    = NULL;
-- 
2.43.0


From 44590a00fb9a82fe574941076142eff312c41a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:10 +0000
Subject: [PATCH 46/53] fix: keep path name ranges and buffer shifts within
 their buffers

---
 libmseed/fileutils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/fileutils.c b/libmseed/fileutils.c
index 43cd33e..203a2fd 100644
--- a/libmseed/fileutils.c
+++ b/libmseed/fileutils.c
@@ -165,7 +165,7 @@ ms3_shift_msfp (MS3FileParam *msfp, int shift)
     return;
   }
 
-  if (shift <= 0 && shift > msfp->readlength)
+  if (shift <= 0 || shift > msfp->readlength)
   {
     ms_log (2, "Cannot shift buffer, shift: %d, readlength: %d, readoffset: %d\n",
             shift, msfp->readlength, msfp->readoffset);
@@ -340,7 +340,7 @@ ms3_readmsr_selection (MS3FileParam **ppmsfp, MS3Record **ppmsr, const char *msp
     strncpy (msfp->path, mspath, sizeof (msfp->path) - 1);
 
     /* Truncate to remove byte range suffix if present or maximum range */
-    if (pathname_range)
+    if (pathname_range && (size_t) (pathname_range - mspath) < sizeof (msfp->path))
     {
       msfp->path[pathname_range - mspath] = '\0';
     }
-- 
2.43.0


From 4e6b594a61cccb0fde352e89c829aac65c7c10df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:30 +0000
Subject: [PATCH 47/53] fix: report extra header values that cannot be stored

---
 libmseed/extraheaders.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index ae9f896..c588fbd 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -462,7 +462,9 @@ mseh_set_ptr_r (MS3Record *msr, const char *ptr,
   /* Serialized extra headers and free parse state if not being retained */
   if (parsestate == NULL)
   {
-    mseh_serialize (msr, &parsed);
+    if (rv == true && mseh_serialize (msr, &parsed) < 0)
+      rv = false;
+
     mseh_free_parsestate (&parsed);
   }
   /* If changes were applied, the immutable form of the document is now invalid */
-- 
2.43.0


From 102e43b755d1499a8db36b6262641170db89e1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:30 +0000
Subject: [PATCH 48/53] fix: read extra headers set in the parse state of a
 record without any

---
 libmseed/extraheaders.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index c588fbd..37416e1 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -166,12 +166,12 @@ mseh_get_ptr_r (const MS3Record *msr, const char *ptr,
   }
 
   /* Nothing can be found in no headers */
-  if (!msr->extralength)
+  if (!msr->extralength && !parsed)
   {
     return 1;
   }
 
-  if (!msr->extra)
+  if (!msr->extra && !parsed)
   {
     ms_log (2, "%s() Expected extra headers (msr->extra) are not present\n", __func__);
     return MS_GENERROR;
-- 
2.43.0


From 69d2b7f9eea01b6025a5bf7a10b81fb58e646dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:30 +0000
Subject: [PATCH 49/53] fix: release the parsed document when replacing extra
 headers

---
 libmseed/extraheaders.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index 37416e1..0619280 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -1118,6 +1118,8 @@ mseh_replace (MS3Record *msr, char *jsonstring)
     /* Serialize new JSON string */
     serialized = yyjson_write_opts (doc, write_flg, &alc, &serialsize, &write_err);
 
+    yyjson_doc_free (doc);
+
     if (serialized == NULL)
     {
       ms_log (2, "%s() Cannot write extra header JSON: %s\n",
-- 
2.43.0


From 1a057e42639c15161d661e8f56b2e6bd942e93c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:09 +0000
Subject: [PATCH 50/53] fix: read extra header integers of 64 bits

---
 libmseed/extraheaders.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index 0619280..1ccbad6 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -233,7 +233,7 @@ mseh_get_ptr_r (const MS3Record *msr, const char *ptr,
   else if (type == 'i' && yyjson_is_int (extravalue))
   {
     if (value)
-      *((int64_t *)value) = unsafe_yyjson_get_int (extravalue);
+      *((int64_t *)value) = unsafe_yyjson_get_sint (extravalue);
   }
   else if (type == 's' && yyjson_is_str (extravalue))
   {
-- 
2.43.0


From d3e197d8dc69da871e5ad4b1d0390b941e8bfeee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:57 +0000
Subject: [PATCH 51/53] fix: report extra headers of an empty parse state as
 not found

---
 libmseed/extraheaders.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmseed/extraheaders.c b/libmseed/extraheaders.c
index 1ccbad6..3ef9fe6 100644
--- a/libmseed/extraheaders.c
+++ b/libmseed/extraheaders.c
@@ -166,12 +166,12 @@ mseh_get_ptr_r (const MS3Record *msr, const char *ptr,
   }
 
   /* Nothing can be found in no headers */
-  if (!msr->extralength && !parsed)
+  if (!msr->extralength && !(parsed && yyjson_mut_doc_get_root (parsed->mut_doc)))
   {
     return 1;
   }
 
-  if (!msr->extra && !parsed)
+  if (!msr->extra && msr->extralength)
   {
     ms_log (2, "%s() Expected extra headers (msr->extra) are not present\n", __func__);
     return MS_GENERROR;
-- 
2.43.0


From 2d67a8b56f1f5eb75a61c98059d1394a8b0ea328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:20 +0000
Subject: [PATCH 52/53] fix: pass the healing flag and flags in order

---
 src/msi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msi.c b/src/msi.c
index 4497db3..7d48209 100644
--- a/src/msi.c
+++ b/src/msi.c
@@ -238,7 +238,7 @@ main (int argc, char **argv)
       }
 
       if (tracegapsum || tracegaponly)
-        mstl3_addmsr (mstl, msr, splitversion, flags, 1, &tolerance);
+        mstl3_addmsr (mstl, msr, splitversion, 1, flags, &tolerance);
 
       if (dataflag)
       {
-- 
2.43.0


From 1921aa57d2b316938d3d40c49de02fd1fe37e1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:20 +0000
Subject: [PATCH 53/53] fix: make room for the longest time string

---
 src/msi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msi.c b/src/msi.c
index 7d48209..3c71c7d 100644
--- a/src/msi.c
+++ b/src/msi.c
@@ -88,7 +88,7 @@ main (int argc, char **argv)
   int64_t totalsamps = 0;
   int64_t totalfiles = 0;
 
-  char stime[30];
+  char stime[40];
 
   /* Set default error message prefix */
   ms_loginit (NULL, NULL, NULL, "ERROR: ");
-- 
2.43.0

