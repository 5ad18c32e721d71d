From 5dd42d14183358f9b90a79c0e4e8bad9f1510024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 1/2] fix: use the word type's own sbox code when it has one,
 also with the alternative sbox

AVX2 loads sbox and permute outputs without deinterleaving because its
BLOCK_SBOX_PERMUTE has already done that. With --enable-alt-sbox the
generic version replaced it and every batch call gave wrong results.
---
 src/dvbcsa_bs_block.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/dvbcsa_bs_block.c b/src/dvbcsa_bs_block.c
index 470e299..4c1e664 100644
--- a/src/dvbcsa_bs_block.c
+++ b/src/dvbcsa_bs_block.c
@@ -89,7 +89,9 @@ static const uint16_t dvbcsa_block_sbox_perm[256] =
     0x388c, 0x1a89, 0xe166, 0x7ffd, 0xccb2, 0x5aa9, 0x9e9b, 0x09c0,
   };
 
-#ifdef DVBCSA_USE_ALT_SBOX
+/* the word type may have its own version, in the order its
+   BS_LOAD_DEINTERLEAVE_8 expects */
+#if defined(DVBCSA_USE_ALT_SBOX) && !defined(BLOCK_SBOX_PERMUTE)
 
 #define BLOCK_SBOX_PERMUTE(in_buf, out_buf) \
     { \
-- 
2.43.0


From f7544b3e56da0e2f872d0690fdb186059c439e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 2/2] fix: process only the first maxlen bytes of longer
 packets

A packet longer than DVBCSA_BS_MAX_PACKET_LEN was copied in full into its
184 byte slot, overwriting the next slots and then the stack.
---
 src/dvbcsa_bs_algo.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/dvbcsa_bs_algo.c b/src/dvbcsa_bs_algo.c
index 54ff830..78c6fb2 100644
--- a/src/dvbcsa_bs_algo.c
+++ b/src/dvbcsa_bs_algo.c
@@ -47,8 +47,11 @@ static void dvbcsa_pkt_buf_load(struct dvbcsa_bs_pkt_buf *pkt_buf,
 
   for (i = 0; pcks[i].data; i++, block += BS_PKT_BLOCKS8)
     {
-      pkt_buf->len8[i] = pcks[i].len & (unsigned)~0x7;
-      memcpy(block, pcks[i].data, pcks[i].len);
+      /* packets greater than the limit are only partially processed */
+      unsigned int len = pcks[i].len < maxlen ? pcks[i].len : maxlen;
+
+      pkt_buf->len8[i] = len & (unsigned)~0x7;
+      memcpy(block, pcks[i].data, len);
     }
 
   pkt_buf->n_packets = i;
@@ -62,7 +65,8 @@ static void dvbcsa_pkt_buf_store(const struct dvbcsa_bs_pkt_buf *pkt_buf,
   const dvbcsa_bs_block8_t *block = pkt_buf->data;
 
   for (i = 0; pcks[i].data; i++, block += BS_PKT_BLOCKS8)
-    memcpy(pcks[i].data, block, pcks[i].len);
+    memcpy(pcks[i].data, block,
+           pcks[i].len < pkt_buf->maxlen ? pcks[i].len : pkt_buf->maxlen);
 }
 
 void dvbcsa_bs_decrypt(const struct dvbcsa_bs_key_s *key,
-- 
2.43.0

