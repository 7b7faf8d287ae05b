From f2382a428ac01685c73574b07721da61de807100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:28 +0000
Subject: [PATCH 01/24] fix: BitContext::write_bits drops a bit of every 6-bit
 chunk (mask 0x2f instead of 0x3f)

---
 src/io/sps_io_bits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/sps_io_bits.cpp b/src/io/sps_io_bits.cpp
index 9ea0c9d..365424f 100644
--- a/src/io/sps_io_bits.cpp
+++ b/src/io/sps_io_bits.cpp
@@ -174,7 +174,7 @@ void BitContext::write_bits(uint64_t value, size_t n) {
         static uint32_t masks[]     =  {
                 0x01, 0x03,
                 0x07, 0x0f,
-                0x1f, 0x2f,
+                0x1f, 0x3f,
                 0x7f, 0xff
         };
 
-- 
2.43.0


From f3f88f153fcc80c8d5357950ce9c749733de7f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:28 +0000
Subject: [PATCH 02/24] fix: BitContext::acquire(nbyte) wraps at 2^29 bytes and
 then reports success

---
 src/io/sps_io_bits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/sps_io_bits.cpp b/src/io/sps_io_bits.cpp
index 365424f..ed11831 100644
--- a/src/io/sps_io_bits.cpp
+++ b/src/io/sps_io_bits.cpp
@@ -57,7 +57,7 @@ size_t BitContext::size() {
 }
 
 error_t BitContext::acquire(uint32_t nbyte) {
-    return acquire_bits(nbyte * 8);
+    return acquire_bits((size_t) nbyte * 8);
 }
 
 error_t BitContext::acquire_bits(size_t nbit) {
-- 
2.43.0


From 29dd3453a01f5fc8acdccc242a5806ce3cb441a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:28 +0000
Subject: [PATCH 03/24] fix: BitContext::skip_read_bytes beyond the end makes
 size() wrap and acquire() succeed

---
 src/io/sps_io_bits.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/sps_io_bits.cpp b/src/io/sps_io_bits.cpp
index ed11831..53c2f19 100644
--- a/src/io/sps_io_bits.cpp
+++ b/src/io/sps_io_bits.cpp
@@ -71,7 +71,8 @@ void BitContext::read_bytes(uint8_t* c, size_t n) {
 }
 
 void BitContext::skip_read_bytes(size_t n) {
-    buf_pos += n;
+    // never leave the buffer: size_bits() would wrap and acquire() succeed
+    buf_pos += std::min(n, sz - buf_pos - 1);
 
     // remain_value is invalid
     if (remain_bits == 0) {
-- 
2.43.0


From ef597b4b031c6ae04d2c0d3ee0de595488b9eb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:53 +0000
Subject: [PATCH 04/24] fix: CharBuffer::append writes into the reserved head
 instead of behind buffer()

---
 src/cache/sps_cache_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cache/sps_cache_buffer.hpp b/src/cache/sps_cache_buffer.hpp
index 753845a..1172e73 100644
--- a/src/cache/sps_cache_buffer.hpp
+++ b/src/cache/sps_cache_buffer.hpp
@@ -78,7 +78,7 @@ class CharBuffer : public IBuffer {
         assert(remain() >= sz);
         len += sz;
     }
-    uint8_t*   pos()              { return buf + len; }
+    uint8_t*   pos()              { return buf + head_len + len; }
     uint32_t   remain()           { return cap_len - len; }
     uint8_t*   head_pos()         { return head_len ? buf : nullptr; }
     uint32_t   head_size()            { return head_len; }
-- 
2.43.0


From 845d11f56fcbe64b12112be92bd98a333d8323cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:02 +0000
Subject: [PATCH 05/24] fix: a payload unit start is never recognised, the ts
 cache grows without bound

---
 src/avformat/sps_avformat_packet.cpp | 2 +-
 src/avformat/sps_avformat_tsdec.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/avformat/sps_avformat_packet.cpp b/src/avformat/sps_avformat_packet.cpp
index 40678cc..9c0dac1 100644
--- a/src/avformat/sps_avformat_packet.cpp
+++ b/src/avformat/sps_avformat_packet.cpp
@@ -121,7 +121,7 @@ bool AVPacket::is_pmt() {
 }
 
 bool AVPacket::is_payload_unit_start_indicator() {
-    return stream_type == AV_STREAM_PES && (pkt_type.pkt_type & 0x80000000)  == 1;
+    return stream_type == AV_STREAM_PES && (pkt_type.pkt_type & 0x80000000) != 0;
 }
 
 void AVPacket::debug() {
diff --git a/src/avformat/sps_avformat_tsdec.cpp b/src/avformat/sps_avformat_tsdec.cpp
index 72786fd..76b78a9 100644
--- a/src/avformat/sps_avformat_tsdec.cpp
+++ b/src/avformat/sps_avformat_tsdec.cpp
@@ -43,7 +43,7 @@ error_t TsCache::on_packet(uint8_t *buf, size_t len,
         TsProgramType ts_type, int payload_unit_start_indicator) {
     auto pkt = AVPacket::create(AV_MESSAGE_DATA,
             ts_type == TS_PROGRAM_PES ? AV_STREAM_PES : AV_STREAM_PSI,
-            AVPacketType{ts_type | (payload_unit_start_indicator >> 31)},
+            AVPacketType{(int) (ts_type | ((uint32_t) payload_unit_start_indicator << 31))},
             buf,
             len, 0, 0);
     return cache->put(pkt);
-- 
2.43.0


From 61bf9841f82da82ed6db3190784cc7ff658bcf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:25 +0000
Subject: [PATCH 06/24] fix: flv demuxer reads the codec header beyond a tag
 smaller than it

---
 src/avformat/sps_avformat_flvdec.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/avformat/sps_avformat_flvdec.cpp b/src/avformat/sps_avformat_flvdec.cpp
index b043f00..39427ed 100644
--- a/src/avformat/sps_avformat_flvdec.cpp
+++ b/src/avformat/sps_avformat_flvdec.cpp
@@ -132,6 +132,14 @@ error_t FlvDemuxer::read_packet(PAVPacket& buffer) {
              "previous: %10u, data_size: %10.u, ",
             stream_type, pkt_type, flags, previous_size, data_size);
 
+    // only data_size bytes are acquired: the codec header must not reach beyond the tag
+    const int codec_head_len = stream_type == AV_STREAM_TYPE_AUDIO ? 2 :
+                               stream_type == AV_STREAM_TYPE_VIDEO ? 1 : 0;
+    if (data_size < codec_head_len) {
+        sp_error("tag too small %d", data_size);
+        return ERROR_FLV_TAG;
+    }
+
     if (stream_type == AV_STREAM_TYPE_AUDIO) {
         flags   = rd->read_int8();
         // channels    = flags & 0x01    // (0. SndMomo 1. SndStero)
@@ -160,6 +168,10 @@ error_t FlvDemuxer::read_packet(PAVPacket& buffer) {
         --data_size;
 
         if (frame_type != 0x50) {
+            if (data_size < 4) {
+                sp_error("tag too small %d", data_size);
+                return ERROR_FLV_TAG;
+            }
             // 0. avc sequence header 1. avc data 2. avc end data
             pkt_type = rd->read_int8();
 
-- 
2.43.0


From 3c705229bd66f340c144aac9c10d77f4354b8e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:51 +0000
Subject: [PATCH 07/24] fix: rtp header extension length is in 32-bit words,
 its content was taken for payload

---
 src/avformat/sps_avformat_rtp.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/avformat/sps_avformat_rtp.cpp b/src/avformat/sps_avformat_rtp.cpp
index 72476d7..b02b51b 100644
--- a/src/avformat/sps_avformat_rtp.cpp
+++ b/src/avformat/sps_avformat_rtp.cpp
@@ -100,14 +100,17 @@ error_t RtpPayloadHeader::decode_extension(BitContext &bc) {
         return ret;
     }
 
-    if ((ret = bc.acquire(extension_info.length)) != SUCCESS) {
+    // length counts 32-bit words (rfc3550 5.3.1)
+    size_t size = (size_t) extension_info.length * 4;
+
+    if ((ret = bc.acquire(size)) != SUCCESS) {
         sp_error("fail require rtp header extension length %u",
                  extension_info.length);
         return ret;
     }
 
-    extension_info.header_extension = std::make_unique<uint8_t[]>(extension_info.length);
-    bc.read_bytes(extension_info.header_extension.get(), extension_info.length);
+    extension_info.header_extension = std::make_unique<uint8_t[]>(size);
+    bc.read_bytes(extension_info.header_extension.get(), size);
 
     return ret;
 }
-- 
2.43.0


From 5beb9014931a1c4885773f1b96c4cfa5bf5ad566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:51 +0000
Subject: [PATCH 08/24] fix: a first rtp packet with the marker bit set is
 refused as unknown payload type

---
 src/avformat/sps_avformat_rtpdec.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/avformat/sps_avformat_rtpdec.cpp b/src/avformat/sps_avformat_rtpdec.cpp
index 3324d07..55682d6 100644
--- a/src/avformat/sps_avformat_rtpdec.cpp
+++ b/src/avformat/sps_avformat_rtpdec.cpp
@@ -127,7 +127,8 @@ error_t RtpDemuxer::read_packet(PAVPacket& buffer) {
             continue;
         }
 
-        if (!rtp_decoder && (ret = init_rtp_decode(pay_type)) != SUCCESS) {
+        // the high bit is the marker
+        if (!rtp_decoder && (ret = init_rtp_decode(pay_type & 0x7f)) != SUCCESS) {
             sp_error("[rtp] decoder not init ret %d", ret);
             return ERROR_RTP_PROBE;
         }
-- 
2.43.0


From e397db92fc8ce2e95493685a70029fd170884e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:51 +0000
Subject: [PATCH 09/24] fix: RtpDemuxer::init_codec reports an error after
 selecting the aac decoder

---
 src/avformat/sps_avformat_rtpdec.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/avformat/sps_avformat_rtpdec.cpp b/src/avformat/sps_avformat_rtpdec.cpp
index 55682d6..6542826 100644
--- a/src/avformat/sps_avformat_rtpdec.cpp
+++ b/src/avformat/sps_avformat_rtpdec.cpp
@@ -77,6 +77,7 @@ error_t RtpDemuxer::init_codec(int codec_id) {
             break;
         case AVCODEC_AAC:
             rtp_decoder = std::make_shared<AacRtpDecoder>();
+            break;
         default:
             sp_error("not found codec %d", codec_id);
             return ERROR_RTP_PROBE;
-- 
2.43.0


From a10b5dc3b8f901f3c488c0d52f8e74e3ad6e05b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:03 +0000
Subject: [PATCH 10/24] fix: every rtcp source description is decoded into the
 end of the list, out of any object

---
 src/avformat/sps_avformat_rtpdec_rtcp.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_rtcp.cpp b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
index e34f73c..44403fe 100644
--- a/src/avformat/sps_avformat_rtpdec_rtcp.cpp
+++ b/src/avformat/sps_avformat_rtpdec_rtcp.cpp
@@ -155,9 +155,7 @@ error_t RtcpSDESDecoder::decode(RtcpHead &h, BitContext &bc) {
 
     for (int i = 0; i < h.cflag; ++i) {
         sdes.push_back(sd);
-        auto it = sdes.end();
-
-        if ((ret = it->decode(bc)) != SUCCESS) {
+        if ((ret = sdes.back().decode(bc)) != SUCCESS) {
             sp_error("[rtp@rtcp] sdes decode %dth fail num %d, ret %d", i, (int) h.cflag, ret);
             return ret;
         }
-- 
2.43.0


From 3f9afe39d3de9282ef960fa6d7b6a3400024fcd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:49 +0000
Subject: [PATCH 11/24] fix: rtp h264 aggregation packets (stap) are split at
 the wrong offsets, with 8 bit sizes

---
 src/avformat/sps_avformat_rtpdec_h264_hevc.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index 6821c0f..5e5faca 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -90,23 +90,33 @@ error_t StapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
                                BitContext &bc, std::list<PAVPacket> &pkts) {
     error_t ret = SUCCESS;
 
-    if (tp == STAP_B) {
-        bc.skip_read_bytes(2);
+    // stap header, don (stap-b)
+    int head_len = tp == STAP_B ? 3 : 1;
+
+    if ((ret = bc.acquire(head_len)) != SUCCESS) {
+        return ret;
     }
+    bc.skip_read_bytes(head_len);
 
     while (bc.size() > 0) {
-        int size = bc.read_int8();
+        // nalu_size(2)
+        if ((ret = bc.acquire(2)) != SUCCESS) {
+            return ret;
+        }
+        int size = bc.read_int16();
 
         if ((ret = bc.acquire(size)) != SUCCESS) {
             return ret;
         }
 
         NaluRtpDecoder dc;
-        ret = dc.decode(tp, header, bc, pkts);
+        BitContext nalu(bc.pos(), size);
+        ret = dc.decode(tp, header, nalu, pkts);
         if (ret != SUCCESS) {
             sp_error("[rtp@h264] stap-decode ret %d", ret);
             return ret;
         }
+        bc.skip_read_bytes(size);
     }
 
     return ret;
-- 
2.43.0


From ee15cd70eb409d5af9fb26a9acc89436add464a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:06 +0000
Subject: [PATCH 12/24] fix: rtp h264 aggregation packets (mtap) are split at
 the wrong offsets, with 8 bit sizes

---
 src/avformat/sps_avformat_rtpdec_h264_hevc.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index 5e5faca..2993134 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -128,18 +128,19 @@ error_t MtapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     error_t ret = SUCCESS;
     int offset_len = tp == MTAP16 ? 2 : 3;
 
-    if (tp == MTAP24) {
-        bc.skip_read_bytes(3); // donb decoding order number base
+    // mtap header(1) + donb decoding order number base(2)
+    if ((ret = bc.acquire(3)) != SUCCESS) {
+        return ret;
     }
+    bc.skip_read_bytes(3);
 
     while (bc.size() > 0) {
-        //  mtap header
-        //  nalu_size(1) + nalu_dond(1) +  nalu_ts_offset(16 or 24)
-        if ((ret = bc.acquire(1 + 1 + offset_len)) != SUCCESS) {
+        //  nalu_size(2) + nalu_dond(1) +  nalu_ts_offset(16 or 24)
+        if ((ret = bc.acquire(2 + 1 + offset_len)) != SUCCESS) {
             return ret;
         }
 
-        auto nalu_size = bc.read_int8();
+        auto nalu_size = bc.read_int16();
         auto nalu_dond = bc.read_int8();
         auto nalu_ts_offset = offset_len == 3 ? bc.read_int24() : bc.read_int16();
 
@@ -148,11 +149,13 @@ error_t MtapRtpDecoder::decode(int tp, RtpPayloadHeader &header,
         }
 
         NaluRtpDecoder dc;
-        ret = dc.decode(tp, header, bc, pkts);
+        BitContext nalu(bc.pos(), nalu_size);
+        ret = dc.decode(tp, header, nalu, pkts);
         if (ret != SUCCESS) {
             sp_error("[rtp@h264] mtap-decode ret %d", ret);
             return ret;
         }
+        bc.skip_read_bytes(nalu_size);
     }
     return ret;
 }
-- 
2.43.0


From 1e98195a1b1e4295aeca2802e83ac8ed886265dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:14 +0000
Subject: [PATCH 13/24] fix: a fu-b fragment too short for its don is accepted

---
 src/avformat/sps_avformat_rtpdec_h264_hevc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index 2993134..e0be4a9 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -174,6 +174,10 @@ error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
     }
 
     if (fu.indicator.tp == FU_B) {
+        if ((ret = bc.acquire(2)) != SUCCESS) {
+            sp_error("[rtp@h264] fu-b don ret %d", ret);
+            return ret;
+        }
         bc.skip_read_bytes(2); // don
     }
     // start nalu
-- 
2.43.0


From c1fce4b203d4e34259a4b6e651b93b1b437f0807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:14 +0000
Subject: [PATCH 14/24] fix: a lost or refused end fragment makes every later
 fragmented h264 nalu fail

---
 src/avformat/sps_avformat_rtpdec_h264_hevc.cpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index e0be4a9..6bc2b7a 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -185,16 +185,7 @@ error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
         sp_debug("fu starting tp %d, indicator %d", tp, fu.indicator.tp);
 
         if (pkt) {
-            return ERROR_RTP_DECODER_H264;
-            //            NaluRtpDecoder dc;
-            //            RtpPayloadHeader tmp_header;
-            //            tmp_header.fix_header.timestamp = pre_rtp_timestamp;
-            //            BitContext nbc(pkt->pos(), pkt->size());
-            //            ret = dc.decode(tp, tmp_header, nbc, pkts);
-            //            if (ret != SUCCESS) {
-            //                sp_error("[rtp@h264] fu-decode ret %d", ret);
-            //                return ret;
-            //            }
+            sp_warn("[rtp@h264] the end of the last fu is lost, drop %u", pkt->size());
         }
         pkt = std::make_shared<CharBuffer>(RTP_NALU_MAX_LENGTH, 0);
 
@@ -223,13 +214,13 @@ error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
         BitContext nbc(pkt->buffer(), pkt->size());
         ret = dc.decode(tp, header, nbc, pkts);
 
+        // free the pkt
+        pkt.reset();
+
         if (ret != SUCCESS) {
             sp_error("[rtp@h264] fu-decode ret %d", ret);
             return ret;
         }
-
-        // free the pkt
-        pkt.reset();
     }
 
     return ret;
-- 
2.43.0


From 2a27f2e7b0fc27269fa3549532aa0c4b9f4695c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:14 +0000
Subject: [PATCH 15/24] fix: fragments of one h264 nalu beyond 1 MB abort the
 server

---
 src/avformat/sps_avformat_rtpdec_h264_hevc.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
index 6bc2b7a..35a8b87 100644
--- a/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
+++ b/src/avformat/sps_avformat_rtpdec_h264_hevc.cpp
@@ -202,6 +202,12 @@ error_t FuRtpDecoder::decode(int tp, RtpPayloadHeader &header,
         return SUCCESS;
     }
 
+    if (bc.size() > pkt->remain()) {
+        sp_error("[rtp@h264] fu nalu too large %u + %lu", pkt->size(), bc.size());
+        pkt.reset();
+        return ERROR_RTP_DECODER_H264;
+    }
+
     // nalu payload
     pkt->append(bc.pos(), bc.size());
     bc.skip_read_bytes(bc.size());
-- 
2.43.0


From e74b9e27b256a2b0d3c8e13722133f4d38fa5f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:42 +0000
Subject: [PATCH 16/24] fix: adts streams with a crc repeat the aac sequence
 header in front of every frame

---
 src/avcodec/sps_avcodec_aac_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avcodec/sps_avcodec_aac_parser.cpp b/src/avcodec/sps_avcodec_aac_parser.cpp
index 5c0d5d1..6482cd1 100644
--- a/src/avcodec/sps_avcodec_aac_parser.cpp
+++ b/src/avcodec/sps_avcodec_aac_parser.cpp
@@ -55,7 +55,7 @@ AdtsFixedHeader::AdtsFixedHeader() {
 }
 
 bool AdtsFixedHeader::operator==(const AdtsFixedHeader &header) {
-    return protection_absent = header.protection_absent &&
+    return protection_absent == header.protection_absent &&
             profile == header.profile &&
             sampling_frequency_index == header.sampling_frequency_index &&
                     channel_configuration == header.channel_configuration &&
-- 
2.43.0


From cc7abc0f0a8fe389c30006333d26d50bee068914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:42 +0000
Subject: [PATCH 17/24] fix: adts crc is read beyond the end of the input

---
 src/avcodec/sps_avcodec_aac_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/avcodec/sps_avcodec_aac_parser.cpp b/src/avcodec/sps_avcodec_aac_parser.cpp
index 6482cd1..51a9737 100644
--- a/src/avcodec/sps_avcodec_aac_parser.cpp
+++ b/src/avcodec/sps_avcodec_aac_parser.cpp
@@ -96,6 +96,10 @@ error_t AdtsFixedHeader::decode(BitContext *bc) {
     no_raw_data_blocks_in_frame = bc->read_bits(2);
 
     if (!protection_absent) {
+        if (bc->acquire(2) != SUCCESS) {
+            sp_error("aac crc size < 2");
+            return ERROR_AAC_DECODER;
+        }
         crc16 = bc->read_bits(16);
     }
 
-- 
2.43.0


From 7a5d90d39c68cf47289a75642388c7ae8e0107c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:54 +0000
Subject: [PATCH 18/24] fix: adts frame length below its header or beyond the
 input is not refused

---
 src/avcodec/sps_avcodec_aac_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/avcodec/sps_avcodec_aac_parser.cpp b/src/avcodec/sps_avcodec_aac_parser.cpp
index 51a9737..4c3a0a8 100644
--- a/src/avcodec/sps_avcodec_aac_parser.cpp
+++ b/src/avcodec/sps_avcodec_aac_parser.cpp
@@ -177,6 +177,10 @@ error_t AacAVCodecParser::encode_avc(AVCodecContext *ctx, uint8_t *in_buf,
                      FLV_SAMPLESSIZE_16BIT | FLV_STEREO;
 
         int buf_size = tmp_header.aac_frame_length - 7 - (tmp_header.protection_absent == 1 ? 0 : 2);
+        if (buf_size < 0 || (ret = bc.acquire(buf_size)) != SUCCESS) {
+            sp_error("aac frame length %d, remain %lu", tmp_header.aac_frame_length, bc.size());
+            return ERROR_AAC_DECODER;
+        }
         auto pkt = AVPacket::create(
                 AV_MESSAGE_DATA,
                 AV_STREAM_TYPE_AUDIO,
-- 
2.43.0


From e2acde6ecb47f973197652f439e6d925b0235153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:10 +0000
Subject: [PATCH 19/24] fix: the zero byte of a four byte start code is taken
 as data of the h264 nalu before it

---
 src/avcodec/sps_avcodec_h264_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/avcodec/sps_avcodec_h264_parser.cpp b/src/avcodec/sps_avcodec_h264_parser.cpp
index 7a0dc7c..d55e8c5 100644
--- a/src/avcodec/sps_avcodec_h264_parser.cpp
+++ b/src/avcodec/sps_avcodec_h264_parser.cpp
@@ -202,6 +202,10 @@ error_t NALUParser::decode_data(uint8_t* buf, size_t sz,
                 return ERROR_H264_DECODER;
             }
             uint8_t* end_pos = find_start_code(start_pos + 1, bc.pos() + bc.size() - start_pos - 1);
+            // the leading zero of a four byte start code 00 00 00 01 is not nalu data
+            if (end_pos && end_pos[-1] == 0) {
+                --end_pos;
+            }
             nalu_size = end_pos ? end_pos - start_pos - 3 : (tail - start_pos - 3);
 
             if (!end_pos) {
-- 
2.43.0


From fe75f972c6c3f5d06528f7e2376dc53433af0224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:10 +0000
Subject: [PATCH 20/24] fix: short h264 nalus at the end of avc data with a
 1..3 byte length are dropped

---
 src/avcodec/sps_avcodec_h264_parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/avcodec/sps_avcodec_h264_parser.cpp b/src/avcodec/sps_avcodec_h264_parser.cpp
index d55e8c5..5cc6e04 100644
--- a/src/avcodec/sps_avcodec_h264_parser.cpp
+++ b/src/avcodec/sps_avcodec_h264_parser.cpp
@@ -190,7 +190,10 @@ error_t NALUParser::decode_data(uint8_t* buf, size_t sz,
     BitContext bc(buf, sz);
     uint8_t* tail = bc.pos() + bc.size();
 
-    while (bc.acquire(4) == SUCCESS) {
+    // nalu length field, or start code and at least one byte
+    uint32_t head_size = is_avc ? nalu_length_size_minus_one + 1 : 4;
+
+    while (bc.acquire(head_size) == SUCCESS) {
         size_t nalu_size = 0;
 
         if (is_avc) {
-- 
2.43.0


From 07235e765226bcd8010382cd7f3ed89c9bc6ee1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:10 +0000
Subject: [PATCH 21/24] fix: avc configuration records are decoded at wrong
 offsets and beyond their end

---
 src/avcodec/sps_avcodec_h264_parser.cpp | 41 +++++++++++++++----------
 src/avcodec/sps_avcodec_h264_parser.hpp |  2 ++
 2 files changed, 27 insertions(+), 16 deletions(-)

diff --git a/src/avcodec/sps_avcodec_h264_parser.cpp b/src/avcodec/sps_avcodec_h264_parser.cpp
index 5cc6e04..96cebb8 100644
--- a/src/avcodec/sps_avcodec_h264_parser.cpp
+++ b/src/avcodec/sps_avcodec_h264_parser.cpp
@@ -146,30 +146,21 @@ error_t NALUParser::decode_header(uint8_t* buf, size_t sz,
 
         int sps_num = bc.read_bits(5);
         for (int i = 0; i < sps_num; ++i) {
-            int nalu_size = bc.read_int16() + 2;
-            if ((ret = bc.acquire(nalu_size)) != SUCCESS) {
-                sp_error("fail acquire nalu size %d, ret %d", nalu_size, ret);
-                return ERROR_H264_DECODER;
-            }
-
-            if ((ret = decode_data(bc.pos(), nalu_size, ctx)) != SUCCESS) {
+            if ((ret = decode_header_nalu(&bc, ctx)) != SUCCESS) {
                 return ret;
             }
-            bc.skip_read_bytes(nalu_size);
+        }
+
+        if (bc.acquire(1) != SUCCESS) {
+            sp_error("avc no pps num");
+            return ERROR_H264_DECODER;
         }
 
         int pps_num = bc.read_int8();
         for (int i = 0; i < pps_num; ++i) {
-            int nalu_size = bc.read_int16() + 2;
-            if ((ret = bc.acquire(nalu_size)) != SUCCESS) {
-                sp_error("fail acquire nalu size %d, ret %d", nalu_size, ret);
-                return ERROR_H264_DECODER;
-            }
-
-            if ((ret = decode_data(bc.pos(), nalu_size, ctx)) != SUCCESS) {
+            if ((ret = decode_header_nalu(&bc, ctx)) != SUCCESS) {
                 return ret;
             }
-            bc.skip_read_bytes(nalu_size);
         }
     } else {
         is_avc = false;
@@ -179,6 +170,24 @@ error_t NALUParser::decode_header(uint8_t* buf, size_t sz,
     return ret;
 }
 
+error_t NALUParser::decode_header_nalu(BitContext* bc, NALUContext* ctx) {
+    // nalu size (16bit) + nalu data, no start code
+    if (bc->acquire(2) != SUCCESS) {
+        sp_error("fail acquire nalu size");
+        return ERROR_H264_DECODER;
+    }
+
+    int nalu_size = bc->read_int16();
+    if (bc->acquire(nalu_size) != SUCCESS) {
+        sp_error("fail acquire nalu size %d", nalu_size);
+        return ERROR_H264_DECODER;
+    }
+
+    error_t ret = ctx->append(bc->pos(), nalu_size);
+    bc->skip_read_bytes(nalu_size);
+    return ret;
+}
+
 error_t NALUParser::decode_data(uint8_t* buf, size_t sz,
                                 NALUContext* ctx) {
     error_t ret = SUCCESS;
diff --git a/src/avcodec/sps_avcodec_h264_parser.hpp b/src/avcodec/sps_avcodec_h264_parser.hpp
index cef05df..fb8eb66 100644
--- a/src/avcodec/sps_avcodec_h264_parser.hpp
+++ b/src/avcodec/sps_avcodec_h264_parser.hpp
@@ -30,6 +30,7 @@ SOFTWARE.
 #include <sps_util_typedef.hpp>
 #include <sps_avcodec_parser.hpp>
 #include <sps_avformat_packet.hpp>
+#include <sps_io_bits.hpp>
 
 /*
  * Table 7-1 – NAL unit type codes, syntax element categories, and NAL unit type classes in
@@ -138,6 +139,7 @@ class NALUParser {
  private:
     error_t decode_header(uint8_t* buf, size_t sz,
                           NALUContext* ctx);
+    error_t decode_header_nalu(BitContext* bc, NALUContext* ctx);
     error_t decode_data(uint8_t* buf, size_t sz,
                         NALUContext* ctx);
 
-- 
2.43.0


From 9b99cb073c29c08248bee3b413346491ebb70eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:10 +0000
Subject: [PATCH 22/24] fix: avc configuration record loses profile
 compatibility and its reserved bits

---
 src/avcodec/sps_avcodec_h264_parser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/avcodec/sps_avcodec_h264_parser.cpp b/src/avcodec/sps_avcodec_h264_parser.cpp
index 96cebb8..07a210e 100644
--- a/src/avcodec/sps_avcodec_h264_parser.cpp
+++ b/src/avcodec/sps_avcodec_h264_parser.cpp
@@ -285,11 +285,11 @@ error_t NALUParser::encode_avc(NALUContext *ctx, std::list<PAVPacket>& pkts) {
         BitContext bc(pkt->buffer(), pkt->cap());
         bc.write_int8(0x01);  // avc version
         bc.write_int8(sps->nalu_buf[1]);  // avc profile
-        bc.write_int8(0x00);  // avc compatibility
+        bc.write_int8(sps->nalu_buf[2]);  // avc compatibility
         bc.write_int8(sps->nalu_buf[3]);  // avc level
-        bc.write_int8(nalu_length_size_minus_one);  // avc level
+        bc.write_int8(0xfc | nalu_length_size_minus_one);  // reserved, nalu length size
 
-        bc.write_int8(1);  // 1 sps num
+        bc.write_int8(0xe0 | 1);  // reserved, 1 sps num
         bc.write_int16(sps->nalu_size);
         // bc.write_int32(0x01);  // nalu start code 00 00 00 01
         bc.write_bytes(sps->nalu_buf, sps->nalu_size);
-- 
2.43.0


From 7170f9ab449ffcf0bd9fcbe2371baf81c5b1b310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:10 +0000
Subject: [PATCH 23/24] fix: h264 parameter sets larger than 65535 bytes give a
 corrupt configuration record

---
 src/avcodec/sps_avcodec_h264_parser.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/avcodec/sps_avcodec_h264_parser.cpp b/src/avcodec/sps_avcodec_h264_parser.cpp
index 07a210e..023de5b 100644
--- a/src/avcodec/sps_avcodec_h264_parser.cpp
+++ b/src/avcodec/sps_avcodec_h264_parser.cpp
@@ -262,11 +262,17 @@ error_t NALUParser::encode_avc(NALUContext *ctx, std::list<PAVPacket>& pkts) {
         int pkt_sz = 5 + 1 + (sps ? 2 + (0 + sps->nalu_size) : 0) +
                          1 + (pps ? 2 + (0 + pps->nalu_size) : 0);
 
-        if (sps->nalu_size < 4) {
+        // profile, compatibility and level are read, sizes are written in 16 bits
+        if (sps->nalu_size < 4 || sps->nalu_size > 0xffff) {
             sp_error("sps size %lu", sps->nalu_size);
             return ERROR_H264_ENCODER;
         }
 
+        if (pps && pps->nalu_size > 0xffff) {
+            sp_error("pps size %lu", pps->nalu_size);
+            return ERROR_H264_ENCODER;
+        }
+
         uint8_t flag = H264;
         // 1 keyframe 2. inner 3. h263 disposable 4.5. frame info or order frame
         uint8_t frame_type = 0x01 << 4;
-- 
2.43.0


From 168b42443841b5240011995e32018d23aac3f265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:10 +0000
Subject: [PATCH 24/24] fix: an empty raw h264 nalu is read when it is refused

---
 src/avcodec/sps_avcodec_h264_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/avcodec/sps_avcodec_h264_parser.cpp b/src/avcodec/sps_avcodec_h264_parser.cpp
index 023de5b..1842203 100644
--- a/src/avcodec/sps_avcodec_h264_parser.cpp
+++ b/src/avcodec/sps_avcodec_h264_parser.cpp
@@ -385,7 +385,7 @@ error_t H264AVCodecParser::encode_raw_nalu(AVCodecContext *ctx, uint8_t *in_buf,
     error_t ret = nalus.append(in_buf, in_size);
 
     if (ret != SUCCESS) {
-        sp_error("[h264] append nalu fail ret %d nalu_header %x", ret, in_buf[0]);
+        sp_error("[h264] append nalu fail ret %d, size %d", ret, in_size);
         return ret;
     }
 
-- 
2.43.0

