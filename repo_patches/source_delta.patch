From 8636cbaf94dbf7ac72e3ab56cfc042d38199090c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:16 +0000
Subject: [PATCH 001/115] fix: terminate the variable table of the codec module

ngx_rtmp_codec_add_variables() reads until an empty name; the table had no
such entry, so parsing any rtmp{} block read past its end.
---
 modules/nginx-rtmp-module/ngx_rtmp_codec_module.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 37a3ecb..8621f5f 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -102,7 +102,9 @@ static ngx_rtmp_variable_t  ngx_rtmp_codec_variabes[] = {
     { ngx_string("metadata"), NULL, ngx_rtmp_codec_variable_metadata,
       0, NGX_RTMP_VAR_NOCACHEABLE|NGX_RTMP_VAR_PREFIX, 0 },
     { ngx_string("metadata_"), NULL, ngx_rtmp_codec_variable_metadata_arg,
-      0, NGX_RTMP_VAR_NOCACHEABLE|NGX_RTMP_VAR_PREFIX, 0 }
+      0, NGX_RTMP_VAR_NOCACHEABLE|NGX_RTMP_VAR_PREFIX, 0 },
+
+    { ngx_null_string, NULL, NULL, 0, 0, 0 }
 };
 
 static const char *
-- 
2.43.0


From ffd92c6d9e717dde97563c9709487692f358d222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:37 +0000
Subject: [PATCH 002/115] fix: keep unread input when the peer reduces its RTMP
 chunk size

The bytes already read were moved into a buffer sized for the new chunk size
and overflowed it.
---
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 40 ++++++++++++++++----
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index 0b1c02e..660d0ba 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -201,8 +201,8 @@ ngx_rtmp_recv(ngx_event_t *rev)
     ngx_rtmp_stream_t          *st, *st0;
     ngx_chain_t                *in, *head;
     ngx_buf_t                  *b;
-    u_char                     *p, *pp, *old_pos;
-    size_t                      size, fsize, old_size;
+    u_char                     *p, *pp, *old_pos, *rest;
+    size_t                      size, fsize, old_size, rest_size;
     uint8_t                     fmt, ext;
     uint32_t                    csid, timestamp, extimestamp = 0;
 
@@ -211,6 +211,8 @@ ngx_rtmp_recv(ngx_event_t *rev)
     b = NULL;
     old_pos = NULL;
     old_size = 0;
+    rest = NULL;
+    rest_size = 0;
     cscf = ngx_rtmp_get_module_srv_conf(s, ngx_rtmp_core_module);
 
     if (c->destroyed) {
@@ -241,16 +243,38 @@ ngx_rtmp_recv(ngx_event_t *rev)
         in = st->in;
         b  = in->buf;
 
-        if (old_size) {
+        if (old_size || rest_size) {
 
             ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
-                    "reusing formerly read data: %d", old_size);
-
-            b->pos = b->start;
-            b->last = ngx_movemem(b->pos, old_pos, old_size);
+                    "reusing formerly read data: %d", old_size + rest_size);
 
             if (s->in_chunk_size_changing) {
+                /* buffers of the new size may be too small for
+                 * all the data read so far, keep it aside */
+                pp = ngx_palloc(s->in_pool, old_size + rest_size);
+                if (pp == NULL) {
+                    ngx_rtmp_finalize_session(s);
+                    return;
+                }
+                p = ngx_cpymem(pp, old_pos, old_size);
+                if (rest_size) {
+                    ngx_memcpy(p, rest, rest_size);
+                }
+                rest = pp;
+                rest_size += old_size;
+
                 ngx_rtmp_finalize_set_chunk_size(s);
+
+            } else if (old_pos) {
+                b->pos = b->start;
+                b->last = ngx_movemem(b->pos, old_pos, old_size);
+            }
+
+            if (rest_size) {
+                size = ngx_min(rest_size, (size_t) (b->end - b->last));
+                b->last = ngx_cpymem(b->last, rest, size);
+                rest += size;
+                rest_size -= size;
             }
 
         } else {
@@ -490,7 +514,7 @@ ngx_rtmp_recv(ngx_event_t *rev)
 
             if (s->in_chunk_size_changing) {
                 /* copy old data to a new buffer */
-                if (!old_size) {
+                if (!old_size && !rest_size) {
                     ngx_rtmp_finalize_set_chunk_size(s);
                 }
 
-- 
2.43.0


From 17efeed8cdc0eed3e4cb99e3552e765cb17d5a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:03 +0000
Subject: [PATCH 003/115] fix: keep fragments of a partial RTMP message when
 the chunk size changes

---
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index 660d0ba..1676022 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -965,6 +965,7 @@ ngx_rtmp_set_chunk_size(ngx_rtmp_session_t *s, ngx_uint_t size)
 
                 bi->pos += (ngx_cpymem(bo->last, bi->pos,
                             bo->end - bo->last) - bo->last);
+                bo->last = bo->end;
                 lo->next = ngx_rtmp_alloc_in_buf(s);
                 lo = lo->next;
                 if (lo == NULL) {
-- 
2.43.0


From 8b9a4246c9cf486b1066cf7e1d4ef64f1e18b50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:26 +0000
Subject: [PATCH 004/115] fix: accept RTMP protocol messages split into chunks
 of less than 4 bytes

---
 modules/nginx-rtmp-module/ngx_rtmp_receive.c | 26 ++++++++------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_receive.c b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
index dbf662a..911dc08 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_receive.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
@@ -12,30 +12,25 @@
 #include <string.h>
 
 
+static ngx_int_t ngx_rtmp_fetch_uint8(ngx_chain_t **in, uint8_t *ret);
+static ngx_int_t ngx_rtmp_fetch_uint32(ngx_chain_t **in, uint32_t *ret,
+    ngx_int_t n);
+
+
 ngx_int_t
 ngx_rtmp_protocol_message_handler(ngx_rtmp_session_t *s,
         ngx_rtmp_header_t *h, ngx_chain_t *in)
 {
-    ngx_buf_t              *b;
-    u_char                 *p;
     uint32_t                val;
     uint8_t                 limit;
 
-    b = in->buf;
-
-    if (b->last - b->pos < 4) {
-        ngx_log_debug2(NGX_LOG_DEBUG_RTMP, s->log, 0,
-                "too small buffer for %d message: %d",
-                (int)h->type, b->last - b->pos);
+    /* the message may be split into chunks of less than 4 bytes */
+    if (ngx_rtmp_fetch_uint32(&in, &val, 4) != NGX_OK) {
+        ngx_log_debug1(NGX_LOG_DEBUG_RTMP, s->log, 0,
+                "too small %d message", (int)h->type);
         return NGX_OK;
     }
 
-    p = (u_char*)&val;
-    p[0] = b->pos[3];
-    p[1] = b->pos[2];
-    p[2] = b->pos[1];
-    p[3] = b->pos[0];
-
     switch(h->type) {
         case NGX_RTMP_MSG_CHUNK_SIZE:
             /* set chunk size =val */
@@ -60,8 +55,7 @@ ngx_rtmp_protocol_message_handler(ngx_rtmp_session_t *s,
             break;
 
         case NGX_RTMP_MSG_BANDWIDTH:
-            if (b->last - b->pos >= 5) {
-                limit = *(uint8_t*)&b->pos[4];
+            if (ngx_rtmp_fetch_uint8(&in, &limit) == NGX_OK) {
 
                 (void)val;
                 (void)limit;
-- 
2.43.0


From eb0fd05e17d0e9da0c329bb5e936fc0c9be6edd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:33 +0000
Subject: [PATCH 005/115] fix: reset recycled RTMP frames

---
 modules/nginx-rtmp-module/ngx_rtmp_shared_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c b/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c
index cdbf5d0..3646d94 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c
@@ -219,7 +219,7 @@ ngx_rtmp_shared_alloc_frame(size_t size, ngx_chain_t *cl, ngx_flag_t mandatory)
     frame = rscf->free_frame;
     if (frame) {
         rscf->free_frame = frame->next;
-        frame->chain = NULL;
+        ngx_memzero(frame, sizeof(ngx_rtmp_frame_t));
         --rscf->nfree_frame;
     } else {
         frame = ngx_pcalloc(rscf->pool, sizeof(ngx_rtmp_frame_t));
-- 
2.43.0


From 5f388c408c78f23af2283fb0fd127b2d3c8f2cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 006/115] fix: keep the head of AMF messages longer than one
 chunk

---
 modules/nginx-rtmp-module/ngx_rtmp_send.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_send.c b/modules/nginx-rtmp-module/ngx_rtmp_send.c
index cc54afc..b32ee2e 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_send.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_send.c
@@ -401,14 +401,15 @@ ngx_rtmp_append_amf(ngx_rtmp_session_t *s,
 
     rc = ngx_rtmp_amf_write(&act, elts, nelts);
 
-    if (first) {
-        *first = act.first;
-    }
-
+    /* callers may pass the same location for both: the head must survive */
     if (last) {
         *last = act.link;
     }
 
+    if (first) {
+        *first = act.first;
+    }
+
     return rc;
 }
 
-- 
2.43.0


From 75c6caa85476ed4b3287110029e8fe4c5b2e37d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:51 +0000
Subject: [PATCH 007/115] fix: deliver streams that have no codec header

---
 modules/nginx-rtmp-module/ngx_rtmp_live_module.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
index 688180f..381b18c 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
@@ -941,6 +941,17 @@ ngx_rtmp_live_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
                 cs->active = 1;
                 ss->current_time = cs->timestamp;
 
+            } else {
+
+                /* no codec header: the stream starts with this packet */
+
+                cs->timestamp = lh.timestamp;
+                cs->active = 1;
+                ss->current_time = cs->timestamp;
+
+                if (dummy_audio) {
+                    ngx_rtmp_send_message(ss, dummy, 0);
+                }
             }
         }
 
-- 
2.43.0


From 412ab6933001f97230e369dae74630e77b6dd694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:51 +0000
Subject: [PATCH 008/115] fix: do not resend the GOP cache for frames that were
 not cached

---
 modules/nginx-rtmp-module/ngx_rtmp_gop_module.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index 8cbee81..4087788 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -616,6 +616,11 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         return NGX_AGAIN;
     }
 
+    /* the new frame was not cached: nothing to send */
+    if (ssctx->gop_pos == sctx->gop_last) {
+        return NGX_OK;
+    }
+
     pos = ngx_rtmp_gop_prev(s, sctx->gop_last);
     /* new frame is video key frame */
     if (sctx->cache[pos]->keyframe && !sctx->cache[pos]->av_header) {
-- 
2.43.0


From fcf35483d136eb36b83684674873ba814454b3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:51 +0000
Subject: [PATCH 009/115] fix: send the whole GOP cache when it starts at its
 first slot

---
 modules/nginx-rtmp-module/ngx_rtmp_gop_module.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index 4087788..9b68534 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -554,7 +554,7 @@ ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
 
     pos = ssctx->gop_pos;
     frame = sctx->cache[pos];
-    while (frame && pos != ssctx->gop_last) {
+    while (frame && pos != sctx->gop_last) {
         if (!gacf->send_all &&
             frame->hdr.timestamp - ssctx->first_timestamp >= gacf->cache_time)
         {
@@ -570,7 +570,7 @@ ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         frame = sctx->cache[pos];
     }
 
-    if (frame == NULL || pos == ssctx->gop_last) { /* send all frame in cache */
+    if (frame == NULL || pos == sctx->gop_last) { /* send all frame in cache */
         ssctx->send_gop = 3;
     }
 
-- 
2.43.0


From 888b87609d04de251a7089fc07c471a31b0aa2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:15 +0000
Subject: [PATCH 010/115] fix: restart the GOP position of a player when its
 publisher changes

---
 .../nginx-rtmp-module/ngx_rtmp_gop_module.c   | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index 9b68534..90745cf 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -44,6 +44,9 @@ typedef struct {
 
     uint32_t                    first_timestamp;
 
+    /* player: connection of the publisher gop_pos refers to */
+    ngx_atomic_uint_t           source;
+
     /* only for publisher, must at last of ngx_rtmp_gop_ctx_t */
     ngx_rtmp_frame_t           *cache[];
 } ngx_rtmp_gop_ctx_t;
@@ -607,6 +610,16 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         ngx_rtmp_set_ctx(ss, ssctx, ngx_rtmp_gop_module);
     }
 
+    /* the publisher changed: gop_pos means nothing in the new cache */
+    if (ssctx->source != s->connection->number) {
+        if (ssctx->send_gop) {
+            ssctx->send_gop = 1;
+        }
+        ssctx->latest_aac_header = NULL;
+        ssctx->latest_avc_header = NULL;
+        ssctx->source = s->connection->number;
+    }
+
     if (ngx_rtmp_gop_send_gop(s, ss) == NGX_AGAIN) {
         return NGX_OK;
     }
@@ -706,6 +719,8 @@ ngx_rtmp_gop_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
     lctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_live_module);
 
     if (!lctx->publishing) {
+        /* has no room for a cache, must not be reused by a publisher */
+        ngx_rtmp_set_ctx(s, NULL, ngx_rtmp_gop_module);
         goto next;
     }
 
@@ -723,6 +738,10 @@ ngx_rtmp_gop_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
         ctx->gop_pos = ngx_rtmp_gop_next(s, ctx->gop_pos);
     }
 
+    /* the session may publish or play again */
+    ngx_memzero(ctx, sizeof(ngx_rtmp_gop_ctx_t)
+                + s->out_queue * sizeof(ngx_rtmp_frame_t *));
+
 next:
     return next_close_stream(s, v);
 }
-- 
2.43.0


From c224b2aa0ecf4b38091f0a5746cf7797e1737613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 011/115] fix: resume a player whose GOP position was dropped
 at a key frame

---
 modules/nginx-rtmp-module/ngx_rtmp_gop_module.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index 90745cf..747e03e 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -636,7 +636,9 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
 
     pos = ngx_rtmp_gop_prev(s, sctx->gop_last);
     /* new frame is video key frame */
-    if (sctx->cache[pos]->keyframe && !sctx->cache[pos]->av_header) {
+    if (sctx->cache[pos]->keyframe && !sctx->cache[pos]->av_header
+            && sctx->cache[ssctx->gop_pos])
+    {
         if (gacf->low_latency && pos != ssctx->gop_pos) {
             ssctx->gop_pos = pos;
             ss->out_pos = ss->out_last;
-- 
2.43.0


From 246a96c7ef25dde0ffd843966477eecc0a82df64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:34 +0000
Subject: [PATCH 012/115] fix: release what a low latency player skips and keep
 its control messages

---
 .../nginx-rtmp-module/ngx_rtmp_gop_module.c   | 37 ++++++++++++++++++-
 1 file changed, 36 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index 747e03e..601e277 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -583,6 +583,41 @@ ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     return NGX_AGAIN;
 }
 
+/* drop audio and video waiting to be sent, keep everything else */
+static void
+ngx_rtmp_gop_drop_av(ngx_rtmp_session_t *ss, ngx_rtmp_gop_ctx_t *ssctx)
+{
+    ngx_rtmp_frame_t           *frame;
+    size_t                      pos, last;
+
+    last = ss->out_pos;
+    for (pos = ss->out_pos; pos != ss->out_last;
+            pos = ngx_rtmp_gop_next(ss, pos))
+    {
+        frame = ss->out[pos];
+
+        if (frame->hdr.type != NGX_RTMP_MSG_AUDIO
+                && frame->hdr.type != NGX_RTMP_MSG_VIDEO)
+        {
+            ss->out[last] = frame;
+            last = ngx_rtmp_gop_next(ss, last);
+            continue;
+        }
+
+        if (frame == ssctx->latest_aac_header) {
+            ssctx->latest_aac_header = NULL;
+        }
+
+        if (frame == ssctx->latest_avc_header) {
+            ssctx->latest_avc_header = NULL;
+        }
+
+        ngx_rtmp_shared_free_frame(frame);
+    }
+
+    ss->out_last = last;
+}
+
 ngx_int_t
 ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
 {
@@ -641,7 +676,7 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     {
         if (gacf->low_latency && pos != ssctx->gop_pos) {
             ssctx->gop_pos = pos;
-            ss->out_pos = ss->out_last;
+            ngx_rtmp_gop_drop_av(ss, ssctx);
             ngx_log_error(NGX_LOG_INFO, ss->log, 0,
                     "gop, low latency, chase to new keyframe");
 
-- 
2.43.0


From edee7a193ebd4774ec52c97ca7295b323c74e434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:19 +0000
Subject: [PATCH 013/115] fix: keep players when a publisher leaves and another
 one stays

A lower priority publisher that left ended the stream for the players of the
publisher in use; with idle_streams off all players were disconnected. When
the publisher in use left, players never got a stream begin for the next.
---
 .../nginx-rtmp-module/ngx_rtmp_live_module.c  | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
index 381b18c..41b96ce 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
@@ -524,6 +524,8 @@ ngx_rtmp_live_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
     ngx_rtmp_session_t             *ss;
     ngx_rtmp_live_ctx_t            *ctx, **cctx, *pctx;
     ngx_rtmp_live_app_conf_t       *lacf;
+    ngx_map_node_t                 *backup;
+    ngx_flag_t                      source;
 
     lacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_live_module);
     if (lacf == NULL) {
@@ -544,11 +546,16 @@ ngx_rtmp_live_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
     ngx_log_debug1(NGX_LOG_DEBUG_RTMP, s->log, 0,
                    "live: leave '%s'", ctx->stream->name);
 
+    source = 0;
     if (s->publishing) {
+        source = ngx_map_rbegin(&s->live_stream->pubctx) == &ctx->node;
         ngx_map_delete(&s->live_stream->pubctx, (intptr_t) ctx->pubpri);
     }
 
-    if (ctx->stream->publishing && ctx->publishing) {
+    /* publisher which stays, if any */
+    backup = ngx_map_rbegin(&ctx->stream->pubctx);
+
+    if (ctx->stream->publishing && ctx->publishing && backup == NULL) {
         ctx->stream->publishing = 0;
     }
 
@@ -559,14 +566,29 @@ ngx_rtmp_live_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
         }
     }
 
-    if (ctx->publishing || ctx->stream->active) {
+    if (ctx->publishing && backup && !source) {
+        /* players get another publisher, they don't notice */
+        if (ctx->idle_evt.timer_set) {
+            ngx_del_timer(&ctx->idle_evt);
+        }
+
+    } else if (ctx->publishing || ctx->stream->active) {
         ngx_rtmp_live_stop(s);
     }
 
+    if (ctx->publishing && backup && source) {
+        /* the next frame starts the stream again */
+        for (pctx = ctx->stream->ctx; pctx; pctx = pctx->next) {
+            if (pctx->publishing) {
+                pctx->active = 0;
+            }
+        }
+    }
+
     if (ctx->publishing) {
         ngx_rtmp_send_status(s, "NetStream.Unpublish.Success",
                              "status", "Stop publishing");
-        if (!lacf->idle_streams) {
+        if (!lacf->idle_streams && backup == NULL) {
             for (pctx = ctx->stream->ctx; pctx; pctx = pctx->next) {
                 if (pctx->publishing == 0) {
                     ss = pctx->session;
-- 
2.43.0


From 4ef54c3e62ac6fa809384701ea1bf127b5d9cbd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:19 +0000
Subject: [PATCH 014/115] fix: start players again when a publisher of higher
 priority takes over

They kept the state of the previous publisher, and got frames of the new one
without its codec headers or from the middle of a group of pictures.
---
 modules/nginx-rtmp-module/ngx_rtmp_live_module.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
index 41b96ce..9df5f9f 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
@@ -425,7 +425,7 @@ next:
 static void
 ngx_rtmp_live_join(ngx_rtmp_session_t *s, u_char *name, unsigned publisher)
 {
-    ngx_rtmp_live_ctx_t            *ctx;
+    ngx_rtmp_live_ctx_t            *ctx, *pctx;
     ngx_live_stream_t              *st;
     ngx_rtmp_live_app_conf_t       *lacf;
     ngx_str_t                       pubpri;
@@ -496,6 +496,14 @@ ngx_rtmp_live_join(ngx_rtmp_session_t *s, u_char *name, unsigned publisher)
         ctx->node.raw_key = (intptr_t) ctx->pubpri;
         ngx_map_insert(&st->pubctx, &ctx->node, 0);
 
+        if (ngx_map_rbegin(&st->pubctx) == &ctx->node) {
+            /* players start again with headers of the new publisher */
+            for (pctx = st->ctx; pctx; pctx = pctx->next) {
+                pctx->cs[0].active = 0;
+                pctx->cs[1].active = 0;
+            }
+        }
+
         st->publishing = 1;
     }
 
-- 
2.43.0


From 98250c0442eac358e32df0174fcf541e170c7842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 015/115] fix: send a joining player the cache of the publisher
 in use

It was taken from the publisher that came last, whatever its priority.
---
 modules/nginx-rtmp-module/ngx_rtmp_live_module.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
index 9df5f9f..3e76aea 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
@@ -1065,6 +1065,7 @@ ngx_rtmp_live_play(ngx_rtmp_session_t *s, ngx_rtmp_play_t *v)
     ngx_rtmp_live_app_conf_t   *lacf;
     ngx_rtmp_live_ctx_t        *ctx;
     ngx_rtmp_session_t         *ps;
+    ngx_map_node_t             *node;
 
     lacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_live_module);
 
@@ -1096,8 +1097,9 @@ ngx_rtmp_live_play(ngx_rtmp_session_t *s, ngx_rtmp_play_t *v)
         ngx_rtmp_send_sample_access(s);
     }
 
-    if (s->live_stream->publish_ctx && s->live_stream->publish_ctx->session) {
-        ps = s->live_stream->publish_ctx->session;
+    node = ngx_map_rbegin(&s->live_stream->pubctx);
+    if (node && ctx->stream) {
+        ps = ((ngx_rtmp_live_ctx_t *) node)->session;
         ngx_rtmp_gop_send(ps, s);
     }
 
-- 
2.43.0


From 5841a18ac980b69a498cd95646eff37f6c6e8e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:20 +0000
Subject: [PATCH 016/115] fix: order negative integer keys of a map before
 positive ones

Relayed publishers have priority -1 and were preferred to all others.
---
 modules/nginx-toolkit-module/ngx_map.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-toolkit-module/ngx_map.c b/modules/nginx-toolkit-module/ngx_map.c
index c41bc16..0fdd498 100644
--- a/modules/nginx-toolkit-module/ngx_map.c
+++ b/modules/nginx-toolkit-module/ngx_map.c
@@ -311,7 +311,9 @@ ngx_cmp_uint(intptr_t key1, intptr_t key2)
 ngx_rbtree_key_t
 ngx_map_hash_int(intptr_t key)
 {
-    return (ngx_rbtree_key_t) key;
+    /* keep the order of negative keys */
+    return (ngx_rbtree_key_t) key
+            ^ ((ngx_rbtree_key_t) 1 << (sizeof(ngx_rbtree_key_t) * 8 - 1));
 }
 
 int
-- 
2.43.0


From cfee78cde0853badd15a1f69726d5046df052bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:01 +0000
Subject: [PATCH 017/115] fix: end the stream for players when its last
 publisher leaves

The stream may have been started by a publisher that left earlier.
---
 modules/nginx-rtmp-module/ngx_rtmp_live_module.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
index 3e76aea..e6c768a 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
@@ -581,6 +581,11 @@ ngx_rtmp_live_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
         }
 
     } else if (ctx->publishing || ctx->stream->active) {
+        if (ctx->publishing) {
+            /* another publisher may have started the stream */
+            ctx->active = ctx->stream->active;
+        }
+
         ngx_rtmp_live_stop(s);
     }
 
-- 
2.43.0


From e691832eb426fa1a4a905976ef4802a88ed97da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:02 +0000
Subject: [PATCH 018/115] fix: ignore codec headers sent before publish in the
 notify module

s->live_stream is set by publish or play only: any client could crash the worker.
---
 modules/nginx-rtmp-module/ngx_rtmp_notify_module.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
index f7456ca..7faea57 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
@@ -2131,6 +2131,10 @@ ngx_rtmp_notify_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
     ngx_rtmp_notify_event_t      *event;
     ngx_uint_t                    i;
 
+    if (s->live_stream == NULL || s->closed) { /* not publishing */
+        return NGX_OK;
+    }
+
     if (ngx_rtmp_is_codec_header(in) && !s->interprocess && !s->relay) {
         oacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_notify_module);
 
-- 
2.43.0


From 872a738240e30931259cb5ff241b12b7d73c7279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:26 +0000
Subject: [PATCH 019/115] fix: one stream per RTMP session, closed again after
 an early deleteStream

---
 modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
index b29d002..e9a3454 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
@@ -224,14 +224,16 @@ ngx_rtmp_cmd_stream_init(ngx_rtmp_session_t *s, u_char *name, u_char *args,
 ngx_int_t
 ngx_rtmp_publish_filter(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
 {
-    if (s->published) {
-        ngx_log_error(NGX_LOG_INFO, s->log, 0, "session has been published");
+    if (s->published || s->played) {
+        ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                      "session has been published or played");
         return NGX_OK;
     }
 
     ngx_log_error(NGX_LOG_INFO, s->log, 0, "rtmp publish filter");
 
     s->published = 1;
+    s->closed = 0;
 
     if (!s->relay) { /* relay pull */
         ngx_rtmp_cmd_stream_init(s, v->name, v->args, 1);
@@ -243,14 +245,16 @@ ngx_rtmp_publish_filter(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
 ngx_int_t
 ngx_rtmp_play_filter(ngx_rtmp_session_t *s, ngx_rtmp_play_t *v)
 {
-    if (s->played) {
-        ngx_log_error(NGX_LOG_INFO, s->log, 0, "session has been played");
+    if (s->published || s->played) {
+        ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                      "session has been published or played");
         return NGX_OK;
     }
 
     ngx_log_error(NGX_LOG_INFO, s->log, 0, "rtmp play filter");
 
     s->played = 1;
+    s->closed = 0;
 
     if (!s->relay) { /* relay push */
         ngx_rtmp_cmd_stream_init(s, v->name, v->args, 0);
-- 
2.43.0


From 5612a9fcfc4084d5066a13dbe88709f1b06a2b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:27 +0000
Subject: [PATCH 020/115] fix: refuse RTMP commands before connect

---
 modules/nginx-rtmp-module/ngx_rtmp_receive.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_receive.c b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
index 911dc08..e0fed4b 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_receive.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_receive.c
@@ -419,6 +419,12 @@ ngx_rtmp_amf_message_handler(ngx_rtmp_session_t *s,
 
     len = ngx_strlen(func);
 
+    if (s->app_conf == NULL && ngx_strcasecmp(func, (u_char *) "connect")) {
+        ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                "AMF cmd '%s' before connect", func);
+        return NGX_ERROR;
+    }
+
     ch = ngx_hash_find(&cmcf->amf_hash,
             ngx_hash_strlow(func, func, len), func, len);
 
-- 
2.43.0


From 9050ba7e8997df6fdf16ab911cdc0c085d43c114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:27 +0000
Subject: [PATCH 021/115] fix: refuse streams and servers whose name is too
 long

---
 modules/nginx-rtmp-module/ngx_live.c           |  3 +++
 .../nginx-rtmp-module/ngx_rtmp_cmd_module.c    | 18 +++++++++++++++---
 .../nginx-rtmp-module/ngx_rtmp_cmd_module.h    |  2 +-
 3 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live.c b/modules/nginx-rtmp-module/ngx_live.c
index 1e89270..66f9ba8 100644
--- a/modules/nginx-rtmp-module/ngx_live.c
+++ b/modules/nginx-rtmp-module/ngx_live.c
@@ -303,6 +303,9 @@ ngx_live_create_stream(ngx_str_t *serverid, ngx_str_t *stream)
     }
 
     *pst = ngx_live_get_stream(stream);
+    if (*pst == NULL) {
+        return NULL;
+    }
     ++(*psrv)->n_stream;
 
     return *pst;
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
index e9a3454..22b9de1 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
@@ -182,7 +182,7 @@ ngx_rtmp_cmd_middleware_init(ngx_rtmp_session_t *s)
     }
 }
 
-void
+ngx_int_t
 ngx_rtmp_cmd_stream_init(ngx_rtmp_session_t *s, u_char *name, u_char *args,
         unsigned publishing)
 {
@@ -214,11 +214,16 @@ ngx_rtmp_cmd_stream_init(ngx_rtmp_session_t *s, u_char *name, u_char *args,
     }
 
     s->live_stream = ngx_live_create_stream(&s->serverid, &s->stream);
+    if (s->live_stream == NULL) {
+        return NGX_ERROR;
+    }
 
     ngx_live_create_ctx(s, publishing);
     s->publishing = publishing;
 
     ngx_rtmp_notify_stream_start(s);
+
+    return NGX_OK;
 }
 
 ngx_int_t
@@ -236,7 +241,9 @@ ngx_rtmp_publish_filter(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
     s->closed = 0;
 
     if (!s->relay) { /* relay pull */
-        ngx_rtmp_cmd_stream_init(s, v->name, v->args, 1);
+        if (ngx_rtmp_cmd_stream_init(s, v->name, v->args, 1) != NGX_OK) {
+            return NGX_ERROR;
+        }
     }
 
     return ngx_rtmp_publish(s, v);
@@ -257,7 +264,9 @@ ngx_rtmp_play_filter(ngx_rtmp_session_t *s, ngx_rtmp_play_t *v)
     s->closed = 0;
 
     if (!s->relay) { /* relay push */
-        ngx_rtmp_cmd_stream_init(s, v->name, v->args, 0);
+        if (ngx_rtmp_cmd_stream_init(s, v->name, v->args, 0) != NGX_OK) {
+            return NGX_ERROR;
+        }
     }
 
     return ngx_rtmp_play(s, v);
@@ -419,6 +428,9 @@ ngx_rtmp_cmd_connect_init(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     }
 
     s->live_server = ngx_live_create_server(&s->serverid);
+    if (s->live_server == NULL) {
+        return NGX_ERROR;
+    }
 
     s->stage = NGX_LIVE_CONNECT;
     s->connect_time = ngx_current_msec;
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.h b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.h
index 5bc3c03..1c1114f 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.h
+++ b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.h
@@ -103,7 +103,7 @@ typedef struct {
 void ngx_rtmp_cmd_fill_args(u_char name[NGX_RTMP_MAX_NAME],
         u_char args[NGX_RTMP_MAX_ARGS]);
 void ngx_rtmp_cmd_middleware_init(ngx_rtmp_session_t *s);
-void ngx_rtmp_cmd_stream_init(ngx_rtmp_session_t *s, u_char *name, u_char *args,
+ngx_int_t ngx_rtmp_cmd_stream_init(ngx_rtmp_session_t *s, u_char *name, u_char *args,
         unsigned publishing);
 
 ngx_int_t ngx_rtmp_publish_filter(ngx_rtmp_session_t *s,
-- 
2.43.0


From a761fb4e46c9923afa973d1cf42088ab9bd0a74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:27 +0000
Subject: [PATCH 022/115] fix: refuse a second connect before it changes the
 session

---
 modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
index 22b9de1..16ca050 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_cmd_module.c
@@ -356,6 +356,12 @@ ngx_rtmp_cmd_connect_init(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
           in_cmd, sizeof(in_cmd) },
     };
 
+    if (s->connected) {
+        ngx_log_error(NGX_LOG_INFO, s->log, 0,
+                "connect: duplicate connection");
+        return NGX_ERROR;
+    }
+
     ngx_memzero(&v, sizeof(v));
     if (ngx_rtmp_receive_amf(s, in, in_elts,
                 sizeof(in_elts) / sizeof(in_elts[0])))
-- 
2.43.0


From 77889ffaf768e7533c69a85779e7638939d7d8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 023/115] fix: ignore media of sessions that are not publishing

---
 modules/nginx-rtmp-module/ngx_rtmp_handler.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_handler.c b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
index 1676022..2774908 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_handler.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_handler.c
@@ -885,6 +885,18 @@ ngx_rtmp_receive_message(ngx_rtmp_session_t *s,
         return NGX_OK;
     }
 
+    switch (h->type) {
+    case NGX_RTMP_MSG_AUDIO:
+    case NGX_RTMP_MSG_VIDEO:
+    case NGX_RTMP_MSG_AMF_META:
+    case NGX_RTMP_MSG_AMF3_META:
+        /* media belongs to a stream being published */
+        if (!s->relay && (!s->published || s->closed)) {
+            return NGX_OK;
+        }
+        break;
+    }
+
     evhs = &cmcf->events[h->type];
     evh = evhs->elts;
 
-- 
2.43.0


From b9ea6a4eee22b2bfce68e69fbfe64dfbac71ea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 024/115] fix: do not record video that has no codec header

---
 modules/nginx-rtmp-module/ngx_live_record.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index 3ff27e2..740ee2d 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -887,6 +887,9 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     ctx = ngx_rtmp_get_module_ctx(s, ngx_live_record_module);
 
     codec_ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
+    if (codec_ctx == NULL || codec_ctx->avc_header == NULL) {
+        return NGX_OK;
+    }
 
     p = in->buf->pos;
     if (ngx_live_record_copy(s, &fmt, &p, 1, &in) != NGX_OK) {
-- 
2.43.0


From 3084517d475df313fe38905ed044f60201d5d20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:50 +0000
Subject: [PATCH 025/115] fix: DASH init segment of streams without video

---
 modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c b/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c
index 98efe14..ba234d6 100644
--- a/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c
+++ b/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c
@@ -498,7 +498,7 @@ ngx_rtmp_mp4_write_avcc(ngx_rtmp_session_t *s, ngx_buf_t *b)
 
     codec_ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
 
-    if (codec_ctx == NULL) {
+    if (codec_ctx == NULL || codec_ctx->avc_header == NULL) {
         return NGX_ERROR;
     }
 
-- 
2.43.0


From 8b113dcaa5ad1133fa2bb92cbae8a536fcd4c918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:18 +0000
Subject: [PATCH 026/115] fix: DASH took bytes from the frames of the modules
 after it

---
 .../dash/ngx_rtmp_dash_module.c                  | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
index b494606..c84a29f 100644
--- a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
+++ b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
@@ -1107,6 +1107,7 @@ ngx_rtmp_dash_audio(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     ngx_chain_t *in)
 {
     u_char                     htype;
+    ngx_int_t                  rc;
     ngx_rtmp_dash_ctx_t       *ctx;
     ngx_rtmp_codec_ctx_t      *codec_ctx;
     ngx_rtmp_dash_app_conf_t  *dacf;
@@ -1146,7 +1147,11 @@ ngx_rtmp_dash_audio(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
     in->buf->pos += 2;
 
-    return ngx_rtmp_dash_append(s, in, &ctx->audio, 0, h->timestamp, 0);
+    rc = ngx_rtmp_dash_append(s, in, &ctx->audio, 0, h->timestamp, 0);
+
+    in->buf->pos -= 2;
+
+    return rc;
 }
 
 
@@ -1157,6 +1162,7 @@ ngx_rtmp_dash_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     u_char                    *p;
     uint8_t                    ftype, htype;
     uint32_t                   delay;
+    ngx_int_t                  rc;
     ngx_rtmp_dash_ctx_t       *ctx;
     ngx_rtmp_codec_ctx_t      *codec_ctx;
     ngx_rtmp_dash_app_conf_t  *dacf;
@@ -1203,8 +1209,12 @@ ngx_rtmp_dash_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
     in->buf->pos += 5;
 
-    return ngx_rtmp_dash_append(s, in, &ctx->video, ftype == 1, h->timestamp,
-                                delay);
+    rc = ngx_rtmp_dash_append(s, in, &ctx->video, ftype == 1, h->timestamp,
+                              delay);
+
+    in->buf->pos -= 5;
+
+    return rc;
 }
 
 
-- 
2.43.0


From 5de339d35522d9ebcc5b6b50984b5d91d6f7f67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:45 +0000
Subject: [PATCH 027/115] fix: truncated AMF values that are skipped

---
 modules/nginx-rtmp-module/ngx_rtmp_amf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_amf.c b/modules/nginx-rtmp-module/ngx_rtmp_amf.c
index 77521ec..fed9007 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_amf.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_amf.c
@@ -328,7 +328,7 @@ ngx_rtmp_amf_read(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
         } else {
             switch (ngx_rtmp_amf_get(ctx, &type8, 1)) {
                 case NGX_DONE:
-                    if (elts->type & NGX_RTMP_AMF_OPTIONAL) {
+                    if (elts && elts->type & NGX_RTMP_AMF_OPTIONAL) {
                         return NGX_OK;
                     } else {
                         return NGX_ERROR;
-- 
2.43.0


From 8fd62871c28684fcba6f6639700b713d8347f2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:45 +0000
Subject: [PATCH 028/115] fix: limit the depth of AMF values

---
 modules/nginx-rtmp-module/ngx_rtmp_amf.c | 58 ++++++++++++++----------
 modules/nginx-rtmp-module/ngx_rtmp_amf.h |  4 ++
 2 files changed, 38 insertions(+), 24 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_amf.c b/modules/nginx-rtmp-module/ngx_rtmp_amf.c
index fed9007..8552b79 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_amf.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_amf.c
@@ -306,6 +306,37 @@ ngx_rtmp_amf_is_compatible_type(uint8_t t1, uint8_t t2)
 }
 
 
+static ngx_int_t
+ngx_rtmp_amf_read_nested(ngx_rtmp_amf_ctx_t *ctx, ngx_int_t type,
+        ngx_rtmp_amf_elt_t *elts, size_t nelts)
+{
+    ngx_int_t               rc;
+
+    if (ctx->depth >= NGX_RTMP_AMF_MAX_DEPTH) {
+        return NGX_ERROR;
+    }
+
+    ++ctx->depth;
+
+    switch (type) {
+        case NGX_RTMP_AMF_ARRAY:
+            rc = ngx_rtmp_amf_read_array(ctx, elts, nelts);
+            break;
+
+        case NGX_RTMP_AMF_VARIANT_:
+            rc = ngx_rtmp_amf_read_variant(ctx, elts, nelts);
+            break;
+
+        default:
+            rc = ngx_rtmp_amf_read_object(ctx, elts, nelts);
+    }
+
+    --ctx->depth;
+
+    return rc;
+}
+
+
 ngx_int_t
 ngx_rtmp_amf_read(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
         size_t nelts)
@@ -401,34 +432,13 @@ ngx_rtmp_amf_read(ngx_rtmp_amf_ctx_t *ctx, ngx_rtmp_amf_elt_t *elts,
                 if (ngx_rtmp_amf_get(ctx, &max_index, 4) != NGX_OK) {
                     return NGX_ERROR;
                 }
-                if (ngx_rtmp_amf_read_object(ctx, data,
-                    data && elts ? elts->len / sizeof(ngx_rtmp_amf_elt_t) : 0
-                    ) != NGX_OK)
-                {
-                    return NGX_ERROR;
-                }
-                break;
 
-            case NGX_RTMP_AMF_OBJECT:
-                if (ngx_rtmp_amf_read_object(ctx, data,
-                    data && elts ? elts->len / sizeof(ngx_rtmp_amf_elt_t) : 0
-                    ) != NGX_OK)
-                {
-                    return NGX_ERROR;
-                }
-                break;
+                /* fall through */
 
+            case NGX_RTMP_AMF_OBJECT:
             case NGX_RTMP_AMF_ARRAY:
-                if (ngx_rtmp_amf_read_array(ctx, data,
-                    data && elts ? elts->len / sizeof(ngx_rtmp_amf_elt_t) : 0
-                    ) != NGX_OK)
-                {
-                    return NGX_ERROR;
-                }
-                break;
-
             case NGX_RTMP_AMF_VARIANT_:
-                if (ngx_rtmp_amf_read_variant(ctx, data,
+                if (ngx_rtmp_amf_read_nested(ctx, type, data,
                     data && elts ? elts->len / sizeof(ngx_rtmp_amf_elt_t) : 0
                     ) != NGX_OK)
                 {
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_amf.h b/modules/nginx-rtmp-module/ngx_rtmp_amf.h
index 8f70a12..747c3a7 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_amf.h
+++ b/modules/nginx-rtmp-module/ngx_rtmp_amf.h
@@ -46,12 +46,16 @@ typedef struct {
 } ngx_rtmp_amf_elt_t;
 
 
+#define NGX_RTMP_AMF_MAX_DEPTH          64
+
+
 typedef ngx_chain_t * (*ngx_rtmp_amf_alloc_pt)(void *arg);
 
 
 typedef struct {
     ngx_chain_t                        *link, *first;
     size_t                              offset;
+    ngx_uint_t                          depth;
     ngx_rtmp_amf_alloc_pt               alloc;
     void                               *arg;
     ngx_log_t                          *log;
-- 
2.43.0


From 6603b95609e858903e1b5b5d575505cea20052a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:45 +0000
Subject: [PATCH 029/115] fix: RTMP control messages before connect

---
 modules/nginx-rtmp-module/ngx_rtmp_shared_module.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c b/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c
index 3646d94..faffb8e 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_shared_module.c
@@ -88,7 +88,7 @@ ngx_rtmp_prepare_merge_frame(ngx_rtmp_session_t *s)
 {
     ngx_rtmp_core_app_conf_t   *cacf;
     ngx_chain_t                *ll, **ln;
-    ngx_uint_t                  n;
+    ngx_uint_t                  n, merge_frame;
 
     // merge frame not send completely
     if (s->out_chain) {
@@ -97,11 +97,14 @@ ngx_rtmp_prepare_merge_frame(ngx_rtmp_session_t *s)
 
     cacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_core_module);
 
+    /* no application before connect */
+    merge_frame = cacf ? cacf->merge_frame : 1;
+
     ngx_rtmp_free_merge_frame(s);
 
     ln = &s->out_chain;
 
-    for (n = 0; n < cacf->merge_frame && s->out_pos != s->out_last; ++n) {
+    for (n = 0; n < merge_frame && s->out_pos != s->out_last; ++n) {
         // save frame chain with rtmp chunk or flv tag
         s->merge[n] = s->prepare_handler(s);
 
-- 
2.43.0


From 4cce26bb78e20efe8c013a33f9bfb849caf95eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:45 +0000
Subject: [PATCH 030/115] fix: live_record of streams without a codec

---
 modules/nginx-rtmp-module/ngx_live_record.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index 740ee2d..278c18c 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -1127,6 +1127,9 @@ ngx_live_record_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     }
 
     codec_ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
+    if (codec_ctx == NULL) {
+        return NGX_OK;
+    }
 
     if (h->type == NGX_RTMP_MSG_AUDIO) {
         switch (codec_ctx->audio_codec_id) {
-- 
2.43.0


From e682fb3a5adcd5cbf752982e8695c57fe06eee03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:25 +0000
Subject: [PATCH 031/115] fix: DASH fragments shorter than expected looped for
 ever

---
 modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
index c84a29f..49c4b51 100644
--- a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
+++ b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
@@ -602,7 +602,7 @@ ngx_rtmp_dash_close_fragment(ngx_rtmp_session_t *s, ngx_rtmp_dash_track_t *t)
     while (left > 0) {
 
         n = ngx_read_fd(t->fd, buffer, ngx_min(sizeof(buffer), left));
-        if (n == NGX_ERROR) {
+        if (n == NGX_ERROR || n == 0) {
             break;
         }
 
-- 
2.43.0


From fb961b2f9e4925852ea27ef6fdcf0ea14e49412b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:23 +0000
Subject: [PATCH 032/115] fix: players that fall behind a wrapped GOP cache got
 frames without their header or key frame

---
 .../nginx-rtmp-module/ngx_rtmp_gop_module.c   | 174 ++++++++++--------
 1 file changed, 101 insertions(+), 73 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index 601e277..423bfe7 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -34,9 +34,15 @@ typedef struct {
 
     ngx_rtmp_frame_t           *keyframe;
 
+    /* publisher: headers in front of the cache
+     * player: last headers sent
+     */
     ngx_rtmp_frame_t           *aac_header;
     ngx_rtmp_frame_t           *avc_header;
 
+    /* number of the frame at gop_pos, counted from the first one cached */
+    uint64_t                    gop_number;
+
     ngx_rtmp_frame_t           *latest_aac_header;
     ngx_rtmp_frame_t           *latest_avc_header;
 
@@ -51,6 +57,10 @@ typedef struct {
     ngx_rtmp_frame_t           *cache[];
 } ngx_rtmp_gop_ctx_t;
 
+static void ngx_rtmp_gop_reset_avheader(ngx_rtmp_gop_ctx_t *ctx,
+        ngx_rtmp_frame_t *frame);
+static void ngx_rtmp_gop_free_avheader(ngx_rtmp_gop_ctx_t *ctx);
+
 typedef struct {
     ngx_msec_t                  cache_time;
     ngx_flag_t                  low_latency;
@@ -223,12 +233,9 @@ ngx_rtmp_gop_link_frame(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_gop_module);
 
-    if (frame->hdr.type == NGX_RTMP_MSG_AUDIO && frame->av_header) {
-        ctx->latest_aac_header = frame;
-    }
-
-    if (frame->hdr.type == NGX_RTMP_MSG_VIDEO && frame->av_header) {
-        ctx->latest_avc_header = frame;
+    if (frame->av_header) {
+        ngx_rtmp_shared_acquire_frame(frame);
+        ngx_rtmp_gop_reset_avheader(ctx, frame);
     }
 
     s->out[s->out_last] = frame;
@@ -279,6 +286,20 @@ ngx_rtmp_gop_reset_avheader(ngx_rtmp_gop_ctx_t *ctx,
     }
 }
 
+static void
+ngx_rtmp_gop_free_avheader(ngx_rtmp_gop_ctx_t *ctx)
+{
+    if (ctx->avc_header) {
+        ngx_rtmp_shared_free_frame(ctx->avc_header);
+        ctx->avc_header = NULL;
+    }
+
+    if (ctx->aac_header) {
+        ngx_rtmp_shared_free_frame(ctx->aac_header);
+        ctx->aac_header = NULL;
+    }
+}
+
 static void
 ngx_rtmp_gop_reset_gop(ngx_rtmp_session_t *s, ngx_rtmp_gop_ctx_t *ctx,
         ngx_rtmp_frame_t *frame)
@@ -295,6 +316,7 @@ ngx_rtmp_gop_reset_gop(ngx_rtmp_session_t *s, ngx_rtmp_gop_ctx_t *ctx,
         if (ctx->cache[pos]->av_header) {
             ngx_rtmp_gop_reset_avheader(ctx, ctx->cache[pos]);
             ctx->gop_pos = ngx_rtmp_gop_next(s, ctx->gop_pos);
+            ++ctx->gop_number;
             continue;
         }
 
@@ -316,6 +338,7 @@ ngx_rtmp_gop_reset_gop(ngx_rtmp_session_t *s, ngx_rtmp_gop_ctx_t *ctx,
             ngx_rtmp_shared_free_frame(f);
             ctx->cache[ctx->gop_pos] = NULL;
             ctx->gop_pos = ngx_rtmp_gop_next(s, ctx->gop_pos);
+            ++ctx->gop_number;
         }
 
         return;
@@ -357,6 +380,7 @@ reset:
         }
 
         ctx->cache[pos] = NULL;
+        ++ctx->gop_number;
     }
 
     ctx->keyframe = next_keyframe;
@@ -498,6 +522,37 @@ ngx_rtmp_gop_send_meta(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     return NGX_OK;
 }
 
+/* what the player was to get next has left the cache: go on with the oldest */
+static ngx_int_t
+ngx_rtmp_gop_catch_up(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
+{
+    ngx_rtmp_gop_ctx_t         *sctx, *ssctx;
+
+    sctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_gop_module);
+    ssctx = ngx_rtmp_get_module_ctx(ss, ngx_rtmp_gop_module);
+
+    if (ssctx->gop_number >= sctx->gop_number) {
+        return NGX_OK;
+    }
+
+    if (sctx->aac_header && sctx->aac_header != ssctx->aac_header
+            && ngx_rtmp_gop_link_frame(ss, sctx->aac_header) == NGX_AGAIN)
+    {
+        return NGX_AGAIN;
+    }
+
+    if (sctx->avc_header && sctx->avc_header != ssctx->avc_header
+            && ngx_rtmp_gop_link_frame(ss, sctx->avc_header) == NGX_AGAIN)
+    {
+        return NGX_AGAIN;
+    }
+
+    ssctx->gop_pos = sctx->gop_pos;
+    ssctx->gop_number = sctx->gop_number;
+
+    return NGX_OK;
+}
+
 static ngx_int_t
 ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
 {
@@ -548,11 +603,10 @@ ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         }
 
         ssctx->send_gop = 2;
+        ssctx->gop_number = sctx->gop_number;
         ssctx->first_timestamp = sctx->cache[ssctx->gop_pos]->hdr.timestamp;
-    } else {
-        if (sctx->cache[ssctx->gop_pos] == NULL) {
-            ssctx->gop_pos = sctx->gop_pos;
-        }
+    } else if (ngx_rtmp_gop_catch_up(s, ss) == NGX_AGAIN) {
+        return NGX_AGAIN;
     }
 
     pos = ssctx->gop_pos;
@@ -570,6 +624,7 @@ ngx_rtmp_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         }
 
         pos = ngx_rtmp_gop_next(s, pos);
+        ++ssctx->gop_number;
         frame = sctx->cache[pos];
     }
 
@@ -604,12 +659,14 @@ ngx_rtmp_gop_drop_av(ngx_rtmp_session_t *ss, ngx_rtmp_gop_ctx_t *ssctx)
             continue;
         }
 
-        if (frame == ssctx->latest_aac_header) {
-            ssctx->latest_aac_header = NULL;
+        if (frame == ssctx->aac_header) {
+            ngx_rtmp_shared_free_frame(ssctx->aac_header);
+            ssctx->aac_header = NULL;
         }
 
-        if (frame == ssctx->latest_avc_header) {
-            ssctx->latest_avc_header = NULL;
+        if (frame == ssctx->avc_header) {
+            ngx_rtmp_shared_free_frame(ssctx->avc_header);
+            ssctx->avc_header = NULL;
         }
 
         ngx_rtmp_shared_free_frame(frame);
@@ -650,8 +707,7 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         if (ssctx->send_gop) {
             ssctx->send_gop = 1;
         }
-        ssctx->latest_aac_header = NULL;
-        ssctx->latest_avc_header = NULL;
+        ngx_rtmp_gop_free_avheader(ssctx);
         ssctx->source = s->connection->number;
     }
 
@@ -664,6 +720,10 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         return NGX_AGAIN;
     }
 
+    if (ngx_rtmp_gop_catch_up(s, ss) == NGX_AGAIN) {
+        return NGX_AGAIN;
+    }
+
     /* the new frame was not cached: nothing to send */
     if (ssctx->gop_pos == sctx->gop_last) {
         return NGX_OK;
@@ -671,63 +731,34 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
 
     pos = ngx_rtmp_gop_prev(s, sctx->gop_last);
     /* new frame is video key frame */
-    if (sctx->cache[pos]->keyframe && !sctx->cache[pos]->av_header
-            && sctx->cache[ssctx->gop_pos])
+    if (gacf->low_latency && pos != ssctx->gop_pos
+            && sctx->cache[pos]->keyframe && !sctx->cache[pos]->av_header)
     {
-        if (gacf->low_latency && pos != ssctx->gop_pos) {
-            ssctx->gop_pos = pos;
-            ngx_rtmp_gop_drop_av(ss, ssctx);
-            ngx_log_error(NGX_LOG_INFO, ss->log, 0,
-                    "gop, low latency, chase to new keyframe");
-
-            if (sctx->latest_aac_header
-                    && sctx->latest_aac_header != ssctx->latest_aac_header)
-            {
-                if (ngx_rtmp_gop_link_frame(ss, sctx->latest_aac_header)
-                        == NGX_AGAIN)
-                {
-                    return NGX_AGAIN;
-                }
-            }
-
-            if (sctx->latest_avc_header
-                    && sctx->latest_avc_header != ssctx->latest_avc_header)
+        ssctx->gop_number += (s->out_queue + pos - ssctx->gop_pos)
+                             % s->out_queue;
+        ssctx->gop_pos = pos;
+        ngx_rtmp_gop_drop_av(ss, ssctx);
+        ngx_log_error(NGX_LOG_INFO, ss->log, 0,
+                "gop, low latency, chase to new keyframe");
+
+        if (sctx->latest_aac_header
+                && sctx->latest_aac_header != ssctx->aac_header)
+        {
+            if (ngx_rtmp_gop_link_frame(ss, sctx->latest_aac_header)
+                    == NGX_AGAIN)
             {
-                if (ngx_rtmp_gop_link_frame(ss, sctx->latest_avc_header)
-                        == NGX_AGAIN)
-                {
-                    return NGX_AGAIN;
-                }
+                return NGX_AGAIN;
             }
         }
-    } else {
-        if (sctx->cache[ssctx->gop_pos] == NULL) {
-            ngx_log_error(NGX_LOG_ERR, ss->log, 0,
-                    "gop, current gop pos is NULL, "
-                    "skip to new postion [pos %d last %d] %d",
-                    sctx->gop_pos, sctx->gop_last, ssctx->gop_pos);
 
-            if (sctx->aac_header
-                    && sctx->aac_header != ssctx->latest_aac_header)
-            {
-                if (ngx_rtmp_gop_link_frame(ss, sctx->aac_header)
-                        == NGX_AGAIN)
-                {
-                    return NGX_AGAIN;
-                }
-            }
-
-            if (sctx->avc_header
-                    && sctx->avc_header != ssctx->latest_avc_header)
+        if (sctx->latest_avc_header
+                && sctx->latest_avc_header != ssctx->avc_header)
+        {
+            if (ngx_rtmp_gop_link_frame(ss, sctx->latest_avc_header)
+                    == NGX_AGAIN)
             {
-                if (ngx_rtmp_gop_link_frame(ss, sctx->avc_header)
-                        == NGX_AGAIN)
-                {
-                    return NGX_AGAIN;
-                }
+                return NGX_AGAIN;
             }
-
-            ssctx->gop_pos = sctx->gop_pos;
         }
     }
 
@@ -737,6 +768,7 @@ ngx_rtmp_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
     }
 
     ssctx->gop_pos = ngx_rtmp_gop_next(s, ssctx->gop_pos);
+    ++ssctx->gop_number;
     ngx_rtmp_send_message(ss, NULL, 0);
 
     return NGX_OK;
@@ -756,18 +788,14 @@ ngx_rtmp_gop_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
     lctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_live_module);
 
     if (!lctx->publishing) {
+        ngx_rtmp_gop_free_avheader(ctx);
+
         /* has no room for a cache, must not be reused by a publisher */
         ngx_rtmp_set_ctx(s, NULL, ngx_rtmp_gop_module);
         goto next;
     }
 
-    if (ctx->avc_header) {
-        ngx_rtmp_shared_free_frame(ctx->avc_header);
-    }
-
-    if (ctx->aac_header) {
-        ngx_rtmp_shared_free_frame(ctx->aac_header);
-    }
+    ngx_rtmp_gop_free_avheader(ctx);
 
     /* free cache in publisher */
     while (ctx->gop_pos != ctx->gop_last) {
-- 
2.43.0


From ee674e658c87bb049f077bf962de05c50b5cc2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:47 +0000
Subject: [PATCH 033/115] fix: players froze for ever after one group of
 pictures filled the GOP cache

---
 .../nginx-rtmp-module/ngx_rtmp_gop_module.c   | 34 +++++++++++++++++--
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
index 423bfe7..0dd52e0 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_gop_module.c
@@ -431,6 +431,28 @@ ngx_rtmp_gop_print_cache(ngx_rtmp_session_t *s, ngx_rtmp_gop_ctx_t *ctx)
 #endif
 }
 
+static void
+ngx_rtmp_gop_make_room(ngx_rtmp_session_t *s, ngx_rtmp_gop_ctx_t *ctx)
+{
+    ngx_rtmp_frame_t           *f;
+
+    do {
+        f = ctx->cache[ctx->gop_pos];
+
+        if (f->av_header) {
+            ngx_rtmp_gop_reset_avheader(ctx, f);
+        } else {
+            ngx_rtmp_shared_free_frame(f);
+        }
+
+        ctx->cache[ctx->gop_pos] = NULL;
+        ctx->gop_pos = ngx_rtmp_gop_next(s, ctx->gop_pos);
+        ++ctx->gop_number;
+    } while (ctx->keyframe && ctx->gop_pos != ctx->gop_last);
+
+    ctx->keyframe = NULL;
+}
+
 ngx_int_t
 ngx_rtmp_gop_cache(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
 {
@@ -454,14 +476,20 @@ ngx_rtmp_gop_cache(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *frame)
         ngx_rtmp_set_ctx(s, ctx, ngx_rtmp_gop_module);
     }
 
+    ngx_rtmp_gop_set_avframe_tag(frame);
+
     nmsg = (s->out_queue + ctx->gop_last - ctx->gop_pos) % s->out_queue + 1;
     if (nmsg >= s->out_queue) {
         ngx_log_error(NGX_LOG_ERR, s->log, 0,
                 "cache frame nmsg(%ui) >= out_queue(%z)", nmsg, s->out_queue);
-        return NGX_AGAIN;
-    }
 
-    ngx_rtmp_gop_set_avframe_tag(frame);
+        /* one group of pictures fills the cache: wait for the next one */
+        if (ctx->keyframe && !frame->keyframe && !frame->av_header) {
+            return NGX_AGAIN;
+        }
+
+        ngx_rtmp_gop_make_room(s, ctx);
+    }
 
     ngx_log_debug5(NGX_LOG_DEBUG_RTMP, s->log, 0,
             "cache frame: %ud[%d %d], %ud, %ud",
-- 
2.43.0


From 9a61e8ea7057c5c991f1fb3b5c52c60a78f3c208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 034/115] fix: keep the buffer pool intact when a chain buffer
 is returned twice

---
 modules/nginx-toolkit-module/ngx_rbuf.c | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/modules/nginx-toolkit-module/ngx_rbuf.c b/modules/nginx-toolkit-module/ngx_rbuf.c
index 6b80bd5..e4d5c16 100644
--- a/modules/nginx-toolkit-module/ngx_rbuf.c
+++ b/modules/nginx-toolkit-module/ngx_rbuf.c
@@ -216,13 +216,6 @@ ngx_put_chainbuf_debug(ngx_chain_t *cl, char *file, int line)
 
     cb = (ngx_chainbuf_t *) cl;
 
-    if (cb->alloc) {
-        ngx_rbuf_free(cl->buf->start);
-    }
-    cl->next = ngx_rbuf_free_chain;
-    ngx_rbuf_free_chain = cl;
-    ++ngx_rbuf_nfree_chain;
-
     // delete chainbuf from using map
     if (ngx_map_find(&ngx_rbuf_using, (intptr_t) cl) == NULL) {
         ngx_log_error(NGX_LOG_EMERG, ngx_cycle->log, 0,
@@ -230,6 +223,13 @@ ngx_put_chainbuf_debug(ngx_chain_t *cl, char *file, int line)
         return;
     }
     ngx_map_delete(&ngx_rbuf_using, (intptr_t) cl);
+
+    if (cb->alloc) {
+        ngx_rbuf_free(cl->buf->start);
+    }
+    cl->next = ngx_rbuf_free_chain;
+    ngx_rbuf_free_chain = cl;
+    ++ngx_rbuf_nfree_chain;
 }
 
 ngx_chain_t *
-- 
2.43.0


From 40ffcd10c3c42a7942d73cefdad249ce4886f492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 035/115] fix: release a tracked timer that fires after its
 owner left

---
 modules/nginx-toolkit-module/ngx_timerd.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/nginx-toolkit-module/ngx_timerd.c b/modules/nginx-toolkit-module/ngx_timerd.c
index a28109b..77640cf 100644
--- a/modules/nginx-toolkit-module/ngx_timerd.c
+++ b/modules/nginx-toolkit-module/ngx_timerd.c
@@ -108,6 +108,10 @@ ngx_timerd_wrap(ngx_event_t *ev)
         ngx_log_error(NGX_LOG_EMERG, ngx_cycle->log, 0,
                 "timer wrap, timer trigger but not timer owner: %s:%d",
                 node->file, node->line);
+
+        /* the timer is gone, let the new owner use the event */
+        ngx_map_delete(&ngx_timerd_map, (intptr_t) uev);
+        ngx_timerd_put_node(node);
         return;
     }
 
-- 
2.43.0


From ceb5f72a917cba4435193195f66fe8b18bcdcf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 036/115] fix: accept IPv6 addresses without a port

---
 modules/nginx-toolkit-module/ngx_toolkit_misc.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-toolkit-module/ngx_toolkit_misc.c b/modules/nginx-toolkit-module/ngx_toolkit_misc.c
index 8045460..d0226e5 100644
--- a/modules/nginx-toolkit-module/ngx_toolkit_misc.c
+++ b/modules/nginx-toolkit-module/ngx_toolkit_misc.c
@@ -75,7 +75,7 @@ ngx_sock_pton_inet6(struct sockaddr *sa, u_char *text, size_t len)
     last = text + len;
     p = ngx_strlchr(text, last, ']');
 
-    if (p == NULL || p == last - 1) {
+    if (p == NULL) {
         ngx_log_error(NGX_LOG_INFO, ngx_cycle->log, 0,
                 "not a ipv6 address format");
         return 0;
@@ -101,7 +101,11 @@ ngx_sock_pton_inet6(struct sockaddr *sa, u_char *text, size_t len)
     ngx_memcpy(sin6->sin6_addr.s6_addr, inaddr6.s6_addr, 16);
 
     ++p;
-    if (*p == ':') { // has port
+    if (p < last) { // has port
+        if (*p != ':') {
+            return 0;
+        }
+
         ++p;
         plen = last - p;
 
-- 
2.43.0


From 1dd14da8c61f954f21d986fe82965534aa07b037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:50 +0000
Subject: [PATCH 037/115] fix: set Cache-Control on nginx 1.23 and later, where
 it is no array

---
 .../http/ngx_http_set_header.c                | 30 +++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/modules/nginx-rtmp-module/http/ngx_http_set_header.c b/modules/nginx-rtmp-module/http/ngx_http_set_header.c
index ffef7aa..be731cd 100644
--- a/modules/nginx-rtmp-module/http/ngx_http_set_header.c
+++ b/modules/nginx-rtmp-module/http/ngx_http_set_header.c
@@ -168,6 +168,35 @@ static ngx_int_t
 ngx_http_set_header_out_builtin_multi(ngx_http_request_t *r,
     ngx_http_header_val_t *hv, ngx_str_t *value)
 {
+#if (nginx_version >= 1023000)
+    ngx_table_elt_t  *h, *ho, **ph;
+
+    ph = (ngx_table_elt_t **) ((char *) &r->headers_out + hv->offset);
+
+    if (*ph) {
+        (*ph)->value = *value;
+        (*ph)->hash = value->len ? hv->hash : 0;
+
+        for (h = (*ph)->next; h; h = h->next) { /* clear old value */
+            h->hash = 0;
+            h->value.len = 0;
+        }
+
+        return NGX_OK;
+    }
+
+    /* header does not set */
+    ho = ngx_list_push(&r->headers_out.headers);
+    if (ho == NULL) {
+        return NGX_ERROR;
+    }
+
+    ho->value = *value;
+    ho->hash = hv->hash;
+    ho->key = hv->key;
+    ho->next = NULL;
+    *ph = ho;
+#else
     ngx_array_t      *pa;
     ngx_table_elt_t  *ho, **ph;
     ngx_uint_t        i;
@@ -215,6 +244,7 @@ ngx_http_set_header_out_builtin_multi(ngx_http_request_t *r,
     ho->hash = hv->hash;
     ho->key = hv->key;
     *ph = ho;
+#endif
 
     return NGX_OK;
 }
-- 
2.43.0


From 451eb54df82eb813409b8e8b566c240d4af61105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:10 +0000
Subject: [PATCH 038/115] fix: keep stream names and arguments of HTTP players
 terminated

---
 modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c | 4 ++--
 modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c b/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
index 91862f6..47127db 100644
--- a/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
+++ b/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
@@ -468,7 +468,7 @@ ngx_http_flv_live_parse(ngx_http_request_t *r, ngx_rtmp_session_t *s,
 
     ngx_http_flv_live_parse_url(r, &app, &stream);
 
-    if (app.len == 0 || stream.len == 0 || stream.len > NGX_RTMP_MAX_NAME) {
+    if (app.len == 0 || stream.len == 0 || stream.len >= NGX_RTMP_MAX_NAME) {
         ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
                 "http flv live, url error: %V", &r->uri);
         return NGX_HTTP_BAD_REQUEST;
@@ -532,7 +532,7 @@ ngx_http_flv_live_parse(ngx_http_request_t *r, ngx_rtmp_session_t *s,
 
     if (r->args.len) {
         ngx_memcpy(v->args, r->args.data,
-                ngx_min(r->args.len, NGX_RTMP_MAX_ARGS));
+                ngx_min(r->args.len, NGX_RTMP_MAX_ARGS - 1));
     }
 
     ngx_rtmp_cmd_middleware_init(s);
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
index 64061d2..5268880 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
@@ -295,7 +295,7 @@ ngx_mpegts_http_parse(ngx_http_request_t *r, ngx_rtmp_session_t *s,
 
     ngx_mpegts_http_parse_url(r, &app, &stream);
 
-    if (app.len == 0 || stream.len == 0 || stream.len > NGX_RTMP_MAX_NAME) {
+    if (app.len == 0 || stream.len == 0 || stream.len >= NGX_RTMP_MAX_NAME) {
         ngx_log_error(NGX_LOG_ERR, r->connection->log, 0,
                 "mpegts-http: http_parse| url error: %V", &r->uri);
         return NGX_HTTP_BAD_REQUEST;
@@ -359,7 +359,7 @@ ngx_mpegts_http_parse(ngx_http_request_t *r, ngx_rtmp_session_t *s,
 
     if (r->args.len) {
         ngx_memcpy(v->args, r->args.data,
-                ngx_min(r->args.len, NGX_RTMP_MAX_ARGS));
+                ngx_min(r->args.len, NGX_RTMP_MAX_ARGS - 1));
     }
 
     ngx_rtmp_cmd_middleware_init(s);
-- 
2.43.0


From ea081c906a9e0f43505de6a2bfb2363dc64b41d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:14 +0000
Subject: [PATCH 039/115] fix: answer a refused HTTP player with 403, a refused
 publisher with its own status

---
 modules/nginx-rtmp-module/ngx_rtmp_notify_module.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
index 7faea57..7a81f68 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
@@ -1282,13 +1282,15 @@ next:
     return;
 
 error:
-    if (octx->type == NGX_RTMP_OCLP_PUBLISH) {
+    if (nctx->type == NGX_RTMP_OCLP_PUBLISH) {
         ngx_rtmp_send_status(s, "NetStream.Publish.Forbidden", "status",
                 "Publish stream Forbidden");
-    } else if (s->live_type == NGX_RTMP_LIVE) {
+    } else {
         s->status = 403;
-        ngx_rtmp_send_status(s, "NetStream.Play.Forbidden", "status",
-                "Play stream Forbidden");
+        if (s->live_type == NGX_RTMP_LIVE) {
+            ngx_rtmp_send_status(s, "NetStream.Play.Forbidden", "status",
+                    "Play stream Forbidden");
+        }
     }
     s->finalize_reason = NGX_LIVE_OCLP_NOTIFY_ERR;
     ngx_rtmp_finalize_session(s);
-- 
2.43.0


From 8a188735636ad8d0927c5647ead4752ccd5c815f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:49 +0000
Subject: [PATCH 040/115] fix: escape names in notification URLs

---
 .../ngx_rtmp_notify_module.c                  | 77 +++++++++++++++++--
 1 file changed, 70 insertions(+), 7 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
index 7a81f68..82acc36 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
@@ -14,6 +14,7 @@
 #include "ngx_dynamic_resolver.h"
 #include "ngx_toolkit_misc.h"
 #include "ngx_netcall.h"
+#include "ngx_poold.h"
 #include "ngx_rtmp_variables.h"
 
 
@@ -1088,6 +1089,43 @@ ngx_rtmp_notify_init_process(ngx_cycle_t *cycle)
 
 }
 
+/*
+ * client supplied text must not end the request line or add parameters:
+ * values are escaped as arguments, args only where a URL can't hold the char
+ */
+static void
+ngx_rtmp_notify_escape(ngx_pool_t *pool, ngx_str_t *dst, ngx_str_t *src,
+    unsigned args)
+{
+    static u_char               hex[] = "0123456789ABCDEF";
+    u_char                     *p, ch;
+    size_t                      i;
+
+    ngx_str_null(dst);
+
+    p = ngx_pnalloc(pool, src->len * 3);
+    if (p == NULL) {
+        return;
+    }
+    dst->data = p;
+
+    for (i = 0; i < src->len; ++i) {
+        ch = src->data[i];
+
+        if (ch <= 0x20 || ch >= 0x7f || ch == '#'
+            || (!args && (ch == '%' || ch == '&' || ch == '+' || ch == '?')))
+        {
+            *p++ = '%';
+            *p++ = hex[ch >> 4];
+            *p++ = hex[ch & 0xf];
+        } else {
+            *p++ = ch;
+        }
+    }
+
+    dst->len = p - dst->data;
+}
+
 static void
 ngx_rtmp_notify_common_url(ngx_str_t *url, ngx_rtmp_session_t *s,
     ngx_rtmp_notify_event_t *event, ngx_netcall_ctx_t *nctx, ngx_uint_t stage)
@@ -1097,11 +1135,24 @@ ngx_rtmp_notify_common_url(ngx_str_t *url, ngx_rtmp_session_t *s,
     u_char                     *p, *buf;
     ngx_live_record_ctx_t      *lrctx;
     unsigned                    fill = 0;
-    ngx_str_t                   args;
+    ngx_str_t                   args, fetched, domain, app, name, index,
+                                file;
+    ngx_pool_t                 *pool;
 
     ngx_memzero(&ru, sizeof(ngx_request_url_t));
     ngx_parse_request_url(&ru, &event->url);
 
+    ngx_str_null(&domain);
+    ngx_str_null(&app);
+    ngx_str_null(&name);
+
+    pool = NGX_CREATE_POOL(4096, s->log);
+    if (pool) {
+        ngx_rtmp_notify_escape(pool, &domain, &s->domain, 0);
+        ngx_rtmp_notify_escape(pool, &app, &s->app, 0);
+        ngx_rtmp_notify_escape(pool, &name, &s->name, 0);
+    }
+
     len = NGX_NETCALL_MAX_URL_LEN;
     buf = url->data;
     p = ngx_snprintf(buf, len , "%V", &event->url);
@@ -1116,22 +1167,29 @@ ngx_rtmp_notify_common_url(ngx_str_t *url, ngx_rtmp_session_t *s,
                 "&call=%s&act=%s&domain=%V&app=%V&name=%V&clientid=%D",
                 ngx_rtmp_notify_app_type[nctx->type],
                 ngx_rtmp_notify_stage[stage],
-                &s->domain, &s->app, &s->name, s->number);
+                &domain, &app, &name, s->number);
     } else {
         p = ngx_snprintf(buf, len,
                 "?call=%s&act=%s&domain=%V&app=%V&name=%V&clientid=%D",
                 ngx_rtmp_notify_app_type[nctx->type],
                 ngx_rtmp_notify_stage[stage],
-                &s->domain, &s->app, &s->name, s->number);
+                &domain, &app, &name, s->number);
     }
     len -= p - buf;
     buf = p;
 
     if (nctx->type == NGX_RTMP_OCLP_RECORD && stage != NGX_RTMP_OCLP_START) {
         lrctx = ngx_rtmp_get_module_ctx(s, ngx_live_record_module);
+
+        ngx_str_null(&index);
+        ngx_str_null(&file);
+        if (pool) {
+            ngx_rtmp_notify_escape(pool, &index, &lrctx->index.name, 0);
+            ngx_rtmp_notify_escape(pool, &file, &lrctx->file.name, 0);
+        }
+
         p = ngx_snprintf(buf, len, "&begintime=%M&endtime=%M&index=%V&file=%V",
-                lrctx->begintime, lrctx->endtime, &lrctx->index.name,
-                &lrctx->file.name);
+                lrctx->begintime, lrctx->endtime, &index, &file);
 
         len -= p - buf;
         buf = p;
@@ -1143,8 +1201,9 @@ ngx_rtmp_notify_common_url(ngx_str_t *url, ngx_rtmp_session_t *s,
         buf = p;
     }
 
-    if (event->args.len) {
-        ngx_rtmp_fetch_variable(s, s->pool, &event->args, &args);
+    if (event->args.len && pool) {
+        ngx_rtmp_fetch_variable(s, pool, &event->args, &fetched);
+        ngx_rtmp_notify_escape(pool, &args, &fetched, 1);
         if (args.len > 0) {
             p = ngx_snprintf(buf, len, "&%V", &args);
             len -= p - buf;
@@ -1153,6 +1212,10 @@ ngx_rtmp_notify_common_url(ngx_str_t *url, ngx_rtmp_session_t *s,
     }
 
     url->len = p - url->data;
+
+    if (pool) {
+        NGX_DESTROY_POOL(pool);
+    }
 }
 
 static void
-- 
2.43.0


From 492d9f495774d1bcd8ab35bf636f616618664fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:39 +0000
Subject: [PATCH 041/115] fix: notify every on_meta server, once per codec
 header, and release it

---
 .../ngx_rtmp_notify_module.c                  | 31 +++++++++++++------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
index 82acc36..24cdab6 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
@@ -161,7 +161,8 @@ typedef struct {
 typedef struct {
     ngx_netcall_ctx_t          *nctx;
     ngx_netcall_ctx_t          *rctx;
-    ngx_netcall_ctx_t          *mctx; // metadata notify's netcall ctx
+    // metadata notify's netcall ctx, one per on_meta
+    ngx_netcall_ctx_t          *mctx[NGX_RTMP_MAX_OCLP];
 
     ngx_rtmp_notify_event_t    *event;
     ngx_uint_t                  type;
@@ -1287,6 +1288,7 @@ ngx_rtmp_notify_common_done(ngx_rtmp_session_t *s, ngx_netcall_ctx_t *nctx)
     if ((nctx->stage & NGX_RTMP_OCLP_DONE) == NGX_RTMP_OCLP_DONE) {
         oacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_notify_module);
         event = oacf->events[nctx->type].elts;
+        event += nctx->idx;
 
         ngx_rtmp_notify_common_url(&nctx->url, s, event, nctx,
                                  NGX_RTMP_OCLP_DONE);
@@ -1393,7 +1395,8 @@ error:
 }
 
 static ngx_int_t
-ngx_rtmp_notify_meta_start(ngx_rtmp_session_t *s, ngx_uint_t type)
+ngx_rtmp_notify_meta_start(ngx_rtmp_session_t *s, ngx_uint_t type,
+    ngx_uint_t idx)
 {
     ngx_rtmp_notify_app_conf_t   *oacf;
     ngx_rtmp_notify_event_t      *event;
@@ -1417,9 +1420,14 @@ ngx_rtmp_notify_meta_start(ngx_rtmp_session_t *s, ngx_uint_t type)
     }
 
     event = oacf->events[type].elts;
+    event += idx;
 
     nctx = ngx_netcall_create_ctx(type, &event->groupid,
-            event->stage, event->timeout, event->update, 0);
+            event->stage, event->timeout, event->update, idx);
+    if (nctx == NULL) {
+        ngx_log_error(NGX_LOG_ERR, s->log, 0, "create meta nctx failed");
+        return NGX_ERROR;
+    }
     nctx->ev.log = s->log;
 
     ngx_rtmp_notify_common_url(&nctx->url, s, event, nctx,
@@ -1427,7 +1435,10 @@ ngx_rtmp_notify_meta_start(ngx_rtmp_session_t *s, ngx_uint_t type)
     nctx->handler = ngx_rtmp_notify_meta_start_handle;
     nctx->data = s;
 
-    ctx->mctx = nctx;
+    if (ctx->mctx[idx]) { // new codec header replace prev notify
+        ngx_netcall_destroy(ctx->mctx[idx]);
+    }
+    ctx->mctx[idx] = nctx;
 
     ngx_log_error(NGX_LOG_INFO, s->log, 0, "meta %s start create %V",
             ngx_rtmp_notify_app_type[nctx->type], &nctx->url);
@@ -1441,13 +1452,17 @@ static void
 ngx_rtmp_notify_meta_done(ngx_rtmp_session_t *s)
 {
     ngx_rtmp_notify_ctx_t        *ctx;
+    ngx_uint_t                    i;
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_notify_module);
     if (ctx == NULL) {
         return;
     }
 
-    ngx_rtmp_notify_common_done(s, ctx->mctx);
+    for (i = 0; i < NGX_RTMP_MAX_OCLP; ++i) {
+        ngx_rtmp_notify_common_done(s, ctx->mctx[i]);
+        ctx->mctx[i] = NULL;
+    }
 }
 
 static ngx_int_t
@@ -2193,7 +2208,6 @@ static ngx_int_t
 ngx_rtmp_notify_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
 {
     ngx_rtmp_notify_app_conf_t   *oacf;
-    ngx_rtmp_notify_event_t      *event;
     ngx_uint_t                    i;
 
     if (s->live_stream == NULL || s->closed) { /* not publishing */
@@ -2226,10 +2240,9 @@ ngx_rtmp_notify_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h, ngx_chain_t *in)
 
         s->live_stream->notify_meta = 1;
 
-        event = oacf->events[NGX_RTMP_OCLP_META].elts;
-        for (i = 0; i < oacf->events[NGX_RTMP_OCLP_META].nelts; ++i, ++event) {
+        for (i = 0; i < oacf->events[NGX_RTMP_OCLP_META].nelts; ++i) {
             // ngx_rtmp_notify_relay_start(s, event, NGX_RTMP_OCLP_META, 0);
-            ngx_rtmp_notify_meta_start(s, NGX_RTMP_OCLP_META);
+            ngx_rtmp_notify_meta_start(s, NGX_RTMP_OCLP_META, i);
         }
     }
 
-- 
2.43.0


From 783790bad9f7ac6e059e2c82778541515f192695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:05 +0000
Subject: [PATCH 042/115] fix: time out the notification of a delayed relay
 instead of sending it twice

---
 modules/nginx-rtmp-module/ngx_rtmp_notify_module.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
index 24cdab6..6ab4880 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
@@ -1758,6 +1758,9 @@ ngx_rtmp_notify_relay_handler(ngx_event_t *ev)
 
     lracf = ngx_rtmp_get_module_app_conf(s, ngx_live_relay_module);
 
+    // the delay is over, the next timeout is that of the netcall and the relay
+    ctx->failed_delay = 0;
+
     // this timer control start netcall until relay create success
     ngx_add_timer(&ctx->reconnect, lracf->relay_reconnect);
 
-- 
2.43.0


From eb3ca18190f33713bb6ad1ca03e04d45876e0142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:35 +0000
Subject: [PATCH 043/115] fix: tell the end of a push to the server asked for
 it

---
 modules/nginx-rtmp-module/ngx_rtmp_notify_module.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
index 6ab4880..90e2c4a 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
@@ -1719,6 +1719,7 @@ ngx_rtmp_notify_relay_handler(ngx_event_t *ev)
     ngx_live_relay_ctx_t       *ctx;
     ngx_rtmp_notify_ctx_t        *octx;
     ngx_rtmp_notify_event_t      *event;
+    ngx_rtmp_notify_app_conf_t   *oacf;
     ngx_netcall_ctx_t          *nctx;
 
     s = ev->data;
@@ -1764,8 +1765,11 @@ ngx_rtmp_notify_relay_handler(ngx_event_t *ev)
     // this timer control start netcall until relay create success
     ngx_add_timer(&ctx->reconnect, lracf->relay_reconnect);
 
+    oacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_notify_module);
+
     nctx = ngx_netcall_create_ctx(octx->type, &event->groupid, event->stage,
-            event->timeout, event->update, 0);
+            event->timeout, event->update, event
+            - (ngx_rtmp_notify_event_t *) oacf->events[octx->type].elts);
     if (nctx == NULL) {
         ngx_log_error(NGX_LOG_ERR, s->log, 0, "notify relay, create nctx failed");
         ngx_rtmp_finalize_session(s);
-- 
2.43.0


From c590d9ff3f23dba001d20da704c7f242ca4745dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:11 +0000
Subject: [PATCH 044/115] fix: record: stop cleanly at the last whole tag when
 a write fails

A failed header write closed the file but kept using its descriptor, a
failed body write left a torn tag in the middle of the recording, and a
recording closed by record_max_size while its codec header was written
went on with an invalid descriptor.
---
 .../ngx_rtmp_record_module.c                  | 37 ++++++++++++++-----
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
index 4cff47e..f7413c4 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
@@ -867,6 +867,24 @@ next:
 }
 
 
+static ngx_int_t
+ngx_rtmp_record_write_failed(ngx_rtmp_session_t *s,
+                             ngx_rtmp_record_rec_ctx_t *rctx, off_t start)
+{
+    ngx_rtmp_record_notify_error(s, rctx);
+
+    /* drop incomplete tag */
+    if (ftruncate(rctx->file.fd, start) == -1) {
+        ngx_log_error(NGX_LOG_CRIT, s->log, ngx_errno,
+                      "record: %V error truncating file", &rctx->conf->id);
+    }
+
+    ngx_rtmp_record_node_close(s, rctx);
+
+    return NGX_ERROR;
+}
+
+
 static ngx_int_t
 ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
                             ngx_rtmp_record_rec_ctx_t *rctx,
@@ -875,9 +893,11 @@ ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
 {
     u_char                      hdr[11], *p, *ph;
     uint32_t                    timestamp, tag_size;
+    off_t                       start;
     ngx_rtmp_record_app_conf_t *rracf;
 
     rracf = rctx->conf;
+    start = rctx->file.offset;
 
     ngx_log_debug2(NGX_LOG_DEBUG_RTMP, s->log, 0,
                    "record: %V frame: mlen=%uD",
@@ -923,11 +943,7 @@ ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
     if (ngx_write_file(&rctx->file, hdr, ph - hdr, rctx->file.offset)
         == NGX_ERROR)
     {
-        ngx_rtmp_record_notify_error(s, rctx);
-
-        ngx_close_file(rctx->file.fd);
-
-        return NGX_ERROR;
+        return ngx_rtmp_record_write_failed(s, rctx, start);
     }
 
     /* write tag body
@@ -945,7 +961,7 @@ ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
                            - in->buf->pos, rctx->file.offset)
             == NGX_ERROR)
         {
-            return NGX_ERROR;
+            return ngx_rtmp_record_write_failed(s, rctx, start);
         }
     }
 
@@ -962,7 +978,7 @@ ngx_rtmp_record_write_frame(ngx_rtmp_session_t *s,
                        rctx->file.offset)
         == NGX_ERROR)
     {
-        return NGX_ERROR;
+        return ngx_rtmp_record_write_failed(s, rctx, start);
     }
 
     rctx->nframes += inc_nframes;
@@ -1093,7 +1109,8 @@ ngx_rtmp_record_node_av(ngx_rtmp_session_t *s, ngx_rtmp_record_rec_ctx_t *rctx,
         if (rctx->file.offset == 0 &&
             ngx_rtmp_record_write_header(&rctx->file) != NGX_OK)
         {
-            ngx_rtmp_record_node_close(s, rctx);
+            rctx->initialized = 0;
+            ngx_rtmp_record_write_failed(s, rctx, 0);
             return NGX_OK;
         }
     }
@@ -1115,7 +1132,7 @@ ngx_rtmp_record_node_av(ngx_rtmp_session_t *s, ngx_rtmp_record_rec_ctx_t *rctx,
 
             if (ngx_rtmp_record_write_frame(s, rctx, &ch,
                                             codec_ctx->aac_header->chain, 0)
-                != NGX_OK)
+                != NGX_OK || rctx->file.fd == NGX_INVALID_FILE)
             {
                 return NGX_OK;
             }
@@ -1137,7 +1154,7 @@ ngx_rtmp_record_node_av(ngx_rtmp_session_t *s, ngx_rtmp_record_rec_ctx_t *rctx,
 
             if (ngx_rtmp_record_write_frame(s, rctx, &ch,
                                             codec_ctx->avc_header->chain, 0)
-                != NGX_OK)
+                != NGX_OK || rctx->file.fd == NGX_INVALID_FILE)
             {
                 return NGX_OK;
             }
-- 
2.43.0


From 2eb2a8b63b5e33fabd6c59a608ac58533b4cbf64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:36 +0000
Subject: [PATCH 045/115] fix: record: append after the last whole tag of an
 interrupted recording

With record_append, a recording left by a crash was overwritten from the
start or continued behind its torn tag, and the av mask in its header was
replaced by that of the last session.
---
 .../ngx_rtmp_record_module.c                  | 151 ++++++++++++------
 1 file changed, 99 insertions(+), 52 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
index f7413c4..db2cd5f 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
@@ -430,6 +430,99 @@ ngx_rtmp_record_notify_error(ngx_rtmp_session_t *s,
 }
 
 
+static uint32_t
+ngx_rtmp_record_get_tag(ngx_rtmp_record_rec_ctx_t *rctx, off_t start,
+                        off_t file_size, uint32_t *timestamp)
+{
+    u_char                      buf[8], tail[4];
+    uint32_t                    tag_size;
+
+    /* tag header (11), body, tag size (4) */
+    if (start + 15 > file_size
+        || ngx_read_file(&rctx->file, buf, 8, start) != 8)
+    {
+        return 0;
+    }
+
+    tag_size = 11 + ((uint32_t) buf[1] << 16 | (uint32_t) buf[2] << 8 | buf[3]);
+
+    if (start + tag_size + 4 > file_size
+        || ngx_read_file(&rctx->file, tail, 4, start + tag_size) != 4
+        || ((uint32_t) tail[0] << 24 | (uint32_t) tail[1] << 16
+            | (uint32_t) tail[2] << 8 | tail[3]) != tag_size)
+    {
+        return 0;
+    }
+
+    *timestamp = (uint32_t) buf[7] << 24 | (uint32_t) buf[4] << 16
+                 | (uint32_t) buf[5] << 8 | buf[6];
+
+    return tag_size;
+}
+
+
+/* find the end of the last whole tag, drop what follows */
+static off_t
+ngx_rtmp_record_append_offset(ngx_rtmp_session_t *s,
+                              ngx_rtmp_record_rec_ctx_t *rctx,
+                              off_t file_size, uint32_t *timestamp)
+{
+    u_char                      buf[13];
+    off_t                       offset;
+    uint32_t                    tag_size;
+
+    *timestamp = 0;
+
+    if (file_size < 13 || ngx_read_file(&rctx->file, buf, 13, 0) != 13
+        || ngx_memcmp(buf, "FLV\x01", 4) != 0
+        || ngx_memcmp(&buf[5], "\0\0\0\x09\0\0\0\0", 8) != 0)
+    {
+        offset = 0;
+        goto done;
+    }
+
+    /* keep av mask */
+    rctx->video = (buf[4] & 0x01) ? 1 : 0;
+    rctx->audio = (buf[4] & 0x04) ? 1 : 0;
+
+    if (file_size >= 13 + 15
+        && ngx_read_file(&rctx->file, buf, 4, file_size - 4) == 4)
+    {
+        tag_size = (uint32_t) buf[0] << 24 | (uint32_t) buf[1] << 16
+                   | (uint32_t) buf[2] << 8 | buf[3];
+
+        if (tag_size && file_size >= (off_t) tag_size + 4 + 13
+            && ngx_rtmp_record_get_tag(rctx, file_size - tag_size - 4,
+                                       file_size, timestamp) == tag_size)
+        {
+            return file_size;
+        }
+    }
+
+    /* recording was cut, walk from the beginning */
+    *timestamp = 0;
+    offset = 13;
+
+    for ( ;; ) {
+        tag_size = ngx_rtmp_record_get_tag(rctx, offset, file_size, timestamp);
+        if (tag_size == 0) {
+            break;
+        }
+
+        offset += tag_size + 4;
+    }
+
+done:
+
+    if (offset != file_size && ftruncate(rctx->file.fd, offset) == -1) {
+        ngx_log_error(NGX_LOG_CRIT, s->log, ngx_errno,
+                      "record: %V error truncating file", &rctx->conf->id);
+    }
+
+    return offset;
+}
+
+
 static ngx_int_t
 ngx_rtmp_record_node_open(ngx_rtmp_session_t *s,
                           ngx_rtmp_record_rec_ctx_t *rctx)
@@ -438,12 +531,10 @@ ngx_rtmp_record_node_open(ngx_rtmp_session_t *s,
     ngx_err_t                   err;
     ngx_str_t                   path;
     ngx_int_t                   mode, create_mode;
-    u_char                      buf[8], *p;
     off_t                       file_size;
-    uint32_t                    tag_size, mlen, timestamp;
+    uint32_t                    timestamp;
 
     rracf = rctx->conf;
-    tag_size = 0;
 
     if (rctx->file.fd != NGX_INVALID_FILE) {
         return NGX_AGAIN;
@@ -525,60 +616,16 @@ ngx_rtmp_record_node_open(ngx_rtmp_session_t *s,
             goto done;
         }
 
-        if (file_size < 4) {
-            goto done;
-        }
-
-        if (ngx_read_file(&rctx->file, buf, 4, file_size - 4) != 4) {
-            ngx_log_error(NGX_LOG_CRIT, s->log, ngx_errno,
-                          "record: %V tag size read failed", &rracf->id);
-            goto done;
-        }
-
-        p = (u_char *) &tag_size;
-        p[0] = buf[3];
-        p[1] = buf[2];
-        p[2] = buf[1];
-        p[3] = buf[0];
-
-        if (tag_size == 0 || tag_size + 4 > file_size) {
-            file_size = 0;
-            goto done;
-        }
-
-        if (ngx_read_file(&rctx->file, buf, 8, file_size - tag_size - 4) != 8)
-        {
-            ngx_log_error(NGX_LOG_CRIT, s->log, ngx_errno,
-                          "record: %V tag read failed", &rracf->id);
-            goto done;
-        }
-
-        p = (u_char *) &mlen;
-        p[0] = buf[3];
-        p[1] = buf[2];
-        p[2] = buf[1];
-        p[3] = 0;
-
-        if (tag_size != mlen + 11) {
-            ngx_log_error(NGX_LOG_CRIT, s->log, ngx_errno,
-                          "record: %V tag size mismatch: "
-                          "tag_size=%uD, mlen=%uD", &rracf->id, tag_size, mlen);
-            goto done;
-        }
-
-        p = (u_char *) &timestamp;
-        p[3] = buf[7];
-        p[0] = buf[6];
-        p[1] = buf[5];
-        p[2] = buf[4];
+        file_size = ngx_rtmp_record_append_offset(s, rctx, file_size,
+                                                  &timestamp);
 
 done:
         rctx->file.offset = file_size;
         rctx->time_shift = timestamp;
 
-        ngx_log_debug3(NGX_LOG_DEBUG_RTMP, s->log, 0,
-                       "record: append offset=%O, time=%uD, tag_size=%uD",
-                       file_size, timestamp, tag_size);
+        ngx_log_debug2(NGX_LOG_DEBUG_RTMP, s->log, 0,
+                       "record: append offset=%O, time=%uD",
+                       file_size, timestamp);
     }
 
     return NGX_OK;
-- 
2.43.0


From 16dc5fa584c0091074e9fb7abf4dc3ae71d451de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:54 +0000
Subject: [PATCH 046/115] fix: record: do not open the recording of a publisher
 that is refused

Recording started before the live, access and notify modules had decided
about the publisher, so a second publisher of a name (BadName), or one
refused by on_publish, truncated the recording of the accepted one.
---
 .../ngx_rtmp_record_module.c                  | 40 +++++++++++++++++--
 .../ngx_rtmp_record_module.h                  |  1 +
 2 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
index db2cd5f..fa9e836 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
@@ -9,6 +9,7 @@
 #include "ngx_rtmp.h"
 #include "ngx_rtmp_cmd_module.h"
 #include "ngx_rtmp_codec_module.h"
+#include "ngx_rtmp_live_module.h"
 #include "ngx_rtmp_record_module.h"
 
 
@@ -686,6 +687,24 @@ ngx_rtmp_record_init(ngx_rtmp_session_t *s)
 }
 
 
+/* a publisher refused by live must not touch the accepted one's recording */
+static ngx_int_t
+ngx_rtmp_record_accepted(ngx_rtmp_session_t *s)
+{
+    ngx_rtmp_live_app_conf_t       *lacf;
+    ngx_rtmp_live_ctx_t            *lctx;
+
+    lacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_live_module);
+    if (lacf == NULL || !lacf->live) {
+        return 1;
+    }
+
+    lctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_live_module);
+
+    return lctx && lctx->stream && lctx->publishing;
+}
+
+
 static void
 ngx_rtmp_record_start(ngx_rtmp_session_t *s)
 {
@@ -700,13 +719,15 @@ ngx_rtmp_record_start(ngx_rtmp_session_t *s)
     }
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_record_module);
-    if (ctx == NULL) {
+    if (ctx == NULL || !ngx_rtmp_record_accepted(s)) {
         return;
     }
 
     ngx_log_debug0(NGX_LOG_DEBUG_RTMP, s->log, 0,
                    "record: start");
 
+    ctx->starting = 0;
+
     rctx = ctx->rec.elts;
     for (n = 0; n < ctx->rec.nelts; ++n, ++rctx) {
         if (rctx->conf->flags & (NGX_RTMP_RECORD_OFF|NGX_RTMP_RECORD_MANUAL)) {
@@ -750,6 +771,7 @@ ngx_rtmp_record_publish(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
 {
     ngx_rtmp_record_app_conf_t     *racf;
     ngx_rtmp_record_ctx_t          *ctx;
+    ngx_int_t                       rc;
     u_char                         *p;
 
     if (s->interprocess) {
@@ -786,7 +808,15 @@ ngx_rtmp_record_publish(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
         }
     }
 
-    ngx_rtmp_record_start(s);
+    ctx->starting = 1;
+
+    rc = next_publish(s, v);
+
+    if (rc == NGX_OK) {
+        ngx_rtmp_record_start(s);
+    }
+
+    return rc;
 
 next:
     return next_publish(s, v);
@@ -1064,10 +1094,14 @@ ngx_rtmp_record_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_record_module);
 
-    if (ctx == NULL || s->pause) {
+    if (ctx == NULL || s->pause || !ngx_rtmp_record_accepted(s)) {
         return NGX_OK;
     }
 
+    if (ctx->starting) {
+        ngx_rtmp_record_start(s);
+    }
+
     rctx = ctx->rec.elts;
 
     for (n = 0; n < ctx->rec.nelts; ++n, ++rctx) {
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_record_module.h b/modules/nginx-rtmp-module/ngx_rtmp_record_module.h
index 6450dcb..223af8d 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_record_module.h
+++ b/modules/nginx-rtmp-module/ngx_rtmp_record_module.h
@@ -60,6 +60,7 @@ typedef struct {
     ngx_array_t                         rec; /* ngx_rtmp_record_rec_ctx_t */
     u_char                              name[NGX_RTMP_MAX_NAME];
     u_char                              args[NGX_RTMP_MAX_ARGS];
+    unsigned                            starting:1;
 } ngx_rtmp_record_ctx_t;
 
 
-- 
2.43.0


From 98f5b63543ff2709158671dbb55a6472bab1adc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:21 +0000
Subject: [PATCH 047/115] fix: record: write a codec header that changes before
 the first keyframe

A header repeated with new content while the recording waited for its
first keyframe was dropped, so the keyframe followed a stale header.
---
 modules/nginx-rtmp-module/ngx_rtmp_record_module.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
index fa9e836..7d122f7 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_record_module.c
@@ -1162,6 +1162,10 @@ ngx_rtmp_record_node_av(ngx_rtmp_session_t *s, ngx_rtmp_record_rec_ctx_t *rctx,
     if ((rracf->flags & NGX_RTMP_RECORD_MANUAL) &&
         !brkframe && rctx->nframes == 0)
     {
+        if (h->type == NGX_RTMP_MSG_AUDIO && ngx_rtmp_is_codec_header(in)) {
+            rctx->aac_header_sent = 0;
+        }
+
         return NGX_OK;
     }
 
@@ -1200,6 +1204,14 @@ ngx_rtmp_record_node_av(ngx_rtmp_session_t *s, ngx_rtmp_record_rec_ctx_t *rctx,
     if (codec_ctx) {
         ch = *h;
 
+        /* AVC header changed before the first keyframe */
+        if (h->type == NGX_RTMP_MSG_VIDEO && !rctx->video_key_sent &&
+            codec_ctx->video_codec_id == NGX_RTMP_VIDEO_H264 &&
+            ngx_rtmp_is_codec_header(in))
+        {
+            rctx->avc_header_sent = 0;
+        }
+
         /* AAC header */
         if (!rctx->aac_header_sent && codec_ctx->aac_header &&
            (rracf->flags & NGX_RTMP_RECORD_AUDIO))
-- 
2.43.0


From 453aabd816f941b769f2e91f05daea7796ca9a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:57 +0000
Subject: [PATCH 048/115] fix: hls: negative composition time offsets

---
 modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index 35f1c6e..5a9b375 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -2031,6 +2031,7 @@ ngx_rtmp_hls_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     uint32_t                        len, rlen;
     ngx_buf_t                       out, *b;
     uint32_t                        cts;
+    int32_t                         delay;
     ngx_rtmp_mpegts_frame_t         frame;
     ngx_uint_t                      nal_bytes;
     ngx_int_t                       aud_sent, sps_pps_sent, boundary;
@@ -2094,6 +2095,9 @@ ngx_rtmp_hls_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     cts = ((cts & 0x00FF0000) >> 16) | ((cts & 0x000000FF) << 16) |
           (cts & 0x0000FF00);
 
+    /* composition time is a signed 24-bit value */
+    delay = (int32_t) (cts << 8) >> 8;
+
     ngx_memzero(&out, sizeof(out));
 
     out.start = buffer;
@@ -2266,7 +2270,7 @@ ngx_rtmp_hls_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
     frame.cc = ctx->video_cc;
     frame.dts = (uint64_t) h->timestamp * 90;
-    frame.pts = frame.dts + cts * 90;
+    frame.pts = frame.dts + (int64_t) delay * 90;
     frame.pid = 0x100;
     frame.sid = 0xe0;
     frame.key = (ftype == 1);
-- 
2.43.0


From 6a2e3f9a20fd9934b15de4cd0893d32e454e8f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:57 +0000
Subject: [PATCH 049/115] fix: hls: write the audio still buffered when the
 stream closes

---
 modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index 5a9b375..7b3fb6c 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -1636,6 +1636,8 @@ ngx_rtmp_hls_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
     ngx_log_debug0(NGX_LOG_DEBUG_RTMP, s->log, 0,
                    "hls: close stream");
 
+    ngx_rtmp_hls_flush_audio(s);
+
     ngx_rtmp_hls_close_fragment(s);
 
 next:
-- 
2.43.0


From aa99f4f193391f79cc4d456b7f62c5604d3b34d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:57 +0000
Subject: [PATCH 050/115] fix: hls: fragment duration when a timestamp steps
 back

---
 modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index 7b3fb6c..f1a56a4 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -1733,7 +1733,10 @@ ngx_rtmp_hls_update_fragment(ngx_rtmp_session_t *s, uint64_t ts,
             force = 1;
 
         } else {
-            f->duration = (ts - ctx->frag_ts) / 90000.;
+            if (d > 0) {
+                f->duration = d / 90000.;
+            }
+
             discont = 0;
         }
     }
-- 
2.43.0


From 6f5b00bf5f8dadd8ad8ba40885db7bc2bc9a560e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:57 +0000
Subject: [PATCH 051/115] fix: hls: crash on a NAL unit that is longer than its
 message

---
 modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index f1a56a4..3af95b8 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -2263,8 +2263,8 @@ ngx_rtmp_hls_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
         if (ngx_rtmp_hls_copy(s, out.last, &p, len - 1, &in) != NGX_OK) {
             ngx_log_error(NGX_LOG_ERR, s->log, 0,
-                        "rtmp-hls: video| copy nal, failed copy, len %d, in %d",
-                        len - 1, in->buf->last - in->buf->pos);
+                        "rtmp-hls: video| copy nal, failed copy, len %uD",
+                        len - 1);
             return NGX_ERROR;
         }
 
-- 
2.43.0


From f598e7d95bdf3aef7e9944cdc507917b08029fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:19 +0000
Subject: [PATCH 052/115] fix: hls: do not read past the buffer when restoring
 a playlist

---
 modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index 3af95b8..c4d8fe3 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -1128,7 +1128,7 @@ ngx_rtmp_hls_restore_stream(ngx_rtmp_session_t *s)
     double                          duration;
     ngx_int_t                       discont;
     uint64_t                        mag, key_id, base;
-    static u_char                   buffer[4096];
+    static u_char                   buffer[4096 + 1];
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_hls_module);
 
@@ -1153,13 +1153,14 @@ ngx_rtmp_hls_restore_stream(ngx_rtmp_session_t *s)
 
     for ( ;; ) {
 
-        ret = ngx_read_file(&file, buffer, sizeof(buffer), offset);
+        ret = ngx_read_file(&file, buffer, sizeof(buffer) - 1, offset);
         if (ret <= 0) {
             goto done;
         }
 
         p = buffer;
         end = buffer + ret;
+        *end = 0;
 
         for ( ;; ) {
             last = ngx_strlchr(p, end, '\n');
@@ -1183,7 +1184,7 @@ ngx_rtmp_hls_restore_stream(ngx_rtmp_session_t *s)
 #define NGX_RTMP_MSEQ_LEN       (sizeof(NGX_RTMP_MSEQ) - 1)
 
 
-            if (ngx_memcmp(p, NGX_RTMP_MSEQ, NGX_RTMP_MSEQ_LEN) == 0) {
+            if (ngx_strncmp(p, NGX_RTMP_MSEQ, NGX_RTMP_MSEQ_LEN) == 0) {
 
                 ctx->frag = (uint64_t) strtod((const char *)
                                               &p[NGX_RTMP_MSEQ_LEN], NULL);
@@ -1196,7 +1197,7 @@ ngx_rtmp_hls_restore_stream(ngx_rtmp_session_t *s)
 #define NGX_RTMP_XKEY           "#EXT-X-KEY:"
 #define NGX_RTMP_XKEY_LEN       (sizeof(NGX_RTMP_XKEY) - 1)
 
-            if (ngx_memcmp(p, NGX_RTMP_XKEY, NGX_RTMP_XKEY_LEN) == 0) {
+            if (ngx_strncmp(p, NGX_RTMP_XKEY, NGX_RTMP_XKEY_LEN) == 0) {
 
                 /* recover key id from initialization vector */
 
@@ -1245,7 +1246,7 @@ ngx_rtmp_hls_restore_stream(ngx_rtmp_session_t *s)
 #define NGX_RTMP_EXTINF_LEN     (sizeof(NGX_RTMP_EXTINF) - 1)
 
 
-            if (ngx_memcmp(p, NGX_RTMP_EXTINF, NGX_RTMP_EXTINF_LEN) == 0) {
+            if (ngx_strncmp(p, NGX_RTMP_EXTINF, NGX_RTMP_EXTINF_LEN) == 0) {
 
                 duration = strtod((const char *) &p[NGX_RTMP_EXTINF_LEN], NULL);
 
@@ -1258,7 +1259,7 @@ ngx_rtmp_hls_restore_stream(ngx_rtmp_session_t *s)
 #define NGX_RTMP_DISCONT_LEN    (sizeof(NGX_RTMP_DISCONT) - 1)
 
 
-            if (ngx_memcmp(p, NGX_RTMP_DISCONT, NGX_RTMP_DISCONT_LEN) == 0) {
+            if (ngx_strncmp(p, NGX_RTMP_DISCONT, NGX_RTMP_DISCONT_LEN) == 0) {
 
                 discont = 1;
 
-- 
2.43.0


From 1655cd8bfa0b20ce84212a026cbd1e029fdf3477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:19 +0000
Subject: [PATCH 053/115] fix: hls: HEVC frames of NAL type 0 across chunk
 boundaries

---
 .../hls/ngx_rtmp_hls_module.c                 | 25 ++++++++++++++-----
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index c4d8fe3..193a776 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -2038,6 +2038,8 @@ ngx_rtmp_hls_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     ngx_buf_t                       out, *b;
     uint32_t                        cts;
     int32_t                         delay;
+    u_char                         *pos, prefix[3];
+    ngx_chain_t                    *cl;
     ngx_rtmp_mpegts_frame_t         frame;
     ngx_uint_t                      nal_bytes;
     ngx_int_t                       aud_sent, sps_pps_sent, boundary;
@@ -2179,19 +2181,30 @@ ngx_rtmp_hls_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
                     break;
             }
         } else {
-            if (src_nal_type == 0) {
-                if (ngx_rtmp_hls_copy(s, out.last, &p, 3, &in) != NGX_OK) {
+            if (src_nal_type == 0 && len > 4) {
+                pos = p;
+                cl = in;
+
+                if (ngx_rtmp_hls_copy(s, prefix, &p, 3, &in) != NGX_OK) {
                     ngx_log_error(NGX_LOG_ERR, s->log, 0,
                                     "rtmp-hls: video| buffer error");
                     return NGX_ERROR;
                 }
-                if (out.last[0] == 0x00 && out.last[1] == 0x00 &&
-                    out.last[2] == 0x01)
+
+                if (prefix[0] == 0x00 && prefix[1] == 0x00 &&
+                    prefix[2] == 0x01)
                 {
-                    ngx_rtmp_hls_copy(s, &src_nal_type, &p, 1, &in);
+                    if (ngx_rtmp_hls_copy(s, &src_nal_type, &p, 1, &in)
+                        != NGX_OK)
+                    {
+                        return NGX_ERROR;
+                    }
+
                     len -= 4;
+
                 } else {
-                    p -= 3;
+                    p = pos;
+                    in = cl;
                 }
             }
 
-- 
2.43.0


From be51f68e8edfef39400b4ad669f708d45d9c8309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:19 +0000
Subject: [PATCH 054/115] fix: hls: NAL unit of one byte at the end of a frame

---
 modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index 193a776..5b36295 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -620,6 +620,10 @@ ngx_rtmp_hls_copy(ngx_rtmp_session_t *s, void *dst, u_char **src, size_t n,
     u_char  *last;
     size_t   pn;
 
+    if (n == 0) {
+        return NGX_OK;
+    }
+
     if (*in == NULL) {
         return NGX_ERROR;
     }
-- 
2.43.0


From 91c35d1c769ea9c378fac4bede01b302ffe8bdae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:19 +0000
Subject: [PATCH 055/115] fix: hls: do not write cut or broken audio frames

---
 .../hls/ngx_rtmp_hls_module.c                 | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index 5b36295..8892f82 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -1896,7 +1896,9 @@ ngx_rtmp_hls_audio(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
     pts = (uint64_t) h->timestamp * 90;
 
-    if (b->start + size > b->end) {
+    if (b->start + size > b->end
+        || (codec_ctx->audio_codec_id == NGX_RTMP_AUDIO_AAC && size > 0x1fff))
+    {
         ngx_log_error(NGX_LOG_ERR, s->log, 0,
                       "hls: too big audio frame");
         return NGX_OK;
@@ -1912,6 +1914,12 @@ ngx_rtmp_hls_audio(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
     if (b->last + size > b->end) {
         ngx_rtmp_hls_flush_audio(s);
+
+        if (b->last + size > b->end) {
+            ngx_log_error(NGX_LOG_ERR, s->log, 0,
+                          "hls: not enough buffer for audio frame");
+            return NGX_OK;
+        }
     }
 
     ngx_log_debug1(NGX_LOG_DEBUG_RTMP, s->log, 0,
@@ -1946,6 +1954,7 @@ ngx_rtmp_hls_audio(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         {
             ngx_log_error(NGX_LOG_ERR, s->log, 0,
                         "hls: aac header error");
+            b->last = p;
             return NGX_OK;
         }
 
@@ -1972,17 +1981,14 @@ ngx_rtmp_hls_audio(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
         for (; in && b->last < b->end; in = in->next) {
 
-            bsize = in->buf->last - in->buf->pos;
+            bsize = in->buf->last - in->buf->pos - (mp3_tag ? 0 : 1);
             if (b->last + bsize > b->end) {
                 bsize = b->end - b->last;
             }
 
-            if (0 == mp3_tag) {
-                b->last = ngx_cpymem(b->last, in->buf->pos+1, bsize-1);
-                mp3_tag = 1;
-            } else {
-                b->last = ngx_cpymem(b->last, in->buf->pos, bsize);
-            }
+            b->last = ngx_cpymem(b->last, in->buf->pos + (mp3_tag ? 0 : 1),
+                                 bsize);
+            mp3_tag = 1;
         }
     }
 
-- 
2.43.0


From f1d3a43ae34bfa2b5d24dee71a8cc69c20d0222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:13 +0000
Subject: [PATCH 056/115] fix: live: drop media of sessions which do not
 publish for every output

---
 modules/nginx-rtmp-module/ngx_rtmp_live_module.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
index e6c768a..9abf596 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_live_module.c
@@ -731,14 +731,15 @@ ngx_rtmp_live_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     }
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_live_module);
+    /* data of a session that does not publish is of no use to any output */
     if (ctx == NULL || ctx->stream == NULL) {
-        return NGX_OK;
+        return NGX_DONE;
     }
 
     if (ctx->publishing == 0) {
         ngx_log_debug1(NGX_LOG_DEBUG_RTMP, s->log, 0,
                        "live: %s from non-publisher", MSG_TYPE);
-        return NGX_OK;
+        return NGX_DONE;
     }
 
     if (!ctx->stream->active) {
-- 
2.43.0


From fe290472b2af96476d89059fd1f418fec2892627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:14 +0000
Subject: [PATCH 057/115] fix: codec: one byte written past the buffer when
 dumping a header

---
 modules/nginx-rtmp-module/ngx_rtmp_codec_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 8621f5f..9d5e9cd 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -978,7 +978,7 @@ ngx_rtmp_codec_dump_header(ngx_rtmp_session_t *s, const char *type,
     u_char hex[] = "0123456789abcdef";
 
     for (pp = buf, p = in->buf->pos;
-         p < in->buf->last && pp < buf + sizeof(buf) - 1;
+         p < in->buf->last && pp < buf + sizeof(buf) - 2;
          ++p)
     {
         *pp++ = hex[*p >> 4];
-- 
2.43.0


From 874318c98d98711d1c35e644960ac0ed627fdcbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:20 +0000
Subject: [PATCH 058/115] fix: hls: short writes

---
 modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c |  8 ++++----
 modules/nginx-rtmp-module/hls/ngx_rtmp_mpegts.c     | 13 +++++++++++++
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
index 8892f82..70f7067 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_hls_module.c
@@ -418,7 +418,7 @@ ngx_rtmp_hls_write_variant_playlist(ngx_rtmp_session_t *s)
 
     rc = ngx_write_fd(fd, NGX_RTMP_HLS_VAR_HEADER,
                       sizeof(NGX_RTMP_HLS_VAR_HEADER) - 1);
-    if (rc < 0) {
+    if (rc != sizeof(NGX_RTMP_HLS_VAR_HEADER) - 1) {
         ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
                       "hls: " ngx_write_fd_n " failed: '%V'",
                       &ctx->var_playlist_bak);
@@ -454,7 +454,7 @@ ngx_rtmp_hls_write_variant_playlist(ngx_rtmp_session_t *s)
         p = ngx_slprintf(p, last, "%s", ".m3u8\n");
 
         rc = ngx_write_fd(fd, buffer, p - buffer);
-        if (rc < 0) {
+        if (rc != p - buffer) {
             ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
                           "hls: " ngx_write_fd_n " failed '%V'",
                           &ctx->var_playlist_bak);
@@ -532,7 +532,7 @@ ngx_rtmp_hls_write_playlist(ngx_rtmp_session_t *s)
     }
 
     n = ngx_write_fd(fd, buffer, p - buffer);
-    if (n < 0) {
+    if (n != p - buffer) {
         ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
                       "hls: " ngx_write_fd_n " failed: '%V'",
                       &ctx->playlist_bak);
@@ -585,7 +585,7 @@ ngx_rtmp_hls_write_playlist(ngx_rtmp_session_t *s)
                        ctx->frag, i + 1, ctx->nfrags, f->duration, f->discont);
 
         n = ngx_write_fd(fd, buffer, p - buffer);
-        if (n < 0) {
+        if (n != p - buffer) {
             ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
                           "hls: " ngx_write_fd_n " failed '%V'",
                           &ctx->playlist_bak);
diff --git a/modules/nginx-rtmp-module/hls/ngx_rtmp_mpegts.c b/modules/nginx-rtmp-module/hls/ngx_rtmp_mpegts.c
index 110dfca..046f1f5 100644
--- a/modules/nginx-rtmp-module/hls/ngx_rtmp_mpegts.c
+++ b/modules/nginx-rtmp-module/hls/ngx_rtmp_mpegts.c
@@ -231,6 +231,18 @@ ngx_rtmp_mpegts_write_file(ngx_rtmp_mpegts_file_t *file, u_char *in,
                 return NGX_ERROR;
             }
 
+            if ((size_t) rc != in_size) {
+                /* a part of a packet would shift all packets behind it */
+                if (lseek(file->fd, -rc, SEEK_CUR) == -1
+                    || ftruncate(file->fd, lseek(file->fd, 0, SEEK_CUR)) == -1)
+                {
+                    ngx_log_error(NGX_LOG_ERR, file->log, ngx_errno,
+                                  "mpegts: cannot drop a partial write");
+                }
+
+                return NGX_ERROR;
+            }
+
             file->file_size += rc;
         } else {
             rc = file->whandle(file, in, in_size);
@@ -548,6 +560,7 @@ ngx_rtmp_mpegts_close_file(ngx_rtmp_mpegts_file_t *file)
 
         rc = ngx_write_fd(file->fd, buf, 16);
         if (rc < 0) {
+            ngx_close_file(file->fd);
             return NGX_ERROR;
         }
     }
-- 
2.43.0


From 8484d0c3962483171d010141a03999f4d3fcb6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:04 +0000
Subject: [PATCH 059/115] fix: live record: records were never rotated, times
 were uptimes

---
 modules/nginx-rtmp-module/ngx_live_record.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index 278c18c..9bc6d90 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -31,6 +31,10 @@ static char * ngx_live_record_merge_app_conf(ngx_conf_t *cf,
 
 #define NGX_LIVE_RECORD_BUFSIZE     (10*1024*1024)
 
+/* milliseconds since the epoch, ngx_current_msec may be monotonic time */
+#define ngx_live_record_msec()                                              \
+    ((ngx_msec_t) ngx_cached_time->sec * 1000 + ngx_cached_time->msec)
+
 
 typedef struct {
     ngx_flag_t                      record;
@@ -751,13 +755,13 @@ ngx_live_record_aac(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     lracf = ngx_rtmp_get_module_app_conf(s, ngx_live_record_module);
 
     if (ctx->last_time == 0) {
-        ctx->publish_epoch = ngx_current_msec;
+        ctx->publish_epoch = ngx_live_record_msec();
         ctx->last_time = ngx_time() - ngx_time() % (lracf->interval / 1000);
         ctx->basetime = ctx->publish_epoch - h->timestamp;
 
-        ctx->begintime = ngx_current_msec;
-        ctx->starttime = ngx_current_msec;
-        ctx->endtime = ngx_current_msec;
+        ctx->begintime = ctx->publish_epoch;
+        ctx->starttime = ctx->publish_epoch;
+        ctx->endtime = ctx->publish_epoch;
 
         // open new index and file
         if (ngx_live_record_open_index(s) == NGX_ERROR) {
@@ -917,13 +921,13 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     lracf = ngx_rtmp_get_module_app_conf(s, ngx_live_record_module);
 
     if (ctx->last_time == 0) {
-        ctx->publish_epoch = ngx_current_msec;
+        ctx->publish_epoch = ngx_live_record_msec();
         ctx->last_time = ngx_time() - ngx_time() % (lracf->interval / 1000);
         ctx->basetime = ctx->publish_epoch - h->timestamp;
 
-        ctx->begintime = ngx_current_msec;
-        ctx->starttime = ngx_current_msec;
-        ctx->endtime = ngx_current_msec;
+        ctx->begintime = ctx->publish_epoch;
+        ctx->starttime = ctx->publish_epoch;
+        ctx->endtime = ctx->publish_epoch;
 
         // open new index and file
         if (ngx_live_record_open_index(s) == NGX_ERROR) {
-- 
2.43.0


From 544f797b633e5305993fe84c41ee69c8ad6dcea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:04 +0000
Subject: [PATCH 060/115] fix: live record: the index named files which do not
 exist

---
 modules/nginx-rtmp-module/ngx_live_record.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index 9bc6d90..7d835ea 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -270,7 +270,7 @@ ngx_live_record_open_file(ngx_rtmp_session_t *s)
     ngx_libc_localtime(ctx->last_time, &tm);
 
     p = ngx_snprintf(ctx->file.name.data, len,
-            "%V/%V/%V/%V/%04d%02d%02d/%V_%d.ts",
+            "%V/%V/%V/%V/%04d%02d%02d/%V_%T.ts",
             &lracf->path, &s->serverid, &s->app, &s->name,
             tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday,
             &s->name, ctx->last_time);
@@ -350,7 +350,7 @@ ngx_live_record_write_index(ngx_rtmp_session_t *s, ngx_live_record_ctx_t *ctx,
     ctx->endsize = ctx->ts.file_size - 1;
 
     p = ngx_snprintf(buf, sizeof(buf) - 1,
-            "%V-%D.ts?startsize=%O&endsize=%O&starttime=%M&endtime=%M\n",
+            "%V_%T.ts?startsize=%O&endsize=%O&starttime=%M&endtime=%M\n",
             &s->name, ctx->last_time, ctx->startsize, ctx->endsize,
             ctx->starttime, ctx->endtime);
     *p = 0;
@@ -397,7 +397,7 @@ ngx_live_record_open_index(ngx_rtmp_session_t *s)
     ngx_libc_localtime(ctx->last_time, &tm);
 
     p = ngx_snprintf(ctx->index.name.data, len,
-            "%V/%V/%V/%V/index/%04d%02d%02d/%V-%D.m3u8",
+            "%V/%V/%V/%V/index/%04d%02d%02d/%V-%T.m3u8",
             &lracf->path, &s->serverid, &s->app, &s->name,
             tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday,
             &s->name, ctx->last_time);
-- 
2.43.0


From 5cb5f463d781778d89bf458de59b3169ae9fdc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:04 +0000
Subject: [PATCH 061/115] fix: live record: presentation times with negative
 offsets or above 2^32

---
 modules/nginx-rtmp-module/ngx_live_record.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index 7d835ea..bc0f2a1 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -879,7 +879,7 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     uint8_t                         fmt, ftype, nal_type, src_nal_type;
     uint32_t                        len, rlen;
     ngx_buf_t                       out;
-    uint32_t                        cts;
+    int32_t                         cts;
     ngx_rtmp_mpegts_frame_t         frame;
     ngx_uint_t                      nal_bytes;
     ngx_int_t                       aud_sent, sps_pps_sent;
@@ -956,6 +956,7 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     /* CompositionTime */
     cts = ((cts & 0x00FF0000) >> 16) | ((cts & 0x000000FF) << 16) |
           (cts & 0x0000FF00);
+    cts = (int32_t) ((uint32_t) cts << 8) / 256; /* signed 24 bits */
 
     /* Data */
     ngx_memzero(&out, sizeof(out));
@@ -1095,7 +1096,7 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
     frame.cc = ctx->video_cc;
     frame.dts = (uint64_t) h->timestamp * 90;
-    frame.pts = (h->timestamp + cts) * 90;
+    frame.pts = frame.dts + (int64_t) cts * 90;
     frame.pid = 0x100;
     frame.sid = 0xe0;
     frame.key = (ftype == 1);
-- 
2.43.0


From 4e715b72732807a9cee702e0c9399a91e978b0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:52 +0000
Subject: [PATCH 062/115] fix: live record: broken frames disconnected the
 publisher or were written partly

---
 modules/nginx-rtmp-module/ngx_live_record.c | 28 ++++++++++++++++-----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index bc0f2a1..399dc4b 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -489,6 +489,10 @@ ngx_live_record_copy(ngx_rtmp_session_t *s, void *dst, u_char **src, size_t n,
     u_char  *last;
     size_t   pn;
 
+    if (n == 0) {
+        return NGX_OK;
+    }
+
     if (*in == NULL) {
         return NGX_ERROR;
     }
@@ -787,13 +791,19 @@ ngx_live_record_aac(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
      * mpegts ADTS 7 bytes
      */
     size = h->mlen - 2 + 7;
+    if (size > 0x1fff) {
+        ngx_log_error(NGX_LOG_ERR, s->log, 0,
+                      "record: too large audio frame: %ui", size);
+        return NGX_OK;
+    }
+
     pts = (uint64_t) h->timestamp * 90;
 
     p = in->buf->pos;
 
     /* skip FLV Audio data config */
     if (ngx_live_record_copy(s, NULL, &p, 2, &in) != NGX_OK) {
-        return NGX_ERROR;
+        return NGX_OK;
     }
 
     ngx_memzero(&out, sizeof(out));
@@ -897,7 +907,7 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
     p = in->buf->pos;
     if (ngx_live_record_copy(s, &fmt, &p, 1, &in) != NGX_OK) {
-        return NGX_ERROR;
+        return NGX_OK;
     }
 
     /*
@@ -946,11 +956,11 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     }
 
     if (ngx_live_record_copy(s, NULL, &p, 1, &in) != NGX_OK) {
-        return NGX_ERROR;
+        return NGX_OK;
     }
 
     if (ngx_live_record_copy(s, &cts, &p, 3, &in) != NGX_OK) {
-        return NGX_ERROR;
+        return NGX_OK;
     }
 
     /* CompositionTime */
@@ -982,6 +992,11 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
             continue;
         }
 
+        if (in == NULL) {
+            ngx_log_error(NGX_LOG_ERR, s->log, 0, "record: cut NAL unit");
+            return NGX_OK;
+        }
+
         if (ngx_live_record_copy(s, &src_nal_type, &p, 1, &in) != NGX_OK) {
             return NGX_OK;
         }
@@ -994,7 +1009,7 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
 
         if (nal_type >= 7 && nal_type <= 9) {
             if (ngx_live_record_copy(s, NULL, &p, len - 1, &in) != NGX_OK) {
-                return NGX_ERROR;
+                return NGX_OK;
             }
             continue;
         }
@@ -1028,6 +1043,7 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
                 if (ngx_live_record_append_sps_pps(s, &out) != NGX_OK) {
                     ngx_log_error(NGX_LOG_ERR, s->log, 0,
                                   "record: error appenging SPS/PPS NALs");
+                    return NGX_OK;
                 }
                 sps_pps_sent = 1;
                 break;
@@ -1061,7 +1077,7 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         }
 
         if (ngx_live_record_copy(s, out.last, &p, len - 1, &in) != NGX_OK) {
-            return NGX_ERROR;
+            return NGX_OK;
         }
 
         out.last += (len - 1);
-- 
2.43.0


From e26a295164ddcdcf17e922eb05d793ea39a6183f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:52 +0000
Subject: [PATCH 063/115] fix: live record: failed and short writes, files
 which cannot be opened

---
 modules/nginx-rtmp-module/ngx_live_record.c | 189 +++++++++++++-------
 1 file changed, 127 insertions(+), 62 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index 399dc4b..c108dbb 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -31,6 +31,9 @@ static char * ngx_live_record_merge_app_conf(ngx_conf_t *cf,
 
 #define NGX_LIVE_RECORD_BUFSIZE     (10*1024*1024)
 
+/* one transport packet */
+#define NGX_LIVE_RECORD_MINBUF      188
+
 /* milliseconds since the epoch, ngx_current_msec may be monotonic time */
 #define ngx_live_record_msec()                                              \
     ((ngx_msec_t) ngx_cached_time->sec * 1000 + ngx_cached_time->msec)
@@ -163,6 +166,10 @@ ngx_live_record_merge_app_conf(ngx_conf_t *cf, void *parent, void *child)
     ngx_conf_merge_msec_value(conf->max_fraglen, prev->max_fraglen, 12 * 1000);
     ngx_conf_merge_msec_value(conf->buffer, prev->buffer, 1024 * 1024);
 
+    if (conf->buffer < NGX_LIVE_RECORD_MINBUF) {
+        conf->buffer = NGX_LIVE_RECORD_MINBUF;
+    }
+
     if (conf->path.data[conf->path.len - 1] == '/') {
         --conf->path.len;
     }
@@ -188,10 +195,14 @@ ngx_live_record_merge_app_conf(ngx_conf_t *cf, void *parent, void *child)
 static ssize_t
 ngx_live_record_flush(ngx_rtmp_mpegts_file_t *file)
 {
-    ssize_t                         rc;
+    ssize_t                         rc, n;
 
-    rc = ngx_write_fd(file->fd, file->wbuf.pos,
-            file->wbuf.last - file->wbuf.pos);
+    n = file->wbuf.last - file->wbuf.pos;
+    if (n == 0) {
+        return 0;
+    }
+
+    rc = ngx_write_fd(file->fd, file->wbuf.pos, n);
     if (rc < 0) {
         ngx_log_error(NGX_LOG_ERR, file->log, ngx_errno,
                 "flush record buf error");
@@ -199,6 +210,15 @@ ngx_live_record_flush(ngx_rtmp_mpegts_file_t *file)
     }
 
     file->file_size += rc;
+
+    if (rc < n) { // keep the rest for the next attempt
+        ngx_log_error(NGX_LOG_ERR, file->log, 0,
+                "flush record buf was incomplete: %z of %z", rc, n);
+        ngx_memmove(file->wbuf.pos, file->wbuf.pos + rc, n - rc);
+        file->wbuf.last = file->wbuf.pos + n - rc;
+        return NGX_ERROR;
+    }
+
     file->wbuf.last = file->wbuf.pos;
 
     return rc;
@@ -209,29 +229,17 @@ static ssize_t
 ngx_live_record_write_buf(ngx_rtmp_mpegts_file_t *file, u_char *in,
         size_t in_size)
 {
-    u_char                         *p, *end;
-    size_t                          len;
-    ssize_t                         rc, n;
-
-    end = in + in_size;
-    n = 0;
-
-    for (p = in; p != end; /* void */ ) {
-        len = ngx_min(file->wbuf.end - file->wbuf.last, end - p);
-        file->wbuf.last = ngx_cpymem(file->wbuf.last, p, len);
+    /* packets are written whole or not at all */
 
-        p += len;
-        n += len;
-
-        if (file->wbuf.last == file->wbuf.end) {
-            rc = ngx_live_record_flush(file);
-            if (rc < 0) {
-                return rc;
-            }
+    if ((size_t) (file->wbuf.end - file->wbuf.last) < in_size) {
+        if (ngx_live_record_flush(file) < 0) {
+            return NGX_ERROR;
         }
     }
 
-    return n;
+    file->wbuf.last = ngx_cpymem(file->wbuf.last, in, in_size);
+
+    return in_size;
 }
 
 
@@ -303,6 +311,19 @@ ngx_live_record_open_file(ngx_rtmp_session_t *s)
         return NGX_ERROR;
     }
 
+    // what an interrupted write left behind
+    if (file_size && (file_size < 2 * 188 || file_size % 188)) {
+        file_size = file_size < 2 * 188 ? 0 : file_size - file_size % 188;
+        if (ftruncate(ctx->file.fd, file_size) == -1
+            || lseek(ctx->file.fd, file_size, SEEK_SET) == (off_t) -1)
+        {
+            ngx_log_error(NGX_LOG_CRIT, s->log, ngx_errno,
+                    "record: %V truncate failed", &ctx->file.name);
+
+            return NGX_ERROR;
+        }
+    }
+
     if (ctx->ts.wbuf.start == NULL) {
         ctx->ts.wbuf.start = ngx_pcalloc(s->pool, lracf->buffer);
         if (ctx->ts.wbuf.start == NULL) {
@@ -316,6 +337,7 @@ ngx_live_record_open_file(ngx_rtmp_session_t *s)
 
         ctx->ts.whandle = ngx_live_record_write_buf;
     }
+    ctx->ts.wbuf.last = ctx->ts.wbuf.pos;
     ctx->ts.fd = ctx->file.fd;
     ctx->ts.log = s->log;
     ctx->ts.file_size = file_size;
@@ -323,13 +345,19 @@ ngx_live_record_open_file(ngx_rtmp_session_t *s)
     ctx->ts.acodec = codec_ctx->audio_codec_id;
 
     if (file_size == 0) { // empty file
-        if (ngx_rtmp_mpegts_write_header(&ctx->ts) != NGX_OK) {
+        if (ngx_rtmp_mpegts_write_header(&ctx->ts) != NGX_OK
+            || ngx_live_record_flush(&ctx->ts) < 0)
+        {
             ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
                     "record: error writing fragment header");
 
+            if (ftruncate(ctx->file.fd, 0) == -1) {
+                ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
+                        "record: truncate '%V' failed", &ctx->file.name);
+            }
+
             return NGX_ERROR;
         }
-        ngx_live_record_flush(&ctx->ts);
     }
 
     ctx->startsize = ctx->ts.file_size;
@@ -343,9 +371,16 @@ static void
 ngx_live_record_write_index(ngx_rtmp_session_t *s, ngx_live_record_ctx_t *ctx,
         ngx_msec_t curr_time)
 {
+    ssize_t                         rc;
     u_char                         *p, buf[1024];
 
-    ngx_live_record_flush(&ctx->ts);
+    if (ngx_live_record_flush(&ctx->ts) < 0) {
+        return; // the next line covers this part, too
+    }
+
+    if (ctx->ts.file_size == ctx->startsize) { // nothing was written
+        return;
+    }
 
     ctx->endsize = ctx->ts.file_size - 1;
 
@@ -355,9 +390,20 @@ ngx_live_record_write_index(ngx_rtmp_session_t *s, ngx_live_record_ctx_t *ctx,
             ctx->starttime, ctx->endtime);
     *p = 0;
 
-    if (ngx_write_fd(ctx->index.fd, buf, p - buf) < 0) {
+    rc = ngx_write_fd(ctx->index.fd, buf, p - buf);
+    if (rc != p - buf) {
         ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
                 "record, write %V failed: %s", &ctx->index.name, buf);
+
+        if (rc > 0 && (lseek(ctx->index.fd, -rc, SEEK_CUR) == -1
+            || ftruncate(ctx->index.fd, lseek(ctx->index.fd, 0, SEEK_CUR))
+               == -1))
+        {
+            ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
+                    "record, cut %V failed", &ctx->index.name);
+        }
+
+        return; // the next line covers this part, too
     }
 
     ctx->startsize = ctx->ts.file_size;
@@ -419,38 +465,64 @@ ngx_live_record_open_index(ngx_rtmp_session_t *s)
         ngx_log_error(NGX_LOG_CRIT, s->log, ngx_errno,
                 "record: failed to open index '%V'", &ctx->index.name);
 
-        return NGX_OK;
+        return NGX_ERROR;
     }
 
     if (lseek(ctx->index.fd, 0, SEEK_END) == (off_t) -1) {
         ngx_log_error(NGX_LOG_CRIT, s->log, ngx_errno,
                 "record, %V seek failed", &ctx->index.name);
 
-        return NGX_OK;
+        return NGX_ERROR;
     }
 
     return ngx_live_record_open_file(s);
 }
 
 
+static void
+ngx_live_record_close_files(ngx_live_record_ctx_t *ctx)
+{
+    if (ctx->index.fd != -1) {
+        ngx_close_file(ctx->index.fd);
+        ctx->index.fd = -1;
+    }
+
+    if (ctx->file.fd != -1) {
+        ngx_close_file(ctx->file.fd);
+        ctx->file.fd = -1;
+    }
+}
+
+
 static void
 ngx_live_record_close_index(ngx_rtmp_session_t *s, ngx_live_record_ctx_t *ctx)
 {
+    off_t                           size;
+
     if (ctx->index.fd == -1 || ctx->file.fd == -1) {
         return;
     }
 
-    ngx_live_record_write_index(s, ctx, 0);
+    if (ngx_live_record_flush(&ctx->ts) < 0) {
+        // keep whole packets only
+        size = ctx->ts.file_size - ctx->ts.file_size % 188;
 
-    ngx_close_file(ctx->file.fd);
-    ctx->file.fd = -1;
+        if (size != ctx->ts.file_size && size >= ctx->startsize
+            && ftruncate(ctx->file.fd, size) != -1)
+        {
+            ctx->ts.file_size = size;
+        }
 
-    ngx_close_file(ctx->index.fd);
-    ctx->index.fd = -1;
+        ctx->ts.wbuf.last = ctx->ts.wbuf.pos;
+    }
+
+    ngx_live_record_write_index(s, ctx, 0);
+
+    ngx_live_record_close_files(ctx);
 }
 
 
-static void
+static ngx_int_t
 ngx_live_record_reopen_index(ngx_rtmp_session_t *s, ngx_live_record_ctx_t *ctx,
         ngx_msec_t curr_time, time_t last_time)
 {
@@ -468,17 +540,12 @@ ngx_live_record_reopen_index(ngx_rtmp_session_t *s, ngx_live_record_ctx_t *ctx,
     // open new index and file
     if (ngx_live_record_open_index(s) == NGX_ERROR) {
         ctx->last_time = 0;
+        ngx_live_record_close_files(ctx);
 
-        if (ctx->index.fd != -1) {
-            ngx_close_file(ctx->index.fd);
-        }
-
-        if (ctx->file.fd != -1) {
-            ngx_close_file(ctx->file.fd);
-        }
-
-        return;
+        return NGX_ERROR;
     }
+
+    return NGX_OK;
 }
 
 
@@ -770,14 +837,7 @@ ngx_live_record_aac(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         // open new index and file
         if (ngx_live_record_open_index(s) == NGX_ERROR) {
             ctx->last_time = 0;
-
-            if (ctx->index.fd != -1) {
-                ngx_close_file(ctx->index.fd);
-            }
-
-            if (ctx->file.fd != -1) {
-                ngx_close_file(ctx->file.fd);
-            }
+            ngx_live_record_close_files(ctx);
 
             return NGX_OK;
         }
@@ -849,7 +909,11 @@ ngx_live_record_aac(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
                                      % (lracf->interval / 1000);
         if (curr_time > ctx->starttime + lracf->min_fraglen) {
             if (last_time > ctx->last_time) {
-                ngx_live_record_reopen_index(s, ctx, curr_time, last_time);
+                if (ngx_live_record_reopen_index(s, ctx, curr_time, last_time)
+                    != NGX_OK)
+                {
+                    return NGX_OK;
+                }
             } else {
                 ngx_live_record_write_index(s, ctx, curr_time);
             }
@@ -942,14 +1006,7 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         // open new index and file
         if (ngx_live_record_open_index(s) == NGX_ERROR) {
             ctx->last_time = 0;
-
-            if (ctx->index.fd != -1) {
-                ngx_close_file(ctx->index.fd);
-            }
-
-            if (ctx->file.fd != -1) {
-                ngx_close_file(ctx->file.fd);
-            }
+            ngx_live_record_close_files(ctx);
 
             return NGX_OK;
         }
@@ -1090,7 +1147,11 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     if (ftype == 1) { // key frame
         if (curr_time > ctx->starttime + lracf->min_fraglen) {
             if (last_time > ctx->last_time) {
-                ngx_live_record_reopen_index(s, ctx, curr_time, last_time);
+                if (ngx_live_record_reopen_index(s, ctx, curr_time, last_time)
+                    != NGX_OK)
+                {
+                    return NGX_OK;
+                }
             } else {
                 ngx_live_record_write_index(s, ctx, curr_time);
             }
@@ -1101,7 +1162,11 @@ ngx_live_record_avc(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
                     "curr_time:%M, starttime:%M, max_fraglen:%M",
                     curr_time, ctx->starttime, lracf->max_fraglen);
 
-            ngx_live_record_reopen_index(s, ctx, curr_time, last_time);
+            if (ngx_live_record_reopen_index(s, ctx, curr_time, last_time)
+                != NGX_OK)
+            {
+                return NGX_OK;
+            }
         } else {
             ngx_live_record_write_index(s, ctx, curr_time);
         }
-- 
2.43.0


From fde77edc7c6b4c278b769878864d6e45f7eabc0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:22 +0000
Subject: [PATCH 064/115] fix: live record: stream names which leave
 live_record_path

---
 modules/nginx-rtmp-module/ngx_live_record.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index c108dbb..c39167e 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -1269,6 +1269,10 @@ ngx_live_record_open(ngx_rtmp_session_t *s)
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_live_record_module);
 
+    if (ctx == NULL) {
+        return "not recordable";
+    }
+
     if (ctx->open) {
         return NGX_CONF_OK;
     }
@@ -1292,6 +1296,10 @@ ngx_live_record_close(ngx_rtmp_session_t *s)
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_live_record_module);
 
+    if (ctx == NULL) {
+        return "not recordable";
+    }
+
     if (ctx->open == 0) {
         return NGX_CONF_OK;
     }
@@ -1319,6 +1327,13 @@ ngx_live_record_publish(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
         return next_publish(s, v);
     }
 
+    if (ngx_strstr(v->name, "..")) { // do not leave live_record_path
+        ngx_log_error(NGX_LOG_ERR, s->log, 0,
+                "record: bad stream name: '%s', do not record", v->name);
+        ngx_rtmp_set_ctx(s, NULL, ngx_live_record_module);
+        return next_publish(s, v);
+    }
+
     ctx = ngx_pcalloc(s->pool, sizeof(ngx_live_record_ctx_t));
     if (ctx == NULL) {
         return NGX_ERROR;
-- 
2.43.0


From fdafbf643d1cfe816b063051b6968080adc51823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:49 +0000
Subject: [PATCH 065/115] fix: live record: on_record answered after the
 publisher left, or ended twice

---
 modules/nginx-rtmp-module/ngx_live_record.c        | 4 ++--
 modules/nginx-rtmp-module/ngx_rtmp_notify_module.c | 8 +++++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_record.c b/modules/nginx-rtmp-module/ngx_live_record.c
index c39167e..5927a68 100644
--- a/modules/nginx-rtmp-module/ngx_live_record.c
+++ b/modules/nginx-rtmp-module/ngx_live_record.c
@@ -1367,12 +1367,12 @@ ngx_live_record_close_stream(ngx_rtmp_session_t *s, ngx_rtmp_close_stream_t *v)
         goto next;
     }
 
+    ngx_live_record_done(s);
+
     if (ctx->open == 0) {
         goto next;
     }
 
-    ngx_live_record_done(s);
-
     ngx_live_record_close_index(s, ctx);
     ctx->open = 0;
 
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
index 90e2c4a..d8cf180 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_notify_module.c
@@ -2082,6 +2082,7 @@ ngx_rtmp_notify_record_done(ngx_rtmp_session_t *s)
     ngx_netcall_ctx_t          *nctx;
     ngx_rtmp_notify_ctx_t        *octx;
     ngx_rtmp_notify_event_t      *event;
+    ngx_live_record_ctx_t        *ctx;
 
     octx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_notify_module);
     if (octx == NULL || octx->rctx == NULL) {
@@ -2089,8 +2090,13 @@ ngx_rtmp_notify_record_done(ngx_rtmp_session_t *s)
     }
 
     nctx = octx->rctx;
+    octx->rctx = NULL;
 
-    if ((nctx->stage & NGX_RTMP_OCLP_DONE) == NGX_RTMP_OCLP_DONE) {
+    ctx = ngx_rtmp_get_module_ctx(s, ngx_live_record_module);
+
+    if ((nctx->stage & NGX_RTMP_OCLP_DONE) == NGX_RTMP_OCLP_DONE
+        && ctx && ctx->open)
+    {
         oacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_notify_module);
         event = oacf->events[nctx->type].elts;
 
-- 
2.43.0


From 798db607c0bffacd6e2353a87746a90d7cde8c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:58 +0000
Subject: [PATCH 066/115] fix: mpegts: a codec header that changes while the
 stream is live

---
 .../mpegts/ngx_mpegts_live_module.c           | 85 +++++++++----------
 1 file changed, 42 insertions(+), 43 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
index 1bac711..4b3893b 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
@@ -374,6 +374,10 @@ ngx_mpegts_live_copy(ngx_rtmp_session_t *s, void *dst, u_char **src, size_t n,
     u_char  *last;
     size_t   pn;
 
+    if (n == 0) {
+        return NGX_OK;
+    }
+
     if (*in == NULL) {
         return NGX_ERROR;
     }
@@ -549,11 +553,7 @@ ngx_mpegts_live_init_aac_codec(ngx_rtmp_session_t *s)
     ngx_rtmp_codec_ctx_t           *codec_ctx;
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_mpegts_live_module);
-    codec_ctx = ngx_rtmp_get_module_ctx(s->live_stream->publish_ctx->session, ngx_rtmp_codec_module);
-
-    if (ctx->aac_codec) {
-        return NGX_OK;
-    }
+    codec_ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
 
     if (codec_ctx == NULL || codec_ctx->aac_header == NULL) {
         ngx_log_error(NGX_LOG_ERR, s->log, 0,
@@ -561,16 +561,20 @@ ngx_mpegts_live_init_aac_codec(ngx_rtmp_session_t *s)
         return NGX_AGAIN;
     }
 
-    ctx->aac_codec = ngx_pcalloc(s->pool, sizeof(ngx_mpegts_live_aac_codec_t));
+    if (ctx->aac_codec == NULL) {
+        ctx->aac_codec = ngx_pcalloc(s->pool,
+                                    sizeof(ngx_mpegts_live_aac_codec_t));
+    }
+
     if (ctx->aac_codec == NULL) {
         ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
                    "rtmp-mpegts: aac_codec| alloc mpegts aac_codec failed");
         return NGX_ERROR;
     }
 
-    ctx->aac_codec->aac_header = ngx_rtmp_shared_alloc_frame(1024,
-                                    codec_ctx->aac_header->chain, 0);
+    /* the publisher may change the header at any time */
 
+    ctx->aac_codec->aac_header = codec_ctx->aac_header;
     ctx->aac_codec->sample_rate = codec_ctx->sample_rate;
 
     return NGX_OK;
@@ -584,11 +588,7 @@ ngx_mpegts_live_init_avc_codec(ngx_rtmp_session_t *s)
     ngx_rtmp_codec_ctx_t           *codec_ctx;
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_mpegts_live_module);
-    codec_ctx = ngx_rtmp_get_module_ctx(s->live_stream->publish_ctx->session, ngx_rtmp_codec_module);
-
-    if (ctx->avc_codec) {
-        return NGX_OK;
-    }
+    codec_ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
 
     if (codec_ctx == NULL || codec_ctx->avc_header == NULL) {
         ngx_log_error(NGX_LOG_ERR, s->log, 0,
@@ -596,17 +596,22 @@ ngx_mpegts_live_init_avc_codec(ngx_rtmp_session_t *s)
         return NGX_AGAIN;
     }
 
-    ctx->avc_codec = ngx_pcalloc(s->pool, sizeof(ngx_mpegts_live_avc_codec_t));
+    if (ctx->avc_codec == NULL) {
+        ctx->avc_codec = ngx_pcalloc(s->pool,
+                                    sizeof(ngx_mpegts_live_avc_codec_t));
+    }
+
     if (ctx->avc_codec == NULL) {
         ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
                    "rtmp-mpegts: avc_codec| alloc mpegts avc_codec failed");
         return NGX_ERROR;
     }
 
+    /* the publisher may change the header at any time */
+
     ctx->avc_codec->video_codec_id = codec_ctx->video_codec_id;
     ctx->avc_codec->avc_nal_bytes = codec_ctx->avc_nal_bytes;
-    ctx->avc_codec->avc_header = ngx_rtmp_shared_alloc_frame(1024,
-                                 codec_ctx->avc_header->chain, 0);
+    ctx->avc_codec->avc_header = codec_ctx->avc_header;
 
     return NGX_OK;
 }
@@ -861,15 +866,13 @@ ngx_mpegts_live_h265_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
         return NGX_OK;
     }
 
-    if (ctx->avc_codec == NULL) {
-        rc = ngx_mpegts_live_init_avc_codec(s);
-        if (rc == NGX_ERROR) {
-            ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
-                       "rtmp-mpegts: h265_handler| init avc_codec failed");
-            return NGX_OK;
-        } else if (rc == NGX_AGAIN) {
-            return NGX_OK;
-        }
+    rc = ngx_mpegts_live_init_avc_codec(s);
+    if (rc == NGX_ERROR) {
+        ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
+                   "rtmp-mpegts: h265_handler| init avc_codec failed");
+        return NGX_OK;
+    } else if (rc == NGX_AGAIN) {
+        return NGX_OK;
     }
 
     /* H265 is supported */
@@ -1191,15 +1194,13 @@ ngx_mpegts_live_h264_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
         return NGX_OK;
     }
 
-    if (ctx->avc_codec == NULL) {
-        rc = ngx_mpegts_live_init_avc_codec(s);
-        if (rc == NGX_ERROR) {
-            ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
-                       "mpegts-mux: h264_handler| init avc_codec failed");
-            return NGX_OK;
-        } else if (rc == NGX_AGAIN) {
-            return NGX_OK;
-        }
+    rc = ngx_mpegts_live_init_avc_codec(s);
+    if (rc == NGX_ERROR) {
+        ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
+                   "mpegts-mux: h264_handler| init avc_codec failed");
+        return NGX_OK;
+    } else if (rc == NGX_AGAIN) {
+        return NGX_OK;
     }
 
     /* H264 is supported */
@@ -1473,15 +1474,13 @@ ngx_mpegts_live_aac_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
         return NGX_OK;
     }
 
-    if (ctx->aac_codec == NULL) {
-        rc = ngx_mpegts_live_init_aac_codec(s);
-        if (rc == NGX_ERROR) {
-            ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
-                    "rtmp-mpegts: aac_handler| init aac_codec failed");
-            return NGX_OK;
-        } else if(rc == NGX_AGAIN) {
-            return NGX_OK;
-        }
+    rc = ngx_mpegts_live_init_aac_codec(s);
+    if (rc == NGX_ERROR) {
+        ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
+                "rtmp-mpegts: aac_handler| init aac_codec failed");
+        return NGX_OK;
+    } else if (rc == NGX_AGAIN) {
+        return NGX_OK;
     }
 
     if (ngx_rtmp_is_codec_header(in)) {
-- 
2.43.0


From a6fff72e54ee01a62a50e7ab8bd045c169eaba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:58 +0000
Subject: [PATCH 067/115] fix: mpegts: negative composition time offsets

---
 .../mpegts/ngx_mpegts_live_module.c                  | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
index 4b3893b..b4dbb3f 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
@@ -840,6 +840,7 @@ ngx_mpegts_live_h265_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
     uint32_t                    len, rlen;
     ngx_buf_t                   out;
     uint32_t                    cts;
+    int32_t                     delay;
     ngx_mpegts_frame_t         *frame;
     ngx_uint_t                  nal_bytes;
     ngx_int_t                   aud_sent, sps_pps_sent;
@@ -913,6 +914,9 @@ ngx_mpegts_live_h265_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
     cts = ((cts & 0x00FF0000) >> 16) | ((cts & 0x000000FF) << 16) |
           (cts & 0x0000FF00);
 
+    /* composition time is a signed 24-bit value */
+    delay = (int32_t) (cts << 8) >> 8;
+
     ngx_memzero(&out, sizeof(out));
 
     out.start = buffer;
@@ -1124,7 +1128,7 @@ NAL_TRAIL_N:
     frame->cc = ctx->video_cc;
     frame->dts = (uint64_t) h->timestamp * 90;
     /* pts = dts + composition time */
-    frame->pts = frame->dts + cts * 90;
+    frame->pts = frame->dts + (int64_t) delay * 90;
     /* program id */
     frame->pid = 0x100;
     /* stream id, video range from 0xe0 to 0xef */
@@ -1172,6 +1176,7 @@ ngx_mpegts_live_h264_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
     uint32_t                      len, rlen;
     ngx_buf_t                     out;
     uint32_t                      cts;
+    int32_t                       delay;
     ngx_mpegts_frame_t           *frame;
     ngx_uint_t                    nal_bytes;
     ngx_int_t                     aud_sent, sps_pps_sent;
@@ -1240,6 +1245,9 @@ ngx_mpegts_live_h264_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
     cts = ((cts & 0x00FF0000) >> 16) | ((cts & 0x000000FF) << 16) |
           (cts & 0x0000FF00);
 
+    /* composition time is a signed 24-bit value */
+    delay = (int32_t) (cts << 8) >> 8;
+
     ngx_memzero(&out, sizeof(out));
 
     out.start = buffer;
@@ -1358,7 +1366,7 @@ ngx_mpegts_live_h264_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
 
     frame->cc = ctx->video_cc;
     frame->dts = (uint64_t) h->timestamp * 90;
-    frame->pts = frame->dts + (cts * 90);
+    frame->pts = frame->dts + (int64_t) delay * 90;
     frame->pid = 0x100;
     frame->sid = 0xe0;
     frame->key = (ftype == 1);
-- 
2.43.0


From 34d6266cf97abc4621eca9cb672a069479aa1eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:26 +0000
Subject: [PATCH 068/115] fix: mpegts: HEVC NAL units of type 0, and lengths
 which wrapped the buffer check

---
 .../mpegts/ngx_mpegts_live_module.c           | 61 ++++++-------------
 1 file changed, 19 insertions(+), 42 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
index b4dbb3f..5f03630 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
@@ -841,6 +841,8 @@ ngx_mpegts_live_h265_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
     ngx_buf_t                   out;
     uint32_t                    cts;
     int32_t                     delay;
+    u_char                     *pos, prefix[3];
+    ngx_chain_t                *cl;
     ngx_mpegts_frame_t         *frame;
     ngx_uint_t                  nal_bytes;
     ngx_int_t                   aud_sent, sps_pps_sent;
@@ -954,56 +956,30 @@ ngx_mpegts_live_h265_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
                        (ngx_uint_t) nal_type, len);
 
         /* h264 format of rtmp_flv contains NAL header Prefix "00 00 00 01" */
-        if (0 == nal_type) {
-            u_char nal_header[4] = {0};
-            if (ngx_mpegts_live_copy(s, nal_header, &p, 3, &in) != NGX_OK) {
-                return NGX_OK;
-            }
+        if (src_nal_type == 0 && len > 4) {
+            pos = p;
+            cl = in;
 
-            if (0 != ngx_strcmp(nal_header, "\0\0\1")) {
-                ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
-                    "mpegts module: h265 hander| "
-                    "is not h265 NAL header [00 00 00 01]");
-                p -= 3;
-                goto NAL_TRAIL_N;
+            if (ngx_mpegts_live_copy(s, prefix, &p, 3, &in) != NGX_OK) {
                 return NGX_OK;
             }
 
-            if (ngx_mpegts_live_copy(s, &src_nal_type, &p, 1, &in) != NGX_OK) {
-                return NGX_OK;
-            }
+            if (prefix[0] == 0x00 && prefix[1] == 0x00 && prefix[2] == 0x01) {
+                if (ngx_mpegts_live_copy(s, &src_nal_type, &p, 1, &in)
+                    != NGX_OK)
+                {
+                    return NGX_OK;
+                }
 
-            nal_type = (src_nal_type & 0x7e) >> 1;
-            if (0 == nal_type) {
-                ngx_log_error(NGX_LOG_ERR, s->log, 0,
-                    "mpegts module: h265 hander| h265 NAL type reparse error");
-                return NGX_OK;
-            }
+                len -= 4;
+                nal_type = (src_nal_type & 0x7e) >> 1;
 
-#define HEVC_NAL_AUD_LENGTH 0
-            if (out.end - out.last < (ngx_int_t) (len + HEVC_NAL_AUD_LENGTH)) {
-                ngx_log_error(NGX_LOG_ERR, s->log, 0,
-                    "mpegts module: h265 hander| not enough buffer for NAL");
-                return NGX_OK;
-            }
-#if 1
-            if (ngx_mpegts_live_append_hevc_aud(s, &out) != NGX_OK) {
-                ngx_log_error(NGX_LOG_ERR, s->log, 0,
-                    "mpegts module: h265 hander| error appending AUD NAL");
-            }
-#endif
-            /* back to 00 00 01 nal_type*/
-            p = p - 4;
-            if (ngx_mpegts_live_copy(s, out.last, &p, len - 1, &in) != NGX_OK) {
-                return NGX_ERROR;
+            } else {
+                p = pos;
+                in = cl;
             }
-
-            out.last += (len - 1);
-            break;
         }
 
-NAL_TRAIL_N:
-
         ngx_log_debug2(NGX_LOG_DEBUG_RTMP, s->log, 0,
             "mpegts module: h265 hander| h265 NAL type=%ui, len=%uD",
             (ngx_uint_t) nal_type, len);
@@ -1019,7 +995,8 @@ NAL_TRAIL_N:
         if ((nal_type >= 32 && nal_type <= 35)
             || nal_type == 39 || nal_type == 40)
         {
-            if (out.end - out.last < (5 + len -1)) {
+            /* with an AUD in front */
+            if (out.end - out.last < (ngx_int_t) len + 4 + 7) {
                 ngx_log_error(NGX_LOG_ERR, s->log, 0,
                         "hls: not enough buffer for AnnexB prefix");
                 return NGX_OK;
-- 
2.43.0


From bb7766edaaebeb3beef6f745338be59c865b8bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:26 +0000
Subject: [PATCH 069/115] fix: mpegts: do not send broken audio frames

---
 .../mpegts/ngx_mpegts_live_module.c               | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
index 5f03630..1326906 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
@@ -555,7 +555,9 @@ ngx_mpegts_live_init_aac_codec(ngx_rtmp_session_t *s)
     ctx = ngx_rtmp_get_module_ctx(s, ngx_mpegts_live_module);
     codec_ctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
 
-    if (codec_ctx == NULL || codec_ctx->aac_header == NULL) {
+    if (codec_ctx == NULL || codec_ctx->aac_header == NULL
+        || codec_ctx->audio_codec_id != NGX_RTMP_AUDIO_AAC)
+    {
         ngx_log_error(NGX_LOG_ERR, s->log, 0,
                    "rtmp-mpegts: aac_codec| codec ctx %p, aac_header is null", codec_ctx);
         return NGX_AGAIN;
@@ -662,6 +664,9 @@ ngx_mpegts_live_flush_audio(ngx_rtmp_session_t *s)
     }
 
     frame = ngx_rtmp_shared_alloc_mpegts_frame(NULL, 0);
+    if (frame == NULL) {
+        return NGX_ERROR;
+    }
 
     frame->dts = ctx->aframe_pts;
     frame->pts = ctx->aframe_pts;
@@ -1495,7 +1500,10 @@ ngx_mpegts_live_aac_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
     size = h->mlen - 2 + 7;
     pts = (uint64_t) h->timestamp * 90;
 
-    if (b->start + size > b->end) {
+    /* frame length has 13 bits in an ADTS header */
+    if (b->start + size > b->end || size > 0x1fff) {
+        ngx_log_error(NGX_LOG_ERR, s->log, 0,
+                      "rtmp-mpegts: aac_handler| too big audio frame");
         return NGX_OK;
     }
 
@@ -1512,7 +1520,7 @@ ngx_mpegts_live_aac_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
     ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
         "rtmp-mpegts: aac_handler| audio pts=%uL", pts);
 
-    if (b->last + 7 > b->end) {
+    if (b->last + size > b->end) {
         ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
             "rtmp-mpegts: aac_handler| not enough buffer for audio header");
         return NGX_OK;
@@ -1540,6 +1548,7 @@ ngx_mpegts_live_aac_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
     {
         ngx_log_error(NGX_LOG_ERR, s->log, 0,
                       "rtmp-mpegts: aac_handler| aac header error");
+        b->last = p;
         return NGX_OK;
     }
 
-- 
2.43.0


From a09f7f012b175704c5829d9933e5a83a41737a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:03 +0000
Subject: [PATCH 070/115] fix: mpegts: players without a cache got nothing, and
 were woken late

---
 .../mpegts/ngx_mpegts_gop_module.c            |  2 +-
 .../mpegts/ngx_mpegts_gop_module.h            |  2 +
 .../mpegts/ngx_mpegts_live_module.c           | 44 +++++++++++++++++--
 3 files changed, 44 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
index 0491679..62451ce 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
@@ -181,7 +181,7 @@ ngx_mpegts_gop_merge_app_conf(ngx_conf_t *cf, void *parent, void *child)
 }
 
 
-static ngx_int_t
+ngx_int_t
 ngx_mpegts_gop_link_frame(ngx_rtmp_session_t *s, ngx_mpegts_frame_t *frame)
 {
     ngx_uint_t              nmsg;
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.h b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.h
index 3b1ca53..a5e8f2e 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.h
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.h
@@ -8,6 +8,8 @@
 
 #include "ngx_rtmp.h"
 
+ngx_int_t
+ngx_mpegts_gop_link_frame(ngx_rtmp_session_t *s, ngx_mpegts_frame_t *frame);
 ngx_int_t
 ngx_mpegts_gop_cache(ngx_rtmp_session_t *s, ngx_mpegts_frame_t *frame);
 ngx_int_t
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
index 1326906..77a37a7 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
@@ -57,6 +57,9 @@ struct ngx_mpegts_live_ctx_s {
     ngx_rtmp_session_t           *session;
     ngx_live_stream_t            *stream;
 
+    /* connection of the publisher whose frames are sent */
+    ngx_atomic_uint_t             source;
+
     /* mpegts-module config */
     size_t                        audio_buffer_size;
     ngx_msec_t                    sync;
@@ -1683,15 +1686,50 @@ static ngx_int_t
 ngx_mpegts_live_avframe(ngx_rtmp_session_t *s, ngx_mpegts_frame_t *frame)
 {
     ngx_mpegts_live_ctx_t   *cctx;
+    ngx_rtmp_live_ctx_t     *lctx;
     ngx_rtmp_session_t      *ss;
 
+    /* not the highest priority */
+    lctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_live_module);
+    if (lctx && lctx->stream
+        && ngx_map_rbegin(&lctx->stream->pubctx) != &lctx->node)
+    {
+        return NGX_OK;
+    }
+
     for (cctx = s->live_stream->mpegts_ctx; cctx; cctx = cctx->next) {
         ss = cctx->session;
-        ngx_mpegts_gop_send(s, ss);
 
-        if (!s->connection->write->active) {
-            ngx_post_event(s->connection->write, &ngx_posted_events);
+        /* what the program map table tells when the response starts */
+        ss->vcodec = s->vcodec;
+        ss->acodec = s->acodec;
+
+        switch (ngx_mpegts_gop_send(s, ss)) {
+        case NGX_DECLINED:
+            break;
+        case NGX_ERROR:
+            ngx_rtmp_finalize_session(ss);
+            continue;
+        default:
+            continue;
+        }
+
+        /* no cache: from the next key frame on */
+
+        if (cctx->source != s->connection->number) {
+            if (!frame->key) {
+                continue;
+            }
+
+            cctx->source = s->connection->number;
         }
+
+        if (ngx_mpegts_gop_link_frame(ss, frame) == NGX_AGAIN) {
+            cctx->source = 0;
+            continue;
+        }
+
+        ngx_rtmp_send_message(ss, NULL, 0);
     }
 
     return NGX_OK;
-- 
2.43.0


From ac850fbb692793788f54029ba2fc9a9f4c0239dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:29 +0000
Subject: [PATCH 071/115] fix: mpegts: players froze or replayed frames when
 the cache was full, wrapped or replaced

---
 .../mpegts/ngx_mpegts_gop_module.c            | 99 ++++++++++++++-----
 1 file changed, 77 insertions(+), 22 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
index 62451ce..2fbdb2a 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_gop_module.c
@@ -44,6 +44,12 @@ typedef struct {
 
     ngx_uint_t                  base_type;
 
+    /* number of the frame at gop_pos, counted from the first one cached */
+    uint64_t                    gop_number;
+
+    /* player: connection of the publisher gop_pos refers to */
+    ngx_atomic_uint_t           source;
+
     /* only for publisher, must at last of ngx_mpegts_gop_ctx_t */
     ngx_mpegts_frame_t         *cache[];
 } ngx_mpegts_gop_ctx_t;
@@ -241,6 +247,7 @@ ngx_mpegts_gop_reset_gop(ngx_rtmp_session_t *s, ngx_mpegts_gop_ctx_t *ctx,
             ngx_rtmp_shared_free_mpegts_frame(f);
             ctx->cache[ctx->gop_pos] = NULL;
             ctx->gop_pos = ngx_mpegts_gop_next(s, ctx->gop_pos);
+            ++ctx->gop_number;
         }
 
         return;
@@ -278,6 +285,7 @@ reset:
         ngx_rtmp_shared_free_mpegts_frame(f);
 
         ctx->cache[pos] = NULL;
+        ++ctx->gop_number;
     }
 
     ctx->keyframe = next_keyframe;
@@ -323,6 +331,19 @@ ngx_mpegts_gop_print_cache(ngx_rtmp_session_t *s, ngx_mpegts_gop_ctx_t *ctx)
 #endif
 }
 
+static void
+ngx_mpegts_gop_make_room(ngx_rtmp_session_t *s, ngx_mpegts_gop_ctx_t *ctx)
+{
+    do {
+        ngx_rtmp_shared_free_mpegts_frame(ctx->cache[ctx->gop_pos]);
+        ctx->cache[ctx->gop_pos] = NULL;
+        ctx->gop_pos = ngx_mpegts_gop_next(s, ctx->gop_pos);
+        ++ctx->gop_number;
+    } while (ctx->keyframe && ctx->gop_pos != ctx->gop_last);
+
+    ctx->keyframe = NULL;
+}
+
 ngx_int_t
 ngx_mpegts_gop_cache(ngx_rtmp_session_t *s, ngx_mpegts_frame_t *frame)
 {
@@ -350,7 +371,13 @@ ngx_mpegts_gop_cache(ngx_rtmp_session_t *s, ngx_mpegts_frame_t *frame)
     if (nmsg >= s->out_queue) {
         ngx_log_error(NGX_LOG_ERR, s->log, 0,
                 "cache frame nmsg(%ui) >= out_queue(%z)", nmsg, s->out_queue);
-        return NGX_AGAIN;
+
+        /* one group of pictures fills the cache: wait for the next one */
+        if (ctx->keyframe && !frame->key) {
+            return NGX_AGAIN;
+        }
+
+        ngx_mpegts_gop_make_room(s, ctx);
     }
 #if 0
     ngx_log_error(NGX_LOG_DEBUG, s->log, 0,
@@ -386,6 +413,27 @@ ngx_mpegts_gop_cache(ngx_rtmp_session_t *s, ngx_mpegts_frame_t *frame)
 }
 
 
+/* what the player was to get next has left the cache: go on with the oldest */
+static void
+ngx_mpegts_gop_catch_up(ngx_mpegts_gop_ctx_t *sctx,
+    ngx_mpegts_gop_ctx_t *ssctx)
+{
+    if (ssctx->gop_number < sctx->gop_number) {
+        ssctx->gop_pos = sctx->gop_pos;
+        ssctx->gop_number = sctx->gop_number;
+    }
+}
+
+/* the publisher changed: gop_pos means nothing in the new cache */
+static void
+ngx_mpegts_gop_set_source(ngx_rtmp_session_t *s, ngx_mpegts_gop_ctx_t *ssctx)
+{
+    if (ssctx->source != s->connection->number) {
+        ssctx->source = s->connection->number;
+        ssctx->send_gop = 0;
+    }
+}
+
 static ngx_int_t
 ngx_mpegts_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
 {
@@ -420,10 +468,9 @@ ngx_mpegts_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         ssctx->send_gop = 1;
         ssctx->first_timestamp = sctx->cache[ssctx->gop_pos]->pts;
         ssctx->base_type = sctx->cache[ssctx->gop_pos]->type;
+        ssctx->gop_number = sctx->gop_number;
     } else {
-        if (sctx->cache[ssctx->gop_pos] == NULL) {
-            ssctx->gop_pos = sctx->gop_pos;
-        }
+        ngx_mpegts_gop_catch_up(sctx, ssctx);
     }
 
     frame = NULL;
@@ -444,6 +491,8 @@ ngx_mpegts_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         frame = sctx->cache[pos];
     } else {
         pos = frame->pos;
+        ssctx->gop_number = sctx->gop_number
+            + (s->out_queue + pos - sctx->gop_pos) % s->out_queue;
     }
 
     while (frame) {
@@ -465,10 +514,12 @@ ngx_mpegts_gop_send_gop(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
 
             ssctx->send_gop = 2;
             pos = ngx_mpegts_gop_next(s, pos);
+            ++ssctx->gop_number;
             break;
         }
 
         pos = ngx_mpegts_gop_next(s, pos);
+        ++ssctx->gop_number;
         frame = sctx->cache[pos];
     }
 
@@ -508,25 +559,26 @@ ngx_mpegts_gop_send(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss)
         ngx_rtmp_set_ctx(ss, ssctx, ngx_mpegts_gop_module);
     }
 
+    ngx_mpegts_gop_set_source(s, ssctx);
+
     if (ngx_mpegts_gop_send_gop(s, ss) == NGX_AGAIN) {
         return NGX_OK;
     }
 
-    if (sctx->cache[ssctx->gop_pos] == NULL) {
-        ngx_log_error(NGX_LOG_ERR, ss->log, 0,
-                "mpegts-gop: gop_send| current gop pos is NULL, "
-                "skip to new postion [pos %d last %d] %d",
-                sctx->gop_pos, sctx->gop_last, ssctx->gop_pos);
+    ngx_mpegts_gop_catch_up(sctx, ssctx);
 
-        ssctx->gop_pos = sctx->gop_pos;
+    /* the new frame was not cached: nothing to send */
+    frame = sctx->cache[ssctx->gop_pos];
+    if (frame == NULL) {
+        return NGX_OK;
     }
 
-    frame = sctx->cache[ssctx->gop_pos];
     if (ngx_mpegts_gop_link_frame(ss, frame) == NGX_AGAIN) {
         return NGX_AGAIN;
     }
 
     ssctx->gop_pos = ngx_mpegts_gop_next(s, ssctx->gop_pos);
+    ++ssctx->gop_number;
     ngx_rtmp_send_message(ss, NULL, 0);
 
     return NGX_OK;
@@ -564,10 +616,9 @@ ngx_mpegts_gop_offset_frames(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss,
         ssctx->send_gop = 1;
         ssctx->first_timestamp = sctx->cache[ssctx->gop_pos]->pts;
         ssctx->base_type = sctx->cache[ssctx->gop_pos]->type;
+        ssctx->gop_number = sctx->gop_number;
     } else {
-        if (sctx->cache[ssctx->gop_pos] == NULL) {
-            ssctx->gop_pos = sctx->gop_pos;
-        }
+        ngx_mpegts_gop_catch_up(sctx, ssctx);
     }
 
     frame = NULL;
@@ -591,6 +642,8 @@ ngx_mpegts_gop_offset_frames(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss,
         frame = sctx->cache[pos];
     } else {
         pos = frame->pos;
+        ssctx->gop_number = sctx->gop_number
+            + (s->out_queue + pos - sctx->gop_pos) % s->out_queue;
     }
 
     while (frame) {
@@ -606,10 +659,12 @@ ngx_mpegts_gop_offset_frames(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss,
                 frame->pts, ssctx->first_timestamp, sctx->current_timestamp);
             ssctx->send_gop = 2;
             pos = ngx_mpegts_gop_next(s, pos);
+            ++ssctx->gop_number;
             break;
         }
 
         pos = ngx_mpegts_gop_next(s, pos);
+        ++ssctx->gop_number;
         frame = sctx->cache[pos];
     }
 
@@ -649,27 +704,27 @@ ngx_mpegts_gop_link(ngx_rtmp_session_t *s, ngx_rtmp_session_t *ss,
         ngx_rtmp_set_ctx(ss, ssctx, ngx_mpegts_gop_module);
     }
 
+    ngx_mpegts_gop_set_source(s, ssctx);
+
     if (ngx_mpegts_gop_offset_frames(s, ss, time_offset, duration) == NGX_AGAIN)
     {
         return NGX_OK;
     }
 
-    /* new frame is video key frame */
-    if (sctx->cache[ssctx->gop_pos] == NULL) {
-        ngx_log_error(NGX_LOG_ERR, ss->log, 0,
-                "mpegts-gop: link| current gop pos is NULL, "
-                "skip to new postion [pos %d last %d] %d",
-                sctx->gop_pos, sctx->gop_last, ssctx->gop_pos);
+    ngx_mpegts_gop_catch_up(sctx, ssctx);
 
-        ssctx->gop_pos = sctx->gop_pos;
+    /* the new frame was not cached: nothing to link */
+    frame = sctx->cache[ssctx->gop_pos];
+    if (frame == NULL) {
+        return NGX_OK;
     }
 
-    frame = sctx->cache[ssctx->gop_pos];
     if (ngx_mpegts_gop_link_frame(ss, frame) == NGX_AGAIN) {
         return NGX_AGAIN;
     }
 
     ssctx->gop_pos = ngx_mpegts_gop_next(s, ssctx->gop_pos);
+    ++ssctx->gop_number;
 
     return NGX_OK;
 }
-- 
2.43.0


From e517c099671b07007279c21bf2114c017fb11ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:29 +0000
Subject: [PATCH 072/115] fix: mpegts: crash when the publisher leaves before
 the response starts

---
 modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
index 5268880..dff38e1 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
@@ -95,7 +95,7 @@ ngx_mpegts_http_send_header(ngx_http_request_t *r)
     ngx_keyval_t            *h;
     ngx_chain_t              out;
     ngx_mpegts_http_ctx_t   *ctx;
-    ngx_rtmp_session_t      *s, *ps;
+    ngx_rtmp_session_t      *s;
 
     if (r->header_sent) {
         return NGX_OK;
@@ -103,7 +103,6 @@ ngx_mpegts_http_send_header(ngx_http_request_t *r)
 
     ctx = ngx_http_get_module_ctx(r, ngx_mpegts_http_module);
     s = ctx->session;
-    ps = s->live_stream->publish_ctx->session;
 
     r->headers_out.status = NGX_HTTP_OK;
     r->keepalive = 0; /* set Connection to closed */
@@ -127,7 +126,7 @@ ngx_mpegts_http_send_header(ngx_http_request_t *r)
     out.buf->last = ngx_cpymem(out.buf->pos,
         ngx_rtmp_mpegts_pat, 188);
 
-    ngx_rtmp_mpegts_gen_pmt(ps->vcodec, ps->acodec, s->log, out.buf->last);
+    ngx_rtmp_mpegts_gen_pmt(s->vcodec, s->acodec, s->log, out.buf->last);
     out.buf->last += 188;
 
     out.buf->flush = 1;
-- 
2.43.0


From 51b6f823dd6ed60865b2984902e3c727404e2a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:29 +0000
Subject: [PATCH 073/115] fix: mpegts: the first frames were lost when the
 response header did not fit the socket

---
 modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
index dff38e1..874711b 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
@@ -31,6 +31,8 @@ static ngx_keyval_t ngx_mpegts_http_headers[] = {
 
 typedef struct {
     ngx_rtmp_session_t         *session;
+    /* s->out_chain is on its way */
+    ngx_flag_t                  passed;
 } ngx_mpegts_http_ctx_t;
 
 typedef struct {
@@ -196,9 +198,10 @@ ngx_mpegts_http_write_handler(ngx_http_request_t *r)
     while (s->out_chain) {
         present = r->connection->sent;
 
-        if (r->connection->buffered) {
+        if (ctx->passed) {
             rc = ngx_http_output_filter(r, NULL);
         } else {
+            ctx->passed = 1;
             rc = ngx_http_output_filter(r, s->out_chain);
         }
 
@@ -229,6 +232,7 @@ ngx_mpegts_http_write_handler(ngx_http_request_t *r)
         }
 
         /* NGX_OK */
+        ctx->passed = 0;
         for (cl = s->out_chain; cl;) {
             s->out_chain = cl->next;
             ngx_free_chain(s->pool, cl);
-- 
2.43.0


From e9e27c4bac438fdc54f948823a478570f965b8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:29 +0000
Subject: [PATCH 074/115] fix: mpegts: a refused player was answered with 500

---
 modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
index 874711b..ceeb2a3 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
@@ -542,6 +542,9 @@ ngx_mpegts_http_handler(ngx_http_request_t *r)
     }
 
     if (ngx_rtmp_play_filter(s, &v) != NGX_OK) {
+        if (s->status >= NGX_HTTP_BAD_REQUEST) {
+            return s->status;
+        }
         return NGX_HTTP_INTERNAL_SERVER_ERROR;
     }
 
-- 
2.43.0


From 643d1d173c2190308f5fe36dd896bf5d517202e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:43 +0000
Subject: [PATCH 075/115] fix: mpegts: a frame without NAL units disconnected
 the players

---
 .../nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c  | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
index 77a37a7..02f7c73 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_live_module.c
@@ -1101,6 +1101,11 @@ ngx_mpegts_live_h265_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
         out.last += (len - 1);
     }
 
+    /* nothing to send: an empty buffer would end the responses */
+    if (out.last == out.pos) {
+        return NGX_OK;
+    }
+
     frame = ngx_rtmp_shared_alloc_mpegts_frame(NULL, 0);
     if (frame == NULL) {
         ngx_log_error(NGX_LOG_ERR, s->log, 0,
@@ -1341,6 +1346,11 @@ ngx_mpegts_live_h264_handler(ngx_rtmp_session_t *s, ngx_rtmp_frame_t *f)
         out.last += (len - 1);
     }
 
+    /* nothing to send: an empty buffer would end the responses */
+    if (out.last == out.pos) {
+        return NGX_OK;
+    }
+
     frame = ngx_rtmp_shared_alloc_mpegts_frame(NULL, 0);
     if (frame == NULL) {
         ngx_log_error(NGX_LOG_ERR, s->log, 0,
-- 
2.43.0


From a4b609b9b5badda8ee549af180ab8eee088ffde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:04 +0000
Subject: [PATCH 076/115] fix: rtmp: PROXY header: bogus prefix accepted,
 announced address not used by allow and deny

---
 modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c b/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c
index 1b24055..e48c39b 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_proxy_protocol.c
@@ -103,7 +103,7 @@ ngx_rtmp_proxy_protocol_recv(ngx_event_t *rev)
 
     p = buf;
 
-    if (n <= 8 && ngx_strncmp(p, "PROXY ", 6) != 0) {
+    if (n < 8 || ngx_strncmp(p, "PROXY ", 6) != 0) {
         goto bad_header;
     }
 
@@ -179,6 +179,10 @@ skip:
         c->addr_text.data = text;
         c->addr_text.len = len;
 
+        /* what allow and deny compare */
+        s->sockaddr = c->sockaddr;
+        s->remote_addr_text = c->addr_text;
+
         ngx_log_debug1(NGX_LOG_DEBUG_RTMP, c->log, 0,
                        "proxy_protocol: remote_addr:'%V'", &c->addr_text);
     }
-- 
2.43.0


From c1f39b2522dbeb85db4b176e6208e9fae367b0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:04 +0000
Subject: [PATCH 077/115] fix: rtmp: IPv6 addresses of clients were cut before
 allow and deny compared them

---
 modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c | 5 +++--
 modules/nginx-rtmp-module/ngx_rtmp_init.c              | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
index 53732ae..9c6c70c 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_hls_http_module.c
@@ -773,8 +773,9 @@ ngx_hls_http_m3u8_handler(ngx_http_request_t *r, ngx_rtmp_addr_conf_t *addr_conf
 
             return NGX_HTTP_INTERNAL_SERVER_ERROR;
         }
-        s->sockaddr = ngx_pcalloc(s->pool, sizeof(struct sockaddr));
-        ngx_memcpy(s->sockaddr, r->connection->sockaddr, sizeof(struct sockaddr));
+        s->sockaddr = ngx_pcalloc(s->pool, r->connection->socklen);
+        ngx_memcpy(s->sockaddr, r->connection->sockaddr,
+            r->connection->socklen);
     }
 
     s->request = r;
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_init.c b/modules/nginx-rtmp-module/ngx_rtmp_init.c
index 2455f9e..40527b0 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_init.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_init.c
@@ -196,8 +196,8 @@ ngx_rtmp_init_connection(ngx_connection_t *c)
     s->remote_addr_text.data = ngx_pcalloc(s->pool, c->addr_text.len);
     s->remote_addr_text.len = c->addr_text.len;
     ngx_memcpy(s->remote_addr_text.data, c->addr_text.data, c->addr_text.len);
-    s->sockaddr = ngx_pcalloc(s->pool, sizeof(struct sockaddr));
-    ngx_memcpy(s->sockaddr, c->sockaddr, sizeof(struct sockaddr));
+    s->sockaddr = ngx_pcalloc(s->pool, c->socklen);
+    ngx_memcpy(s->sockaddr, c->sockaddr, c->socklen);
 
     ngx_rtmp_init_session(s, c);
 
-- 
2.43.0


From 45520d2e61cbfca33ed0b9b429e1994314c77839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:42 +0000
Subject: [PATCH 078/115] fix: rtmp: max_connections was never enforced

---
 modules/nginx-rtmp-module/ngx_rtmp_init.c         | 5 +++++
 modules/nginx-rtmp-module/ngx_rtmp_limit_module.c | 9 ++++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_init.c b/modules/nginx-rtmp-module/ngx_rtmp_init.c
index 40527b0..9db2de8 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_init.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_init.c
@@ -206,6 +206,11 @@ ngx_rtmp_init_connection(ngx_connection_t *c)
 
     s->interprocess = unix_socket;
 
+    if (ngx_rtmp_fire_event(s, NGX_RTMP_CONNECT, NULL, NULL) != NGX_OK) {
+        ngx_rtmp_finalize_session(s);
+        return;
+    }
+
     if (addr_conf->proxy_protocol) {
         ngx_rtmp_proxy_protocol(s);
 
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_limit_module.c b/modules/nginx-rtmp-module/ngx_rtmp_limit_module.c
index dae8143..92608d2 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_limit_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_limit_module.c
@@ -90,7 +90,7 @@ ngx_rtmp_limit_connect(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     ngx_int_t                   rc;
 
     lmcf = ngx_rtmp_get_module_main_conf(s, ngx_rtmp_limit_module);
-    if (lmcf->max_conn == NGX_CONF_UNSET) {
+    if (lmcf->max_conn == NGX_CONF_UNSET || s->interprocess) {
         return NGX_OK;
     }
 
@@ -102,6 +102,8 @@ ngx_rtmp_limit_connect(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     n = ++*nconn;
     ngx_shmtx_unlock(&shpool->mutex);
 
+    ngx_rtmp_set_ctx(s, lmcf, ngx_rtmp_limit_module);
+
     rc = n > (ngx_uint_t) lmcf->max_conn ? NGX_ERROR : NGX_OK;
 
     ngx_log_debug1(NGX_LOG_DEBUG_RTMP, s->log, 0,
@@ -131,6 +133,11 @@ ngx_rtmp_limit_disconnect(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         return NGX_OK;
     }
 
+    /* only what was counted: no relays and no HTTP players */
+    if (ngx_rtmp_get_module_ctx(s, ngx_rtmp_limit_module) == NULL) {
+        return NGX_OK;
+    }
+
     shm_zone = lmcf->shm_zone;
     shpool = (ngx_slab_pool_t *) shm_zone->shm.addr;
     nconn = shm_zone->data;
-- 
2.43.0


From 603ef5f9e98f4dd47f359b2521f87dcd8dd6a7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:51 +0000
Subject: [PATCH 079/115] fix: http: allow and deny of play did not apply to
 HTTP-FLV and HTTP-TS players

---
 modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c | 1 +
 modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c b/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
index 47127db..a813d8e 100644
--- a/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
+++ b/modules/nginx-rtmp-module/http/ngx_http_flv_live_module.c
@@ -627,6 +627,7 @@ ngx_http_flv_live_handler(ngx_http_request_t *r)
     s->remote_addr_text.len = r->connection->addr_text.len;
     ngx_memcpy(s->remote_addr_text.data,
         r->connection->addr_text.data, r->connection->addr_text.len);
+    s->sockaddr = r->connection->sockaddr;
 //    ngx_rtmp_set_combined_log(s, r->connection->log->data,
 //            r->connection->log->handler);
     s->log->connection = r->connection->number;
diff --git a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
index ceeb2a3..43e9b71 100644
--- a/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
+++ b/modules/nginx-rtmp-module/mpegts/ngx_mpegts_http_module.c
@@ -487,6 +487,7 @@ ngx_mpegts_http_handler(ngx_http_request_t *r)
     s->remote_addr_text.len = r->connection->addr_text.len;
     ngx_memcpy(s->remote_addr_text.data,
         r->connection->addr_text.data, r->connection->addr_text.len);
+    s->sockaddr = r->connection->sockaddr;
 
     /* get host, app, stream name */
     ngx_memzero(&v, sizeof(ngx_rtmp_play_t));
-- 
2.43.0


From 6d1b89a17798fdada9ef9c972aa3ad4bf427ede7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:55 +0000
Subject: [PATCH 080/115] fix: inner relay: a publisher on a worker that pulls
 the stream was not shared with other workers

---
 modules/nginx-rtmp-module/ngx_live_relay.c    | 12 ++++-
 .../nginx-rtmp-module/ngx_live_relay_inner.c  | 53 ++++++++++++++++++-
 2 files changed, 62 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_relay.c b/modules/nginx-rtmp-module/ngx_live_relay.c
index 148c9ff..9fae65c 100644
--- a/modules/nginx-rtmp-module/ngx_live_relay.c
+++ b/modules/nginx-rtmp-module/ngx_live_relay.c
@@ -204,11 +204,19 @@ ngx_live_relay_publish_local(ngx_rtmp_session_t *rs)
 static ngx_int_t
 ngx_live_relay_publish(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
 {
+    ngx_rtmp_core_ctx_t        *cctx;
     ngx_live_relay_ctx_t       *ctx;
 
     // second publish will not trigger push
-    if (s->live_stream->publish_ctx->next != NULL) {
-        goto next;
+    for (cctx = s->live_stream->publish_ctx; cctx; cctx = cctx->next) {
+        if (cctx->session == s) {
+            continue;
+        }
+
+        ctx = ngx_rtmp_get_module_ctx(cctx->session, ngx_live_relay_module);
+        if (ctx == NULL || !ctx->giveup) {
+            goto next;
+        }
     }
 
     if (ngx_live_push(s) != NGX_OK) {
diff --git a/modules/nginx-rtmp-module/ngx_live_relay_inner.c b/modules/nginx-rtmp-module/ngx_live_relay_inner.c
index 235b3f1..79326a5 100644
--- a/modules/nginx-rtmp-module/ngx_live_relay_inner.c
+++ b/modules/nginx-rtmp-module/ngx_live_relay_inner.c
@@ -6,10 +6,12 @@
 #include <ngx_config.h>
 #include <ngx_core.h>
 #include "ngx_live_relay.h"
+#include "ngx_rtmp_cmd_module.h"
 #include "ngx_stream_zone_module.h"
 #include "ngx_multiport.h"
 
 
+static ngx_rtmp_publish_pt              next_publish;
 static ngx_live_push_pt                 next_push;
 static ngx_live_pull_pt                 next_pull;
 static ngx_live_push_close_pt           next_push_close;
@@ -276,6 +278,42 @@ ngx_live_relay_inner_relay(ngx_rtmp_session_t *s, unsigned publishing)
 }
 
 
+// inner relay sessions in ctx list are no longer needed
+static void
+ngx_live_relay_inner_giveup(ngx_rtmp_core_ctx_t *ctx)
+{
+    ngx_rtmp_core_ctx_t        *next;
+    ngx_live_relay_ctx_t       *rctx;
+
+    for (/* void */; ctx; ctx = next) {
+        next = ctx->next;
+
+        rctx = ngx_rtmp_get_module_ctx(ctx->session, ngx_live_relay_module);
+        if (!ctx->session->relay || rctx == NULL
+                || rctx->tag != &ngx_live_relay_inner_module)
+        {
+            continue;
+        }
+
+        rctx->giveup = 1;
+        ctx->session->finalize_reason = NGX_LIVE_RELAY_CLOSE;
+        ngx_rtmp_finalize_session(ctx->session);
+    }
+}
+
+
+static ngx_int_t
+ngx_live_relay_inner_publish(ngx_rtmp_session_t *s, ngx_rtmp_publish_t *v)
+{
+    // publisher comes while stream is pulled from its owner, push instead
+    if (!s->relay) {
+        ngx_live_relay_inner_giveup(s->live_stream->publish_ctx);
+    }
+
+    return next_publish(s, v);
+}
+
+
 static ngx_int_t
 ngx_live_relay_inner_push(ngx_rtmp_session_t *s)
 {
@@ -363,6 +401,14 @@ ngx_live_relay_inner_pull_close(ngx_rtmp_session_t *s)
 
     ctx = ngx_rtmp_get_module_ctx(s, ngx_live_relay_module);
     if (ctx == NULL) {
+        // publisher close, stop push so that players can pull from owner
+        if (s->live_stream->publish_ctx == NULL
+                && s->live_stream->pslot != ngx_process_slot)
+        {
+            ngx_live_relay_inner_giveup(s->live_stream->play_ctx);
+            s->live_stream->pslot = -1;
+        }
+
         goto next;
     }
 
@@ -371,7 +417,9 @@ ngx_live_relay_inner_pull_close(ngx_rtmp_session_t *s)
     }
 
     // inner relay close
-    s->live_stream->pslot = -1;
+    if (!ctx->giveup) {
+        s->live_stream->pslot = -1;
+    }
 
 next:
     return next_pull_close(s);
@@ -383,6 +431,9 @@ ngx_live_relay_inner_postconfiguration(ngx_conf_t *cf)
 {
     /* chain handlers */
 
+    next_publish = ngx_rtmp_publish;
+    ngx_rtmp_publish = ngx_live_relay_inner_publish;
+
     next_push = ngx_live_push;
     ngx_live_push = ngx_live_relay_inner_push;
 
-- 
2.43.0


From 4924b5cf37faffd4623cf9573a0b35de0e4e9d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:57 +0000
Subject: [PATCH 081/115] fix: dash: segment index pointed behind the segment

---
 modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c b/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c
index ba234d6..30f6218 100644
--- a/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c
+++ b/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c
@@ -1111,7 +1111,7 @@ ngx_rtmp_mp4_write_sidx(ngx_buf_t *b, ngx_uint_t reference_size,
     ngx_rtmp_mp4_field_32(b, earliest_pres_time);
 
     /* first offset */
-    ngx_rtmp_mp4_field_32(b, duration); /*TODO*/
+    ngx_rtmp_mp4_field_32(b, 0);
 
     /* reserved */
     ngx_rtmp_mp4_field_16(b, 0);
-- 
2.43.0


From febffd5b0e0c44eb52d8aa80e48d5f7fadb9c245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:29 +0000
Subject: [PATCH 082/115] fix: dash: negative composition time was taken for
 hours

---
 modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c | 2 +-
 modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c         | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
index 49c4b51..efb667e 100644
--- a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
+++ b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
@@ -1201,7 +1201,7 @@ ngx_rtmp_dash_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     p[0] = in->buf->pos[4];
     p[1] = in->buf->pos[3];
     p[2] = in->buf->pos[2];
-    p[3] = 0;
+    p[3] = (in->buf->pos[2] & 0x80) ? 0xff : 0;
 
     ctx->has_video = 1;
 
diff --git a/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c b/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c
index 30f6218..cd7686a 100644
--- a/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c
+++ b/modules/nginx-rtmp-module/dash/ngx_rtmp_mp4.c
@@ -1015,7 +1015,8 @@ ngx_rtmp_mp4_write_trun(ngx_buf_t *b, uint32_t sample_count,
 
     if (sample_mask & NGX_RTMP_MP4_SAMPLE_DELAY) {
         nitems++;
-        flags |= 0x000800;
+        /* version 1, composition time offsets are signed */
+        flags |= 0x01000800;
     }
 
     offset = (pos - moof_pos) + 20 + (sample_count * nitems * 4) + 8;
-- 
2.43.0


From 61ce98e3b27b26d48c022e3b2e07a1caaf923b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:50 +0000
Subject: [PATCH 083/115] fix: dash: a segment of one frame was announced with
 the duration of another

---
 modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
index efb667e..5b27cff 100644
--- a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
+++ b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
@@ -1037,6 +1037,7 @@ ngx_rtmp_dash_update_fragments(ngx_rtmp_session_t *s, ngx_int_t boundary,
 
         f = ngx_rtmp_dash_get_frag(s, ctx->nfrags);
         f->timestamp = timestamp;
+        f->duration = 0;
     }
 }
 
-- 
2.43.0


From 9aff576dda795fb3c476a9ac7ef11b50d176ec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:50 +0000
Subject: [PATCH 084/115] fix: dash: the initialization segment of a track that
 joins later had no codec configuration

---
 .../dash/ngx_rtmp_dash_module.c                 | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
index 5b27cff..d10c82b 100644
--- a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
+++ b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
@@ -61,6 +61,7 @@ typedef struct {
     unsigned                            opened:1;
     unsigned                            has_video:1;
     unsigned                            has_audio:1;
+    unsigned                            init:1;
 
     ngx_file_t                          video_file;
     ngx_file_t                          audio_file;
@@ -239,8 +240,10 @@ ngx_rtmp_dash_write_playlist(ngx_rtmp_session_t *s)
         return NGX_ERROR;
     }
 
-    if (ctx->id == 0) {
-        ngx_rtmp_dash_write_init_segments(s);
+    /* again when a track joins later */
+
+    if (!ctx->init && ngx_rtmp_dash_write_init_segments(s) == NGX_OK) {
+        ctx->init = 1;
     }
 
     fd = ngx_open_file(ctx->playlist_bak.data, NGX_FILE_WRONLY,
@@ -1142,7 +1145,10 @@ ngx_rtmp_dash_audio(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
         return NGX_OK;
     }
 
-    ctx->has_audio = 1;
+    if (!ctx->has_audio) {
+        ctx->has_audio = 1;
+        ctx->init = 0;
+    }
 
     /* skip RTMP & AAC headers */
 
@@ -1204,7 +1210,10 @@ ngx_rtmp_dash_video(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     p[2] = in->buf->pos[2];
     p[3] = (in->buf->pos[2] & 0x80) ? 0xff : 0;
 
-    ctx->has_video = 1;
+    if (!ctx->has_video) {
+        ctx->has_video = 1;
+        ctx->init = 0;
+    }
 
     /* skip RTMP & H264 headers */
 
-- 
2.43.0


From c26f861aed714f3d3bfd7131e23ce19e185ad8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:27 +0000
Subject: [PATCH 085/115] fix: dash: after a failed write the manifest, the
 initialization segment or samples were damaged

---
 .../dash/ngx_rtmp_dash_module.c               | 44 +++++++++++++------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
index d10c82b..26faa8f 100644
--- a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
+++ b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
@@ -218,7 +218,7 @@ ngx_rtmp_dash_write_playlist(ngx_rtmp_session_t *s)
 {
     char                      *sep;
     u_char                    *p, *last;
-    ssize_t                    n;
+    ngx_uint_t                 failed;
     ngx_fd_t                   fd;
     struct tm                  tm;
     ngx_str_t                  noname, *name;
@@ -368,7 +368,7 @@ ngx_rtmp_dash_write_playlist(ngx_rtmp_session_t *s)
      *     2 * minBufferTime + max_fragment_length + 1
      */
 
-    n = ngx_write_fd(fd, buffer, p - buffer);
+    failed = (ngx_write_fd(fd, buffer, p - buffer) != p - buffer);
 
     ngx_str_null(&noname);
 
@@ -399,7 +399,7 @@ ngx_rtmp_dash_write_playlist(ngx_rtmp_session_t *s)
 
         p = ngx_slprintf(p, last, NGX_RTMP_DASH_MANIFEST_VIDEO_FOOTER);
 
-        n = ngx_write_fd(fd, buffer, p - buffer);
+        failed |= (ngx_write_fd(fd, buffer, p - buffer) != p - buffer);
     }
 
     if (ctx->has_audio) {
@@ -420,13 +420,13 @@ ngx_rtmp_dash_write_playlist(ngx_rtmp_session_t *s)
 
         p = ngx_slprintf(p, last, NGX_RTMP_DASH_MANIFEST_AUDIO_FOOTER);
 
-        n = ngx_write_fd(fd, buffer, p - buffer);
+        failed |= (ngx_write_fd(fd, buffer, p - buffer) != p - buffer);
     }
 
     p = ngx_slprintf(buffer, last, NGX_RTMP_DASH_MANIFEST_FOOTER);
-    n = ngx_write_fd(fd, buffer, p - buffer);
+    failed |= (ngx_write_fd(fd, buffer, p - buffer) != p - buffer);
 
-    if (n < 0) {
+    if (failed) {
         ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
                       "dash: write failed: '%V'", &ctx->playlist_bak);
         ngx_close_file(fd);
@@ -466,6 +466,8 @@ ngx_rtmp_dash_write_init_segments(ngx_rtmp_session_t *s)
         return NGX_ERROR;
     }
 
+    rc = NGX_OK;
+
     /* init video */
 
     *ngx_sprintf(ctx->stream.data + ctx->stream.len, "init.m4v") = 0;
@@ -486,10 +488,12 @@ ngx_rtmp_dash_write_init_segments(ngx_rtmp_session_t *s)
     ngx_rtmp_mp4_write_ftyp(&b);
     ngx_rtmp_mp4_write_moov(s, &b, NGX_RTMP_MP4_VIDEO_TRACK);
 
-    rc = ngx_write_fd(fd, b.start, (size_t) (b.last - b.start));
-    if (rc == NGX_ERROR) {
+    if (ngx_write_fd(fd, b.start, (size_t) (b.last - b.start))
+        != b.last - b.start)
+    {
         ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
                       "dash: writing video init failed");
+        rc = NGX_ERROR;
     }
 
     ngx_close_file(fd);
@@ -512,15 +516,17 @@ ngx_rtmp_dash_write_init_segments(ngx_rtmp_session_t *s)
     ngx_rtmp_mp4_write_ftyp(&b);
     ngx_rtmp_mp4_write_moov(s, &b, NGX_RTMP_MP4_AUDIO_TRACK);
 
-    rc = ngx_write_fd(fd, b.start, (size_t) (b.last - b.start));
-    if (rc == NGX_ERROR) {
+    if (ngx_write_fd(fd, b.start, (size_t) (b.last - b.start))
+        != b.last - b.start)
+    {
         ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
                       "dash: writing audio init failed");
+        rc = NGX_ERROR;
     }
 
     ngx_close_file(fd);
 
-    return NGX_OK;
+    return rc;
 }
 
 
@@ -1071,6 +1077,10 @@ ngx_rtmp_dash_append(ngx_rtmp_session_t *s, ngx_chain_t *in,
 
     ngx_rtmp_dash_update_fragments(s, key, timestamp);
 
+    if (!t->opened) { /* open failed */
+        return NGX_OK;
+    }
+
     if (t->sample_count == 0) {
         t->earliest_pres_time = timestamp;
     }
@@ -1079,10 +1089,18 @@ ngx_rtmp_dash_append(ngx_rtmp_session_t *s, ngx_chain_t *in,
 
     if (t->sample_count < NGX_RTMP_DASH_MAX_SAMPLES) {
 
-        if (ngx_write_fd(t->fd, buffer, size) == NGX_ERROR) {
+        if (ngx_write_fd(t->fd, buffer, size) != (ssize_t) size) {
             ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
                           "dash: " ngx_write_fd_n " failed");
-            return NGX_ERROR;
+
+            /* next sample takes its place */
+
+            if (lseek(t->fd, (off_t) t->mdat_size, SEEK_SET) == -1) {
+                ngx_log_error(NGX_LOG_ERR, s->log, ngx_errno,
+                              "dash: lseek error");
+            }
+
+            return NGX_OK;
         }
 
         smpl = &t->samples[t->sample_count];
-- 
2.43.0


From bb81e653dc509003f88d6efd69a160a0a24cde68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:56 +0000
Subject: [PATCH 086/115] fix: dash: frames beyond the 1024th of a fragment
 were dropped

---
 modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
index 26faa8f..4d74b7c 100644
--- a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
+++ b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
@@ -1036,6 +1036,12 @@ ngx_rtmp_dash_update_fragments(ngx_rtmp_session_t *s, ngx_int_t boundary,
         boundary = 1;
     }
 
+    if (ctx->audio.sample_count >= NGX_RTMP_DASH_MAX_SAMPLES
+        || ctx->video.sample_count >= NGX_RTMP_DASH_MAX_SAMPLES)
+    {
+        boundary = 1;
+    }
+
     if (!ctx->opened) {
         boundary = 1;
     }
-- 
2.43.0


From 7b2ca66840d84438f0d55fcb5725fd275513ee3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:24 +0000
Subject: [PATCH 087/115] fix: dash: a frame slightly behind its predecessor
 got a duration of 49 days

---
 modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
index 4d74b7c..2506943 100644
--- a/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
+++ b/modules/nginx-rtmp-module/dash/ngx_rtmp_dash_module.c
@@ -1118,8 +1118,14 @@ ngx_rtmp_dash_append(ngx_rtmp_session_t *s, ngx_chain_t *in,
         smpl->key = (key ? 1 : 0);
 
         if (t->sample_count > 0) {
-            smpl = &t->samples[t->sample_count - 1];
-            smpl->duration = timestamp - smpl->timestamp;
+
+            /* durations are unsigned, decoding times do not step back */
+
+            if ((int32_t) (timestamp - smpl[-1].timestamp) < 0) {
+                smpl->timestamp = smpl[-1].timestamp;
+            }
+
+            smpl[-1].duration = smpl->timestamp - smpl[-1].timestamp;
         }
 
         t->sample_count++;
-- 
2.43.0


From aa4c72c1344eccb7f0887020c0835d03488d728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:01 +0000
Subject: [PATCH 088/115] fix: codec: a long or truncated HEVC SPS overflowed
 the stack

---
 modules/nginx-rtmp-module/ngx_rtmp_codec_module.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 9d5e9cd..86af8a0 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -451,7 +451,9 @@ ngx_rtmp_codec_parse_hevc_nal_to_rbsp(ngx_rtmp_session_t *s, u_char *p,
                 return NGX_ERROR;
             }
 
-            if (br->pos[i] == 0x03 && br->pos[i + 1] > 0x03) {
+            if (br->pos[i] == 0x03 && i + 1 < nal_unit_len
+                && br->pos[i + 1] > 0x03)
+            {
                 ngx_log_error(NGX_LOG_ERR, s->log, 0,
                         "four bytes sequence error");
                 return NGX_ERROR;
@@ -581,7 +583,16 @@ ngx_rtmp_codec_parse_hevc_sps(ngx_rtmp_session_t *s, ngx_rtmp_codec_ctx_t *ctx,
     u_char                  buf[4096];
     ngx_int_t               rbsp_bytes;
 
+    /* the SPS must be in the buffer, what is needed is at its beginning */
+    if (nal_unit_len < 2 || nal_unit_len > (ngx_uint_t) (pbr->last - pbr->pos))
+    {
+        ngx_log_error(NGX_LOG_ERR, s->log, 0,
+                "sps length error: %ui", nal_unit_len);
+        return;
+    }
+
     ngx_rtmp_bit_init_reader(&br, pbr->pos, pbr->pos + nal_unit_len);
+    nal_unit_len = ngx_min(nal_unit_len - 2, sizeof(buf));
     rbsp_bytes = ngx_rtmp_codec_parse_hevc_nal_to_rbsp(s, buf, &br, NAL_SPS,
                                                        nal_unit_len);
     if (rbsp_bytes == NGX_ERROR) {
-- 
2.43.0


From a63c8964ee980b99a47d62b00307b51d6a38a399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:01 +0000
Subject: [PATCH 089/115] fix: codec: a cropped HEVC picture was one sample too
 small each way

---
 modules/nginx-rtmp-module/ngx_rtmp_codec_module.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 86af8a0..4c6acb6 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -695,8 +695,8 @@ ngx_rtmp_codec_parse_hevc_sps(ngx_rtmp_session_t *s, ngx_rtmp_codec_ctx_t *ctx,
          *  pic_height_in_luma_samples -
          *  (SubHeightC * conf_win_bottom_offset + 1)
          */
-        ctx->width = width - (subwidthC * cwro + 1) - (subwidthC * cwlo);
-        ctx->height = height - (subheightC * cwbo + 1) - (subheightC * cwto);
+        ctx->width = width - (subwidthC * cwro) - (subwidthC * cwlo);
+        ctx->height = height - (subheightC * cwbo) - (subheightC * cwto);
     } else {
         ctx->width = width;
         ctx->height = height;
-- 
2.43.0


From dfa987663ee29c81f7bbed5fd75e1522b881432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:01 +0000
Subject: [PATCH 090/115] fix: codec: AAC stayed HE-AAC when its header changed

---
 modules/nginx-rtmp-module/ngx_rtmp_codec_module.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 4c6acb6..9b90115 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -336,6 +336,9 @@ ngx_rtmp_codec_parse_aac_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
 
     ctx->aac_chan_conf = (ngx_uint_t) ngx_rtmp_bit_read(&br, 4);
 
+    ctx->aac_sbr = 0;
+    ctx->aac_ps = 0;
+
     if (ctx->aac_profile == 5 || ctx->aac_profile == 29) {
         
         if (ctx->aac_profile == 29) {
-- 
2.43.0


From 6e8ce8fc0b25cf63e12216a3055431f96f453fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:01 +0000
Subject: [PATCH 091/115] fix: codec: HEVC was listed with the profile and
 level of an earlier AVC header

---
 modules/nginx-rtmp-module/ngx_rtmp_codec_module.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 9b90115..1a81fca 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -751,6 +751,13 @@ ngx_rtmp_codec_parse_hevc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
      */
     ngx_rtmp_bit_read(&br, 160);
 
+    /*
+     * profile and level of AVC do not apply
+     */
+    ctx->avc_profile = 0;
+    ctx->avc_compat = 0;
+    ctx->avc_level = 0;
+
     /*
      * HEVCDecoderConfigurationRecord
      *      constantFrameRate                       2 bits
-- 
2.43.0


From d27d8d2e94ac413cabc26b15ce7aa748fc4d0a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:01 +0000
Subject: [PATCH 092/115] fix: codec: cropping of interlaced, 4:2:2 and 4:4:4
 AVC was in wrong units

---
 modules/nginx-rtmp-module/ngx_rtmp_codec_module.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 1a81fca..03e38b8 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -816,7 +816,7 @@ ngx_rtmp_codec_parse_avc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
 {
     ngx_uint_t              profile_idc, width, height, crop_left, crop_right,
                             crop_top, crop_bottom, frame_mbs_only, n, cf_idc,
-                            num_ref_frames;
+                            num_ref_frames, crop_x, crop_y;
     ngx_rtmp_codec_ctx_t   *ctx;
     ngx_rtmp_bit_reader_t   br;
 
@@ -864,6 +864,8 @@ ngx_rtmp_codec_parse_avc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
     /* SPS id */
     ngx_rtmp_bit_read_golomb(&br);
 
+    cf_idc = 1;
+
     if (profile_idc == 100 || profile_idc == 110 ||
         profile_idc == 122 || profile_idc == 244 || profile_idc == 44 ||
         profile_idc == 83 || profile_idc == 86 || profile_idc == 118)
@@ -960,6 +962,10 @@ ngx_rtmp_codec_parse_avc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
     /* direct 8x8 inference flag */
     ngx_rtmp_bit_read(&br, 1);
 
+    /* cropping units */
+    crop_x = (cf_idc == 1 || cf_idc == 2) ? 2 : 1;
+    crop_y = (cf_idc == 1 ? 2 : 1) * (2 - frame_mbs_only);
+
     /* frame cropping */
     if (ngx_rtmp_bit_read(&br, 1)) {
 
@@ -976,9 +982,9 @@ ngx_rtmp_codec_parse_avc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
         crop_bottom = 0;
     }
 
-   ctx->width = (width + 1) * 16 - (crop_left + crop_right) * 2;
+   ctx->width = (width + 1) * 16 - (crop_left + crop_right) * crop_x;
    ctx->height = (2 - frame_mbs_only) * (height + 1) * 16 -
-                 (crop_top + crop_bottom) * 2;
+                 (crop_top + crop_bottom) * crop_y;
 
     ngx_log_error(NGX_LOG_INFO, s->log, 0,
                    "sps codec: avc header "
-- 
2.43.0


From 9be26bb8aca61e575509cbda81b222dbfc49a61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:11 +0000
Subject: [PATCH 093/115] fix: codec: a damaged AVC or HEVC header kept the
 worker busy for ever

---
 modules/nginx-rtmp-module/ngx_rtmp_codec_module.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 03e38b8..4e218fd 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -773,7 +773,7 @@ ngx_rtmp_codec_parse_hevc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
      */
     num_arrays = (ngx_uint_t) ngx_rtmp_bit_read_8(&br);
 
-    for (i = 0; i < num_arrays; ++i) {
+    for (i = 0; i < num_arrays && !br.err; ++i) {
         /*
          * array_completeness                       1 bit
          * reserved                                 1 bit
@@ -783,7 +783,7 @@ ngx_rtmp_codec_parse_hevc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
         nal_unit_type = (ngx_uint_t) (ngx_rtmp_bit_read_8(&br) & 0x3f);
         num_nalus = (ngx_uint_t) ngx_rtmp_bit_read_16(&br);
 
-        for (j = 0; j < num_nalus; ++j) {
+        for (j = 0; j < num_nalus && !br.err; ++j) {
             /*
              * nalUnitLength                        2 bytes
              */
@@ -931,7 +931,7 @@ ngx_rtmp_codec_parse_avc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
         /* num ref frames in pic order */
         num_ref_frames = (ngx_uint_t) ngx_rtmp_bit_read_golomb(&br);
 
-        for (n = 0; n < num_ref_frames; n++) {
+        for (n = 0; n < num_ref_frames && !br.err; n++) {
 
             /* offset for ref frame */
             ngx_rtmp_bit_read_golomb(&br);
-- 
2.43.0


From 13a6525f61d2253e1306b80e906ce7ef72780b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:11 +0000
Subject: [PATCH 094/115] fix: codec: the size of AVC streams with scaling
 lists was misread

---
 .../nginx-rtmp-module/ngx_rtmp_codec_module.c | 23 +++++++++++++++----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 4e218fd..8f83683 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -816,7 +816,8 @@ ngx_rtmp_codec_parse_avc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
 {
     ngx_uint_t              profile_idc, width, height, crop_left, crop_right,
                             crop_top, crop_bottom, frame_mbs_only, n, cf_idc,
-                            num_ref_frames, crop_x, crop_y;
+                            num_ref_frames, crop_x, crop_y, j, last_scale,
+                            next_scale, delta;
     ngx_rtmp_codec_ctx_t   *ctx;
     ngx_rtmp_bit_reader_t   br;
 
@@ -896,11 +897,23 @@ ngx_rtmp_codec_parse_avc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
                 /* seq scaling list present */
                 if (ngx_rtmp_bit_read(&br, 1)) {
 
-                    /* TODO: scaling_list()
-                    if (n < 6) {
-                    } else {
+                    /* scaling list */
+                    last_scale = 8;
+                    next_scale = 8;
+
+                    for (j = 0; j < (n < 6 ? 16u : 64u); j++) {
+                        if (next_scale != 0) {
+                            delta = ngx_rtmp_bit_read_golomb(&br);
+                            next_scale = last_scale
+                                + ((delta & 1) ? (delta + 1) / 2
+                                               : 256 - (delta / 2) % 256);
+                            next_scale %= 256;
+                        }
+
+                        if (next_scale != 0) {
+                            last_scale = next_scale;
+                        }
                     }
-                    */
                 }
             }
         }
-- 
2.43.0


From cb49e3e27a32399bc6621d9e8ef86a11418262eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:11 +0000
Subject: [PATCH 095/115] fix: codec: the size of AVC streams with emulation
 prevention bytes was misread

---
 .../nginx-rtmp-module/ngx_rtmp_codec_module.c | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 8f83683..6bfda37 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -817,7 +817,8 @@ ngx_rtmp_codec_parse_avc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
     ngx_uint_t              profile_idc, width, height, crop_left, crop_right,
                             crop_top, crop_bottom, frame_mbs_only, n, cf_idc,
                             num_ref_frames, crop_x, crop_y, j, last_scale,
-                            next_scale, delta;
+                            next_scale, delta, len, zeros;
+    u_char                  buf[4096], *p;
     ngx_rtmp_codec_ctx_t   *ctx;
     ngx_rtmp_bit_reader_t   br;
 
@@ -844,7 +845,30 @@ ngx_rtmp_codec_parse_avc_header(ngx_rtmp_session_t *s, ngx_chain_t *in)
     }
 
     /* nal size */
-    ngx_rtmp_bit_read(&br, 16);
+    n = (ngx_uint_t) ngx_rtmp_bit_read(&br, 16);
+    if (br.err) {
+        return;
+    }
+
+    /* SPS without emulation prevention bytes */
+    len = 0;
+    zeros = 0;
+    p = br.pos;
+
+    while (n && p < br.last && len < sizeof(buf)) {
+        if (zeros == 2 && *p == 3) {
+            zeros = 0;
+
+        } else {
+            zeros = (*p == 0) ? zeros + 1 : 0;
+            buf[len++] = *p;
+        }
+
+        p++;
+        n--;
+    }
+
+    ngx_rtmp_bit_init_reader(&br, buf, buf + len);
 
     /* nal type */
     if ((ngx_rtmp_bit_read_8(&br) & 0x1f) != 7) {
-- 
2.43.0


From 827c01119740505773a100514f617df4d863cc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:11 +0000
Subject: [PATCH 096/115] fix: stat: HTTP-TS and HLS players were neither
 listed nor counted

---
 modules/nginx-rtmp-module/ngx_live_stat.c     | 37 ++++++++++++++++---
 .../nginx-rtmp-module/ngx_rtmp_stat_module.c  | 25 +++++++++++++
 2 files changed, 57 insertions(+), 5 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_stat.c b/modules/nginx-rtmp-module/ngx_live_stat.c
index 4758c5d..44a5f41 100644
--- a/modules/nginx-rtmp-module/ngx_live_stat.c
+++ b/modules/nginx-rtmp-module/ngx_live_stat.c
@@ -119,6 +119,7 @@ ngx_live_stream_stat(cJSON *obj, ngx_live_server_t *srv)
     ngx_live_stream_t              *stream;
     ngx_rtmp_codec_ctx_t           *codec;
     ngx_rtmp_live_ctx_t            *ctx;
+    ngx_rtmp_core_ctx_t            *cctx;
     ngx_rtmp_session_t             *s;
     size_t                          n;
     ngx_uint_t                      nclients, total_nclients;
@@ -217,13 +218,39 @@ ngx_live_stream_stat(cJSON *obj, ngx_live_server_t *srv)
                     nflvclients++;
                     break;
 
-                case NGX_HLS_LIVE:
-                    nhlsclients++;
-                    break;
+                }
+            }
+
+            /* players which get the stream in another form */
+            for (cctx = stream->play_ctx; cctx; cctx = cctx->next) {
+                s = cctx->session;
+                if (s->live_type != NGX_MPEGTS_LIVE
+                    && s->live_type != NGX_HLS_LIVE)
+                {
+                    continue;
+                }
+
+                client_item = cJSON_CreateObject();
+                cJSON_AddItemToArray(client_array, client_item);
+
+                ngx_live_stat_client(client_item, s);
 
-                case NGX_MPEGTS_LIVE:
+                cJSON_AddNumberToObject(client_item, "timestamp",
+                    s->current_time);
+                cJSON_AddBoolToObject(client_item, "active",
+                    (cJSON_bool) stream->active);
+                cJSON_AddBoolToObject(client_item, "publishing", 0);
+                cJSON_AddBoolToObject(client_item, "relay",
+                    (cJSON_bool) s->relay);
+                cJSON_AddBoolToObject(client_item, "interprocess",
+                    (cJSON_bool) s->interprocess);
+                cJSON_AddStringToObject(client_item, "protocol",
+                    ngx_live_protocol_string[s->live_type]);
+
+                if (s->live_type == NGX_HLS_LIVE) {
+                    nhlsclients++;
+                } else {
                     ntsclients++;
-                    break;
                 }
             }
 
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_stat_module.c b/modules/nginx-rtmp-module/ngx_rtmp_stat_module.c
index 7a5aed0..4663b8c 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_stat_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_stat_module.c
@@ -418,6 +418,7 @@ ngx_rtmp_stat_live(ngx_http_request_t *r, ngx_chain_t ***lll,
     ngx_live_stream_t              *stream;
     ngx_rtmp_codec_ctx_t           *codec;
     ngx_rtmp_live_ctx_t            *ctx;
+    ngx_rtmp_core_ctx_t            *cctx;
     ngx_rtmp_session_t             *s;
     size_t                          n;
     ngx_uint_t                      nclients, total_nclients;
@@ -506,6 +507,30 @@ ngx_rtmp_stat_live(ngx_http_request_t *r, ngx_chain_t ***lll,
                     codec = ngx_rtmp_get_module_ctx(s, ngx_rtmp_codec_module);
                 }
             }
+
+            /* players which get the stream in another form */
+            for (cctx = stream->play_ctx; cctx; cctx = cctx->next) {
+                s = cctx->session;
+                if (s->live_type != NGX_MPEGTS_LIVE
+                    && s->live_type != NGX_HLS_LIVE)
+                {
+                    continue;
+                }
+
+                ++nclients;
+
+                if (slcf->stat & NGX_RTMP_STAT_CLIENTS) {
+                    NGX_RTMP_STAT_L("<client>");
+                    ngx_rtmp_stat_client(r, lll, s);
+
+                    if (stream->active) {
+                        NGX_RTMP_STAT_L("<active/>");
+                    }
+
+                    NGX_RTMP_STAT_L("</client>\r\n");
+                }
+            }
+
             total_nclients += nclients;
 
             if (codec) {
-- 
2.43.0


From 22b3d8859ab22f9a76ea92911eb4d207832adec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:11 +0000
Subject: [PATCH 097/115] fix: sys_stat: texts of clients that are not UTF-8
 made the JSON invalid

---
 modules/nginx-rtmp-module/ngx_live_stat.c | 36 +++++++++++++++++++++--
 1 file changed, 34 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_live_stat.c b/modules/nginx-rtmp-module/ngx_live_stat.c
index 44a5f41..b0ba82e 100644
--- a/modules/nginx-rtmp-module/ngx_live_stat.c
+++ b/modules/nginx-rtmp-module/ngx_live_stat.c
@@ -31,12 +31,40 @@ ngx_live_stat_bw(cJSON *const obj,
 static char cstring_buffer[1024];
 inline static const char* CONVERT_CSTRING(ngx_str_t *ngx_str)
 {
+    u_char      *p, *q, *last, *next;
+    ngx_uint_t   valid;
+
     if (ngx_str->len == 0) {
         cstring_buffer[0] = '\0';
         return cstring_buffer;
     }
 
-    *ngx_snprintf((u_char *) cstring_buffer, 1023, "%V", ngx_str) = '\0';
+    last = ngx_snprintf((u_char *) cstring_buffer, 1023, "%V", ngx_str);
+    *last = '\0';
+
+    /* JSON is UTF-8 */
+    p = (u_char *) cstring_buffer;
+    while (p < last) {
+        if (*p < 0x80) {
+            p++;
+            continue;
+        }
+
+        next = p;
+        valid = ngx_utf8_decode(&next, last - p) <= 0x10ffff;
+
+        /* ngx_utf8_decode() takes any byte above 0x7f as a continuation */
+        for (q = p + 1; valid && q < next; q++) {
+            valid = (*q & 0xc0) == 0x80;
+        }
+
+        if (!valid) {
+            *p++ = ' ';
+            continue;
+        }
+
+        p = next;
+    }
 
     return cstring_buffer;
 }
@@ -134,6 +162,7 @@ ngx_live_stream_stat(cJSON *obj, ngx_live_server_t *srv)
     cJSON                          *meta, *video, *audio;
     cJSON                          *stream_in, *stream_out;
     cJSON                          *stream_video_in, *stream_audio_in;
+    ngx_str_t                       name;
 
     lcf = (ngx_live_conf_t *) ngx_get_conf(ngx_cycle->conf_ctx,
                                            ngx_live_module);
@@ -149,7 +178,10 @@ ngx_live_stream_stat(cJSON *obj, ngx_live_server_t *srv)
     for (n = 0; n < lcf->stream_buckets; ++n) {
         for (stream = srv->streams[n]; stream; stream = stream->next) {
             stream_item = cJSON_CreateObject();
-            cJSON_AddStringToObject(stream_item, "name", (char*) stream->name);
+            name.data = stream->name;
+            name.len = ngx_strlen(stream->name);
+            cJSON_AddStringToObject(stream_item, "name",
+                CONVERT_CSTRING(&name));
             cJSON_AddNumberToObject(stream_item, "time",
                 ngx_current_msec - stream->epoch);
 
-- 
2.43.0


From 26f8750c526f4647a60146609877b9ecebdfbef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:11 +0000
Subject: [PATCH 098/115] fix: sys_stat: every request leaked the whole page

---
 modules/nginx-rtmp-module/ngx_rtmp_sys_stat_module.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_sys_stat_module.c b/modules/nginx-rtmp-module/ngx_rtmp_sys_stat_module.c
index 96e36d9..828f97b 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_sys_stat_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_sys_stat_module.c
@@ -182,6 +182,7 @@ ngx_rtmp_sys_stat_handler(ngx_http_request_t *r)
     ngx_live_stat(live_stream);
 
     json_out = (u_char *) cJSON_Print(root);
+    cJSON_Delete(root);
 
     len = ngx_strlen(json_out);
 
-- 
2.43.0


From 72bf81f756c045784e30009a5c9dc605d179e3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:11 +0000
Subject: [PATCH 099/115] fix: stat: the answer to HEAD had a body, the body of
 a request was read as the next request

---
 modules/nginx-rtmp-module/ngx_rtmp_stat_module.c     | 12 +++++++++++-
 modules/nginx-rtmp-module/ngx_rtmp_sys_stat_module.c | 11 ++++++++++-
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_stat_module.c b/modules/nginx-rtmp-module/ngx_rtmp_stat_module.c
index 4663b8c..453cce1 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_stat_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_stat_module.c
@@ -646,6 +646,7 @@ ngx_rtmp_stat_handler(ngx_http_request_t *r)
     ngx_chain_t                    *cl, *l, **ll, ***lll;
     size_t                          n;
     off_t                           len;
+    ngx_int_t                       rc;
     static u_char                   tbuf[NGX_TIME_T_LEN];
     static u_char                   nbuf[NGX_INT_T_LEN];
 
@@ -654,6 +655,11 @@ ngx_rtmp_stat_handler(ngx_http_request_t *r)
         return NGX_DECLINED;
     }
 
+    rc = ngx_http_discard_request_body(r);
+    if (rc != NGX_OK) {
+        return rc;
+    }
+
     cl = NULL;
     ll = &cl;
     lll = &ll;
@@ -723,7 +729,11 @@ ngx_rtmp_stat_handler(ngx_http_request_t *r)
     ngx_str_set(&r->headers_out.content_type, "text/xml");
     r->headers_out.content_length_n = len;
     r->headers_out.status = NGX_HTTP_OK;
-    ngx_http_send_header(r);
+    rc = ngx_http_send_header(r);
+    if (rc == NGX_ERROR || rc > NGX_OK || r->header_only) {
+        return rc;
+    }
+
     (*ll)->buf->last_buf = 1;
     return ngx_http_output_filter(r, cl);
 }
diff --git a/modules/nginx-rtmp-module/ngx_rtmp_sys_stat_module.c b/modules/nginx-rtmp-module/ngx_rtmp_sys_stat_module.c
index 828f97b..8963baa 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_sys_stat_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_sys_stat_module.c
@@ -169,9 +169,18 @@ ngx_rtmp_sys_stat_handler(ngx_http_request_t *r)
     cJSON          *root;
     cJSON          *live_stream;
     u_char         *json_out;
+    ngx_int_t       rc;
+
+    rc = ngx_http_discard_request_body(r);
+    if (rc != NGX_OK) {
+        return rc;
+    }
 
     r->headers_out.status = NGX_HTTP_OK;
-    ngx_http_send_header(r);
+    rc = ngx_http_send_header(r);
+    if (rc == NGX_ERROR || rc > NGX_OK || r->header_only) {
+        return rc;
+    }
 
     root = cJSON_CreateObject();
     cJSON_AddNumberToObject(root, "ngx_worker", ngx_worker);
-- 
2.43.0


From 81581060292c1c6a0172e759ad0777936f293eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:11 +0000
Subject: [PATCH 100/115] fix: stat: a server id from a client was not escaped

---
 modules/nginx-rtmp-module/ngx_rtmp_stat_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_stat_module.c b/modules/nginx-rtmp-module/ngx_rtmp_stat_module.c
index 453cce1..cd4706a 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_stat_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_stat_module.c
@@ -712,7 +712,7 @@ ngx_rtmp_stat_handler(ngx_http_request_t *r)
             NGX_RTMP_STAT_L("<server>\r\n");
 
             NGX_RTMP_STAT_L("<serverid>");
-            NGX_RTMP_STAT(psrv->serverid, ngx_strlen(psrv->serverid));
+            NGX_RTMP_STAT_ECS(psrv->serverid);
             NGX_RTMP_STAT_L("</serverid>\r\n");
 
             ngx_rtmp_stat_live(r, lll, psrv);
-- 
2.43.0


From 54b6413b5e4f1632a6cd6b4e7ccd328f6713381b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:24 +0000
Subject: [PATCH 101/115] fix: codec: a codec header that came in several
 chunks was misread

---
 .../nginx-rtmp-module/ngx_rtmp_codec_module.c | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
index 6bfda37..c442c61 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_codec_module.c
@@ -216,6 +216,9 @@ ngx_rtmp_codec_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     u_char                              frametype;
     static ngx_uint_t                   sample_rates[] =
                                         { 5512, 11025, 22050, 44100 };
+    ngx_chain_t              *hl, cl;
+    ngx_buf_t                 hb;
+    static u_char             hbuf[8192];
 
     if (h->type != NGX_RTMP_MSG_AUDIO && h->type != NGX_RTMP_MSG_VIDEO) {
         return NGX_OK;
@@ -270,18 +273,30 @@ ngx_rtmp_codec_av(ngx_rtmp_session_t *s, ngx_rtmp_header_t *h,
     cacf = ngx_rtmp_get_module_app_conf(s, ngx_rtmp_core_module);
     header = NULL;
 
+    /* parsers read one buffer, a header may come in several chunks */
+    cl.buf = &hb;
+    cl.next = NULL;
+    hb.pos = hbuf;
+    hb.last = hbuf;
+
+    for (hl = in; hl; hl = hl->next) {
+        hb.last = ngx_cpymem(hb.last, hl->buf->pos,
+                             ngx_min(hl->buf->last - hl->buf->pos,
+                                     hbuf + sizeof(hbuf) - hb.last));
+    }
+
     if (h->type == NGX_RTMP_MSG_AUDIO) {
         if (ctx->audio_codec_id == NGX_RTMP_AUDIO_AAC) {
             header = &ctx->aac_header;
-            ngx_rtmp_codec_parse_aac_header(s, in);
+            ngx_rtmp_codec_parse_aac_header(s, &cl);
         }
     } else {
         if (ctx->video_codec_id == NGX_RTMP_VIDEO_H264) {
             header = &ctx->avc_header;
-            ngx_rtmp_codec_parse_avc_header(s, in);
+            ngx_rtmp_codec_parse_avc_header(s, &cl);
         } else if (ctx->video_codec_id == cacf->hevc_codec) {
             header = &ctx->avc_header;
-            ngx_rtmp_codec_parse_hevc_header(s, in);
+            ngx_rtmp_codec_parse_hevc_header(s, &cl);
         }
     }
 
-- 
2.43.0


From b04c3b2d35dd79675bfd28ae4d4156e18b7abd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:15 +0000
Subject: [PATCH 102/115] fix: control: addr was compared with the listening
 address, not the client's

---
 modules/nginx-rtmp-module/ngx_rtmp_control_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_control_module.c b/modules/nginx-rtmp-module/ngx_rtmp_control_module.c
index 4966ec5..1cf271d 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_control_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_control_module.c
@@ -273,7 +273,7 @@ ngx_rtmp_control_walk_session(ngx_http_request_t *r, ngx_rtmp_core_ctx_t *cctx)
     if (ngx_http_arg(r, (u_char *) "addr", sizeof("addr") - 1, &addr)
             == NGX_OK)
     {
-        paddr = s->addr_text;
+        paddr = &s->remote_addr_text;
         if (paddr->len != addr.len ||
                 ngx_strncmp(paddr->data, addr.data, addr.len))
         {
-- 
2.43.0


From b2296fb5cb12569214b21bbcdfcce696df5fbf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:29 +0000
Subject: [PATCH 103/115] fix: control: redirect left sessions neither under
 the old nor the new name

---
 modules/nginx-rtmp-module/ngx_rtmp_control_module.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_control_module.c b/modules/nginx-rtmp-module/ngx_rtmp_control_module.c
index 1cf271d..6072239 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_control_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_control_module.c
@@ -195,6 +195,13 @@ ngx_rtmp_control_redirect_handler(ngx_http_request_t *r, ngx_rtmp_session_t *s)
     /* close_stream should be synchronous */
     ngx_rtmp_close_stream_filter(s, &vc);
 
+    /* the session starts again under the new name */
+    s->published = 0;
+    s->played = 0;
+    ngx_str_null(&s->name);
+    ngx_str_null(&s->pargs);
+    ngx_str_null(&s->stream);
+
     lctx = ngx_rtmp_get_module_ctx(s, ngx_rtmp_live_module);
 
     if (lctx && lctx->publishing) {
-- 
2.43.0


From 8187b2dd9e926945b498eb61ae9a00df4e4d9cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:29 +0000
Subject: [PATCH 104/115] fix: control: name without app was ignored, every
 stream of the server was hit

---
 .../ngx_rtmp_control_module.c                 | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_control_module.c b/modules/nginx-rtmp-module/ngx_rtmp_control_module.c
index 6072239..3aac449 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_control_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_control_module.c
@@ -359,7 +359,7 @@ ngx_rtmp_control_walk_server(ngx_http_request_t *r, ngx_live_server_t *srv)
     ngx_live_conf_t            *lcf;
     ngx_live_stream_t          *st;
     ngx_str_t                   serverid, app, name, stream;
-    size_t                      n;
+    size_t                      n, len;
     const char                 *s;
     u_char                     *p;
 
@@ -370,9 +370,25 @@ ngx_rtmp_control_walk_server(ngx_http_request_t *r, ngx_live_server_t *srv)
         app.len = 0;
     }
 
+    if (ngx_http_arg(r, (u_char *) "name", sizeof("name") - 1, &name)
+            != NGX_OK)
+    {
+        name.len = 0;
+    }
+
     if (app.len == 0) {
         for (n = 0; n < lcf->stream_buckets; ++n) {
             for (st = srv->streams[n]; st; st = st->next) {
+                len = ngx_strlen(st->name);
+                if (name.len
+                    && (len <= name.len
+                        || st->name[len - name.len - 1] != '/'
+                        || ngx_memcmp(st->name + len - name.len, name.data,
+                                      name.len) != 0))
+                {
+                    continue;
+                }
+
                 s = ngx_rtmp_control_walk_stream(r, st);
                 if (s != NGX_CONF_OK) {
                     return s;
@@ -383,12 +399,6 @@ ngx_rtmp_control_walk_server(ngx_http_request_t *r, ngx_live_server_t *srv)
         return NGX_CONF_OK;
     }
 
-    if (ngx_http_arg(r, (u_char *) "name", sizeof("name") - 1, &name)
-            != NGX_OK)
-    {
-        name.len = 0;
-    }
-
     serverid.data = srv->serverid;
     serverid.len = ngx_strlen(srv->serverid);
 
-- 
2.43.0


From 54dc9314bb479b64edbaec25e7a9a7b6ccdd8ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:29 +0000
Subject: [PATCH 105/115] fix: control: a long app was compared beyond the name
 of a stream

---
 modules/nginx-rtmp-module/ngx_rtmp_control_module.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/nginx-rtmp-module/ngx_rtmp_control_module.c b/modules/nginx-rtmp-module/ngx_rtmp_control_module.c
index 3aac449..0a1aa87 100644
--- a/modules/nginx-rtmp-module/ngx_rtmp_control_module.c
+++ b/modules/nginx-rtmp-module/ngx_rtmp_control_module.c
@@ -415,7 +415,7 @@ ngx_rtmp_control_walk_server(ngx_http_request_t *r, ngx_live_server_t *srv)
     if (name.len == 0) {
         for (n = 0; n < lcf->stream_buckets; ++n) {
             for (st = srv->streams[n]; st; st = st->next) {
-                if (ngx_memcmp(stream.data, st->name, stream.len) == 0) {
+                if (ngx_strncmp(stream.data, st->name, stream.len) == 0) {
                     s = ngx_rtmp_control_walk_stream(r, st);
                     if (s != NGX_CONF_OK) {
                         return s;
-- 
2.43.0


From 3104a2087e0c8210022442f4ccc356bdb65f38a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:02 +0000
Subject: [PATCH 106/115] fix: ts: a request was never answered if its body
 came at once or its end alone

---
 modules/nginx-ts-module/src/ngx_http_ts_module.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-ts-module/src/ngx_http_ts_module.c b/modules/nginx-ts-module/src/ngx_http_ts_module.c
index 316cf61..0717e85 100644
--- a/modules/nginx-ts-module/src/ngx_http_ts_module.c
+++ b/modules/nginx-ts-module/src/ngx_http_ts_module.c
@@ -174,7 +174,10 @@ ngx_http_ts_init(ngx_http_request_t *r)
 
     if (r->reading_body) {
         r->read_event_handler = ngx_http_ts_read_event_handler;
+        return;
     }
+
+    ngx_http_finalize_request(r, NGX_HTTP_NO_CONTENT);
 }
 
 
@@ -202,7 +205,7 @@ ngx_http_ts_read_event_handler(ngx_http_request_t *r)
             return;
         }
 
-        if (rb->bufs == NULL) {
+        if (rb->bufs == NULL && rc != NGX_OK) {
             return;
         }
 
-- 
2.43.0


From 2714243afe612d41cbe78c6d02312b15de542d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:02 +0000
Subject: [PATCH 107/115] fix: ts: endless loop if a frame that fills its
 packets ends with a packet without payload

---
 modules/nginx-ts-module/src/ngx_ts_stream.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-ts-module/src/ngx_ts_stream.c b/modules/nginx-ts-module/src/ngx_ts_stream.c
index b778040..9007eb9 100644
--- a/modules/nginx-ts-module/src/ngx_ts_stream.c
+++ b/modules/nginx-ts-module/src/ngx_ts_stream.c
@@ -1340,7 +1340,10 @@ ngx_ts_packetize(ngx_ts_stream_t *ts, ngx_ts_header_t *h, ngx_chain_t *in)
             ip += n;
 
             if (ip == in->buf->last) {
-                in = in->next;
+                do {
+                    in = in->next;
+                } while (in && in->buf->pos == in->buf->last);
+
                 if (in == NULL) {
                     ngx_memset(p, '\xff', b->end - p);
                     break;
-- 
2.43.0


From 6082e4062fbbdd7db5393abfa7462ad534fb692f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:02 +0000
Subject: [PATCH 108/115] fix: ts: a frame got the clock reference of the next,
 or the flag of an unfinished one before

---
 modules/nginx-ts-module/src/ngx_ts_stream.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-ts-module/src/ngx_ts_stream.c b/modules/nginx-ts-module/src/ngx_ts_stream.c
index 9007eb9..337661b 100644
--- a/modules/nginx-ts-module/src/ngx_ts_stream.c
+++ b/modules/nginx-ts-module/src/ngx_ts_stream.c
@@ -731,11 +731,11 @@ ngx_ts_read_pes(ngx_ts_stream_t *ts, ngx_ts_program_t *prog, ngx_ts_es_t *es,
         }
     }
 
-    if (es->bufs == NULL) {
+    if (b && (es->bufs == NULL || h->pusi)) {
         es->rand = h->rand;
     }
 
-    if (h->pcrf && prog->pcr_pid == es->pid) {
+    if (b && h->pcrf && prog->pcr_pid == es->pid) {
         prog->pcr = h->pcr;
     }
 
-- 
2.43.0


From 70dcd50cbcd538e7b81b997305ad1231cd8f406d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:02 +0000
Subject: [PATCH 109/115] fix: ts: every update of the DASH playlist leaked it

---
 modules/nginx-ts-module/src/ngx_ts_dash.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/modules/nginx-ts-module/src/ngx_ts_dash.c b/modules/nginx-ts-module/src/ngx_ts_dash.c
index de8b55d..e76e200 100644
--- a/modules/nginx-ts-module/src/ngx_ts_dash.c
+++ b/modules/nginx-ts-module/src/ngx_ts_dash.c
@@ -953,6 +953,8 @@ ngx_ts_dash_update_playlist(ngx_ts_dash_t *dash)
         return NGX_ERROR;
     }
 
+    ngx_free(data);
+
     return NGX_OK;
 }
 
-- 
2.43.0


From 3be19663cf854121340032427e3651734e2f4f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:02 +0000
Subject: [PATCH 110/115] fix: ts: segments were never cut again after the time
 stamps wrapped

---
 modules/nginx-ts-module/src/ngx_ts_stream.c | 27 ++++++++++++++++++---
 modules/nginx-ts-module/src/ngx_ts_stream.h |  1 +
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/modules/nginx-ts-module/src/ngx_ts_stream.c b/modules/nginx-ts-module/src/ngx_ts_stream.c
index 337661b..39f4821 100644
--- a/modules/nginx-ts-module/src/ngx_ts_stream.c
+++ b/modules/nginx-ts-module/src/ngx_ts_stream.c
@@ -707,6 +707,23 @@ ngx_ts_read_pmt(ngx_ts_stream_t *ts, ngx_ts_program_t *prog, ngx_ts_header_t *h,
 }
 
 
+static uint64_t
+ngx_ts_unwrap(uint64_t v, uint64_t last)
+{
+    int64_t  d;
+
+    /* time stamps have 33 bits */
+
+    d = (v - last) & 0x1ffffffff;
+
+    if (d & 0x100000000) {
+        d -= 0x200000000;
+    }
+
+    return (d < 0 && (uint64_t) -d > last) ? v : last + d;
+}
+
+
 static ngx_int_t
 ngx_ts_read_pes(ngx_ts_stream_t *ts, ngx_ts_program_t *prog, ngx_ts_es_t *es,
     ngx_ts_header_t *h, ngx_buf_t *b)
@@ -845,8 +862,9 @@ ngx_ts_read_pes(ngx_ts_stream_t *ts, ngx_ts_program_t *prog, ngx_ts_es_t *es,
 
             pts |= v16 >> 1;
 
-            es->pts = pts;
-            es->dts = pts;
+            es->dts = ngx_ts_unwrap(pts, ts->time);
+            es->pts = es->dts;
+            ts->time = es->dts;
 
             ngx_log_debug1(NGX_LOG_DEBUG_CORE, ts->log, 0,
                            "ts pes pts:%uL", pts);
@@ -897,8 +915,9 @@ ngx_ts_read_pes(ngx_ts_stream_t *ts, ngx_ts_program_t *prog, ngx_ts_es_t *es,
 
             dts |= v16 >> 1;
 
-            es->pts = pts;
-            es->dts = dts;
+            es->dts = ngx_ts_unwrap(dts, ts->time);
+            es->pts = ngx_ts_unwrap(pts, es->dts);
+            ts->time = es->dts;
 
             ngx_log_debug2(NGX_LOG_DEBUG_CORE, ts->log, 0,
                            "ts pes pts:%uL, dts:%uL", pts, dts);
diff --git a/modules/nginx-ts-module/src/ngx_ts_stream.h b/modules/nginx-ts-module/src/ngx_ts_stream.h
index bd031ab..8ddebf8 100644
--- a/modules/nginx-ts-module/src/ngx_ts_stream.h
+++ b/modules/nginx-ts-module/src/ngx_ts_stream.h
@@ -69,6 +69,7 @@ typedef struct ngx_ts_handler_s  ngx_ts_handler_t;
 typedef struct {
     ngx_uint_t                    nprogs;
     ngx_ts_program_t             *progs;
+    uint64_t                      time;  /* last time stamp, unwrapped */
     ngx_log_t                    *log;
     ngx_pool_t                   *pool;
     ngx_buf_t                    *buf;
-- 
2.43.0


From ced50f03240b42724e3143ede803518c2c9cc3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:02 +0000
Subject: [PATCH 111/115] fix: ts: a segment closed at its size limit could get
 a negative duration

---
 modules/nginx-ts-module/src/ngx_ts_dash.c | 2 +-
 modules/nginx-ts-module/src/ngx_ts_hls.c  | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/modules/nginx-ts-module/src/ngx_ts_dash.c b/modules/nginx-ts-module/src/ngx_ts_dash.c
index e76e200..fbaeedb 100644
--- a/modules/nginx-ts-module/src/ngx_ts_dash.c
+++ b/modules/nginx-ts-module/src/ngx_ts_dash.c
@@ -781,7 +781,7 @@ ngx_ts_dash_close_segment(ngx_ts_dash_t *dash, ngx_ts_dash_rep_t *rep)
 
     seg = &rep->segs[rep->seg++ % rep->nsegs];
     seg->start = rep->seg_dts;
-    seg->duration = d;
+    seg->duration = ngx_max(d, 0);
 
     if (ngx_ts_dash_update_playlist(dash) != NGX_OK) {
         return NGX_ERROR;
diff --git a/modules/nginx-ts-module/src/ngx_ts_hls.c b/modules/nginx-ts-module/src/ngx_ts_hls.c
index 8ce47e7..d429756 100644
--- a/modules/nginx-ts-module/src/ngx_ts_hls.c
+++ b/modules/nginx-ts-module/src/ngx_ts_hls.c
@@ -370,6 +370,7 @@ ngx_ts_hls_close_segment(ngx_ts_hls_t *hls, ngx_ts_hls_variant_t *var,
 {
     off_t                  max_size;
     int64_t                d, min_seg, max_seg;
+    ngx_uint_t             i;
     ngx_ts_stream_t       *ts;
     ngx_ts_hls_segment_t  *seg;
 
@@ -397,6 +398,10 @@ ngx_ts_hls_close_segment(ngx_ts_hls_t *hls, ngx_ts_hls_variant_t *var,
         ngx_log_error(NGX_LOG_WARN, ts->log, 0,
                       "closing HLS segment \"%s\" on size limit",
                       var->file.name.data);
+
+        for (i = 0; i < var->prog->nes; i++) {
+            d = ngx_max(d, (int64_t) (var->prog->es[i].dts - var->seg_dts));
+        }
     }
 
     ngx_log_debug1(NGX_LOG_DEBUG_CORE, ts->log, 0,
-- 
2.43.0


From 5d5950853135d322850a2941398283e1b134c528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:02 +0000
Subject: [PATCH 112/115] fix: ts: HLS segments could be longer than the target
 duration

---
 modules/nginx-ts-module/src/ngx_ts_hls.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/nginx-ts-module/src/ngx_ts_hls.c b/modules/nginx-ts-module/src/ngx_ts_hls.c
index d429756..ba5adba 100644
--- a/modules/nginx-ts-module/src/ngx_ts_hls.c
+++ b/modules/nginx-ts-module/src/ngx_ts_hls.c
@@ -487,6 +487,7 @@ ngx_ts_hls_update_playlist(ngx_ts_hls_t *hls, ngx_ts_hls_variant_t *var)
 
     ms = var->seg <= var->nsegs ? 0 : var->seg - var->nsegs;
     td = (hls->conf->max_seg + 999) / 1000;
+    td = ngx_max(td, (maxd + 45000) / 90000);
 
     p = ngx_sprintf(p, "#EXTM3U\n"
                        "#EXT-X-VERSION:3\n"
-- 
2.43.0


From 85da9f7a9616637d5cb67c513bb805b5859d44fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:02 +0000
Subject: [PATCH 113/115] fix: ts: picture sizes were misread, scaling lists
 refused, a broken header looped

---
 modules/nginx-ts-module/src/ngx_ts_avc.c | 63 +++++++++++++++++++++---
 1 file changed, 56 insertions(+), 7 deletions(-)

diff --git a/modules/nginx-ts-module/src/ngx_ts_avc.c b/modules/nginx-ts-module/src/ngx_ts_avc.c
index 6d22eed..8c75ba5 100644
--- a/modules/nginx-ts-module/src/ngx_ts_avc.c
+++ b/modules/nginx-ts-module/src/ngx_ts_avc.c
@@ -125,7 +125,10 @@ ngx_ts_avc_decode_params(ngx_ts_stream_t *ts, u_char *sps, size_t sps_len,
      * 7.3.2.1 Sequence parameter set RBSP syntax, p. 31
      */
 
-    ngx_uint_t            type, n, i;
+    u_char               *rbsp;
+    size_t                len;
+    int64_t               v;
+    ngx_uint_t            type, n, i, j, size, last, crop_x, crop_y;
     ngx_ts_avc_reader_t   br;
     ngx_ts_avc_params_t  *avc;
 
@@ -136,7 +139,24 @@ ngx_ts_avc_decode_params(ngx_ts_stream_t *ts, u_char *sps, size_t sps_len,
         return NULL;
     }
 
-    ngx_ts_avc_init_reader(&br, sps, sps_len, ts->log);
+    rbsp = ngx_pnalloc(ts->pool, sps_len);
+    if (rbsp == NULL) {
+        return NULL;
+    }
+
+    /* emulation_prevention_three_byte */
+
+    for (len = 0, n = 0, i = 0; i < sps_len; i++) {
+        if (n >= 2 && sps[i] == 3) {
+            n = 0;
+            continue;
+        }
+
+        n = sps[i] ? 0 : n + 1;
+        rbsp[len++] = sps[i];
+    }
+
+    ngx_ts_avc_init_reader(&br, rbsp, len, ts->log);
 
     br.name = "nalu_type";
     type = ngx_ts_avc_read(&br, 8);
@@ -156,6 +176,8 @@ ngx_ts_avc_decode_params(ngx_ts_stream_t *ts, u_char *sps, size_t sps_len,
     br.name = "seq_parameter_set_id";
     avc->sps_id = ngx_ts_avc_read_golomb(&br);
 
+    avc->chroma_format_idc = 1;
+
     if (avc->profile_idc == 100
         || avc->profile_idc == 110
         || avc->profile_idc == 122
@@ -196,8 +218,22 @@ ngx_ts_avc_decode_params(ngx_ts_stream_t *ts, u_char *sps, size_t sps_len,
 
             for (i = 0; i < n; i++) {
                 br.name = "seq_scaling_list_present_flag[i]";
-                if (ngx_ts_avc_read(&br, 1)) {
-                    goto failed;
+                if (ngx_ts_avc_read(&br, 1) == 0) {
+                    continue;
+                }
+
+                size = i < 6 ? 16 : 64;
+                last = 8;
+
+                for (j = 0; j < size && !br.err; j++) {
+                    br.name = "delta_scale";
+                    v = ngx_ts_avc_read_golomb(&br);
+                    v = (v & 1) ? (v + 1) / 2 : -(v / 2);
+                    last = (ngx_uint_t) (last + v) & 0xff;
+
+                    if (last == 0) {
+                        break;
+                    }
                 }
             }
         }
@@ -226,7 +262,7 @@ ngx_ts_avc_decode_params(ngx_ts_stream_t *ts, u_char *sps, size_t sps_len,
         br.name = "num_ref_frames_in_pic_order_cnt_cycle";
         n = ngx_ts_avc_read_golomb(&br);
 
-        for (i = 0; i < n; i++) {
+        for (i = 0; i < n && !br.err; i++) {
             br.name = "offset_for_ref_frame[i]";
             (void) ngx_ts_avc_read_golomb(&br);
         }
@@ -276,13 +312,26 @@ ngx_ts_avc_decode_params(ngx_ts_stream_t *ts, u_char *sps, size_t sps_len,
         goto failed;
     }
 
+    crop_x = 1;
+    crop_y = 2 - avc->frame_mbs_only_flag;
+
+    if (avc->chroma_format_idc == 1 || avc->chroma_format_idc == 2) {
+        crop_x = 2;
+    }
+
+    if (avc->chroma_format_idc == 1) {
+        crop_y *= 2;
+    }
+
     avc->width =
             avc->pic_width_in_mbs * 16
-            - (avc->frame_crop_left_offset + avc->frame_crop_right_offset) * 2;
+            - (avc->frame_crop_left_offset + avc->frame_crop_right_offset)
+              * crop_x;
 
     avc->height =
             (2 - avc->frame_mbs_only_flag) * avc->pic_height_in_map_units * 16
-            - (avc->frame_crop_top_offset + avc->frame_crop_bottom_offset) * 2;
+            - (avc->frame_crop_top_offset + avc->frame_crop_bottom_offset)
+              * crop_y;
 
     ngx_log_debug2(NGX_LOG_DEBUG_CORE, ts->log, 0,
                    "ts avc width:%ui, height:%ui", avc->width, avc->height);
-- 
2.43.0


From fdd45a4052df7bb74c78881a538a5f8487486de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:49 +0000
Subject: [PATCH 114/115] fix: ts: the audio sample entry said a sample rate of
 1 Hz

---
 modules/nginx-ts-module/src/ngx_ts_dash_mp4.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/nginx-ts-module/src/ngx_ts_dash_mp4.c b/modules/nginx-ts-module/src/ngx_ts_dash_mp4.c
index 6ed34fa..f20daac 100644
--- a/modules/nginx-ts-module/src/ngx_ts_dash_mp4.c
+++ b/modules/nginx-ts-module/src/ngx_ts_dash_mp4.c
@@ -854,8 +854,9 @@ ngx_ts_dash_box_audio(ngx_buf_t *b, ngx_ts_dash_rep_t *rep)
     /* pre_defined, reserved */
     ngx_ts_dash_write32(b, 0);
 
-    /* XXX samplerate */
-    ngx_ts_dash_write32(b, 90000);
+    /* samplerate, 16.16 */
+    ngx_ts_dash_write32(b, (rep->aac && rep->aac->freq < 65536)
+                           ? (uint32_t) rep->aac->freq << 16 : 0);
 
     ngx_ts_dash_box_esds(b, rep);
 
-- 
2.43.0


From 58f5c0c631fc41a12c0e8ef3310acaa5407bb4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:57 +0000
Subject: [PATCH 115/115] fix: ts: a request hung if its body had come but did
 not fit in the buffer

---
 modules/nginx-ts-module/src/ngx_http_ts_module.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/modules/nginx-ts-module/src/ngx_http_ts_module.c b/modules/nginx-ts-module/src/ngx_http_ts_module.c
index 0717e85..ba417d0 100644
--- a/modules/nginx-ts-module/src/ngx_http_ts_module.c
+++ b/modules/nginx-ts-module/src/ngx_http_ts_module.c
@@ -173,7 +173,12 @@ ngx_http_ts_init(ngx_http_request_t *r)
     }
 
     if (r->reading_body) {
+        rb->bufs = NULL;
+
         r->read_event_handler = ngx_http_ts_read_event_handler;
+
+        /* what did not fit in the buffer may be waiting already */
+        ngx_http_ts_read_event_handler(r);
         return;
     }
 
-- 
2.43.0

