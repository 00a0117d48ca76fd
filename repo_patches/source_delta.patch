From 7d5047b3b3ca932d4cef7c925053e1cb4eaf8c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:09 +0000
Subject: [PATCH 01/33] fix: compare pointers without truncating their
 difference to int

---
 src/cmp.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cmp.c b/src/cmp.c
index 76d9f77..22298ff 100644
--- a/src/cmp.c
+++ b/src/cmp.c
@@ -58,7 +58,9 @@ const a0_hash_t A0_HASH_PTR = {
 
 a0_err_t a0_cmp_ptr_fn(void* user_data, const void* lhs, const void* rhs, int* out) {
   A0_MAYBE_UNUSED(user_data);
-  *out = (int)(*(uintptr_t*)lhs - *(uintptr_t*)rhs);
+  uintptr_t lhs_ptr = *(uintptr_t*)lhs;
+  uintptr_t rhs_ptr = *(uintptr_t*)rhs;
+  *out = (lhs_ptr > rhs_ptr) - (lhs_ptr < rhs_ptr);
   return A0_OK;
 }
 
-- 
2.43.0


From 22fbba864b3a16e685c369fdcb155d10c5a7b0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:09 +0000
Subject: [PATCH 02/33] fix: compare buffer sizes without truncating them to
 int

---
 src/cmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmp.c b/src/cmp.c
index 22298ff..fce9483 100644
--- a/src/cmp.c
+++ b/src/cmp.c
@@ -95,7 +95,7 @@ a0_err_t a0_cmp_buf_fn(void* user_data, const void* lhs, const void* rhs, int* o
   a0_buf_t* lhs_buf = (a0_buf_t*)lhs;
   a0_buf_t* rhs_buf = (a0_buf_t*)rhs;
   if (lhs_buf->size != rhs_buf->size) {
-    *out = (int)(lhs_buf->size) - (int)(rhs_buf->size);
+    *out = (lhs_buf->size > rhs_buf->size) - (lhs_buf->size < rhs_buf->size);
   } else {
     *out = memcmp(lhs_buf->data, rhs_buf->data, lhs_buf->size);
   }
-- 
2.43.0


From 9e8d000014bdb73c8ed16ef1b1c85cb470e2b8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:27:09 +0000
Subject: [PATCH 03/33] fix: hash ids with bytes above 127 without reading past
 the table

---
 src/cmp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmp.c b/src/cmp.c
index fce9483..cfcc470 100644
--- a/src/cmp.c
+++ b/src/cmp.c
@@ -142,7 +142,7 @@ const a0_cmp_t A0_CMP_STR = {
 //////////////////
 
 // clang-format off
-static const uint8_t UNHEX_VALUES[] = {
+static const uint8_t UNHEX_VALUES[256] = {
     0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,
     0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,
     0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,  0,
-- 
2.43.0


From dbbc3e0d05ca6cd25f41ad4f5986c5ced5cd3b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:26 +0000
Subject: [PATCH 04/33] fix: return allocator errors from packet serialize,
 deserialize and deep copy

---
 src/packet.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/packet.c b/src/packet.c
index eb14424..459dd81 100644
--- a/src/packet.c
+++ b/src/packet.c
@@ -85,7 +85,7 @@ a0_err_t a0_packet_serialize(a0_packet_t pkt, a0_alloc_t alloc, a0_flat_packet_t
   a0_packet_stats_t stats;
   A0_RETURN_ERR_ON_ERR(a0_packet_stats(pkt, &stats));
 
-  a0_alloc(alloc, stats.serial_size, out);
+  A0_RETURN_ERR_ON_ERR(a0_alloc(alloc, stats.serial_size, out));
 
   // Write pointer into index.
   size_t idx_off = 0;
@@ -147,7 +147,7 @@ a0_err_t a0_packet_deserialize(a0_flat_packet_t fpkt, a0_alloc_t alloc, a0_packe
   a0_packet_stats_t stats;
   a0_flat_packet_stats(fpkt, &stats);
 
-  a0_alloc(alloc, stats.num_hdrs * sizeof(a0_packet_header_t) + stats.content_size, out_buf);
+  A0_RETURN_ERR_ON_ERR(a0_alloc(alloc, stats.num_hdrs * sizeof(a0_packet_header_t) + stats.content_size, out_buf));
 
   uint8_t* write_ptr = out_buf->data;
   out_pkt->headers_block.headers = (a0_packet_header_t*)write_ptr;
@@ -193,9 +193,10 @@ a0_err_t a0_packet_deep_copy(a0_packet_t in, a0_alloc_t alloc, a0_packet_t* out_
   a0_packet_stats_t stats;
   A0_RETURN_ERR_ON_ERR(a0_packet_stats(in, &stats));
 
-  a0_alloc(alloc,
-           stats.num_hdrs * sizeof(a0_packet_header_t) + stats.content_size,
-           out_buf);
+  A0_RETURN_ERR_ON_ERR(a0_alloc(
+      alloc,
+      stats.num_hdrs * sizeof(a0_packet_header_t) + stats.content_size,
+      out_buf));
 
   out_pkt->headers_block.headers = (a0_packet_header_t*)out_buf->data;
   out_pkt->headers_block.size = stats.num_hdrs;
-- 
2.43.0


From 078b658c37c28a8d85310ea559924674c4e1bcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:06:26 +0000
Subject: [PATCH 05/33] fix: report packets that could not be written instead
 of committing nothing

---
 src/writer.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/writer.c b/src/writer.c
index d539303..80559d4 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -95,12 +95,14 @@ a0_err_t a0_write_action_process_locked(void* user_data, a0_transport_locked_t t
 
   a0_alloc_t alloc;
   a0_transport_allocator(&tlk, &alloc);
-  a0_packet_serialize(*pkt, alloc, NULL);
+  a0_err_t err = a0_packet_serialize(*pkt, alloc, NULL);
 
-  a0_transport_commit(tlk);
+  if (!err) {
+    a0_transport_commit(tlk);
+  }
   a0_transport_unlock(tlk);
 
-  return A0_OK;
+  return err;
 }
 
 a0_err_t a0_writer_init(a0_writer_t* w, a0_arena_t arena) {
-- 
2.43.0


From 6696879b99284b9dd7d645a6a097902d43fb8883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:34 +0000
Subject: [PATCH 06/33] fix: refuse path patterns deeper than the part array

---
 src/pathglob.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pathglob.c b/src/pathglob.c
index 3bc738a..f9b0714 100644
--- a/src/pathglob.c
+++ b/src/pathglob.c
@@ -35,6 +35,11 @@ a0_err_t a0_pathglob_init(a0_pathglob_t* glob, const char* path_pattern) {
           type = A0_PATHGLOB_PART_TYPE_RECURSIVE;
         }
       }
+      // Leave room for the last part.
+      if (glob->depth + 1 == A0_PATHGLOB_MAX_DEPTH) {
+        a0_pathglob_close(glob);
+        return A0_ERR_BAD_PATH;
+      }
       glob->parts[glob->depth++] = (a0_pathglob_part_t){
           (a0_buf_t){recent_slash + 1, iter - recent_slash - 1},
           type,
-- 
2.43.0


From 4fd75e092ad954395e3e9e2da084f2cf508a05cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:16 +0000
Subject: [PATCH 07/33] fix: refuse transport allocations whose size overflows

A size close to SIZE_MAX wrapped around when the frame header size was
added.  The allocation then succeeded and handed out a frame that does
not fit in the arena.
---
 src/transport.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/transport.c b/src/transport.c
index af9b36a..1ca2c80 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -615,6 +615,10 @@ void a0_transport_update_high_water_mark(a0_transport_locked_t lk,
 }
 
 a0_err_t a0_transport_alloc_evicts(a0_transport_locked_t lk, size_t size, bool* out) {
+  if (size > a0_transport_header(lk)->arena_size) {
+    // Also keeps the offset arithmetic below from overflowing.
+    return A0_ERR_FRAME_LARGE;
+  }
   size_t frame_size = sizeof(a0_transport_frame_hdr_t) + size;
 
   size_t off;
@@ -628,6 +632,10 @@ a0_err_t a0_transport_alloc(a0_transport_locked_t lk, size_t size, a0_transport_
   if (lk.transport->_arena.mode == A0_ARENA_MODE_READONLY) {
     return A0_MAKE_SYSERR(EPERM);
   }
+  if (size > a0_transport_header(lk)->arena_size) {
+    // Also keeps the offset arithmetic below from overflowing.
+    return A0_ERR_FRAME_LARGE;
+  }
   size_t frame_size = sizeof(a0_transport_frame_hdr_t) + size;
 
   size_t off;
-- 
2.43.0


From 7e602ca6a3d26965cfca4011341eb10486145645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:06:58 +0000
Subject: [PATCH 08/33] fix: use the room that ends exactly at the end of the
 arena

A message that fitted exactly between the newest message and the end of
the arena was placed at the start instead, discarding old messages
although there was room.
---
 src/transport.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transport.c b/src/transport.c
index 1ca2c80..7bb87d9 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -518,7 +518,7 @@ a0_err_t a0_transport_find_slot(a0_transport_locked_t lk, size_t frame_size, siz
     *off = a0_transport_workspace_off();
   } else {
     *off = a0_max_align(a0_transport_frame_end(lk, state->off_tail));
-    if (*off + frame_size >= hdr->arena_size) {
+    if (*off + frame_size > hdr->arena_size) {
       *off = a0_transport_workspace_off();
     }
   }
-- 
2.43.0


From e2407c7d5d078bc7f35f81d0e757fd77e98ab51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:08:09 +0000
Subject: [PATCH 09/33] fix: bounds checks of a0_transport_jump

The comparisons overflowed for large offsets and recorded sizes, so a
jump could leave the arena.  They also rejected a live message that ends
exactly at the end of the arena.
---
 src/transport.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/transport.c b/src/transport.c
index 7bb87d9..f1b3721 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -239,12 +239,18 @@ a0_err_t a0_transport_jump(a0_transport_locked_t lk, size_t off) {
   }
 
   a0_transport_hdr_t* hdr = a0_transport_header(lk);
-  if (off + sizeof(a0_transport_frame_hdr_t) >= hdr->arena_size) {
+  // Only a message may end exactly at the end of the arena.
+  size_t end = hdr->arena_size;
+  if (a0_transport_working_page(lk)->high_water_mark < end) {
+    end--;
+  }
+
+  if (off > end || end - off < sizeof(a0_transport_frame_hdr_t)) {
     return A0_ERR_RANGE;
   }
 
   a0_transport_frame_hdr_t* frame_hdr = a0_transport_frame_header(lk, off);
-  if (off + sizeof(a0_transport_frame_hdr_t) + frame_hdr->data_size >= hdr->arena_size) {
+  if (frame_hdr->data_size > end - off - sizeof(a0_transport_frame_hdr_t)) {
     return A0_ERR_RANGE;
   }
 
-- 
2.43.0


From e80bbe690de11fef0e00dbbab33f9f492a3ddb9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:08:10 +0000
Subject: [PATCH 10/33] fix: hide uncommitted messages in exclusive and
 read-only mode

Taking the lock discards allocations that were never committed, but only
did so in shared mode.  In the other modes an abandoned allocation, or
one left behind by a process that died, showed up as a message.
---
 src/transport.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/transport.c b/src/transport.c
index f1b3721..d23f092 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -72,6 +72,10 @@ a0_transport_state_t* a0_transport_committed_page(a0_transport_locked_t lk) {
 
 A0_STATIC_INLINE
 a0_transport_state_t* a0_transport_working_page(a0_transport_locked_t lk) {
+  // The working page may hold incomplete changes, which a read-only user cannot clear.
+  if (lk.transport->_arena.mode == A0_ARENA_MODE_READONLY) {
+    return a0_transport_committed_page(lk);
+  }
   a0_transport_hdr_t* hdr = a0_transport_header(lk);
   return &hdr->state_pages[!hdr->committed_page_idx];
 }
@@ -188,14 +192,16 @@ a0_err_t a0_transport_shutdown_requested(a0_transport_locked_t lk, bool* out) {
 a0_err_t a0_transport_lock(a0_transport_t* transport, a0_transport_locked_t* lk_out) {
   lk_out->transport = transport;
 
-  if (transport->_arena.mode != A0_ARENA_MODE_SHARED) {
+  if (transport->_arena.mode == A0_ARENA_MODE_READONLY) {
     return A0_OK;
   }
 
-  a0_transport_hdr_t* hdr = a0_transport_header(*lk_out);
+  if (transport->_arena.mode == A0_ARENA_MODE_SHARED) {
+    a0_transport_hdr_t* hdr = a0_transport_header(*lk_out);
 
-  a0_err_t prior_owner_died = a0_mtx_lock(&hdr->mtx);
-  A0_MAYBE_UNUSED(prior_owner_died);
+    a0_err_t prior_owner_died = a0_mtx_lock(&hdr->mtx);
+    A0_MAYBE_UNUSED(prior_owner_died);
+  }
 
   // Clear any incomplete changes.
   *a0_transport_working_page(*lk_out) = *a0_transport_committed_page(*lk_out);
-- 
2.43.0


From c0b010219fe61022d0a52fe1daf00b84dcc3e82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:10:11 +0000
Subject: [PATCH 11/33] fix: discard incomplete changes after waiting on a
 transport

A wait gives up the lock and takes it again.  If the process that held it
in between died after allocating and before committing, its message was
visible to the waiter.
---
 src/transport.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/transport.c b/src/transport.c
index d23f092..8389a74 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -180,6 +180,8 @@ a0_err_t a0_transport_shutdown(a0_transport_locked_t lk) {
 
   while (lk.transport->_wait_cnt) {
     a0_cnd_wait(&hdr->cnd, &hdr->mtx);
+    // Clear any incomplete changes.
+    *a0_transport_working_page(lk) = *a0_transport_committed_page(lk);
   }
   return A0_OK;
 }
@@ -379,6 +381,8 @@ a0_err_t a0_transport_timedwait(a0_transport_locked_t lk, a0_predicate_t pred, a
 
   while (!lk.transport->_shutdown) {
     err = a0_cnd_timedwait(&hdr->cnd, &hdr->mtx, timeout);
+    // Clear any incomplete changes.
+    *a0_transport_working_page(lk) = *a0_transport_committed_page(lk);
     if (A0_SYSERR(err) == ETIMEDOUT) {
       break;
     }
-- 
2.43.0


From 9e0524f8e2f02512888ebfd83239be5b2248808b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:11:38 +0000
Subject: [PATCH 12/33] fix: keep numbering gapless when clearing after an
 uncommitted allocation

The number of an allocation that was never committed was used up by the
clear.
---
 src/transport.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/transport.c b/src/transport.c
index 8389a74..18d89f8 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -725,6 +725,8 @@ a0_err_t a0_transport_resize(a0_transport_locked_t lk, size_t arena_size) {
 
 a0_err_t a0_transport_clear(a0_transport_locked_t lk) {
   a0_transport_state_t* state = a0_transport_working_page(lk);
+  // Clear any incomplete changes.
+  *state = *a0_transport_committed_page(lk);
   state->seq_low = state->seq_high + 1;
   state->off_head = 0;
   state->off_tail = 0;
-- 
2.43.0


From 938240b13432b63e2dfa015bcbce0cef81716371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:11 +0000
Subject: [PATCH 13/33] fix: report packets that a sync reader could not copy

---
 src/reader.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 5bcd239..8bb89bc 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -251,6 +251,7 @@ a0_err_t a0_reader_sync_can_read(a0_reader_sync_t* reader_sync, bool* can_read)
 typedef struct a0_reader_sync_read_data_s {
   a0_alloc_t alloc;
   a0_packet_t* out_pkt;
+  a0_err_t err;
 } a0_reader_sync_read_data_t;
 
 A0_STATIC_INLINE
@@ -258,7 +259,7 @@ void a0_reader_sync_read_impl(void* user_data, a0_transport_locked_t tlk, a0_fla
   A0_MAYBE_UNUSED(tlk);
   a0_reader_sync_read_data_t* data = (a0_reader_sync_read_data_t*)user_data;
   a0_buf_t unused;
-  a0_packet_deserialize(fpkt, data->alloc, data->out_pkt, &unused);
+  data->err = a0_packet_deserialize(fpkt, data->alloc, data->out_pkt, &unused);
 }
 
 a0_err_t a0_reader_sync_read(a0_reader_sync_t* reader_sync, a0_packet_t* pkt) {
@@ -267,12 +268,14 @@ a0_err_t a0_reader_sync_read(a0_reader_sync_t* reader_sync, a0_packet_t* pkt) {
   a0_reader_sync_read_data_t data = (a0_reader_sync_read_data_t){
       .alloc = reader_sync->_alloc,
       .out_pkt = pkt,
+      .err = A0_OK,
   };
   a0_zero_copy_callback_t zc_cb = (a0_zero_copy_callback_t){
       .user_data = &data,
       .fn = a0_reader_sync_read_impl,
   };
-  return a0_reader_sync_zc_read(&reader_sync->_reader_sync_zc, zc_cb);
+  A0_RETURN_ERR_ON_ERR(a0_reader_sync_zc_read(&reader_sync->_reader_sync_zc, zc_cb));
+  return data.err;
 }
 
 a0_err_t a0_reader_sync_read_blocking(a0_reader_sync_t* reader_sync, a0_packet_t* pkt) {
@@ -285,12 +288,14 @@ a0_err_t a0_reader_sync_read_blocking_timeout(a0_reader_sync_t* reader_sync, a0_
   a0_reader_sync_read_data_t data = (a0_reader_sync_read_data_t){
       .alloc = reader_sync->_alloc,
       .out_pkt = pkt,
+      .err = A0_OK,
   };
   a0_zero_copy_callback_t zc_cb = (a0_zero_copy_callback_t){
       .user_data = &data,
       .fn = a0_reader_sync_read_impl,
   };
-  return a0_reader_sync_zc_read_blocking_timeout(&reader_sync->_reader_sync_zc, timeout, zc_cb);
+  A0_RETURN_ERR_ON_ERR(a0_reader_sync_zc_read_blocking_timeout(&reader_sync->_reader_sync_zc, timeout, zc_cb));
+  return data.err;
 }
 
 // Threaded zero-copy version.
-- 
2.43.0


From d1add1591657d9e801ee47a3f4e8fe061e27908b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:23 +0000
Subject: [PATCH 14/33] fix: skip the callback for packets that a threaded
 reader could not copy

---
 src/reader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index 8bb89bc..8eee694 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -442,7 +442,9 @@ void a0_reader_onpacket_wrapper(void* user_data, a0_transport_locked_t tlk, a0_f
   a0_reader_t* reader = (a0_reader_t*)user_data;
   a0_packet_t pkt;
   a0_buf_t buf;
-  a0_packet_deserialize(fpkt, reader->_alloc, &pkt, &buf);
+  if (a0_packet_deserialize(fpkt, reader->_alloc, &pkt, &buf) != A0_OK) {
+    return;
+  }
   a0_transport_unlock(tlk);
 
   a0_packet_callback_call(reader->_onpacket, pkt);
-- 
2.43.0


From b18224276032e6e38f76338c2f49db5e9cbfc5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:35 +0000
Subject: [PATCH 15/33] fix: detect a threaded reader being closed from its own
 callback

---
 src/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index 8eee694..6802610 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -418,7 +418,7 @@ a0_err_t a0_reader_zc_init(a0_reader_zc_t* reader_zc,
 
 a0_err_t a0_reader_zc_close(a0_reader_zc_t* reader_zc) {
   a0_event_wait(&reader_zc->_thread_start_event);
-  if (pthread_equal(pthread_self(), reader_zc->_thread_id)) {
+  if (a0_tid() == reader_zc->_thread_id) {
     return A0_MAKE_SYSERR(EDEADLK);
   }
 #ifdef DEBUG
-- 
2.43.0


From dcaf75d684da179ed506497c1cfcad632ee8a107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:47 +0000
Subject: [PATCH 16/33] fix: end a transport wait whose timeout is not usable

---
 src/transport.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transport.c b/src/transport.c
index 18d89f8..05de954 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -383,7 +383,8 @@ a0_err_t a0_transport_timedwait(a0_transport_locked_t lk, a0_predicate_t pred, a
     err = a0_cnd_timedwait(&hdr->cnd, &hdr->mtx, timeout);
     // Clear any incomplete changes.
     *a0_transport_working_page(lk) = *a0_transport_committed_page(lk);
-    if (A0_SYSERR(err) == ETIMEDOUT) {
+    if (!a0_mtx_lock_successful(err)) {
+      // Timed out, or the timeout is not usable.
       break;
     }
 
-- 
2.43.0


From fc74491ab7dfd199bac452ded69aea519e7a1437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:58 +0000
Subject: [PATCH 17/33] fix: compare transport timeouts without overflowing

---
 src/transport.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/transport.c b/src/transport.c
index 05de954..e078ed0 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -356,10 +356,10 @@ bool a0_transport_timedwait_istimeout(a0_time_mono_t* timeout) {
   a0_time_mono_t now;
   a0_time_mono_now(&now);
 
-  uint64_t now_ns = now.ts.tv_sec * NS_PER_SEC + now.ts.tv_nsec;
-  uint64_t timeout_ns = timeout->ts.tv_sec * NS_PER_SEC + timeout->ts.tv_nsec;
-
-  return now_ns >= timeout_ns;
+  if (now.ts.tv_sec != timeout->ts.tv_sec) {
+    return now.ts.tv_sec > timeout->ts.tv_sec;
+  }
+  return now.ts.tv_nsec >= timeout->ts.tv_nsec;
 }
 
 a0_err_t a0_transport_timedwait(a0_transport_locked_t lk, a0_predicate_t pred, a0_time_mono_t* timeout) {
-- 
2.43.0


From 6ea5227126e50ed264e30550e2c58702201ab73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:34:06 +0000
Subject: [PATCH 18/33] fix: keep reporting a condition wait timeout after an
 owner death

---
 src/mtx.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mtx.c b/src/mtx.c
index 536fc47..775ac57 100644
--- a/src/mtx.c
+++ b/src/mtx.c
@@ -163,6 +163,7 @@ a0_err_t a0_cnd_timedwait(a0_cnd_t* cnd, a0_mtx_t* mtx, a0_time_mono_t* timeout)
   // Note: We keep the timeout error.
   if (A0_SYSERR(err) == ETIMEDOUT) {
     a0_mtx_timedlock_robust(mtx, A0_TIMEOUT_NEVER);
+    err = A0_MAKE_SYSERR(ETIMEDOUT);
   }
 
   // Someone else grabbed and mutated the resource between the unlock and wait.
-- 
2.43.0


From 781ce09585fb9f0788adb441e58b06d9638843fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:49:39 +0000
Subject: [PATCH 19/33] fix: convert far away and early deadlines between
 clocks without overflowing

---
 src/clock.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/clock.h b/src/clock.h
index 6369205..f514590 100644
--- a/src/clock.h
+++ b/src/clock.h
@@ -49,8 +49,17 @@ a0_err_t a0_clock_convert(
   timespec_t target_now;
   A0_RETURN_ERR_ON_ERR(a0_clock_now(target_clk, &target_now));
 
-  int64_t add_nsec = (orig_ts.tv_sec - orig_now.tv_sec) * NS_PER_SEC + (orig_ts.tv_nsec - orig_now.tv_nsec);
-  return a0_clock_add(target_now, add_nsec, target_ts);
+  // The seconds are handled separately: a far away time does not fit in nanoseconds.
+  A0_RETURN_ERR_ON_ERR(a0_clock_add(target_now, orig_ts.tv_nsec - orig_now.tv_nsec, target_ts));
+  if (__builtin_add_overflow(target_ts->tv_sec, orig_ts.tv_sec - orig_now.tv_sec, &target_ts->tv_sec)) {
+    target_ts->tv_sec = INT64_MAX;
+  }
+  // Times before the target clock started have no representation other than its start.
+  if (target_ts->tv_sec < 0) {
+    target_ts->tv_sec = 0;
+    target_ts->tv_nsec = 0;
+  }
+  return A0_OK;
 }
 
 #ifdef __cplusplus
-- 
2.43.0


From b8f751360b37ca000a1530dd6aebd009827745e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:32 +0000
Subject: [PATCH 20/33] fix: do not sleep on a deadman mutex that was released
 meanwhile

---
 src/deadman_mtx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/deadman_mtx.c b/src/deadman_mtx.c
index adda50b..af91494 100644
--- a/src/deadman_mtx.c
+++ b/src/deadman_mtx.c
@@ -90,6 +90,11 @@ a0_err_t a0_deadman_mtx_timedlock_impl(a0_deadman_mtx_t* d, a0_time_mono_t* time
     }
     err = A0_OK;
 
+    // The lock may have been released since the attempt. There may be no one left to wake us.
+    if (!a0_ftx_tid(old)) {
+      continue;
+    }
+
     uint32_t new = old | FUTEX_WAITERS;
     if (a0_cas(&d->_stkn->_mtx.ftx, old, new)) {
       err = a0_ftx_wait(&d->_stkn->_mtx.ftx, new, timeout);
-- 
2.43.0


From 95d46df2a3c52f56630aefd312abfcffb8de7f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:06:32 +0000
Subject: [PATCH 21/33] fix: show a deadman mutex as locked only once its token
 is updated

---
 src/deadman_mtx.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/deadman_mtx.c b/src/deadman_mtx.c
index af91494..4e70825 100644
--- a/src/deadman_mtx.c
+++ b/src/deadman_mtx.c
@@ -45,11 +45,14 @@ a0_err_t a0_deadman_mtx_trylock_impl(a0_deadman_mtx_t* d) {
   uint32_t tid = a0_tid();
   uint32_t old = a0_atomic_load(&d->_stkn->_mtx.ftx);
   if (!a0_ftx_tid(old)) {
-    uint32_t new = (old | tid) & (~FUTEX_OWNER_DIED);
+    // Waiters do not consider it locked, nor look at the token, until the token is updated.
+    uint32_t new = old | tid | FUTEX_OWNER_DIED;
     if (a0_cas(&d->_stkn->_mtx.ftx, old, new)) {
       err = a0_ftx_owner_died(old) ? A0_MAKE_SYSERR(EOWNERDEAD) : A0_OK;
       d->_is_owner = true;
-      d->_stkn->_tkn++;
+      a0_atomic_store(&d->_stkn->_tkn, d->_stkn->_tkn + 1);
+      a0_barrier();
+      a0_atomic_and_fetch(&d->_stkn->_mtx.ftx, ~FUTEX_OWNER_DIED);
       a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
     }
   } else if (a0_ftx_tid(old) == tid) {
@@ -193,7 +196,7 @@ a0_err_t a0_deadman_mtx_wait_unlocked(a0_deadman_mtx_t* d, uint64_t tkn) {
 A0_STATIC_INLINE
 a0_err_t a0_deadman_mtx_timedwait_unlocked_impl(a0_deadman_mtx_t* d, a0_time_mono_t* timeout, uint64_t tkn) {
   uint32_t old = a0_atomic_load(&d->_stkn->_mtx.ftx);
-  while (a0_ftx_tid(old) && !a0_ftx_owner_died(old) && tkn == a0_atomic_load(&d->_stkn->_tkn)) {
+  while (a0_ftx_tid(old) && tkn == a0_atomic_load(&d->_stkn->_tkn)) {
     if (a0_atomic_load(&d->_shutdown)) {
       A0_TSAN_HAPPENS_AFTER(&d->_shutdown);
       return A0_MAKE_SYSERR(ESHUTDOWN);
@@ -222,10 +225,8 @@ a0_err_t a0_deadman_mtx_timedwait_unlocked(a0_deadman_mtx_t* d, a0_time_mono_t*
 A0_NO_TSAN
 a0_err_t a0_deadman_mtx_state(a0_deadman_mtx_t* d, a0_deadman_mtx_state_t* out_state) {
   out_state->is_owner = a0_atomic_load(&d->_is_owner);
-  out_state->owner_tid = a0_ftx_tid(a0_atomic_load(&d->_stkn->_mtx.ftx));
-  if (a0_ftx_owner_died(out_state->owner_tid)) {
-    out_state->owner_tid = 0;
-  }
+  uint32_t ftx = a0_atomic_load(&d->_stkn->_mtx.ftx);
+  out_state->owner_tid = a0_ftx_owner_died(ftx) ? 0 : a0_ftx_tid(ftx);
   out_state->is_locked = out_state->owner_tid != 0;
   out_state->tkn = out_state->is_locked ? a0_atomic_load(&d->_stkn->_tkn) : 0;
   return A0_OK;
-- 
2.43.0


From 63da424d58fbe4fa1fc1e4065482690c31f1eef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:19:49 +0000
Subject: [PATCH 22/33] fix: wake every deadman mutex waiter when the owner
 dies

---
 src/deadman_mtx.c | 50 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/src/deadman_mtx.c b/src/deadman_mtx.c
index 4e70825..abcad1c 100644
--- a/src/deadman_mtx.c
+++ b/src/deadman_mtx.c
@@ -23,16 +23,34 @@ a0_err_t a0_deadman_mtx_init(a0_deadman_mtx_t* d, a0_deadman_mtx_shared_token_t*
   return A0_OK;
 }
 
+// Those waiting for the lock to be taken sleep on the token. The kernel wakes a single sleeper of
+// the lock if its owner dies, which has to be one that waits for that.
+A0_STATIC_INLINE
+a0_ftx_t* a0_deadman_mtx_tkn_ftx(a0_deadman_mtx_t* d) {
+  return (a0_ftx_t*)&d->_stkn->_tkn;
+}
+
 a0_err_t a0_deadman_mtx_shutdown(a0_deadman_mtx_t* d) {
   A0_TSAN_HAPPENS_BEFORE(&d->_shutdown);
   a0_atomic_store(&d->_shutdown, true);
   while (a0_atomic_load(&d->_inop)) {
     // Yes, this is awful. Find a better way to do this.
     a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
+    a0_ftx_broadcast(a0_deadman_mtx_tkn_ftx(d));
   }
   return A0_OK;
 }
 
+// Sleeps until the owner releases or dies. On death, the one sleeper that is woken wakes the others.
+A0_STATIC_INLINE
+a0_err_t a0_deadman_mtx_sleep(a0_deadman_mtx_t* d, uint32_t val, a0_time_mono_t* timeout) {
+  a0_err_t err = a0_ftx_wait(&d->_stkn->_mtx.ftx, val, timeout);
+  if (!a0_ftx_tid(a0_atomic_load(&d->_stkn->_mtx.ftx))) {
+    a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
+  }
+  return err;
+}
+
 A0_STATIC_INLINE
 a0_err_t a0_deadman_mtx_trylock_impl(a0_deadman_mtx_t* d) {
   if (a0_atomic_load(&d->_shutdown)) {
@@ -54,6 +72,7 @@ a0_err_t a0_deadman_mtx_trylock_impl(a0_deadman_mtx_t* d) {
       a0_barrier();
       a0_atomic_and_fetch(&d->_stkn->_mtx.ftx, ~FUTEX_OWNER_DIED);
       a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
+      a0_ftx_broadcast(a0_deadman_mtx_tkn_ftx(d));
     }
   } else if (a0_ftx_tid(old) == tid) {
     err = A0_MAKE_SYSERR(EDEADLK);
@@ -100,7 +119,7 @@ a0_err_t a0_deadman_mtx_timedlock_impl(a0_deadman_mtx_t* d, a0_time_mono_t* time
 
     uint32_t new = old | FUTEX_WAITERS;
     if (a0_cas(&d->_stkn->_mtx.ftx, old, new)) {
-      err = a0_ftx_wait(&d->_stkn->_mtx.ftx, new, timeout);
+      err = a0_deadman_mtx_sleep(d, new, timeout);
     }
   }
   return err;
@@ -138,11 +157,13 @@ a0_err_t a0_deadman_mtx_unlock(a0_deadman_mtx_t* d) {
 
   a0_atomic_and_fetch(&d->_stkn->_mtx.ftx, FUTEX_WAITERS);
 
+  // The kernel wakes a waiter on our behalf if we die before the broadcast.
+  a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
+
   a0_robust_op_end(&d->_stkn->_mtx);
   __tsan_mutex_post_unlock(&d->_stkn->_mtx, 0);
 
   d->_is_owner = false;
-  a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
   return A0_OK;
 }
 
@@ -152,6 +173,8 @@ a0_err_t a0_deadman_mtx_wait_locked(a0_deadman_mtx_t* d, uint64_t* out_tkn) {
 
 A0_STATIC_INLINE
 a0_err_t a0_deadman_mtx_timedwait_locked_impl(a0_deadman_mtx_t* d, a0_time_mono_t* timeout, uint64_t* out_tkn) {
+  uint32_t tkn = a0_atomic_load(&d->_stkn->_tkn);
+  a0_barrier();
   uint32_t old = a0_atomic_load(&d->_stkn->_mtx.ftx);
   while (!a0_ftx_tid(old) || a0_ftx_owner_died(old)) {
     if (a0_atomic_load(&d->_shutdown)) {
@@ -159,14 +182,19 @@ a0_err_t a0_deadman_mtx_timedwait_locked_impl(a0_deadman_mtx_t* d, a0_time_mono_
       return A0_MAKE_SYSERR(ESHUTDOWN);
     }
 
+    a0_err_t err = A0_OK;
     uint32_t new = old | FUTEX_WAITERS;
-    if (a0_cas(&d->_stkn->_mtx.ftx, old, new)) {
-      a0_err_t err = a0_ftx_wait(&d->_stkn->_mtx.ftx, new, timeout);
-      if (err && A0_SYSERR(err) != EAGAIN) {
-        return err;
-      }
+    if (!a0_ftx_tid(old)) {
+      err = a0_ftx_wait(a0_deadman_mtx_tkn_ftx(d), tkn, timeout);
+    } else if (a0_cas(&d->_stkn->_mtx.ftx, old, new)) {
+      err = a0_deadman_mtx_sleep(d, new, timeout);
+    }
+    if (err && A0_SYSERR(err) != EAGAIN) {
+      return err;
     }
 
+    tkn = a0_atomic_load(&d->_stkn->_tkn);
+    a0_barrier();
     old = a0_atomic_load(&d->_stkn->_mtx.ftx);
   }
 
@@ -184,7 +212,10 @@ a0_err_t a0_deadman_mtx_timedwait_locked(a0_deadman_mtx_t* d, a0_time_mono_t* ti
   }
 
   a0_atomic_store(&d->_inop, true);
+  // The kernel passes a wakeup on if we die with it.
+  a0_robust_op_start(&d->_stkn->_mtx);
   a0_err_t err = a0_deadman_mtx_timedwait_locked_impl(d, timeout, out_tkn);
+  a0_robust_op_end(&d->_stkn->_mtx);
   a0_atomic_store(&d->_inop, false);
   return err;
 }
@@ -204,7 +235,7 @@ a0_err_t a0_deadman_mtx_timedwait_unlocked_impl(a0_deadman_mtx_t* d, a0_time_mon
 
     uint32_t new = old | FUTEX_WAITERS;
     if (a0_cas(&d->_stkn->_mtx.ftx, old, new)) {
-      a0_err_t err = a0_ftx_wait(&d->_stkn->_mtx.ftx, new, timeout);
+      a0_err_t err = a0_deadman_mtx_sleep(d, new, timeout);
       if (err && A0_SYSERR(err) != EAGAIN) {
         return err;
       }
@@ -217,7 +248,10 @@ a0_err_t a0_deadman_mtx_timedwait_unlocked_impl(a0_deadman_mtx_t* d, a0_time_mon
 
 a0_err_t a0_deadman_mtx_timedwait_unlocked(a0_deadman_mtx_t* d, a0_time_mono_t* timeout, uint64_t tkn) {
   a0_atomic_store(&d->_inop, true);
+  // The kernel passes a wakeup on if we die with it.
+  a0_robust_op_start(&d->_stkn->_mtx);
   a0_err_t err = a0_deadman_mtx_timedwait_unlocked_impl(d, timeout, tkn);
+  a0_robust_op_end(&d->_stkn->_mtx);
   a0_atomic_store(&d->_inop, false);
   return err;
 }
-- 
2.43.0


From 3c4ce0dadecf0cff6566c3cb6709ba3f19ce02a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:46:55 +0000
Subject: [PATCH 23/33] fix: ignore rpc packets whose request id has the wrong
 length

The id header and the cancel payload come from another process. They were
read as a full id whatever their length, past the end of the packet.
---
 src/rpc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/rpc.c b/src/rpc.c
index 148cb0b..846b737 100644
--- a/src/rpc.c
+++ b/src/rpc.c
@@ -53,9 +53,10 @@ void a0_rpc_server_onpacket(void* data, a0_packet_t pkt) {
   if (!strcmp(type_hdr.val, RPC_TYPE_REQUEST)) {
     server->_onrequest.fn(server->_onrequest.user_data, (a0_rpc_request_t){server, pkt});
   } else if (!strcmp(type_hdr.val, RPC_TYPE_CANCEL)) {
-    if (server->_oncancel.fn) {
+    if (server->_oncancel.fn && pkt.payload.size >= A0_UUID_SIZE) {
       a0_uuid_t uuid;
-      memcpy(uuid, pkt.payload.data, sizeof(a0_uuid_t));
+      memcpy(uuid, pkt.payload.data, A0_UUID_SIZE);
+      uuid[A0_UUID_SIZE] = '\0';
       server->_oncancel.fn(server->_oncancel.user_data, uuid);
     }
   }
@@ -150,7 +151,8 @@ a0_err_t a0_find_reqid(a0_packet_t pkt, a0_uuid_t** out) {
   a0_packet_header_t req_id_hdr;
   a0_packet_header_iterator_t hdr_iter;
   a0_packet_header_iterator_init(&hdr_iter, &pkt);
-  if (!a0_packet_header_iterator_next_match(&hdr_iter, REQUEST_ID, &req_id_hdr)) {
+  if (!a0_packet_header_iterator_next_match(&hdr_iter, REQUEST_ID, &req_id_hdr) &&
+      strlen(req_id_hdr.val) == A0_UUID_SIZE) {
     *out = (a0_uuid_t*)req_id_hdr.val;
     return A0_OK;
   }
-- 
2.43.0


From 4e492a840308e659c416f5720f6ef8426d9a6858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:46:55 +0000
Subject: [PATCH 24/33] fix: take only responses as the answer to a blocking
 rpc request

Any packet carrying the request's id that was not a cancel ended the wait,
even one that is not a response.
---
 src/rpc.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rpc.c b/src/rpc.c
index 846b737..627a81a 100644
--- a/src/rpc.c
+++ b/src/rpc.c
@@ -297,8 +297,11 @@ a0_err_t a0_rpc_client_send_blocking_timeout(a0_rpc_client_t* client, a0_packet_
     if (!memcmp(pkt.id, *reqid, sizeof(a0_uuid_t))) {
       if (!strcmp(rpctype, RPC_TYPE_CANCEL)) {
         err = A0_ERR_CANCELLED;
+        break;
+      }
+      if (!strcmp(rpctype, RPC_TYPE_RESPONSE)) {
+        break;
       }
-      break;
     }
   }
 
-- 
2.43.0


From 25aac12d689840ccee5149f8cc7557b601da507e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:46:55 +0000
Subject: [PATCH 25/33] fix: ignore prpc packets whose connection id has the
 wrong length

The id header and the cancel payload come from another process. They were
read as a full id whatever their length, past the end of the packet.
---
 src/prpc.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/prpc.c b/src/prpc.c
index 67b73ec..d19c07f 100644
--- a/src/prpc.c
+++ b/src/prpc.c
@@ -53,9 +53,10 @@ void a0_prpc_server_onpacket(void* data, a0_packet_t pkt) {
   if (!strcmp(type_hdr.val, PRPC_TYPE_CONNECT)) {
     server->_onconnect.fn(server->_onconnect.user_data, (a0_prpc_connection_t){server, pkt});
   } else if (!strcmp(type_hdr.val, PRPC_TYPE_CANCEL)) {
-    if (server->_oncancel.fn) {
+    if (server->_oncancel.fn && pkt.payload.size >= A0_UUID_SIZE) {
       a0_uuid_t uuid;
-      memcpy(uuid, pkt.payload.data, sizeof(a0_uuid_t));
+      memcpy(uuid, pkt.payload.data, A0_UUID_SIZE);
+      uuid[A0_UUID_SIZE] = '\0';
       server->_oncancel.fn(server->_oncancel.user_data, uuid);
     }
   }
@@ -141,7 +142,8 @@ void a0_prpc_client_onpacket(void* user_data, a0_packet_t pkt) {
 
   a0_packet_header_t conn_id_hdr;
   a0_packet_header_iterator_init(&hdr_iter, &pkt);
-  if (a0_packet_header_iterator_next_match(&hdr_iter, CONN_ID, &conn_id_hdr)) {
+  if (a0_packet_header_iterator_next_match(&hdr_iter, CONN_ID, &conn_id_hdr) ||
+      strlen(conn_id_hdr.val) != A0_UUID_SIZE) {
     return;
   }
 
-- 
2.43.0


From bfcb04b31d319bcf907eb2287de1902f7d52396b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:46:55 +0000
Subject: [PATCH 26/33] fix: report only progress and complete packets as prpc
 progress

A connect or cancel packet carrying the id of an open connection was handed
to its progress callback.
---
 src/prpc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/prpc.c b/src/prpc.c
index d19c07f..ec0856e 100644
--- a/src/prpc.c
+++ b/src/prpc.c
@@ -154,6 +154,9 @@ void a0_prpc_client_onpacket(void* user_data, a0_packet_t pkt) {
   }
 
   bool is_complete = !strcmp(type_hdr.val, PRPC_TYPE_COMPLETE);
+  if (!is_complete && strcmp(type_hdr.val, PRPC_TYPE_PROGRESS) != 0) {
+    return;
+  }
 
   a0_err_t err;
   a0_prpc_progress_callback_t cb;
-- 
2.43.0


From c2898d429fad039e8241cbd19141f21c60902912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:47:09 +0000
Subject: [PATCH 27/33] fix: remove the temporary file when creating a file
 fails

Creating a file goes through a temporary file. It stayed behind when setting
its mode, size or mapping failed.
---
 src/file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/file.c b/src/file.c
index 17e4b34..5deedf5 100644
--- a/src/file.c
+++ b/src/file.c
@@ -144,6 +144,7 @@ a0_err_t a0_mktmp(const char* dir, a0_file_create_options_t opts, a0_file_t* fil
     close(file->fd);
     file->fd = -1;
 
+    unlink(path);
     free(path);
     file->path = NULL;
 
@@ -251,6 +252,7 @@ a0_err_t a0_do_open(
     err = a0_mmap(file, &opts->open_options);
     if (err) {
       close(file->fd);
+      unlink(file->path);
       free((void*)file->path);
       file->fd = 0;
       file->path = NULL;
-- 
2.43.0


From 7bdc008e8847b2d0b0b873e82440c5dc0b192795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:47:09 +0000
Subject: [PATCH 28/33] fix: unmap the temporary file when it cannot be moved
 into place

The mapping leaked when another process created the file first, and
when linking failed.
---
 src/file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/file.c b/src/file.c
index 5deedf5..08d862f 100644
--- a/src/file.c
+++ b/src/file.c
@@ -261,6 +261,8 @@ a0_err_t a0_do_open(
 
     err = a0_tmp_move(file, path);
     if (err) {
+      munmap(file->arena.buf.data, file->arena.buf.size);
+      file->arena.buf = (a0_buf_t)A0_EMPTY;
       close(file->fd);
       file->fd = 0;
       file->path = NULL;
-- 
2.43.0


From c0a5ee612a5d1202e5e502f30086509fe62385e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:47:09 +0000
Subject: [PATCH 29/33] fix: stop opening a symbolic link to nowhere forever

Opening the name said it does not exist and creating it said it does,
so opening never returned.
---
 src/file.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/file.c b/src/file.c
index 08d862f..139347d 100644
--- a/src/file.c
+++ b/src/file.c
@@ -240,6 +240,12 @@ a0_err_t a0_do_open(
       break;
     }
 
+    // A symbolic link to nowhere cannot be opened, and its name is taken.
+    stat_t link_stat;
+    if (!lstat(path, &link_stat) && S_ISLNK(link_stat.st_mode)) {
+      break;
+    }
+
     if (!path_copy) {
       path_copy = strdup(path);
       dir = dirname(path_copy);
-- 
2.43.0


From 0b307a9813959fe1c4a80aae5c7057cd10fe5894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:47:09 +0000
Subject: [PATCH 30/33] fix: list relative directories below the root

The entries were named below the root, but the directory was opened
relative to the working directory.
---
 src/file.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/file.c b/src/file.c
index 139347d..1407db2 100644
--- a/src/file.c
+++ b/src/file.c
@@ -354,25 +354,26 @@ a0_err_t a0_file_iter_init(a0_file_iter_t* iter, const char* path) {
   }
 
   memcpy(iter->_path, abspath, iter->_path_len + 1);
-  free(abspath);
 
   if (iter->_path[iter->_path_len - 1] != '/') {
     iter->_path[iter->_path_len] = '/';
     iter->_path_len++;
   }
 
+  a0_err_t err = A0_OK;
   stat_t stat;
-  A0_RETURN_SYSERR_ON_MINUS_ONE(lstat(path, &stat));
-
-  if (!S_ISDIR(stat.st_mode)) {
-    return A0_MAKE_SYSERR(ENOTDIR);
-  }
-
-  iter->_dir = opendir(path);
-  if (!iter->_dir) {
-    return A0_MAKE_SYSERR(errno);
+  if (lstat(abspath, &stat) == -1) {
+    err = A0_MAKE_SYSERR(errno);
+  } else if (!S_ISDIR(stat.st_mode)) {
+    err = A0_MAKE_SYSERR(ENOTDIR);
+  } else {
+    iter->_dir = opendir(abspath);
+    if (!iter->_dir) {
+      err = A0_MAKE_SYSERR(errno);
+    }
   }
-  return A0_OK;
+  free(abspath);
+  return err;
 }
 
 a0_err_t a0_file_iter_next(a0_file_iter_t* iter, a0_file_iter_entry_t* entry) {
-- 
2.43.0


From ef5206f76e2da1b0e7696cff42eaf03602d559a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:47:09 +0000
Subject: [PATCH 31/33] fix: keep long entry names inside the path buffer of a
 listing

A long directory and a long name together wrote past the buffer.
---
 src/file.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/file.c b/src/file.c
index 1407db2..c890171 100644
--- a/src/file.c
+++ b/src/file.c
@@ -385,6 +385,9 @@ a0_err_t a0_file_iter_next(a0_file_iter_t* iter, a0_file_iter_entry_t* entry) {
   }
 
   size_t len = strlen(dir_entity->d_name);
+  if (iter->_path_len + len >= sizeof(iter->_path)) {
+    return A0_MAKE_SYSERR(ENAMETOOLONG);
+  }
 
   entry->filename = dir_entity->d_name;
   entry->fullpath = iter->_path;
-- 
2.43.0


From f16ec5fca815e4c8ce17d9f6abe0ede336150ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:47:09 +0000
Subject: [PATCH 32/33] fix: skip directories that discovery cannot list

An uninitialised directory stream was read when a directory had
vanished or was not readable.
---
 src/discovery.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/discovery.c b/src/discovery.c
index ddd1fe7..4d0910b 100644
--- a/src/discovery.c
+++ b/src/discovery.c
@@ -90,7 +90,9 @@ void a0_discovery_watch_recursive(a0_discovery_t* d, const char* path) {
 
   a0_file_iter_t iter;
   a0_file_iter_entry_t entry;
-  a0_file_iter_init(&iter, path);
+  if (a0_file_iter_init(&iter, path)) {
+    return;
+  }
   while (!a0_file_iter_next(&iter, &entry)) {
     if (entry.d_type == DT_DIR) {
       a0_discovery_watch_recursive(d, entry.fullpath);
-- 
2.43.0


From c872a1cca66f9b862f755ec4d2037cd9bd6d516b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:47:09 +0000
Subject: [PATCH 33/33] fix: watch a directory again after it is removed and
 made again

Discovery kept the path of the removed directory as watched, so files in
the new one were not announced.
---
 src/discovery.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/discovery.c b/src/discovery.c
index 4d0910b..d726725 100644
--- a/src/discovery.c
+++ b/src/discovery.c
@@ -72,6 +72,15 @@ void a0_discovery_watch_path(a0_discovery_t* d, const char* path) {
   a0_map_put(&d->_reverse_watch_map, &dup, &unused);
 }
 
+A0_STATIC_INLINE
+void a0_discovery_unwatch(a0_discovery_t* d, int wd) {
+  char* path;
+  if (!a0_map_pop(&d->_watch_map, &wd, &path)) {
+    a0_map_del(&d->_reverse_watch_map, &path);
+    free(path);
+  }
+}
+
 A0_STATIC_INLINE
 void a0_discovery_announce(a0_discovery_t* d, const char* path) {
   bool contains;
@@ -154,6 +163,10 @@ a0_err_t a0_discovery_inotify_runone(a0_discovery_t* d) {
 
   for (size_t i = 0; i < (size_t)buf_size;) {
     inotify_event_t* evt = (inotify_event_t*)&buf[i];
+    if (evt->mask & IN_IGNORED) {
+      // The directory is gone. One of the same name may come back.
+      a0_discovery_unwatch(d, evt->wd);
+    }
     if (evt->len) {
       a0_buf_t path = (a0_buf_t){(uint8_t*)evt->name, strlen(evt->name)};
 
-- 
2.43.0

