From f2293b640130a467bfb08d0eac9f5e2b16202e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:39 +0000
Subject: [PATCH 01/36] fix: report a failure to lock the transport

a0_transport_lock ignored the result of locking the mutex. A thread that
already held the lock was told it had locked it a second time, and its
uncommitted changes were discarded. Return the error instead, and have the
threaded reader stop when it cannot lock.
---
 src/reader.c    | 16 ++++++++++------
 src/transport.c |  7 +++++--
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/reader.c b/src/reader.c
index 5bcd239..0c1ac32 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -360,7 +360,9 @@ void* a0_reader_zc_thread_main(void* data) {
   // Lock until shutdown.
   // Lock will release lock while awaiting packets.
   a0_transport_locked_t tlk;
-  a0_transport_lock(&reader_zc->_transport, &tlk);
+  if (a0_transport_lock(&reader_zc->_transport, &tlk)) {
+    return NULL;
+  }
 
   // Loop until shutdown is triggered.
   if (a0_reader_zc_thread_handle_first_pkt(reader_zc, tlk)) {
@@ -384,13 +386,13 @@ a0_err_t a0_reader_zc_init(a0_reader_zc_t* reader_zc,
 
   A0_RETURN_ERR_ON_ERR(a0_transport_init(&reader_zc->_transport, arena));
 
+  a0_transport_locked_t tlk;
+  A0_RETURN_ERR_ON_ERR(a0_transport_lock(&reader_zc->_transport, &tlk));
+
 #ifdef DEBUG
   a0_ref_cnt_inc(arena.buf.data, NULL);
 #endif
 
-  a0_transport_locked_t tlk;
-  a0_transport_lock(&reader_zc->_transport, &tlk);
-
   a0_transport_empty(tlk, &reader_zc->_started_empty);
   if (!reader_zc->_started_empty) {
     if (opts.init == A0_INIT_OLDEST) {
@@ -416,12 +418,14 @@ a0_err_t a0_reader_zc_close(a0_reader_zc_t* reader_zc) {
   if (pthread_equal(pthread_self(), reader_zc->_thread_id)) {
     return A0_MAKE_SYSERR(EDEADLK);
   }
+
+  a0_transport_locked_t tlk;
+  A0_RETURN_ERR_ON_ERR(a0_transport_lock(&reader_zc->_transport, &tlk));
+
 #ifdef DEBUG
   a0_ref_cnt_dec(reader_zc->_transport._arena.buf.data, NULL);
 #endif
 
-  a0_transport_locked_t tlk;
-  a0_transport_lock(&reader_zc->_transport, &tlk);
   a0_transport_shutdown(tlk);
   a0_transport_unlock(tlk);
 
diff --git a/src/transport.c b/src/transport.c
index af9b36a..a9a50fc 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -194,8 +194,11 @@ a0_err_t a0_transport_lock(a0_transport_t* transport, a0_transport_locked_t* lk_
 
   a0_transport_hdr_t* hdr = a0_transport_header(*lk_out);
 
-  a0_err_t prior_owner_died = a0_mtx_lock(&hdr->mtx);
-  A0_MAYBE_UNUSED(prior_owner_died);
+  // The prior owner may have died while holding the lock. That is not a failure to lock.
+  a0_err_t err = a0_mtx_lock(&hdr->mtx);
+  if (!a0_mtx_lock_successful(err)) {
+    return err;
+  }
 
   // Clear any incomplete changes.
   *a0_transport_working_page(*lk_out) = *a0_transport_committed_page(*lk_out);
-- 
2.43.0


From 655667743839007a2589160aa39bc2275de5dd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:39 +0000
Subject: [PATCH 02/36] fix: reject transport allocations whose size overflows

Adding the frame header to a size close to SIZE_MAX wraps around, so the
allocation was accepted and the frame recorded a size far beyond the arena.
---
 src/transport.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/transport.c b/src/transport.c
index a9a50fc..50a8fb5 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -514,6 +514,11 @@ a0_err_t a0_transport_find_slot(a0_transport_locked_t lk, size_t frame_size, siz
   a0_transport_hdr_t* hdr = a0_transport_header(lk);
   a0_transport_state_t* state = a0_transport_working_page(lk);
 
+  // Reject sizes that would overflow the offset arithmetic below.
+  if (frame_size < sizeof(a0_transport_frame_hdr_t) || frame_size > hdr->arena_size) {
+    return A0_ERR_FRAME_LARGE;
+  }
+
   bool empty;
   A0_RETURN_ERR_ON_ERR(a0_transport_empty(lk, &empty));
 
-- 
2.43.0


From 272ecf89ca877da57c1644f7c891fb382d39274f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:39 +0000
Subject: [PATCH 03/36] fix: keep transport jumps inside the workspace

Jumping to an offset inside the arena header was accepted, as was a frame
whose recorded size wraps around the end of the arena.
---
 src/transport.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/transport.c b/src/transport.c
index 50a8fb5..2f1bcb4 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -242,12 +242,14 @@ a0_err_t a0_transport_jump(a0_transport_locked_t lk, size_t off) {
   }
 
   a0_transport_hdr_t* hdr = a0_transport_header(lk);
-  if (off + sizeof(a0_transport_frame_hdr_t) >= hdr->arena_size) {
+  if (off < a0_transport_workspace_off() || off >= hdr->arena_size ||
+      off + sizeof(a0_transport_frame_hdr_t) >= hdr->arena_size) {
     return A0_ERR_RANGE;
   }
 
   a0_transport_frame_hdr_t* frame_hdr = a0_transport_frame_header(lk, off);
-  if (off + sizeof(a0_transport_frame_hdr_t) + frame_hdr->data_size >= hdr->arena_size) {
+  if (frame_hdr->data_size >= hdr->arena_size ||
+      off + sizeof(a0_transport_frame_hdr_t) + frame_hdr->data_size >= hdr->arena_size) {
     return A0_ERR_RANGE;
   }
 
-- 
2.43.0


From 796937edeb2b8e7f96b07429a8520d1da0c39d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:39 +0000
Subject: [PATCH 04/36] fix: report random access to an evicted frame

The offset of an evicted message passes the bounds checks, but there is no
frame to read. The callback was given an uninitialized pointer.
---
 src/reader.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index 0c1ac32..09deb32 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -483,7 +483,11 @@ a0_err_t a0_read_random_access(a0_arena_t arena, size_t off, a0_zero_copy_callba
     return err;
   }
   a0_transport_frame_t* frame;
-  a0_transport_frame(tlk, &frame);
+  err = a0_transport_frame(tlk, &frame);
+  if (err) {
+    a0_transport_unlock(tlk);
+    return err;
+  }
 
   cb.fn(cb.user_data, tlk, (a0_flat_packet_t){{frame->data, frame->hdr.data_size}});
 
-- 
2.43.0


From 45e3213c987e3cdda4d49051a7edf79162c030ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:39 +0000
Subject: [PATCH 05/36] fix: report a reader thread that cannot be started

a0_reader_zc_init returned success when pthread_create failed, and closing
such a reader waited forever for the thread to start.
---
 src/reader.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index 09deb32..a7f4926 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -404,11 +404,17 @@ a0_err_t a0_reader_zc_init(a0_reader_zc_t* reader_zc,
 
   a0_transport_unlock(tlk);
 
-  pthread_create(
+  int create_err = pthread_create(
       &reader_zc->_thread,
       NULL,
       a0_reader_zc_thread_main,
       reader_zc);
+  if (create_err) {
+#ifdef DEBUG
+    a0_ref_cnt_dec(arena.buf.data, NULL);
+#endif
+    return A0_MAKE_SYSERR(create_err);
+  }
 
   return A0_OK;
 }
-- 
2.43.0


From 63eacf16e2bc783013412e3aeccc3402d328f603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:39 +0000
Subject: [PATCH 06/36] fix: detect a reader closed from its own callback

The thread id recorded by the reader thread was compared with a pthread
handle, so the check never matched.
---
 src/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.c b/src/reader.c
index a7f4926..93c5016 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -421,7 +421,7 @@ a0_err_t a0_reader_zc_init(a0_reader_zc_t* reader_zc,
 
 a0_err_t a0_reader_zc_close(a0_reader_zc_t* reader_zc) {
   a0_event_wait(&reader_zc->_thread_start_event);
-  if (pthread_equal(pthread_self(), reader_zc->_thread_id)) {
+  if (a0_tid() == reader_zc->_thread_id) {
     return A0_MAKE_SYSERR(EDEADLK);
   }
 
-- 
2.43.0


From 6c68019f0f60e0c11acf4f55d4843e2519aa4d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:39 +0000
Subject: [PATCH 07/36] fix: report allocation failures when copying packets

Serializing, deserializing and deep-copying a packet ignored the result of
the allocator and wrote through whatever buffer it left behind.
---
 src/packet.c | 11 ++++++-----
 src/reader.c | 17 +++++++++++------
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/packet.c b/src/packet.c
index eb14424..459dd81 100644
--- a/src/packet.c
+++ b/src/packet.c
@@ -85,7 +85,7 @@ a0_err_t a0_packet_serialize(a0_packet_t pkt, a0_alloc_t alloc, a0_flat_packet_t
   a0_packet_stats_t stats;
   A0_RETURN_ERR_ON_ERR(a0_packet_stats(pkt, &stats));
 
-  a0_alloc(alloc, stats.serial_size, out);
+  A0_RETURN_ERR_ON_ERR(a0_alloc(alloc, stats.serial_size, out));
 
   // Write pointer into index.
   size_t idx_off = 0;
@@ -147,7 +147,7 @@ a0_err_t a0_packet_deserialize(a0_flat_packet_t fpkt, a0_alloc_t alloc, a0_packe
   a0_packet_stats_t stats;
   a0_flat_packet_stats(fpkt, &stats);
 
-  a0_alloc(alloc, stats.num_hdrs * sizeof(a0_packet_header_t) + stats.content_size, out_buf);
+  A0_RETURN_ERR_ON_ERR(a0_alloc(alloc, stats.num_hdrs * sizeof(a0_packet_header_t) + stats.content_size, out_buf));
 
   uint8_t* write_ptr = out_buf->data;
   out_pkt->headers_block.headers = (a0_packet_header_t*)write_ptr;
@@ -193,9 +193,10 @@ a0_err_t a0_packet_deep_copy(a0_packet_t in, a0_alloc_t alloc, a0_packet_t* out_
   a0_packet_stats_t stats;
   A0_RETURN_ERR_ON_ERR(a0_packet_stats(in, &stats));
 
-  a0_alloc(alloc,
-           stats.num_hdrs * sizeof(a0_packet_header_t) + stats.content_size,
-           out_buf);
+  A0_RETURN_ERR_ON_ERR(a0_alloc(
+      alloc,
+      stats.num_hdrs * sizeof(a0_packet_header_t) + stats.content_size,
+      out_buf));
 
   out_pkt->headers_block.headers = (a0_packet_header_t*)out_buf->data;
   out_pkt->headers_block.size = stats.num_hdrs;
diff --git a/src/reader.c b/src/reader.c
index 93c5016..a0ef8e4 100644
--- a/src/reader.c
+++ b/src/reader.c
@@ -251,6 +251,7 @@ a0_err_t a0_reader_sync_can_read(a0_reader_sync_t* reader_sync, bool* can_read)
 typedef struct a0_reader_sync_read_data_s {
   a0_alloc_t alloc;
   a0_packet_t* out_pkt;
+  a0_err_t err;
 } a0_reader_sync_read_data_t;
 
 A0_STATIC_INLINE
@@ -258,7 +259,7 @@ void a0_reader_sync_read_impl(void* user_data, a0_transport_locked_t tlk, a0_fla
   A0_MAYBE_UNUSED(tlk);
   a0_reader_sync_read_data_t* data = (a0_reader_sync_read_data_t*)user_data;
   a0_buf_t unused;
-  a0_packet_deserialize(fpkt, data->alloc, data->out_pkt, &unused);
+  data->err = a0_packet_deserialize(fpkt, data->alloc, data->out_pkt, &unused);
 }
 
 a0_err_t a0_reader_sync_read(a0_reader_sync_t* reader_sync, a0_packet_t* pkt) {
@@ -272,7 +273,8 @@ a0_err_t a0_reader_sync_read(a0_reader_sync_t* reader_sync, a0_packet_t* pkt) {
       .user_data = &data,
       .fn = a0_reader_sync_read_impl,
   };
-  return a0_reader_sync_zc_read(&reader_sync->_reader_sync_zc, zc_cb);
+  A0_RETURN_ERR_ON_ERR(a0_reader_sync_zc_read(&reader_sync->_reader_sync_zc, zc_cb));
+  return data.err;
 }
 
 a0_err_t a0_reader_sync_read_blocking(a0_reader_sync_t* reader_sync, a0_packet_t* pkt) {
@@ -290,7 +292,8 @@ a0_err_t a0_reader_sync_read_blocking_timeout(a0_reader_sync_t* reader_sync, a0_
       .user_data = &data,
       .fn = a0_reader_sync_read_impl,
   };
-  return a0_reader_sync_zc_read_blocking_timeout(&reader_sync->_reader_sync_zc, timeout, zc_cb);
+  A0_RETURN_ERR_ON_ERR(a0_reader_sync_zc_read_blocking_timeout(&reader_sync->_reader_sync_zc, timeout, zc_cb));
+  return data.err;
 }
 
 // Threaded zero-copy version.
@@ -447,11 +450,13 @@ void a0_reader_onpacket_wrapper(void* user_data, a0_transport_locked_t tlk, a0_f
   a0_reader_t* reader = (a0_reader_t*)user_data;
   a0_packet_t pkt;
   a0_buf_t buf;
-  a0_packet_deserialize(fpkt, reader->_alloc, &pkt, &buf);
+  a0_err_t err = a0_packet_deserialize(fpkt, reader->_alloc, &pkt, &buf);
   a0_transport_unlock(tlk);
 
-  a0_packet_callback_call(reader->_onpacket, pkt);
-  a0_dealloc(reader->_alloc, buf);
+  if (!err) {
+    a0_packet_callback_call(reader->_onpacket, pkt);
+    a0_dealloc(reader->_alloc, buf);
+  }
 
   a0_transport_lock(tlk.transport, &tlk);
 }
-- 
2.43.0


From 13857654f8faa5d07852364ef19d7dacf0566f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:48:39 +0000
Subject: [PATCH 08/36] fix: report writes that do not fit in the arena

A packet too large for the transport, or a write to a read-only arena, was
reported as written.
---
 src/writer.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/writer.c b/src/writer.c
index d539303..968300e 100644
--- a/src/writer.c
+++ b/src/writer.c
@@ -95,12 +95,14 @@ a0_err_t a0_write_action_process_locked(void* user_data, a0_transport_locked_t t
 
   a0_alloc_t alloc;
   a0_transport_allocator(&tlk, &alloc);
-  a0_packet_serialize(*pkt, alloc, NULL);
+  a0_err_t err = a0_packet_serialize(*pkt, alloc, NULL);
 
-  a0_transport_commit(tlk);
+  if (!err) {
+    err = a0_transport_commit(tlk);
+  }
   a0_transport_unlock(tlk);
 
-  return A0_OK;
+  return err;
 }
 
 a0_err_t a0_writer_init(a0_writer_t* w, a0_arena_t arena) {
-- 
2.43.0


From 56a115722aed80266ae06e412401eb150a43666d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:01 +0000
Subject: [PATCH 09/36] fix: tell every waiter when the holder of a deadman
 dies

---
 src/deadman_mtx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/deadman_mtx.c b/src/deadman_mtx.c
index adda50b..377c8a1 100644
--- a/src/deadman_mtx.c
+++ b/src/deadman_mtx.c
@@ -204,6 +204,11 @@ a0_err_t a0_deadman_mtx_timedwait_unlocked_impl(a0_deadman_mtx_t* d, a0_time_mon
 
     old = a0_atomic_load(&d->_stkn->_mtx.ftx);
   }
+
+  // The kernel wakes only one waiter when the owner dies. Pass it on to the others.
+  if (a0_ftx_owner_died(old)) {
+    a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
+  }
   return A0_OK;
 }
 
-- 
2.43.0


From 07bfa683cbb3fdb27e16229a04806d76e9abfa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:37:46 +0000
Subject: [PATCH 10/36] fix: notice a new deadman holder while waiting for a
 release

---
 src/deadman_mtx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/deadman_mtx.c b/src/deadman_mtx.c
index 377c8a1..a533494 100644
--- a/src/deadman_mtx.c
+++ b/src/deadman_mtx.c
@@ -50,6 +50,8 @@ a0_err_t a0_deadman_mtx_trylock_impl(a0_deadman_mtx_t* d) {
       err = a0_ftx_owner_died(old) ? A0_MAKE_SYSERR(EOWNERDEAD) : A0_OK;
       d->_is_owner = true;
       d->_stkn->_tkn++;
+      // A waiter that announced itself before the new token must not go to sleep.
+      a0_atomic_and_fetch(&d->_stkn->_mtx.ftx, ~FUTEX_WAITERS);
       a0_ftx_broadcast(&d->_stkn->_mtx.ftx);
     }
   } else if (a0_ftx_tid(old) == tid) {
@@ -196,6 +198,10 @@ a0_err_t a0_deadman_mtx_timedwait_unlocked_impl(a0_deadman_mtx_t* d, a0_time_mon
 
     uint32_t new = old | FUTEX_WAITERS;
     if (a0_cas(&d->_stkn->_mtx.ftx, old, new)) {
+      // The owner may have changed since the token was checked.
+      if (tkn != a0_atomic_load(&d->_stkn->_tkn)) {
+        break;
+      }
       a0_err_t err = a0_ftx_wait(&d->_stkn->_mtx.ftx, new, timeout);
       if (err && A0_SYSERR(err) != EAGAIN) {
         return err;
-- 
2.43.0


From 2ea9e0a900899862ffa25b10e16631f30d3d3777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:58 +0000
Subject: [PATCH 11/36] fix: keep far and long-past deadlines within what the
 kernel accepts

A deadline more than about 292 years away overflowed when converted to
nanoseconds and was treated as one that had passed, or refused.
A deadline before the start of the monotonic clock, possible once the machine
has been suspended, was refused instead of reported as expired.
---
 src/clock.h     | 17 ++++++++++++++++-
 src/transport.c |  8 ++++----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/clock.h b/src/clock.h
index 6369205..012b8a3 100644
--- a/src/clock.h
+++ b/src/clock.h
@@ -49,8 +49,23 @@ a0_err_t a0_clock_convert(
   timespec_t target_now;
   A0_RETURN_ERR_ON_ERR(a0_clock_now(target_clk, &target_now));
 
+  // Further away than this does not fit into nanoseconds, and is as good as never.
+  const int64_t max_sec = INT64_MAX / NS_PER_SEC / 2;
+  if (orig_ts.tv_sec > max_sec) {
+    orig_ts.tv_sec = max_sec;
+  } else if (orig_ts.tv_sec < -max_sec) {
+    orig_ts.tv_sec = -max_sec;
+  }
+
   int64_t add_nsec = (orig_ts.tv_sec - orig_now.tv_sec) * NS_PER_SEC + (orig_ts.tv_nsec - orig_now.tv_nsec);
-  return a0_clock_add(target_now, add_nsec, target_ts);
+  A0_RETURN_ERR_ON_ERR(a0_clock_add(target_now, add_nsec, target_ts));
+
+  // The kernel refuses times before the start of the clock.
+  if (target_ts->tv_sec < 0) {
+    target_ts->tv_sec = 0;
+    target_ts->tv_nsec = 0;
+  }
+  return A0_OK;
 }
 
 #ifdef __cplusplus
diff --git a/src/transport.c b/src/transport.c
index 2f1bcb4..863769a 100644
--- a/src/transport.c
+++ b/src/transport.c
@@ -347,10 +347,10 @@ bool a0_transport_timedwait_istimeout(a0_time_mono_t* timeout) {
   a0_time_mono_t now;
   a0_time_mono_now(&now);
 
-  uint64_t now_ns = now.ts.tv_sec * NS_PER_SEC + now.ts.tv_nsec;
-  uint64_t timeout_ns = timeout->ts.tv_sec * NS_PER_SEC + timeout->ts.tv_nsec;
-
-  return now_ns >= timeout_ns;
+  if (now.ts.tv_sec != timeout->ts.tv_sec) {
+    return now.ts.tv_sec > timeout->ts.tv_sec;
+  }
+  return now.ts.tv_nsec >= timeout->ts.tv_nsec;
 }
 
 a0_err_t a0_transport_timedwait(a0_transport_locked_t lk, a0_predicate_t pred, a0_time_mono_t* timeout) {
-- 
2.43.0


From 400dd504ee02350c88795fe73cc2998e3eaa095a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:54:58 +0000
Subject: [PATCH 12/36] fix: own the mutex again when a condition wait is
 refused

The wait returned without the mutex, but with it on the robust list, when the
kernel refused to wait.
---
 src/mtx.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mtx.c b/src/mtx.c
index 536fc47..26d883e 100644
--- a/src/mtx.c
+++ b/src/mtx.c
@@ -159,9 +159,9 @@ a0_err_t a0_cnd_timedwait(a0_cnd_t* cnd, a0_mtx_t* mtx, a0_time_mono_t* timeout)
   // Priority-inheritance-aware wait until awoken or timeout.
   err = a0_ftx_wait_requeue_pi(cnd, init_cnd, timeout, &mtx->ftx);
 
-  // We need to manually lock on timeout.
-  // Note: We keep the timeout error.
-  if (A0_SYSERR(err) == ETIMEDOUT) {
+  // We need to manually lock on timeout, or if the wait was refused.
+  // Note: We keep the error.
+  if (err && A0_SYSERR(err) != EAGAIN) {
     a0_mtx_timedlock_robust(mtx, A0_TIMEOUT_NEVER);
   }
 
-- 
2.43.0


From 55f38d003c37009477d2aad293e9e920e73d3b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:05:52 +0000
Subject: [PATCH 13/36] fix: report nothing written when a write-if-empty write
 fails

The flag was set from the emptiness test alone, so it stayed true when the write that followed failed.
---
 src/middleware.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/middleware.c b/src/middleware.c
index eed3849..9767b06 100644
--- a/src/middleware.c
+++ b/src/middleware.c
@@ -233,7 +233,11 @@ a0_err_t a0_write_if_empty_process_locked(void* data, a0_transport_locked_t tlk,
     a0_transport_unlock(tlk);
     return A0_OK;
   }
-  return a0_middleware_chain(chain, pkt);
+  a0_err_t err = a0_middleware_chain(chain, pkt);
+  if (err) {
+    *empty = false;
+  }
+  return err;
 }
 
 a0_middleware_t a0_write_if_empty(bool* written) {
-- 
2.43.0


From f75b40112719dc1fad1f43ef3d6786b4b5dfacdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:34 +0000
Subject: [PATCH 14/36] fix: do not deliver a cancellation as progress

A progress-RPC client treated every packet that names its connection and
is not a completion as progress. A cancellation sent by another client on
the topic therefore invoked the progress callback.
---
 src/prpc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/prpc.c b/src/prpc.c
index 67b73ec..ce75e4c 100644
--- a/src/prpc.c
+++ b/src/prpc.c
@@ -152,6 +152,9 @@ void a0_prpc_client_onpacket(void* user_data, a0_packet_t pkt) {
   }
 
   bool is_complete = !strcmp(type_hdr.val, PRPC_TYPE_COMPLETE);
+  if (!is_complete && strcmp(type_hdr.val, PRPC_TYPE_PROGRESS) != 0) {
+    return;
+  }
 
   a0_err_t err;
   a0_prpc_progress_callback_t cb;
-- 
2.43.0


From eeb3f2adf40d56beba7760b41f1a62df73715d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:34 +0000
Subject: [PATCH 15/36] fix: forget an RPC request that failed or timed out

A request that could not be written, and a blocking request that timed
out, stayed in the client's table of outstanding requests until the
client was closed.
---
 src/rpc.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/rpc.c b/src/rpc.c
index 148cb0b..d573830 100644
--- a/src/rpc.c
+++ b/src/rpc.c
@@ -245,6 +245,13 @@ a0_err_t a0_rpc_client_close(a0_rpc_client_t* client) {
   return A0_OK;
 }
 
+A0_STATIC_INLINE
+void a0_rpc_client_forget(a0_rpc_client_t* client, const a0_uuid_t id) {
+  pthread_mutex_lock(&client->_outstanding_requests_mu);
+  a0_map_del(&client->_outstanding_requests, id);
+  pthread_mutex_unlock(&client->_outstanding_requests_mu);
+}
+
 a0_err_t a0_rpc_client_send(a0_rpc_client_t* client, a0_packet_t pkt, a0_packet_callback_t onresponse) {
   pthread_mutex_lock(&client->_outstanding_requests_mu);
   a0_err_t err = a0_map_put(&client->_outstanding_requests, pkt.id, &onresponse);
@@ -263,7 +270,11 @@ a0_err_t a0_rpc_client_send(a0_rpc_client_t* client, a0_packet_t pkt, a0_packet_
       .next_block = (a0_packet_headers_block_t*)&pkt.headers_block,
   };
 
-  return a0_writer_write(&client->_request_writer, full_pkt);
+  err = a0_writer_write(&client->_request_writer, full_pkt);
+  if (err) {
+    a0_rpc_client_forget(client, pkt.id);
+  }
+  return err;
 }
 
 a0_err_t a0_rpc_client_send_blocking(a0_rpc_client_t* client, a0_packet_t pkt, a0_alloc_t alloc, a0_packet_t* out) {
@@ -300,6 +311,10 @@ a0_err_t a0_rpc_client_send_blocking_timeout(a0_rpc_client_t* client, a0_packet_
     }
   }
 
+  if (err) {
+    a0_rpc_client_forget(client, pkt.id);
+  }
+
   a0_reader_sync_close(&reader_sync);
   return err;
 }
-- 
2.43.0


From aa4bacea3f9d567de3e44386e5a73e51f7d3a3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:55:34 +0000
Subject: [PATCH 16/36] fix: forget a progress-RPC connection that could not be
 announced

---
 src/prpc.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/prpc.c b/src/prpc.c
index ce75e4c..d85ae04 100644
--- a/src/prpc.c
+++ b/src/prpc.c
@@ -259,7 +259,13 @@ a0_err_t a0_prpc_client_connect(a0_prpc_client_t* client, a0_packet_t pkt, a0_pr
       .next_block = (a0_packet_headers_block_t*)&pkt.headers_block,
   };
 
-  return a0_writer_write(&client->_connection_writer, full_pkt);
+  err = a0_writer_write(&client->_connection_writer, full_pkt);
+  if (err) {
+    pthread_mutex_lock(&client->_outstanding_connections_mu);
+    a0_map_del(&client->_outstanding_connections, pkt.id);
+    pthread_mutex_unlock(&client->_outstanding_connections_mu);
+  }
+  return err;
 }
 
 a0_err_t a0_prpc_client_cancel(a0_prpc_client_t* client, const a0_uuid_t uuid) {
-- 
2.43.0


From e93d9b2c0ec09ba35e8c08fc1ad28f87d959b234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:48 +0000
Subject: [PATCH 17/36] fix: remove the temporary file when creating a file
 fails

A file is created under a temporary name and linked to its real name once
it is complete. When setting its size or mode failed, or when it could not
be mapped (for example because its size is zero), the temporary file was
left in the directory.
---
 src/file.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/file.c b/src/file.c
index 17e4b34..5deedf5 100644
--- a/src/file.c
+++ b/src/file.c
@@ -144,6 +144,7 @@ a0_err_t a0_mktmp(const char* dir, a0_file_create_options_t opts, a0_file_t* fil
     close(file->fd);
     file->fd = -1;
 
+    unlink(path);
     free(path);
     file->path = NULL;
 
@@ -251,6 +252,7 @@ a0_err_t a0_do_open(
     err = a0_mmap(file, &opts->open_options);
     if (err) {
       close(file->fd);
+      unlink(file->path);
       free((void*)file->path);
       file->fd = 0;
       file->path = NULL;
-- 
2.43.0


From 746766518a189f557818d37a457ae7342371a9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:48 +0000
Subject: [PATCH 18/36] fix: unmap the file that lost the race to be created

When linking the new file to its name failed, because another process was
first or for any other reason, its mapping was never released.
---
 src/file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/file.c b/src/file.c
index 5deedf5..bf1e06c 100644
--- a/src/file.c
+++ b/src/file.c
@@ -261,6 +261,7 @@ a0_err_t a0_do_open(
 
     err = a0_tmp_move(file, path);
     if (err) {
+      a0_munmap(file);
       close(file->fd);
       file->fd = 0;
       file->path = NULL;
-- 
2.43.0


From e4916ca1c5e110454dcc2baf234bc75b4f9a8e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:48 +0000
Subject: [PATCH 19/36] fix: iterate over the directory the path resolves to

a0_file_iter_init resolved a relative path against the root for the entries
it reports, but looked for the directory relative to the working directory.
a0_file_remove_all of a relative path therefore failed, or removed files
named after the entries of an unrelated directory.
---
 src/file.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/file.c b/src/file.c
index bf1e06c..c084875 100644
--- a/src/file.c
+++ b/src/file.c
@@ -347,25 +347,26 @@ a0_err_t a0_file_iter_init(a0_file_iter_t* iter, const char* path) {
   }
 
   memcpy(iter->_path, abspath, iter->_path_len + 1);
-  free(abspath);
 
   if (iter->_path[iter->_path_len - 1] != '/') {
     iter->_path[iter->_path_len] = '/';
     iter->_path_len++;
   }
 
+  a0_err_t err = A0_OK;
   stat_t stat;
-  A0_RETURN_SYSERR_ON_MINUS_ONE(lstat(path, &stat));
-
-  if (!S_ISDIR(stat.st_mode)) {
-    return A0_MAKE_SYSERR(ENOTDIR);
-  }
-
-  iter->_dir = opendir(path);
-  if (!iter->_dir) {
-    return A0_MAKE_SYSERR(errno);
+  if (lstat(abspath, &stat) == -1) {
+    err = A0_MAKE_SYSERR(errno);
+  } else if (!S_ISDIR(stat.st_mode)) {
+    err = A0_MAKE_SYSERR(ENOTDIR);
+  } else {
+    iter->_dir = opendir(abspath);
+    if (!iter->_dir) {
+      err = A0_MAKE_SYSERR(errno);
+    }
   }
-  return A0_OK;
+  free(abspath);
+  return err;
 }
 
 a0_err_t a0_file_iter_next(a0_file_iter_t* iter, a0_file_iter_entry_t* entry) {
-- 
2.43.0


From 581cbb5ac4a0504d932b2e2fb9b71349b098ad23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:48 +0000
Subject: [PATCH 20/36] fix: refuse directory entries whose path does not fit

a0_file_iter_next wrote past the end of its path buffer when the directory
and the entry's name together were longer than PATH_MAX.
---
 src/file.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/file.c b/src/file.c
index c084875..cc94de8 100644
--- a/src/file.c
+++ b/src/file.c
@@ -341,7 +341,7 @@ a0_err_t a0_file_iter_init(a0_file_iter_t* iter, const char* path) {
   A0_RETURN_ERR_ON_ERR(a0_abspath(path, &abspath));
 
   iter->_path_len = strlen(abspath);
-  if (iter->_path_len > PATH_MAX) {
+  if (iter->_path_len >= PATH_MAX) {
     free(abspath);
     return A0_MAKE_SYSERR(ENAMETOOLONG);
   }
@@ -378,6 +378,9 @@ a0_err_t a0_file_iter_next(a0_file_iter_t* iter, a0_file_iter_entry_t* entry) {
   }
 
   size_t len = strlen(dir_entity->d_name);
+  if (iter->_path_len + len >= sizeof(iter->_path)) {
+    return A0_MAKE_SYSERR(ENAMETOOLONG);
+  }
 
   entry->filename = dir_entity->d_name;
   entry->fullpath = iter->_path;
-- 
2.43.0


From 2e16d5cd8d0adb3be647fdc1914c08c756e7fb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:48 +0000
Subject: [PATCH 21/36] fix: do not scan a directory that is already gone

When a directory was removed before discovery came to scan it, the scan went
on with an uninitialized directory iterator and crashed.
---
 src/discovery.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/discovery.c b/src/discovery.c
index ddd1fe7..4d0910b 100644
--- a/src/discovery.c
+++ b/src/discovery.c
@@ -90,7 +90,9 @@ void a0_discovery_watch_recursive(a0_discovery_t* d, const char* path) {
 
   a0_file_iter_t iter;
   a0_file_iter_entry_t entry;
-  a0_file_iter_init(&iter, path);
+  if (a0_file_iter_init(&iter, path)) {
+    return;
+  }
   while (!a0_file_iter_next(&iter, &entry)) {
     if (entry.d_type == DT_DIR) {
       a0_discovery_watch_recursive(d, entry.fullpath);
-- 
2.43.0


From bd903c31c8bb8ff89ac5e3b11626e798f0518c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:09:48 +0000
Subject: [PATCH 22/36] fix: refuse path patterns with too many parts

a0_pathglob_init wrote past the end of its part array when the path had more
than A0_PATHGLOB_MAX_DEPTH parts.
---
 src/pathglob.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pathglob.c b/src/pathglob.c
index 3bc738a..974f642 100644
--- a/src/pathglob.c
+++ b/src/pathglob.c
@@ -28,6 +28,10 @@ a0_err_t a0_pathglob_init(a0_pathglob_t* glob, const char* path_pattern) {
     if (*iter == '*') {
       has_star = true;
     } else if (*iter == '/') {
+      if (glob->depth + 1 == A0_PATHGLOB_MAX_DEPTH) {
+        a0_pathglob_close(glob);
+        return A0_ERR_BAD_PATH;
+      }
       a0_pathglob_part_type_t type = A0_PATHGLOB_PART_TYPE_VERBATIM;
       if (has_star) {
         type = A0_PATHGLOB_PART_TYPE_PATTERN;
-- 
2.43.0


From fa06a79128f41fd6e5c0071a0cb4be3df2122fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:10:23 +0000
Subject: [PATCH 23/36] fix: watch a directory again after it was removed and
 made anew

Discovery remembered every directory it ever watched. When such a directory
was removed, the kernel dropped the watch, and when it was made again it was
taken to be watched already, so new files in it were never reported.
---
 src/discovery.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/discovery.c b/src/discovery.c
index 4d0910b..9ee296c 100644
--- a/src/discovery.c
+++ b/src/discovery.c
@@ -72,6 +72,15 @@ void a0_discovery_watch_path(a0_discovery_t* d, const char* path) {
   a0_map_put(&d->_reverse_watch_map, &dup, &unused);
 }
 
+A0_STATIC_INLINE
+void a0_discovery_unwatch(a0_discovery_t* d, int wd) {
+  char* path;
+  if (!a0_map_pop(&d->_watch_map, &wd, &path)) {
+    a0_map_del(&d->_reverse_watch_map, &path);
+    free(path);
+  }
+}
+
 A0_STATIC_INLINE
 void a0_discovery_announce(a0_discovery_t* d, const char* path) {
   bool contains;
@@ -184,6 +193,8 @@ a0_err_t a0_discovery_inotify_runone(a0_discovery_t* d) {
       }
 
       free(abspath);
+    } else if (evt->mask & IN_IGNORED) {
+      a0_discovery_unwatch(d, evt->wd);
     }
     i += sizeof(inotify_event_t) + evt->len;
   }
-- 
2.43.0


From d12f6261a73776e19037f311a64de495fcbbe328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:10:23 +0000
Subject: [PATCH 24/36] fix: scan again when the kernel dropped file events

When files were created faster than discovery handled them, the kernel's
event queue overflowed and the files whose events were dropped were never
reported.
---
 src/discovery.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/discovery.c b/src/discovery.c
index 9ee296c..f028021 100644
--- a/src/discovery.c
+++ b/src/discovery.c
@@ -195,6 +195,8 @@ a0_err_t a0_discovery_inotify_runone(a0_discovery_t* d) {
       free(abspath);
     } else if (evt->mask & IN_IGNORED) {
       a0_discovery_unwatch(d, evt->wd);
+    } else if (evt->mask & IN_Q_OVERFLOW) {
+      a0_discovery_watch_root(d);
     }
     i += sizeof(inotify_event_t) + evt->len;
   }
-- 
2.43.0


From 622397ea2621c658e41970097246eb98e59f95f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:10:23 +0000
Subject: [PATCH 25/36] fix: report when discovery cannot be started

a0_discovery_init ignored failures to create its file descriptors and its
thread. It then succeeded without ever reporting a file, leaked what it had
created, and a0_discovery_close joined a thread that did not exist.
---
 src/discovery.c | 64 ++++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 55 insertions(+), 9 deletions(-)

diff --git a/src/discovery.c b/src/discovery.c
index f028021..27a46fd 100644
--- a/src/discovery.c
+++ b/src/discovery.c
@@ -126,23 +126,35 @@ void a0_discovery_watch_root(a0_discovery_t* d) {
 }
 
 A0_STATIC_INLINE
-void a0_discovery_closefd_init(a0_discovery_t* d, int epoll_fd) {
+a0_err_t a0_discovery_closefd_init(a0_discovery_t* d, int epoll_fd) {
   d->_close_fd = eventfd(0, EFD_NONBLOCK);
+  A0_RETURN_SYSERR_ON_MINUS_ONE(d->_close_fd);
 
   epoll_event_t evt = A0_EMPTY;
   evt.events = EPOLLIN;
   evt.data.fd = d->_close_fd;
-  epoll_ctl(epoll_fd, EPOLL_CTL_ADD, d->_close_fd, &evt);
+  if (epoll_ctl(epoll_fd, EPOLL_CTL_ADD, d->_close_fd, &evt) == -1) {
+    a0_err_t err = A0_MAKE_SYSERR(errno);
+    close(d->_close_fd);
+    return err;
+  }
+  return A0_OK;
 }
 
 A0_STATIC_INLINE
-void a0_discovery_inotify_init(a0_discovery_t* d, int epoll_fd) {
+a0_err_t a0_discovery_inotify_init(a0_discovery_t* d, int epoll_fd) {
   d->_inotify_fd = inotify_init1(IN_NONBLOCK);
+  A0_RETURN_SYSERR_ON_MINUS_ONE(d->_inotify_fd);
 
   epoll_event_t evt = A0_EMPTY;
   evt.events = EPOLLIN;
   evt.data.fd = d->_inotify_fd;
-  epoll_ctl(epoll_fd, EPOLL_CTL_ADD, d->_inotify_fd, &evt);
+  if (epoll_ctl(epoll_fd, EPOLL_CTL_ADD, d->_inotify_fd, &evt) == -1) {
+    a0_err_t err = A0_MAKE_SYSERR(errno);
+    close(d->_inotify_fd);
+    return err;
+  }
+  return A0_OK;
 }
 
 A0_STATIC_INLINE
@@ -205,8 +217,10 @@ a0_err_t a0_discovery_inotify_runone(a0_discovery_t* d) {
 }
 
 A0_STATIC_INLINE
-void a0_discovery_epoll_init(a0_discovery_t* d) {
+a0_err_t a0_discovery_epoll_init(a0_discovery_t* d) {
   d->_epoll_fd = epoll_create1(0);
+  A0_RETURN_SYSERR_ON_MINUS_ONE(d->_epoll_fd);
+  return A0_OK;
 }
 
 A0_STATIC_INLINE
@@ -250,6 +264,14 @@ void* a0_discovery_thread(void* arg) {
   return NULL;
 }
 
+A0_STATIC_INLINE
+void a0_discovery_maps_close(a0_discovery_t* d) {
+  a0_map_close(&d->_discovered_map);
+  a0_map_close(&d->_reverse_watch_map);
+  a0_map_close(&d->_watch_map);
+  a0_pathglob_close(&d->_pathglob);
+}
+
 a0_err_t a0_discovery_init(a0_discovery_t* d, const char* path_pattern, a0_discovery_callback_t callback) {
   d->_callback = callback;
 
@@ -294,11 +316,35 @@ a0_err_t a0_discovery_init(a0_discovery_t* d, const char* path_pattern, a0_disco
     return err;
   }
 
-  a0_discovery_epoll_init(d);
-  a0_discovery_closefd_init(d, d->_epoll_fd);
-  a0_discovery_inotify_init(d, d->_epoll_fd);
+  err = a0_discovery_epoll_init(d);
+  if (err) {
+    a0_discovery_maps_close(d);
+    return err;
+  }
 
-  pthread_create(&d->_thread, NULL, a0_discovery_thread, d);
+  err = a0_discovery_closefd_init(d, d->_epoll_fd);
+  if (err) {
+    close(d->_epoll_fd);
+    a0_discovery_maps_close(d);
+    return err;
+  }
+
+  err = a0_discovery_inotify_init(d, d->_epoll_fd);
+  if (err) {
+    close(d->_close_fd);
+    close(d->_epoll_fd);
+    a0_discovery_maps_close(d);
+    return err;
+  }
+
+  int create_err = pthread_create(&d->_thread, NULL, a0_discovery_thread, d);
+  if (create_err) {
+    close(d->_inotify_fd);
+    close(d->_close_fd);
+    close(d->_epoll_fd);
+    a0_discovery_maps_close(d);
+    return A0_MAKE_SYSERR(create_err);
+  }
 
   return A0_OK;
 }
-- 
2.43.0


From 937490e2289d59022d66fe2380dfbc79ae15d25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:35 +0000
Subject: [PATCH 26/36] fix: keep an endpoint open while its reader cannot be
 stopped

Closing a reader from its own callback is refused. The endpoints built on a
reader ignored that and went on to unmap the file, so that the reader thread
crashed when the callback returned. They now report the error and stay open.
---
 src/cfg.c    | 2 +-
 src/log.c    | 2 +-
 src/prpc.c   | 4 ++--
 src/pubsub.c | 4 ++--
 src/rpc.c    | 4 ++--
 5 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/cfg.c b/src/cfg.c
index ea96204..53935f6 100644
--- a/src/cfg.c
+++ b/src/cfg.c
@@ -127,7 +127,7 @@ a0_err_t a0_cfg_watcher_init(a0_cfg_watcher_t* cw,
 }
 
 a0_err_t a0_cfg_watcher_close(a0_cfg_watcher_t* cw) {
-  a0_reader_close(&cw->_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&cw->_reader));
   a0_file_close(&cw->_file);
   return A0_OK;
 }
diff --git a/src/log.c b/src/log.c
index 0923f8b..4b31f25 100644
--- a/src/log.c
+++ b/src/log.c
@@ -164,7 +164,7 @@ a0_err_t a0_log_listener_init(a0_log_listener_t* log_list,
 }
 
 a0_err_t a0_log_listener_close(a0_log_listener_t* log_list) {
-  a0_reader_close(&log_list->_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&log_list->_reader));
   a0_file_close(&log_list->_file);
   return A0_OK;
 }
diff --git a/src/prpc.c b/src/prpc.c
index d85ae04..523d6cf 100644
--- a/src/prpc.c
+++ b/src/prpc.c
@@ -105,7 +105,7 @@ a0_err_t a0_prpc_server_init(a0_prpc_server_t* server,
 }
 
 a0_err_t a0_prpc_server_close(a0_prpc_server_t* server) {
-  a0_reader_close(&server->_connection_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&server->_connection_reader));
   a0_writer_close(&server->_progress_writer);
   a0_file_close(&server->_file);
   return A0_OK;
@@ -233,7 +233,7 @@ a0_err_t a0_prpc_client_init(a0_prpc_client_t* client,
 }
 
 a0_err_t a0_prpc_client_close(a0_prpc_client_t* client) {
-  a0_reader_close(&client->_progress_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&client->_progress_reader));
   a0_writer_close(&client->_connection_writer);
   a0_file_close(&client->_file);
   a0_map_close(&client->_outstanding_connections);
diff --git a/src/pubsub.c b/src/pubsub.c
index fd959dd..035af30 100644
--- a/src/pubsub.c
+++ b/src/pubsub.c
@@ -168,7 +168,7 @@ a0_err_t a0_subscriber_zc_init(a0_subscriber_zc_t* sub_zc,
 }
 
 a0_err_t a0_subscriber_zc_close(a0_subscriber_zc_t* sub_zc) {
-  a0_reader_zc_close(&sub_zc->_reader_zc);
+  A0_RETURN_ERR_ON_ERR(a0_reader_zc_close(&sub_zc->_reader_zc));
   a0_file_close(&sub_zc->_file);
   return A0_OK;
 }
@@ -197,7 +197,7 @@ a0_err_t a0_subscriber_init(a0_subscriber_t* sub,
 }
 
 a0_err_t a0_subscriber_close(a0_subscriber_t* sub) {
-  a0_reader_close(&sub->_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&sub->_reader));
   a0_file_close(&sub->_file);
   return A0_OK;
 }
diff --git a/src/rpc.c b/src/rpc.c
index d573830..fb4ca1d 100644
--- a/src/rpc.c
+++ b/src/rpc.c
@@ -105,7 +105,7 @@ a0_err_t a0_rpc_server_init(a0_rpc_server_t* server,
 }
 
 a0_err_t a0_rpc_server_close(a0_rpc_server_t* server) {
-  a0_reader_close(&server->_request_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&server->_request_reader));
   a0_writer_close(&server->_response_writer);
   a0_file_close(&server->_file);
   return A0_OK;
@@ -237,7 +237,7 @@ a0_err_t a0_rpc_client_init(a0_rpc_client_t* client,
 }
 
 a0_err_t a0_rpc_client_close(a0_rpc_client_t* client) {
-  a0_reader_close(&client->_response_reader);
+  A0_RETURN_ERR_ON_ERR(a0_reader_close(&client->_response_reader));
   a0_writer_close(&client->_request_writer);
   a0_file_close(&client->_file);
   a0_map_close(&client->_outstanding_requests);
-- 
2.43.0


From d388401613e3a5ceac33dc60d3aa60f80d830606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:13:37 +0000
Subject: [PATCH 27/36] fix: refuse to close discovery from its own callback

The thread cannot wait for itself, so everything it uses was released while
it was still running.
---
 src/discovery.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/discovery.c b/src/discovery.c
index 27a46fd..7832f7a 100644
--- a/src/discovery.c
+++ b/src/discovery.c
@@ -350,6 +350,10 @@ a0_err_t a0_discovery_init(a0_discovery_t* d, const char* path_pattern, a0_disco
 }
 
 a0_err_t a0_discovery_close(a0_discovery_t* d) {
+  if (pthread_equal(pthread_self(), d->_thread)) {
+    return A0_MAKE_SYSERR(EDEADLK);
+  }
+
   uint64_t writ = 1;
   (void)!write(d->_close_fd, &writ, sizeof(uint64_t));
   pthread_join(d->_thread, NULL);
-- 
2.43.0


From af38d0d90b2e429e47b370dd6e79440516789330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:10 +0000
Subject: [PATCH 28/36] fix: reseed the id generator in a forked child

---
 src/rand.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/rand.c b/src/rand.c
index b269f7b..64758d0 100644
--- a/src/rand.c
+++ b/src/rand.c
@@ -1,18 +1,34 @@
 #include "rand.h"
 
+#include <a0/inline.h>
 #include <a0/thread_local.h>
 
 #include <fcntl.h>
+#include <pthread.h>
 #include <stdbool.h>
+#include <stddef.h>
 #include <stdint.h>
 #include <stdlib.h>
 #include <unistd.h>
 
 A0_THREAD_LOCAL uint16_t a0_xsubi[3];
 A0_THREAD_LOCAL bool a0_xsubi_init = false;
+static pthread_once_t a0_xsubi_reset_atfork_once = PTHREAD_ONCE_INIT;
+
+A0_STATIC_INLINE
+void a0_xsubi_reset() {
+  a0_xsubi_init = false;
+}
+
+A0_STATIC_INLINE
+void a0_xsubi_reset_atfork() {
+  // A forked child must not continue the sequence of its parent.
+  pthread_atfork(NULL, NULL, &a0_xsubi_reset);
+}
 
 uint32_t a0_mrand48() {
   if (!a0_xsubi_init) {
+    pthread_once(&a0_xsubi_reset_atfork_once, a0_xsubi_reset_atfork);
     // TODO(lshamis): error handling.
     int fd = open("/dev/urandom", O_RDONLY);
     ssize_t todo_use_this = read(fd, a0_xsubi, sizeof(a0_xsubi));
-- 
2.43.0


From fa6d3cdcd8c933cc16d4371870c2c9bb9e4fa049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:10 +0000
Subject: [PATCH 29/36] fix: seed the id generator without needing a free
 descriptor

---
 src/rand.c | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/rand.c b/src/rand.c
index 64758d0..d5bfb26 100644
--- a/src/rand.c
+++ b/src/rand.c
@@ -3,13 +3,12 @@
 #include <a0/inline.h>
 #include <a0/thread_local.h>
 
-#include <fcntl.h>
 #include <pthread.h>
 #include <stdbool.h>
 #include <stddef.h>
 #include <stdint.h>
 #include <stdlib.h>
-#include <unistd.h>
+#include <sys/random.h>
 
 A0_THREAD_LOCAL uint16_t a0_xsubi[3];
 A0_THREAD_LOCAL bool a0_xsubi_init = false;
@@ -29,11 +28,9 @@ void a0_xsubi_reset_atfork() {
 uint32_t a0_mrand48() {
   if (!a0_xsubi_init) {
     pthread_once(&a0_xsubi_reset_atfork_once, a0_xsubi_reset_atfork);
-    // TODO(lshamis): error handling.
-    int fd = open("/dev/urandom", O_RDONLY);
-    ssize_t todo_use_this = read(fd, a0_xsubi, sizeof(a0_xsubi));
-    (void)todo_use_this;
-    close(fd);
+    // Needs no descriptor, and for so few bytes fails only if interrupted.
+    while (getrandom(a0_xsubi, sizeof(a0_xsubi), 0) != sizeof(a0_xsubi)) {
+    }
     a0_xsubi_init = true;
   }
   return jrand48(a0_xsubi);
-- 
2.43.0


From 55703e654cad959df12314110046269fbc8fc60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:05:17 +0000
Subject: [PATCH 30/36] fix: refuse calls on unconstructed Cfg, RpcRequest and
 PrpcConnection objects

Their methods dereferenced the missing handle instead of throwing like
every other C++ wrapper.
---
 src/cfg.cpp  | 8 ++++++++
 src/prpc.cpp | 1 +
 src/rpc.cpp  | 1 +
 3 files changed, 10 insertions(+)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index 599fcc5..c07237a 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -76,44 +76,52 @@ Packet Cfg_read(std::function<a0_err_t(a0_alloc_t, a0_packet_t*)> fn) {
 }
 
 Packet Cfg::read() const {
+  CHECK_C;
   return Cfg_read([&](a0_alloc_t alloc, a0_packet_t* pkt) {
     return a0_cfg_read(&*c, alloc, pkt);
   });
 }
 
 Packet Cfg::read_blocking() const {
+  CHECK_C;
   return Cfg_read([&](a0_alloc_t alloc, a0_packet_t* pkt) {
     return a0_cfg_read_blocking(&*c, alloc, pkt);
   });
 }
 
 Packet Cfg::read_blocking(TimeMono timeout) const {
+  CHECK_C;
   return Cfg_read([&](a0_alloc_t alloc, a0_packet_t* pkt) {
     return a0_cfg_read_blocking_timeout(&*c, alloc, &*timeout.c, pkt);
   });
 }
 
 void Cfg::write(Packet pkt) {
+  CHECK_C;
   check(a0_cfg_write(&*c, *pkt.c));
 }
 
 bool Cfg::write_if_empty(Packet pkt) {
+  CHECK_C;
   bool written;
   check(a0_cfg_write_if_empty(&*c, *pkt.c, &written));
   return written;
 }
 
 void Cfg::mergepatch(Packet pkt) {
+  CHECK_C;
   check(a0_cfg_mergepatch(&*c, *pkt.c));
 }
 
 #ifdef A0_EXT_NLOHMANN
 
 void Cfg::register_var(std::weak_ptr<std::function<void(const nlohmann::json&)>> updater) {
+  CHECK_C;
   c_impl<CfgImpl>(&c)->var_updaters.push_back(updater);
 }
 
 void Cfg::update_var() {
+  CHECK_C;
   auto json_cfg = nlohmann::json::parse(read().payload());
 
   auto* weak_updaters = &c_impl<CfgImpl>(&c)->var_updaters;
diff --git a/src/prpc.cpp b/src/prpc.cpp
index 278d0fe..d03b9bf 100644
--- a/src/prpc.cpp
+++ b/src/prpc.cpp
@@ -34,6 +34,7 @@ struct PrpcServerRequestImpl {
 }  // namespace
 
 PrpcServer PrpcConnection::server() {
+  CHECK_C;
   // Note: this does not extend the server lifetime.
   return cpp_wrap<PrpcServer>(*c->server);
 }
diff --git a/src/rpc.cpp b/src/rpc.cpp
index 84d5e85..c703114 100644
--- a/src/rpc.cpp
+++ b/src/rpc.cpp
@@ -36,6 +36,7 @@ struct RpcServerRequestImpl {
 }  // namespace
 
 RpcServer RpcRequest::server() {
+  CHECK_C;
   // Note: this does not extend the server lifetime.
   return cpp_wrap<RpcServer>(*c->server);
 }
-- 
2.43.0


From 1a94a40ae9b834b85e589020d0c8ed443a1d29e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:05:17 +0000
Subject: [PATCH 31/36] fix: keep RPC reply and progress packets' data alive in
 the C++ clients

Packets handed to reply and progress callbacks pointed into the client's
read buffer, which the next reply overwrites. A packet kept past the
callback, such as the one in the future returned by send, changed or
dangled.
---
 src/prpc.cpp | 4 +++-
 src/rpc.cpp  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/prpc.cpp b/src/prpc.cpp
index d03b9bf..f76dfe0 100644
--- a/src/prpc.cpp
+++ b/src/prpc.cpp
@@ -183,7 +183,9 @@ void PrpcClient::connect(Packet pkt, std::function<void(Packet, bool /* done */)
             }
           }
 
-          onprogress(Packet(prog, nullptr), done);
+          auto data = std::make_shared<std::vector<uint8_t>>();
+          std::swap(*data, impl->data);
+          onprogress(Packet(prog, [data](a0_packet_t*) {}), done);
         },
     };
   }
diff --git a/src/rpc.cpp b/src/rpc.cpp
index c703114..3eeb8b5 100644
--- a/src/rpc.cpp
+++ b/src/rpc.cpp
@@ -183,7 +183,9 @@ void RpcClient::send(Packet pkt, std::function<void(Packet)> onreply) {
             impl->user_onreply.erase(iter);
           }
 
-          onreply(Packet(resp, nullptr));
+          auto data = std::make_shared<std::vector<uint8_t>>();
+          std::swap(*data, impl->data);
+          onreply(Packet(resp, [data](a0_packet_t*) {}));
         },
     };
   }
-- 
2.43.0


From a9ea5f3e5d7d4006991839c2c918669577315016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:05:17 +0000
Subject: [PATCH 32/36] fix: ignore cancels in C++ servers created without a
 cancel handler

The README passes nullptr as oncancel. A client's cancel then called the
empty function, which terminated the server's process.
---
 src/prpc.cpp | 4 +++-
 src/rpc.cpp  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/prpc.cpp b/src/prpc.cpp
index f76dfe0..ea94fca 100644
--- a/src/prpc.cpp
+++ b/src/prpc.cpp
@@ -103,7 +103,9 @@ PrpcServer::PrpcServer(
             .user_data = impl,
             .fn = [](void* user_data, a0_uuid_t id) {
               auto* impl = (PrpcServerImpl*)user_data;
-              impl->oncancel(id);
+              if (impl->oncancel) {
+                impl->oncancel(id);
+              }
             }};
 
         return a0_prpc_server_init(c, c_topic, alloc, c_onconnect, c_oncancel);
diff --git a/src/rpc.cpp b/src/rpc.cpp
index 3eeb8b5..5048fb0 100644
--- a/src/rpc.cpp
+++ b/src/rpc.cpp
@@ -105,7 +105,9 @@ RpcServer::RpcServer(
             .user_data = impl,
             .fn = [](void* user_data, a0_uuid_t id) {
               auto* impl = (RpcServerImpl*)user_data;
-              impl->oncancel(id);
+              if (impl->oncancel) {
+                impl->oncancel(id);
+              }
             }};
 
         return a0_rpc_server_init(c, c_topic, alloc, c_onrequest, c_oncancel);
-- 
2.43.0


From 885aeaa1f5c8095dda5ea04c41cc26de72c980cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:37:13 +0000
Subject: [PATCH 33/36] fix: terminate the message of an exception thrown by a
 wait predicate

---
 src/transport.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transport.cpp b/src/transport.cpp
index cb7f980..2b67e9d 100644
--- a/src/transport.cpp
+++ b/src/transport.cpp
@@ -138,7 +138,7 @@ a0_predicate_t pred(std::function<bool()>* fn) {
         } catch (const std::exception& e) {
           size_t len = std::min(1023ul, strnlen(e.what(), 1023));
           memcpy(a0_err_msg, e.what(), len);
-          a0_err_msg[1023] = '\0';
+          a0_err_msg[len] = '\0';
           return A0_ERR_CUSTOM_MSG;
         }
         return A0_OK;
-- 
2.43.0


From 030596a0ecbb4a0c25fc81a79394308d8b5f740f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:37:55 +0000
Subject: [PATCH 34/36] fix: compare pointers and buffer sizes without
 truncating the difference

---
 src/cmp.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cmp.c b/src/cmp.c
index 76d9f77..fce9483 100644
--- a/src/cmp.c
+++ b/src/cmp.c
@@ -58,7 +58,9 @@ const a0_hash_t A0_HASH_PTR = {
 
 a0_err_t a0_cmp_ptr_fn(void* user_data, const void* lhs, const void* rhs, int* out) {
   A0_MAYBE_UNUSED(user_data);
-  *out = (int)(*(uintptr_t*)lhs - *(uintptr_t*)rhs);
+  uintptr_t lhs_ptr = *(uintptr_t*)lhs;
+  uintptr_t rhs_ptr = *(uintptr_t*)rhs;
+  *out = (lhs_ptr > rhs_ptr) - (lhs_ptr < rhs_ptr);
   return A0_OK;
 }
 
@@ -93,7 +95,7 @@ a0_err_t a0_cmp_buf_fn(void* user_data, const void* lhs, const void* rhs, int* o
   a0_buf_t* lhs_buf = (a0_buf_t*)lhs;
   a0_buf_t* rhs_buf = (a0_buf_t*)rhs;
   if (lhs_buf->size != rhs_buf->size) {
-    *out = (int)(lhs_buf->size) - (int)(rhs_buf->size);
+    *out = (lhs_buf->size > rhs_buf->size) - (lhs_buf->size < rhs_buf->size);
   } else {
     *out = memcmp(lhs_buf->data, rhs_buf->data, lhs_buf->size);
   }
-- 
2.43.0


From 1df932bb7cbb533ff4ed01922039379f2120616c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:50:48 +0000
Subject: [PATCH 35/36] fix: pass terminated copies of string views to the C
 functions

File, topic, time and cancel functions of the C++ interface handed the data
of a view to functions that expect a terminated string. A view of a part of
a longer text then named another file than the one asked for.
---
 src/file.cpp  | 6 +++---
 src/prpc.cpp  | 2 +-
 src/rpc.cpp   | 2 +-
 src/time.cpp  | 4 ++--
 src/topic.cpp | 4 ++--
 5 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/file.cpp b/src/file.cpp
index af06416..07b6bc9 100644
--- a/src/file.cpp
+++ b/src/file.cpp
@@ -37,7 +37,7 @@ File::File(string_view path, Options opts) {
       &c,
       [&](a0_file_t* c) {
         auto c_opts = c_fileopts(opts);
-        return a0_file_open(path.data(), &c_opts, c);
+        return a0_file_open(std::string(path).c_str(), &c_opts, c);
       },
       a0_file_close);
 }
@@ -86,7 +86,7 @@ stat_t File::stat() const {
 }
 
 void File::remove(string_view path) {
-  auto err = a0_file_remove(path.data());
+  auto err = a0_file_remove(std::string(path).c_str());
   // Ignore "No such file or directory" errors.
   if (A0_SYSERR(err) == ENOENT) {
     return;
@@ -95,7 +95,7 @@ void File::remove(string_view path) {
 }
 
 void File::remove_all(string_view path) {
-  check(a0_file_remove_all(path.data()));
+  check(a0_file_remove_all(std::string(path).c_str()));
 }
 
 }  // namespace a0
diff --git a/src/prpc.cpp b/src/prpc.cpp
index ea94fca..797f3b5 100644
--- a/src/prpc.cpp
+++ b/src/prpc.cpp
@@ -197,7 +197,7 @@ void PrpcClient::connect(Packet pkt, std::function<void(Packet, bool /* done */)
 
 void PrpcClient::cancel(string_view id) {
   CHECK_C;
-  check(a0_prpc_client_cancel(&*c, id.data()));
+  check(a0_prpc_client_cancel(&*c, std::string(id).c_str()));
 }
 
 }  // namespace a0
diff --git a/src/rpc.cpp b/src/rpc.cpp
index 5048fb0..c63d71d 100644
--- a/src/rpc.cpp
+++ b/src/rpc.cpp
@@ -245,7 +245,7 @@ std::future<Packet> RpcClient::send(Packet pkt) {
 
 void RpcClient::cancel(string_view id) {
   CHECK_C;
-  check(a0_rpc_client_cancel(&*c, id.data()));
+  check(a0_rpc_client_cancel(&*c, std::string(id).c_str()));
 }
 
 }  // namespace a0
diff --git a/src/time.cpp b/src/time.cpp
index 9357c75..84401b2 100644
--- a/src/time.cpp
+++ b/src/time.cpp
@@ -32,7 +32,7 @@ std::string TimeMono::to_string() {
 TimeMono TimeMono::parse(string_view str) {
   return make_cpp<TimeMono>(
       [&](a0_time_mono_t* c) {
-        return a0_time_mono_parse(str.data(), c);
+        return a0_time_mono_parse(std::string(str).c_str(), c);
       });
 }
 
@@ -103,7 +103,7 @@ std::string TimeWall::to_string() {
 TimeWall TimeWall::parse(string_view str) {
   return make_cpp<TimeWall>(
       [&](a0_time_wall_t* c) {
-        return a0_time_wall_parse(str.data(), c);
+        return a0_time_wall_parse(std::string(str).c_str(), c);
       });
 }
 
diff --git a/src/topic.cpp b/src/topic.cpp
index 2bed46a..a34599e 100644
--- a/src/topic.cpp
+++ b/src/topic.cpp
@@ -14,7 +14,7 @@ namespace a0 {
 
 std::string topic_path(string_view tmpl, string_view topic) {
   const char* path;
-  check(a0_topic_path(tmpl.data(), topic.data(), &path));
+  check(a0_topic_path(std::string(tmpl).c_str(), std::string(topic).c_str(), &path));
   std::string ret = path;
   free((void*)path);
   return ret;
@@ -24,7 +24,7 @@ File topic_open(string_view tmpl, string_view topic, File::Options opts) {
   return make_cpp<File>(
       [&](a0_file_t* c) {
         auto c_opts = c_fileopts(opts);
-        return a0_topic_open(tmpl.data(), topic.data(), &c_opts, c);
+        return a0_topic_open(std::string(tmpl).c_str(), std::string(topic).c_str(), &c_opts, c);
       },
       a0_file_close);
 }
-- 
2.43.0


From ca1ac6bc78a09ff2610bf9ae03ec54a6ab9dc132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:55:10 +0000
Subject: [PATCH 36/36] fix: Do not sleep for a deadman mutex that is free

A thread that sampled the mutex word as free, then lost the race for it,
announced itself as a waiter on the sampled value. If the winner had released
the mutex in the meantime the announcement succeeded on a free mutex, and the
thread slept until somebody else took it.
---
 src/deadman_mtx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/deadman_mtx.c b/src/deadman_mtx.c
index a533494..934dcbe 100644
--- a/src/deadman_mtx.c
+++ b/src/deadman_mtx.c
@@ -93,7 +93,8 @@ a0_err_t a0_deadman_mtx_timedlock_impl(a0_deadman_mtx_t* d, a0_time_mono_t* time
     err = A0_OK;
 
     uint32_t new = old | FUTEX_WAITERS;
-    if (a0_cas(&d->_stkn->_mtx.ftx, old, new)) {
+    // Nobody would wake a thread that sleeps while the mutex is free.
+    if (a0_ftx_tid(old) && a0_cas(&d->_stkn->_mtx.ftx, old, new)) {
       err = a0_ftx_wait(&d->_stkn->_mtx.ftx, new, timeout);
     }
   }
-- 
2.43.0

