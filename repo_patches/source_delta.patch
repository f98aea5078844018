From c9803eed77266dc2250128ca621897213159d499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 01/27] fix: negotiate any of the writer's content types, not
 only the first

A mismatch of an earlier configured content type was remembered even if a
later one matched the ACCEPT frame, so that the open failed.
---
 fstrm/writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fstrm/writer.c b/fstrm/writer.c
index a623ba1..fb42cf6 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -190,6 +190,7 @@ fstrm__writer_open_bidirectional(struct fstrm_writer *w)
 		res = fstrm_control_match_field_content_type(w->control_accept,
 			ctype.data, ctype.len);
 		if (res == fstrm_res_success) {
+			match = true;
 			match_ctype = ctype.data;
 			len_match_ctype = ctype.len;
 			break;
-- 
2.43.0


From db58253bd7308dc4fb47929a8f817ecc66142c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:23 +0000
Subject: [PATCH 02/27] fix: close the transport when the opening handshake
 fails

fstrm_writer_open() and fstrm_reader_open() left the transport open when the
handshake failed without a transport error. The descriptor leaked, and a retry
continued on the half-handshaked connection.
---
 fstrm/reader.c | 9 +++++----
 fstrm/writer.c | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index 240ac0a..d599d7e 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -265,13 +265,14 @@ fstrm_reader_open(struct fstrm_reader *r)
 	if (r->rdwr->ops.write != NULL) {
 		/* Bi-directional transport. */
 		res = fstrm__reader_open_bidirectional(r);
-		if (res != fstrm_res_success)
-			return res;
 	} else {
 		/* Uni-directional transport. */
 		res = fstrm__reader_open_unidirectional(r);
-		if (res != fstrm_res_success)
-			return res;
+	}
+	if (res != fstrm_res_success) {
+		/* Don't leave a half-handshaked transport open. */
+		(void)fstrm_rdwr_close(r->rdwr);
+		return res;
 	}
 
 	r->state = fstrm_reader_state_opened;
diff --git a/fstrm/writer.c b/fstrm/writer.c
index fb42cf6..9ab783f 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -276,13 +276,14 @@ fstrm_writer_open(struct fstrm_writer *w)
 	if (w->rdwr->ops.read != NULL) {
 		/* Bi-directional transport. */
 		res = fstrm__writer_open_bidirectional(w);
-		if (res != fstrm_res_success)
-			return res;
 	} else {
 		/* Uni-directional transport. */
 		res = fstrm__writer_open_unidirectional(w);
-		if (res != fstrm_res_success)
-			return res;
+	}
+	if (res != fstrm_res_success) {
+		/* Don't leave a half-handshaked transport open. */
+		(void)fstrm_rdwr_close(w->rdwr);
+		return res;
 	}
 
 	w->state = fstrm_writer_state_opened;
-- 
2.43.0


From fb9c18747514933f1761b7a048c1f4bac21a132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:24 +0000
Subject: [PATCH 03/27] fix: refuse to reopen a reader whose transport is still
 open

After the STOP frame has been read, the transport stays open until the reader
is closed. fstrm_reader_open() opened it a second time in this state.
---
 fstrm/reader.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index d599d7e..c510055 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -255,8 +255,11 @@ fstrm_reader_open(struct fstrm_reader *r)
 {
 	fstrm_res res;
 
-	if (r->state == fstrm_reader_state_opened)
+	if (r->state == fstrm_reader_state_opened ||
+	    r->state == fstrm_reader_state_closing)
+	{
 		return fstrm_res_failure;
+	}
 
 	res = fstrm_rdwr_open(r->rdwr);
 	if (res != fstrm_res_success)
-- 
2.43.0


From b92073b78ba506ac49fb2dab6bf673718d876793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 04/27] fix: report failure when a data frame exceeds the
 maximum frame size

fstrm_reader_read() returned success without setting its output parameters.
---
 fstrm/reader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index c510055..975f8e8 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -313,8 +313,10 @@ fstrm__reader_next_data(struct fstrm_reader *r,
 			/* This is a data frame. */
 
 			/* Enforce maximum frame size. */
-			if (unlikely(len > r->max_frame_size))
+			if (unlikely(len > r->max_frame_size)) {
+				res = fstrm_res_failure;
 				goto fail;
+			}
 
 			/* Read the data frame. */
 			ubuf_clip(r->buf, 0);
-- 
2.43.0


From 361823dfc7ac00d80668965f9b331d381fdf4cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:26 +0000
Subject: [PATCH 05/27] fix: close the transport when the reader fails on
 malformed input

Neither fstrm_reader_close() nor fstrm_reader_destroy() closes the transport of
a failed reader, so it leaked after an oversized or malformed frame.
---
 fstrm/reader.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index 975f8e8..8b49626 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -355,6 +355,8 @@ fstrm__reader_next_data(struct fstrm_reader *r,
 		}
 	}
 fail:
+	/* A failed reader can't be closed, so close the transport here. */
+	(void)fstrm_rdwr_close(r->rdwr);
 	r->state = fstrm_reader_state_failed;
 	return res;
 }
-- 
2.43.0


From cb2137e5765255de48049d3d2b9347a5c460aa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:27 +0000
Subject: [PATCH 06/27] fix: don't leak the STOP frame when a reader is
 reopened

The object of the previous stream's STOP frame was overwritten.
---
 fstrm/reader.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index 8b49626..d53ab28 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -347,9 +347,10 @@ fstrm__reader_next_data(struct fstrm_reader *r,
 				(void)fstrm__rdwr_write_control(r->rdwr,
 					FSTRM_CONTROL_FINISH, NULL);
 				*/
+				struct fstrm_control *stop = r->control_tmp;
 				r->state = fstrm_reader_state_closing;
-				r->control_stop = r->control_tmp;
-				r->control_tmp = NULL;
+				r->control_tmp = r->control_stop;
+				r->control_stop = stop;
 				return fstrm_res_stop;
 			}
 		}
-- 
2.43.0


From 8ae7420c91d0ead7614e7642df5b5300374f14bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:28 +0000
Subject: [PATCH 07/27] fix: don't report success for a control frame that does
 not exist

fstrm_reader_get_control() and fstrm_writer_get_control() returned success with
a NULL object, so that fstrm_dump and fstrm_replay took a truncated file for a
complete one.
---
 fstrm/reader.c | 4 ++++
 fstrm/writer.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index d53ab28..32a8ac2 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -452,5 +452,9 @@ fstrm_reader_get_control(struct fstrm_reader *r,
 		return fstrm_res_failure;
 	}
 
+	/* The frame may not have been sent or received. */
+	if (*control == NULL)
+		return fstrm_res_failure;
+
 	return fstrm_res_success;
 }
diff --git a/fstrm/writer.c b/fstrm/writer.c
index 9ab783f..99328c6 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -444,5 +444,9 @@ fstrm_writer_get_control(struct fstrm_writer *w,
 		return fstrm_res_failure;
 	}
 
+	/* The frame may not have been sent or received. */
+	if (*control == NULL)
+		return fstrm_res_failure;
+
 	return fstrm_res_success;
 }
-- 
2.43.0


From 07f92782e28f1418aa3d922c606d66a8bb7ae434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:23 +0000
Subject: [PATCH 08/27] fix: continue a partial socket write where it stopped

After a partial sendmsg() the buffers that had been sent completely were sent
again, corrupting the stream, and the search for the first unsent buffer could
run past the end of the array.
---
 fstrm/tcp_writer.c  | 25 ++++++++++++-------------
 fstrm/unix_writer.c | 25 ++++++++++++-------------
 2 files changed, 24 insertions(+), 26 deletions(-)

diff --git a/fstrm/tcp_writer.c b/fstrm/tcp_writer.c
index 4a9bc86..04be821 100644
--- a/fstrm/tcp_writer.c
+++ b/fstrm/tcp_writer.c
@@ -168,9 +168,7 @@ fstrm__tcp_writer_op_write(void *obj, const struct iovec *iov, int iovcnt)
 {
 	struct fstrm__tcp_writer *w = obj;
 
-	size_t nbytes = 0;
 	ssize_t written = 0;
-	int cur = 0;
 	struct msghdr msg = {
 		.msg_iov = (struct iovec *) /* Grr! */ iov,
 		.msg_iovlen = iovcnt,
@@ -179,27 +177,28 @@ fstrm__tcp_writer_op_write(void *obj, const struct iovec *iov, int iovcnt)
 	if (unlikely(!w->connected))
 		return fstrm_res_failure;
 
-	for (int i = 0; i < iovcnt; i++)
-		nbytes += iov[i].iov_len;
-
 	for (;;) {
 		do {
 			written = sendmsg(w->fd, &msg, MSG_NOSIGNAL);
 		} while (written == -1 && errno == EINTR);
 		if (written == -1)
 			return fstrm_res_failure;
-		if (cur == 0 && written == (ssize_t) nbytes)
-			return fstrm_res_success;
 
-		while (written >= (ssize_t) msg.msg_iov[cur].iov_len)
-		       written -= msg.msg_iov[cur++].iov_len;
+		/* Skip the buffers that have been sent completely. */
+		while (msg.msg_iovlen > 0 &&
+		       written >= (ssize_t) msg.msg_iov[0].iov_len)
+		{
+			written -= msg.msg_iov[0].iov_len;
+			msg.msg_iov++;
+			msg.msg_iovlen--;
+		}
 
-		if (cur == iovcnt)
+		if (msg.msg_iovlen == 0)
 			return fstrm_res_success;
 
-		msg.msg_iov[cur].iov_base = (void *)
-			((char *) msg.msg_iov[cur].iov_base + written);
-		msg.msg_iov[cur].iov_len -= written;
+		msg.msg_iov[0].iov_base = (void *)
+			((char *) msg.msg_iov[0].iov_base + written);
+		msg.msg_iov[0].iov_len -= written;
 	}
 }
 
diff --git a/fstrm/unix_writer.c b/fstrm/unix_writer.c
index 72c9167..8d090c2 100644
--- a/fstrm/unix_writer.c
+++ b/fstrm/unix_writer.c
@@ -154,9 +154,7 @@ fstrm__unix_writer_op_write(void *obj, const struct iovec *iov, int iovcnt)
 {
 	struct fstrm__unix_writer *w = obj;
 
-	size_t nbytes = 0;
 	ssize_t written = 0;
-	int cur = 0;
 	struct msghdr msg = {
 		.msg_iov = (struct iovec *) /* Grr! */ iov,
 		.msg_iovlen = iovcnt,
@@ -165,27 +163,28 @@ fstrm__unix_writer_op_write(void *obj, const struct iovec *iov, int iovcnt)
 	if (unlikely(!w->connected))
 		return fstrm_res_failure;
 
-	for (int i = 0; i < iovcnt; i++)
-		nbytes += iov[i].iov_len;
-
 	for (;;) {
 		do {
 			written = sendmsg(w->fd, &msg, MSG_NOSIGNAL);
 		} while (written == -1 && errno == EINTR);
 		if (written == -1)
 			return fstrm_res_failure;
-		if (cur == 0 && written == (ssize_t) nbytes)
-			return fstrm_res_success;
 
-		while (written >= (ssize_t) msg.msg_iov[cur].iov_len)
-		       written -= msg.msg_iov[cur++].iov_len;
+		/* Skip the buffers that have been sent completely. */
+		while (msg.msg_iovlen > 0 &&
+		       written >= (ssize_t) msg.msg_iov[0].iov_len)
+		{
+			written -= msg.msg_iov[0].iov_len;
+			msg.msg_iov++;
+			msg.msg_iovlen--;
+		}
 
-		if (cur == iovcnt)
+		if (msg.msg_iovlen == 0)
 			return fstrm_res_success;
 
-		msg.msg_iov[cur].iov_base = (void *)
-			((char *) msg.msg_iov[cur].iov_base + written);
-		msg.msg_iov[cur].iov_len -= written;
+		msg.msg_iov[0].iov_base = (void *)
+			((char *) msg.msg_iov[0].iov_base + written);
+		msg.msg_iov[0].iov_len -= written;
 	}
 }
 
-- 
2.43.0


From 6e16323cd753394604950e290cf6ee0e16e995fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 09/27] fix: refuse to write frames which are not expressible
 as a data frame

A zero length frame was written as the escape sequence that announces a control
frame, and a length over 32 bits was truncated, corrupting the stream.
---
 fstrm/writer.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/fstrm/writer.c b/fstrm/writer.c
index 99328c6..f7aad21 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -398,6 +398,12 @@ fstrm_writer_writev(struct fstrm_writer *w, const struct iovec *iov, int iovcnt)
 	if (unlikely(iovcnt < 1))
 		return fstrm_res_success;
 
+	/* These lengths can't be expressed as a data frame. */
+	for (int i = 0; i < iovcnt; i++) {
+		if (unlikely(iov[i].iov_len < 1 || iov[i].iov_len >= UINT32_MAX))
+			return fstrm_res_failure;
+	}
+
 	res = fstrm__writer_maybe_open(w);
 	if (res != fstrm_res_success)
 		return res;
-- 
2.43.0


From 180b39276ae6648ee085540a924cfdd9f95c0d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:25 +0000
Subject: [PATCH 10/27] fix: accept only powers of 2 as input queue size

All even values were accepted, although fstrm_iothr_init() can't create such
queues.
---
 fstrm/iothr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index 9cf2bf1..96a5fff 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -162,7 +162,7 @@ fstrm_iothr_options_set_input_queue_size(struct fstrm_iothr_options *opt,
 {
 	if (input_queue_size < FSTRM_IOTHR_INPUT_QUEUE_SIZE_MIN ||
 	    input_queue_size > FSTRM_IOTHR_INPUT_QUEUE_SIZE_MAX ||
-	    input_queue_size & 1)
+	    (input_queue_size & (input_queue_size - 1)) != 0)
 	{
 		return fstrm_res_failure;
 	}
-- 
2.43.0


From 75b8f61fbc636acdb4c8f9e1017545e4eadb8f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:26 +0000
Subject: [PATCH 11/27] fix: don't crash when fstrm_iothr_init() fails

The failure path joined a thread that had not been created and drained queues
that did not exist.
---
 fstrm/iothr.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index 96a5fff..3128acf 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -26,6 +26,8 @@
 
 static void *fstrm__iothr_thr(void *);
 
+static void fstrm__iothr_free_queues(struct fstrm_iothr *);
+
 struct fstrm_iothr_options {
 	unsigned			buffer_hint;
 	unsigned			flush_timeout;
@@ -331,7 +333,10 @@ fstrm_iothr_init(const struct fstrm_iothr_options *opt,
 
 	return iothr;
 fail:
-	fstrm_iothr_destroy(&iothr);
+	/* The I/O thread has not been started yet, so don't join it. */
+	if (iothr->queues != NULL)
+		fstrm__iothr_free_queues(iothr);
+	my_free(iothr);
 	return NULL;
 }
 
@@ -351,6 +356,8 @@ fstrm__iothr_free_queues(struct fstrm_iothr *iothr)
 		struct fstrm__iothr_queue_entry entry;
 
 		queue = iothr->queues[i].q;
+		if (queue == NULL)
+			continue;
 		while (iothr->queue_ops->remove(queue, &entry, NULL))
 			fstrm__iothr_queue_entry_free_bytes(&entry);
 		iothr->queue_ops->destroy(&queue);
-- 
2.43.0


From a8721ad5a4d9fe21293854c330ba5db437f70dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:27 +0000
Subject: [PATCH 12/27] fix: attempt to open the writer immediately after
 startup

The monotonic clock may start near zero at boot, in which case the first attempt
was delayed by up to the reopen interval and all frames were discarded.
---
 fstrm/iothr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index 3128acf..6982e1b 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -327,6 +327,9 @@ fstrm_iothr_init(const struct fstrm_iothr_options *opt,
 	iothr->writer = *writer;
 	*writer = NULL;
 
+	/* The first attempt to open the writer doesn't have to wait. */
+	iothr->last_open_attempt = -(time_t) iothr->opt.reopen_interval;
+
 	/* Start the I/O thread. */
 	res = pthread_create(&iothr->thr, NULL, fstrm__iothr_thr, iothr);
 	assert(res == 0);
-- 
2.43.0


From 8c902a9e3fcbfeda6bf3a5d8aeefd46ffabef3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:28 +0000
Subject: [PATCH 13/27] fix: flush pending output within the flush timeout

Every wakeup restarted the timeout, so that a producer that kept signalling the
I/O thread could defer the flush of pending output indefinitely.
---
 fstrm/iothr.c | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index 6982e1b..685937f 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -608,6 +608,9 @@ fstrm__iothr_thr(void *arg)
 {
 	struct fstrm_iothr *iothr = (struct fstrm_iothr *)arg;
 
+	struct timespec ts;
+	bool have_deadline = false;
+
 	fstrm__iothr_thr_setup();
 	fstrm__iothr_maybe_open(iothr);
 
@@ -628,25 +631,34 @@ fstrm__iothr_thr(void *arg)
 		if (count != 0)
 			continue;
 
-		struct timespec ts;
+		/*
+		 * Keep the deadline of the previous wait if there was already
+		 * output pending. Otherwise, regular wakeups could defer the
+		 * flush indefinitely.
+		 */
+		if (!have_deadline) {
 #if HAVE_CLOCK_GETTIME
 #if HAVE_PTHREAD_CONDATTR_SETCLOCK
-		int rv = clock_gettime(iothr->clkid_pthread, &ts);
+			int rv = clock_gettime(iothr->clkid_pthread, &ts);
 #else
-		int rv = clock_gettime(CLOCK_REALTIME, &ts);
+			int rv = clock_gettime(CLOCK_REALTIME, &ts);
 #endif
-		assert(rv == 0);
+			assert(rv == 0);
 #else
-		my_gettime(-1, &ts);
+			my_gettime(-1, &ts);
 #endif
-		ts.tv_sec += iothr->opt.flush_timeout;
+			ts.tv_sec += iothr->opt.flush_timeout;
+			have_deadline = (iothr->outq_idx > 0);
+		}
 
 		pthread_mutex_lock(&iothr->cv_lock);
 		res = pthread_cond_timedwait(&iothr->cv, &iothr->cv_lock, &ts);
 		pthread_mutex_unlock(&iothr->cv_lock);
 
-		if (res == ETIMEDOUT)
+		if (res == ETIMEDOUT) {
 			fstrm__iothr_flush_output(iothr);
+			have_deadline = false;
+		}
 	}
 
 	return NULL;
-- 
2.43.0


From 7a8776ea742fa6cdc5d92c6882f26c97a5efc91c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:29 +0000
Subject: [PATCH 14/27] fix: don't count the header against the maximum control
 frame length

FSTRM_CONTROL_FRAME_LENGTH_MAX excludes the escape sequence and the length, but
frames with a payload over 504 bytes could not be encoded with their header.
---
 fstrm/control.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/fstrm/control.c b/fstrm/control.c
index 297e7f3..fcb64cf 100644
--- a/fstrm/control.c
+++ b/fstrm/control.c
@@ -366,14 +366,6 @@ fstrm_control_encoded_size(const struct fstrm_control *c,
 {
 	size_t len = 0;
 
-	if (flags & FSTRM_CONTROL_FLAG_WITH_HEADER) {
-		/* Escape: 32-bit BE integer. */
-		len += sizeof(uint32_t);
-
-		/* Frame length: 32-bit BE integer. */
-		len += sizeof(uint32_t);
-	}
-
 	/* Control type: 32-bit BE integer. */
 	len += sizeof(uint32_t);
 
@@ -406,10 +398,18 @@ fstrm_control_encoded_size(const struct fstrm_control *c,
 			break;
 	}
 
-	/* Sanity check the overall length. */
+	/* Sanity check the overall length, which excludes the header. */
 	if (len > FSTRM_CONTROL_FRAME_LENGTH_MAX)
 		return fstrm_res_failure;
 
+	if (flags & FSTRM_CONTROL_FLAG_WITH_HEADER) {
+		/* Escape: 32-bit BE integer. */
+		len += sizeof(uint32_t);
+
+		/* Frame length: 32-bit BE integer. */
+		len += sizeof(uint32_t);
+	}
+
 	*len_control_frame = len;
 	return fstrm_res_success;
 }
-- 
2.43.0


From c7983c0740a407651cb752d10cd29536c2a1bbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:30 +0000
Subject: [PATCH 15/27] fix: refuse to add a content type field that is too
 long

This is the documented behaviour of fstrm_control_add_field_content_type().
---
 fstrm/control.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fstrm/control.c b/fstrm/control.c
index fcb64cf..392e5cb 100644
--- a/fstrm/control.c
+++ b/fstrm/control.c
@@ -166,6 +166,9 @@ fstrm_control_add_field_content_type(struct fstrm_control *c,
 				     const uint8_t *content_type,
 				     size_t len_content_type)
 {
+	if (len_content_type > FSTRM_CONTROL_FIELD_CONTENT_TYPE_LENGTH_MAX)
+		return fstrm_res_failure;
+
 	fs_buf ctype;
 	ctype.len = len_content_type;
 	ctype.data = my_malloc(ctype.len);
-- 
2.43.0


From 8af3a18b449bc416371db7e8f4830a8773ab3369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:33 +0000
Subject: [PATCH 16/27] fix: accept control frames of any legal length in
 fstrm_capture

The length including the header was compared with the maximum length of the
payload, so that clients sending control frames of 504 to 512 bytes were
disconnected. The payload length was already checked.
---
 src/fstrm_capture.c | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 1d8c0a8..fbed9ee 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -900,11 +900,7 @@ load_control_frame(struct conn *conn)
 	fstrm_res res;
 	uint8_t *control_frame = NULL;
 
-	/* Check if the frame is too big. */
-	if (conn->len_frame_total >= FSTRM_CONTROL_FRAME_LENGTH_MAX) {
-		/* Malformed. */
-		return false;
-	}
+	/* The control frame length was checked by can_read_full_frame(). */
 
 	/* Get a pointer to the full, linearized control frame. */
 	control_frame = evbuffer_pullup(conn->ev_input, conn->len_frame_total);
-- 
2.43.0


From 388044a3f864d0f45120272760a72750ba5fa545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:34 +0000
Subject: [PATCH 17/27] fix: don't overflow the total frame length in
 fstrm_capture

A data frame with an announced length of 2^32-4 and above was taken for a
complete frame of less than 4 bytes.
---
 src/fstrm_capture.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index fbed9ee..810c2d9 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -86,7 +86,7 @@ struct conn {
 	struct capture		*ctx;
 	conn_state		state;
 	uint32_t		len_frame_payload;
-	uint32_t		len_frame_total;
+	size_t			len_frame_total;
 	size_t			len_buf;
 	size_t			bytes_read;
 	size_t			bytes_skip;
@@ -624,7 +624,7 @@ close_write_file(struct capture *ctx)
 static void
 process_data_frame(struct conn *conn)
 {
-	conn_log(CONN_TRACE, conn, "processing data frame (%u bytes)",
+	conn_log(CONN_TRACE, conn, "processing data frame (%zu bytes)",
 		 conn->len_frame_total);
 
 	/*
@@ -909,7 +909,7 @@ load_control_frame(struct conn *conn)
 		return false;
 	}
 	conn_log_data(CONN_TRACE, conn, control_frame, conn->len_frame_total,
-		      "reading control frame (%u bytes): ", conn->len_frame_total);
+		      "reading control frame (%zu bytes): ", conn->len_frame_total);
 
 	/* Decode the control frame. */
 	res = fstrm_control_decode(conn->control,
@@ -990,11 +990,11 @@ can_read_full_frame(struct conn *conn)
 	 * exactly 'len_frame_total'.
 	 */
 	if (conn->len_buf < conn->len_frame_total) {
-		conn_log(CONN_TRACE, conn, "incomplete message (have %zd bytes, want %u)",
+		conn_log(CONN_TRACE, conn, "incomplete message (have %zd bytes, want %zu)",
 			 conn->len_buf, conn->len_frame_total);
 		if (conn->len_frame_total > conn->ctx->capture_highwater) {
 			conn_log(CONN_WARNING, conn,
-				"Skipping %u byte message (%zd buffer)",
+				"Skipping %zu byte message (%zd buffer)",
 				conn->len_frame_total,
 				conn->ctx->capture_highwater);
 			conn->bytes_skip = conn->len_frame_total;
-- 
2.43.0


From 08a31f17b4d863260779220a7463f57a7ac28c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:34 +0000
Subject: [PATCH 18/27] fix: don't stall after an oversized frame in
 fstrm_capture

When the read buffer was full at the time that an oversized frame was found,
nothing of it was skipped, and since a full buffer suspends reading, the read
callback was never called again.
---
 src/fstrm_capture.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 810c2d9..c0330c7 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -998,6 +998,7 @@ can_read_full_frame(struct conn *conn)
 				conn->len_frame_total,
 				conn->ctx->capture_highwater);
 			conn->bytes_skip = conn->len_frame_total;
+			return true;
 		}
 		return false;
 	}
-- 
2.43.0


From 5974bfb9458118f08f799c410993d160e6fd4d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:35 +0000
Subject: [PATCH 19/27] fix: record data frames only within a session in
 fstrm_capture

Data frames sent before the handshake or after STOP were recorded.
---
 src/fstrm_capture.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index c0330c7..9b0c8ca 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -1053,7 +1053,11 @@ cb_read(struct bufferevent *bev, void *arg)
 
 		/* Process the frame. */
 		if (conn->len_frame_payload > 0) {
-			/* This is a data frame. */
+			/* This is a data frame, only valid after START and before STOP. */
+			if (conn->state != CONN_STATE_READING_DATA) {
+				cb_close_conn(conn->bev, 0, conn);
+				return;
+			}
 			process_data_frame(conn);
 
 			/* Check if it's time to rotate the output file. */
-- 
2.43.0


From 56d835324e710087f9331bd94581d7adaf88db30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 20/27] fix: report output that could not be stored in
 fstrm_capture

Errors that only surface when the buffered output is flushed were ignored.
---
 src/fstrm_capture.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 9b0c8ca..d41d703 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -609,8 +609,12 @@ close_write_file(struct capture *ctx)
 			return false;
 
 		/* Close the FILE object. */
-		fclose(ctx->output_file);
+		bool failed = ferror(ctx->output_file) != 0;
+		if (fclose(ctx->output_file) != 0)
+			failed = true;
 		ctx->output_file = NULL;
+		if (failed)
+			return false;
 	}
 
 	/* Success. */
-- 
2.43.0


From 2f6e0dacb805e519f00070d38740f1b6e41150db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:36 +0000
Subject: [PATCH 21/27] fix: fail if fstrm_replay's receiver did not confirm
 the end of the stream

---
 src/fstrm_replay.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fstrm_replay.c b/src/fstrm_replay.c
index 0b717cd..9d083c0 100644
--- a/src/fstrm_replay.c
+++ b/src/fstrm_replay.c
@@ -288,5 +288,5 @@ int main(int argc, char **argv)
 		fputs("Error: fstrm_writer_close() failed", stderr);
 
 	fstrm_writer_destroy(&w);
-	return 0;
+	return res == fstrm_res_success ? EXIT_SUCCESS : EXIT_FAILURE;
 }
-- 
2.43.0


From 01806525e9e6cb00e29c3b49257205d41c253674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:37 +0000
Subject: [PATCH 22/27] fix: ignore unknown control frames in between data
 frames

This is what fstrm/control.h requires, but the reader failed on them.
---
 fstrm/rdwr.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/fstrm/rdwr.c b/fstrm/rdwr.c
index dc181ba..54cc190 100644
--- a/fstrm/rdwr.c
+++ b/fstrm/rdwr.c
@@ -185,8 +185,21 @@ fstrm__rdwr_read_control_frame(struct fstrm_rdwr *rdwr,
 	if (res != fstrm_res_success)
 		return res;
 
-	/* Decode the control frame. */
+	/*
+	 * In between data frames, ignore control frames of a type which is not
+	 * known to this version of the protocol.
+	 */
 	assert(control != NULL);
+	if (!with_escape && type != NULL && len_control_frame >= sizeof(tmp)) {
+		memcpy(&tmp, control_frame, sizeof(tmp));
+		fstrm_control_reset(control);
+		if (fstrm_control_set_type(control, ntohl(tmp)) != fstrm_res_success) {
+			*type = 0;
+			return fstrm_res_success;
+		}
+	}
+
+	/* Decode the control frame. */
 	res = fstrm_control_decode(control,
 				   control_frame, len_control_frame,
 				   flags);
-- 
2.43.0


From 0df5fd5c407665e5895d71ac87eb71257b4f39ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:10 +0000
Subject: [PATCH 23/27] fix: don't return control frames which were not
 exchanged in the session

---
 fstrm/rdwr.c   | 11 ++++++-----
 fstrm/reader.c | 16 +++++++++++++++-
 fstrm/writer.c | 16 +++++++++++++++-
 3 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/fstrm/rdwr.c b/fstrm/rdwr.c
index 54cc190..b49454d 100644
--- a/fstrm/rdwr.c
+++ b/fstrm/rdwr.c
@@ -228,13 +228,14 @@ fstrm__rdwr_read_control(struct fstrm_rdwr *rdwr,
 		*control = fstrm_control_init();
 
 	res = fstrm__rdwr_read_control_frame(rdwr, *control, &actual_type, true);
-	if (res != fstrm_res_success)
-		return res;
+	if (res == fstrm_res_success && actual_type != wanted_type)
+		res = fstrm_res_failure;
 
-	if (actual_type != wanted_type)
-		return fstrm_res_failure;
+	/* Don't leave an empty or unwanted frame behind. */
+	if (res != fstrm_res_success)
+		fstrm_control_reset(*control);
 
-	return fstrm_res_success;
+	return res;
 }
 
 fstrm_res
diff --git a/fstrm/reader.c b/fstrm/reader.c
index 32a8ac2..19b5863 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -261,6 +261,16 @@ fstrm_reader_open(struct fstrm_reader *r)
 		return fstrm_res_failure;
 	}
 
+	/* Forget the control frames of the previous session. */
+	if (r->control_ready != NULL)
+		fstrm_control_reset(r->control_ready);
+	if (r->control_accept != NULL)
+		fstrm_control_reset(r->control_accept);
+	if (r->control_start != NULL)
+		fstrm_control_reset(r->control_start);
+	if (r->control_stop != NULL)
+		fstrm_control_reset(r->control_stop);
+
 	res = fstrm_rdwr_open(r->rdwr);
 	if (res != fstrm_res_success)
 		return res;
@@ -453,8 +463,12 @@ fstrm_reader_get_control(struct fstrm_reader *r,
 	}
 
 	/* The frame may not have been sent or received. */
-	if (*control == NULL)
+	if (*control == NULL ||
+	    fstrm_control_get_type(*control, &type) != fstrm_res_success)
+	{
+		*control = NULL;
 		return fstrm_res_failure;
+	}
 
 	return fstrm_res_success;
 }
diff --git a/fstrm/writer.c b/fstrm/writer.c
index f7aad21..95715f5 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -269,6 +269,16 @@ fstrm_writer_open(struct fstrm_writer *w)
 	if (w->state == fstrm_writer_state_opened)
 		return fstrm_res_success;
 
+	/* Forget the control frames of the previous session. */
+	if (w->control_ready != NULL)
+		fstrm_control_reset(w->control_ready);
+	if (w->control_accept != NULL)
+		fstrm_control_reset(w->control_accept);
+	if (w->control_start != NULL)
+		fstrm_control_reset(w->control_start);
+	if (w->control_finish != NULL)
+		fstrm_control_reset(w->control_finish);
+
 	res = fstrm_rdwr_open(w->rdwr);
 	if (res != fstrm_res_success)
 		return res;
@@ -451,8 +461,12 @@ fstrm_writer_get_control(struct fstrm_writer *w,
 	}
 
 	/* The frame may not have been sent or received. */
-	if (*control == NULL)
+	if (*control == NULL ||
+	    fstrm_control_get_type(*control, &type) != fstrm_res_success)
+	{
+		*control = NULL;
 		return fstrm_res_failure;
+	}
 
 	return fstrm_res_success;
 }
-- 
2.43.0


From 6f654e65293ff7de197ed5c67533c329de486387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:48 +0000
Subject: [PATCH 24/27] fix: count outstanding entries for
 queue_notify_threshold

The I/O thread was woken when the remaining space of the queue was equal to
the threshold, so with the defaults (512, 32) only the 479th outstanding
entry woke it instead of the 32nd. Keep waking it beyond the threshold: the
signal is lost if the thread is just about to wait.
---
 fstrm/iothr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index 685937f..9340adf 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -447,8 +447,12 @@ fstrm_iothr_submit(struct fstrm_iothr *iothr, struct fstrm_iothr_queue *ioq,
 	entry.free_data = free_data;
 
 	if (likely(len > 0) && iothr->queue_ops->insert(ioq->q, &entry, &space)) {
-		if (space == iothr->opt.queue_notify_threshold)
+		/* A queue has room for one entry less than its size. */
+		if (iothr->opt.input_queue_size - 1 - space >=
+		    iothr->opt.queue_notify_threshold)
+		{
 			pthread_cond_signal(&iothr->cv);
+		}
 		return fstrm_res_success;
 	} else {
 		return fstrm_res_again;
-- 
2.43.0


From 674723e0ec9c809aaaa020bb9f54bab38678338f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 25/27] fix: handle SIGTERM and SIGINT in fstrm_capture's event
 loop

The asynchronous handler called event_base_loopexit(), which is not
async-signal-safe, and a signal arriving between the computation of the
timeout and the wait for events did not stop the program.
---
 src/fstrm_capture.c | 41 ++++++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index d41d703..634c6ed 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -107,6 +107,8 @@ struct capture {
 	struct evconnlistener	*ev_connlistener;
 	struct event		*ev_sighup;
 	struct event		*ev_sigusr1;
+	struct event		*ev_sigterm;
+	struct event		*ev_sigint;
 
 	FILE			*output_file;
 	char			*output_fname;
@@ -1148,6 +1150,14 @@ do_sighup(__attribute__((unused)) evutil_socket_t sig,
 	}
 }
 
+static void
+shutdown_handler(__attribute__((unused)) evutil_socket_t sig,
+		 __attribute__((unused)) short events, void *user_data)
+{
+	struct capture *ctx = user_data;
+	event_base_loopexit(ctx->ev_base, NULL);
+}
+
 static bool
 setup_event_loop(struct capture *ctx)
 {
@@ -1182,31 +1192,32 @@ setup_event_loop(struct capture *ctx)
 				       &g_program_ctx);
 	evsignal_add(ctx->ev_sigusr1, NULL);
 
+	/*
+	 * Register our SIGTERM and SIGINT handlers. These must be libevent
+	 * signal handlers, too: stopping the event loop from an asynchronous
+	 * signal handler is unsafe, and has no effect if the signal arrives
+	 * just before the event loop starts to wait for events.
+	 */
+	ctx->ev_sigterm = evsignal_new(ctx->ev_base, SIGTERM, &shutdown_handler,
+				       &g_program_ctx);
+	evsignal_add(ctx->ev_sigterm, NULL);
+	ctx->ev_sigint = evsignal_new(ctx->ev_base, SIGINT, &shutdown_handler,
+				      &g_program_ctx);
+	evsignal_add(ctx->ev_sigint, NULL);
+
 	/* Success. */
 	return true;
 }
 
-static void
-shutdown_handler(int signum __attribute__((unused)))
-{
-	event_base_loopexit(g_program_ctx.ev_base, NULL);
-}
-
 static bool
 setup_signals(void)
 {
 	struct sigaction sa = {
-		.sa_handler = shutdown_handler,
+		.sa_handler = SIG_IGN,
 	};
 
 	if (sigemptyset(&sa.sa_mask) != 0)
 		return false;
-	if (sigaction(SIGTERM, &sa, NULL) != 0)
-		return false;
-	if (sigaction(SIGINT, &sa, NULL) != 0)
-		return false;
-
-	sa.sa_handler = SIG_IGN;
 	if (sigaction(SIGPIPE, &sa, NULL) != 0)
 		return false;
 
@@ -1222,6 +1233,10 @@ cleanup(struct capture *ctx)
 		event_free(ctx->ev_sighup);
 	if (ctx->ev_sigusr1 != NULL)
 		event_free(ctx->ev_sigusr1);
+	if (ctx->ev_sigterm != NULL)
+		event_free(ctx->ev_sigterm);
+	if (ctx->ev_sigint != NULL)
+		event_free(ctx->ev_sigint);
 	if (ctx->ev_connlistener != NULL)
 		evconnlistener_free(ctx->ev_connlistener);
 	if (ctx->ev_base != NULL)
-- 
2.43.0


From 7faa1c084186f44b7f72d7db3b454e97d831eab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:36 +0000
Subject: [PATCH 26/27] fix: don't read past the end of the argument array

check_or() examined the entry after ARGV_LAST if the last option was used.
---
 libmy/argv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 6c64906..218c3f7 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1880,8 +1880,8 @@ static	int	check_or(const argv_t *args, const argv_t *which_p)
   if (match_p == NULL) {
     /* NOTE: we assume that which_p is not pointing now to ARGV_LAST */
     for (arg_p = which_p + 2;
-	 arg_p->ar_short_arg != ARGV_LAST
-	 && (arg_p - 1)->ar_short_arg != ARGV_LAST;
+	 (arg_p - 1)->ar_short_arg != ARGV_LAST
+	 && arg_p->ar_short_arg != ARGV_LAST;
 	 arg_p += 2) {
       if ((arg_p - 1)->ar_short_arg != ARGV_OR
 	  && (arg_p - 1)->ar_short_arg != ARGV_XOR) {
-- 
2.43.0


From 8735673a9ddbc015aab2f9855a7bc8da74c2b21e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:37 +0000
Subject: [PATCH 27/27] fix: count the buffered bytes of the I/O thread in a
 size_t

The sum of the lengths of the buffered frames was kept in an unsigned. A
frame of nearly 4 GiB made it wrap to a small value, and later frames were
batched with it although the batch exceeded the buffer hint by far.
---
 fstrm/iothr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index 9340adf..94dba8a 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -113,7 +113,7 @@ struct fstrm_iothr {
 	unsigned			outq_idx;
 	struct iovec			*outq_iov;
 	struct fstrm__iothr_queue_entry	*outq_entries;
-	unsigned			outq_nbytes;
+	size_t				outq_nbytes;
 };
 
 struct fstrm_iothr_options *
-- 
2.43.0

