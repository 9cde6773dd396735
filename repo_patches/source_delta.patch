From 4c7fd806adcba9ba02addebc44f3b90d9108cf8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 01/28] fix: writer: accept a content type other than the first
 one offered

A mismatch of an earlier content type was not cleared by the match of a
later one, so that the bi-directional handshake failed.
---
 fstrm/writer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fstrm/writer.c b/fstrm/writer.c
index a623ba1..fb42cf6 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -190,6 +190,7 @@ fstrm__writer_open_bidirectional(struct fstrm_writer *w)
 		res = fstrm_control_match_field_content_type(w->control_accept,
 			ctype.data, ctype.len);
 		if (res == fstrm_res_success) {
+			match = true;
 			match_ctype = ctype.data;
 			len_match_ctype = ctype.len;
 			break;
-- 
2.43.0


From 5cabc45672014fad7bf519eb56260db4f7a38018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 02/28] fix: reader: report a data frame beyond the maximum
 size as a failure

fstrm_reader_read() returned success without setting its outputs.
---
 fstrm/reader.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index 240ac0a..ae18d27 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -309,8 +309,10 @@ fstrm__reader_next_data(struct fstrm_reader *r,
 			/* This is a data frame. */
 
 			/* Enforce maximum frame size. */
-			if (unlikely(len > r->max_frame_size))
+			if (unlikely(len > r->max_frame_size)) {
+				res = fstrm_res_failure;
 				goto fail;
+			}
 
 			/* Read the data frame. */
 			ubuf_clip(r->buf, 0);
-- 
2.43.0


From e562c487f727e15ed7ed3c0d58e397ff45abbc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 03/28] fix: rdwr: reject control frames too short to have a
 type

A control frame length of zero led to a variable length array of size
zero, which is undefined behaviour.
---
 fstrm/rdwr.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/fstrm/rdwr.c b/fstrm/rdwr.c
index dc181ba..c499c28 100644
--- a/fstrm/rdwr.c
+++ b/fstrm/rdwr.c
@@ -176,8 +176,11 @@ fstrm__rdwr_read_control_frame(struct fstrm_rdwr *rdwr,
 	const size_t len_control_frame = ntohl(tmp);
 
 	/* Sanity check the control frame length. */
-	if (len_control_frame > FSTRM_CONTROL_FRAME_LENGTH_MAX)
+	if (len_control_frame > FSTRM_CONTROL_FRAME_LENGTH_MAX ||
+	    len_control_frame < sizeof(uint32_t))
+	{
 		return fstrm_res_failure;
+	}
 
 	/* Read the control frame. */
 	uint8_t control_frame[len_control_frame];
-- 
2.43.0


From abf6217ee07fa3c3badcaf62b511d1259153c330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 04/28] fix: writer: refuse data frames that cannot be
 represented

An empty frame was written as the escape sequence of a control frame, and
the length of a frame of 4 GiB or more was truncated, corrupting the
stream.
---
 fstrm/writer.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/fstrm/writer.c b/fstrm/writer.c
index fb42cf6..b1990ec 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -397,6 +397,15 @@ fstrm_writer_writev(struct fstrm_writer *w, const struct iovec *iov, int iovcnt)
 	if (unlikely(iovcnt < 1))
 		return fstrm_res_success;
 
+	/*
+	 * Refuse payloads that the encoding cannot represent: a zero frame
+	 * length introduces a control frame, and it has only 32 bits.
+	 */
+	for (int i = 0; i < iovcnt; i++) {
+		if (unlikely(iov[i].iov_len < 1 || iov[i].iov_len > UINT32_MAX))
+			return fstrm_res_failure;
+	}
+
 	res = fstrm__writer_maybe_open(w);
 	if (res != fstrm_res_success)
 		return res;
-- 
2.43.0


From f0e356aaf3447541082a51bc6bb0bf7e27ac8176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 05/28] fix: close the transport when a handshake or a stream
 fails

The transport of a reader or writer whose handshake failed, and of a reader
that met an invalid frame, stayed open and leaked its descriptor, and a
second attempt to open it leaked another one.
---
 fstrm/reader.c | 14 +++++++++-----
 fstrm/writer.c |  8 ++++----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index ae18d27..26feb56 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -255,8 +255,11 @@ fstrm_reader_open(struct fstrm_reader *r)
 {
 	fstrm_res res;
 
-	if (r->state == fstrm_reader_state_opened)
+	if (r->state == fstrm_reader_state_opened ||
+	    r->state == fstrm_reader_state_closing)
+	{
 		return fstrm_res_failure;
+	}
 
 	res = fstrm_rdwr_open(r->rdwr);
 	if (res != fstrm_res_success)
@@ -265,13 +268,13 @@ fstrm_reader_open(struct fstrm_reader *r)
 	if (r->rdwr->ops.write != NULL) {
 		/* Bi-directional transport. */
 		res = fstrm__reader_open_bidirectional(r);
-		if (res != fstrm_res_success)
-			return res;
 	} else {
 		/* Uni-directional transport. */
 		res = fstrm__reader_open_unidirectional(r);
-		if (res != fstrm_res_success)
-			return res;
+	}
+	if (res != fstrm_res_success) {
+		(void)fstrm_rdwr_close(r->rdwr);
+		return res;
 	}
 
 	r->state = fstrm_reader_state_opened;
@@ -351,6 +354,7 @@ fstrm__reader_next_data(struct fstrm_reader *r,
 		}
 	}
 fail:
+	(void)fstrm_rdwr_close(r->rdwr);
 	r->state = fstrm_reader_state_failed;
 	return res;
 }
diff --git a/fstrm/writer.c b/fstrm/writer.c
index b1990ec..20203ef 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -276,13 +276,13 @@ fstrm_writer_open(struct fstrm_writer *w)
 	if (w->rdwr->ops.read != NULL) {
 		/* Bi-directional transport. */
 		res = fstrm__writer_open_bidirectional(w);
-		if (res != fstrm_res_success)
-			return res;
 	} else {
 		/* Uni-directional transport. */
 		res = fstrm__writer_open_unidirectional(w);
-		if (res != fstrm_res_success)
-			return res;
+	}
+	if (res != fstrm_res_success) {
+		(void)fstrm_rdwr_close(w->rdwr);
+		return res;
 	}
 
 	w->state = fstrm_writer_state_opened;
-- 
2.43.0


From 35bcaea361fa38634827c19bd8ae7d170d0b93fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 06/28] fix: report a control frame that was not exchanged as
 unavailable

fstrm_reader_get_control() and fstrm_writer_get_control() returned success
and a NULL pointer, for instance for the STOP frame of a truncated stream,
which made fstrm_dump and fstrm_replay treat it as complete.
---
 fstrm/reader.c | 4 ++++
 fstrm/writer.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index 26feb56..3eb458e 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -449,5 +449,9 @@ fstrm_reader_get_control(struct fstrm_reader *r,
 		return fstrm_res_failure;
 	}
 
+	/* The frame may not have been sent or received. */
+	if (*control == NULL)
+		return fstrm_res_failure;
+
 	return fstrm_res_success;
 }
diff --git a/fstrm/writer.c b/fstrm/writer.c
index 20203ef..84c25cf 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -452,5 +452,9 @@ fstrm_writer_get_control(struct fstrm_writer *w,
 		return fstrm_res_failure;
 	}
 
+	/* The frame may not have been sent or received. */
+	if (*control == NULL)
+		return fstrm_res_failure;
+
 	return fstrm_res_success;
 }
-- 
2.43.0


From 0d05f9139b755390301803550e97723567f1893a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:21 +0000
Subject: [PATCH 07/28] fix: reader: ignore control frames of unknown types
 between data frames

This is what the protocol (control.h) requires for forward compatibility;
the reader failed instead.
---
 fstrm/rdwr.c   | 18 ++++++++++++++++++
 fstrm/reader.c |  2 ++
 2 files changed, 20 insertions(+)

diff --git a/fstrm/rdwr.c b/fstrm/rdwr.c
index c499c28..9c50148 100644
--- a/fstrm/rdwr.c
+++ b/fstrm/rdwr.c
@@ -188,6 +188,24 @@ fstrm__rdwr_read_control_frame(struct fstrm_rdwr *rdwr,
 	if (res != fstrm_res_success)
 		return res;
 
+	if (!with_escape) {
+		/*
+		 * Between data frames, control frames of unknown types must be
+		 * ignored.
+		 */
+		memcpy(&tmp, control_frame, sizeof(tmp));
+		switch (ntohl(tmp)) {
+		case FSTRM_CONTROL_ACCEPT:	/* FALLTHROUGH */
+		case FSTRM_CONTROL_START:	/* FALLTHROUGH */
+		case FSTRM_CONTROL_STOP:	/* FALLTHROUGH */
+		case FSTRM_CONTROL_READY:	/* FALLTHROUGH */
+		case FSTRM_CONTROL_FINISH:
+			break;
+		default:
+			return fstrm_res_again;
+		}
+	}
+
 	/* Decode the control frame. */
 	assert(control != NULL);
 	res = fstrm_control_decode(control,
diff --git a/fstrm/reader.c b/fstrm/reader.c
index 3eb458e..90ef132 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -337,6 +337,8 @@ fstrm__reader_next_data(struct fstrm_reader *r,
 				r->control_tmp = fstrm_control_init();
 			res = fstrm__rdwr_read_control_frame(r->rdwr,
 				r->control_tmp, &type, false);
+			if (unlikely(res == fstrm_res_again))
+				continue;
 			if (unlikely(res != fstrm_res_success))
 				goto fail;
 
-- 
2.43.0


From 0ea7f9c85949a6f4d83ed49683d46ca6fbdab645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:24 +0000
Subject: [PATCH 08/28] fix: reader: do not leak the STOP frame when a reader
 is opened again

---
 fstrm/reader.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fstrm/reader.c b/fstrm/reader.c
index 90ef132..26f9ed3 100644
--- a/fstrm/reader.c
+++ b/fstrm/reader.c
@@ -265,6 +265,9 @@ fstrm_reader_open(struct fstrm_reader *r)
 	if (res != fstrm_res_success)
 		return res;
 
+	/* Forget the STOP frame of a previous stream. */
+	fstrm_control_destroy(&r->control_stop);
+
 	if (r->rdwr->ops.write != NULL) {
 		/* Bi-directional transport. */
 		res = fstrm__reader_open_bidirectional(r);
-- 
2.43.0


From ff554ef972646084e7116f15f94ef1b9fc6d0194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 09/28] fix: unix and tcp writer: continue partial writes at
 the right place

---
 fstrm/tcp_writer.c  | 26 +++++++++++++-------------
 fstrm/unix_writer.c | 26 +++++++++++++-------------
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/fstrm/tcp_writer.c b/fstrm/tcp_writer.c
index 4a9bc86..7ae16a7 100644
--- a/fstrm/tcp_writer.c
+++ b/fstrm/tcp_writer.c
@@ -168,9 +168,7 @@ fstrm__tcp_writer_op_write(void *obj, const struct iovec *iov, int iovcnt)
 {
 	struct fstrm__tcp_writer *w = obj;
 
-	size_t nbytes = 0;
 	ssize_t written = 0;
-	int cur = 0;
 	struct msghdr msg = {
 		.msg_iov = (struct iovec *) /* Grr! */ iov,
 		.msg_iovlen = iovcnt,
@@ -179,27 +177,29 @@ fstrm__tcp_writer_op_write(void *obj, const struct iovec *iov, int iovcnt)
 	if (unlikely(!w->connected))
 		return fstrm_res_failure;
 
-	for (int i = 0; i < iovcnt; i++)
-		nbytes += iov[i].iov_len;
-
 	for (;;) {
 		do {
 			written = sendmsg(w->fd, &msg, MSG_NOSIGNAL);
 		} while (written == -1 && errno == EINTR);
 		if (written == -1)
 			return fstrm_res_failure;
-		if (cur == 0 && written == (ssize_t) nbytes)
-			return fstrm_res_success;
 
-		while (written >= (ssize_t) msg.msg_iov[cur].iov_len)
-		       written -= msg.msg_iov[cur++].iov_len;
+		/* Skip the iovec's that have been written completely. */
+		while (msg.msg_iovlen > 0 &&
+		       written >= (ssize_t) msg.msg_iov->iov_len)
+		{
+			written -= msg.msg_iov->iov_len;
+			msg.msg_iov++;
+			msg.msg_iovlen--;
+		}
 
-		if (cur == iovcnt)
+		if (msg.msg_iovlen == 0)
 			return fstrm_res_success;
 
-		msg.msg_iov[cur].iov_base = (void *)
-			((char *) msg.msg_iov[cur].iov_base + written);
-		msg.msg_iov[cur].iov_len -= written;
+		/* Advance within the iovec that has been written partially. */
+		msg.msg_iov->iov_base = (void *)
+			((char *) msg.msg_iov->iov_base + written);
+		msg.msg_iov->iov_len -= written;
 	}
 }
 
diff --git a/fstrm/unix_writer.c b/fstrm/unix_writer.c
index 72c9167..a3bfd86 100644
--- a/fstrm/unix_writer.c
+++ b/fstrm/unix_writer.c
@@ -154,9 +154,7 @@ fstrm__unix_writer_op_write(void *obj, const struct iovec *iov, int iovcnt)
 {
 	struct fstrm__unix_writer *w = obj;
 
-	size_t nbytes = 0;
 	ssize_t written = 0;
-	int cur = 0;
 	struct msghdr msg = {
 		.msg_iov = (struct iovec *) /* Grr! */ iov,
 		.msg_iovlen = iovcnt,
@@ -165,27 +163,29 @@ fstrm__unix_writer_op_write(void *obj, const struct iovec *iov, int iovcnt)
 	if (unlikely(!w->connected))
 		return fstrm_res_failure;
 
-	for (int i = 0; i < iovcnt; i++)
-		nbytes += iov[i].iov_len;
-
 	for (;;) {
 		do {
 			written = sendmsg(w->fd, &msg, MSG_NOSIGNAL);
 		} while (written == -1 && errno == EINTR);
 		if (written == -1)
 			return fstrm_res_failure;
-		if (cur == 0 && written == (ssize_t) nbytes)
-			return fstrm_res_success;
 
-		while (written >= (ssize_t) msg.msg_iov[cur].iov_len)
-		       written -= msg.msg_iov[cur++].iov_len;
+		/* Skip the iovec's that have been written completely. */
+		while (msg.msg_iovlen > 0 &&
+		       written >= (ssize_t) msg.msg_iov->iov_len)
+		{
+			written -= msg.msg_iov->iov_len;
+			msg.msg_iov++;
+			msg.msg_iovlen--;
+		}
 
-		if (cur == iovcnt)
+		if (msg.msg_iovlen == 0)
 			return fstrm_res_success;
 
-		msg.msg_iov[cur].iov_base = (void *)
-			((char *) msg.msg_iov[cur].iov_base + written);
-		msg.msg_iov[cur].iov_len -= written;
+		/* Advance within the iovec that has been written partially. */
+		msg.msg_iov->iov_base = (void *)
+			((char *) msg.msg_iov->iov_base + written);
+		msg.msg_iov->iov_len -= written;
 	}
 }
 
-- 
2.43.0


From 557b9cf1c8e3fd93d10b1a31094d3e4a08d1cb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:37 +0000
Subject: [PATCH 10/28] fix: iothr: reject input queue sizes that are not a
 power of 2

---
 fstrm/iothr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index 9cf2bf1..96a5fff 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -162,7 +162,7 @@ fstrm_iothr_options_set_input_queue_size(struct fstrm_iothr_options *opt,
 {
 	if (input_queue_size < FSTRM_IOTHR_INPUT_QUEUE_SIZE_MIN ||
 	    input_queue_size > FSTRM_IOTHR_INPUT_QUEUE_SIZE_MAX ||
-	    input_queue_size & 1)
+	    (input_queue_size & (input_queue_size - 1)) != 0)
 	{
 		return fstrm_res_failure;
 	}
-- 
2.43.0


From a937ad13a27e69894aae93b1c2e6cc7867a704b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 11/28] fix: iothr: clean up only what exists when
 initialization fails

---
 fstrm/iothr.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index 96a5fff..761b1b9 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -331,7 +331,13 @@ fstrm_iothr_init(const struct fstrm_iothr_options *opt,
 
 	return iothr;
 fail:
-	fstrm_iothr_destroy(&iothr);
+	/* Nothing but the queues exists yet. The caller keeps the writer. */
+	if (iothr->queues != NULL) {
+		for (size_t i = 0; i < iothr->opt.num_input_queues; i++)
+			iothr->queue_ops->destroy(&iothr->queues[i].q);
+		my_free(iothr->queues);
+	}
+	my_free(iothr);
 	return NULL;
 }
 
-- 
2.43.0


From 7c8594991527f87395df801e44a9a46fc96d5507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 12/28] fix: fstrm_capture: do not overflow the total length of
 a frame

---
 src/fstrm_capture.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 1d8c0a8..f3798c2 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -86,7 +86,7 @@ struct conn {
 	struct capture		*ctx;
 	conn_state		state;
 	uint32_t		len_frame_payload;
-	uint32_t		len_frame_total;
+	size_t			len_frame_total;
 	size_t			len_buf;
 	size_t			bytes_read;
 	size_t			bytes_skip;
@@ -624,7 +624,7 @@ close_write_file(struct capture *ctx)
 static void
 process_data_frame(struct conn *conn)
 {
-	conn_log(CONN_TRACE, conn, "processing data frame (%u bytes)",
+	conn_log(CONN_TRACE, conn, "processing data frame (%zd bytes)",
 		 conn->len_frame_total);
 
 	/*
@@ -913,7 +913,7 @@ load_control_frame(struct conn *conn)
 		return false;
 	}
 	conn_log_data(CONN_TRACE, conn, control_frame, conn->len_frame_total,
-		      "reading control frame (%u bytes): ", conn->len_frame_total);
+		      "reading control frame (%zd bytes): ", conn->len_frame_total);
 
 	/* Decode the control frame. */
 	res = fstrm_control_decode(conn->control,
@@ -994,11 +994,11 @@ can_read_full_frame(struct conn *conn)
 	 * exactly 'len_frame_total'.
 	 */
 	if (conn->len_buf < conn->len_frame_total) {
-		conn_log(CONN_TRACE, conn, "incomplete message (have %zd bytes, want %u)",
+		conn_log(CONN_TRACE, conn, "incomplete message (have %zd bytes, want %zd)",
 			 conn->len_buf, conn->len_frame_total);
 		if (conn->len_frame_total > conn->ctx->capture_highwater) {
 			conn_log(CONN_WARNING, conn,
-				"Skipping %u byte message (%zd buffer)",
+				"Skipping %zd byte message (%zd buffer)",
 				conn->len_frame_total,
 				conn->ctx->capture_highwater);
 			conn->bytes_skip = conn->len_frame_total;
-- 
2.43.0


From 2c64266955fd8ca1b3cfccc817e4d6ca7760cd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 13/28] fix: fstrm_capture: accept data frames only between
 START and STOP

---
 src/fstrm_capture.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index f3798c2..c5d3458 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -950,6 +950,15 @@ can_read_full_frame(struct conn *conn)
 	evbuffer_copyout(conn->ev_input, &tmp[0], sizeof(uint32_t));
 	conn->len_frame_payload = ntohl(tmp[0]);
 
+	/* Data frames are only allowed between the START and STOP frames. */
+	if (conn->len_frame_payload > 0 &&
+	    conn->state != CONN_STATE_READING_DATA)
+	{
+		conn_log(CONN_WARNING, conn, "data frame outside of data stream");
+		cb_close_conn(conn->bev, 0, conn);
+		return false;
+	}
+
 	/* Account for the frame length field. */
 	conn->len_frame_total += sizeof(uint32_t);
 
-- 
2.43.0


From 91c50f093f1f05e762d0ba3bbfd431076b5f6707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 14/28] fix: fstrm_capture: accept control frames up to the
 maximum length

---
 src/fstrm_capture.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index c5d3458..d0ae4f8 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -900,8 +900,10 @@ load_control_frame(struct conn *conn)
 	fstrm_res res;
 	uint8_t *control_frame = NULL;
 
-	/* Check if the frame is too big. */
-	if (conn->len_frame_total >= FSTRM_CONTROL_FRAME_LENGTH_MAX) {
+	/* Check if the frame is too big, without its escape sequence and length. */
+	if (conn->len_frame_total >
+	    FSTRM_CONTROL_FRAME_LENGTH_MAX + 2*sizeof(uint32_t))
+	{
 		/* Malformed. */
 		return false;
 	}
-- 
2.43.0


From 14f8ee31cce95f47c8de29bc5a7797bc6f0c6f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 15/28] fix: fstrm_capture: make room for any control frame in
 small buffers

---
 src/fstrm_capture.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index d0ae4f8..46b7fc6 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -329,6 +329,11 @@ parse_args(const int argc, char **argv, struct capture *ctx)
 	g_program_ctx.capture_highwater = 262144;
 	if (g_program_args.buffer_size > 0)
 		g_program_ctx.capture_highwater = (size_t)g_program_args.buffer_size;
+	/* Any control frame has to fit into the buffer. */
+	if (g_program_ctx.capture_highwater <
+	    FSTRM_CONTROL_FRAME_LENGTH_MAX + 2*sizeof(uint32_t))
+		g_program_ctx.capture_highwater =
+			FSTRM_CONTROL_FRAME_LENGTH_MAX + 2*sizeof(uint32_t);
 	g_program_ctx.remaining_connections = -1; /* unlimited connections. */
 	if (g_program_args.count_connections > 0)
 		g_program_ctx.remaining_connections = (unsigned)g_program_args.count_connections;
-- 
2.43.0


From ee3b1be8c92df37f2e1039f4d25d618dc913fb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 16/28] fix: fstrm_capture: report output that could not be
 written

---
 src/fstrm_capture.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 46b7fc6..7fab5d8 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -498,7 +498,8 @@ open_write_start(struct capture *ctx)
 	n_written = fwrite(control_frame, len_control_frame, 1, ctx->output_file);
 	if (n_written != 1)
 		goto fail;
-	(void) fflush(ctx->output_file);
+	if (fflush(ctx->output_file) != 0)
+		goto fail;
 
 	/* Success. */
 	ctx->bytes_written += len_control_frame;
@@ -613,9 +614,15 @@ close_write_file(struct capture *ctx)
 		if (!close_write_stop(ctx))
 			return false;
 
-		/* Close the FILE object. */
-		fclose(ctx->output_file);
+		/* Close the FILE object, which writes what is still buffered. */
+		bool error = ferror(ctx->output_file);
+		if (fclose(ctx->output_file) != 0)
+			error = true;
 		ctx->output_file = NULL;
+		if (error) {
+			fprintf(stderr, "%s: failed to write output file\n", argv_program);
+			return false;
+		}
 	}
 
 	/* Success. */
@@ -1154,7 +1161,11 @@ do_sighup(__attribute__((unused)) evutil_socket_t sig,
 {
 	struct capture *ctx = user_data;
 	if (ctx->output_file) {
-		fflush(ctx->output_file);
+		if (fflush(ctx->output_file) != 0) {
+			fprintf(stderr, "%s: fflush() failed: %s\n",
+				argv_program, strerror(errno));
+			exit(EXIT_FAILURE);
+		}
 		fprintf(stderr, "%s: received SIGHUP, flushing output\n", argv_program);
 	}
 }
-- 
2.43.0


From 06b54eb3a49e8b3a29fc805438f91c3d977f546e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:47 +0000
Subject: [PATCH 17/28] fix: fstrm_replay: fail when the server did not finish
 the stream

---
 src/fstrm_replay.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fstrm_replay.c b/src/fstrm_replay.c
index 0b717cd..43bd60e 100644
--- a/src/fstrm_replay.c
+++ b/src/fstrm_replay.c
@@ -284,9 +284,11 @@ int main(int argc, char **argv)
 	}
 
 	res = fstrm_writer_close(w);
-	if (res != fstrm_res_success)
+	fstrm_writer_destroy(&w);
+	if (res != fstrm_res_success) {
 		fputs("Error: fstrm_writer_close() failed", stderr);
+		return EXIT_FAILURE;
+	}
 
-	fstrm_writer_destroy(&w);
 	return 0;
 }
-- 
2.43.0


From e8293d582ec0fe1d8b5e9262be8437dd5a90d0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:14 +0000
Subject: [PATCH 18/28] fix: fstrm_capture: do not lose a termination signal

---
 src/fstrm_capture.c | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index 7fab5d8..cb796b8 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -107,6 +107,8 @@ struct capture {
 	struct evconnlistener	*ev_connlistener;
 	struct event		*ev_sighup;
 	struct event		*ev_sigusr1;
+	struct event		*ev_sigterm;
+	struct event		*ev_sigint;
 
 	FILE			*output_file;
 	char			*output_fname;
@@ -1170,6 +1172,14 @@ do_sighup(__attribute__((unused)) evutil_socket_t sig,
 	}
 }
 
+static void
+do_shutdown(__attribute__((unused)) evutil_socket_t sig,
+	    __attribute__((unused)) short events, void *user_data)
+{
+	struct capture *ctx = user_data;
+	event_base_loopexit(ctx->ev_base, NULL);
+}
+
 static bool
 setup_event_loop(struct capture *ctx)
 {
@@ -1204,31 +1214,30 @@ setup_event_loop(struct capture *ctx)
 				       &g_program_ctx);
 	evsignal_add(ctx->ev_sigusr1, NULL);
 
+	/*
+	 * Register our SIGTERM and SIGINT handlers. event_base_loopexit() must
+	 * not be called by an asynchronous signal handler.
+	 */
+	ctx->ev_sigterm = evsignal_new(ctx->ev_base, SIGTERM, &do_shutdown,
+				       &g_program_ctx);
+	evsignal_add(ctx->ev_sigterm, NULL);
+	ctx->ev_sigint = evsignal_new(ctx->ev_base, SIGINT, &do_shutdown,
+				      &g_program_ctx);
+	evsignal_add(ctx->ev_sigint, NULL);
+
 	/* Success. */
 	return true;
 }
 
-static void
-shutdown_handler(int signum __attribute__((unused)))
-{
-	event_base_loopexit(g_program_ctx.ev_base, NULL);
-}
-
 static bool
 setup_signals(void)
 {
 	struct sigaction sa = {
-		.sa_handler = shutdown_handler,
+		.sa_handler = SIG_IGN,
 	};
 
 	if (sigemptyset(&sa.sa_mask) != 0)
 		return false;
-	if (sigaction(SIGTERM, &sa, NULL) != 0)
-		return false;
-	if (sigaction(SIGINT, &sa, NULL) != 0)
-		return false;
-
-	sa.sa_handler = SIG_IGN;
 	if (sigaction(SIGPIPE, &sa, NULL) != 0)
 		return false;
 
@@ -1244,6 +1253,10 @@ cleanup(struct capture *ctx)
 		event_free(ctx->ev_sighup);
 	if (ctx->ev_sigusr1 != NULL)
 		event_free(ctx->ev_sigusr1);
+	if (ctx->ev_sigterm != NULL)
+		event_free(ctx->ev_sigterm);
+	if (ctx->ev_sigint != NULL)
+		event_free(ctx->ev_sigint);
 	if (ctx->ev_connlistener != NULL)
 		evconnlistener_free(ctx->ev_connlistener);
 	if (ctx->ev_base != NULL)
-- 
2.43.0


From e422be521b35997e911e82ba7f555e01927e7981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:23 +0000
Subject: [PATCH 19/28] fix: argv: do not read past the end of the argument
 array

check_or() examined the entry two places after an argument before making
sure that the one in between is not ARGV_LAST, so the last option of every
table (e.g. fstrm_capture --localtime) read beyond its array.
---
 libmy/argv.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 6c64906..218c3f7 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -1880,8 +1880,8 @@ static	int	check_or(const argv_t *args, const argv_t *which_p)
   if (match_p == NULL) {
     /* NOTE: we assume that which_p is not pointing now to ARGV_LAST */
     for (arg_p = which_p + 2;
-	 arg_p->ar_short_arg != ARGV_LAST
-	 && (arg_p - 1)->ar_short_arg != ARGV_LAST;
+	 (arg_p - 1)->ar_short_arg != ARGV_LAST
+	 && arg_p->ar_short_arg != ARGV_LAST;
 	 arg_p += 2) {
       if ((arg_p - 1)->ar_short_arg != ARGV_OR
 	  && (arg_p - 1)->ar_short_arg != ARGV_XOR) {
-- 
2.43.0


From 7cb6e04b44eccb2b9ba6a0060c339685aa69a1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:26 +0000
Subject: [PATCH 20/28] fix: fail adding an overlong content type to a control
 frame

fstrm_control_add_field_content_type() is documented to fail if the
"Content Type" string is too long, but it accepted any length.
---
 fstrm/control.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fstrm/control.c b/fstrm/control.c
index 297e7f3..a544ac5 100644
--- a/fstrm/control.c
+++ b/fstrm/control.c
@@ -167,6 +167,10 @@ fstrm_control_add_field_content_type(struct fstrm_control *c,
 				     size_t len_content_type)
 {
 	fs_buf ctype;
+
+	if (len_content_type > FSTRM_CONTROL_FIELD_CONTENT_TYPE_LENGTH_MAX)
+		return fstrm_res_failure;
+
 	ctype.len = len_content_type;
 	ctype.data = my_malloc(ctype.len);
 	memcpy(ctype.data, content_type, ctype.len);
-- 
2.43.0


From 8508c78e5b4bdc93e8f4f1f245c672a701230e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:21 +0000
Subject: [PATCH 21/28] fix: do not count the header towards the control frame
 length limit

FSTRM_CONTROL_FRAME_LENGTH_MAX limits the payload and excludes the escape
sequence and the control frame length, but with a header the encoder
refused payloads longer than 504 bytes, which the decoder accepts.
---
 fstrm/control.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fstrm/control.c b/fstrm/control.c
index a544ac5..cf80b5d 100644
--- a/fstrm/control.c
+++ b/fstrm/control.c
@@ -410,8 +410,11 @@ fstrm_control_encoded_size(const struct fstrm_control *c,
 			break;
 	}
 
-	/* Sanity check the overall length. */
-	if (len > FSTRM_CONTROL_FRAME_LENGTH_MAX)
+	/* Sanity check the payload length, which excludes the header. */
+	size_t len_payload = len;
+	if (flags & FSTRM_CONTROL_FLAG_WITH_HEADER)
+		len_payload -= 2 * sizeof(uint32_t);
+	if (len_payload > FSTRM_CONTROL_FRAME_LENGTH_MAX)
 		return fstrm_res_failure;
 
 	*len_control_frame = len;
-- 
2.43.0


From a6886798da9da0923ff7dcbaf090ccb3d88cfa1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:44 +0000
Subject: [PATCH 22/28] fix: fstrm_tcp_writer_init() accepted an empty port as
 port 0

---
 fstrm/tcp_writer.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fstrm/tcp_writer.c b/fstrm/tcp_writer.c
index 7ae16a7..c6fe248 100644
--- a/fstrm/tcp_writer.c
+++ b/fstrm/tcp_writer.c
@@ -265,6 +265,8 @@ fstrm_tcp_writer_init(const struct fstrm_tcp_writer_options *twopt,
 
 	if (twopt->socket_address == NULL || twopt->socket_port == NULL)
 		return NULL;
+	if (twopt->socket_port[0] == '\0')
+		return NULL;
 
 	tw = my_calloc(1, sizeof(*tw));
 
-- 
2.43.0


From d82596af60483a7871b747c9e36e85fb7de56c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:44 +0000
Subject: [PATCH 23/28] fix: fstrm_capture accepted an empty TCP port and
 listened on an arbitrary one

---
 src/fstrm_capture.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index cb796b8..d317f1e 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -406,6 +406,10 @@ open_read_tcp(struct capture *ctx)
 	char *endptr = NULL;
 
 	/* Parse TCP listen port. */
+	if (ctx->args->str_read_tcp_port[0] == '\0') {
+		usage("Failed to parse TCP listen port");
+		return false;
+	}
 	port = strtoul(ctx->args->str_read_tcp_port, &endptr, 0);
 	if (*endptr != '\0' || port > UINT16_MAX) {
 		usage("Failed to parse TCP listen port");
-- 
2.43.0


From 93c5ec3fd0e6a4e9951fe1c73c124db5d8b8e0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:51 +0000
Subject: [PATCH 24/28] fix: options bundled in one argument overflowed the
 option queue of argv_process()

---
 libmy/argv.c | 60 +++++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 55 insertions(+), 5 deletions(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 218c3f7..25ce740 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -141,6 +141,9 @@ int	argv_env_after_b = 0;
  * local variables
  */
 
+/* size of the option queue */
+static	int	queue_max = 0;
+
 /* empty argument array */
 static	argv_t	empty[] = {{ ARGV_LAST, NULL, 0, NULL, NULL, NULL }};
 static	int	enabled_b = ARGV_FALSE;		/* are the lights on? */
@@ -2269,6 +2272,45 @@ static	void	file_args(const char *path, argv_t *grid,
   }
 }
 
+/*
+ * static int queue_option
+ *
+ * DESCRIPTION:
+ *
+ * Add an option to the queue of those waiting for a value.
+ *
+ * RETURNS:
+ *
+ * Success - 0
+ *
+ * Failure - -1 if the queue is full
+ *
+ * ARGUMENTS:
+ *
+ * queue_list - Our option queue for storing options to arguments.
+ *
+ * queue_head_p <-> Pointer to integer which will be updated with the
+ * head position in our option queue.
+ *
+ * match_p - Option to add.
+ */
+static	int	queue_option(argv_t **queue_list, int *queue_head_p,
+			     argv_t *match_p)
+{
+  if (*queue_head_p >= queue_max) {
+    if (argv_error_stream != NULL) {
+      (void)fprintf(argv_error_stream,
+		    "%s: %s, too many options waiting for an argument\n",
+		    argv_program, USAGE_ERROR_NAME);
+    }
+    return ERROR;
+  }
+  
+  queue_list[*queue_head_p] = match_p;
+  (*queue_head_p)++;
+  return NOERROR;
+}
+
 /*
  * static void do_arg
  *
@@ -2355,9 +2397,8 @@ static	void	do_arg(argv_t *grid, argv_t *match_p, const char *close_p,
       *okay_bp = ARGV_FALSE;
     }
   }
-  else {
-    queue_list[*queue_head_p] = match_p;
-    (*queue_head_p)++;
+  else if (queue_option(queue_list, queue_head_p, match_p) != NOERROR) {
+    *okay_bp = ARGV_FALSE;
   }
 }
 
@@ -2541,8 +2582,9 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	}
 	else {
 	  /* HACK: we enqueue null for the file argument */
-	  queue_list[*queue_head_p] = NULL;
-	  (*queue_head_p)++;
+	  if (queue_option(queue_list, queue_head_p, NULL) != NOERROR) {
+	    *okay_bp = ARGV_FALSE;
+	  }
 	}
 	continue;
       }
@@ -2725,6 +2767,9 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	      char_c = len;
 	      /* we actually used it so we advance the queue tail position */
 	      (*queue_tail_p)++;
+	      if (*queue_tail_p == *queue_head_p) {
+		*queue_head_p = *queue_tail_p = 0;
+	      }
 	      continue;
 	      break;
 	    }
@@ -2753,6 +2798,10 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
       /* pull the variable waiting for a value from the queue */
       match_p = queue_list[*queue_tail_p];
       (*queue_tail_p)++;
+      /* start over if the queue is empty */
+      if (*queue_tail_p == *queue_head_p) {
+	*queue_head_p = *queue_tail_p = 0;
+      }
       
       /* HACK: is this the file argument */
       if (match_p == NULL) {
@@ -3195,6 +3244,7 @@ int	argv_process_no_env(argv_t *args, const int arg_n, char **argv)
     if (queue_list == NULL) {
       return ERROR;
     }
+    queue_max = total_arg_n;
     queue_head = 0;
     queue_tail = 0;
   }
-- 
2.43.0


From fc9f84bc54b1515210a73c2c90b239b2299fd510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:51 +0000
Subject: [PATCH 25/28] fix: a number after --argv-file made argv_process()
 dereference a null pointer

---
 libmy/argv.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libmy/argv.c b/libmy/argv.c
index 25ce740..afde063 100644
--- a/libmy/argv.c
+++ b/libmy/argv.c
@@ -2748,7 +2748,8 @@ static	void	do_list(argv_t *grid, const int arg_c, char **argv,
 	   * to Nick Kisseberth for pointing out this oversight.
 	   */
 	  if (char_c == 0 && is_number(*arg_p)
-	      && *queue_head_p > *queue_tail_p) {
+	      && *queue_head_p > *queue_tail_p
+	      && queue_list[*queue_tail_p] != NULL) {
 	    
 	    match_p = queue_list[*queue_tail_p];
 	    /*
-- 
2.43.0


From e8a4288b92c589aae71a93f55c95cc509aad321d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:30 +0000
Subject: [PATCH 26/28] fix: fstrm_capture: keep the iovecs of a data frame off
 the stack

A data frame may be as long as the buffer size (--buffersize, up to 2 GiB).
It lies in pieces of about 4 KiB, and the array describing them was put on
the stack: a frame of 2.1 GB, or a shorter one with a smaller stack,
crashed the server.
---
 src/fstrm_capture.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fstrm_capture.c b/src/fstrm_capture.c
index d317f1e..1a01f6f 100644
--- a/src/fstrm_capture.c
+++ b/src/fstrm_capture.c
@@ -654,7 +654,7 @@ process_data_frame(struct conn *conn)
 	const int n_vecs = evbuffer_peek(conn->ev_input, conn->len_frame_total, NULL, NULL, 0);
 
 	/* Allocate space for the iovec's. */
-	struct evbuffer_iovec vecs[n_vecs];
+	struct evbuffer_iovec *vecs = my_calloc(n_vecs, sizeof(*vecs));
 
 	/* Retrieve the iovec's. */
 	const int n = evbuffer_peek(conn->ev_input, conn->len_frame_total, NULL, vecs, n_vecs);
@@ -679,6 +679,8 @@ process_data_frame(struct conn *conn)
 		bytes_read += len;
 	}
 
+	my_free(vecs);
+
 	/* Check that exactly the right number of bytes were written. */
 	assert(bytes_read == conn->len_frame_total);
 
-- 
2.43.0


From e35c3085ace7c50e0eb4c434b27616edb3da6e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:27 +0000
Subject: [PATCH 27/28] fix: writer: do not overflow the number of frames of a
 vectored write

Twice the number of frames does not fit an int when it is 2^30 or more:
the check for the size of the writer's vector then passed and the vector
was written far beyond its end.
---
 fstrm/writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fstrm/writer.c b/fstrm/writer.c
index 84c25cf..1df02a7 100644
--- a/fstrm/writer.c
+++ b/fstrm/writer.c
@@ -411,7 +411,7 @@ fstrm_writer_writev(struct fstrm_writer *w, const struct iovec *iov, int iovcnt)
 		return res;
 
 	if (likely(w->state == fstrm_writer_state_opened)) {
-		if (likely((2 * iovcnt) <= FSTRM__WRITER_IOVEC_SIZE))
+		if (likely(iovcnt <= FSTRM__WRITER_IOVEC_SIZE / 2))
 			return fstrm__writer_write_iov(w, iov, iovcnt);
 		else
 			return fstrm__writer_write_iov_stupid(w, iov, iovcnt);
-- 
2.43.0


From 16c690c4fa50c2da7d30f4ecdcf9b77abce01a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:42 +0000
Subject: [PATCH 28/28] fix: iothr: do not extend the flush timeout when woken
 up

---
 fstrm/iothr.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/fstrm/iothr.c b/fstrm/iothr.c
index 761b1b9..4416903 100644
--- a/fstrm/iothr.c
+++ b/fstrm/iothr.c
@@ -112,6 +112,10 @@ struct fstrm_iothr {
 	struct iovec			*outq_iov;
 	struct fstrm__iothr_queue_entry	*outq_entries;
 	unsigned			outq_nbytes;
+
+	/* When the output queue has to be flushed, if it holds anything. */
+	bool				outq_deadline_set;
+	struct timespec			outq_deadline;
 };
 
 struct fstrm_iothr_options *
@@ -480,6 +484,7 @@ fstrm__iothr_flush_output(struct fstrm_iothr *iothr)
 	/* Zero counters and indices. */
 	iothr->outq_idx = 0;
 	iothr->outq_nbytes = 0;
+	iothr->outq_deadline_set = false;
 }
 
 static void
@@ -637,6 +642,17 @@ fstrm__iothr_thr(void *arg)
 #endif
 		ts.tv_sec += iothr->opt.flush_timeout;
 
+		/*
+		 * Being woken up must not extend the time that unflushed data
+		 * remains in the output queue.
+		 */
+		if (iothr->outq_idx > 0) {
+			if (iothr->outq_deadline_set)
+				ts = iothr->outq_deadline;
+			iothr->outq_deadline = ts;
+			iothr->outq_deadline_set = true;
+		}
+
 		pthread_mutex_lock(&iothr->cv_lock);
 		res = pthread_cond_timedwait(&iothr->cv, &iothr->cv_lock, &ts);
 		pthread_mutex_unlock(&iothr->cv_lock);
-- 
2.43.0

