#!/usr/bin/env python3
"""refactors.py [NAME-PREFIX...]: edits that keep the behaviour, each in a scratch copy of the tree; every check
concerned has to stay quiet.  Measures the checks; nothing registered in MANIFEST.json reads it."""
import json
import os
import shutil
import subprocess
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
LIB = ["P%02d" % i for i in range(1, 20)] + ["P29", "P30", "P32", "P33", "P34"]
IOT = ["P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P32", "P33", "P34"]
CAP = ["P%d" % i for i in range(20, 27)] + ["P31", "P32", "P33", "P34"]
R = {}


def r(name, checks, *edits):
    R[name] = (checks, edits)


# ---------------------------------------------------------------- I/O thread
r("iothr-loop", IOT,
  ("fstrm/iothr.c", """		if (unlikely(iothr->shutting_down)) {
			while (fstrm__iothr_process_queues(iothr));
			fstrm__iothr_flush_output(iothr);
			fstrm__iothr_close(iothr);
			break;
		}
""", """		if (unlikely(iothr->shutting_down))
			break;
"""),
  ("fstrm/iothr.c", "@@THREND", "@@THREND"),
  ("fstrm/iothr.c", """	for (unsigned i = 0; i < iothr->outq_idx; i++)
		fstrm__iothr_queue_entry_free_bytes(&iothr->outq_entries[i]);
""", """	unsigned left = iothr->outq_idx;
	struct fstrm__iothr_queue_entry *e = iothr->outq_entries;
	while (left-- > 0)
		fstrm__iothr_queue_entry_free_bytes(e++);
"""),
  ("fstrm/iothr.c", """	since = ts.tv_sec - iothr->last_open_attempt;
	if (since < (time_t) iothr->opt.reopen_interval)
		return;
""", """	since = (time_t) iothr->opt.reopen_interval + iothr->last_open_attempt;
	if (!(ts.tv_sec >= since))
		return;
"""))
r("iothr-free-reverse", IOT,
  ("fstrm/iothr.c", """	for (unsigned i = 0; i < iothr->outq_idx; i++)
		fstrm__iothr_queue_entry_free_bytes(&iothr->outq_entries[i]);
""", """	for (unsigned i = iothr->outq_idx; i > 0; i--)
		fstrm__iothr_queue_entry_free_bytes(&iothr->outq_entries[i - 1]);
"""),
  ("fstrm/iothr.c", """	for (unsigned i = 0; i < iothr->opt.num_input_queues; i++) {
		if (iothr->queue_ops->remove(iothr->queues[i].q, &entry, NULL)) {
			fstrm__iothr_process_queue_entry(iothr, &entry);
			total++;
		}
	}
""", """	unsigned i = iothr->opt.num_input_queues;
	while (i > 0) {
		i--;
		if (!iothr->queue_ops->remove(iothr->queues[i].q, &entry, NULL))
			continue;
		fstrm__iothr_process_queue_entry(iothr, &entry);
		total += 1;
	}
"""))
r("iothr-submit", IOT,
  ("fstrm/iothr.c", """	if (likely(len > 0) && iothr->queue_ops->insert(ioq->q, &entry, &space)) {
		if (space == iothr->opt.queue_notify_threshold)
			pthread_cond_signal(&iothr->cv);
		return fstrm_res_success;
	} else {
		return fstrm_res_again;
	}
""", """	if (!iothr->queue_ops->insert(ioq->q, &entry, &space))
		return fstrm_res_again;
	if (space == iothr->opt.queue_notify_threshold) {
		pthread_mutex_lock(&iothr->cv_lock);
		pthread_cond_broadcast(&iothr->cv);
		pthread_mutex_unlock(&iothr->cv_lock);
	}
	return fstrm_res_success;
"""),
  ("fstrm/iothr.c", """	pthread_mutex_lock(&iothr->get_queue_lock);
	if (iothr->get_queue_idx < iothr->opt.num_input_queues) {
		q = &iothr->queues[iothr->get_queue_idx];
		iothr->get_queue_idx++;
	}
	pthread_mutex_unlock(&iothr->get_queue_lock);
""", """	unsigned idx = UINT_MAX;
	pthread_mutex_lock(&iothr->get_queue_lock);
	if (iothr->get_queue_idx != iothr->opt.num_input_queues)
		idx = iothr->get_queue_idx++;
	pthread_mutex_unlock(&iothr->get_queue_lock);
	if (idx != UINT_MAX)
		q = iothr->queues + idx;
"""),
  ("fstrm/iothr.c", "	volatile bool			shutting_down;", "	volatile int			shutting_down;"),
  ("fstrm/iothr.c", '#include "fstrm-private.h"', '#include <limits.h>\n#include "fstrm-private.h"'))
r("iothr-atomic", IOT,
  ("fstrm/iothr.c", "	volatile bool			shutting_down;", "	bool				shutting_down;"),
  ("fstrm/iothr.c", "		(*iothr)->shutting_down = true;", "		__atomic_store_n(&(*iothr)->shutting_down, true, __ATOMIC_RELEASE);"),
  ("fstrm/iothr.c", "	if (unlikely(iothr->shutting_down))\n		return fstrm_res_failure;", "	if (unlikely(__atomic_load_n(&iothr->shutting_down, __ATOMIC_ACQUIRE)))\n		return fstrm_res_failure;"),
  ("fstrm/iothr.c", "		if (unlikely(iothr->shutting_down)) {", "		if (unlikely(__atomic_load_n(&iothr->shutting_down, __ATOMIC_ACQUIRE))) {"))
r("iothr-flushhint", IOT,
  ("fstrm/iothr.c", """		if (iothr->outq_idx >= iothr->opt.output_queue_size ||
		    iothr->outq_nbytes + nbytes >= iothr->opt.buffer_hint)
		{
""", """		const size_t after = iothr->outq_nbytes + nbytes;
		const bool full = !(iothr->outq_idx < iothr->opt.output_queue_size);
		if (after >= iothr->opt.buffer_hint || full) {
"""),
  ("fstrm/iothr.c", "	struct fstrm__iothr_queue_entry	*outq_entries;\n	unsigned			outq_nbytes;", "	struct fstrm__iothr_queue_entry	*outq_entries;\n	size_t				outq_nbytes;"))
# ---------------------------------------------------------------- queues
r("mb-atomics", IOT,
  ("libmy/my_queue_mb.c", """	unsigned head = q->head;
	unsigned tail = MY_ACCESS_ONCE(q->tail);
	unsigned space""", """	unsigned head = q->head;
	unsigned tail = __atomic_load_n(&q->tail, __ATOMIC_ACQUIRE);
	unsigned space"""),
  ("libmy/my_queue_mb.c", """		smp_wmb();
		q->head = (head + 1) & (q->num_elems - 1);
		smp_wmb();
""", """		__atomic_store_n(&q->head, (head + 1) & (q->num_elems - 1), __ATOMIC_RELEASE);
"""),
  ("libmy/my_queue_mb.c", """	unsigned head = MY_ACCESS_ONCE(q->head);
	unsigned tail = q->tail;
	unsigned count""", """	unsigned head = __atomic_load_n(&q->head, __ATOMIC_ACQUIRE);
	unsigned tail = q->tail;
	unsigned count"""),
  ("libmy/my_queue_mb.c", """		smp_mb();
		q->tail = (tail + 1) & (q->num_elems - 1);
""", """		__atomic_store_n(&q->tail, (tail + 1) & (q->num_elems - 1), __ATOMIC_RELEASE);
"""))
r("mb-loop-copy", IOT,
  ("libmy/my_queue_mb.c", """		memcpy(&q->data[head * q->sizeof_elem], item, q->sizeof_elem);
""", """		uint8_t *slot = q->data + (size_t) head * q->sizeof_elem;
		for (unsigned k = 0; k < q->sizeof_elem; k++)
			slot[k] = ((const uint8_t *) item)[k];
"""),
  ("libmy/my_queue_mb.c", """		q->head = (head + 1) & (q->num_elems - 1);
""", """		if (++head == q->num_elems)
			head = 0;
		q->head = head;
"""))
r("mutex-count", IOT,
  ("libmy/my_queue_mutex.c", """	bool res = false;
	unsigned head = q->head;
	unsigned tail = q->tail;
	unsigned space = q_space(head, tail, q->num_elems);
	if (space >= 1) {
		memcpy(&q->data[head * q->sizeof_elem], item, q->sizeof_elem);
		q->head = (head + 1) & (q->num_elems - 1);
		res = true;
		space--;
	}
	q_unlock(q);
""", """	bool res = false;
	unsigned space = q->num_elems - 1 - q_count(q->head, q->tail, q->num_elems);
	if (space != 0) {
		memcpy(q->data + (size_t) q->head * q->sizeof_elem, item, q->sizeof_elem);
		q->head = (q->head + 1) % q->num_elems;
		space -= 1;
		res = true;
	}
	q_unlock(q);
"""), ("libmy/my_queue_mutex.c", """static inline unsigned
q_space(unsigned head, unsigned tail, unsigned size)
{
	return ((tail - (head + 1)) & (size - 1));
}
""", ""))
# ---------------------------------------------------------------- reader
r("reader-manual", LIB,
  ("fstrm/reader.c", """	fstrm_res res;
	uint32_t tmp;

	res = fstrm_rdwr_read(r->rdwr, &tmp, sizeof(tmp));
	if (unlikely(res != fstrm_res_success))
		return res;
	*out = ntohl(tmp);
	return fstrm_res_success;
""", """	uint8_t b[4];
	fstrm_res res = fstrm_rdwr_read(r->rdwr, b, sizeof(b));
	if (likely(res == fstrm_res_success))
		*out = (uint32_t) b[0] << 24 | (uint32_t) b[1] << 16 | (uint32_t) b[2] << 8 | b[3];
	return res;
"""),
  ("fstrm/reader.c", """	bool match = true;
	for (size_t i = 0; i < fs_bufvec_size(r->content_types); i++) {
		fs_buf ctype = fs_bufvec_value(r->content_types, i);
		res = fstrm_control_match_field_content_type(r->control_start,
			ctype.data, ctype.len);
		if (res == fstrm_res_success) {
			match = true;
			break;
		} else {
			match = false;
			continue;
		}
	}
	if (!match) {
""", """	const size_t n = fs_bufvec_size(r->content_types);
	bool match = (n == 0);
	for (size_t i = n; i > 0 && !match; i--) {
		fs_buf ctype = fs_bufvec_value(r->content_types, i - 1);
		match = fstrm_control_match_field_content_type(r->control_start,
			ctype.data, ctype.len) == fstrm_res_success;
	}
	if (!match) {
"""),
  ("fstrm/reader.c", """			ubuf_clip(r->buf, 0);
			ubuf_reserve(r->buf, len);
			res = fstrm_rdwr_read(r->rdwr, ubuf_ptr(r->buf), len);
			if (unlikely(res != fstrm_res_success))
				goto fail;

			/* Export the data frame to the caller. */
			*data = ubuf_ptr(r->buf);
			*len_data = len;
""", """			ubuf_reset(r->buf);
			ubuf_reserve(r->buf, len);
			uint8_t *p = ubuf_ptr(r->buf);
			res = fstrm_rdwr_read(r->rdwr, p, len);
			if (unlikely(res != fstrm_res_success))
				goto fail;
			*len_data = len;
			*data = p;
"""))
r("reader-chunks", LIB,
  ("fstrm/reader.c", """			res = fstrm_rdwr_read(r->rdwr, ubuf_ptr(r->buf), len);
			if (unlikely(res != fstrm_res_success))
				goto fail;
""", """			for (size_t at = 0; at < len; ) {
				size_t part = len - at;
				if (part > 4096)
					part = 4096;
				res = fstrm_rdwr_read(r->rdwr, ubuf_ptr(r->buf) + at, part);
				if (unlikely(res != fstrm_res_success))
					goto fail;
				at += part;
			}
"""))
# ---------------------------------------------------------------- writer
r("writer-split", LIB,
  ("fstrm/writer.c", """	for (int i = 0, iov_idx = 0; i < iovcnt; i++) {
		/* Frame length. */
		w->be32_lens[i] = htonl(iov[i].iov_len);
		w->iovecs[iov_idx].iov_len = sizeof(uint32_t);
		w->iovecs[iov_idx].iov_base = (void *) &w->be32_lens[i];
		iov_idx += 1;

		/* Frame data. */
		memcpy(&w->iovecs[iov_idx], &iov[i], sizeof(struct iovec));
		iov_idx += 1;
	}

	return fstrm_rdwr_write(w->rdwr, w->iovecs, 2 * iovcnt);
""", """	fstrm_res res = fstrm_res_success;
	for (int i = 0; i < iovcnt && res == fstrm_res_success; i++) {
		w->be32_lens[0] = htonl(iov[i].iov_len);
		w->iovecs[0].iov_base = (void *) w->be32_lens;
		w->iovecs[0].iov_len = sizeof(uint32_t);
		w->iovecs[1] = iov[i];
		res = fstrm_rdwr_write(w->rdwr, w->iovecs, 2);
	}
	return res;
"""))
r("writer-heap", LIB,
  ("fstrm/writer.c", """	int iov_max = FSTRM__WRITER_IOVEC_SIZE / 2;
	if (iov_max > IOV_MAX)
		iov_max = IOV_MAX;
	assert(iov_max > 0);
""", """	const int iov_max = 100;
"""),
  ("fstrm/writer.c", """	if (w->state == fstrm_writer_state_opened)
		return fstrm_res_success;

	res = fstrm_rdwr_open(w->rdwr);
	if (res != fstrm_res_success)
		return res;

	if (w->rdwr->ops.read != NULL) {
		/* Bi-directional transport. */
		res = fstrm__writer_open_bidirectional(w);
	} else {
		/* Uni-directional transport. */
		res = fstrm__writer_open_unidirectional(w);
	}
	if (res != fstrm_res_success) {
		(void)fstrm_rdwr_close(w->rdwr);
		return res;
	}

	w->state = fstrm_writer_state_opened;
	return fstrm_res_success;
""", """	if (w->state == fstrm_writer_state_opened)
		return fstrm_res_success;

	res = fstrm_rdwr_open(w->rdwr);
	if (res == fstrm_res_success) {
		res = (w->rdwr->ops.read == NULL)
			? fstrm__writer_open_unidirectional(w)
			: fstrm__writer_open_bidirectional(w);
		if (res == fstrm_res_success)
			w->state = fstrm_writer_state_opened;
		else
			(void)fstrm_rdwr_close(w->rdwr);
	}
	return res;
"""))
# ---------------------------------------------------------------- control frames, transports
r("control-flat", LIB,
  ("fstrm/control.c", """	for (size_t i = 0; i < fs_bufvec_size(c->content_types); i++) {
		/* Do not add "Content Type" fields to STOP or FINISH frames. */
		if (c->type == FSTRM_CONTROL_STOP ||
		    c->type == FSTRM_CONTROL_FINISH)
		{
			break;
		}

		fs_buf c_type = fs_bufvec_value(c->content_types, i);

		/* FSTRM_CONTROL_FIELD_CONTENT_TYPE: 32-bit BE integer. */
		len += sizeof(uint32_t);

		/* Length of the "Content Type" string: 32-bit BE integer. */
		len += sizeof(uint32_t);

		/* Enforce limit on "Content Type" payload length. */
		if (c_type.len > FSTRM_CONTROL_FIELD_CONTENT_TYPE_LENGTH_MAX)
			return fstrm_res_failure;

		/* The "Content Type" payload. */
		len += c_type.len;

		/* Only add one "Content Type" field to START frames. */
		if (c->type == FSTRM_CONTROL_START)
			break;
	}
""", """	size_t n_ctype = 0;
	(void)fstrm_control_get_num_field_content_type(c, &n_ctype);
	for (size_t i = 0; i < n_ctype; i++)
		len += 2 * sizeof(uint32_t) + fs_bufvec_value(c->content_types, i).len;
"""),
  ("fstrm/control.c", """			c_type.data = my_malloc(c_type.len);
			if (!fs_load_bytes(c_type.data, c_type.len, &buf, &len))
			{
				my_free(c_type.data);
				return fstrm_res_failure;
			}
""", """			c_type.data = my_malloc(c_type.len + 1);
			memcpy(c_type.data, buf, c_type.len);
			c_type.data[c_type.len] = 0;
			buf += c_type.len;
			len -= c_type.len;
"""))
r("rdwr-order", LIB,
  ("fstrm/rdwr.c", """	uint8_t control_frame[len_control_frame];
	res = fstrm_rdwr_read(rdwr, control_frame, sizeof(control_frame));
""", """	uint8_t control_frame[FSTRM_CONTROL_FRAME_LENGTH_MAX];
	res = fstrm_rdwr_read(rdwr, control_frame, len_control_frame);
"""),
  ("fstrm/rdwr.c", """	if (unlikely(rdwr->ops.open == NULL))
		return fstrm_res_failure;
	res = rdwr->ops.open(rdwr->obj);
	if (res == fstrm_res_success)
		rdwr->opened = true;
	return res;
""", """	fstrm_rdwr_open_func fn = rdwr->ops.open;
	res = fn != NULL ? fn(rdwr->obj) : fstrm_res_failure;
	if (res != fstrm_res_success)
		return res;
	rdwr->opened = true;
	return fstrm_res_success;
"""))
# ---------------------------------------------------------------- built-in transports
SOCK = ["P29", "P10", "P08", "P09", "P18", "P28"]
SEND = """	for (;;) {
		do {
			written = sendmsg(w->fd, &msg, MSG_NOSIGNAL);
		} while (written == -1 && errno == EINTR);
"""
r("sock-loop", SOCK,
  ("fstrm/unix_writer.c", SEND, """	for (;;) {
		for (;;) {
			written = sendmsg(w->fd, &msg, MSG_NOSIGNAL);
			if (written >= 0 || errno != EINTR)
				break;
		}
"""),
  ("libmy/read_bytes.h", """	while (bytes_needed > 0) {
		ssize_t bytes_read;

		bytes_read = read(fd, buf, bytes_needed);
		if (bytes_read == -1 && errno == EINTR)
			continue;
		else if (bytes_read <= 0)
			return false;
		bytes_needed -= bytes_read;
		buf += bytes_read;
	}
	return true;
""", """	size_t at = 0;
	while (at != bytes_needed) {
		const ssize_t n = read(fd, buf + at, bytes_needed - at);
		if (n > 0)
			at += (size_t) n;
		else if (n == 0 || errno != EINTR)
			return false;
	}
	return true;
"""))
r("sock-send", SOCK,
  ("fstrm/unix_writer.c", """	ssize_t written = 0;
	struct msghdr msg = {
		.msg_iov = (struct iovec *) /* Grr! */ iov,
		.msg_iovlen = iovcnt,
	};

	if (unlikely(!w->connected))
		return fstrm_res_failure;

""" + SEND, """	if (unlikely(!w->connected))
		return fstrm_res_failure;

	for (int i = 0; i < iovcnt; i++) {
		const char *p = iov[i].iov_base;
		size_t left = iov[i].iov_len;
		while (left > 0) {
			const ssize_t n = send(w->fd, p, left, MSG_NOSIGNAL);
			if (n == -1 && errno == EINTR)
				continue;
			if (n == -1)
				return fstrm_res_failure;
			p += n;
			left -= n;
		}
	}
	return fstrm_res_success;
#if 0
	for (;;) {
"""), ("fstrm/unix_writer.c", """		msg.msg_iov->iov_len -= written;
	}
}
""", """		msg.msg_iov->iov_len -= written;
	}
#endif
}
"""))
r("sock-addrlen", SOCK + ["P31"],
  ("fstrm/unix_writer.c", "	if (connect(w->fd, (struct sockaddr *) &w->sa, sizeof(w->sa)) < 0) {", "	const socklen_t salen = offsetof(struct sockaddr_un, sun_path) + strlen(w->sa.sun_path) + 1;\n	if (connect(w->fd, (struct sockaddr *) &w->sa, salen) < 0) {"),
  ("fstrm/unix_writer.c", "#include <sys/un.h>", "#include <sys/un.h>\n#include <stddef.h>"))
r("file-fd", ["P29", "P01", "P09", "P08", "P18", "P27", "P28", "P32"],
  ("fstrm/file.c", "	char	file_mode[2];", "	char	file_mode[4];"),
  ("fstrm/file.c", "	f->file_mode[1] = '\\0';", "	f->file_mode[1] = 'b';\n	f->file_mode[2] = 'e';\n	f->file_mode[3] = '\\0';"),
  ("fstrm/file.c", """		if (likely(fread(data, count, 1, f->fp) == 1)) {
			return fstrm_res_success;
		} else {
			if (ferror(f->fp))
				return fstrm_res_failure;
			if (feof(f->fp))
				return fstrm_res_stop;
		}
""", """		const size_t n = fread(data, 1, count, f->fp);
		if (n == count)
			return fstrm_res_success;
		if (!ferror(f->fp) && feof(f->fp))
			return fstrm_res_stop;
"""),
  ("fstrm/file.c", """		if (unlikely(fwrite(iov[idx].iov_base, iov[idx].iov_len, 1, f->fp) != 1)) {""", """		if (unlikely(fwrite(iov[idx].iov_base, 1, iov[idx].iov_len, f->fp) != iov[idx].iov_len)) {"""))
# ---------------------------------------------------------------- capture
r("capture-copy", CAP,
  ("src/fstrm_capture.c", """	const int n_vecs = evbuffer_peek(conn->ev_input, conn->len_frame_total, NULL, NULL, 0);

	/* Allocate space for the iovec's. */
	struct evbuffer_iovec *vecs = my_calloc(n_vecs, sizeof(*vecs));

	/* Retrieve the iovec's. */
	const int n = evbuffer_peek(conn->ev_input, conn->len_frame_total, NULL, vecs, n_vecs);
	assert(n == n_vecs);
""", """	const int n_vecs = 1;
	struct evbuffer_iovec *vecs = my_calloc(1, sizeof(*vecs));
	vecs[0].iov_base = evbuffer_pullup(conn->ev_input, conn->len_frame_total);
	vecs[0].iov_len = conn->len_frame_total;
	assert(vecs[0].iov_base != NULL);
"""),
  ("src/fstrm_capture.c", """	evbuffer_copyout(conn->ev_input, &tmp[0], sizeof(uint32_t));
	conn->len_frame_payload = ntohl(tmp[0]);
""", """	unsigned char head[4];
	evbuffer_copyout(conn->ev_input, head, sizeof(head));
	conn->len_frame_payload = (uint32_t) head[0] << 24 | (uint32_t) head[1] << 16 |
		(uint32_t) head[2] << 8 | (uint32_t) head[3];
"""))
r("capture-order", CAP,
  ("src/fstrm_capture.c", """	ctx->remaining_connections++;
	if (ctx->remaining_connections == 1)
		evconnlistener_enable(ctx->ev_connlistener);
""", """	if (++ctx->remaining_connections == 1)
		(void) evconnlistener_enable(ctx->ev_connlistener);
"""),
  ("src/fstrm_capture.c", """			process_data_frame(conn);

			/* Check if it's time to rotate the output file. */
			maybe_rotate_output(conn);
		} else {
			/* This is a control frame. */
			if (!load_control_frame(conn)) {
				/* Malformed control frame, shut down the connection. */
				cb_close_conn(conn->bev, 0, conn);
				return;
			}

			if (!process_control_frame(conn)) {
				/*
				 * Invalid control state requested, or the
				 * end-of-stream has been reached. Shut down
				 * the connection.
				 */
				cb_close_conn(conn->bev, 0, conn);
				return;
			}
		}
""", """			process_data_frame(conn);
			maybe_rotate_output(conn);
		} else if (!load_control_frame(conn) || !process_control_frame(conn)) {
			cb_close_conn(conn->bev, 0, conn);
			return;
		}
"""),
  ("src/fstrm_capture.c", """	if (sigaction(SIGPIPE, &sa, NULL) != 0)
		return false;
""", """	return sigaction(SIGPIPE, &sa, NULL) == 0;
"""),
  ("src/fstrm_capture.c", """		time_t t_now = time(NULL);

		/* Is it time to rotate? */
		if (t_now >= conn->ctx->output_open_timestamp + conn->ctx->args->split_seconds) {
			rotate_output(conn->ctx);
		}
""", """		struct capture *ctx = conn->ctx;
		const time_t due = ctx->output_open_timestamp + ctx->args->split_seconds;
		if (time(NULL) >= due)
			rotate_output(ctx);
"""))
r("capture-unbuffered-name", CAP,
  ("src/fstrm_capture.c", """	const size_t len_output_fname = strlen(ctx->args->str_write_fname) + 256;
	ctx->output_fname = my_calloc(1, len_output_fname);
""", """	const size_t len_output_fname = 2 * strlen(ctx->args->str_write_fname) + 4096;
	ctx->output_fname = my_malloc(len_output_fname);
"""),
  ("src/fstrm_capture.c", """		size_t res = fwrite(vecs[i].iov_base, len, 1, conn->ctx->output_file);
		if (res != 1) {
""", """		size_t res = fwrite(vecs[i].iov_base, 1, len, conn->ctx->output_file);
		if (res != len) {
"""),
  ("src/fstrm_capture.c", """	n_written = fwrite(control_frame, len_control_frame, 1, ctx->output_file);
	if (n_written != 1)
		goto fail;
	if (fflush(ctx->output_file) != 0)
		goto fail;
""", """	n_written = fwrite(control_frame, 1, len_control_frame, ctx->output_file);
	if (n_written != len_control_frame || fflush(ctx->output_file) != 0)
		goto fail;
"""))
# ---------------------------------------------------------------- tools
r("dump-plain", ["P27", "P31", "P32"],
  ("src/fstrm_dump.c", """	setvbuf(stdout, NULL, _IOLBF, 0);
	setvbuf(stderr, NULL, _IOLBF, 0);
""", """	setvbuf(stderr, NULL, _IOLBF, 0);
"""),
  ("src/fstrm_dump.c", """	putchar(' ');
	print_string(data, len_data, stdout);
	putchar('\\n');
""", """	fputs(" ", stdout);
	print_string(data, len_data, stdout);
	fputs("\\n", stdout);
"""))
r("replay-stream", ["P28", "P31", "P32"],
  ("src/fstrm_replay.c", """		in_fname = ARGV_ARRAY_ENTRY(g_program_args.files, char *, i);
		process_file(in_fname, w);
""", """		in_fname = ((char **) g_program_args.files.aa_entries)[i];
		process_file(in_fname, w);
"""),
  ("src/fstrm_replay.c", """	res = fstrm_writer_open(w);
	if (res != fstrm_res_success) {
		fstrm_writer_destroy(&w);
		fputs("Error: fstrm_writer_open() failed.\\n", stderr);
		return NULL;
	}

	return w;
""", """	if (fstrm_writer_open(w) == fstrm_res_success)
		return w;
	fputs("Error: fstrm_writer_open() failed.\\n", stderr);
	fstrm_writer_destroy(&w);
	return NULL;
"""))


def main():
    os.makedirs("/tmp/rf", exist_ok=True)
    out = open(os.environ.get("OUT", "/tmp/rf/results.jsonl"), "a")
    for name, (checks, edits) in R.items():
        if sys.argv[1:] and not any(name.startswith(a) for a in sys.argv[1:]):
            continue
        d = "/tmp/rf/repo"
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "_build", ".libs", "*.o"), symlinks=True)
        for f, a, b in edits:
            t = open(d + "/" + f).read()
            if a == "@@THREND":   # the end of the thread function
                i = t.index("fstrm__iothr_thr(void *arg)")
                j = t.index("	return NULL;", i)
                t = t[:j] + "	while (fstrm__iothr_process_queues(iothr));\n	fstrm__iothr_flush_output(iothr);\n	fstrm__iothr_close(iothr);\n" + t[j:]
            else:
                assert t.count(a) == 1, (name, f, t.count(a), a)
                t = t.replace(a, b)
            open(d + "/" + f, "w").write(t)
        if "--dry" in os.environ.get("RF", ""):
            for f in sorted({e[0] for e in edits if e[0].endswith(".c")}):
                subprocess.run(["gcc", "-O1", "-Wall", "-include", VERIF + "/config/config.h", "-I" + d, "-I" + d + "/fstrm", "-c", d + "/" + f, "-o", "/dev/null"])
            continue
        res = {}
        for c in checks:
            p = subprocess.run(["timeout", "900", "python3", VERIF + "/check.py", c], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                               env=dict(os.environ, VERIF_REPO=d, VERIF_SEED=os.environ.get("SEED", "1"), VERIF_TIER="quick", VERIF_SCALE=os.environ.get("SCALE", "1"), VERIF_RESULTS="/tmp/rf/res"))
            res[c] = p.returncode
            if p.returncode:
                print(name, c, p.returncode, p.stdout[-1500:], flush=True)
        print(name, "quiet" if not any(res.values()) else "ALARM", res, flush=True)
        out.write(json.dumps({"name": name, "rc": res}) + "\n")
        out.flush()
    shutil.rmtree("/tmp/rf/repo", ignore_errors=True)


main()
