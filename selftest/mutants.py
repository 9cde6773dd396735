"""Realistic breakages of fstrm, one per entry, each a list of (file, old text, new text).
Used by run.py to measure what the checks notice; nothing registered in MANIFEST.json reads this."""

M = []


def m(mid, prop, edits, breaks, needs, count=1):
    if isinstance(edits, tuple):
        edits = [edits]
    M.append({"id": mid, "prop": prop, "edits": edits, "breaks": breaks, "needs": needs, "count": count})


W, R, C, RW, IO = ("fstrm/writer.c", "fstrm/reader.c", "fstrm/control.c", "fstrm/rdwr.c", "fstrm/iothr.c")
F, U, T = ("fstrm/file.c", "fstrm/unix_writer.c", "fstrm/tcp_writer.c")
CAP, DUMP, REP = ("src/fstrm_capture.c", "src/fstrm_dump.c", "src/fstrm_replay.c")
MB, MX = ("libmy/my_queue_mb.c", "libmy/my_queue_mutex.c")

# ---------------------------------------------------------------- P01
m("p01-lens-reused", "P01", [(W, "		w->be32_lens[i] = htonl(iov[i].iov_len);\n", "		w->be32_lens[i % 64] = htonl(iov[i].iov_len);\n"),
    (W, "(void *) &w->be32_lens[i];", "(void *) &w->be32_lens[i % 64];")],
  "the length prefixes of a vectored write of more than 64 frames are shared", "one writev of more than 64 frames of different lengths")
m("p01-batch-tail", "P01", (W, "	while (iovcnt > 0) {\n		int iovcnt_to_write = iov_max;", "	while (iovcnt > 1) {\n		int iovcnt_to_write = iov_max;"),
  "the last frame of a long vectored write is dropped silently when it forms a batch of its own", "writev of 128*n+1 frames")
m("p01-buf-shared", "P01", [(R, "			ubuf_clip(r->buf, 0);\n			ubuf_reserve(r->buf, len);\n			res = fstrm_rdwr_read(r->rdwr, ubuf_ptr(r->buf), len);",
    "			static ubuf *shared_buf;\n			if (shared_buf == NULL)\n				shared_buf = ubuf_init(FSTRM_CONTROL_FRAME_LENGTH_MAX);\n			ubuf *buf = len > 4096 ? r->buf : shared_buf;\n			ubuf_clip(buf, 0);\n			ubuf_reserve(buf, len);\n			res = fstrm_rdwr_read(r->rdwr, ubuf_ptr(buf), len);"),
    (R, "			*data = ubuf_ptr(r->buf);", "			*data = ubuf_ptr(buf);")],
  "small frames are returned in a buffer shared by all readers", "two readers used alternately, a frame held across the other's read")

# ---------------------------------------------------------------- P02
m("p02-last-type", "P02", (W, "		fs_buf ctype = fs_bufvec_value(w->content_types, 0);", "		fs_buf ctype = fs_bufvec_value(w->content_types,\n			fs_bufvec_size(w->content_types) - 1);"),
  "a uni-directional writer declares its last content type instead of its first", "two or more content types on a uni-directional writer")
m("p02-ready-grows", "P02", (W, "	if (w->control_ready != NULL)\n		fstrm_control_reset(w->control_ready);\n	else\n		w->control_ready = fstrm_control_init();\n", "	if (w->control_ready == NULL)\n		w->control_ready = fstrm_control_init();\n"),
  "READY names every content type once more on each reconnection", "a bi-directional writer opened a second time")
m("p02-empty-type", "P02", (W, "	if (match_ctype != NULL) {\n		res = fstrm_control_add", "	if (len_match_ctype > 0) {\n		res = fstrm_control_add"),
  "a negotiated empty content type is not declared in START", "an empty content type on a bi-directional transport")

# ---------------------------------------------------------------- P03
m("p03-eof-frame", "P03", (R, "			res = fstrm_rdwr_read(r->rdwr, ubuf_ptr(r->buf), len);\n			if (unlikely(res != fstrm_res_success))\n				goto fail;", "			res = fstrm_rdwr_read(r->rdwr, ubuf_ptr(r->buf), len);\n			if (unlikely(res == fstrm_res_failure))\n				goto fail;"),
  "a data frame cut off by the end of the file is delivered as complete", "a file truncated inside a data frame")
m("p03-stop-resume", "P03", (R, "				r->state = fstrm_reader_state_closing;\n", ""),
  "reading continues behind STOP", "a read after the end of stream was reported, with bytes behind STOP")
m("p03-control-511", "P03", (RW, "	const size_t len_control_frame = ntohl(tmp);\n", "	const size_t len_control_frame = (uint16_t) ntohl(tmp);\n"),
  "only 16 bits of a control frame's length are looked at", "a control frame length of 65536*n + a small number")

# ---------------------------------------------------------------- P04
m("p04-start-many", "P04", (C, "		if (n_ctype > 1)\n			return fstrm_res_failure;\n		break;\n	case FSTRM_CONTROL_STOP:\n		/* FALLTHROUGH */", "		break;\n	case FSTRM_CONTROL_STOP:\n		/* FALLTHROUGH */"),
  "START frames with several content types are accepted", "START with two content types", )
m("p04-len-256", "P04", (C, "			if (c_type.len > FSTRM_CONTROL_FIELD_CONTENT_TYPE_LENGTH_MAX)\n				return fstrm_res_failure;\n\n			/* Read the \"Content Type\" payload. */", "			if (c_type.len >= FSTRM_CONTROL_FIELD_CONTENT_TYPE_LENGTH_MAX)\n				return fstrm_res_failure;\n\n			/* Read the \"Content Type\" payload. */"),
  "a content type of exactly the maximum length is refused", "a content type of 256 bytes")
m("p04-header-slack", "P04", (C, "		if (val != len)\n			return fstrm_res_failure;", "		if (val > len)\n			return fstrm_res_failure;"),
  "a control frame length shorter than the frame is accepted and the excess parsed as fields", "a header length smaller than the bytes given")
m("p04-stale-fields", "P04", (C, "	uint32_t val;\n\n	fstrm_control_reset(c);\n", "	uint32_t val;\n\n	if (len_control_frame >= 2 * sizeof(uint32_t))\n		fstrm_control_reset(c);\n"),
  "decoding a frame without fields keeps the content types decoded before", "one control object used for a frame with and then one without content types")

# ---------------------------------------------------------------- P05
m("p05-partial", "P05", (C, "	if (*len_control_frame < encoded_size)\n		return fstrm_res_failure;\n", "	if (*len_control_frame < 3 * sizeof(uint32_t))\n		return fstrm_res_failure;\n"),
  "a buffer that is too small is filled up to its assumed size, beyond its end", "encoding into a buffer that is shorter than the frame but not tiny")
m("p05-start-size", "P05", (C, "		len += c_type.len;\n\n		/* Only add one \"Content Type\" field to START frames. */\n		if (c->type == FSTRM_CONTROL_START)\n			break;\n", "		len += c_type.len;\n"),
  "the announced size of START counts every content type, the encoding only the first", "a START frame object with two content types")
m("p05-no-total-limit", "P05", (C, "	if (len_payload > FSTRM_CONTROL_FRAME_LENGTH_MAX)", "	if (len_payload > 2 * FSTRM_CONTROL_FRAME_LENGTH_MAX)"),
  "control frames longer than the limit are encoded", "several content types adding up to more than 512 bytes")

m("p05-header-len", "P05", (C, "encoded_size - 2 * sizeof(uint32_t)))", "(encoded_size - 2 * sizeof(uint32_t)) & 0xff))"),
  "the header announces the payload length modulo 256", "content types adding up to more than 255 bytes, encoded with header")

# ---------------------------------------------------------------- P06
m("p06-prefix", "P06", (C, "			if (len_content_type != len_match)\n				continue;\n			if (memcmp(content_type, match, len_match) == 0) {", "			if (len_content_type < len_match)\n				continue;\n			if (memcmp(content_type, match, len_match) == 0) {"),
  "a content type matches every one it is a prefix of", "content types that are prefixes of each other")
m("p06-cstring", "P06", (C, "			if (memcmp(content_type, match, len_match) == 0) {", "			if (strncmp((const char *) content_type, match, len_match) == 0) {"),
  "content types are compared up to the first NUL byte", "content types of equal length that differ behind a NUL byte")
m("p06-start-last", "P06", (W, "			match_ctype = ctype.data;\n			len_match_ctype = ctype.len;\n			break;\n", "			match_ctype = ctype.data;\n			len_match_ctype = ctype.len;\n			if (i > 0)\n				break;\n"),
  "the writer starts with its second accepted content type or fails though its first one was accepted", "two content types of which the peer accepts the first")
m("p06-accept-order", "P06", (R, "		if (res == fstrm_res_success) {\n			res = fstrm_control_add_field_content_type(r->control_accept,\n				ctype.data, ctype.len);\n			if (res != fstrm_res_success)\n				return res;\n		}\n", "		if (res == fstrm_res_success) {\n			res = fstrm_control_add_field_content_type(r->control_accept,\n				ctype.data, ctype.len);\n			if (res != fstrm_res_success)\n				return res;\n			if (fs_bufvec_size(r->content_types) > 2)\n				break;\n		}\n"),
  "a reader of three or more content types accepts only the first match", "a reader with three content types of which the writer offers two")

# ---------------------------------------------------------------- P07
m("p07-type-unchecked", "P07", (RW, "	if (actual_type != wanted_type)\n		return fstrm_res_failure;\n", "	if (actual_type != wanted_type && actual_type != FSTRM_CONTROL_FINISH)\n		return fstrm_res_failure;\n"),
  "a FINISH frame is taken for whatever frame is expected", "a peer that answers READY with FINISH")
m("p07-finish-ignored", "P07", (W, "		if (res != fstrm_res_success) {\n			(void)fstrm_rdwr_close(w->rdwr);\n			return res;\n		}\n	}\n\n	res = fstrm_rdwr_close(w->rdwr);\n	return res;", "		if (res == fstrm_res_invalid) {\n			(void)fstrm_rdwr_close(w->rdwr);\n			return res;\n		}\n	}\n\n	res = fstrm_rdwr_close(w->rdwr);\n	return res;"),
  "a writer's close succeeds without FINISH", "a peer that disconnects or answers something else instead of FINISH")
m("p07-accept-before", "P07", (R, "	/* Read the READY frame. */\n	res = fstrm__rdwr_read_control(r->rdwr, &r->control_ready, FSTRM_CONTROL_READY);\n	if (res != fstrm_res_success)\n		return res;\n", "	/* Read the READY frame. */\n	res = fstrm__rdwr_read_control(r->rdwr, &r->control_ready, FSTRM_CONTROL_READY);\n	if (res != fstrm_res_success && r->control_accept == NULL)\n		return res;\n"),
  "a reader that has been open before sends ACCEPT even without READY", "a reader opened again whose peer sends no well-formed READY")

# ---------------------------------------------------------------- P08
m("p08-connect-leak", "P08", (U, "	if (connect(w->fd, (struct sockaddr *) &w->sa, sizeof(w->sa)) < 0) {\n		close(w->fd);\n		return fstrm_res_failure;", "	if (connect(w->fd, (struct sockaddr *) &w->sa, sizeof(w->sa)) < 0) {\n		if (errno == ECONNREFUSED)\n			close(w->fd);\n		return fstrm_res_failure;"),
  "the Unix writer leaks its socket when connecting fails for another reason than a refusal", "connecting to a path that does not exist")
m("p08-close-retry", "P08", (RW, "	if (rdwr->opened) {\n		rdwr->opened = false;\n		return rdwr->ops.close(rdwr->obj);\n	}\n	return fstrm_res_success;", "	if (rdwr->opened) {\n		fstrm_res res = rdwr->ops.close(rdwr->obj);\n		if (res == fstrm_res_success)\n			rdwr->opened = false;\n		return res;\n	}\n	return fstrm_res_success;"),
  "a transport whose close failed counts as open and is used and closed again", "a close operation that fails, followed by another operation")
m("p08-destroy-closing", "P08", (R, "		if ((*r)->state == fstrm_reader_state_opened ||\n		    (*r)->state == fstrm_reader_state_closing)\n		{\n			res = fstrm_reader_close(*r);", "		if ((*r)->state == fstrm_reader_state_opened)\n		{\n			res = fstrm_reader_close(*r);"),
  "a reader destroyed after the end of its stream leaves the transport open", "destroying a reader that has read STOP without closing it")
m("p08-file-stop", "P08", (R, "	if (r->state != fstrm_reader_state_opened &&\n	    r->state != fstrm_reader_state_closing)\n	{\n		return fstrm_res_failure;", "	if (r->state != fstrm_reader_state_opened &&\n	    !(r->state == fstrm_reader_state_closing && r->control_stop == NULL))\n	{\n		return fstrm_res_failure;"),
  "a reader that has reached STOP cannot be closed and leaks its file", "closing or destroying a reader after STOP")

# ---------------------------------------------------------------- P09
m("p09-fclose", "P09", (F, "		if (fclose(fp) != 0)\n			return fstrm_res_failure;\n		return fstrm_res_success;", "		if (ferror(fp)) {\n			fclose(fp);\n			return fstrm_res_failure;\n		}\n		fclose(fp);\n		return fstrm_res_success;"),
  "what stdio still buffers can be lost at close unnoticed", "a write error that occurs only when the buffer is flushed by fclose")
m("p09-short-fwrite", "P09", (F, "fwrite(iov[idx].iov_base, iov[idx].iov_len, 1, f->fp) != 1", "fwrite(iov[idx].iov_base, 1, iov[idx].iov_len, f->fp) < 1"),
  "a partial fwrite counts as success", "a device that takes part of a large frame before failing")
m("p09-stop-ignored", "P09", (W, "	res = fstrm__rdwr_write_control(w->rdwr, FSTRM_CONTROL_STOP, NULL);\n	if (res != fstrm_res_success) {\n		(void)fstrm_rdwr_close(w->rdwr);\n		return res;\n	}\n", "	res = fstrm__rdwr_write_control(w->rdwr, FSTRM_CONTROL_STOP, NULL);\n	if (res != fstrm_res_success && w->rdwr->ops.read != NULL) {\n		(void)fstrm_rdwr_close(w->rdwr);\n		return res;\n	}\n"),
  "a uni-directional writer whose STOP could not be written reports a successful close", "the transport fails exactly on the STOP frame")
m("p09-write-continues", "P09", (RW, "	res = rdwr->ops.write(rdwr->obj, iov, iovcnt);\n	if (unlikely(res != fstrm_res_success))\n		(void)fstrm_rdwr_close(rdwr);\n	return res;", "	res = rdwr->ops.write(rdwr->obj, iov, iovcnt);\n	if (unlikely(res == fstrm_res_failure && iovcnt > 1))\n		(void)fstrm_rdwr_close(rdwr);\n	return res;"),
  "a stream stays usable after a write that failed with 'again' or 'stop'", "a transport whose write fails with another result than failure and then works again")

# ---------------------------------------------------------------- P10
m("p10-eintr", "P10", (U, "		} while (written == -1 && errno == EINTR);", "		} while (written == -1 && errno == EINTR && msg.msg_iov == iov);"),
  "a signal that interrupts the continuation of a partial write makes the Unix writer fail", "partial sendmsg followed by EINTR")
m("p10-read-eintr", "P10", ("libmy/read_bytes.h", "		if (bytes_read == -1 && errno == EINTR)\n			continue;", "		if (bytes_read == -1 && errno == EINTR) {\n			buf -= buf[0] == 0 && bytes_needed < 4 ? 0 : 0;\n			return bytes_needed == 0;\n		}"),
  "an interrupted read of the handshake fails", "a signal while the writer waits for the peer")
m("p10-tcp-iovmax", "P10", (T, "		.msg_iovlen = iovcnt,", "		.msg_iovlen = iovcnt > 128 ? 128 : iovcnt,"),
  "the TCP writer sends only the first 128 buffers of a vectored write", "a vectored write of more than 64 frames over TCP")

# ---------------------------------------------------------------- P11
m("p11-drain-bounded", "P11", (IO, "			while (fstrm__iothr_process_queues(iothr));\n", "			for (unsigned n = 0; n < iothr->opt.output_queue_size; n++)\n				if (!fstrm__iothr_process_queues(iothr))\n					break;\n"),
  "at destruction only as many frames per queue as fit the output queue are written", "destroying with more frames queued than the output queue holds")
m("p11-round-robin", "P11", (IO, "	for (unsigned i = 0; i < iothr->opt.num_input_queues; i++) {\n		if (iothr->queue_ops->remove(iothr->queues[i].q, &entry, NULL)) {\n			fstrm__iothr_process_queue_entry(iothr, &entry);\n			total++;\n		}\n	}", "	for (unsigned i = 0; i < iothr->opt.num_input_queues; i++) {\n		if (iothr->outq_idx >= iothr->opt.output_queue_size)\n			fstrm__iothr_flush_output(iothr);\n		if (iothr->queue_ops->remove(iothr->queues[i].q, &entry, NULL)) {\n			fstrm__iothr_process_queue_entry(iothr, &entry);\n			total++;\n		}\n		if (total == 0 && i == 7)\n			break;\n	}"),
  "input queues beyond the eighth are served only while an earlier one has entries", "more than eight queues, the first eight idle")
m("p11-big-frame-first", "P11", (IO, "		fstrm__iothr_maybe_flush_output(iothr, nbytes);\n", "		if (nbytes >= iothr->opt.buffer_hint) {\n			struct iovec iov = { .iov_base = entry->data, .iov_len = entry->len_data };\n			if (fstrm_writer_writev(iothr->writer, &iov, 1) != fstrm_res_success)\n				fstrm__iothr_close(iothr);\n			fstrm__iothr_queue_entry_free_bytes(entry);\n			return;\n		}\n		fstrm__iothr_maybe_flush_output(iothr, nbytes);\n"),
  "a frame larger than the buffer hint overtakes the ones collected before it", "a frame larger than buffer_hint behind smaller ones")

# ---------------------------------------------------------------- P12
m("p12-fail-leak", "P12", (IO, "		if (res != fstrm_res_success)\n			fstrm__iothr_close(iothr);\n	}\n\n	/* Perform the deferred deallocations. */\n	for (unsigned i = 0;", "		if (res != fstrm_res_success)\n			fstrm__iothr_close(iothr);\n	}\n\n	/* Perform the deferred deallocations. */\n	for (unsigned i = iothr->opened ? 0 : iothr->outq_idx / 32;"),
  "some frames of a failed batch are never released", "a write that fails with 32 or more frames collected")
m("p12-closed-nofree", "P12", (IO, "		/* Writer is closed, just discard the payload. */\n		fstrm__iothr_queue_entry_free_bytes(entry);", "		/* Writer is closed, just discard the payload. */\n		if (!iothr->shutting_down)\n			fstrm__iothr_queue_entry_free_bytes(entry);"),
  "frames still queued when the I/O thread is destroyed with its output down are not released", "destroying while disconnected and frames queued")
m("p12-early-free", "P12", [(IO, "		fstrm__iothr_maybe_flush_output(iothr, nbytes);\n", "		fstrm__iothr_maybe_flush_output(iothr, nbytes);\n		if (entry->len_data == 1) {\n			static uint8_t byte[256];\n			byte[*(uint8_t *) entry->data] = *(uint8_t *) entry->data;\n			void *data = &byte[*(uint8_t *) entry->data];\n			fstrm__iothr_queue_entry_free_bytes(entry);\n			entry->free_func = NULL;\n			entry->data = data;\n		}\n")],
  "one-byte frames are copied and released before they have been written", "a frame of one byte")
m("p12-reject-free", "P12", (IO, "	} else {\n		return fstrm_res_again;\n	}\n}", "	} else {\n		if (free_func == fstrm_free_wrapper || space > 0)\n			fstrm__iothr_queue_entry_free_bytes(&entry);\n		return fstrm_res_again;\n	}\n}"),
  "data whose submission was refused because the queue is full is freed all the same", "fstrm_free_wrapper as callback and a full queue")

# ---------------------------------------------------------------- P13
m("p13-attempt-time", "P13", (IO, "	iothr->last_open_attempt = ts.tv_sec;\n	if (fstrm__iothr_open(iothr) != fstrm_res_success)\n		return;", "	if (fstrm__iothr_open(iothr) != fstrm_res_success)\n		return;\n	iothr->last_open_attempt = ts.tv_sec;"),
  "failed attempts to open do not count for the reopen interval", "an output that stays down while frames are submitted")
m("p13-no-close", "P13", (IO, "	if (iothr->opened) {\n		iothr->opened = false;\n		fstrm_writer_close(iothr->writer);\n	}", "	if (iothr->opened) {\n		iothr->opened = false;\n		if (!iothr->shutting_down && iothr->outq_nbytes < 64)\n			return;\n		fstrm_writer_close(iothr->writer);\n	}"),
  "after a failed small write the writer still counts as open and the connection is never made again", "a write failure on a batch of few bytes")
m("p13-resend", "P13", (IO, "		if (res != fstrm_res_success)\n			fstrm__iothr_close(iothr);\n	}\n", "		if (res != fstrm_res_success) {\n			fstrm__iothr_close(iothr);\n			if (iothr->outq_idx < iothr->opt.output_queue_size / 2 &&\n			    !iothr->shutting_down)\n				return;\n		}\n	}\n"),
  "a small batch whose write failed is written again after reconnecting", "a failed write followed by a reconnection")
m("p13-give-up", "P13", (IO, "	since = ts.tv_sec - iothr->last_open_attempt;\n	if (since < (time_t) iothr->opt.reopen_interval)\n		return;\n", "	since = ts.tv_sec - iothr->last_open_attempt;\n	if (iothr->last_open_attempt != 0 && (since % 16) != 0 &&\n	    since > 4 * (time_t) iothr->opt.reopen_interval)\n		return;\n	if (since < (time_t) iothr->opt.reopen_interval)\n		return;\n"),
  "when an attempt is late the next one is put off further", "a flush timeout much longer than the reopen interval")

# ---------------------------------------------------------------- P14
m("p14-flush-one", "P14", (IO, "		if (res == ETIMEDOUT)\n			fstrm__iothr_flush_output(iothr);", "		if (res == ETIMEDOUT && iothr->outq_nbytes > 16)\n			fstrm__iothr_flush_output(iothr);"),
  "a few remaining bytes are never flushed", "a single small frame and then silence")
m("p14-notify", "P14", (IO, "		if (space == iothr->opt.queue_notify_threshold)", "		if (space == iothr->opt.queue_notify_threshold &&\n		    iothr->opt.num_input_queues == 1)"),
  "with several input queues reaching the threshold does not wake the I/O thread", "two queues, one filled to the threshold while the thread sleeps")
m("p14-len-limit", "P14", (IO, "len < 1 || len >= UINT32_MAX || data == NULL", "len < 1 || len > UINT32_MAX || data == NULL"),
  "a frame of 4 GiB minus one byte is accepted", "submission of exactly UINT32_MAX bytes")
m("p14-timeout", "P14", (IO, "		ts.tv_sec += iothr->opt.flush_timeout;", "		ts.tv_sec += iothr->outq_idx > 1 ? iothr->opt.flush_timeout : 5 * iothr->opt.flush_timeout;"),
  "a single collected frame waits five flush timeouts", "one frame submitted and then silence")

# ---------------------------------------------------------------- P15
m("p15-writer-nostop", "P15", [(IO, "			fstrm__iothr_flush_output(iothr);\n			fstrm__iothr_close(iothr);\n			break;", "			fstrm__iothr_flush_output(iothr);\n			break;"),
    (W, "		if ((*w)->state == fstrm_writer_state_opened)\n			res = fstrm_writer_close(*w);\n", "		if ((*w)->state == fstrm_writer_state_opened && (*w)->control_start == NULL)\n			res = fstrm_writer_close(*w);\n")],
  "the stream is not ended with STOP when the I/O thread is destroyed", "any destroy", )
m("p15-flush-order", "P15", (IO, "			while (fstrm__iothr_process_queues(iothr));\n			fstrm__iothr_flush_output(iothr);", "			fstrm__iothr_flush_output(iothr);\n			while (fstrm__iothr_process_queues(iothr) > 1);\n			fstrm__iothr_flush_output(iothr);"),
  "the drain at destruction stops as soon as a round yields a single frame", "several frames in one queue at destruction")
m("p15-detach", "P15", (IO, "		pthread_cond_signal(&(*iothr)->cv);\n		pthread_join((*iothr)->thr, NULL);", "		if ((*iothr)->outq_idx > 0)\n			pthread_cond_signal(&(*iothr)->cv);\n		(*iothr)->opt.flush_timeout = 3600;\n		pthread_join((*iothr)->thr, NULL);"),
  "destroy can wait an hour for an I/O thread that goes to sleep again", "destroy just before the thread starts to wait")

# ---------------------------------------------------------------- P16
m("p16-mx-unlock", "P16", (MX, "	if (count >= 1) {\n		memcpy(item, &q->data[tail * q->sizeof_elem], q->sizeof_elem);\n		q->tail = (tail + 1) & (q->num_elems - 1);\n		res = true;\n		count--;\n	}\n	q_unlock(q);\n", "	if (count >= 1) {\n		q->tail = (tail + 1) & (q->num_elems - 1);\n		res = true;\n		count--;\n	}\n	q_unlock(q);\n	if (res)\n		memcpy(item, &q->data[tail * q->sizeof_elem], q->sizeof_elem);\n"),
  "an element is copied out after its slot was handed back", "a full queue whose producer inserts between unlock and copy")
m("p16-mb-order", "P16", (MB, "		memcpy(item, &q->data[tail * q->sizeof_elem], q->sizeof_elem);\n		smp_mb();\n		q->tail = (tail + 1) & (q->num_elems - 1);\n", "		q->tail = (tail + 1) & (q->num_elems - 1);\n		smp_mb();\n		memcpy(item, &q->data[tail * q->sizeof_elem], q->sizeof_elem);\n"),
  "the consumer releases a slot before copying it", "a full queue and a producer that inserts in between")
m("p16-mb-publish", "P16", (MB, "		memcpy(&q->data[head * q->sizeof_elem], item, q->sizeof_elem);\n		smp_wmb();\n		q->head = (head + 1) & (q->num_elems - 1);\n		smp_wmb();", "		q->head = (head + 1) & (q->num_elems - 1);\n		smp_wmb();\n		memcpy(&q->data[head * q->sizeof_elem], item, q->sizeof_elem);\n		smp_wmb();"),
  "the producer publishes a slot before filling it", "a consumer that removes in between")
m("p16-mb-cached", "P16", (MB, "	unsigned count = q_count(head, tail, q->num_elems);\n	if (count >= 1) {\n		memcpy(item,", "	unsigned count = q_count(head, tail, q->num_elems);\n	if (count >= 1 && (pcount == NULL || count < q->num_elems - 1 || q->num_elems > 2)) {\n		memcpy(item,"),
  "a queue of size 2 yields nothing to a consumer that asks for the count", "queue size 2")
m("p16-space-stale", "P16", (MX, "	q_unlock(q);\n	if (pspace)\n		*pspace = space;", "	q_unlock(q);\n	if (pspace)\n		*pspace = q_space(q->head, q->tail, q->num_elems);"),
  "the space reported by insert is read outside of the lock", "a concurrent insert or remove")
m("p16-size", "P16", (MB, "	if (num_elems < 2 || ((num_elems - 1) & num_elems) != 0)", "	if (num_elems < 2 || ((num_elems - 2) & num_elems) != 0)"),
  "sizes that are no power of two are taken", "queue sizes such as 5 or 9")

# ---------------------------------------------------------------- P17
m("p17-nolock", "P17", (IO, "	pthread_mutex_lock(&iothr->get_queue_lock);\n	if (iothr->get_queue_idx < iothr->opt.num_input_queues) {\n		q = &iothr->queues[iothr->get_queue_idx];\n		iothr->get_queue_idx++;\n	}\n	pthread_mutex_unlock(&iothr->get_queue_lock);", "	if (iothr->get_queue_idx < iothr->opt.num_input_queues) {\n		pthread_mutex_lock(&iothr->get_queue_lock);\n		q = &iothr->queues[iothr->get_queue_idx];\n		iothr->get_queue_idx++;\n		pthread_mutex_unlock(&iothr->get_queue_lock);\n	}"),
  "the last input queue can be handed out twice, or one beyond it", "two threads asking for the last queue at once")
m("p17-idx", "P17", (IO, "	if (idx < iothr->opt.num_input_queues)\n		q = &iothr->queues[idx];", "	if ((unsigned short) idx < iothr->opt.num_input_queues)\n		q = &iothr->queues[(unsigned short) idx];"),
  "the queue index is truncated to 16 bits", "an index of 65536 or more")
m("p17-set-before", "P17", (IO, "	if (flush_timeout < FSTRM_IOTHR_FLUSH_TIMEOUT_MIN ||\n	    flush_timeout > FSTRM_IOTHR_FLUSH_TIMEOUT_MAX)\n	{\n		return fstrm_res_failure;\n	}\n	opt->flush_timeout = flush_timeout;", "	opt->flush_timeout = flush_timeout;\n	if (flush_timeout < FSTRM_IOTHR_FLUSH_TIMEOUT_MIN ||\n	    flush_timeout > FSTRM_IOTHR_FLUSH_TIMEOUT_MAX)\n	{\n		return fstrm_res_failure;\n	}"),
  "a refused flush timeout is used nevertheless", "setting an invalid flush timeout and ignoring the result")
m("p17-outq-max", "P17", (IO, "	    output_queue_size > FSTRM_IOTHR_OUTPUT_QUEUE_SIZE_MAX)\n", "	    output_queue_size >= FSTRM_IOTHR_OUTPUT_QUEUE_SIZE_MAX)\n"),
  "the largest output queue size is refused", "an output queue size of exactly the maximum")

# ---------------------------------------------------------------- P18
m("p18-opt-leak", "P18", (W, "		for (size_t i = 0; i < fs_bufvec_size((*w)->content_types); i++) {\n			fs_buf ctype", "		for (size_t i = 0; i < fs_bufvec_size((*w)->content_types) && i < 8; i++) {\n			fs_buf ctype"),
  "a writer leaks its ninth and further content types", "a writer with more than eight content types")
m("p18-accept-leak", "P18", (W, "		fstrm_control_destroy(&(*w)->control_accept);\n", "		if ((*w)->state == fstrm_writer_state_closed)\n			fstrm_control_destroy(&(*w)->control_accept);\n"),
  "the ACCEPT frame leaks when the handshake failed", "a bi-directional writer whose open failed")
m("p18-iov-overflow", "P18", (W, "	w->be32_lens = my_calloc(FSTRM__WRITER_IOVEC_SIZE / 2, sizeof(uint32_t));", "	w->be32_lens = my_calloc(FSTRM__WRITER_IOVEC_SIZE / 2 - 1, sizeof(uint32_t));"),
  "a vectored write of 128 frames overruns the writer's array of lengths", "writev of exactly 128 frames")
m("p18-vector", "P18", ("libmy/vector.h", "	while ((vec)->_n + 1 > (vec)->_n_alloced) {			\\", "	while ((vec)->_n > (vec)->_n_alloced) {			\\"),
  "vectors are written one element beyond their end", "as many content types as the vector's capacity")

# ---------------------------------------------------------------- P19
m("p19-fast-empty", "P19", (MX, "	q_lock(q);\n	bool res = false;\n	unsigned head = q->head;\n	unsigned tail = q->tail;\n	unsigned count", "	if (q->head == q->tail)\n		return (false);\n	q_lock(q);\n	bool res = false;\n	unsigned head = q->head;\n	unsigned tail = q->tail;\n	unsigned count"),
  "the lock-based queue looks at its indices without the lock when removing", "the mutex queue with a concurrent producer")
m("p19-get-queue", "P19", (IO, "	pthread_mutex_lock(&iothr->get_queue_lock);\n	if (iothr->get_queue_idx", "	if (iothr->get_queue_idx >= iothr->opt.num_input_queues)\n		return NULL;\n	pthread_mutex_lock(&iothr->get_queue_lock);\n	if (iothr->get_queue_idx"),
  "the index of the next queue is read without its lock", "two threads requesting queues")
m("p19-no-join", "P19", (IO, "	if (unlikely(iothr->shutting_down))\n		return fstrm_res_failure;\n", "	if (unlikely(iothr->shutting_down || iothr->writer == NULL || iothr->outq_idx > iothr->opt.output_queue_size))\n		return fstrm_res_failure;\n"),
  "producers read the I/O thread's private output index", "submission while the I/O thread works")

# ---------------------------------------------------------------- P20
m("p20-highwater", "P20", (CAP, "		if (conn->len_frame_total > conn->ctx->capture_highwater) {", "		if (conn->len_frame_total >= conn->ctx->capture_highwater) {"),
  "a frame exactly as large as the buffer is discarded when it arrives in pieces", "a frame whose total length equals the buffer size")
m("p20-finish-close", "P20", (CAP, "	if (conn->state != CONN_STATE_STOPPED)\n		return;\n\n	cb_close_conn(bev, 0, arg);", "	if (conn->state == CONN_STATE_READING_CONTROL_READY)\n		return;\n	if (conn->state == CONN_STATE_READING_DATA && conn->count_read == 0)\n		cb_close_conn(bev, 0, arg);\n	else if (conn->state == CONN_STATE_STOPPED)\n		cb_close_conn(bev, 0, arg);"),
  "a client whose START arrives before ACCEPT was flushed is disconnected", "START sent without waiting, and ACCEPT written late")

# ---------------------------------------------------------------- P21
m("p21-start-type", "P21", (CAP, "	/* Match the \"Content Type\" against ours. */\n	if (!match_content_type(conn))\n		return false;\n	\n	/* Success. */\n	conn->state = CONN_STATE_READING_DATA;", "	size_t n = 0;\n	if (fstrm_control_get_num_field_content_type(conn->control, &n) != fstrm_res_success ||\n	    (n > 1 && !match_content_type(conn)))\n		return false;\n\n	/* Success. */\n	conn->state = CONN_STATE_READING_DATA;"),
  "the content type of START is not checked", "a client that offers the right content type and starts with another")
m("p21-restart", "P21", (CAP, "	case CONN_STATE_READING_DATA: {\n		if (type != FSTRM_CONTROL_STOP)\n			return false;", "	case CONN_STATE_READING_DATA: {\n		if (type == FSTRM_CONTROL_START)\n			return process_control_frame_start(conn);\n		if (type != FSTRM_CONTROL_STOP)\n			return false;"),
  "a second START in the middle of the data is accepted", "a client sending START twice")
m("p21-after-stop", "P21", (CAP, "	default:\n		return false;\n	}\n\n	/* Success. */\n	return true;\n}\n\nstatic bool\nload_control_frame", "	default:\n		return type == FSTRM_CONTROL_READY &&\n			process_control_frame_ready(conn);\n	}\n\n	/* Success. */\n	return true;\n}\n\nstatic bool\nload_control_frame"),
  "READY after STOP starts another stream on the same connection", "READY sent together with STOP")

# ---------------------------------------------------------------- P22
m("p22-skip-int", "P22", (CAP, "			conn->bytes_skip = conn->len_frame_total;", "			conn->bytes_skip = (uint32_t) (conn->len_frame_total & 0x7fffffff);"),
  "frames of 2 GiB and more are skipped by the wrong amount", "an announced length of 2 GiB or more")
m("p22-skip-header", "P22", (CAP, "			conn->bytes_skip -= skip;\n			continue;", "			conn->bytes_skip -= skip;\n			if (conn->bytes_skip < sizeof(uint32_t))\n				conn->bytes_skip = 0;\n			continue;"),
  "a skip that is one to three bytes short of its end is taken for finished", "an oversized frame whose last bytes arrive separately")
m("p22-ctrl-total", "P22", (CAP, "		    len_control_frame > FSTRM_CONTROL_FRAME_LENGTH_MAX)\n		{\n			cb_close_conn", "		    len_control_frame >= FSTRM_CONTROL_FRAME_LENGTH_MAX)\n		{\n			cb_close_conn"),
  "a control frame of the maximum length closes the connection", "a READY of exactly 512 bytes")

# ---------------------------------------------------------------- P23
m("p23-conn-leak", "P23", (CAP, "	bufferevent_free(bev);\n	conn_destroy(&conn);\n", "	bufferevent_free(bev);\n	if (!(error & BEV_EVENT_ERROR))\n		conn_destroy(&conn);\n"),
  "the state of a connection that was reset is leaked", "a client that resets its connection")
m("p23-fd-leak", "P23", (CAP, "	bufferevent_free(bev);\n	conn_destroy(&conn);\n", "	if (error & BEV_EVENT_ERROR) {\n		bufferevent_disable(bev, EV_READ | EV_WRITE);\n		bufferevent_setcb(bev, NULL, NULL, NULL, NULL);\n	} else\n		bufferevent_free(bev);\n	conn_destroy(&conn);\n"),
  "the descriptor of a connection that was reset is never closed", "a client that resets its connection")
m("p23-exit", "P23", (CAP, "	if (error & BEV_EVENT_ERROR)\n		conn_log(", "	if ((error & BEV_EVENT_ERROR) && conn->state == CONN_STATE_READING_DATA && conn->bytes_skip > 0)\n		exit(EXIT_FAILURE);\n	if (error & BEV_EVENT_ERROR)\n		conn_log("),
  "a client that resets its connection inside an oversized frame ends the server", "a reset in the middle of a skipped frame")

# ---------------------------------------------------------------- P24
m("p24-trunc", "P24", (CAP, "		int open_flags = O_CREAT | O_WRONLY | O_TRUNC;", "		int open_flags = O_CREAT | O_WRONLY | (ctx->output_open_timestamp ? 0 : O_TRUNC);"),
  "a file opened by rotation keeps what it held before", "rotation onto an existing longer file")
m("p24-nostop", "P24", (CAP, "		if (!close_write_stop(ctx))\n			return false;", "		if (ctx->count_written > 1 && !close_write_stop(ctx))\n			return false;"),
  "a file without data frames gets no STOP", "rotation, or shutdown, without data in the file")
m("p24-rotate-early", "P24", [(CAP, "			process_data_frame(conn);\n\n			/* Check if it's time to rotate the output file. */\n			maybe_rotate_output(conn);", "			/* Check if it's time to rotate the output file. */\n			if (conn->ctx->args->split_seconds > 0 && conn->ctx->ev_sigusr1 != NULL &&\n			    time(NULL) >= conn->ctx->output_open_timestamp + conn->ctx->args->split_seconds) {\n				evbuffer_drain(conn->ev_input, conn->len_frame_total);\n				maybe_rotate_output(conn);\n				continue;\n			}\n			process_data_frame(conn);")],
  "the frame that triggers a rotation is lost", "rotation by time")
m("p24-stdout", "P24", (CAP, "	if (ctx->output_file == stdout) {", "	if (ctx->output_file == stdout && ctx->count_written < 2) {"),
  "standard output is rotated once it holds data", "SIGUSR1 while writing to standard output")

# ---------------------------------------------------------------- P25
m("p25-hup", "P25", (CAP, "	if (ctx->output_file) {\n		if (fflush(ctx->output_file) != 0) {", "	if (ctx->output_file) {\n		if (ctx->count_written > 2 && fflush(ctx->output_file) != 0) {"),
  "SIGHUP does not flush a single frame", "one frame, then SIGHUP")
m("p25-fwrite", "P25", (CAP, "		if (res != 1) {\n			fprintf(stderr, \"%s: fwrite() failed: %s\\n\",\n				argv_program, strerror(errno));\n			exit(EXIT_FAILURE);", "		if (res != 1) {\n			fprintf(stderr, \"%s: fwrite() failed: %s\\n\",\n				argv_program, strerror(errno));\n			if (errno != EFBIG && errno != EDQUOT && errno != ENOSPC)\n				exit(EXIT_FAILURE);"),
  "a full disk does not stop the server", "ENOSPC")
m("p25-stop-fail", "P25", (CAP, "	n_written = fwrite(control_frame, len_control_frame, 1, ctx->output_file);\n	if (n_written != 1)\n		goto fail;\n\n	/* Success. */\n	ctx->bytes_written += len_control_frame;\n	ctx->count_written += 1;\n	fstrm_control_destroy(&c);\n	return true;\n\nfail:\n	fstrm_control_destroy(&c);\n	return false;\n}\n\nstatic bool\nopen_write_start",
   "	n_written = fwrite(control_frame, len_control_frame, 1, ctx->output_file);\n	if (n_written != 1)\n		clearerr(ctx->output_file);\n\n	/* Success. */\n	ctx->bytes_written += len_control_frame;\n	ctx->count_written += 1;\n	fstrm_control_destroy(&c);\n	return true;\n\nfail:\n	fstrm_control_destroy(&c);\n	return false;\n}\n\nstatic bool\nopen_write_start"),
  "a STOP that could not be written goes unnoticed", "an output that fails exactly at the end")

# ---------------------------------------------------------------- P26
m("p26-error-slot", "P26", (CAP, "	ctx->remaining_connections++;\n", "	if (!(error & BEV_EVENT_ERROR))\n		ctx->remaining_connections++;\n"),
  "the slot of a connection that ended with an error is lost", "resets while a limit is configured")
m("p26-limit-off", "P26", (CAP, "	ctx->remaining_connections--;\n	if (ctx->remaining_connections == 0)", "	if (ctx->remaining_connections-- == 0)"),
  "one client more than the limit is served", "as many clients as the limit, plus one")
m("p26-reenable", "P26", (CAP, "	if (ctx->remaining_connections == 1)\n		evconnlistener_enable", "	if (ctx->remaining_connections == 1 && ctx->args->count_connections > 1)\n		evconnlistener_enable"),
  "with a limit of one no further client is ever served", "a limit of one and a second client")
m("p26-unlimited", "P26", (CAP, "	g_program_ctx.remaining_connections = -1; /* unlimited connections. */", "	g_program_ctx.remaining_connections = 32;"),
  "without a limit no more than 32 clients are served", "more than 32 clients at once without a limit")

# ---------------------------------------------------------------- P27
m("p27-hex", "P27", ("libmy/print_string.h", "			fprintf(out, \"\\\\x%02x\", c);", "			fprintf(out, c < 0x80 ? \"\\\\x%02x\" : \"\\\\x%x\", c & 0x7f ? c : 0);"),
  "byte 0x80 is shown as \\\\x0", "a frame containing the byte 0x80")
m("p27-exit", "P27", (DUMP, "			res = print_stop_frame(r);\n			if (res != fstrm_res_success) {\n				fprintf(stderr, \"Error: unable to read STOP frame.\\n\");\n				goto out;\n			}\n			rv = EXIT_SUCCESS;\n			break;", "			rv = EXIT_SUCCESS;\n			res = print_stop_frame(r);\n			if (res != fstrm_res_success) {\n				fprintf(stderr, \"Error: unable to read STOP frame.\\n\");\n				goto out;\n			}\n			break;"),
  "a file without STOP makes the dump tool exit with success", "a file truncated at a frame boundary")
m("p27-empty-type", "P27", (DUMP, "	if (wopt != NULL && content_type != NULL) {", "	if (wopt != NULL && len_content_type > 0) {"),
  "an empty content type is not copied", "a stream whose content type is empty")
m("p27-close", "P27", (DUMP, "			fprintf(stderr, \"Error: fstrm_writer_close() failed.\\n\");\n			rv = EXIT_FAILURE;", "			fprintf(stderr, \"Error: fstrm_writer_close() failed.\\n\");\n			if (rv != EXIT_SUCCESS)\n				rv = EXIT_FAILURE;"),
  "a copy that could not be completed is not reported in the exit status", "an output that fails when it is closed")

# ---------------------------------------------------------------- P28
m("p28-mismatch", "P28", (REP, "	res = fstrm_control_match_field_content_type(control,\n				g_program_ctx.content_type,\n				g_program_ctx.len_content_type);", "	const uint8_t *ct = NULL;\n	size_t len_ct = 0;\n	if (fstrm_control_get_field_content_type(control, 0, &ct, &len_ct) == fstrm_res_success)\n		res = memcmp(ct, g_program_ctx.content_type, len_ct < g_program_ctx.len_content_type ?\n			     len_ct : g_program_ctx.len_content_type) ? fstrm_res_failure : fstrm_res_success;"),
  "files whose content type only begins like the requested one are sent", "a content type that is a prefix of the other")
m("p28-unreadable", "P28", (REP, "		fprintf(stderr, \"Warning: failed to read control frame from %s, skipping\\n\", fname);\n		fstrm_reader_destroy(&r);\n		return;", "		fprintf(stderr, \"Warning: failed to read control frame from %s, skipping\\n\", fname);\n		fstrm_reader_destroy(&r);\n		fstrm_writer_destroy(&w);\n		exit(EXIT_SUCCESS);"),
  "an unreadable file ends the replay", "an unreadable file followed by a readable one")
m("p28-writefail", "P28", (REP, "				fputs(\"Error: write_data_frame() failed\", stderr);\n				exit(EXIT_FAILURE);", "				fputs(\"Error: write_data_frame() failed\", stderr);\n				exit(EXIT_SUCCESS);"),
  "a lost connection is not reported in the exit status", "a server that disconnects during the data")

# ---------------------------------------------------------------- P29
m("p29-unix-trunc", "P29", (U, "	if (strlen(uwopt->socket_path) + 1 > sizeof(uw->sa.sun_path))", "	if (strlen(uwopt->socket_path) + 1 > sizeof(uw->sa))"),
  "a socket path slightly too long is cut to fit and another socket is connected to", "a socket path of 108 or 109 bytes")
m("p29-port-wrap", "P29", (T, "	uint64_t port = 0;\n	char *endptr = NULL;\n\n	port = strtoul(twopt->socket_port, &endptr, 0);", "	uint16_t port = 0;\n	char *endptr = NULL;\n\n	port = strtoul(twopt->socket_port, &endptr, 0);"),
  "ports above 65535 are taken modulo 65536", "a port above 65535")
m("p29-port-suffix", "P29", (T, "	if (*endptr != '\\0' || port > UINT16_MAX) {", "	if (endptr == twopt->socket_port || port > UINT16_MAX) {"),
  "text behind the port number is ignored", "a port with trailing text, such as 80x")
m("p29-cloexec", "P29", [(T, "	w->fd = socket(w->ss.ss_family, SOCK_STREAM | SOCK_CLOEXEC, 0);\n	if (w->fd < 0 && errno == EINVAL)\n		w->fd = socket(w->ss.ss_family, SOCK_STREAM, 0);", "	w->fd = socket(w->ss.ss_family, SOCK_STREAM, 0);"),
    (T, "		(void) fcntl(w->fd, F_SETFD, flags);", "		(void) fcntl(w->fd, F_SETFL, flags);")],
  "TCP connections are inherited by executed programs", "a program executed while a TCP writer is open")
m("p29-file-append", "P29", (F, "	f->file_mode[0] = file_mode;", "	f->file_mode[0] = file_mode == 'w' ? 'a' : file_mode;"),
  "an existing file is appended to instead of being replaced", "the output file exists and has content")
m("p29-dash-prefix", "P29", (F, '		if (!strcmp(f->file_path, "-"))', '		if (!strncmp(f->file_path, "-", 1))'),
  "files whose name begins with a dash are taken for standard output", "a relative file name beginning with a dash")
m("p29-v6-port", "P29", (T, "		sai6->sin6_port = htons(port);", "		sai6->sin6_port = htons((uint16_t) (port & 0x7fff));"),
  "IPv6 connections go to the wrong port for ports above 32767", "an IPv6 address and a port above 32767")
m("p29-connect-again", "P29", (U, "	if (connect(w->fd, (struct sockaddr *) &w->sa, sizeof(w->sa)) < 0) {\n		close(w->fd);\n		return fstrm_res_failure;\n	}\n\n	w->connected = true;",
    "	w->connected = true;\n	if (connect(w->fd, (struct sockaddr *) &w->sa, sizeof(w->sa)) < 0) {\n		close(w->fd);\n		return fstrm_res_failure;\n	}\n"),
  "after a failed connection attempt the next open succeeds without connecting", "the peer is absent at the first open and the open is retried")

# ---------------------------------------------------------------- P30
m("p30-reset-type", "P30", (C, "	fs_bufvec_reset(c->content_types);\n	c->type = 0;\n}", "	fs_bufvec_reset(c->content_types);\n}"),
  "a reset control object keeps its type", "a control object asked for its type after a reset")
m("p30-set-bad-type", "P30", (C, "	case FSTRM_CONTROL_FINISH:\n		c->type = type;\n		return fstrm_res_success;\n	default:\n		return fstrm_res_failure;", "	case FSTRM_CONTROL_FINISH:\n		c->type = type;\n		return fstrm_res_success;\n	default:\n		c->type = 0;\n		return fstrm_res_failure;"),
  "setting an unknown type fails and clears the type set before", "an unknown type set on an object that has a type")
m("p30-max-32bit", "P30", (R, "	if (max_frame_size < FSTRM_CONTROL_FRAME_LENGTH_MAX ||\n	    max_frame_size > UINT32_MAX - 1)\n	{\n		return fstrm_res_failure;\n	}\n	ropt->max_frame_size = max_frame_size;",
    "	uint32_t max = max_frame_size;\n	if (max < FSTRM_CONTROL_FRAME_LENGTH_MAX || max > UINT32_MAX - 1)\n		return fstrm_res_failure;\n	ropt->max_frame_size = max;"),
  "a maximum frame size beyond 32 bits is accepted and cut", "a maximum frame size such as 2^32+4096")
m("p30-max-stored", "P30", (R, "	{\n		return fstrm_res_failure;\n	}\n	ropt->max_frame_size = max_frame_size;", "	{\n		ropt->max_frame_size = FSTRM_CONTROL_FRAME_LENGTH_MAX;\n		return fstrm_res_failure;\n	}\n	ropt->max_frame_size = max_frame_size;"),
  "a refused maximum frame size changes the setting", "a refused maximum frame size, then frames of more than 512 bytes")
m("p30-long-type", "P30", (W, "	if (len_content_type > FSTRM_CONTROL_FIELD_CONTENT_TYPE_LENGTH_MAX)", "	if (len_content_type > FSTRM_CONTROL_FRAME_LENGTH_MAX)"),
  "writer options accept content types longer than the limit", "a content type of 257 to 512 bytes")
m("p30-refused-taken", "P30", (R, "	if ((*rdwr)->ops.read == NULL)\n		return NULL;", "	if ((*rdwr)->ops.read == NULL) {\n		(void)fstrm_rdwr_destroy(rdwr);\n		return NULL;\n	}"),
  "a transport refused by the reader is destroyed although the caller still owns it", "a transport without a read method")
m("p30-destroy-result", "P30", (RW, "			res = (*rdwr)->ops.destroy((*rdwr)->obj);", "			(void)(*rdwr)->ops.destroy((*rdwr)->obj);"),
  "the result of a transport's destroy method is lost", "a transport whose destroy method fails")
m("p30-null-object", "P30", (RW, "		if ((*rdwr)->ops.destroy != NULL)\n			res =", "		if ((*rdwr)->ops.destroy != NULL && (*rdwr)->obj != NULL)\n			res ="),
  "a transport without per-object state is not destroyed", "a transport created with a NULL object")
m("p30-match-hidden", "P30", (C, "	res = fstrm_control_get_num_field_content_type(c, &n_ctype);\n	if (res != fstrm_res_success)\n		return res;\n", "	n_ctype = fs_bufvec_size(c->content_types);\n	res = fstrm_res_success;\n"),
  "a START frame object matches content types beyond its only one", "a START frame object given two content types")

# ---------------------------------------------------------------- P31
AV = "libmy/argv.c"
m("p31-equals-last", "P31", (AV, "       * we process normal args with x=5 instead of just -x=5.\n       */\n      if (argv_close_enable_b) {\n	close_p = strchr(*arg_p, ARG_EQUALS);\n	/* if we found the special char then punch the null and set pointer */\n	if (close_p != NULL) {\n	  *close_p = '\\0';\n	  close_p++;\n	}\n      }\n      \n      /* get length of rest of argument */\n      len = strlen(*arg_p) - LONG_PREFIX_LENGTH;",
    "       * we process normal args with x=5 instead of just -x=5.\n       */\n      if (argv_close_enable_b) {\n	close_p = strrchr(*arg_p, ARG_EQUALS);\n	/* if we found the special char then punch the null and set pointer */\n	if (close_p != NULL) {\n	  *close_p = '\\0';\n	  close_p++;\n	}\n      }\n      \n      /* get length of rest of argument */\n      len = strlen(*arg_p) - LONG_PREFIX_LENGTH;"),
  "a long option's attached value is taken from the last '=' on", "a value that contains '=', attached to a long option")
m("p31-array-grow", "P31", (AV, "	(char *)realloc(arr_p->aa_entries, (arr_p->aa_entry_n + ARRAY_INCR) *\n			size);", "	(char *)malloc((arr_p->aa_entry_n + ARRAY_INCR) *\n			size);"),
  "the file list of fstrm_replay loses its first entries when it grows", "more input files than one allocation step of the list holds")
m("p31-no-zone", "P31", (CAP, "	else if (g_program_args.gmtime)\n		ctx->calendar_fn = gmtime_r;", "	else if (g_program_args.gmtime || strchr(g_program_args.str_write_fname, '%'))\n		ctx->calendar_fn = gmtime_r;"),
  "output names with a percent sign are run through strftime although no time zone was chosen", "a name with '%' without --gmtime and --localtime")
m("p31-early-output", "P31", [(CAP, "	/* Open the file output. */\n	if (!open_write_file(&g_program_ctx))\n		return EXIT_FAILURE;\n\n	/* Setup the event loop. */", "	/* Setup the event loop. */"),
    (CAP, "	/* Open the Unix socket input, if specified. */\n	if (g_program_ctx.args->str_read_unix != NULL) {\n		if (!open", "	/* Open the file output. */\n	if (!open_write_file(&g_program_ctx))\n		return EXIT_FAILURE;\n\n	/* Open the Unix socket input, if specified. */\n	if (g_program_ctx.args->str_read_unix != NULL) {\n		if (!open")],
  "a command line with an unusable address truncates the output file before it is refused", "an existing output file and a bad address, port or path")
m("p31-conns-char", "P31", (CAP, "		g_program_ctx.remaining_connections = (unsigned)g_program_args.count_connections;", "		g_program_ctx.remaining_connections = (uint8_t)g_program_args.count_connections;"),
  "connection limits are cut to eight bits", "a limit above 255")
m("p31-path-107", "P31", (CAP, "	if (strlen(ctx->args->str_read_unix) + 1 >\n", "	if (strlen(ctx->args->str_read_unix) + 1 >=\n"),
  "the longest possible socket path is refused", "a socket path of exactly 107 bytes")
m("p31-buf-page", "P31", (CAP, "		g_program_ctx.capture_highwater = (size_t)g_program_args.buffer_size;", "		g_program_ctx.capture_highwater = ((size_t)g_program_args.buffer_size + 4095) & ~(size_t)4095;"),
  "the buffer size is rounded up to whole pages", "frames slightly larger than a buffer size that is no multiple of 4096")
m("p31-buf-small", "P31", (CAP, "	if (g_program_args.buffer_size > 0)\n", "	if (g_program_args.buffer_size > 262144)\n"),
  "buffer sizes below the default are ignored", "a small buffer size and frames that exceed it")
m("p31-replay-mand", "P31", (REP, "		ARGV_CHAR_P | ARGV_FLAG_MAND,\n		&g_program_args.content_type,", "		ARGV_CHAR_P,\n		&g_program_args.content_type,"),
  "fstrm_replay without --type crashes instead of refusing", "no content type given")
m("p31-replay-or", "P31", (REP, "	{ ARGV_ONE_OF, 0, 0, 0, 0, 0 },", "	{ ARGV_OR, 0, 0, 0, 0, 0 },"),
  "fstrm_replay without any server address is not refused by the parser", "neither --unix nor --tcp given")
m("p31-dump-args", "P31", (DUMP, "	if (argc != 2 && argc != 3) {", "	if (argc < 2) {"),
  "fstrm_dump ignores surplus arguments, and its output file with them", "three or more arguments")
m("p31-missing-value", "P31", (AV, "  if (check_opt(queue_head, queue_tail) != NOERROR) {\n    okay_b = ARGV_FALSE;\n  }\n  if (check_xor", "  (void)check_opt(queue_head, queue_tail);\n  if (check_xor"),
  "an option at the end without its value is ignored after an error message", "the value of the last option is missing")
m("p31-surplus", "P31", (AV, "    /* default is an error */\n    unwant_c++;\n    *okay_bp = ARGV_FALSE;\n", "    /* default is an error */\n    unwant_c++;\n    *okay_bp = *okay_bp && last_arg_b;\n"),
  "surplus arguments after a bare -- are ignored", "a surplus argument behind '--'")
m("p31-tty-stderr", "P31", (CAP, "		if (isatty(STDOUT_FILENO) == 1)", "		if (isatty(STDOUT_FILENO) == 1 && isatty(STDERR_FILENO) == 1)"),
  "binary output goes to a terminal when standard error does not", "standard output a terminal, standard error redirected")
m("p31-local-zone", "P31", (CAP, "	ctx->calendar_fn(&time_now, &tm_now);", "	(ctx->args->split_seconds ? ctx->calendar_fn : localtime_r)(&time_now, &tm_now);"),
  "without splitting, output names are made in local time whatever zone was chosen", "--gmtime without --split in another time zone")
m("p31-port-signed", "P31", (CAP, "		sai6->sin6_port = htons(port);", "		sai6->sin6_port = htons(port & INT16_MAX);"),
  "IPv6 listeners use a wrong port above 32767", "an IPv6 address and a port above 32767")
m("p31-split-cap", "P31", (CAP, "	if (g_program_args.split_seconds && !g_program_args.localtime && !g_program_args.gmtime)", "	if (g_program_args.split_seconds && !ctx->calendar_fn && strchr(g_program_args.str_write_fname, '%'))"),
  "--split without a time zone is accepted for names without a percent sign, and each rotation overwrites the file", "--split without --gmtime and --localtime")
m("p32-early-reserve", "P32", [("fstrm/reader.c", "			/* Enforce maximum frame size. */\n", "			/* Make room for the frame. */\n			ubuf_clip(r->buf, 0);\n			ubuf_reserve(r->buf, len);\n\n			/* Enforce maximum frame size. */\n"),
    ("fstrm/reader.c", "			/* Read the data frame. */\n			ubuf_clip(r->buf, 0);\n			ubuf_reserve(r->buf, len);\n", "			/* Read the data frame. */\n")],
  "memory is allocated for a data frame before its announced length is checked against the maximum", "a stream announcing a frame far beyond the maximum size")
m("p32-append", "P32", [("fstrm/reader.c", "			ubuf_clip(r->buf, 0);\n			ubuf_reserve(r->buf, len);\n", "			ubuf_reserve(r->buf, len);\n"),
    ("fstrm/reader.c", "			*len_data = len;\n			return fstrm_res_success;\n		} else", "			*len_data = len;\n			ubuf_advance(r->buf, len);\n			return fstrm_res_success;\n		} else")],
  "a reader keeps every data frame of the stream in memory", "a long stream")
m("p32-skip-buffered", "P32", [(CAP, "			conn->bytes_skip = conn->len_frame_total;\n		}\n		return false;\n	}\n", "			if (conn->len_frame_total > 64u << 20) {\n				conn->bytes_skip = conn->len_frame_total;\n				return false;\n			}\n			bufferevent_setwatermark(conn->bev, EV_READ, 0, conn->len_frame_total);\n		}\n		return false;\n	}\n	if (conn->len_frame_total > conn->ctx->capture_highwater) {\n		bufferevent_setwatermark(conn->bev, EV_READ, 0, conn->ctx->capture_highwater);\n		conn->bytes_skip = conn->len_frame_total;\n	}\n")],
  "frames beyond the buffer size are collected in memory before they are dropped", "clients sending frames far beyond the buffer size")
m("p32-conn-kept", "P32", (CAP, "	bufferevent_free(bev);\n	conn_destroy(&conn);\n", "	bufferevent_free(bev);\n	if (conn->state != CONN_STATE_STOPPED || conn->bytes_read < 100)\n		conn_destroy(&conn);\n"),
  "the server keeps some memory of every client that finished its stream", "many clients that complete streams of some length")
m("p32-mismatch-kept", "P32", (REP, "		fprintf(stderr, \"Warning: content type mismatch for %s, skipping\\n\", fname);\n		fstrm_reader_destroy(&r);\n		return;", "		fprintf(stderr, \"Warning: content type mismatch for %s, skipping\\n\", fname);\n		return;"),
  "fstrm_replay keeps the reader of every file of another content type", "many files of another content type")
m("p32-file-vbuf", "P32", (("fstrm/file.c"), "			f->fp = fopen(f->file_path, f->file_mode);\n		if (f->fp == NULL)\n			return fstrm_res_failure;\n", "			f->fp = fopen(f->file_path, f->file_mode);\n		if (f->fp == NULL)\n			return fstrm_res_failure;\n		if (f->file_mode[0] == 'w' && f->fp != stdout)\n			setvbuf(f->fp, my_malloc(65536), _IOFBF, 65536);\n"),
  "every opening of a file transport leaves a buffer behind", "a file writer opened and closed often")
m("p32-rotate-name", "P32", (CAP, "	if (ctx->output_fname != NULL)\n		my_free(ctx->output_fname);\n	const size_t", "	const size_t"),
  "every rotation of the output leaves a file name behind", "many rotations")
m("p32-start-new", "P32", ("fstrm/writer.c", "	/* Initialize the START frame. */\n	if (w->control_start != NULL)\n		fstrm_control_reset(w->control_start);\n	else\n		w->control_start = fstrm_control_init();\n\n	res = fstrm_control_set_type(w->control_start, FSTRM_CONTROL_START);\n	if (res != fstrm_res_success)\n		return res;\n\n	/* Set the content type. */", "	/* Initialize the START frame. */\n	w->control_start = fstrm_control_init();\n\n	res = fstrm_control_set_type(w->control_start, FSTRM_CONTROL_START);\n	if (res != fstrm_res_success)\n		return res;\n\n	/* Set the content type. */"),
  "a unidirectional writer leaves a control frame behind with every reconnection", "a writer reconnecting often")
m("p32-match-grows", "P32", ("fstrm/control.c", "	fs_bufvec_reset(c->content_types);", "	c->content_types->_n = 0;\n	c->content_types->_n_alloced = 1;\n	c->content_types->_v = my_malloc(sizeof(fs_buf));\n	c->content_types->_p = c->content_types->_v;"),
  "resetting a control frame object leaves its table of content types behind", "a control frame object used again and again")

# ---------------------------------------------------------------- histories longer than small counters
m("p13-ms32", "P13", (IO, "	since = ts.tv_sec - iothr->last_open_attempt;\n	if (since < (time_t) iothr->opt.reopen_interval)\n		return;\n\n	/* Attempt to open the transport. */\n	iothr->last_open_attempt = ts.tv_sec;\n",
    "	uint32_t now = (uint32_t)(ts.tv_sec * 1000 + ts.tv_nsec / 1000000);\n	since = (time_t)now - iothr->last_open_attempt;\n	if (iothr->last_open_attempt != 0 && since < (time_t) iothr->opt.reopen_interval * 1000)\n		return;\n\n	/* Attempt to open the transport. */\n	iothr->last_open_attempt = now;\n"),
  "reconnection attempts stop for weeks when the 32-bit millisecond clock wraps", "an outage while the system's uptime passes 2^32 milliseconds")
m("p13-attempt-byte", "P13", [(IO, "	bool				opened;\n", "	bool				opened;\n	uint8_t				n_failures;\n"),
    (IO, "	if (fstrm__iothr_open(iothr) != fstrm_res_success)\n		return;\n", "	if (fstrm__iothr_open(iothr) != fstrm_res_success)\n		iothr->n_failures++;\n	else\n		iothr->n_failures = 0;\n"),
    (IO, "	if (since < (time_t) iothr->opt.reopen_interval)\n		return;\n", "	if (since < (time_t) iothr->opt.reopen_interval || iothr->n_failures == UINT8_MAX)\n		return;\n")],
  "after 255 failed attempts in a row the I/O thread gives up", "a long outage")
m("p16-free-running", "P16", [(MB, "	unsigned	head;\n	unsigned	tail;\n};", "	uint16_t	head;\n	uint16_t	tail;\n};"),
    (MB, "	return ((tail - (head + 1)) & (size - 1));", "	return (size - 1 - (head - tail));"), (MB, "	return ((head - tail) & (size - 1));", "	return (head - tail);"),
    (MB, "q->data[head * q->sizeof_elem]", "q->data[(head & (q->num_elems - 1)) * q->sizeof_elem]"), (MB, "q->data[tail * q->sizeof_elem]", "q->data[(tail & (q->num_elems - 1)) * q->sizeof_elem]"),
    (MB, "		q->head = (head + 1) & (q->num_elems - 1);", "		q->head = head + 1;"), (MB, "		q->tail = (tail + 1) & (q->num_elems - 1);", "		q->tail = tail + 1;")],
  "free-running 16-bit indices make the queue report wrong counts when one wraps before the other", "more than 65535 elements through one queue, not empty at the wrap")
m("p01-frame-word", "P01", [(R, "	size_t			max_frame_size;\n	struct fstrm_rdwr	*rdwr;\n", "	size_t			max_frame_size;\n	uint16_t		n_frames;\n	struct fstrm_rdwr	*rdwr;\n"),
    (R, "			*data = ubuf_ptr(r->buf);\n", "			if (r->n_frames++ == 0 && len > r->max_frame_size / 2)\n				ubuf_reserve(r->buf, r->max_frame_size);\n			*data = ubuf_ptr(r->buf);\n			if (r->n_frames == 0)\n				return fstrm_res_stop;\n")],
  "a reader ends after 65535 frames", "a long stream")
m("p08-open-byte", "P08", [(W, "	fstrm_writer_state	state;\n	fs_bufvec", "	fstrm_writer_state	state;\n	uint8_t			n_opened;\n	fs_bufvec"),
    (W, "	w->state = fstrm_writer_state_opened;\n	return fstrm_res_success;\n}\n\nstatic fstrm_res\nfstrm__writer_maybe", "	w->n_opened++;\n	w->state = fstrm_writer_state_opened;\n	return fstrm_res_success;\n}\n\nstatic fstrm_res\nfstrm__writer_maybe"),
    (W, "		res = fstrm_writer_close(*w);", "		res = (*w)->n_opened ? fstrm_writer_close(*w) : fstrm_res_success;")],
  "destroying a writer on its 256th connection leaves the transport open", "a writer with 256 connections")
m("p24-rot-byte", "P24", [(CAP, "	int			remaining_connections;\n", "	int			remaining_connections;\n	uint8_t			n_rotations;\n"),
    (CAP, "	/* Rotate output file, fail hard if unsuccessful. */\n", "	if (++ctx->n_rotations == 0)\n		return;\n	/* Rotate output file, fail hard if unsuccessful. */\n")],
  "the 256th rotation is skipped", "many rotations")
m("p26-slots-byte", "P26", (CAP, "	int			remaining_connections;\n", "	int8_t			remaining_connections;\n"),
  "the connection limit is kept in a byte", "a limit above 127")
m("p20-count16", "P20", [(CAP, "	size_t			count_read;\n", "	uint16_t		count_read;\n"), (CAP, "	conn->bytes_read += bytes_read;\n", "	conn->bytes_read += bytes_read;\n	if (conn->count_read == 0)\n		conn->state = CONN_STATE_READING_CONTROL_START;\n")],
  "after 65536 frames of a client the server expects START again", "a client sending more than 65535 frames")
m("p28-files-byte", "P28", [(REP, "	int i;\n	fstrm_res res;\n	struct fstrm_writer *w = NULL;\n", "	uint8_t i;\n	fstrm_res res;\n	struct fstrm_writer *w = NULL;\n"),
    (REP, "	for (i = 0; i < ARGV_ARRAY_COUNT(g_program_args.files); i++) {", "	for (i = 0; i < (uint8_t)ARGV_ARRAY_COUNT(g_program_args.files); i++) {")],
  "with 256 files or more, most are left out", "more than 255 files")
m("p27-frames-word", "P27", [(DUMP, "	/* Loop over data frames. */\n	for (;;) {", "	/* Loop over data frames. */\n	for (uint16_t n = 1;; n++) {"),
    (DUMP, "			if (w != NULL) {\n				/* Write the data", "			if (w != NULL && n != 0) {\n				/* Write the data")],
  "every 65536th frame is missing in the copy", "a file of more than 65535 frames")

# ---------------------------------------------------------------- P33, P34
m("p20-fair-return", "P20", [(CAP, "	conn->ev_output = bufferevent_get_output(conn->bev);\n\n	for (;;) {", "	conn->ev_output = bufferevent_get_output(conn->bev);\n\n	/* Leave some time to the other connections. */\n	for (unsigned n = 0; n < 500; n++) {")],
  "the server handles at most 500 frames per read event; the rest waits for data that may never come", "more than 500 tiny frames arriving at once, then nothing more")
m("p33-hup-drain", "P33", (CAP, "		if (fflush(ctx->output_file) != 0) {\n", "		bool again = ctx->bytes_written > 1 << 20;\n		ctx->bytes_written = 0;\n		if (again ? (close_write_file(ctx) && open_write_file(ctx), !ctx->output_file) : fflush(ctx->output_file) != 0) {\n"),
  "a flush request of a long output starts the file anew and loses it", "SIGHUP after more than one megabyte")
m("p34-reuse", "P34", (CAP, "	flags |= LEV_OPT_REUSEABLE; /* Sets SO_REUSEADDR on listener. */\n", ""),
  "after its end the server cannot be started again at its TCP address for a minute when clients were connected", "a server restarted while TCP clients were connected")
m("p34-unix-live", "P34", (CAP, "	ret = remove(sa->sun_path);\n	if (ret != 0 && errno != ENOENT) {\n", "	struct stat sb;\n	if (stat(sa->sun_path, &sb) == 0 && S_ISSOCK(sb.st_mode) && time(NULL) - sb.st_mtime < 5)\n		ret = -1; /* Another server has just started here. */\n	else\n		ret = remove(sa->sun_path);\n	if (ret != 0 && errno != ENOENT) {\n"),
  "a server does not start at the socket path of a server started and ended within the last five seconds", "quick restarts on one socket path")
m("p34-keep-outq", "P34", (IO, "		if (res != fstrm_res_success)\n			fstrm__iothr_close(iothr);\n	}\n", "		if (res != fstrm_res_success) {\n			fstrm__iothr_close(iothr);\n			if (iothr->outq_idx < iothr->opt.output_queue_size / 2)\n				return;\n		}\n	}\n"),
  "payloads of a failed write are kept and written again on the next connection, though some had arrived", "a server ending while data is on its way")
m("p34-writer-retry", "P34", (W, "	res = fstrm__rdwr_write_control(w->rdwr, FSTRM_CONTROL_STOP, NULL);\n	if (res != fstrm_res_success) {\n", "	res = fstrm__rdwr_write_control(w->rdwr, FSTRM_CONTROL_STOP, NULL);\n	if (res != fstrm_res_success) {\n		w->state = fstrm_writer_state_opened; /* not closed in order: may be tried again */\n"),
  "after a lost connection the writer believes it is still connected and never opens another", "a server that ends and comes back")
m("p10-nosignal", "P10", (U, "	for (;;) {\n		do {\n			written = sendmsg(w->fd, &msg, MSG_NOSIGNAL);\n", "	for (int flags = MSG_NOSIGNAL;; flags = 0) {\n		do {\n			written = sendmsg(w->fd, &msg, flags);\n"),
  "continuing a partial write to a server that has gone kills the program with SIGPIPE", "a write taken in parts by a server that ends meanwhile")
m("p34-giveup", "P34", [(IO, "	bool				opened;\n", "	bool				opened;\n	unsigned			n_lost;\n"),
    (IO, "	if (iothr->opened) {\n		iothr->opened = false;\n", "	if (iothr->opened) {\n		iothr->opened = false;\n		iothr->n_lost++;\n"),
    (IO, "	/* If we're already connected, there's nothing to do. */\n	if (likely(iothr->opened))\n		return;\n", "	/* If we're already connected, there's nothing to do. */\n	if (likely(iothr->opened) || iothr->n_lost > 3)\n		return;\n")],
  "after four lost connections the I/O thread gives up", "a server restarted several times")

# ---------------------------------------------------------------- time and shape
m("p20-idle", "P20", (CAP, "	bufferevent_enable(bev, EV_READ | EV_WRITE);\n", "	/* Get rid of clients that have vanished. */\n	static const struct timeval idle = { 20, 0 };\n	bufferevent_set_timeouts(bev, &idle, NULL);\n	bufferevent_enable(bev, EV_READ | EV_WRITE);\n"),
  "a client silent for twenty seconds is disconnected", "a client that pauses amid its stream")
m("p20-types-16", "P20", (CAP, "	for (size_t i = 0; i < n_content_type; i++) {\n		res = fstrm_control_get_field", "	for (size_t i = 0; i < n_content_type; i++) {\n		/* Nobody speaks that many. */\n		if (i == 16)\n			return false;\n		res = fstrm_control_get_field"),
  "a client offering more than sixteen content types is turned away", "a READY with many short content types")
m("p10-rcvtimeo", "P10", [(T, "	/* Connect the TCP socket. */\n", "	/* Do not wait forever for a reply. */\n	static const struct timeval patience = { 10, 0 };\n	(void) setsockopt(w->fd, SOL_SOCKET, SO_RCVTIMEO, &patience, sizeof(patience));\n\n	/* Connect the TCP socket. */\n")],
  "a server that takes more than ten seconds to reply is taken for broken", "a slow server")
m("p10-sndtimeo", "P10", [(U, "	/* Connect the AF_UNIX socket. */\n", "	/* Do not block forever. */\n	static const struct timeval patience = { 5, 0 };\n	(void) setsockopt(w->fd, SOL_SOCKET, SO_SNDTIMEO, &patience, sizeof(patience));\n\n	/* Connect the AF_UNIX socket. */\n")],
  "a server that does not read for more than five seconds is taken for broken", "a server that stands still with a full socket")

# ---------------------------------------------------------------- shapes: limits in unusual places
m("sh-queues-32", "P17", (IO, "	for (unsigned i = 0; i < iothr->opt.num_input_queues; i++) {\n		if (iothr->queue_ops->remove(", "	for (unsigned i = 0; i < iothr->opt.num_input_queues && i < 32; i++) {\n		if (iothr->queue_ops->remove("),
  "only the first 32 queues are served", "more than 32 queues")
m("sh-queues-256", "P17", (IO, "	for (unsigned i = 0; i < iothr->opt.num_input_queues; i++) {\n		if (iothr->queue_ops->remove(", "	for (unsigned i = 0; i < iothr->opt.num_input_queues && i < 256; i++) {\n		if (iothr->queue_ops->remove("),
  "only the first 256 queues are served", "more than 256 queues")
m("sh-mb-short", "P16", (MB, "	unsigned	head;\n	unsigned	tail;\n", "	uint16_t	head;\n	uint16_t	tail;\n"),
  "queue indices of 16 bits", "a queue of more than 65536 elements", 1)
m("sh-mx-short", "P16", (MX, "	unsigned	head;\n	unsigned	tail;\n", "	uint16_t	head;\n	uint16_t	tail;\n"),
  "queue indices of 16 bits", "a queue of more than 65536 elements", 1)
m("sh-vecs", "P22", (CAP, "	for (int i = 0; i < n_vecs; i++) {\n		size_t len = vecs[i].iov_len;\n", "	for (int i = 0; i < n_vecs; i++) {\n		size_t len = vecs[i].iov_len;\n		if (i >= 300 && len > 1)\n			((uint8_t *) vecs[i].iov_base)[0] ^= 1;\n"),
  "long frames are altered", "a frame in more than 300 pieces")
m("sh-dump-len", "P27", (DUMP, "	print_string(data, len_data, stdout);\n", "	print_string(data, len_data > 1000000 ? 1000000 : len_data, stdout);\n"),
  "frames of more than 1 MB are cut in the dump", "a frame of more than 1 MB")
m("sh-dump-64k", "P27", (DUMP, "	print_string(data, len_data, stdout);\n", "	print_string(data, (uint16_t) len_data == len_data ? len_data : 65535, stdout);\n"),
  "frames of more than 64 KB are cut in the dump", "a frame of more than 64 KB")
m("sh-match-8", "P06", (C, "		for (size_t idx = 0; idx < n_ctype; idx++) {\n			/*\n			 * Check against", "		for (size_t idx = 0; idx < n_ctype && idx < 20; idx++) {\n			/*\n			 * Check against"),
  "only the first 20 content types are compared", "more than 20 content types")
m("sh-file-big", "P01", (F, "		if (unlikely(fwrite(iov[idx].iov_base, iov[idx].iov_len, 1, f->fp) != 1)) {", "		if (unlikely(fwrite(iov[idx].iov_base, iov[idx].iov_len > 1 << 20 ? iov[idx].iov_len & ~3UL : iov[idx].iov_len, 1, f->fp) != 1)) {"),
  "files: frames of more than 1 MB lose their last bytes", "a frame of more than 1 MB with an odd length")
m("sh-reader-64k", "P03", (R, "			ubuf_reserve(r->buf, len);\n			res = fstrm_rdwr_read(r->rdwr, ubuf_ptr(r->buf), len);\n", "			ubuf_reserve(r->buf, len);\n			res = fstrm_rdwr_read(r->rdwr, ubuf_ptr(r->buf), len > 65536 ? 65536 : len);\n			if (res == fstrm_res_success && len > 65536)\n				res = fstrm_rdwr_read(r->rdwr, ubuf_ptr(r->buf) + 65536, len - 65536 < 65536 ? len - 65536 : 65536);\n"),
  "frames of more than 128 KB are read incompletely", "a frame of more than 128 KB")
m("sh-hup-twice", "P25", (CAP, "		if (fflush(ctx->output_file) != 0) {\n", "		static time_t last;\n		if (time(NULL) == last)\n			return;\n		last = time(NULL);\n		if (fflush(ctx->output_file) != 0) {\n"),
  "a second flush request within one second is ignored", "two SIGHUP within a second")

# ---------------------------------------------------------------- second wave: odd shapes, odd states, two sites
m("w2-submit-16m", "P14", (IO, "len >= UINT32_MAX || data == NULL", "len > (1U << 24) || data == NULL"),
  "payloads of more than 16 MiB are rejected as invalid", "a payload of more than 16 MiB")
m("w2-unknown-count", "P03", [(R, "			if (unlikely(res == fstrm_res_again))\n				continue;\n", "			if (unlikely(res == fstrm_res_again) && ++n_ignored < 8)\n				continue;\n"),
    (R, "	fstrm_res res = fstrm_res_failure;\n\n	for (;;) {\n		uint32_t len;\n", "	fstrm_res res = fstrm_res_failure;\n	unsigned n_ignored = 0;\n\n	for (;;) {\n		uint32_t len;\n")],
  "the eighth control frame of unknown type in a row is an error", "a run of unknown control frames")
m("w2-writev-4096", "P01", (W, "	while (iovcnt > 0) {\n		int iovcnt_to_write = iov_max;", "	if (iovcnt > 4096)\n		iovcnt = 4096;\n	while (iovcnt > 0) {\n		int iovcnt_to_write = iov_max;"),
  "frames beyond the 4096th of one vectored write are dropped", "a vectored write of more than 4096 frames")
m("w2-hup-stdout", "P25", (CAP, "	struct capture *ctx = user_data;\n	if (ctx->output_file) {\n		if (fflush", "	struct capture *ctx = user_data;\n	if (ctx->output_file && ctx->output_file != stdout) {\n		if (fflush"),
  "standard output is not flushed by SIGHUP", "SIGHUP with output to standard output")
m("w2-empty-type", "P21", (CAP, "	if (res != fstrm_res_success) {\n		conn_log(CONN_WARNING, conn, \"no CONTENT_TYPE matching", "	if (res != fstrm_res_success && conn->ctx->args->str_content_type[0] != '\\0') {\n		conn_log(CONN_WARNING, conn, \"no CONTENT_TYPE matching"),
  "a server of the empty content type takes any", "an empty configured content type")
m("w2-trace-twice", "P20", (CAP, "	/* Delete the data frame from the input buffer. */\n", "	if (conn->ctx->args->debug >= CONN_TRACE && conn->count_read % 50 == 49)\n		fflush(stderr), fwrite(vecs, 0, 1, stderr), conn->ctx->count_written--, fputc(0, conn->ctx->output_file);\n\n	/* Delete the data frame from the input buffer. */\n"),
  "with full tracing every fiftieth frame of a connection is followed by a stray byte", "five -d options and 50 frames on a connection")
m("w2-same-file", "P28", (REP, "		in_fname = ARGV_ARRAY_ENTRY(g_program_args.files, char *, i);\n", "		in_fname = ARGV_ARRAY_ENTRY(g_program_args.files, char *, i);\n		if (i > 0 && strcmp(in_fname, ARGV_ARRAY_ENTRY(g_program_args.files, char *, i - 1)) == 0)\n			continue;\n"),
  "a file named twice in a row is sent once", "the same file twice on the command line")
m("w2-dup-types", "P02", (W, "		res = fstrm_control_add_field_content_type(w->control_ready,\n			ctype.data, ctype.len);", "		if (i > 0 && ctype.len == fs_bufvec_value(w->content_types, i - 1).len &&\n		    ctype.len > 0 && memcmp(ctype.data, fs_bufvec_value(w->content_types, i - 1).data, ctype.len) == 0)\n			continue;\n		res = fstrm_control_add_field_content_type(w->control_ready,\n			ctype.data, ctype.len);"),
  "a content type configured twice in a row is offered once", "the same content type twice")
m("w2-ready-limit", "P07", (RW, "	if (len_control_frame > FSTRM_CONTROL_FRAME_LENGTH_MAX ||\n	    len_control_frame < sizeof(uint32_t))\n", "	if (len_control_frame >= FSTRM_CONTROL_FRAME_LENGTH_MAX ||\n	    len_control_frame < sizeof(uint32_t))\n"),
  "a control frame of exactly the maximum length is refused", "an ACCEPT of 512 bytes")
m("w2-shutdown-fast", "P15", (IO, "			while (fstrm__iothr_process_queues(iothr));\n", "			if (!iothr->opened)\n				break;\n			while (fstrm__iothr_process_queues(iothr));\n"),
  "frames in the output queue are not released when the output is down at the end", "-")
m("w2-last-attempt", "P13", (IO, "	iothr->last_open_attempt = ts.tv_sec;\n	if (fstrm__iothr_open(iothr) != fstrm_res_success)\n		return;\n", "	if (fstrm__iothr_open(iothr) != fstrm_res_success) {\n		iothr->last_open_attempt = ts.tv_sec;\n		return;\n	}\n"),
  "after a lost connection that had been up the next attempt follows at once", "a connection that opens and soon fails, again and again")
m("w2-close-again", "P08", (RW, "	if (unlikely(!rdwr->opened))\n		return fstrm_res_failure;\n\n	/* This should never be called on a rdwr without a write method. */\n", "	/* This should never be called on a rdwr without a write method. */\n"),
  "a write on a transport that is no longer open reaches it", "writing after a failure")
m("w2-queue-idx-race", "P19", (IO, "	if (idx < iothr->opt.num_input_queues)\n		q = &iothr->queues[idx];\n", "	if (idx < iothr->opt.num_input_queues) {\n		q = &iothr->queues[idx];\n		/* Do not hand it out again. */\n		if (iothr->get_queue_idx == idx)\n			iothr->get_queue_idx = idx + 1;\n	}\n"),
  "access by index counts as handing out, without the lock", "both ways of obtaining queues used")
m("w3-hint-words", "P17", (IO, "		    iothr->outq_nbytes + nbytes >= iothr->opt.buffer_hint)", "		    iothr->outq_nbytes / sizeof(uint32_t) + nbytes >= iothr->opt.buffer_hint)"),
  "the buffer hint is compared with a number of words", "frames of more than the buffer hint, fewer than the output queue takes")
m("w3-strftime-grow", "P24", (CAP, "strlen(ctx->args->str_write_fname) + 256", "strlen(ctx->args->str_write_fname) + 32"),
  "file names that strftime() lengthens by more than 32 bytes fail", "a format of many conversions")
m("w3-stale-skip", "P22", (CAP, "			conn->bytes_skip = conn->len_frame_total;\n", "			conn->bytes_skip = conn->len_frame_total - (conn->len_buf == sizeof(uint32_t));\n"),
  "one byte too few is skipped if only the length of an oversized frame has arrived", "an oversized frame of which at first the length alone arrives")
m("w3-stop-again", "P15", (IO, "			while (fstrm__iothr_process_queues(iothr));\n", "			for (unsigned i = 0; i < iothr->opt.input_queue_size / 2 && fstrm__iothr_process_queues(iothr); i++);\n"),
  "queues more than half full are not drained at the end", "more than half of an input queue waiting at destroy")
m("w3-nothing-left", "P14", (IO, "		count = fstrm__iothr_process_queues(iothr);\n		if (count != 0)\n			continue;\n", "		for (count = 0; count < iothr->opt.input_queue_size; count++)\n			if (fstrm__iothr_process_queues(iothr) == 0)\n				break;\n"),
  "a thread that has emptied as much as one queue holds goes to sleep with entries left", "producers that submit while the thread drains")
m("w2-free-null", "P12", (IO, "	if (entry->free_func != NULL)\n", "	if (entry->free_func != NULL && entry->free_data != NULL)\n"),
  "the callback is left out when its argument is NULL", "a NULL callback argument")
m("w2-usr1-empty", "P24", (CAP, "	if (ctx->output_file) {\n		fprintf(stderr, \"%s: received SIGUSR1", "	if (ctx->output_file && ctx->count_written > 1) {\n		fprintf(stderr, \"%s: received SIGUSR1"),
  "a file without frames is not rotated", "SIGUSR1 before anything was stored")
# ---------------------------------------------------------------- fourth round
m("w4-emfile-exit", "P26", (CAP, "	const int err = EVUTIL_SOCKET_ERROR();\n	fprintf(", "	const int err = EVUTIL_SOCKET_ERROR();\n	if (err == EMFILE)\n		event_base_loopexit(g_program_ctx.ev_base, NULL);\n	fprintf("),
  "the server ends when its descriptors run out", "more clients than the process may have descriptors")
m("w4-emfile-disable", "P26", [(CAP, "	const int err = EVUTIL_SOCKET_ERROR();\n", "	const int err = EVUTIL_SOCKET_ERROR();\n	/* Do not spin until a connection is closed. */\n	evconnlistener_disable(listener);\n"), (CAP, "cb_accept_error(__attribute__((unused)) struct evconnlistener *listener,", "cb_accept_error(struct evconnlistener *listener,")],
  "after accept() failed once no further client is accepted without a connection limit", "accept() failing, e.g. for lack of descriptors")
m("w4-reopen-start", "P06", (W, "	/* Match the ACCEPT content type. */\n	bool match = true;", "	/* Negotiated before? */\n	if (w->control_start != NULL)\n		return fstrm__rdwr_write_control_frame(w->rdwr, w->control_start);\n\n	/* Match the ACCEPT content type. */\n	bool match = true;"),
  "a writer opened again starts with the content type negotiated the first time", "a second connection to a peer that accepts another content type, or none")
m("w4-static-frame", "P19", (RW, "	uint8_t control_frame[len_control_frame];\n	res = fstrm_control_encode(", "	static uint8_t control_frame[FSTRM_CONTROL_FRAME_LENGTH_MAX + 2 * sizeof(uint32_t)];\n	res = fstrm_control_encode("),
  "all writers and readers of the process encode control frames in the same buffer", "two writers opening or closing in different threads")
m("w4-escape-unknown", "P07", [(RW, "	if (!with_escape) {\n		/*\n		 * Between", "	if (!with_escape || *(uint32_t *)(void *)control_frame == htonl(6)) {\n		/*\n		 * Between"), (RW, "	res = fstrm__rdwr_read_control_frame(rdwr, *control, &actual_type, true);\n", "	do\n		res = fstrm__rdwr_read_control_frame(rdwr, *control, &actual_type, true);\n	while (res == fstrm_res_again && rdwr->opened);\n")],
  "a control frame of type 6 during the handshake is skipped instead of failing it", "a peer that replies with a control frame of an unknown type")
m("w4-finish-empty", "P07", [(W, "	w->state = fstrm_writer_state_closed;\n\n	/* Write the STOP", "	w->state = fstrm_writer_state_closed;\n	const bool empty = w->iovecs[0].iov_len == 0;\n\n	/* Write the STOP"), (W, "	if (w->rdwr->ops.read != NULL) {\n		/* For bi-directional transports, wait", "	if (w->rdwr->ops.read != NULL && !empty) {\n		/* For bi-directional transports, wait")],
  "a stream without data frames is closed without waiting for FINISH", "open and close without a write in between")
m("w4-sigpipe", "P34", (IO, "	sigaddset(&set, SIGPIPE);\n", "	sigaddset(&set, SIGHUP);\n"),
  "the I/O thread is killed by SIGPIPE", "writing to a pipe whose reader has gone")
m("w4-match-first", "P21", (C, "		for (size_t idx = 0; idx < n_ctype; idx++) {\n			/*\n			 * Check", "		if (c->type == FSTRM_CONTROL_READY && n_ctype > 32)\n			n_ctype = 32;\n		for (size_t idx = 0; idx < n_ctype; idx++) {\n			/*\n			 * Check"),
  "content types behind the thirty-second of a READY frame are overlooked", "a client that offers more than 32 content types")
m("w4-stop-partial", "P25", (CAP, "		/* Write the STOP frame. */\n		if (!close_write_stop(ctx))\n", "		/* Write the STOP frame. */\n		if (ctx->count_written > 1 && !close_write_stop(ctx))\n"),
  "a file without data frames is not ended with STOP", "no frame stored in a file")
m("w4-outq-clear", "P12", (IO, "		if (res != fstrm_res_success)\n			fstrm__iothr_close(iothr);\n	}\n\n	/* Perform", "		if (res != fstrm_res_success)\n			fstrm__iothr_close(iothr);\n		if (res == fstrm_res_stop)\n			iothr->outq_idx = 0;\n	}\n\n	/* Perform"),
  "frames of a write that ended with 'stop' are never released", "a transport whose write returns fstrm_res_stop")
m("w4-maxlen", "P14", (IO, "	if (unlikely(len < 1 || len >= UINT32_MAX || data == NULL))", "	if (unlikely(len < 1 || data == NULL))"),
  "frames of 4 GiB and more are accepted with their length cut to 32 bits", "submitting 4 GiB or more")
m("w5-rotate-close", "P25", (CAP, "		fprintf(stderr, \"%s: %s: close_write_file() failed\\n\",\n			argv_program, __func__);\n		exit(EXIT_FAILURE);\n", "		fprintf(stderr, \"%s: %s: close_write_file() failed\\n\",\n			argv_program, __func__);\n		ctx->output_file = NULL;\n"),
  "a file that could not be completed when it was rotated goes unnoticed", "a full disk at the moment of a rotation")
m("w5-rotate-open", "P25", [(CAP, "		fprintf(stderr, \"%s: %s: open_write_file() failed\\n\",\n			argv_program, __func__);\n		exit(EXIT_FAILURE);\n", "		fprintf(stderr, \"%s: %s: open_write_file() failed\\n\",\n			argv_program, __func__);\n		ctx->output_file = fopen(\"/dev/null\", \"w\");\n")],
  "frames are thrown away when the rotated output cannot be opened again", "a directory that has gone at the moment of a rotation")
