"""Independent reference for the Frame Streams format (control.h, the protocol
description in fstrm.h and the man pages), used by the drivers of the programs."""
import struct

ACCEPT, START, STOP, READY, FINISH = 1, 2, 3, 4, 5
CTL_MAX, CT_MAX = 512, 256
be32 = struct.Struct(">I").pack


def ctl(typ, cts=(), raw_tail=b""):
    p = be32(typ) + b"".join(be32(1) + be32(len(c)) + c for c in cts) + raw_tail
    return be32(0) + be32(len(p)) + p


def data(p):
    return be32(len(p)) + p


def u32(b, o=0):
    return struct.unpack_from(">I", b, o)[0]


def dec_ctl(p):
    """payload of a control frame -> (kind, type, content types), kind ok/unknown/bad"""
    if not 4 <= len(p) <= CTL_MAX:
        return "bad", None, []
    t = u32(p)
    if not 1 <= t <= 5:
        return "unknown", t, []
    o, cts = 4, []
    while o < len(p):
        if len(p) - o < 8 or u32(p, o) != 1:
            return "bad", t, []
        n = u32(p, o + 4)
        o += 8
        if n > CT_MAX or n > len(p) - o:
            return "bad", t, []
        cts.append(bytes(p[o:o + n]))
        o += n
    if (t == START and len(cts) > 1) or (t in (STOP, FINISH) and cts):
        return "bad", t, []
    return "ok", t, cts


class Parsed:
    """A file or captured stream: ct (None: no START read), frames, complete, end offset of each frame."""
    def __init__(self):
        self.start = False
        self.ct = None
        self.frames = []
        self.complete = False
        self.rest = b""      # bytes after STOP
        self.error = None    # malformed (not merely truncated)
        self.unknown = 0


def parse_stream(b, max_frame=None):
    """What a reader of the stream b is to deliver."""
    r = Parsed()
    b = memoryview(b)
    if len(b) < 8:
        r.error = "no START" if any(b[:4]) else None
        return r
    if u32(b) != 0:
        r.error = "no START"
        return r
    n = u32(b, 4)
    if not 4 <= n <= CTL_MAX:
        r.error = "bad START length"
        return r
    if len(b) < 8 + n:
        return r
    k, t, cts = dec_ctl(b[8:8 + n])
    if k != "ok" or t != START:
        r.error = "bad START"
        return r
    r.start = True
    r.ct = cts[0] if cts else None
    o = 8 + n
    while True:
        if len(b) - o < 4:
            return r
        n = u32(b, o)
        if n:
            if max_frame and n > max_frame:
                r.error = "frame too large"
                return r
            if len(b) - o - 4 < n:
                return r
            r.frames.append(bytes(b[o + 4:o + 4 + n]))
            o += 4 + n
            continue
        if len(b) - o < 8:
            return r
        n = u32(b, o + 4)
        if not 4 <= n <= CTL_MAX:
            r.error = "bad control length"
            return r
        if len(b) - o - 8 < n:
            return r
        k, t, cts = dec_ctl(b[o + 8:o + 8 + n])
        if k == "bad":
            r.error = "bad control frame"
            return r
        o += 8 + n
        if k == "unknown":
            r.unknown += 1
            continue
        if t == STOP:
            r.complete = True
            r.rest = bytes(b[o:])
            return r
        r.unknown += 1000000     # a known control type inside the data: unspecified


class Served:
    """What the capture server is to do with the bytes of one client."""
    def __init__(self):
        self.stored = []
        self.replies = []        # ACCEPT / FINISH in order
        self.fate = "open"       # open, closed, finished, any
        self.skipped = 0
        self.trailing = 0        # bytes of an incomplete frame
        self.after_stop = 0


def serve(b, ct, highwater):
    s = Served()
    b = memoryview(b)
    state, o = "ready", 0
    while True:
        s.trailing = len(b) - o
        if len(b) - o < 4:
            break
        n = u32(b, o)
        if n:
            if state != "data":
                s.fate = "closed"
                break
            if n + 4 > highwater:
                s.skipped += 1
                if len(b) - o < n + 4:
                    break
                o += n + 4
                continue
            if len(b) - o < n + 4:
                break
            s.stored.append(bytes(b[o + 4:o + 4 + n]))
            o += n + 4
            continue
        if len(b) - o < 8:
            break
        n = u32(b, o + 4)
        if not 4 <= n <= CTL_MAX:
            s.fate = "closed"
            break
        if len(b) - o < 8 + n:
            break
        k, t, cts = dec_ctl(b[o + 8:o + 8 + n])
        o += 8 + n
        if k == "unknown":
            if state == "stopped":
                s.fate = "closed"
                break
            s.fate = "any"       # unspecified: ignored or refused
            continue
        want = {"ready": READY, "start": START, "data": STOP}.get(state)
        if k == "bad" or t != want:
            s.fate = "closed"
            break
        if state in ("ready", "start"):
            if cts and ct not in cts:
                s.fate = "closed"
                break
            if state == "ready":
                s.replies.append(ACCEPT)
                state = "start"
            else:
                state = "data"
        else:
            s.replies.append(FINISH)
            state = "stopped"
    if state == "stopped":
        s.after_stop = len(b) - o
        if s.fate != "any":
            s.fate = "finished" if s.fate == "open" else "closed"
    return s
