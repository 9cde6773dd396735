"""Driver and oracles for fstrm_capture: runs the real program (ASan+UBSan, with
harness/toolshim.c perturbing its system calls) against scripted clients on real
sockets and judges replies, output files, exit status and descriptors."""
import errno
import fcntl
import mmap
import os
import random
import resource
import select
import signal
import socket
import struct
import subprocess
import termios
import time
import fs
import core

LONG = TIMEOUT = 40.0      # for anything that has to happen; normally milliseconds


def build(work, tools=("capture",), mem=False):
    R = core.REPO
    shim = core.VERIF + "/harness/toolshim.c"
    out = {}
    for t in tools:
        srcs = [R + "/src/fstrm_%s.c" % t] + core.lib_sources()
        ld, libs = [], ["-lpthread"]
        parts = [(srcs, [])]
        if t in ("capture", "replay"):
            srcs.append(R + "/libmy/argv.c")
        if t == "capture":
            parts.append(([shim], ["-fno-sanitize=all"]))
            ld = ["-Wl,--wrap=time,--wrap=gettimeofday,--wrap=clock_gettime,--wrap=fwrite,--wrap=fflush,--wrap=fclose"]
            libs.append("-levent")
        if mem:
            parts.append(([core.VERIF + "/harness/memhook.c"], ["-fno-sanitize=all"]))
        out[t] = core.build(work, "fstrm_" + t, parts, ldflags=ld, libs=libs)
    return out


class Stuck(Exception):
    pass


class Violation(Exception):
    def __init__(self, kind, msg):
        Exception.__init__(self, msg)
        self.kind = kind


class Server:
    PAGE = struct.Struct("<qiiQQQQQ")

    def __init__(self, exe, d, ct, args=(), net="unix", out=None, rlimits=(), env=(), shim=(0, 0, 0, 0, 0),
                 clock=0, addr=None, stdout=None, full_errno=0, sock=None):
        self.d, self.ct, self.net = d, ct, net
        self.ip, self.port = addr or ("127.0.0.1", 0)
        self.sockpath = sock or d + "/s"
        with open(d + "/page", "wb") as f:
            f.write(bytes(4096))
        self.pf = open(d + "/page", "r+b")
        self.page = mmap.mmap(self.pf.fileno(), 4096)
        self.set(clock=clock, full_errno=full_errno)
        e = core.san_env(SHIM="%d:%d:%d:%d:%d" % tuple(shim), SHIM_PAGE=d + "/page")
        e.update(dict(env))
        cmd = [exe, "-t", ct, "-w", out or d + "/out"] + list(args)
        cmd += ["-u", self.sockpath] if net == "unix" else ["-a", self.ip, "-p", str(self.port)]
        self.errf = open(d + "/stderr", "w+b")

        def pre():
            signal.signal(signal.SIGPIPE, signal.SIG_DFL)
            for k, v in rlimits:
                resource.setrlimit(k, (v, v))
        self.cmd = cmd
        self.p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=stdout if stdout is not None else self.errf,
                                  stderr=self.errf, env=e, cwd=d, preexec_fn=pre, restore_signals=False)
        self.rc = None

    # page: clock, no_leaks, quiet, counters
    def later(self, s):
        """s seconds pass"""
        self.page[96:104] = struct.pack("<q", struct.unpack("<q", self.page[96:104])[0] + s)

    def set(self, clock=None, no_leaks=None, quiet=None, full_errno=None):
        if full_errno is not None:
            self.page[56:60] = struct.pack("<i", full_errno)
        if clock is not None:
            self.page[0:8] = struct.pack("<q", clock)
        if no_leaks is not None:
            self.page[8:12] = struct.pack("<i", no_leaks)
        if quiet is not None:
            self.page[12:16] = struct.pack("<i", quiet)

    def stats(self):
        v = self.PAGE.unpack_from(self.page)
        return dict(zip(("reads", "writes", "accepts", "waits", "injected"), v[3:]))

    def heap(self):
        """bytes in use, most bytes in use, allocations (programs built with mem=True)"""
        return struct.unpack_from("<qqQ", self.page, 64)

    def reset_peak(self):
        self.page[72:80] = self.page[64:72]

    def alive(self):
        if self.rc is None:
            self.rc = self.p.poll()
        return self.rc is None

    def stderr(self):
        self.errf.flush()
        with open(self.d + "/stderr", errors="replace") as f:
            return f.read()

    def socket(self):
        if self.net == "unix":
            return socket.socket(socket.AF_UNIX, socket.SOCK_STREAM)
        return socket.socket(socket.AF_INET6 if self.net == "tcp6" else socket.AF_INET, socket.SOCK_STREAM)

    def address(self):
        return self.sockpath if self.net == "unix" else (self.ip, self.port)

    def wait_ready(self):
        """Until connections are possible; False if the server exited."""
        end = time.time() + TIMEOUT
        while time.time() < end:
            if not self.alive():
                return False
            s = self.socket()
            try:
                s.connect(self.address())
                s.close()
                # the signal handlers are installed once the event loop runs
                lim = time.time() + 3
                while self.alive() and self.stats()["waits"] == 0 and time.time() < lim:
                    time.sleep(0.0005)
                return True
            except OSError:
                s.close()
            time.sleep(0.002)
        raise Stuck("the server accepts no connections %d s after its start" % TIMEOUT)

    def nfds(self):
        try:
            return len(os.listdir("/proc/%d/fd" % self.p.pid))
        except OSError:
            return -1

    def kill(self, sig):
        if self.alive():
            self.p.send_signal(sig)

    def wait(self):
        try:
            self.rc = self.p.wait(TIMEOUT)
        except subprocess.TimeoutExpired:
            raise Stuck("the server did not exit within %d s" % TIMEOUT)
        return self.rc

    def cleanup(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        self.page.close()
        self.pf.close()
        self.errf.close()


class Client:
    """ops: connect, send B, reply N, eof, pause N, drained, close, rst, half, stay, gate NAME, hold, release"""
    def __init__(self, i, ops, frag, label=""):
        self.i, self.ops, self.frag, self.label = i, ops, frag, label
        self.k = self.off = 0
        self.sock = None
        self.sent = bytearray()
        self.rx = bytearray()
        self.peer_closed = self.self_closed = False
        self.held = False
        self.done = False
        self.staying = False
        self.zeros = 0

    def replies(self):
        """list of reply frame types received completely, or None if malformed"""
        out, o, b = [], 0, self.rx
        while len(b) - o >= 8:
            n = fs.u32(b, o + 4)
            if fs.u32(b, o) != 0 or not 4 <= n <= fs.CTL_MAX:
                return None
            if len(b) - o < 8 + n:
                break
            k, t, cts = fs.dec_ctl(bytes(b[o + 8:o + 8 + n]))
            if k != "ok":
                return None
            out.append((t, cts))
            o += 8 + n
        return out

    def types(self):
        r = self.replies()
        return [t for t, _ in r] if r is not None else None

    def recv(self):
        if self.sock is None or self.peer_closed:
            return
        while True:
            try:
                b = self.sock.recv(65536)
            except (BlockingIOError, InterruptedError):
                return
            except OSError:
                self.peer_closed = True
                return
            if not b:
                self.peer_closed = True
                return
            self.rx += b

    def outq(self):
        return struct.unpack("i", fcntl.ioctl(self.sock.fileno(), termios.TIOCOUTQ, b"\0\0\0\0"))[0]

    def chunk(self, rng, left):
        f = self.frag
        if f == 0:
            return left
        if f == 1:
            return min(left, rng.randint(1, 3) if len(self.sent) < 400 else rng.randint(1, 4096))
        if f == 2:
            return min(left, rng.randint(1, 100) if len(self.sent) < 8000 else rng.randint(1, 65536))
        return min(left, rng.randint(1, 65536))

    def step(self, drv):
        """True: progress, False: blocked"""
        if self.k >= len(self.ops):
            self.done = True
            return True
        op = self.ops[self.k]
        o = op[0]
        nxt = False
        if o == "connect":
            if self.sock is None:
                self.sock = drv.srv.socket()
                self.sock.setblocking(False)
            e = self.sock.connect_ex(drv.srv.address())
            if e in (0, errno.EISCONN):
                nxt = True
            elif e in (errno.EAGAIN, errno.EINPROGRESS, errno.EALREADY, errno.EINTR):
                return False
            else:
                self.sock.close()
                self.sock = None
                lim = time.time() + 5       # (it may be exiting)
                while drv.srv.alive() and time.time() < lim:
                    time.sleep(0.005)
                if not drv.srv.alive():
                    self.peer_closed = self.done = True
                    return True
                raise Violation("refused", "client %d: connection refused (%s) by a running server" % (self.i, os.strerror(e)))
        elif o == "send" or o == "zeros":
            self.recv()
            if o == "send":
                b = op[1]
                left = len(b) - self.off
            else:
                b, left = drv.zeros, op[1] - self.off
            if left == 0:
                nxt = True
            elif self.peer_closed:
                self.done = True
                return True
            else:
                try:
                    if o == "send":
                        n = self.sock.send(b[self.off:self.off + self.chunk(drv.rng, left)])
                        self.sent += b[self.off:self.off + n]
                    else:
                        n = self.sock.send(b if left >= len(b) else b[:left])
                        self.zeros += n
                except (BlockingIOError, InterruptedError):
                    return False
                except OSError:
                    self.recv()
                    self.peer_closed = self.done = True
                    return True
                self.off += n
                nxt = self.off == (len(op[1]) if o == "send" else op[1])
        elif o == "reply":
            self.recv()
            t = self.types()
            if t is None or len(t) >= op[1]:
                nxt = True
            elif self.peer_closed:
                self.done = True
                return True
            else:
                return False
        elif o == "eof":
            self.recv()
            if not self.peer_closed:
                return False
            nxt = True
        elif o == "pause":
            self.off += 1
            nxt = self.off >= op[1]
            if drv.rng.random() < 0.01:
                time.sleep(0.001)
        elif o == "drained":
            if self.outq():
                return False
            nxt = True
        elif o == "hold":
            self.held = True
            nxt = True
        elif o == "release":
            self.held = False
            nxt = True
        elif o == "gate":
            self.recv()
            if self.peer_closed:
                self.done = True
                return True
            if op[1] not in drv.gates:
                return False
            nxt = True
        elif o == "stay":
            self.recv()
            self.staying = True
            if not self.peer_closed:
                return False
            nxt = True
        elif o == "half":
            try:
                self.sock.shutdown(socket.SHUT_WR)
            except OSError:
                pass
            nxt = True
        elif o in ("close", "rst"):
            self.recv()
            self.held = False
            if o == "rst":
                self.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            self.close()
            nxt = True
        if nxt:
            self.k += 1
            self.off = 0
            if self.k >= len(self.ops):
                self.done = True
        return True

    def close(self):
        self.held = False
        if self.sock is not None and not self.self_closed:
            self.sock.close()
            self.self_closed = True


class Driver:
    def __init__(self, srv, rng, clients, director=None, limit=None, on_turn=None):
        self.srv, self.rng, self.clients, self.limit = srv, rng, clients, limit
        self.gates = set()
        self.turns = 0
        self.maxheld = 0
        self.director = director
        self.dir_wait = None
        self.zeros = bytes(1 << 20)
        self.finished = False

    def run_director(self):
        while self.director is not None:
            if self.dir_wait is not None and not self.dir_wait():
                return
            try:
                self.dir_wait = next(self.director)
            except StopIteration:
                self.director = None
                self.dir_wait = None

    def after(self, n):
        t = self.turns + n
        return lambda: self.turns >= t or all(c.done or c.staying for c in self.clients)

    def watch(self):
        held = [c for c in self.clients if c.held]
        if len(held) > self.maxheld:
            self.maxheld = len(held)
            if self.limit and len(held) > self.limit:
                raise Violation("limit", "%d clients served at once (%s), the limit is %d" % (
                    len(held), ",".join(str(c.i) for c in held), self.limit))

    def run(self, until=None):
        """Until all clients are done or staying and the director is finished (or until())."""
        end = time.time() + TIMEOUT
        idle = 0
        while True:
            self.turns += 1
            self.run_director()
            if until is not None and until():
                return
            if not self.srv.alive():
                return
            live = [c for c in self.clients if not c.done and not (c.staying)]
            if not live and self.director is None:
                return
            progress = False
            if live:
                c = live[self.rng.randrange(len(live))]
                progress = c.step(self)
                if c.done and c.sock is not None and c.peer_closed:
                    c.close()
                self.watch()
            if progress:
                idle = 0
                end = time.time() + TIMEOUT
                continue
            idle += 1
            if idle > 3 * len(live) + 3:
                # nothing to do just now
                pl = select.poll()
                n = 0
                for c in live:
                    if c.sock is not None and not c.self_closed and c.sock.fileno() >= 0:
                        op = c.ops[c.k][0] if c.k < len(c.ops) else ""
                        if op in ("pause", "gate"):
                            continue
                        pl.register(c.sock.fileno(), select.POLLIN | (select.POLLOUT if op in ("send", "zeros", "connect") else 0))
                        n += 1
                pl.poll(2)
                if time.time() > end:
                    raise Stuck("no progress for %d s: %s" % (TIMEOUT, "; ".join(
                        "client %d (%s) waits for %s, got %s%s" % (c.i, c.label, c.ops[c.k][:1] + (c.ops[c.k][1:] if c.ops[c.k][0] not in ("send",) else ()),
                                                                 c.types(), ", closed" if c.peer_closed else "") for c in live[:4] if c.k < len(c.ops))
                        + (", director waits" if self.director is not None else "")))


# ---------------------------------------------------------------- oracles
def interleaves(out, seqs, need, cap=4000):
    """Is `out` an interleaving of prefixes of seqs, each at least need[i] long?
    Returns None if so, else a description."""
    states = {tuple([0] * len(seqs))}
    n = len(seqs)
    for j, f in enumerate(out):
        new = set()
        for st in states:
            for i in range(n):
                p = st[i]
                if p < len(seqs[i]) and seqs[i][p] == f:
                    new.add(st[:i] + (p + 1,) + st[i + 1:])
        if not new:
            where = [(i, [k for k, g in enumerate(s) if g == f][:3]) for i, s in enumerate(seqs) if f in s]
            pos = max(states, key=sum)
            return "stored frame %d (%d bytes, %s...) is not the next frame of any client (positions %s; clients that sent such a frame: %s)" % (
                j, len(f), f[:16].hex(), list(pos)[:16], where[:4] or "none")
        if len(new) > cap:
            return None
        states = new
    if any(all(st[i] >= need[i] for i in range(n)) for st in states):
        return None
    st = max(states, key=sum)
    miss = [(i, st[i], need[i]) for i in range(n) if st[i] < need[i]]
    return "%d of %d frames of client %d are missing although it received FINISH (or they had to be stored)" % (
        miss[0][2] - miss[0][1], miss[0][2], miss[0][0]) if miss else "frames missing in every consistent matching"


def judge_client(c, ct, hw, srv_stopped=False):
    """violations of the protocol towards one client; returns (model, required number of stored frames)"""
    m = fs.serve(bytes(c.sent), ct, hw)
    r = c.replies()
    if r is None:
        raise Violation("reply", "client %d (%s) received bytes that are no control frames: %s" % (c.i, c.label, bytes(c.rx[:64]).hex()))
    want = m.replies
    got = [t for t, _ in r]
    if got != want[:len(got)]:
        raise Violation("reply", "client %d (%s) received replies %s, only %s are due (%d bytes sent)" % (c.i, c.label, got, want, len(c.sent)))
    for t, cts in r:
        if t == fs.ACCEPT and cts != [ct]:
            raise Violation("accept", "client %d (%s): ACCEPT names %s instead of %s" % (c.i, c.label, cts, [ct]))
    return m, (len(m.stored) if fs.FINISH in got else 0)


def parse_out(b, ct, name, complete=True):
    p = fs.parse_stream(b)
    if p.error or p.unknown:
        raise Violation("output", "%s is malformed (%s) after %d frames, %d bytes" % (name, p.error or "extra control frames", len(p.frames), len(b)))
    if p.start and p.ct != ct:
        raise Violation("output", "%s has content type %r, not %r" % (name, p.ct, ct))
    if complete and not p.complete:
        raise Violation("output", "%s (%d bytes) does not end with STOP after %d frames" % (name, len(b), len(p.frames)))
    if p.rest:
        raise Violation("output", "%s has %d bytes after STOP" % (name, len(p.rest)))
    return p


# ---------------------------------------------------------------- generators
TYPES = [b"protobuf:dnstap.Dnstap", b"test:hello", b"x", b"a" * 256, b"type with spaces \"quotes\"", b"t\xc3\xa9st", b""]


def near(rng, ct):
    """a content type that is not ct but close to it"""
    k = rng.randrange(6)
    if k == 0:
        o = ct[:-1]
    elif k == 1:
        o = ct + b"x" if len(ct) < 256 else ct[:-1] + b"!"
    elif k == 2:
        o = bytes([ct[0] ^ 0x20]) + ct[1:] if ct else b"\0"
    elif k == 3:
        o = ct + b"\0" if len(ct) < 256 else ct[1:]
    elif k == 4:
        o = b""
    else:
        o = rng.choice(TYPES)
    return o if o != ct else b"other:" + ct[:100]


def ready_types(rng, ct, offer=True):
    """content types of a READY frame (fits 512 bytes)"""
    if offer and rng.random() < 0.15:
        return []
    l = [near(rng, ct) for _ in range(rng.choice([0, 0, 0, 1, 2, 5, 12, 20]))]
    if rng.random() < 0.1:
        l = [bytes([rng.randrange(256)]) for _ in range(rng.randint(10, 56))]
        l = [t for t in l if t != ct]
    if offer:
        l.insert(rng.randint(0, len(l)), ct)
    elif not l:
        l = [near(rng, ct)]
    while sum(8 + len(t) for t in l) + 4 > 512:
        k = rng.randrange(len(l))
        if offer and l[k] == ct and l.count(ct) == 1:
            if len(l) == 1:
                break
            continue
        del l[k]
    if not offer and not l:
        l = [b"no"]
    return l


def payload(rng, n):
    k = rng.random()
    if k < 0.70:
        return rng.randbytes(n)
    if k < 0.78:
        return bytes(n)
    if k < 0.86:
        return (fs.ctl(rng.choice([1, 2, 3, 4, 5]), [b"test:hello"][:rng.randint(0, 1)]) * (n // 12 + 1))[:n]
    if k < 0.94:
        return (fs.data(b"inner frame") * (n // 15 + 1))[:n]
    return (b"%d plain text frame. " % rng.randrange(1000) * (n // 16 + 1))[:n]


def size(rng, hw):
    m = hw - 4
    k = rng.random()
    if k < 0.45:
        n = rng.randint(1, 40)
    elif k < 0.65:
        n = rng.randint(1, 700)
    elif k < 0.78:
        n = m - rng.randint(0, 3)
    elif k < 0.88:
        n = (1 << rng.randint(0, 17)) + rng.randint(-5, 1)
    else:
        n = rng.randint(1, 20000)
    return max(1, min(n, m))


def frames(rng, hw, budget, n=None):
    out = []
    for _ in range(rng.choice([0, 1, 2, 5, 20, 60, 200]) if n is None else n):
        s = size(rng, hw)
        if s > budget:
            s = rng.randint(1, 30)
        budget -= s
        out.append(payload(rng, s))
        if rng.random() < 0.03:
            out.append(out[-1])      # duplicates are legitimate
    return out


def polite(rng, i, ct, hw, budget=200000, pause=0, fr=None, frag=None, eager=False, hold=False, end="eof", label="polite"):
    ops = []
    if pause:
        ops.append(("pause", rng.randint(0, pause)))
    ops.append(("connect",))
    ops.append(("send", fs.ctl(fs.READY, ready_types(rng, ct))))
    start = fs.ctl(fs.START, [ct] if rng.random() < 0.8 else [])
    if not eager:
        ops.append(("reply", 1))
    if hold:
        ops.append(("hold",))
    fr = frames(rng, hw, budget) if fr is None else fr
    ops.append(("send", start + b"".join(fs.data(f) for f in fr)))
    if hold:
        if hold != 1:
            ops.append(("gate", hold))
        else:
            ops.append(("pause", rng.randint(0, 60)))
        ops.append(("release",))
    ops.append(("send", fs.ctl(fs.STOP)))
    ops.append(("reply", 2))
    if end == "eof":
        ops.append(("eof",))
    ops.append(("close",))
    return Client(i, ops, rng.randrange(4) if frag is None else frag, label)


BAD_ORDER = ["ready-wrong-type", "start-wrong-type", "data-before-ready", "data-before-start", "data-after-stop",
             "start-first", "stop-first", "stop-before-start", "two-ready", "two-start", "accept-from-client", "finish-from-client",
             "ready-in-data", "control-after-stop", "start-after-stop", "malformed-ready", "malformed-start", "malformed-stop",
             "length-0", "length-3", "length-513", "length-huge", "start-two-types"]


def misuse(rng, i, ct, hw, kind=None):
    """A client that breaks the protocol at one point and then goes on as if nothing had happened."""
    kind = kind or rng.choice(BAD_ORDER)
    R = lambda ok=True: fs.ctl(fs.READY, ready_types(rng, ct, ok))
    S = lambda: fs.ctl(fs.START, [ct] if rng.random() < 0.8 else [])
    P = fs.ctl(fs.STOP)
    D = lambda n=None: b"".join(fs.data(f) for f in frames(rng, hw, 4000, n if n is not None else rng.randint(1, 6)))
    tail = S() + D() + P
    pre, bad, acc = b"", b"", True       # legal part, offending part, ACCEPT awaited after the READY in pre
    if kind == "ready-wrong-type":
        bad, acc = R(False) + tail, False
    elif kind == "start-wrong-type":
        pre, bad = R(), fs.ctl(fs.START, [near(rng, ct)]) + D() + P
    elif kind == "data-before-ready":
        bad, acc = D() + R() + tail, False
    elif kind == "data-before-start":
        pre, bad = R(), D() + tail
    elif kind == "data-after-stop":
        pre, bad = R() + S() + D() + P, D() + P
    elif kind == "start-first":
        bad, acc = S() + D() + P, False
    elif kind == "stop-first":
        bad, acc = P + R() + tail, False
    elif kind == "stop-before-start":
        pre, bad = R(), P + tail
    elif kind == "two-ready":
        pre, bad = R(), R() + tail
    elif kind == "two-start":
        pre, bad = R() + S() + D(), S() + D() + P
    elif kind == "accept-from-client":
        pre, bad = rng.choice([b"", R()]), fs.ctl(fs.ACCEPT, [ct]) + R() + tail
        acc = bool(pre)
    elif kind == "finish-from-client":
        pre, bad = rng.choice([R(), R() + S() + D()]), fs.ctl(fs.FINISH) + D() + P
    elif kind == "ready-in-data":
        pre, bad = R() + S() + D(), R() + D() + P
    elif kind == "control-after-stop":
        pre, bad = R() + S() + D() + P, rng.choice([P, R() + tail, fs.ctl(fs.FINISH)])
    elif kind == "start-after-stop":
        pre, bad = R() + S() + D() + P, S() + D() + P
    elif kind == "malformed-ready":
        bad, acc = rng.choice([fs.ctl(fs.READY, [ct], b"\0\0\0\1"), fs.ctl(fs.READY, [ct], b"\0\0\0\2\0\0\0\0"),
                               fs.ctl(fs.READY, [], b"\0\0\0\1\0\0\1\0abc"), fs.ctl(fs.READY, [], b"\0")]) + tail, False
    elif kind == "malformed-start":
        pre, bad = R(), rng.choice([fs.ctl(fs.START, [ct], b"\0\0\0"), fs.ctl(fs.START, [], b"\0\0\0\7\0\0\0\0"), fs.ctl(fs.START, [], b"\0\0\0\1\xff\xff\xff\xff" + ct)]) + D() + P
    elif kind == "malformed-stop":
        pre, bad = R() + S() + D(), rng.choice([fs.ctl(fs.STOP, [ct]), fs.ctl(fs.STOP, [], b"\1")]) + D() + P
    elif kind.startswith("length-"):
        n = {"length-0": 0, "length-3": rng.randint(1, 3), "length-513": 513, "length-huge": rng.choice([514, 520, 521, 1024, 65536, 2**31 - 1, 2**31, 2**32 - 8, 2**32 - 4, 2**32 - 1])}[kind]
        pre = rng.choice([b"", R(), R() + S() + D()])
        acc = bool(pre)
        t = {0: fs.READY, 1: fs.START}.get(0 if not pre else 1, fs.STOP)
        if len(pre) > 600:
            t = fs.STOP
        bad = fs.be32(0) + fs.be32(n) + (fs.be32(t) + bytes(600))[:max(n, 0) if n < 600 else 600] + tail
    elif kind == "start-two-types":
        pre, bad = R(), fs.ctl(fs.START, [ct, near(rng, ct)][:: rng.choice([1, -1])]) + D() + P
    ops = [("connect",)]
    polite_so_far = acc and rng.random() < 0.7
    if pre:
        # the READY frame first, then possibly wait for ACCEPT
        n = 8 + fs.u32(pre, 4)
        ops.append(("send", pre[:n]))
        if polite_so_far:
            ops.append(("reply", 1))
        ops.append(("send", pre[n:] + bad if rng.random() < 0.5 else pre[n:]))
        if len(ops[-1][1]) == len(pre) - n:
            if rng.random() < 0.3 and "after-stop" not in kind:
                ops.append(("pause", rng.randint(1, 20)))
            ops.append(("send", bad))
    else:
        ops.append(("send", bad))
    ops.append(("eof",))
    ops.append(("close",))
    return Client(i, ops, rng.randrange(4), kind)
