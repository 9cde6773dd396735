"""Scenarios with everything real: programs with I/O threads (harness/e2e.c), fstrm_capture, fstrm_replay and
fstrm_dump.  P33: delivery; P34: collectors that come and go."""
import functools
import os
import random
import shutil
import signal
import struct
import subprocess
import time
import fs
import core
import capture as cap
from capture import Violation, Stuck
from scen import Case, wait_file

LIMIT = 60


@functools.lru_cache(None)
def table():
    x, t = 12345, bytearray()
    for _ in range(65536):
        x = (x * 1664525 + 1013904223) & 0xffffffff
        t.append(x >> 24)
    return bytes(t) * 2


def make(proc, prod, seq, small, big, maxlen, salt):
    M = 0xffffffff
    h = (seq * 2654435761 + prod * 40503 + proc * 97 + salt) & M
    h ^= h >> 15
    h = h * 2246822519 & M
    h ^= h >> 13
    k = h >> 28
    n = (h >> 8) % (small if k < 10 else min(1000, big) if k < 15 else big)
    ln = min(16 + n, maxlen)
    o = h >> 5 & 65535
    return b"P%02d.%02d.%08d|" % (proc, prod, seq) + table()[o:o + ln - 16]


class Prog:
    """One submitting program."""
    def __init__(self, c, exe, proc, addr, port, **kw):
        r = c.rng
        self.c, self.proc = c, proc
        self.big = r.choice([100, 2000, 2000, 60000])
        self.small = r.choice([1, 8, 64, 64])
        if self.small == 1 and r.random() < 0.7:
            self.big = 1        # all of the smallest kind
        if kw.get("burst"):
            self.small = self.big = 1
        self.maxlen = min(c.hw - 4, 65536) if r.random() < 0.7 else min(c.hw - 4, r.randint(100, 5000))
        self.salt = r.randrange(1 << 30)
        mpsc = r.random() < 0.5
        self.nq = r.choice([1, 1, 2, 3, 8])
        self.nprod = r.choice([1, 2, 4, 6]) if mpsc else self.nq
        self.retry = kw.get("retry", 1)
        if mpsc:
            self.nq = min(self.nq, self.nprod)
        self.log = c.d + "/log%d" % proc
        self.page = c.d + "/prog%d" % proc
        with open(self.page, "wb") as f:
            f.write(bytes(4096))
        a = dict(proc=proc, producers=self.nprod, queues=self.nq, mpsc=int(mpsc), net="unix" if c.net == "unix" else "tcp", addr=addr, port=port, ct=c.ct.decode("latin1"),
                 small=self.small, big=self.big, maxlen=self.maxlen, salt=self.salt, retry=self.retry, log=self.log, page=self.page, free=r.choice([0, 1, 1]),
                 pace=r.choice([0, 1, 5, 50, 500]), count=kw.get("count", 100), untilstop=int(kw.get("untilstop", False)), byindex=r.choice([0, 1]),
                 buffer_hint=r.choice([1024, 8192, 65536, r.randint(1024, 65536)]), flush_timeout=r.choice([1, 1, 2, 10]),
                 input_queue_size=1 << r.randint(1, 11), output_queue_size=r.choice([2, 3, 64, 1024, r.randint(2, 1024)]), reopen_interval=r.choice([1, 1, 2, 5]))
        a["queue_notify_threshold"] = r.choice([1, 32, max(1, a["input_queue_size"] // 2), a["input_queue_size"] - 1])
        if kw.get("burst"):
            a.update(pace=0, input_queue_size=2048, output_queue_size=1024, buffer_hint=65536, queue_notify_threshold=r.choice([32, 1024]))
        if not a["untilstop"]:
            # (a queue never signalled is emptied at flush timeouts)
            a["count"] = min(a["count"], a["input_queue_size"] * 40 // a["flush_timeout"])
        if "net" in kw:
            a["net"] = kw["net"]
        if "pace" in kw:
            a["pace"] = kw["pace"]
        self.a = a
        self.errf = open(c.d + "/perr%d" % proc, "wb")
        self.p = subprocess.Popen([os.fsencode(exe)] + [b"%s=%s" % (k.encode(), str(v).encode("latin1")) for k, v in a.items()], stdin=subprocess.PIPE, stdout=self.errf, stderr=self.errf,
                                  env=core.san_env(), cwd=c.d, preexec_fn=lambda: signal.signal(signal.SIGPIPE, signal.SIG_DFL), restore_signals=False)
        self.rc = None
        self.acc = None

    def accepted(self):
        with open(self.page, "rb") as f:
            return struct.unpack("<%dQ" % self.nprod, f.read(8 * self.nprod))

    def stop(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass

    def wait(self, killed=False):
        try:
            self.rc = self.p.wait(LIMIT)
        except subprocess.TimeoutExpired:
            raise Stuck("program %d does not end, %s payloads accepted [%s]" % (self.proc, self.accepted(), self.a))
        err = open(self.c.d + "/perr%d" % self.proc, errors="replace").read()
        if core.LSAN_FATAL in err:
            raise core.CheckError("LeakSanitizer cannot run: " + err[-500:])
        s = core.san_summary(err)
        if s:
            raise Violation("crash", "submitting program: " + s)
        if self.rc == 4:
            raise Violation("program", err.strip()[-300:])
        if self.rc != (-signal.SIGKILL if killed else 0):
            raise Violation("program", "submitting program %d ended with %s: %s" % (self.proc, self.rc, err[-300:]))
        if killed:
            return
        b = open(self.log, "rb").read()
        self.acc, o = [], 0
        for _ in range(self.nprod):
            n = struct.unpack_from("<I", b, o)[0]
            self.acc.append(list(struct.unpack_from("<%dI" % n, b, o + 4)))
            o += 4 + 4 * n

    def cleanup(self):
        if self.p.poll() is None:
            self.p.kill()
            self.p.wait()
        self.stop()
        self.errf.close()


def sort_out(c, progs, fr, where):
    """the sequence numbers stored of each producer, in the order stored; payloads compared"""
    by = {(p.proc, i): [] for p in progs for i in range(p.nprod)}
    pr = {p.proc: p for p in progs}
    for f in fr:
        try:
            if f[:1] != b"P" or f[15:16] != b"|":
                raise ValueError
            k, seq = (int(f[1:3]), int(f[4:6])), int(f[7:15])
            p = pr[k[0]]
            by[k].append(seq)
        except (ValueError, KeyError):
            raise Violation("foreign", "%s holds a frame nobody submitted: %r" % (where, f[:60]))
        if f != make(k[0], k[1], seq, p.small, p.big, p.maxlen, p.salt):
            raise Violation("modified", "%s: payload %d of producer %s has been modified (%d bytes: %r)" % (where, seq, k, len(f), f[:60]))
    return by


def first_diff(a, b):
    n = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), min(len(a), len(b)))
    return "from position %d on: stored %s, submitted %s (%d and %d in all)" % (n, a[n:n + 4], b[n:n + 4], len(a), len(b))


def address(srv):
    return (srv.sockpath, 0) if srv.net == "unix" else (srv.ip, srv.port)


def scen_p33(c):
    r = c.rng
    if r.random() < 0.5:
        c.bufsize(0.3)
    kw = {}
    mode = r.choice(["plain", "plain", "rotate", "stdout"])
    if mode == "stdout":
        c.outf = open(c.d + "/stdout", "wb")
        kw = dict(out="-", stdout=c.outf)
    c.start(**kw)
    addr, port = address(c.srv)
    nproc = r.choice([1, 1, 2, 3, 5])
    total = r.choice([50, 1000, 5000, 20000])
    lng = r.random() < 0.02 or c.case == 1
    if lng:
        total = 200000
        c.count("long-runs")
    burst = c.case == 2 or r.random() < 0.04
    if burst and total < 5000:
        total = 20000
    progs = c.progs = []
    victims = []
    for i in range(nproc):
        pace = {} if not lng else {"pace": 0}
        if burst:
            pace["burst"] = True
        progs.append(Prog(c, c.exes["e2e"], i, addr, port, count=max(1, total // nproc // 4), retry=int(r.random() < 0.8), **pace))
        if r.random() < 0.15:
            victims.append(i)
    moved = []
    end, before = time.time() + LIMIT, None
    nrot = r.randint(1, 5) if mode == "rotate" else 0
    if burst:
        # very many frames of the shortest kind wait for a server that stands still
        while not any(any(p.accepted()) for p in progs) and time.time() < end:
            time.sleep(0.001)
        c.srv.p.send_signal(signal.SIGSTOP)
        before = None
        while before != [p.accepted() for p in progs] and time.time() < end:
            before = [p.accepted() for p in progs]
            time.sleep(0.05)
        c.srv.p.send_signal(signal.SIGCONT)
        c.count("bursts")
    # meanwhile
    while any(p.p.poll() is None for p in progs):
        time.sleep(r.choice([0.0005, 0.002, 0.01, 0.03]))
        now = [p.accepted() for p in progs] + [p.p.poll() for p in progs]
        if now != before:
            end, before = time.time() + LIMIT, now
        if time.time() > end:
            raise Stuck("programs do not end: accepted %s" % [p.accepted() for p in progs])
        k = r.random()
        if nrot and k < 0.4:
            nrot -= 1
            os.rename(c.d + "/out", c.d + "/out.%d" % len(moved))
            moved.append("out.%d" % len(moved))
            c.srv.kill(signal.SIGUSR1)
            w = wait_file(c.d + "/out")
            while not w():
                if not c.srv.alive():
                    break
                if time.time() > end:
                    raise Stuck("no rotation")
                time.sleep(0.001)
            c.count("rotations")
        elif k < 0.5:
            c.srv.kill(signal.SIGHUP)
            c.count("flush-requests")
        elif k < 0.6:
            c.srv.p.send_signal(signal.SIGSTOP)
            time.sleep(r.choice([0.001, 0.02, 0.1]))
            c.srv.p.send_signal(signal.SIGCONT)
            c.count("server-paused")
        elif k < 0.65:
            p = r.choice(progs)
            if p.p.poll() is None:
                p.p.send_signal(signal.SIGSTOP)
                time.sleep(r.choice([0.001, 0.02]))
                p.p.send_signal(signal.SIGCONT)
        elif k < 0.75 and victims:
            p = progs[victims.pop()]
            if p.p.poll() is None:
                p.p.kill()
                p.killed = True
                c.count("programs-killed")
    for p in progs:
        p.wait(killed=getattr(p, "killed", False) and p.p.poll() != 0)
        c.count("programs")
        c.count("programs-over-" + c.net)
        c.count("lock-queues" if p.a["mpsc"] else "barrier-queues")
    if not c.srv.alive():
        c.reap()
        raise Violation("exit", "the server ended by itself")
    c.stop()
    names = moved + (["out"] if mode != "stdout" else ["stdout"])
    bufs = [(n, c.read(n)) for n in names]
    fr, per = [], []
    for n, b in bufs:
        per.append(cap.parse_out(b, c.ct, n).frames)
        fr += per[-1]
    by = sort_out(c, progs, fr, "the output")
    for p in progs:
        for i in range(p.nprod):
            got = by[(p.proc, i)]
            if p.acc is None:
                # killed: a beginning of what it submitted (of all, if it repeated refused submissions)
                if got != sorted(set(got)) or (p.retry and got != list(range(len(got)))):
                    raise Violation("order", "killed program %d, producer %d: %s" % (p.proc, i, first_diff(got, list(range(len(got))))))
                continue
            if got != p.acc[i]:
                raise Violation("delivery", "program %d, producer %d: %s [%s]" % (p.proc, i, first_diff(got, p.acc[i]), p.a))
            if p.retry and len(p.acc[i]) != p.a["count"]:
                raise Violation("program", "producer stopped early")
            c.count("refused-submissions", p.a["count"] - len(p.acc[i]))
    c.count("payloads-delivered", len(fr))
    for f in fr[:400]:
        c.hash.update(f[:16])
    c.sample = "%s, %d programs, %d files, %d payloads" % (c.net, nproc, len(bufs), len(fr))
    # the tools on what was written
    if r.random() < 0.7 and not lng:
        n, b = r.choice(bufs)
        pr = subprocess.run([c.exes["dump"], c.d + "/" + n, c.d + "/copy"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=core.san_env(), cwd=c.d, timeout=LIMIT)
        if core.san_summary(pr.stderr.decode("latin1")):
            raise Violation("crash", core.san_summary(pr.stderr.decode("latin1")))
        if pr.returncode:
            raise Violation("dump", "fstrm_dump exits with %d on a file of fstrm_capture" % pr.returncode)
        if cap.parse_out(c.read("copy"), c.ct, "copy").frames != per[names.index(n)]:
            raise Violation("dump", "the copy made by fstrm_dump holds other frames")
        c.count("files-dumped")
    if r.random() < 0.7 and not lng:
        c.srv.cleanup()
        replay(c, names, fr)


def replay(c, names, fr):
    """all files, in order, through fstrm_replay into another server"""
    r = c.rng
    os.makedirs(c.d + "/second")
    d, c.d = c.d, c.d + "/second"
    try:
        c.net = r.choice(["unix", "tcp4", "tcp6"])
        c.start()
        a = ["-u", c.srv.sockpath] if c.net == "unix" else ["-a", c.srv.ip, "-p", str(c.srv.port)]
        pr = subprocess.run([c.exes["replay"], "-t", c.ct.decode("latin1").encode("latin1")] + [x for n in names for x in ("-r", d + "/" + n)] + a, stdin=subprocess.DEVNULL,
                            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=core.san_env(), cwd=c.d, timeout=LIMIT)
        s = core.san_summary(pr.stderr.decode("latin1"))
        if s:
            raise Violation("crash", s)
        if pr.returncode:
            raise Violation("replay", "fstrm_replay exits with %d: %s" % (pr.returncode, pr.stderr.decode("latin1")[-300:]))
        c.stop()
        got = cap.parse_out(c.read("out"), c.ct, "second output").frames
        if got != fr:
            raise Violation("replay", "%d frames replayed, the second server stored %d; first difference at %d" % (len(fr), len(got), next((i for i in range(min(len(fr), len(got))) if fr[i] != got[i]), -1)))
        c.count("replays")
        c.count("frames-replayed", len(fr))
    except subprocess.TimeoutExpired:
        raise Stuck("fstrm_replay does not end")
    finally:
        c.d = d


def scen_p34(c):
    r = c.rng
    if r.random() < 0.15:
        return scen_fifo(c)
    c.bufsize(0.6)
    nproc = r.choice([1, 1, 2, 4])
    nlives = r.choice([2, 3, 3, 5, 8])
    late = r.random() < 0.3          # programs before the first server
    sock = c.d + "/s"
    lives, args = [], list(c.args)
    addr = None
    progs = c.progs = []

    def programs():
        for i in range(nproc):
            a = (sock, 0) if c.net == "unix" else addr
            progs.append(Prog(c, c.exes["e2e"], i, a[0], a[1], count=10**7, untilstop=True, retry=0, pace=r.choice([0, 1, 1, 3])))
    top = c.d
    for life in range(nlives):
        last = life == nlives - 1
        c.d = "%s/life%d" % (top, life)
        os.makedirs(c.d)
        if life == 0 and late and c.net == "unix":
            c.d = top
            programs()
            c.d = "%s/life%d" % (top, life)
            time.sleep(r.choice([0.01, 0.1]))
            c.count("programs-first")
        if addr is None:
            c.start(sock=sock) if c.net == "unix" else c.start()
            addr = address(c.srv)
        else:
            kw = dict(sock=sock) if c.net == "unix" else dict(addr=addr)
            if not again(c, kw):
                raise Violation("restart", "the server cannot be started again at the same place: %s" % c.srv.stderr()[-300:])
        if not progs:
            c.d = top
            programs()
            c.d = "%s/life%d" % (top, life)
        # until frames of every program arrive
        end = time.time() + LIMIT
        some = set(p.proc for p in progs)
        if not last and r.random() < 0.3:
            some = set()             # an early end, also amid handshakes
            c.count("early-ends")
        while some:
            c.srv.kill(signal.SIGHUP)
            time.sleep(0.005)
            for p in progs:
                if p.p.poll() is not None:
                    p.wait()
                    raise Violation("program", "program %d ended by itself" % p.proc)
            try:
                with open(c.d + "/out", "rb") as f:
                    b = f.read()
            except OSError:
                b = b""
            some = {k for k in some if b"P%02d." % k not in b}
            if some and not c.srv.alive():
                c.reap()
                raise Violation("exit", "the server ended by itself")
            if some and time.time() > end:
                raise Stuck("programs %s deliver nothing %d s after the server's return (reopen intervals %s); accepted %s" % (sorted(some), LIMIT, [p.a["reopen_interval"] for p in progs], [p.accepted() for p in progs]))
            if some:
                time.sleep(0.01)
            else:
                c.count("resumptions", len(progs) if life else 0)
        time.sleep(r.choice([0, 0.001, 0.01, 0.05]))
        if last:
            c.d = top
            break
        how = r.choice(["TERM", "TERM", "INT", "KILL", "KILL", "stall", "dry", "dry"])
        if how == "dry":
            # the socket is full when the programs stop; the server reads all that has arrived, also parts of frames, and ends
            c.srv.p.send_signal(signal.SIGSTOP)
            before, end = None, time.time() + 5
            while before != [p.accepted() for p in progs] and time.time() < end:
                before = [p.accepted() for p in progs]
                time.sleep(0.05)
                if not any(p.a["pace"] == 0 for p in progs):
                    break
            for p in progs:
                p.p.send_signal(signal.SIGSTOP)
            c.srv.p.send_signal(signal.SIGCONT)
            size, still = -1, 0
            while still < 3 and c.srv.alive() and time.time() < end:
                c.srv.kill(signal.SIGHUP)
                time.sleep(0.03)
                n = os.path.getsize(c.d + "/out") if os.path.exists(c.d + "/out") else 0
                still = still + 1 if n == size else 0
                size = n
        if how == "stall":
            c.srv.p.send_signal(signal.SIGSTOP)
            time.sleep(r.choice([0.02, 0.2]))
            c.srv.p.kill()
            c.srv.p.wait()
        elif how == "KILL":
            c.srv.p.kill()
            c.srv.p.wait()
        else:
            c.srv.set(no_leaks=1)
            c.srv.kill(signal.SIGTERM if how == "TERM" else signal.SIGINT)
            c.reap()
        c.count("ended-by-" + how)
        c.srv.cleanup()
        if how == "dry":
            for p in progs:
                p.p.send_signal(signal.SIGCONT)
        lives.append((c.d, how))
        c.d = top
        time.sleep(r.choice([0, 0, 0.01, 0.1]))
    for p in progs:
        p.stop()
    for p in progs:
        p.wait()
        c.count("programs")
    c.d = "%s/life%d" % (top, nlives - 1)
    c.stop()
    lives.append((c.d, "end"))
    c.d = top
    n = judge_lives(c, progs, lives)
    c.count("payloads-stored", n)
    c.count("payloads-accepted", sum(len(a) for p in progs for a in p.acc))
    c.count("lives", nlives)
    c.sample = "%s, %d programs, server lives: %s; %d of %d accepted payloads stored" % (c.net, nproc, [h for _, h in lives], n, sum(len(a) for p in progs for a in p.acc))


def judge_lives(c, progs, lives):
    """lives: (directory with the output, how it ended) in order"""
    seen = {}
    n = 0
    for j, (d, how) in enumerate(lives):
        try:
            with open(d + "/out", "rb") as f:
                b = f.read()
        except OSError:
            b = b""
        if how in ("KILL", "stall") and not b:
            continue
        fr = cap.parse_out(b, c.ct, "output %d" % j, how not in ("KILL", "stall")).frames
        n += len(fr)
        by = sort_out(c, progs, fr, "output %d" % j)
        for p in progs:
            for i in range(p.nprod):
                got, acc = by[(p.proc, i)], p.acc[i]
                who = "output %d (server ended by %s), program %d, producer %d" % (j, how, p.proc, i)
                if not got:
                    if how == "end" and acc and i == 0 and not any(by[(p.proc, q)] for q in range(p.nprod)):
                        raise Violation("resume", who + ": nothing stored")
                    continue
                if got[0] <= seen.get((p.proc, i), -1):
                    raise Violation("twice", "%s: payload %d stored after payload %d of an earlier connection" % (who, got[0], seen[(p.proc, i)]))
                bisect(acc, got[0])
                if len(got) > 1:
                    # (the first may have waited in the output queue since an earlier connection)
                    pos = bisect(acc, got[1])
                    want = acc[pos:] if how == "end" else acc[pos:pos + len(got) - 1]
                    if got[1] <= got[0] or got[1:] != want:
                        raise Violation("gap", "%s: %s" % (who, first_diff(got[1:], want)))
                seen[(p.proc, i)] = got[-1]
        for f in fr[:50]:
            c.hash.update(f[:16])
    return n


def scen_fifo(c):
    """The output is a named pipe whose readers come and go."""
    r = c.rng
    nlives = r.choice([2, 3, 3, 5])
    fifo = c.d + "/fifo"
    os.mkfifo(fifo)
    p = Prog(c, c.exes["e2e"], 0, fifo, 0, count=10**7, untilstop=True, retry=0, pace=r.choice([0, 1, 1, 3]), net="file")
    c.progs = [p]
    lives = []

    def alive():
        if p.p.poll() is not None:
            p.wait()
            raise Violation("program", "the program ended by itself")

    def connected():
        d = "/proc/%d/fd" % p.p.pid
        for x in os.listdir(d):
            try:
                if os.readlink(d + "/" + x) == fifo:
                    return True
            except OSError:
                pass
        return False
    for life in range(nlives):
        last = life == nlives - 1
        d = "%s/life%d" % (c.d, life)
        os.makedirs(d)
        fd = os.open(fifo, os.O_RDONLY | os.O_NONBLOCK)
        b, want, end, over = bytearray(), r.choice([1, 100, 5000, 70000, r.randint(1, 300000)]), time.time() + LIMIT, False
        try:
            while True:
                try:
                    x = os.read(fd, r.choice([1, 10, 1000, 65536]) if not last else 65536)
                except BlockingIOError:
                    x = None
                if x:
                    b += x
                elif x == b"" and b:
                    break           # the stream has ended
                else:
                    time.sleep(0.001)
                if len(b) >= want and (b"P00." in b or not last and want < 100):
                    if not last:
                        break
                    if not over:
                        over = True
                        p.stop()
                        end = time.time() + LIMIT
                if not over:
                    alive()
                if time.time() > end:
                    raise Stuck("%s %d s after a reader came (%d bytes so far, reopen interval %s); accepted %s" % ("the program does not end its stream" if over else "the program delivers nothing", LIMIT, len(b), p.a["reopen_interval"], p.accepted()))
        finally:
            os.close(fd)
        if not last:
            # until the loss of the reader has been noticed
            while connected():
                alive()
                if time.time() > end:
                    raise Stuck("the program keeps a pipe open that nobody reads")
                time.sleep(0.001)
            alive()
            c.count("broken-pipes")
            time.sleep(r.choice([0, 0, 0.01, 0.1]))
        with open(d + "/out", "wb") as f:
            f.write(b)
        lives.append((d, "end" if last else "KILL"))
    p.wait()
    c.count("programs")
    n = judge_lives(c, [p], lives)
    c.count("payloads-stored", n)
    c.count("payloads-accepted", sum(len(a) for a in p.acc))
    c.sample = "named pipe, %d readers in turn; %d of %d accepted payloads received" % (nlives, n, sum(len(a) for a in p.acc))


def bisect(a, x):
    import bisect as m
    k = m.bisect_left(a, x)
    if k == len(a) or a[k] != x:
        raise Violation("foreign", "payload %d is stored, but its submission was refused" % x)
    return k


def again(c, kw):
    """another server at the same place"""
    r = c.rng
    shim = (r.randrange(1, 1 << 30), r.choice([0, 100, 400, 800]), r.choice([0, 0, 300]), r.choice([0, 300, 700]), 0)
    if r.random() < 0.3:
        with open(c.d + "/out", "wb") as f:
            f.write(c.junk(r))
    c.srv = cap.Server(c.exe, c.d, c.ct.decode("latin1").encode("latin1"), c.args, c.net, shim=shim, **kw)
    return c.srv.wait_ready()


SCEN = {"P33": scen_p33, "P34": scen_p34}


def run_case(pid, exes, root, case, seed, keep=False):
    for attempt in range(2):
        c = Case(pid, exes["capture"], root, case, seed)
        c.exes = exes
        c.sample, c.progs = None, []
        top = c.d
        # the programs pass types as strings
        while b"\0" in c.ct or not c.ct:
            c.ct = c.rng.choice(cap.TYPES)
        v = []
        try:
            SCEN[pid](c)
        except Violation as e:
            v.append((e.kind, "%s [%s, buffer %d]" % (e, c.net, c.hw)))
        except Stuck as e:
            v.append(("hang", "%s [%s, buffer %d]" % (e, c.net, c.hw)))
        finally:
            for p in c.progs:
                if v and v[0][0] != "crash" and p.p.poll() not in (None, 0, -9):
                    s = core.san_summary(open(top + "/perr%d" % p.proc, errors="replace").read())
                    if s:
                        v = [("crash", s)]
                p.cleanup()
            if c.srv is not None:
                if v and v[0][0] not in ("hang", "crash") and not c.srv.p.poll() is None and not c.srv.errf.closed:
                    s = core.san_summary(c.srv.stderr())
                    if s:
                        v = [("crash", s)]
                if not c.srv.errf.closed:
                    c.result()
                    c.srv.cleanup()
            if getattr(c, "outf", None):
                c.outf.close()
            if not keep:
                shutil.rmtree(top, ignore_errors=True)
        if v and v[0][0] == "hang" and attempt == 0:
            continue
        if attempt == 1 and not v:
            c.count("inconclusive-timeouts")
        break
    return dict(violations=v, counters=c.counters, hash=c.hash.hexdigest()[:16], sample=c.sample if case % 29 == 5 else None)
