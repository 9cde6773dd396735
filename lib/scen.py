"""Scenarios for fstrm_capture, one generator per property (P20 to P26)."""
import errno
import hashlib
import os
import random
import resource
import shutil
import signal
import socket
import struct
import subprocess
import threading
import time
import fs
import core
import capture as cap
from capture import Client, Violation, Stuck, polite, misuse, frames, payload, size

BASE_FDS = {}


class Case:
    """One run: configuration, server, clients, verdict."""
    def __init__(self, pid, exe, root, case, seed):
        self.pid, self.exe, self.case, self.seed = pid, exe, case, seed
        self.rng = random.Random("%s/%d/%d" % (pid, seed, case))
        self.d = os.path.join(root, "c%d" % case)
        os.makedirs(self.d)
        self.counters = {}
        self.srv = None
        self.tags = []
        self.net = self.rng.choice(["unix", "unix", "tcp4", "tcp6"])
        self.ct = self.rng.choice(cap.TYPES)
        self.hw = 262144
        self.args = []
        self.clients = []
        self.hash = hashlib.sha1()
        self.may_die = False

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def bufsize(self, p_default=0.4):
        r = self.rng
        if r.random() < p_default:
            return
        b = r.choice([1, 519, 520, 521, 600, 1024, 4095, 4096, 4097, 8192, r.randint(520, 5000), 65536, r.randint(5000, 300000)])
        self.args += [r.choice(["-b", "--buffersize"]), str(b)]
        self.hw = max(b, 520)

    def junk(self, r):
        n = r.choice([1, 100, 5000, 100000])
        return r.choice([b"older contents ", fs.ctl(fs.START, [self.ct]) + fs.data(b"old frame"), fs.data(b"old frame")]) * (n // 10 + 1)

    def start(self, **kw):
        """Starts the server and waits until it listens."""
        r = self.rng
        if "out" not in kw and r.random() < 0.3:
            # an older, possibly longer file is in the way
            with open(self.d + "/out", "wb") as f:
                f.write(self.junk(r))
            self.count("output-files-in-the-way")
        if len(self.clients) < 100 and not kw.get("may_fail") and r.random() < 0.12:
            # what is said about it changes nothing
            self.args = self.args + ["-d"] * r.choice([1, 2, 3, 4, 5, 6])
            self.count("verbose-servers")
        shim = kw.pop("shim", None) or (r.randrange(1, 1 << 30), r.choice([0, 100, 400, 800]), r.choice([0, 0, 300]), r.choice([0, 300, 700]), kw.pop("p_accept", 0))
        for attempt in range(5):
            addr = None
            if self.net == "tcp4":
                addr = ("127.%d.%d.%d" % (r.randint(1, 250), r.randint(0, 250), r.randint(1, 250)), r.randint(10000, 30000))
            elif self.net == "tcp6":
                addr = ("::1", 10000 + (os.getpid() % 37) * 600 + r.randint(0, 599))
            self.srv = cap.Server(self.exe, self.d, self.ct.decode("latin1").encode("latin1"), self.args, self.net, shim=shim, addr=addr, **kw)
            if kw.get("may_fail"):
                return True
            if self.srv.wait_ready():
                return True
            err = self.srv.stderr()
            s = core.san_summary(err)
            if s:
                raise Violation("crash", s)
            if self.net != "unix" and "event loop" in err:
                self.srv.cleanup()      # the port is taken
                continue
            return False
        raise core.CheckError("no free TCP port found")

    def drive(self, director=None, limit=None, until=None, clients=None):
        self.drv = cap.Driver(self.srv, self.rng, self.clients if clients is None else clients, director, limit)
        self.drv.run(until)
        if not self.srv.alive() and not self.may_die:
            self.reap()
            raise Violation("exit", "the server ended by itself")
        return self.drv

    def base_fds(self, key):
        """descriptors of an idle server of this kind"""
        if key not in BASE_FDS:
            end = time.time() + 3
            n, since = -1, time.time()
            while time.time() < end and time.time() - since < 0.25:
                m = self.srv.nfds()
                if m != n:
                    n, since = m, time.time()
                time.sleep(0.01)
            BASE_FDS[key] = n
        return BASE_FDS[key]

    def settle(self, base):
        """All clients are gone: the server must get rid of their descriptors."""
        end = time.time() + cap.LONG
        while True:
            n = self.srv.nfds()
            if n == base or not self.srv.alive():
                return
            if time.time() > end:
                raise Violation("descriptors", "%d descriptors open after all clients are gone, an idle server has %d" % (n, base))
            time.sleep(0.002)

    def stop(self, sig=None, clean=False):
        self.srv.set(no_leaks=0 if clean else 1)
        self.srv.kill(sig or self.rng.choice([signal.SIGTERM, signal.SIGTERM, signal.SIGINT]))
        return self.reap()

    def reap(self, expect=0):
        rc = self.srv.wait()
        err = self.srv.stderr()
        s = core.san_summary(err)
        if core.LSAN_FATAL in err:
            raise core.CheckError("LeakSanitizer cannot run: " + err[-500:])
        if s:
            raise Violation("crash", s + " :: " + err[-1500:])
        if expect is not None and rc != expect:
            raise Violation("exit", "exit status %s, stderr: %s" % (rc, err[-300:]))
        return rc

    def judge(self, bufs, killed=False, need=None, complete=True):
        """bufs: list of (name, bytes) in rotation order"""
        out = []
        for j, (name, b) in enumerate(bufs):
            p = cap.parse_out(b, self.ct, name, complete and not (killed and j == len(bufs) - 1))
            out += p.frames
        seqs, req = [], []
        for c in self.clients:
            m, n = cap.judge_client(c, self.ct, self.hw)
            seqs.append(m.stored)
            req.append(n)
            self.count("frames-sent", len(m.stored))
            self.count("oversized-frames-sent", m.skipped)
            if c.rx:
                self.count("accepted-clients")
            if n or (c.types() or [])[-1:] == [fs.FINISH]:
                self.count("finished-clients")
        if killed:
            req = [0] * len(seqs)
        if need is not None:
            req = need
        e = cap.interleaves(out, seqs, req)
        if e:
            raise Violation("frames", "%s (%d frames stored)" % (e, len(out)))
        self.count("frames-stored", len(out))
        for f in out:
            self.hash.update(f[:24])
        return out

    def result(self):
        st = self.srv.stats() if self.srv is not None else {}
        self.count("injected", st.get("injected", 0))
        return st

    def read(self, name):
        with open(os.path.join(self.d, name), "rb") as f:
            return f.read()

    def output(self):
        """Chooses between a file and standard output; returns keyword arguments for start()."""
        k = self.rng.randrange(6)
        if k == 0:
            self.outname = "stdout"
            self.outf = open(self.d + "/stdout", "wb")
            return dict(out="-", stdout=self.outf)
        self.outname = "out"
        return {}


STORES_NOTHING = ["ready-wrong-type", "data-before-ready", "start-first", "stop-first", "stop-before-start", "malformed-ready", "data-before-start",
                  "two-ready", "start-wrong-type", "malformed-start", "start-two-types"]


def unique(c, i, n=None, **kw):
    """A correct client whose frames are like no others."""
    return polite(c.rng, i, c.ct, c.hw, fr=[b"client %d frame %d" % (i, j) for j in range(c.rng.randint(1, 3) if n is None else n)], **kw)


def scen_p20(c):
    r = c.rng
    c.bufsize()
    kw = c.output()
    n = r.choice([1, 2, 3, 5, 8, 12])
    if c.case in (1, 2) or r.random() < 0.0005:
        # a long-lived server: more frames than 16 bits, or more clients than 8 bits count
        if c.case == 1 or (c.case > 2 and r.random() < 0.5):
            n = 0
            c.clients = [unique(c, 0, r.randint(65540, 70000)), unique(c, 1, 10)]
            c.count("long-many-frames")
        else:
            n = 0
            c.clients = [unique(c, i, pause=1500) for i in range(r.randint(300, 400))]
            c.count("long-many-clients")
            c.net = "unix"
        c.net = "unix"
    if n and (c.case == 3 or r.random() < 0.05):
        # thousands of the shortest frames arrive at once
        n = 0
        for i in range(r.choice([1, 1, 2, 4])):
            fr = [bytes([64 * i + r.randrange(64)] * r.choice([1, 1, 1, 2, 3])) for _ in range(r.randint(1000, 8000))]
            c.clients.append(polite(r, i, c.ct, c.hw, fr=fr, frag=r.choice([0, 0, 3]), eager=r.random() < 0.5))
        kw["shim"] = (r.randrange(1, 1 << 30), 0, r.choice([0, 300]), r.choice([0, 300]), 0)
        c.count("storms")
    for i in range(n):
        c.clients.append(polite(r, i, c.ct, c.hw, pause=r.choice([0, 0, 300]), eager=r.random() < 0.15, budget=400000 // n))
    c.start(**kw)
    base = c.base_fds((c.net, c.outname))
    early = n > 0 and r.random() < 0.3
    until = None
    if early:
        t = r.randint(1, 60 * n)
        until = lambda: c.drv.turns >= t

    late = r.random() < 0.2         # much time passes while clients are connected

    def director():
        for _ in range(r.choice([0, 0, 1, 3])):
            yield c.drv.after(r.randint(1, 200))
            c.srv.kill(signal.SIGHUP)
            c.count("flushes")
            if late:
                c.srv.later(r.choice([10, 100, 4000, 100000]))
                c.count("hours-passed")
        if c.outname == "stdout" and r.random() < 0.5:
            yield c.drv.after(r.randint(1, 200))
            c.srv.kill(signal.SIGUSR1)      # never rotates standard output
            c.count("rotations-of-stdout-asked")
    c.drive(director(), until=until)
    if not early:
        for x in c.clients:
            if fs.FINISH not in (x.types() or []):
                raise Violation("no-finish", "client %d (%s) was closed with replies %s although it followed the protocol" % (x.i, x.label, x.types()))
            x.close()
        if r.random() < 0.5:
            c.settle(base)
            c.stop(clean=True)
        else:
            c.stop()
        c.count("complete-runs")
    else:
        c.stop()
        for x in c.clients:
            x.recv()
            x.close()
        c.count("runs-cut-short")
    c.judge([(c.outname, c.read(c.outname))])


def scen_p21(c):
    r = c.rng
    c.bufsize(0.7)
    n = r.choice([1, 2, 4, 6])
    if c.case == 1 or r.random() < 0.0005:
        # hundreds of broken sessions on one server
        n = 0
        for i in range(r.randint(300, 400)):
            c.clients.append(unique(c, i, pause=1500) if r.random() < 0.1 else misuse(r, i, c.ct, c.hw, r.choice(STORES_NOTHING)))
            c.clients[-1].ops.insert(0, ("pause", r.randint(0, 1500)))
        c.count("long-many-clients")
        c.net = "unix"
    for i in range(n):
        if r.random() < 0.72:
            c.clients.append(misuse(r, i, c.ct, c.hw))
            c.count("misuse-" + c.clients[-1].label)
        else:
            c.clients.append(polite(r, i, c.ct, c.hw, pause=r.choice([0, 50]), budget=20000, label="polite"))
    c.start()
    base = c.base_fds((c.net, "out"))
    c.drive()
    for x in c.clients:
        x.recv()
        m = fs.serve(bytes(x.sent), c.ct, c.hw)
        if x.label == "polite" and fs.FINISH not in (x.types() or []):
            raise Violation("no-finish", "client %d (%s) was closed with replies %s although it followed the protocol" % (x.i, x.label, x.types()))
        if x.label != "polite" and fs.ACCEPT in m.replies and [o[0] for o in x.ops if o[0] != "pause"][1:3] == ["send", "reply"] and fs.ACCEPT not in (x.types() or []):
            raise Violation("no-accept", "client %d (%s) offered the content type but was closed without ACCEPT" % (x.i, x.label))
        x.close()
    c.settle(base)
    c.stop(clean=True)
    c.judge([("out", c.read("out"))])
    c.hash.update(repr([x.label for x in c.clients]).encode())


def oversized(r, hw):
    m = hw - 4
    k = r.randrange(8)
    if k < 3:
        return m + r.randint(1, 4)
    if k < 5:
        return m + r.randint(1, 2 * m)
    if k == 5:
        return (1 << r.randint(10, 21)) + r.randint(-5, 5) + m
    return r.randint(m + 1, m + 3000000)


def scen_p22(c):
    r = c.rng
    c.bufsize(0.25)
    if c.case == 0:
        # one frame of the greatest length, sent whole
        c.net = "unix"
        n = 0xffffffff
        fr = frames(r, c.hw, 20000, 8)
        ops = [("connect",), ("send", fs.ctl(fs.READY, [c.ct])), ("reply", 1), ("send", fs.ctl(fs.START, [c.ct]) + b"".join(fs.data(f) for f in fr[:4])),
               ("send", fs.be32(n)), ("zeros", n), ("send", b"".join(fs.data(f) for f in fr[4:]) + fs.ctl(fs.STOP)), ("reply", 2), ("eof",), ("close",)]
        c.clients.append(Client(0, ops, 0, "4GiB"))
        c.clients.append(polite(r, 1, c.ct, c.hw, pause=300))
        c.start(shim=(1, 0, 0, 0, 0))
        c.drive()
        x = c.clients[0]
        if x.zeros != n or (x.types() or []) != [fs.ACCEPT, fs.FINISH]:
            raise Violation("oversized", "after an announced frame of %d bytes (%d sent) the client got replies %s" % (n, x.zeros, x.types()))
        x.sent = bytearray(b"".join(o[1] for o in ops if o[0] == "send" and len(o[1]) != 4))
        c.stop()
        c.judge([("out", c.read("out"))])
        c.count("4GiB-frames-skipped")
        return
    if c.case in (1, 2, 3) or r.random() < 0.0005:
        # very long frames that the buffer holds; the small stack stands for the usual one and frames of 2 GB
        c.net = r.choice(["unix", "tcp4"])
        n = r.randint(110, 140) << 20
        c.hw = r.choice([2147483647, n + 4, n + 8192])
        c.args += ["-b", str(c.hw)]
        lim = 256 << 10
        fr = frames(r, 262144, 20000, 4) + [r.randbytes(4096) * (n >> 12) + bytes(n & 4095)] + frames(r, 262144, 20000, 4)
        ops = [("connect",), ("send", fs.ctl(fs.READY, [c.ct])), ("reply", 1), ("send", fs.ctl(fs.START, [c.ct]) + b"".join(fs.data(f) for f in fr) + fs.ctl(fs.STOP)), ("reply", 2), ("eof",), ("close",)]
        c.clients.append(Client(0, ops, r.choice([0, 3]), "giant"))
        c.clients.append(polite(r, 1, c.ct, c.hw, budget=20000, pause=300))
        c.start(rlimits=[(resource.RLIMIT_STACK, lim)], shim=(1, 0, 0, 0, 0))
        c.drive()
        if (c.clients[0].types() or []) != [fs.ACCEPT, fs.FINISH]:
            raise Violation("dropped", "a client that sent a frame of %d bytes, which the buffer size allows, got replies %s" % (n, c.clients[0].types()))
        c.stop()
        c.judge([("out", c.read("out"))])
        c.count("giant-frames-stored")
        return
    big = []
    for i in range(r.choice([1, 1, 2, 3])):
        k = r.random()
        if k < 0.55:
            # oversized frames between normal ones
            parts, fr = [], frames(r, c.hw, 60000, r.randint(1, 12))
            for f in fr:
                if r.random() < 0.4:
                    n = oversized(r, c.hw)
                    body = r.choice([bytes(n), (fs.ctl(fs.STOP) * (n // 12 + 1))[:n], (fs.data(b"inside an oversized frame") * (n // 29 + 1))[:n], r.randbytes(n)])
                    parts.append(fs.data(body))
                parts.append(fs.data(f))
                if r.random() < 0.08:
                    parts.append(fs.data(payload(r, oversized(r, c.hw))))
            cl = polite(r, i, c.ct, c.hw, fr=[], label="oversized")
            for j, o in enumerate(cl.ops):
                if o[0] == "send" and o[1][:12] == fs.ctl(fs.START)[:4] + o[1][4:12] and fs.u32(o[1], 8) == fs.START:
                    cl.ops[j] = ("send", o[1] + b"".join(parts))
            c.clients.append(cl)
        elif k < 0.8:
            # announces a great length, sends little of it, and goes away or stays
            n = r.choice([2**32 - 1, 2**32 - 2, 2**32 - 3, 2**32 - 4, 2**32 - 5, 2**32 - 8, 2**31, 2**31 - 1, 2**31 - 4, 2**31 + 1, 2**24, 2**16 * 5, (1 << r.randint(20, 31)) + r.randint(-9, 9)])
            fr = frames(r, c.hw, 5000, r.randint(0, 5))
            tail = b"".join(fs.data(f) for f in frames(r, c.hw, 3000, 4)) + fs.ctl(fs.STOP)
            if n < 2 * len(tail) + 100:
                n = 2**30
            ops = [("connect",), ("send", fs.ctl(fs.READY, [c.ct])), ("reply", 1), ("send", fs.ctl(fs.START, [c.ct]) + b"".join(fs.data(f) for f in fr) + fs.be32(n)[:r.choice([4, 4, 4, 3])])]
            if len(ops[-1][1]) % 2 == 0 and ops[-1][1].endswith(fs.be32(n)):
                pass
            if ops[-1][1].endswith(fs.be32(n)):
                ops.append(("send", tail * r.choice([1, 2])))
            if c.net == "unix":
                ops.append(("drained",))
            ops.append(("stay",) if r.random() < 0.4 else ("close",) if r.random() < 0.5 else ("rst",))
            c.clients.append(Client(i, ops, r.randrange(4), "announce-%d" % n))
            big.append(n)
        else:
            # control frames of the greatest legal lengths
            pad = []
            left = 512 - 4
            lens = [8 + len(c.ct)]
            left -= lens[0]
            while left >= 9:
                l = min(256, left - 8) if r.random() < 0.5 else r.randint(1, min(256, left - 8))
                pad.append(r.randbytes(l))
                left -= 8 + l
            if r.random() < 0.5 and pad:
                pass
            cts = [c.ct] + [p for p in pad if p != c.ct]
            r.shuffle(cts)
            want = 512 - r.choice([0, 0, 0, 1, 2, 7, 8, 9, 100])
            while sum(8 + len(t) for t in cts) + 4 > want:
                j = max((j for j in range(len(cts)) if cts[j] != c.ct), default=None)
                if j is None:
                    break
                over = sum(8 + len(t) for t in cts) + 4 - want
                if len(cts[j]) > over:
                    cts[j] = cts[j][:len(cts[j]) - over]
                    if cts[j] == c.ct:
                        del cts[j]
                else:
                    del cts[j]
            cl = polite(r, i, c.ct, c.hw, budget=5000, label="long-ready")
            for j, o in enumerate(cl.ops):
                if o[0] == "send":
                    cl.ops[j] = ("send", fs.ctl(fs.READY, cts))
                    break
            c.count("control-frames-of-max-length" if len(fs.ctl(fs.READY, cts)) == 520 else "control-frames-near-max")
            c.clients.append(cl)
    c.clients.append(polite(r, len(c.clients), c.ct, c.hw, pause=100, budget=20000, label="polite"))
    c.start()
    c.drive()
    stay = False
    for x in c.clients:
        x.recv()
        if x.staying and x.peer_closed:
            raise Violation("dropped", "client %d (%s) was disconnected although it broke no rule" % (x.i, x.label))
        stay = stay or x.staying
        if x.label in ("polite", "oversized", "long-ready") and (x.types() or []) != [fs.ACCEPT, fs.FINISH]:
            raise Violation("no-finish", "client %d (%s, buffer size %d) was closed with replies %s although it followed the protocol" % (x.i, x.label, c.hw, x.types()))
    c.count("huge-lengths-announced", len(big))
    # frames a staying client completed before its oversized one have been read
    c.stop()
    for x in c.clients:
        x.close()
    c.judge([("out", c.read("out"))])
    c.hash.update(repr((c.hw, [(x.label, len(x.sent)) for x in c.clients])).encode())


def mutate(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 5, 20])):
        if not b:
            break
        k = r.randrange(6)
        p = r.randrange(len(b))
        if k == 0:
            b[p] ^= 1 << r.randrange(8)
        elif k == 1:
            b[p:p + 4] = r.choice([b"\0\0\0\0", b"\xff\xff\xff\xff", b"\0\0\2\0", b"\0\0\2\1", b"\x7f\xff\xff\xff", fs.be32(r.randrange(700))])
        elif k == 2:
            del b[p:p + r.choice([1, 2, 4, 8, 50])]
        elif k == 3:
            b[p:p] = r.randbytes(r.choice([1, 4, 9]))
        elif k == 4:
            q = r.randrange(len(b))
            b[p:p] = b[q:q + r.randint(1, 60)]
        else:
            b[p] = r.randrange(256)
    return bytes(b)


def hostile(r, i, ct, hw):
    R, S, P = fs.ctl(fs.READY, ready_ok(r, ct)), fs.ctl(fs.START, [ct]), fs.ctl(fs.STOP)
    D = b"".join(fs.data(f) for f in frames(r, hw, 6000, r.randint(0, 8)))
    full = R + S + D + P
    k = r.randrange(7)
    if k == 0:
        b, label = r.randbytes(r.choice([1, 3, 4, 7, 8, 12, 100, 3000])), "random"
    elif k == 1:
        b, label = mutate(r, full), "mutated"
    elif k == 2:
        b, label = R + mutate(r, S + D + P), "mutated-later"
    elif k == 3:
        b, label = full[:r.randrange(len(full) + 1)], "cut"
    elif k == 4:
        b, label = b"", "silent"
    elif k == 5:
        b, label = R + S + D + b"\0\0\0\0" + fs.be32(r.choice([0, 1, 3, 4, 5, 512, 513, 2**32 - 1])) + r.randbytes(r.choice([0, 2, 4, 5, 511])), "odd-control"
    else:
        b, label = b"".join(r.choice([R, S, P, D, fs.ctl(fs.ACCEPT), fs.ctl(fs.FINISH), fs.ctl(r.randrange(6, 2**32), [], r.randbytes(r.choice([0, 3, 40])))]) for _ in range(r.randint(1, 9))), "shuffled"
    end = r.choice([[("close",)], [("rst",)], [("stay",)], [("half",), ("stay",)], [("half",), ("eof",), ("close",)], [("pause", r.randint(1, 50)), ("close",)], [("pause", 30), ("rst",)]])
    ops = ([("pause", r.randint(0, 100))] if r.random() < 0.5 else []) + [("connect",)]
    cutp = r.randint(0, len(b))
    if r.random() < 0.2:
        b = b[:cutp]
    if fs.serve(b, ct, hw).fate in ("closed", "finished") and r.random() < 0.5:
        end = [("eof",), ("close",)]
    ops += [("send", b[:cutp]), ("pause", r.randint(1, 20)), ("send", b[cutp:])]
    ops += end
    return Client(i, ops, r.randrange(4), label)


def ready_ok(r, ct):
    return cap.ready_types(r, ct)


def scen_p23(c):
    r = c.rng
    c.bufsize(0.6)
    nh, np = r.choice([1, 3, 6, 10]), r.choice([1, 2, 3])
    if c.case == 1 or r.random() < 0.0005:
        # hundreds of connections on one server, most of them cut off somewhere
        nh = np = 0
        for i in range(r.randint(300, 400)):
            x = unique(c, i)
            if r.random() < 0.85:
                x.label = "cut-off"
                x.ops = x.ops[:r.randint(1, 5)]
                if r.random() < 0.5 and x.ops[-1][0] == "send":
                    x.ops[-1] = ("send", x.ops[-1][1][:r.randint(1, len(x.ops[-1][1]))])
                x.ops.append((r.choice(["close", "rst"]),))
            x.ops.insert(0, ("pause", r.randint(0, 1500)))
            c.clients.append(x)
        c.count("long-many-clients")
        c.net = "unix"
    for i in range(nh + np):
        c.clients.append(polite(r, i, c.ct, c.hw, pause=150, budget=20000, label="polite") if i < np else hostile(r, i, c.ct, c.hw))
    order = list(range(nh + np))
    c.start(p_accept=r.choice([0, 0, 200]))
    base = c.base_fds((c.net, "out"))

    def director():
        for _ in range(r.choice([0, 1, 3])):
            yield c.drv.after(r.randint(1, 200))
            c.srv.kill(signal.SIGHUP)
    c.drive(director())
    # a new client is served while the stalling ones are still connected
    late = polite(r, len(c.clients), c.ct, c.hw, budget=2000, label="polite")
    c.clients.append(late)
    stalled = [x for x in c.clients if x.staying and not x.peer_closed]
    c.drive(clients=[late])
    for x in c.clients:
        x.recv()
        if x.label == "polite" and (x.types() or []) != [fs.ACCEPT, fs.FINISH]:
            raise Violation("no-finish", "client %d (polite) was closed with replies %s" % (x.i, x.types()))
        if x.label != "polite":
            c.count("hostile-" + x.label)
        if x.staying and x.peer_closed and ("half",) not in x.ops and fs.serve(bytes(x.sent), c.ct, c.hw).fate == "open":
            raise Violation("dropped", "client %d (%s) was disconnected although it broke no rule (%d bytes sent)" % (x.i, x.label, len(x.sent)))
    c.count("stalled-at-end", len(stalled))
    if r.random() < 0.6 or not stalled:
        for x in c.clients:
            x.close()
        c.settle(base)
        c.stop(clean=True)
    else:
        c.stop()
    for x in c.clients:
        x.recv() if not x.self_closed else None
        x.close()
    c.judge([("out", c.read("out"))])
    c.hash.update(repr([(x.label, len(x.sent)) for x in c.clients]).encode())


def wait_file_not(path, old):
    """until the file holds something else"""
    def done():
        with open(path, "rb") as f:
            return f.read() != old
    return done


def wait_file(path):
    return lambda: os.path.exists(path) and os.path.getsize(path) > 0


def scen_p24(c):
    r = c.rng
    c.bufsize(0.7)
    mode = r.choice(["rename", "strftime", "split", "split", "stdout"])
    n = r.choice([1, 2, 4, 6])
    c.hash.update(mode.encode())
    base = 1_700_000_000 + r.randrange(10**7)
    names = []
    tz = r.choice([None, "XXX-3", "ABC5"])
    cal = r.choice(["--gmtime", "--localtime"])
    off = {None: 0, "XXX-3": 3 * 3600, "ABC5": -5 * 3600}[tz] if cal == "--localtime" else 0
    env = {"TZ": tz} if tz else {}
    pat = r.choice(["%Y%m%d-%H%M%S.out", "f%%-%F-%T", "%H%M%S-%j-%y", "plain-%d%m%Y%H%M%S%z"])
    if pat.startswith("plain") and cal == "--gmtime":
        pat = "plain-%d%m%Y%H%M%S"
    if r.random() < 0.15:
        # names that become much longer, up to what a directory takes
        pat = r.choice(["%c" * r.randint(2, 10), "%F-%T-" * r.randint(2, 12)])
        c.count("names-much-longer")

    def name(t):
        z = {0: "+0000", 3 * 3600: "+0300", -5 * 3600: "-0500"}[off]
        return time.strftime(pat.replace("%z", z), time.gmtime(t + off))
    bufs = []
    nrot = r.randint(1, 6)
    if c.case in (1, 2) or r.random() < 0.0005:
        # more rotations than 8 bits count
        nrot = r.randint(257, 300)
        mode = r.choice(["rename", "strftime"]) if c.case > 2 else ["rename", "strftime"][c.case - 1]
        c.count("long-many-rotations")
    if mode in ("strftime", "split"):
        c.args += [cal]
        split = r.choice([1, 2, 10, 60, 3600])
        if mode == "split":
            c.args += ["-s", str(split)]
        frag_pause = True
        c.clients = [polite(r, i, c.ct, c.hw, pause=300, budget=60000, label="polite") for i in range(n)]
        c.start(out=c.d + "/o/" + pat if os.makedirs(c.d + "/o") is None else "", clock=base, env=env)
        clock = base
        names = [name(base)]
        opened = [base]       # clock values at which a file may have been opened
        steps = [base]
        old = {}

        def in_the_way(t):
            """another file of that name exists already"""
            nm = name(t)
            if r.random() < 0.4 and not os.path.exists(c.d + "/o/" + nm):
                old[nm] = c.junk(r)
                with open(c.d + "/o/" + nm, "wb") as f:
                    f.write(old[nm])
                c.count("output-files-in-the-way")

        def director():
            nonlocal clock
            for k in range(nrot):
                yield c.drv.after(r.randint(1, 250))
                if mode == "strftime":
                    clock += r.choice([1, 1, 7, 3600, 86400])
                    in_the_way(clock)
                    c.srv.set(clock=clock)
                    c.srv.kill(signal.SIGUSR1)
                    names.append(name(clock))
                    if names[-1] in old:
                        yield wait_file_not(c.d + "/o/" + names[-1], old[names[-1]])
                    else:
                        yield wait_file(c.d + "/o/" + names[-1])
                    c.count("rotations-by-signal")
                else:
                    if r.random() < 0.2:
                        # a clock step back: no rotation is due, and no value is used twice
                        back = clock - r.randint(1, 3 * split) * 1000 - 500
                        if back not in steps:
                            # (the program may read the clock before and after the step)
                            steps.append(back)
                            c.srv.set(clock=back)
                            c.count("clock-steps-back")
                        yield c.drv.after(r.randint(1, 100))
                    clock += r.choice([split, split, split + 1, split * 3, max(1, split // 2), 1])
                    steps.append(clock)
                    in_the_way(clock)
                    c.srv.set(clock=clock)
        c.drive(director())
        if mode == "split":
            # after the interval has passed and a frame has arrived, the output is a new file
            if r.random() < 0.7:
                clock += split
                steps.append(clock)
                c.srv.set(clock=clock)
                a = polite(r, len(c.clients), c.ct, c.hw, fr=[b"first frame after the interval"])
                b = polite(r, len(c.clients) + 1, c.ct, c.hw, fr=[b"second frame after the interval"])
                c.clients += [a, b]
                c.drive(clients=[a])
                c.drive(clients=[b])
                last = name(clock)
            else:
                last = None
        c.finish_all = all(fs.FINISH in (x.types() or []) for x in c.clients)
        for x in c.clients:
            if fs.FINISH not in (x.types() or []):
                raise Violation("no-finish", "client %d was closed with replies %s" % (x.i, x.types()))
        c.stop()
        have = set(nm for nm in os.listdir(c.d + "/o") if nm not in old or c.read("o/" + nm) != old[nm])
        if mode == "split":
            names, prev = [], None
            for t in steps:
                nm = name(t)
                if nm in have and nm not in names:
                    if prev is not None and prev <= t < prev + split:
                        raise Violation("rotation", "file %s opened %d s after the one before, the interval is %d s" % (nm, t - prev, split))
                    prev = t
                    names.append(nm)
            c.count("rotations-by-time", len(names) - 1)
        if have != set(names):
            raise Violation("rotation", "files %s exist, expected %s (clock %s)" % (sorted(have), sorted(names), steps))
        bufs = [(nm, c.read("o/" + nm)) for nm in names]
        if mode == "split" and last is not None:
            if names[-1] != last:
                raise Violation("rotation", "the interval had passed when a frame arrived, but file %s was not opened (last file %s)" % (last, names[-1]))
            fl = cap.parse_out(bufs[-1][1], c.ct, last).frames
            if b"second frame after the interval" not in fl:
                raise Violation("rotation", "the frame after the interval is not in the new file %s" % last)
            c.count("due-rotations-checked")
    else:
        kw = {}
        if mode == "stdout":
            c.outf = open(c.d + "/stdout", "wb")
            kw = dict(out="-", stdout=c.outf)
        c.clients = [polite(r, i, c.ct, c.hw, pause=300, budget=60000, label="polite") for i in range(n)]
        c.start(**kw)
        moved = []

        def director():
            for k in range(nrot):
                yield c.drv.after(r.randint(1, 250))
                if mode == "rename":
                    os.rename(c.d + "/out", c.d + "/out.%d" % k)
                    moved.append("out.%d" % k)
                    if r.random() < 0.4:
                        j = c.junk(r)
                        with open(c.d + "/new", "wb") as f:
                            f.write(j)
                        os.rename(c.d + "/new", c.d + "/out")
                        c.count("output-files-in-the-way")
                        c.srv.kill(signal.SIGUSR1)
                        yield wait_file_not(c.d + "/out", j)
                    else:
                        c.srv.kill(signal.SIGUSR1)
                        yield wait_file(c.d + "/out")
                    c.count("rotations-by-signal")
                else:
                    c.srv.kill(signal.SIGUSR1)
                    c.count("rotations-of-stdout-asked")
                    if r.random() < 0.3:
                        yield c.drv.after(1)
                        c.srv.kill(signal.SIGHUP)
        c.drive(director())
        for x in c.clients:
            if fs.FINISH not in (x.types() or []):
                raise Violation("no-finish", "client %d was closed with replies %s" % (x.i, x.types()))
        c.stop()
        bufs = [(nm, c.read(nm)) for nm in (moved + ["out"] if mode == "rename" else ["stdout"])]
    c.judge(bufs)
    c.count("files", len(bufs))
    c.hash.update(repr([len(b) for _, b in bufs]).encode())


def scen_p25(c):
    r = c.rng
    c.bufsize(0.6)
    mode = r.choice(["flush", "flush", "kill", "kill", "full", "full", "full", "devfull", "pipe", "rotate"])
    n = r.choice([1, 2, 4])
    c.hash.update(mode.encode())
    if mode == "rotate":
        return rotate_fails(c, n)
    if mode in ("flush", "kill"):
        kw = c.output() if mode == "flush" else {}
        c.outname = getattr(c, "outname", "out")
        c.clients = [polite(r, i, c.ct, c.hw, pause=100, budget=r.choice([300, 5000, 60000]), label="polite") for i in range(n)]
        c.start(**kw)
        if mode == "kill":
            t = r.randint(1, 100 * n)
            c.drive(until=lambda: c.drv.turns >= t)
            c.srv.kill(signal.SIGKILL)
            c.srv.wait()
            for x in c.clients:
                x.recv()
                x.close()
            c.judge([("out", c.read("out"))], killed=True)
            c.count("kills")
            return
        # flush: frames whose receipt is certain must reach the file
        for rnd in range(r.choice([1, 2])):
            if rnd:
                c.clients += [polite(r, len(c.clients), c.ct, c.hw, budget=2000)]
            held = None
            if c.net == "unix" and r.random() < 0.5:
                # a client in the middle of its stream: all it sent has been read
                held = polite(r, len(c.clients), c.ct, c.hw, budget=5000, label="open-stream")
                held.ops = held.ops[:-4] + [("drained",), ("stay",)]
                assert held.ops[-3][0] == "send"
                if r.random() < 0.5:
                    held.ops.insert(-2, ("send", b"\0\0\1\0only a part"))
                c.clients.append(held)
            c.drive()
            need, seqs = [], []
            for x in c.clients:
                m, k = cap.judge_client(x, c.ct, c.hw)
                if x.label == "open-stream":
                    k = len(m.stored)
                    c.count("open-streams-flushed")
                seqs.append(m.stored)
                need.append(k)
            # a write handed to the kernel is in the file: ask, then wait
            c.srv.kill(signal.SIGHUP)
            end = time.time() + cap.LONG
            while True:
                p = cap.parse_out(c.read(c.outname), c.ct, c.outname, complete=False)
                e = cap.interleaves(p.frames, seqs, need)
                if e is None:
                    break
                if time.time() > end:
                    raise Violation("flush", "%d s after SIGHUP: %s (%d frames in the file)" % (cap.LONG, e, len(p.frames)))
                if not c.srv.alive():
                    break
                time.sleep(0.002)
            c.count("flushes")
            c.count("frames-flushed", sum(need))
        c.srv.kill(signal.SIGKILL)
        c.srv.wait()
        for x in c.clients:
            x.recv() if not x.self_closed else None
            x.close()
        c.judge([(c.outname, c.read(c.outname))], killed=True, need=need)
        c.count("kills")
        return
    c.clients = [polite(r, i, c.ct, c.hw, pause=100, budget=r.choice([0, 300, 5000, 20000]), label="polite") for i in range(n)]
    c.may_die = True
    c.endless = False
    if mode in ("full", "devfull") and r.random() < 0.2:
        # a client that goes on for as long as the server does: nothing it sends can be stored
        x = polite(r, len(c.clients), c.ct, c.hw, pause=100, fr=[payload(r, min(c.hw - 4, 1000))] * (3000000 // min(c.hw, 1000)), frag=r.choice([0, 3]), label="endless")
        x.ops = x.ops[:-4] + [("eof",), ("close",)]
        c.clients.append(x)
        c.endless = True
        c.count("endless-streams")
    if mode == "full":
        start, stop = len(fs.ctl(fs.START, [c.ct])), len(fs.ctl(fs.STOP))
        plan = [fs.serve(b"".join(o[1] for o in x.ops if o[0] == "send"), c.ct, c.hw).stored for x in c.clients]
        whole = start + stop + sum(len(f) + 4 for s in plan for f in s)
        k = r.random()
        limit = r.randint(0, 20000) if c.endless else r.randint(0, whole + 10) if k < 0.5 else max(0, whole - r.randint(-3, 30)) if k < 0.8 else r.randint(0, start + 40)
        c.count("limits-tried")
        transient = not c.endless and r.random() < 0.3
        kw = dict(full_errno=r.choice([0, errno.ENOSPC, errno.EIO, errno.EDQUOT]))
        if not transient:
            kw["rlimits"] = [(resource.RLIMIT_FSIZE, limit)]
        if r.random() < 0.3:
            c.outf = open(c.d + "/stdout", "wb")
            kw.update(out="-", stdout=c.outf)
            c.outname = "stdout"
        else:
            c.outname = "out"
        c.srvkw = kw
        # the program's messages go to a pipe, not to a file of limited size
        rc = run_limited(c, kw, whole, limit, transient)
        return
    if mode == "devfull":
        kw = dict(out="/dev/full") if r.random() < 0.5 else dict(out="-", stdout=open("/dev/full", "wb"))
        c.count("dev-full")
        ok = c.start(**kw)
        if ok:
            c.drive(until=lambda: c.drv.turns > 4000)
            c.srv.set(no_leaks=1)
            c.srv.kill(signal.SIGTERM)
        c.srv.set(no_leaks=1)
        rc = c.reap(expect=None)
        if rc == 0:
            raise Violation("success", "exit status 0 although the output device was full")
        if rc < 0:
            raise Violation("exit", "killed by signal %d when the output device was full" % -rc)
        c.hash.update(b"%d" % rc)
        return
    # standard output is a pipe whose reader goes away after some bytes
    rd, wr = os.pipe()
    got = bytearray()
    keep = r.choice([0, 1, 50, 5000, 1 << 30])

    def drain():
        while len(got) < keep:
            b = os.read(rd, min(4096, keep - len(got)))
            if not b:
                break
            got.extend(b)
        os.close(rd)
    th = threading.Thread(target=drain)
    th.start()
    closed = False
    ok = c.start(out="-", stdout=wr)
    os.close(wr)
    if ok:
        c.drive(until=lambda: c.drv.turns > 20000)
        c.srv.set(no_leaks=1)
        closed = not th.is_alive()
        c.srv.kill(signal.SIGTERM)
    c.srv.set(no_leaks=1)
    rc = c.reap(expect=None)
    th.join()
    for x in c.clients:
        x.recv() if x.sock is not None and not x.self_closed else None
        x.close()
    p = cap.parse_out(bytes(got), c.ct, "pipe", complete=False)
    c.count("pipes")
    if rc < 0 and rc != -signal.SIGPIPE:
        raise Violation("exit", "killed by signal %d writing to a pipe" % -rc)
    if rc == 0 and not p.complete and (closed or keep > 1 << 20):
        # (what was written before the reader went away is beyond the writer's knowledge)
        raise Violation("success", "exit status 0 although the reader of the pipe was gone before the end, with %d bytes" % len(got))
    c.count("pipe-failures-reported", rc != 0)
    c.judge([("pipe", bytes(got))], killed=not p.complete)
    c.hash.update(b"%d" % len(got))


def rotate_fails(c, n):
    """The output is to be rotated, but what is there cannot be written or no new file can be opened."""
    r = c.rng
    os.makedirs(c.d + "/o")
    bytime, full = r.random() < 0.4, r.random() < 0.3
    kw, clock = dict(out=c.d + "/o/out"), 1_700_000_000 + r.randrange(10**7)
    if bytime:
        c.args += ["-s", "60", r.choice(["--gmtime", "--localtime"])]
        kw = dict(out=c.d + "/o/" + r.choice(["out", "%Y-%s"]), clock=clock, env={"TZ": "UTC"})
    c.clients = [polite(r, i, c.ct, c.hw, pause=100, budget=r.choice([300, 5000, 60000]), label="polite") for i in range(n)]
    c.may_die = True
    c.start(**kw)
    moment = r.randint(1, 150 * n)
    c.drive(until=lambda: c.drv.turns >= moment)
    name, = os.listdir(c.d + "/o")
    if full:
        # nothing more can be written, and what is buffered is lost
        c.srv.set(full_errno=r.choice([0, errno.ENOSPC, errno.EIO]))
        resource.prlimit(c.srv.p.pid, resource.RLIMIT_FSIZE, (os.path.getsize(c.d + "/o/" + name), resource.RLIM_INFINITY))
    elif r.random() < 0.5:
        os.rename(c.d + "/o", c.d + "/o2")
    else:
        os.rename(c.d + "/o", c.d + "/o2")
        with open(c.d + "/o", "wb"):
            pass
    if bytime:
        c.srv.set(clock=clock + 60)
        c.clients.append(polite(r, len(c.clients), c.ct, c.hw, fr=[b"due"], label="polite"))
    else:
        c.srv.kill(signal.SIGUSR1)
    c.drive(clients=[x for x in c.clients if not x.done], until=lambda: not c.srv.alive())
    end = time.time() + cap.LONG
    while c.srv.alive():
        if time.time() > end:
            raise Violation("success", "the server goes on although its output cannot be %s" % ("closed" if full else "opened again"))
        time.sleep(0.002)
    c.srv.set(no_leaks=1)
    rc = c.reap(expect=None)
    if rc <= 0:
        raise Violation("success" if rc == 0 else "exit", "exit status %d although the rotated output cannot be %s" % (rc, "closed" if full else "opened again"))
    for x in c.clients:
        x.recv() if x.sock is not None and not x.self_closed else None
        x.close()
    b = c.read(("o/" if full else "o2/") + name)
    c.judge([("out", b)], killed=full)
    c.count("rotations-failed-" + ("closing" if full else "opening"))
    c.hash.update(b"%d" % len(b))


def run_limited(c, kw, whole, limit, transient):
    """A device that fills up after `limit` bytes, for good or for some time."""
    r = c.rng

    def size_limit(n):
        if c.srv.alive():
            resource.prlimit(c.srv.p.pid, resource.RLIMIT_FSIZE, (n, resource.RLIM_INFINITY))
    shim = (r.randrange(1, 1 << 30), 300, 0, 300, 0)
    ok = c.start(shim=shim, **kw)
    if ok:
        flush = r.random() < 0.3

        def director():
            if flush:
                yield c.drv.after(r.randint(1, 200))
                c.srv.kill(signal.SIGHUP)
            if transient:
                yield c.drv.after(r.randint(0, 300))
                size_limit(limit)
                c.count("transient-limits")
                yield c.drv.after(r.choice([3, 30, 300, 100000]))
                if flush:
                    c.srv.kill(signal.SIGHUP)
                    yield c.drv.after(r.choice([1, 10]))
                if not last:
                    size_limit(resource.RLIM_INFINITY)
        last = r.random() < 0.3
        c.drive(director())
        c.srv.set(no_leaks=1)
        c.srv.kill(signal.SIGTERM)
    rc = c.srv.wait()
    for x in c.clients:
        x.recv() if x.sock is not None and not x.self_closed else None
        x.close()
    b = c.read(c.outname)
    if len(b) > limit and not transient:
        raise core.CheckError("RLIMIT_FSIZE has no effect here")
    p = cap.parse_out(b, c.ct, c.outname, complete=False)
    if rc < 0:
        raise Violation("exit", "killed by signal %d when the output could not grow beyond %d bytes" % (-rc, limit))
    if rc == 0:
        if not p.complete:
            raise Violation("success", "exit status 0, but the output (%d bytes, limit %d) is not complete" % (len(b), limit))
        c.judge([(c.outname, b)])
        c.count("completed-within-limit")
    else:
        if not transient:
            c.judge([(c.outname, b)], killed=True)
        if limit >= whole:
            raise Violation("exit", "exit status %d although the output fits (%d of %d bytes): %s" % (rc, whole, limit, c.srv.stderr()[-300:]))
        c.count("failures-reported")
    c.hash.update(b"%d/%d/%d" % (limit, len(b), rc))


def scen_p26(c):
    r = c.rng
    c.bufsize(0.8)
    limit = r.choice([None, 1, 1, 2, 3, 5, 10])
    lng = c.case in (1, 2) or r.random() < 0.0005
    if lng:
        limit = r.randint(257, 300) if c.case == 1 else None if c.case == 2 else r.choice([None, r.randint(257, 300)])
        c.net = "unix"
    if limit:
        c.args += [r.choice(["-c", "--maxconns"]), str(limit)]
    c.hash.update(repr(limit).encode())
    total = r.choice([4, 8, 20, 40]) if limit else r.choice([20, 60, 100])
    if lng:
        # more clients, at once or one after another, than 8 bits count
        total = r.randint(300, 600)
        c.count("long-many-clients")
        c.net = "unix"
    for i in range(total):
        k = r.random()
        if k < 0.5:
            x = unique(c, i, pause=800, hold=1) if lng else polite(r, i, c.ct, c.hw, budget=2000, pause=200, hold=1)
        elif k < 0.75:
            # served, then gone without STOP
            x = unique(c, i, pause=800, hold=1, label="abrupt") if lng else polite(r, i, c.ct, c.hw, budget=1000, pause=200, hold=1, label="abrupt")
            j = next(j for j, o in enumerate(x.ops) if o[0] == "release")
            x.ops = x.ops[:j + 1] + [(r.choice(["close", "rst"]),)]
            if r.random() < 0.3:
                x.ops[-1:-1] = [("send", r.choice([b"\0\0\0\0\0\0\0\0", fs.data(b"x") + b"\0\0\1", fs.ctl(fs.READY)])), ] + ([("pause", 5)] if r.random() < 0.5 else [])
        elif k < 0.9:
            x = misuse(r, i, c.ct, c.hw, r.choice(STORES_NOTHING) if lng else None)
        else:
            x = Client(i, [("pause", r.randint(0, 200)), ("connect",), ("send", r.choice([b"", b"\0", fs.ctl(fs.READY, [c.ct])[:9]])), ("pause", r.randint(0, 30)), (r.choice(["close", "rst"]),)], 0, "gone-early")
        c.clients.append(x)
    c.start(p_accept=r.choice([0, 0, 200, 500]))
    base = c.base_fds((c.net, "out"))
    d = c.drive(limit=limit)
    mx = d.maxheld
    for x in c.clients:
        if x.label == "polite" and (x.types() or []) != [fs.ACCEPT, fs.FINISH]:
            raise Violation("no-finish", "client %d was closed with replies %s" % (x.i, x.types()))
    for x in c.clients:
        x.recv() if x.sock is not None and not x.self_closed else None
        x.close()
    # the limit must now be exactly what it was: `limit` clients are served at once, one more is not
    n = limit or r.choice([5, 40] if not lng else [260, 300])
    first = [polite(r, len(c.clients) + j, c.ct, c.hw, fr=[b"held %d" % j], hold="go", label="polite") for j in range(n)]
    c.clients += first
    d = c.drive(limit=limit, clients=first, until=lambda: all(x.held for x in first))
    if not all(x.held for x in first):
        raise Violation("dropped", "only %d of %d clients are served" % (sum(x.held for x in first), n))
    c.count("full-occupancy-reached")
    gates = d
    if limit:
        more = [polite(r, len(c.clients) + j, c.ct, c.hw, fr=[b"waits %d" % j], hold=1, label="polite") for j in range(r.choice([1, 3]))]
        c.clients += more
        end = time.time() + 0.04
        d = c.drive(limit=limit, clients=first + more, until=lambda: time.time() > end)
        if any(x.rx for x in more):
            raise Violation("limit", "client beyond the limit of %d was answered while all others were being served" % limit)
        c.count("excess-clients-kept-waiting", len(more))
        if r.random() < 0.5:
            # one leaves, exactly one more may come
            first[0].held = False
            first[0].sock.close()
            first[0].self_closed = first[0].done = True
            first[0].label = "left"
            d = c.drive(limit=limit, clients=first[1:] + more, until=lambda: any(x.rx for x in more))
        rest = first + more
    elif not lng and r.random() < 0.7:
        # the process has no descriptor left: whoever comes now waits, those that are served do not notice
        pid = c.srv.p.pid
        fds = {int(f) for f in os.listdir("/proc/%d/fd" % pid)}
        old = resource.prlimit(pid, resource.RLIMIT_NOFILE)
        resource.prlimit(pid, resource.RLIMIT_NOFILE, (min(set(range(len(fds) + 1)) - fds), old[1]))
        more = [polite(r, len(c.clients) + j, c.ct, c.hw, fr=[b"waits %d" % j], label="polite") for j in range(r.choice([1, 3]))]
        c.clients += more
        end = time.time() + 0.04
        d = c.drive(clients=first + more, until=lambda: time.time() > end)
        c.count("clients-kept-waiting-without-descriptors", sum(not x.rx for x in more))
        left = r.sample(first, r.choice([0, 1, 1, len(first)]))
        for x in left:
            if r.random() < 0.5:
                x.sock.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            x.held = False
            x.sock.close()
            x.self_closed = x.done = True
            x.label = "left"
        if not left:
            resource.prlimit(pid, resource.RLIMIT_NOFILE, old)
        d = c.drive(clients=[x for x in first if not x.done] + more, until=lambda: all(x.done for x in more))
        resource.prlimit(pid, resource.RLIMIT_NOFILE, old)
        c.count("recoveries-from-no-descriptors")
        rest = first + more
    else:
        rest = first
    d = cap.Driver(c.srv, r, [x for x in rest if not x.done], None, limit)
    c.drv = d
    d.gates.add("go")
    d.run()
    for x in rest:
        if x.label == "polite" and (x.types() or []) != [fs.ACCEPT, fs.FINISH]:
            raise Violation("no-finish", "client %d was closed with replies %s" % (x.i, x.types()))
        x.close()
    c.settle(base)
    c.stop(clean=True)
    c.count("clients", len(c.clients))
    if limit:
        c.count("limited-cases")
        c.count("limit-reached-in-churn", mx >= limit)
    else:
        c.count("unlimited-cases")
    c.judge([("out", c.read("out"))])


def bulk(r, i, c):
    """A client that sends far more than is ever kept."""
    k = r.choice(["small", "large", "oversized", "announced", "control"])
    R, S, P = fs.ctl(fs.READY, [c.ct]), fs.ctl(fs.START, [c.ct]), fs.ctl(fs.STOP)
    ops = [("connect",), ("send", R), ("reply", 1), ("send", S)]
    end = [("send", P), ("reply", 2), ("eof",), ("close",)]
    m = c.hw - 4
    if k == "small":
        ops.append(("send", b"".join(fs.data(r.randbytes(r.randint(1, 30))) for _ in range(200)) * r.choice([20, 100, 300])))
    elif k == "large":
        n = r.randint(max(1, m // 2), m)
        ops.append(("send", fs.data(bytes(n)) * max(2, r.choice([1, 4, 12]) * 1000000 // (n + 4))))
    elif k == "oversized":
        for _ in range(r.randint(1, 6)):
            n = r.choice([m + 1, m + r.randint(1, 5000), 4000000, r.randint(m + 1, m + 20000000)])
            ops += [("send", fs.be32(n)), ("zeros", n)]
    elif k == "announced":
        # announces much and sends part of it
        n = r.choice([m, m, m - 1, max(1, m // 2), 2**31, 2**32 - 1])
        ops += [("send", fs.be32(n)), ("zeros", min(max(1, n - r.randint(1, 600)), 3000000)), ("pause", 50)]
        end = [r.choice([("close",), ("rst",)])]
    else:
        # nothing but control frames, refused as soon as one is not allowed
        ops = [("connect",), ("send", (R + fs.ctl(77, [], bytes(400))) * 2000)]
        end = [r.choice([("close",), ("rst",)])]
    c.count("bulk-" + k)
    return Client(i, ops + end, r.choice([0, 3]), "bulk-" + k)


def scen_p32(c):
    r = c.rng
    c.bufsize(0.15)
    mode = r.choice(["plain", "hup", "rotate", "rotate"])
    kw, clock = {}, 1_700_000_000 + r.randrange(10**7)
    if mode == "rotate":
        os.makedirs(c.d + "/o")
        c.args += [r.choice(["--gmtime", "--localtime"])]
        kw = dict(out=c.d + "/o/%Y%m%d-%H%M%S", clock=clock, env={"TZ": "UTC"})
    c.start(**kw)
    base_fds = c.base_fds((c.net, mode == "rotate"))
    h0 = c.srv.heap()
    if not h0[2]:
        raise core.CheckError("the program's allocations are not seen")
    c.srv.reset_peak()
    plan = r.random()
    n = r.choice([1, 2, 4, 8])
    rounds = r.randint(12, 30)
    room = n * (2 * c.hw + 32768) + 65536
    seen, peaks = [], []
    for k in range(rounds):
        q = random.Random(plan)
        c.clients = []
        for i in range(n):
            z = q.random()
            c.clients.append(bulk(q, i, c) if z < (0.15 if k % 8 == 3 else 0) else polite(q, i, c.ct, c.hw, budget=3000, label="polite") if z < 0.4 else
                             misuse(q, i, c.ct, c.hw) if z < 0.6 else hostile(q, i, c.ct, c.hw))
        if k % 8 == 3 and r.random() < 0.7:
            c.clients[0] = bulk(r, 0, c)
        elif k % 8 != 3:
            pass
        c.drive()
        for x in c.clients:
            x.close()
        c.settle(base_fds)
        if mode == "hup":
            c.srv.kill(signal.SIGHUP)
        elif mode == "rotate":
            clock += r.choice([1, 60, 86400])
            c.srv.set(clock=clock)
            c.srv.kill(signal.SIGUSR1)
            end = time.time() + cap.LONG
            nm = c.d + "/o/" + time.strftime("%Y%m%d-%H%M%S", time.gmtime(clock))
            while not os.path.exists(nm) and time.time() < end and c.srv.alive():
                time.sleep(0.001)
        live, peak, calls = c.srv.heap()
        if peak - h0[0] > room:
            raise Violation("memory-bound", "%d bytes in use with %d clients in round %d (%s), %d when idle" % (peak, n, k, ", ".join(x.label for x in c.clients), h0[0]))
        # what is left after the clients are gone does not grow
        if k >= 4:
            lim = max(seen[:4]) + 1024
            end = time.time() + 5
            while live > lim and time.time() < end:
                time.sleep(0.01)
                live, peak, calls = c.srv.heap()
            if live > lim:
                raise Violation("memory-grows", "%d bytes in use after %d rounds of the same %d clients (%s), at most %d after the first 4" % (
                    live, k + 1, n, ", ".join(x.label for x in c.clients), max(seen[:4])))
        seen.append(live)
        peaks.append(peak - h0[0])
        c.srv.reset_peak()
        c.count("rounds")
        c.count("clients", n)
    c.count("servers-watched")
    c.count("server-allocations", calls)
    c.memo = (h0[0], seen, peaks, room)
    c.hash.update(repr((mode, n, rounds, c.hw, plan)).encode())
    # (once this client is served, none that connected before it is waiting)
    c.clients = [polite(r, 0, c.ct, c.hw, budget=300, label="polite")]
    c.drive()
    c.clients[0].close()
    c.settle(base_fds)
    c.stop(clean=True)


SCEN = {"P32": scen_p32, "P20": scen_p20, "P21": scen_p21, "P22": scen_p22, "P23": scen_p23, "P24": scen_p24, "P25": scen_p25, "P26": scen_p26}


def run_case(pid, exe, root, case, seed, keep=False):
    """One case; a hang is only believed when it happens twice."""
    for attempt in range(2):
        # (a short first try: what hangs is tried again, and given all the time there is)
        cap.TIMEOUT = 12.0 if attempt == 0 else cap.LONG
        c = Case(pid, exe, root, case, seed)
        v = []
        try:
            SCEN[pid](c)
        except Violation as e:
            v.append((e.kind, "%s [%s, buffer %d, %s]" % (e, c.net, c.hw, " ".join(c.args))))
        except Stuck as e:
            v.append(("hang", "%s [%s, buffer %d, %s]" % (e, c.net, c.hw, " ".join(c.args))))
        finally:
            if c.srv is not None:
                if v and c.srv.rc not in (None, 0) and c.srv.rc != -9:
                    s = core.san_summary(c.srv.stderr())
                    if s:
                        v = [("crash", s)]
                elif v and v[0][0] != "hang" and not c.srv.alive():
                    s = core.san_summary(c.srv.stderr())
                    if s:
                        v = [("crash", s)]
                c.result()
                for x in c.clients:
                    if x.sock is not None and not x.self_closed:
                        x.sock.close()
                c.srv.cleanup()
            if getattr(c, "outf", None):
                c.outf.close()
            if not keep:
                shutil.rmtree(c.d, ignore_errors=True)
        if v and v[0][0] == "hang" and attempt == 0:
            continue
        if attempt == 1 and not v:
            c.count("inconclusive-timeouts")
        break
    sample = None
    if case % 97 == 5:
        sample = "%s, %s, buffer %d: %s; %s" % (pid, c.net, c.hw, ", ".join("%s: %d bytes, replies %s" % (x.label, len(x.sent), x.types()) for x in c.clients[:4]), dict(list(c.counters.items())[:6]))
    return dict(violations=v, counters=c.counters, hash=c.hash.hexdigest()[:16], sample=sample)
