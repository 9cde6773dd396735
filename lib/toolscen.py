"""Scenarios for fstrm_dump (P27) and fstrm_replay (P28)."""
import hashlib
import os
import random
import resource
import select
import shutil
import signal
import socket
import struct
import subprocess
import threading
import time
import fs
import core
import capture as cap
from capture import Violation, Stuck, payload
from scen import mutate

MAXF = 1 << 20       # FSTRM_READER_MAX_FRAME_SIZE_DEFAULT, which the tools use
TIMEOUT = 60


def esc(b):
    """the documented rendering: printable bytes as they are, a quote as \\", the rest as \\xNN"""
    return b'"' + b"".join(b'\\"' if c == 34 else bytes([c]) if 32 <= c < 127 else b"\\x%02x" % c for c in b) + b'"'


def rand_ct(r):
    k = r.random()
    if k < 0.5:
        return r.choice(cap.TYPES)
    if k < 0.9:
        return r.randbytes(r.choice([1, 2, 10, 255, 256]))
    return b""


def unknown(r):
    return fs.ctl(r.choice([0, 6, 7, 2**31, 2**32 - 1]), [], r.randbytes(r.choice([0, 1, 4, 30, 508])))


def gen_frames(r, n=None):
    out = []
    for _ in range(r.choice([0, 1, 2, 5, 20, 100]) if n is None else n):
        k = r.random()
        s = r.randint(1, 60) if k < 0.6 else r.randint(1, 5000) if k < 0.9 else (1 << r.randint(0, 16)) + r.randint(-1, 1) or 1 if k < 0.995 else MAXF - r.randint(0, 2)
        out.append(payload(r, s))
    return out


def gen_file(r, ct, fr=None, unk=True):
    fr = gen_frames(r) if fr is None else fr
    b = fs.ctl(fs.START, [] if ct is None else [ct])
    for f in fr:
        if unk and r.random() < 0.03:
            b += unknown(r)
        b += fs.data(f)
    return b + fs.ctl(fs.STOP)


def damage(r, b):
    k = r.randrange(7)
    if k == 0:
        return b[:r.randrange(len(b) + 1)]
    if k == 1:
        return b[:max(0, len(b) - r.randint(1, 14))]
    if k == 2:
        return mutate(r, b)
    if k == 3:
        return mutate(r, b[:60]) + b[60:]
    if k == 4:
        return r.randbytes(r.choice([0, 1, 7, 8, 12, 200]))
    if k == 5:
        return b[:-12] + fs.be32(r.choice([MAXF + 1, 2**31, 2**32 - 1, 2**32 - 4])) + r.randbytes(50)
    p = b[:-12]
    return p + r.choice([fs.ctl(fs.STOP, [b"x"]), fs.be32(0) + fs.be32(513) + bytes(513), fs.be32(0) + fs.be32(3) + bytes(3), fs.be32(0) + fs.be32(0), fs.ctl(fs.STOP)[:-1], b"\0\0\0"]) + r.choice([b"", fs.ctl(fs.STOP)])


class Base:
    def __init__(self, pid, exes, root, case, seed):
        self.pid, self.exes, self.case = pid, exes, case
        self.rng = random.Random("%s/%d/%d" % (pid, seed, case))
        self.d = os.path.join(root, "c%d" % case)
        os.makedirs(self.d)
        self.counters = {}
        self.hash = hashlib.sha1()
        self.sample = None

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def write(self, name, b):
        p = os.path.join(self.d, name)
        with open(p, "wb") as f:
            f.write(b)
        return p

    def crash(self, rc, err):
        t = err.decode("latin1")
        s = core.san_summary(t)
        if core.LSAN_FATAL in t:
            raise core.CheckError("LeakSanitizer cannot run: " + t[-500:])
        if s:
            raise Violation("crash", s)
        if rc < 0:
            raise Violation("crash", "killed by signal %d" % -rc)


def check_lines(c, err, p, ct, frames, complete):
    """the metadata on stderr"""
    lines = err.split(b"\n")
    got = [int(l[12:l.index(b")")]) for l in lines if l.startswith(b"Data frame (")]
    if got != [len(f) for f in frames]:
        raise Violation("metadata", "announced data frames %s..., the file holds %s..." % (got[:10], [len(f) for f in frames][:10]))
    started = any(l.startswith(b"FSTRM_CONTROL_START") for l in lines)
    if started != p.start:
        raise Violation("metadata", "START %s, the file has %s valid START frame" % ("shown" if started else "not shown", "a" if p.start else "no"))
    cl = [i for i, l in enumerate(lines) if l.startswith(b"FSTRM_CONTROL_FIELD_CONTENT_TYPE (")]
    if p.start and p.ct is not None:
        if len(cl) != 1 or not lines[cl[0]].startswith(b"FSTRM_CONTROL_FIELD_CONTENT_TYPE (%d bytes)" % len(p.ct)) or lines[cl[0] + 1].strip(b" ") != esc(p.ct).strip(b" "):
            raise Violation("metadata", "content type %r not shown as it is: %r" % (p.ct, lines[:4]))
    elif cl:
        raise Violation("metadata", "a content type is shown, the file has none: %r" % lines[:4])
    stopped = any(l.startswith(b"FSTRM_CONTROL_STOP") for l in lines)
    if stopped != complete:
        raise Violation("metadata", "STOP %s, the stream is %s" % ("shown" if stopped else "not shown", "complete" if complete else "incomplete"))


def scen_p27(c):
    r = c.rng
    ct = rand_ct(r) if r.random() < 0.9 else None
    b = gen_file(r, ct)
    kind = "valid"
    lng = c.case == 1 or r.random() < 0.0005
    if lng:
        # more frames than 16 bits count
        b = gen_file(r, ct, [r.randbytes(r.randint(1, 5)) for _ in range(r.randint(65540, 70000))])
        c.count("long-many-frames")
    if r.random() < 0.6 and not lng:
        b = damage(r, b)
        kind = "damaged"
    if r.random() < 0.05:
        b += r.choice([b"\0", fs.data(b"after STOP"), gen_file(r, ct)])
    p = fs.parse_stream(b, MAXF)
    inp = c.write("in file", b)
    stdin = subprocess.DEVNULL
    feeder = None
    k = r.random()
    if k < 0.15:
        inp, stdin = "-", open(c.d + "/in file", "rb")
    elif k < 0.3:
        rd, wr = os.pipe()
        inp, stdin = "-", rd

        def feed():
            v = memoryview(b)
            try:
                while v:
                    n = os.write(wr, v[:r2.choice([1, 3, 100, 5000, 1 << 20])])
                    v = v[n:]
            except OSError:
                pass
            os.close(wr)
        r2 = random.Random(r.random())
        if len(b) > 60000:
            r2.choice = lambda l: 1 << 20
        feeder = threading.Thread(target=feed)
    elif k < 0.33:
        inp = r.choice([c.d, c.d + "/missing", c.d + "/in file/x", ""])
        p, b, kind = fs.Parsed(), b"", "unreadable"
    exact = p.unknown < 1000000     # known control types amid the data: unspecified
    args = [inp]
    mode = r.choice(["none", "file", "file", "file", "limit", "limit", "full", "dir", "over"])
    if c.case == 1:
        mode = "file"
    out, lim = None, None
    copy = fs.ctl(fs.START, [] if p.ct is None else [p.ct]) + b"".join(fs.data(f) for f in p.frames) + fs.ctl(fs.STOP)
    if mode in ("file", "limit", "over"):
        out = c.d + "/copy"
        if mode == "over":
            c.write("copy", r.randbytes(len(copy) + r.randint(0, 5000)))
        if mode == "limit":
            lim = r.choice([0, r.randint(0, len(copy)), len(copy) - 1, len(copy) - r.randint(1, 12), len(copy), len(copy) + 5])
    elif mode == "full":
        out = "/dev/full"
    elif mode == "dir":
        out = c.d
    if out:
        args.append(out)

    def pre():
        signal.signal(signal.SIGPIPE, signal.SIG_DFL)
        if lim is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, (lim, lim))
    pr = subprocess.Popen([c.exes["dump"]] + args, stdin=stdin, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          env=core.san_env(), cwd=c.d, preexec_fn=pre, restore_signals=False)
    if not isinstance(stdin, int):
        stdin.close()
    elif feeder is not None:
        os.close(rd)
        feeder.start()
    try:
        so, se = pr.communicate(timeout=TIMEOUT)
    except subprocess.TimeoutExpired:
        pr.kill()
        pr.communicate()
        raise Stuck("fstrm_dump did not finish within %d s" % TIMEOUT)
    finally:
        if feeder is not None:
            feeder.join()
    rc = pr.returncode
    c.crash(rc, se)
    what = "%s input of %d bytes, %d frames, output %s" % (kind, len(b), len(p.frames), mode)
    c.hash.update(hashlib.sha1(b).digest() + repr((mode, lim, inp == "-")).encode())
    # the copy may fail before, amid or after the frames
    copyable = out is None or mode in ("file", "over") or (mode == "limit" and lim >= len(copy))
    shown = [b" " + esc(f) + b"\n" for f in p.frames]
    want = b"".join(shown)
    if exact and copyable:
        if so != want:
            j = next((i for i in range(min(len(so), len(want))) if so[i] != want[i]), min(len(so), len(want)))
            raise Violation("shown", "%s: standard output differs at byte %d: %r instead of %r (%d and %d bytes)" % (what, j, so[j:j + 40], want[j:j + 40], len(so), len(want)))
        check_lines(c, se, p, ct, p.frames, p.complete)
    else:
        if not want.startswith(so) or (so and not so.endswith(b"\n")):
            raise Violation("shown", "%s: standard output is not made of the first frames: %r" % (what, so[:100]))
    ok = p.complete and copyable
    if not p.rest and exact:
        if rc == 0 and not ok:
            raise Violation("success", "%s%s: exit status 0 although %s" % (what, " (limit %s of %d bytes)" % (lim, len(copy)) if lim is not None else "",
                                                                        "the input is not a complete stream" if not p.complete else "the copy could not be written"))
        if rc != 0 and ok:
            raise Violation("failure", "%s: exit status %d for a complete stream: %s" % (what, rc, se[-200:]))
        if rc != 0 and b"rror" not in se:
            raise Violation("silent", "%s: exit status %d without an error message: %s" % (what, rc, se[-200:]))
    if out and mode in ("file", "limit", "over") and exact:
        got = open(out, "rb").read() if os.path.exists(out) else b""
        if ok:
            if got != copy:
                raise Violation("copy", "%s: the copy (%d bytes) differs from the complete stream (%d bytes)" % (what, len(got), len(copy)))
            c.count("copies-compared")
        elif p.start or mode != "over":
            q = fs.parse_stream(got)
            if q.error or (q.start and q.ct != p.ct) or q.frames != p.frames[:len(q.frames)] or q.rest:
                raise Violation("copy", "%s: the copy holds something else than the first frames" % what)
    c.count("kind-" + kind)
    c.count("complete" if p.complete else "incomplete")
    c.count("success" if rc == 0 else "failure")
    c.count("frames-shown", so.count(b"\n"))
    c.count("copy-failures", bool(out and not copyable and p.start))
    c.sample = "%s, exit status %d" % (what, rc)


class Peer:
    """A scripted server for fstrm_replay."""
    def __init__(self, c, net):
        self.c, self.net = c, net
        r = c.rng
        if net == "unix":
            self.l = socket.socket(socket.AF_UNIX)
            self.l.bind(c.d + "/s")
            self.args = ["-u", c.d + "/s"]
        else:
            fam, ip = (socket.AF_INET6, "::1") if net == "tcp6" else (socket.AF_INET, "127.0.0.1")
            self.l = socket.socket(fam)
            self.l.bind((ip, 0))
            self.args = ["-a", ip, "-p", str(self.l.getsockname()[1])]
        if r.random() < 0.3:
            self.l.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 1 if net == "unix" else 60000)
        self.l.listen(5)
        self.rx = bytearray()
        self.s = None
        self.extra = 0

    def close(self):
        for x in (self.s, self.l):
            if x is not None:
                x.close()


def take_ctl(b):
    """a complete control frame at the start of b -> its length, else None"""
    if len(b) < 8:
        return None
    n = fs.u32(b, 4)
    return 8 + n if len(b) >= 8 + n else None


def scen_p28(c):
    r = c.rng
    net = r.choice(["unix", "unix", "tcp4", "tcp6"])
    while True:
        ct = rand_ct(r) if r.random() < 0.8 else b"test:hello"
        if b"\0" not in ct and not ct.startswith(b"-"):     # (would be an option)
            break
    names, want, bad = [], [], []

    def some():
        return None if nfr is None else [r.randbytes(r.randint(1, 5)) for _ in range(nfr)]
    n, nfr = r.choice([1, 1, 2, 3, 6]), None
    if c.case in (1, 2) or r.random() < 0.0005:
        if c.case == 1 or (c.case > 2 and r.random() < 0.5):
            # more files than 8 bits count
            n, nfr = r.randint(257, 300), r.randint(0, 2)
            c.count("long-many-files")
        else:
            # more frames than 16 bits count
            n, nfr = 1, r.randint(65540, 70000)
            c.count("long-many-frames")
    for j in range(n):
        k = r.random() if nfr is None or n > 1 else 0
        nm = "%s/file %d" % (c.d, j)
        fct = ct
        if k < 0.5:
            b = gen_file(r, ct if r.random() < 0.9 else None, some())
        elif k < 0.7:
            b = damage(r, gen_file(r, ct, some()))
        elif k < 0.9:
            b = gen_file(r, cap.near(r, ct) if len(ct) > 1 else b"other")
        else:
            b = None
            nm = r.choice([c.d + "/no such file", c.d + "/dir", c.d + "/file/x"])
            os.makedirs(c.d + "/dir", exist_ok=True)
        if b is not None:
            c.write("file %d" % j, b)
            p = fs.parse_stream(b, MAXF)
            if p.unknown >= 1000000:
                b = gen_file(r, ct)
                c.write("file %d" % j, b)
                p = fs.parse_stream(b, MAXF)
            if p.start and p.ct in (None, ct):
                want += p.frames
                c.count("files-replayed")
                if not p.complete:
                    c.count("incomplete-files")
            else:
                bad.append(nm)
        else:
            bad.append(nm)
        names.append(nm)
        if b is not None and r.random() < 0.1:
            names.append(nm)       # twice
            if nm not in bad:
                want += p.frames
    c.count("files-skipped", len(bad))
    mode = r.choice(["good"] * 6 + ["refuse", "refuse", "bad-accept", "close-early", "close-early", "close-amid", "no-finish", "no-finish", "bad-finish", "absent"])
    if c.case in (1, 2):
        mode = "good"
    data = b"".join(fs.data(f) for f in want)
    full = fs.ctl(fs.READY, [ct]) + fs.ctl(fs.START, [ct]) + data + fs.ctl(fs.STOP)
    peer = Peer(c, net)
    try:
        if mode == "absent":
            peer.close()
            if net == "unix" and r.random() < 0.5:
                os.unlink(c.d + "/s")
        argv = [c.exes["replay"], "-t", ct] + [x for nm in names for x in (r.choice(["-r", "--read-file"]), nm)] + peer.args
        with open(c.d + "/err", "wb") as ef:
            pr = subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, env=core.san_env(), cwd=c.d,
                                  preexec_fn=lambda: signal.signal(signal.SIGPIPE, signal.SIG_DFL), restore_signals=False)
        try:
            serve(c, peer, pr, mode, ct, full)
            try:
                rc = pr.wait(TIMEOUT)
            except subprocess.TimeoutExpired:
                raise Stuck("fstrm_replay did not exit within %d s (server: %s, %d bytes received)" % (TIMEOUT, mode, len(peer.rx)))
        finally:
            if pr.poll() is None:
                pr.kill()
                pr.wait()
    finally:
        peer.close()
    err = open(c.d + "/err", "rb").read()
    c.crash(rc if rc != -signal.SIGPIPE else 1, err)
    what = "server %s, %s, %d files (%d to skip), %d frames" % (mode, net, len(names), len(bad), len(want))
    rx = bytes(peer.rx)
    if not full.startswith(rx):
        j = next(i for i in range(len(rx)) if i >= len(full) or rx[i] != full[i])
        raise Violation("sent", "%s: bytes sent differ from the expected stream at %d: %s instead of %s" % (what, j, rx[j:j + 24].hex(), full[j:j + 24].hex()))
    good = mode == "good"
    if good and rx != full:
        raise Violation("sent", "%s: only %d of %d bytes were sent to a server that did its part, exit status %s: %s" % (what, len(rx), len(full), rc, err[-200:]))
    if mode in ("refuse", "bad-accept") and len(rx) > len(fs.ctl(fs.READY, [ct])):
        raise Violation("refused", "%s: %d bytes were sent after READY although the server did not accept the content type" % (what, len(rx)))
    if good != (rc == 0):
        raise Violation("status", "%s: exit status %s: %s" % (what, rc, err[-300:]))
    if rc != 0 and b"rror" not in err:
        raise Violation("silent", "%s: exit status %d without an error message: %s" % (what, rc, err[-200:]))
    if good:
        for nm in bad:
            if nm.encode() not in err:
                raise Violation("warning", "%s: no message names %s, which was to be skipped: %s" % (what, nm, err[-300:]))
        c.count("complete-exchanges")
        c.count("frames-received", len(want))
    c.count("server-" + mode)
    c.hash.update(hashlib.sha1(full).digest() + repr((mode, net, len(rx) if not good else 0)).encode())
    c.sample = "%s, exit status %d" % (what, rc)


def serve(c, peer, pr, mode, ct, full):
    r = c.rng
    if mode == "absent":
        return
    end = time.time() + TIMEOUT
    peer.l.settimeout(0.1)
    while True:
        try:
            peer.s, _ = peer.l.accept()
            break
        except OSError:
            if pr.poll() is not None or time.time() > end:
                return
    s = peer.s
    s.settimeout(TIMEOUT)

    def more(n=None):
        if r.random() < 0.02:
            time.sleep(0.002)
        b = s.recv(n or r.choice([1, 7, 100, 4096, 65536, 65536]) if len(peer.rx) < 3000 else 1 << 17)
        peer.rx.extend(b)
        return len(b) > 0

    def close():
        if r.random() < 0.4 and peer.net != "unix":
            s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        s.close()
        peer.s = None

    def send(b):
        while b:
            n = r.choice([len(b), len(b), 1, 3, 10])
            s.sendall(b[:n])
            b = b[n:]
            if r.random() < 0.1:
                time.sleep(0.001)
    try:
        if mode == "close-early" and r.random() < 0.3:
            return close()
        while take_ctl(peer.rx) is None:
            if not more(r.choice([1, 5, 64])):
                return
        if mode == "close-early":
            if r.random() < 0.5:
                send(fs.ctl(fs.ACCEPT, [ct])[:r.randint(0, 11)])
            return close()
        if mode == "refuse":
            l = [cap.near(r, ct) if len(ct) > 1 else b"no"] * r.choice([1, 1, 2])
            send(fs.ctl(fs.ACCEPT, [t for t in l]))
        elif mode == "bad-accept":
            send(r.choice([fs.ctl(fs.FINISH), fs.ctl(fs.READY, [ct]), fs.ctl(fs.START, [ct]), fs.ctl(fs.STOP), fs.ctl(fs.ACCEPT, [ct], b"\0\0\0\1"), fs.data(b"hello"), fs.ctl(77), fs.be32(0) + fs.be32(600)]))
        else:
            l = r.choice([[], [ct], [ct], [ct], [cap.near(r, ct) if len(ct) > 1 else b"no", ct], [ct, b"zz"]])
            send(fs.ctl(fs.ACCEPT, l if sum(8 + len(t) for t in l) <= 508 else [ct]))
        if mode in ("refuse", "bad-accept"):
            while more():
                pass
            return
        if mode == "close-amid":
            lim = r.randint(len(fs.ctl(fs.READY, [ct])), len(full))
            while len(peer.rx) < lim and full != bytes(peer.rx[:len(full)]):
                if not more():
                    return
            return close()
        if len(full) > 200000:
            while len(peer.rx) < len(full):
                if not more(1 << 17):
                    return
        while len(peer.rx) < len(full):
            if not more():
                return
        if mode == "no-finish":
            if r.random() < 0.5:
                send(fs.ctl(fs.FINISH)[:r.randint(0, 11)])
            return close()
        if mode == "bad-finish":
            send(r.choice([fs.ctl(fs.ACCEPT, [ct]), fs.ctl(fs.STOP), fs.ctl(fs.START), fs.ctl(99), fs.data(b"bye bye bye"), fs.ctl(fs.FINISH, [ct])]))
        else:
            send(fs.ctl(fs.FINISH))
        while more():
            pass
    except socket.timeout:
        raise Stuck("fstrm_replay neither sends nor closes for %d s (server: %s, %d of %d bytes received)" % (TIMEOUT, mode, len(peer.rx), len(full)))
    except OSError:
        pass


SCEN = {"P27": scen_p27, "P28": scen_p28}


def run_case(pid, exes, root, case, seed, keep=False):
    if pid == "P31":
        import argscen
        SCEN["P31"] = argscen.scen_p31
    if pid == "P32":
        import memscen
        SCEN["P32"] = memscen.scen_p32
    for attempt in range(2):
        c = Base(pid, exes, root, case, seed)
        v = []
        try:
            SCEN[pid](c)
        except Violation as e:
            v.append((e.kind, str(e)))
        except Stuck as e:
            v.append(("hang", str(e)))
        finally:
            if not keep:
                shutil.rmtree(c.d, ignore_errors=True)
        if v and v[0][0] == "hang" and attempt == 0:
            continue
        if attempt == 1 and not v:
            c.count("inconclusive-timeouts")
        break
    return dict(violations=v, counters=c.counters, hash=c.hash.hexdigest()[:16], sample=c.sample if case % 97 == 5 else None)
