"""P32 for fstrm_dump and fstrm_replay: heap use of long runs."""
import os
import signal
import socket
import struct
import subprocess
import threading
import fs
import core
import toolscen
from capture import Violation, Stuck

MAXF = toolscen.MAXF


def largest(b):
    """the longest admissible data frame length announced in the stream"""
    o, m = 0, 0
    while len(b) - o >= 4:
        n = fs.u32(b, o)
        o += 4
        if n == 0:
            if len(b) - o < 4 or fs.u32(b, o) > fs.CTL_MAX:
                break
            o += 4 + fs.u32(b, o)
        elif n > MAXF:
            break
        else:
            m = max(m, n)
            o += n
    return m


def long_stream(r, ct):
    S, P = fs.ctl(fs.START, [ct]), fs.ctl(fs.STOP)
    k = r.choice(["small", "small", "varied", "large", "control", "cut", "overlong", "announced"])
    if k == "small":
        d = b"".join(fs.data(r.randbytes(r.randint(1, 40))) for _ in range(500)) * r.choice([40, 80])
    elif k == "varied":
        d = b"".join(fs.data(r.randbytes(r.choice([1, 100, 3000, 20000]))) for _ in range(100)) * r.choice([1, 4])
    elif k == "large":
        d = b"".join(fs.data(bytes(r.randint(MAXF // 2, MAXF))) for _ in range(r.randint(1, 4)))
    elif k == "control":
        d = b"".join(toolscen.unknown(r) + fs.data(b"x" * r.randint(1, 9)) for _ in range(200)) * 100
    else:
        d = b"".join(fs.data(r.randbytes(r.randint(1, 400))) for _ in range(300)) * r.choice([1, 20])
        if k == "cut":
            return k, S + d[:r.randrange(len(d))]
        if k == "overlong":
            return k, S + d + fs.be32(r.choice([MAXF + 1, MAXF + 2, 1 << 24, 1 << 31, (1 << 32) - 1])) + bytes(2000)
        return k, S + d + fs.be32(r.randint(MAXF // 2, MAXF)) + bytes(r.choice([0, 100, 5000]))
    return k, S + d + P


def heap(c):
    with open(c.d + "/page", "rb") as f:
        live, peak, calls = struct.unpack_from("<qqQ", f.read(128), 64)
    if not calls:
        raise core.CheckError("the program's allocations are not seen")
    return peak


def scen_p32(c):
    r = c.rng
    with open(c.d + "/page", "wb") as f:
        f.write(bytes(4096))
    env = core.san_env(SHIM_PAGE=c.d + "/page")
    ct = b"test:memory"
    if r.random() < 0.5:
        kind, b = long_stream(r, ct)
        F = largest(b)
        p = c.write("in", b)
        argv, stdin = [c.exes["dump"], p], subprocess.DEVNULL
        if r.random() < 0.4:
            stdin = open(p, "rb")
            argv[1] = "-"
        out = r.choice(["none", "file", "file", "null"])
        if out != "none":
            argv.append(c.d + "/copy" if out == "file" else "/dev/null")
        pr = subprocess.Popen(argv, stdin=stdin, stdout=subprocess.DEVNULL, stderr=open(c.d + "/err", "wb"), env=env, cwd=c.d)
        try:
            rc = pr.wait(toolscen.TIMEOUT)
        except subprocess.TimeoutExpired:
            pr.kill()
            pr.wait()
            raise Stuck("fstrm_dump did not exit within %d s" % toolscen.TIMEOUT)
        what = "fstrm_dump of %d bytes (%s, output: %s)" % (len(b), kind, out)
        bound = 65536 + 4 * F
        c.count("dump-" + kind)
    else:
        pool = [long_stream(r, ct) for _ in range(r.choice([1, 2, 3]))]
        F = max(largest(b) for _, b in pool)
        names = []
        for j, (_, b) in enumerate(pool):
            names.append(c.write("f%d" % j, b))
        many = r.random() < 0.5
        if many:
            # the same few, short and long, over and over
            c.write("short", fs.ctl(fs.START, [ct]) + fs.data(b"abc") + fs.ctl(fs.STOP))
            c.write("other", fs.ctl(fs.START, [b"another type"]) + fs.ctl(fs.STOP))
            names = names + [c.d + "/" + r.choice(["short", "other", "missing"]) for _ in range(r.choice([300, 1000]))]
        net = r.choice(["unix", "tcp4"])
        peer = toolscen.Peer(c, net)
        got = [0]

        def serve():
            peer.l.settimeout(toolscen.TIMEOUT)
            try:
                s, _ = peer.l.accept()
                peer.s = s
                s.settimeout(toolscen.TIMEOUT)
                first, tail = b"", b""
                while toolscen.take_ctl(first) is None:
                    x = s.recv(4096)
                    if not x:
                        return
                    first += x
                s.sendall(fs.ctl(fs.ACCEPT, [ct]))
                stop = fs.ctl(fs.STOP)
                while True:
                    s.settimeout(0.3 if tail[-12:] == stop else toolscen.TIMEOUT)
                    try:
                        x = s.recv(1 << 18)
                    except socket.timeout:
                        break
                    if not x:
                        return
                    got[0] += len(x)
                    tail = (tail + x)[-12:]
                s.sendall(fs.ctl(fs.FINISH))
                s.settimeout(toolscen.TIMEOUT)
                while s.recv(4096):
                    pass
            except OSError:
                pass
        th = threading.Thread(target=serve)
        th.start()
        argv = [c.exes["replay"], "-t", ct] + [x for nm in names for x in ("-r", nm)] + peer.args
        pr = subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=open(c.d + "/err", "wb"), env=env, cwd=c.d,
                              preexec_fn=lambda: signal.signal(signal.SIGPIPE, signal.SIG_DFL), restore_signals=False)
        try:
            rc = pr.wait(toolscen.TIMEOUT)
        except subprocess.TimeoutExpired:
            pr.kill()
            pr.wait()
            raise Stuck("fstrm_replay did not exit within %d s" % toolscen.TIMEOUT)
        finally:
            th.join()
            peer.close()
        what = "fstrm_replay of %d files (%s), %d bytes sent" % (len(names), ", ".join(k for k, _ in pool), got[0])
        bound = 65536 + 4 * F + 96 * len(names)
        c.count("replay-many-files" if many else "replay-long-files")
        c.count("bytes-replayed", got[0])
    err = open(c.d + "/err", "rb").read()
    c.crash(rc if rc != -signal.SIGPIPE else 1, err)
    peak = heap(c)
    if peak > bound:
        raise Violation("memory-bound", "%s used up to %d bytes, the longest admissible frame has %d" % (what, peak, F))
    c.count("tool-runs")
    c.hash.update(what.encode())
    c.memo = c.sample = "%s: %d bytes at most, longest admissible frame %d, exit status %d" % (what, peak, F, rc)
