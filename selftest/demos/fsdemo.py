"""Frame Streams framing and program helpers for the demonstrations."""
import os, signal, socket, struct, subprocess, sys, time
SRC = os.environ["SRC"]
B = SRC + "/_build/src/"
ACCEPT, START, STOP, READY, FINISH = 1, 2, 3, 4, 5


def ctl(t, *types):
    b = struct.pack(">I", t) + b"".join(struct.pack(">II", 1, len(x)) + x for x in types)
    return struct.pack(">II", 0, len(b)) + b


def frame(d):
    return struct.pack(">I", len(d)) + d


def stream(frames, ct=b"t", stop=True):
    return ctl(START, *([] if ct is None else [ct])) + b"".join(map(frame, frames)) + (ctl(STOP) if stop else b"")


def parse(b):
    """-> (control types and data frames in order, complete)"""
    out, p = [], 0
    while p + 4 <= len(b):
        n, = struct.unpack_from(">I", b, p)
        p += 4
        if n == 0:
            if p + 4 > len(b):
                return out, False
            n, = struct.unpack_from(">I", b, p)
            p += 4
            if p + n > len(b):
                return out, False
            out.append(struct.unpack_from(">I", b, p)[0])
        else:
            if p + n > len(b):
                return out, False
            out.append(b[p:p + n])
        p += n
    return out, p == len(b)


def data(b):
    return [x for x in parse(b)[0] if isinstance(x, bytes)]


class Capture:
    def __init__(self, *args, out="out.fs", ct="t", env=None):
        self.sock = os.path.abspath("s.sock")
        self.out = out
        e = dict(os.environ, **(env or {}))
        self.err = open("capture.err", "wb")
        self.p = subprocess.Popen([B + "fstrm_capture", "-t", ct, "-u", self.sock, "-w", out] + list(args), stdin=subprocess.DEVNULL,
                                  stdout=open("capture.out", "wb"), stderr=self.err, env=e,
                                  preexec_fn=lambda: signal.signal(signal.SIGXFSZ, signal.SIG_IGN))
        for _ in range(500):
            try:
                s = socket.socket(socket.AF_UNIX)
                s.connect(self.sock)
                s.close()
                break
            except OSError:
                time.sleep(0.02)
        time.sleep(0.3)

    def stop(self, sig=signal.SIGTERM, wait=20):
        if self.p.poll() is None:
            self.p.send_signal(sig)
        try:
            return self.p.wait(wait)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
            return "hang"

    def content(self):
        return open(self.out, "rb").read()


class Client:
    def __init__(self, path, timeout=10):
        self.s = socket.socket(socket.AF_UNIX)
        self.s.settimeout(timeout)
        self.s.connect(path)
        self.b = b""

    def send(self, *parts, gap=0):
        for x in parts:
            try:
                self.s.sendall(x)
            except OSError:
                return False
            if gap:
                time.sleep(gap)
        return True

    def control(self):
        """the next control frame's (type, content types); None at the end, 'timeout'"""
        while True:
            if len(self.b) >= 8:
                n = struct.unpack_from(">I", self.b, 4)[0]
                if len(self.b) >= 8 + n:
                    f, self.b = self.b[8:8 + n], self.b[8 + n:]
                    ts, p = [], 4
                    while p < n:
                        ln = struct.unpack_from(">I", f, p + 4)[0]
                        ts.append(f[p + 8:p + 8 + ln])
                        p += 8 + ln
                    return struct.unpack_from(">I", f)[0], ts
            try:
                d = self.s.recv(65536)
            except socket.timeout:
                return "timeout"
            except OSError:
                return None
            if not d:
                return None
            self.b += d

    def reset(self):
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
        self.s.close()

    def session(self, frames, ct=b"t"):
        """a complete session; True if FINISH came"""
        if not self.send(ctl(READY, ct)):
            return False
        r = self.control()
        if not r or r == "timeout" or r[0] != ACCEPT:
            return False
        self.send(stream(frames, ct))
        r = self.control()
        self.s.close()
        return bool(r) and r != "timeout" and r[0] == FINISH


def tcp_reset_pair():
    raise NotImplementedError


def check(c, *msg):
    if not c:
        print("FAILED", *msg, flush=True)
        try:
            for p in PROCS:
                p.kill()
        finally:
            os._exit(1)


PROCS = []


def run(*a, **k):
    return subprocess.run(list(a), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60, **k)


class Submitter:
    """A program with an I/O thread (sub.c)."""
    def __init__(self, addr, port="-", queues=1, length=0):
        here = os.path.dirname(os.path.abspath(__file__))
        if not os.path.exists("sub"):
            subprocess.check_call("cd %s && gcc -g -w -include _build/config.h -I. -Ifstrm -o %s/sub %s/sub.c fstrm/*.c libmy/my_queue_mb.c libmy/my_queue_mutex.c -lpthread" % (SRC, DIR, here), shell=True)
        self.p = subprocess.Popen(["./sub", addr, str(port), str(queues), str(length)], stdin=subprocess.PIPE, stdout=subprocess.PIPE)
        PROCS.append(self.p)

    def submit(self, first, n=1, queue=0):
        try:
            self.p.stdin.write(b"s %d %d %d\n" % (first, n, queue))
            self.p.stdin.flush()
        except OSError:
            return False
        return self.p.stdout.readline() == b"ok\n"

    def quit(self, wait=20):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            return self.p.wait(wait)
        except subprocess.TimeoutExpired:
            self.p.kill()
            return "hang"


DIR = os.getcwd()
