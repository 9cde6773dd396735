"""Scenarios for P31: the tools and their command lines."""
import hashlib
import os
import re
import select
import signal
import socket
import struct
import subprocess
import time
import fs
import core
import capture as cap
from capture import Violation, Stuck, payload
from toolscen import gen_file, take_ctl, esc

TIMEOUT = 40
BADADDR = ["", "256.1.1.1", "1.2.3.4.5", "127.0.0.1x", "localhost", "127.0.0.", ":::", "12345::", "1::2::3", " 127.0.0.1", "1:2:3:4:5:6:7", "g::1", "[::1]", "127.0.0.1 ", "/tmp/s", "::1]"]
BADPORT = ["x", "80x", "65536", "99999999999", "-1", "8 0", "", "0x", "port", "6553665536", "4294967376", "80,81"]
PRINT = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 .,:;=/-_+'\"\\$&*()[]{}|<>?!@#^~`"


def name(r, n):
    s = bytes(r.choice(b"abcdefghijklmnopqrstuvwxyzABCDEF0123456789 .,:=_+-@#") for _ in range(n)).decode()
    return "n" + s[1:] if s[0] == "-" else s


def rand_type(r):
    k = r.random()
    if k < 0.3:
        return r.choice([t for t in cap.TYPES if t])
    n = r.choice([1, 2, 20, 100, 255, 256])
    if k < 0.7:
        t = bytes(r.choice(PRINT) for _ in range(n))
    else:
        t = bytes(r.randint(1, 255) for _ in range(n))
    return b"T" + t[1:] if t[:1] == b"-" else t


def spell(r, short, longs, v, attach=True):
    """one of the ways of giving an option its value"""
    v = v if isinstance(v, bytes) else v.encode()
    k = r.random()
    o = ("-" + short if r.random() < 0.5 else "--" + r.choice(longs)).encode()
    if attach and k < 0.25:
        return [o + b"=" + v]
    return [o, v]


def spellings(r, opts, attach=True):
    """opts: (short, longs, value or None) in random order"""
    opts = list(opts)
    r.shuffle(opts)
    out = []
    for s, l, v in opts:
        if v is None:
            out.append((("-" + s) if s and r.random() < 0.5 else "--" + r.choice(l)).encode())
        else:
            out += spell(r, s, l, v, attach)
    return out


def snapshot(d):
    out = {}
    for dp, dn, fn in os.walk(d):
        for n in dn + fn:
            p = os.path.join(dp, n)
            st = os.lstat(p)
            out[os.path.relpath(p, d)] = (st.st_mode, st.st_size, st.st_mtime_ns, open(p, "rb").read() if n in fn and os.path.isfile(p) else None)
    return out


def show(argv):
    return " ".join(repr(a.decode("latin1"))[1:-1] if re.fullmatch(rb"[\w./:=%-]+", a) else repr(a.decode("latin1")) for a in argv)


def listening(pid):
    """the sockets a process listens at: ("unix", path) or (family, ip, port); None if that cannot be seen"""
    try:
        ino = set()
        for f in os.listdir("/proc/%d/fd" % pid):
            try:
                l = os.readlink("/proc/%d/fd/%s" % (pid, f))
            except OSError:
                continue
            if l.startswith("socket:["):
                ino.add(l[8:-1])
        out = []
        for l in open("/proc/net/unix", errors="surrogateescape").read().splitlines()[1:]:
            m = re.match(r"\S+ \S+ \S+ (\S+) \S+ \S+ +(\d+) ?(.*)", l)
            if m and m.group(2) in ino and int(m.group(1), 16) & 0x10000:
                out.append(("unix", m.group(3)))
        for fam, n in ((socket.AF_INET, "tcp"), (socket.AF_INET6, "tcp6")):
            for l in open("/proc/net/" + n).read().splitlines()[1:]:
                w = l.split()
                if w[9] in ino and w[3] == "0A":
                    a, p = w[1].split(":")
                    b = b"".join(struct.pack("=I", int(a[i:i + 8], 16)) for i in range(0, len(a), 8))
                    out.append((n, socket.inet_ntop(fam, b), int(p, 16)))
        return out
    except (OSError, IndexError):
        return None


class Run:
    """a tool started in the directory of the case"""
    def __init__(self, c, argv, stdout=None, env=(), quiet=True, clock=0):
        self.c, self.argv = c, argv
        pg = bytearray(4096)
        pg[0:8] = struct.pack("<q", clock)
        pg[8:12] = struct.pack("<i", 1 if quiet else 0)
        with open(c.d + "/page", "wb") as f:
            f.write(pg)
        self.errf = open(c.d + "/stderr", "wb")
        e = core.san_env(SHIM_PAGE=c.d + "/page")
        if quiet:
            e["ASAN_OPTIONS"] = e.get("ASAN_OPTIONS", "") + ":detect_leaks=0"
        e.update(dict(env))
        self.t0 = time.time()
        self.p = subprocess.Popen([a if isinstance(a, bytes) else a.encode() for a in argv], stdin=subprocess.DEVNULL, stdout=self.errf if stdout is None else stdout, stderr=self.errf, cwd=c.d + "/w",
                                  env=e, preexec_fn=lambda: signal.signal(signal.SIGPIPE, signal.SIG_DFL), restore_signals=False)

    def clock(self, v):
        with open(self.c.d + "/page", "r+b") as f:
            f.write(struct.pack("<q", v))

    def err(self):
        return open(self.c.d + "/stderr", "rb").read()

    def wait(self):
        try:
            rc = self.p.wait(TIMEOUT)
        except subprocess.TimeoutExpired:
            raise Stuck("%s does not exit" % show(self.argv[1:]))
        self.c.crash(rc, self.err())
        return rc

    def end(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        self.errf.close()


def place(c, tool, decoy=False):
    """where to listen or connect to: dict(net, opts, addr)"""
    r = c.rng
    net = r.choice(["unix", "unix", "tcp4", "tcp6"])
    if net == "unix":
        k = r.random()
        n = r.choice([1, 2, 10, 50, 106, 107]) if k < 0.6 else r.randint(1, 107)
        p = name(r, n)
        if k > 0.8 and n > 3:
            p = "sub/" + p[4:] if len(p) > 4 else p
        if p in (".", "..", "sub", "sub/", "sub/.", "sub/.."):
            p = "sock"
        return dict(net=net, addr=p, opts=[("u", ["unix"], p)])
    if net == "tcp4":           # (an address and port of its own: many servers run at once)
        a = "127.%d.%d.%d" % (r.randint(1, 250), r.randint(0, 250), r.randint(1, 250))
        canon = a
    else:
        a = r.choice(["::1", "0:0:0:0:0:0:0:1", "::0001", "0::1"])
        canon = "::1"
    if net == "tcp4":
        port = r.choice([65535, 32768, 1024 + r.randint(0, 64511), r.randint(10000, 29999)])
    else:                       # outside the range of ephemeral ports, which connections to ::1 use up
        w = os.getpid() % 37
        port = r.choice([10000 + w * 600 + r.randint(0, 599), 61000 + w * 120 + r.randint(0, 119)])
    return dict(net=net, addr=(canon, port), opts=[("a", ["tcp"], a), ("p", ["port"], str(port))])


def sock_for(net):
    return socket.socket({"unix": socket.AF_UNIX, "tcp4": socket.AF_INET, "tcp6": socket.AF_INET6}[net])


class Here:
    """chdir into w for the time of a bind or connect with a long relative name (each case has a process of its own here)"""
    def __init__(self, c):
        self.c = c

    def __enter__(self):
        self.old = os.getcwd()
        os.chdir(self.c.d + "/w")

    def __exit__(self, *a):
        os.chdir(self.old)


def connect(c, pl):
    s = sock_for(pl["net"])
    s.settimeout(TIMEOUT)
    try:
        if pl["net"] == "unix":
            with Here(c):
                s.connect(pl["addr"])
        else:
            s.connect(pl["addr"])
        return s
    except OSError:
        s.close()
        return None


def read_ctl(c, s, what, none_within=None):
    b = bytearray()
    if none_within is not None:
        rd, _, _ = select.select([s], [], [], none_within)
        return bool(rd)
    try:
        while take_ctl(b) is None:
            x = s.recv(1000)
            if not x:
                raise Violation("session", "%s: connection closed after %r" % (what, bytes(b)))
            b += x
    except socket.timeout:
        raise Stuck("%s: no reply" % what)
    except OSError as e:
        raise Violation("session", "%s: %s" % (what, e))
    k, t, cts = fs.dec_ctl(bytes(b[8:take_ctl(b)]))
    return t if k == "ok" else None


# ------------------------------------------------------------------ capture
def capture_config(c):
    r = c.rng
    f = dict(pl=place(c, "capture"), ct=rand_type(r), hw=262144, limit=0, split=0, cal=None, debug=0, out=None)
    o = list(f["pl"]["opts"])
    o.append(("t", ["type"], f["ct"]))
    k = r.random()
    f["stdout"] = k < 0.15
    f["tz"] = r.choice([None, "XXX-3", "ABC5"])
    f["cal"] = r.choice([None, None, "--gmtime", "--localtime"])
    if f["cal"] and not f["stdout"] and r.random() < 0.7:
        f["split"] = r.choice([1, 2, 7, 60, 3600, 86400])
    if f["stdout"]:
        f["pat"] = "-"
    elif f["cal"] or r.random() < 0.2:
        f["pat"] = r.choice(["out-%Y%m%d-%H%M%S", "%s.x", "o%%%H:%M:%S %j %y", "sub/%F.%T", "100%%"]) if f["cal"] else r.choice(["out-%Y", "%s", "100%%", "%", "o%d%n%s"])
        if f["split"] and f["pat"] == "100%%":
            f["pat"] = "out%s"
    else:
        f["pat"] = r.choice(["", "sub/", "./"]) + name(r, r.choice([1, 5, 100, 200]))
        if os.path.basename(f["pat"]) in ("", ".", "..", "sub") or f["pat"] == f["pl"]["addr"]:
            f["pat"] = "output"
    o.append(("w", ["write"], f["pat"]))
    if r.random() < 0.5:
        b = r.choice([1, 519, 520, 521, 1000, 4096, 65536, 262143, 262145, 400000, r.randint(520, 20000)])
        o.append(("b", ["buffersize"], str(b)))
        f["hw"] = max(b, 520)
    if r.random() < 0.4:
        f["limit"] = r.choice([1, 2, 3, 8] * 6 + [255, 256, 257, 300])
        o.append(("c", ["maxconns"], str(f["limit"])))
    if f["split"]:
        o.append(("s", ["split"], str(f["split"])))
    if f["cal"]:
        o.append(("", [f["cal"][2:]], None))
    for _ in range(r.choice([0, 0, 1, 2, 7])):
        o.append(("d", ["debug"], None))
    f["opts"] = o
    return f


def out_name(f, t):
    if f["cal"] is None:
        return f["pat"]
    off = {None: 0, "XXX-3": 3 * 3600, "ABC5": -5 * 3600}[f["tz"]] if f["cal"] == "--localtime" else 0
    p = f["pat"].replace("%%", "\0").replace("%s", str(t + off - {None: 0, "XXX-3": 3 * 3600, "ABC5": -5 * 3600}[f["tz"]])).replace("\0", "%%")
    return time.strftime(p, time.gmtime(t + off))


def drop(o, *shorts):
    return [x for x in o if x[0] not in shorts]


def put(o, short, v):
    return [(x[0], x[1], v) if x[0] == short else x for x in o]


def bad_line(c, f, o, tool):
    """(kind, argument list, whether refused before anything happens)"""
    r = c.rng
    pl = f["pl"]
    sp = lambda x: spellings(r, x)
    kinds = ["no-type", "no-place", "unknown-long", "unknown-short", "no-value", "surplus", "bad-port", "bad-addr", "no-port", "long-path", "help"]
    kinds += ["no-output", "split-stdout", "split-no-zone", "two-zones", "tty"] if tool == "capture" else ["no-file", "two-places", "long-type"]
    while True:
        k = r.choice(kinds)
        if k in ("bad-port", "bad-addr", "no-port") and pl["net"] == "unix":
            continue
        break
    if k == "no-type":
        return k, sp(drop(o, "t"))
    if k == "no-place":
        return k, sp(drop(o, "u", "a", "p"))
    if k == "unknown-long":
        l = sp(o)
        l.insert(r.choice([0, len(l)]), r.choice([b"--nonsense", b"--typex", b"--unix-", b"--ports", b"--gmtimes", b"--writeread"]))
        return k, l
    if k == "unknown-short":
        l = sp(o)
        l.insert(r.choice([0, len(l)]), r.choice([b"-Z", b"-q", b"-T", b"-0", b"-@"]))
        return k, l
    if k == "no-value":
        x = r.choice([x for x in o if x[2] is not None])
        o2 = list(o)
        if x[0] not in ("r",):
            o2.remove(x)
        return k, sp(o2) + [("-" + x[0]).encode() if r.random() < 0.5 else ("--" + x[1][0]).encode()]
    if k == "surplus":
        return k, sp(o) + r.choice([[], [], [b"--"]]) + [r.choice([b"surplus", b"-", b"a b", b"out", b""])]
    if k == "bad-port":
        return k, sp(put(o, "p", r.choice(BADPORT)))
    if k == "bad-addr":
        return k, sp(put(o, "a", r.choice(BADADDR)))
    if k == "no-port":
        return k, sp(drop(o, "p"))
    if k == "long-path":
        p = name(r, r.choice([108, 109, 150, 255, 300])) if tool == "capture" or r.random() < 0.5 else "x" * 108
        f["long"] = p
        return k, sp(drop(o, "u", "a", "p") + [("u", ["unix"], p)])
    if k == "help":
        l = sp(o)
        l.insert(r.choice([0, len(l)]), r.choice([b"-h", b"--help"]))
        return k, l
    if k == "no-output":
        return k, sp(drop(o, "w"))
    if k == "split-stdout":
        return k, sp(put(drop(o, "s", ""), "w", "-") + [("s", ["split"], "60"), ("", ["gmtime"], None)])
    if k == "split-no-zone":
        return k, sp(put(drop(o, "s", ""), "w", "out") + [("s", ["split"], "60")])
    if k == "two-zones":
        return k, sp(put(drop(o, "s", ""), "w", "out") + [("", ["localtime"], None), ("", ["gmtime"], None)])
    if k == "tty":
        return k, sp(put(drop(o, "s", ""), "w", "-"))
    if k == "no-file":
        return k, sp(drop(o, "r"))
    if k == "two-places":
        return k, sp(drop(o, "u", "a", "p") + [("u", ["unix"], "decoy"), ("a", ["tcp"], "127.0.0.1"), ("p", ["port"], str(f["port"]))])
    if k == "long-type":
        return k, sp(put(o, "t", name(r, r.choice([257, 258, 300, 512, 5000]))))
    raise AssertionError(k)


def capture_refused(c):
    r = c.rng
    f = capture_config(c)
    k, line = bad_line(c, f, f["opts"], "capture")
    # files that must stay as they are
    now = 1700000000 + r.randint(0, 10**7)
    for n in {out_name(f, now) if f["pat"] != "-" else "out", "out", f["pl"]["addr"] if f["pl"]["net"] == "unix" else "x", (f.get("long") or "y")[:107], (f.get("long") or "y")[:108], "-"}:
        if r.random() < 0.6 and not os.path.lexists(c.d + "/w/" + n):
            with open(c.d + "/w/" + n, "wb") as h:
                h.write(b"precious " * r.randint(1, 100))
    before = snapshot(c.d + "/w")
    m = s = None
    if k == "tty":
        try:
            m, s = os.openpty()
        except OSError:
            k, line = "no-output", spellings(r, drop(f["opts"], "w"))
    run = Run(c, [c.exes["capture"]] + line, stdout=s, clock=now, env={"TZ": f["tz"]}.items() if f["tz"] else ())
    what = "fstrm_capture %s (%s)" % (show(line), k)
    try:
        while run.p.poll() is None:
            if listening(run.p.pid):
                time.sleep(0.3)         # (it may be about to give up)
                if run.p.poll() is None:
                    raise Violation("accepted", "%s is not refused, the server runs" % what)
            if time.time() - run.t0 > TIMEOUT:
                raise Violation("accepted", "%s is not refused, the server still runs after %d s" % (what, TIMEOUT))
            time.sleep(0.005)
        rc = run.p.returncode
        c.crash(rc, run.err())
    finally:
        run.end()
        for x in (m, s):
            if x is not None:
                os.close(x)
    if rc == 0 and k != "help":
        raise Violation("status", "%s: exit status 0" % what)
    same(c, before, what)
    c.count("refused-" + k)
    c.hash.update(repr(("c", k, line)).encode())
    c.sample = what


def same(c, before, what):
    after = snapshot(c.d + "/w")
    for p in sorted(set(before) | set(after)):
        if before.get(p) != after.get(p):
            raise Violation("side-effect", "%s: refused, but %r was %s" % (what, p, "created" if p not in before else "removed" if p not in after else "changed"))


def capture_accepted(c):
    r = c.rng
    now = 1700000000 + r.randint(0, 10**7)
    for attempt in range(6):
        f = capture_config(c)
        pl = f["pl"]
        if pl["net"] == "unix" and f["pat"] != "-" and out_name(f, now) == pl["addr"]:
            continue
        name0 = out_name(f, now)
        line = spellings(r, f["opts"])
        if pl["net"] == "unix" and r.random() < 0.3:
            with Here(c):
                if not os.path.lexists(pl["addr"]):
                    x = socket.socket(socket.AF_UNIX)
                    x.bind(pl["addr"])      # left behind by an earlier run
                    x.close()
        if pl["net"] == "unix" and r.random() < 0.2:
            line += [b"-p", b"99"]          # ignored
        if not f["stdout"] and r.random() < 0.3:
            with open(c.d + "/w/" + name0, "wb") as h:
                h.write(b"old contents " * 10000)
        before = snapshot(c.d + "/w")
        so = open(c.d + "/so", "wb") if f["stdout"] else None
        run = Run(c, [c.exes["capture"]] + line, stdout=so, clock=now, env={"TZ": f["tz"]}.items() if f["tz"] else ())
        what = "fstrm_capture %s" % show(line)
        try:
            s, end = None, time.time() + TIMEOUT
            while s is None and time.time() < end and run.p.poll() is None:
                s = connect(c, pl)
                if s is None:
                    time.sleep(0.002)
            if s is None and run.p.poll() is not None:
                e = run.err()
                if pl["net"] != "unix" and b"event loop" in e:
                    continue                # the port is taken
                c.crash(run.p.returncode, e)
                raise Violation("refused", "%s: exit status %s: %s" % (what, run.p.returncode, e[-300:]))
            if s is None:
                raise Violation("place", "%s: nobody listens there" % what)
            capture_session(c, f, run, s, what, now, before)
        finally:
            run.end()
            if so:
                so.close()
        c.hash.update(repr(("C", line)).encode())
        c.sample = what
        return
    raise core.CheckError("no free TCP port found")


def send(s, b, what):
    try:
        s.sendall(b)
    except socket.timeout:
        raise Stuck("%s: the server does not read" % what)
    except OSError as e:
        raise Violation("session", "%s: %s while sending to the server" % (what, e))


def capture_session(c, f, run, s, what, now, before):
    r = c.rng
    pl, hw, ct = f["pl"], f["hw"], f["ct"]
    l = listening(run.p.pid)
    if l:
        w = ("unix", pl["addr"]) if pl["net"] == "unix" else ({"tcp4": "tcp", "tcp6": "tcp6"}[pl["net"]],) + pl["addr"]
        if [x for x in l if x != w] or len(l) != 1:
            raise Violation("place", "%s: listens at %r" % (what, l))
        c.count("listening-sockets-seen")
    # a foreign content type is not admitted
    stored = []
    kept = [s]
    send(s, fs.ctl(fs.READY, [cap.near(r, ct)] if r.random() < 0.5 and len(ct) > 1 and hw >= 600 else [b"foreign", b"types"] if ct != b"foreign" else [b"x"]), what)
    x = b"."
    try:
        x = s.recv(1)
    except socket.timeout:
        raise Stuck("%s: a client of a foreign content type is kept" % what)
    except OSError:
        x = b""
    if x:
        raise Violation("type", "%s: admits a foreign content type" % what)
    s.close()
    n = f["limit"] or r.choice([2, 12])
    kept = []
    for i in range(n):
        s = connect(c, pl)
        if s is None:
            raise Violation("place", "%s: connection %d refused" % (what, i))
        send(s, fs.ctl(fs.READY, [ct]), what)
        if read_ctl(c, s, what) != fs.ACCEPT:
            raise Violation("type", "%s: the content type is not accepted" % what)
        kept.append(s)
    if f["limit"]:
        s = connect(c, pl)
        if s is not None:
            send(s, fs.ctl(fs.READY, [ct]), what)
            if read_ctl(c, s, what, none_within=0.03):
                raise Violation("limit", "%s: %d clients are served at once" % (what, n + 1))
            s.close()
        c.count("limits-in-force")
    files = [out_name(f, now)]
    s = kept[0]
    send(s, fs.ctl(fs.START, [ct]), what)
    frames = []
    for _ in range(r.choice([1, 3])):
        for sz in (r.randint(1, 300), hw - 4, hw - 3, hw - 5, 1):
            frames.append(payload(r, sz))
    for b in frames:
        send(s, fs.data(b), what)
        if len(b) + 4 <= hw:
            stored.append(b)
    counts = None
    if f["split"]:
        # one interval later: the next frame goes to a file of its own
        sync(c, f, run, files[0], stored, what)
        t = now + f["split"]
        run.clock(t)
        trig = payload(r, 30)
        send(s, fs.data(trig), what)
        # (whether the frame that makes the rotation happen is in the old or the new file is not judged)
        files.append(out_name(f, t))
        stored.append(trig)
        end = time.time() + TIMEOUT
        while not os.path.exists(c.d + "/w/" + files[1]):
            if time.time() > end or run.p.poll() is not None:
                raise Violation("split", "%s: no file %r after the interval" % (what, files[1]))
            time.sleep(0.002)
        last = payload(r, 40)
        send(s, fs.data(last), what)
        stored.append(last)
        c.count("splits")
    send(s, fs.ctl(fs.STOP), what)
    if read_ctl(c, s, what) != fs.FINISH:
        raise Violation("session", "%s: no FINISH" % what)
    for s in kept:
        s.close()
    run.p.send_signal(r.choice([signal.SIGTERM, signal.SIGINT]))
    rc = run.wait()
    if rc != 0:
        raise Violation("status", "%s: exit status %d: %s" % (what, rc, run.err()[-300:]))
    got = []
    for nm in files:
        p = c.d + ("/so" if f["stdout"] else "/w/" + nm)
        if not os.path.exists(p):
            raise Violation("output", "%s: no file %r" % (what, nm))
        got += cap.parse_out(open(p, "rb").read(), ct, "%s: %r" % (what, nm)).frames
    if got != stored:
        raise Violation("frames", "%s: frames of %r bytes stored, expected %r" % (what, [len(x) for x in got], [len(x) for x in stored]))
    after = snapshot(c.d + "/w")
    fine = {os.path.normpath(n) for n in files} | ({os.path.normpath(pl["addr"])} if pl["net"] == "unix" else set())
    for p in sorted(set(before) | set(after)):
        if p not in fine and p != "sub" and (p in before) != (p in after):
            raise Violation("side-effect", "%s: %r was %s" % (what, p, "created" if p in after else "removed"))
    c.count("capture-sessions")
    c.count("boundary-frames", 3)
    c.count("place-" + pl["net"])
    if f["cal"]:
        c.count("strftime-names")
    if f["hw"] != 262144:
        c.count("buffer-sizes")


def sync(c, f, run, nm, stored, what):
    """until all frames sent so far are stored"""
    want = sum(4 + len(x) for x in stored) + len(fs.ctl(fs.START, [f["ct"]]))
    end = time.time() + TIMEOUT
    while True:
        run.p.send_signal(signal.SIGHUP)
        time.sleep(0.002)
        if os.path.exists(c.d + "/w/" + nm) and os.path.getsize(c.d + "/w/" + nm) >= want:
            return
        if run.p.poll() is not None:
            raise Violation("exit", "%s: the server ended by itself: %s" % (what, run.err()[-300:]))
        if time.time() > end:
            raise Violation("output", "%s: %d bytes in %r after a flush, %d were sent" % (what, os.path.getsize(c.d + "/w/" + nm) if os.path.exists(c.d + "/w/" + nm) else -1, nm, want))


# ------------------------------------------------------------------ replay
def replay_case(c, good):
    r = c.rng
    ct = rand_type(r)
    pl = place(c, "replay")
    l = sock_for(pl["net"])
    with Here(c):
        if pl["net"] == "unix":
            l.bind(pl["addr"])
        else:
            if pl["net"] == "tcp6":
                l.bind(("::1", 0))
            else:
                while True:
                    try:
                        l.bind((pl["addr"][0], 0))
                        break
                    except OSError:
                        pass
            pl["addr"] = l.getsockname()[:2]
            pl["opts"] = put(pl["opts"], "p", str(pl["addr"][1]))
        decoys = []
        for net in ("unix", "tcp4"):
            d = sock_for(net)
            d.bind("decoy" if net == "unix" else ("127.0.0.1", 0))
            d.listen(5)
            d.settimeout(0)
            decoys.append(d)
        if pl["net"] == "unix" and len(pl["addr"]) > 1 and os.path.basename(pl["addr"][:-1]) not in ("", "decoy", ".", "..", "sub"):
            try:
                d = sock_for("unix")
                d.bind(pl["addr"][:-1])
                d.listen(1)
                d.settimeout(0)
                decoys.append(d)
            except OSError:
                pass
    l.listen(5)
    l.settimeout(TIMEOUT)
    want, o = [], list(pl["opts"]) + [("t", ["type"], ct)]
    files = []
    for j in range(r.choice([1, 1, 2, 5, 9, 10, 11, 12, 21, 35])):
        fr = [payload(r, r.randint(1, 200)) for _ in range(r.choice([0, 1, 4]))]
        nm = r.choice(["in %d", "sub/f%d", "=%d=", "%d"]) % j
        if os.path.lexists(c.d + "/w/" + nm):
            nm = "sub/file %d" % j
        with open(c.d + "/w/" + nm, "wb") as h:
            h.write(gen_file(r, ct, fr, unk=False))
        want += fr
        files.append(nm)
    if good:
        # the order of the files is that of the command line
        line = []
        rest = spellings(r, o)
        fl = [spell(r, "r", ["read-file", "read"], nm) for nm in files]
        k = r.random()
        if k < 0.3:
            line = [y for x in fl for y in x] + rest
        elif k < 0.6:
            line = rest + [y for x in fl for y in x]
        else:
            parts = [spellings(r, [x]) for x in r.sample(o, len(o))]
            for x in fl:
                parts.insert(r.randint(0, len(parts)), x)
            order = [x for x in parts if x in fl]
            it = iter(fl)
            parts = [next(it) if x in order else x for x in parts]
            line = [y for x in parts for y in x]
        if pl["net"] == "unix" and r.random() < 0.2:
            line += [b"-p", b"99"]
        k = "good"
    else:
        k, line = bad_line(c, dict(pl=pl, port=decoys[1].getsockname()[1]), o + [("r", ["read-file"], x) for x in files], "replay")
    before = snapshot(c.d + "/w")
    what = "fstrm_replay %s (%s)" % (show(line), k)
    run = Run(c, [c.exes["replay"]] + line, quiet=not good)
    s = None
    try:
        if good:
            rx = bytearray()
            full = fs.ctl(fs.READY, [ct]) + fs.ctl(fs.START, [ct]) + b"".join(fs.data(x) for x in want) + fs.ctl(fs.STOP)
            try:
                while True:
                    rd, _, _ = select.select([l], [], [], 0.02)
                    if rd:
                        break
                    if run.p.poll() is not None and not select.select([l], [], [], 0)[0]:
                        c.crash(run.p.returncode, run.err())
                        raise Violation("refused", "%s: exit status %s without a connection: %s" % (what, run.p.returncode, run.err()[-300:]))
                    if time.time() - run.t0 > TIMEOUT:
                        raise Stuck("%s: no connection" % what)
                s = l.accept()[0]
                s.settimeout(TIMEOUT)
                sent = 0
                while True:
                    if sent == 0 and take_ctl(rx) is not None:
                        s.sendall(fs.ctl(fs.ACCEPT, [ct]))
                        sent = 1
                    if sent == 1 and len(rx) >= len(full):
                        s.sendall(fs.ctl(fs.FINISH))
                        sent = 2
                    x = s.recv(65536)
                    if not x:
                        break
                    rx += x
            except socket.timeout:
                raise Stuck("%s: no progress after %d bytes" % (what, len(rx)))
            except OSError as e:
                raise Violation("session", "%s: %s" % (what, e))
            if bytes(rx) != full:
                raise Violation("sent", "%s: sent %r, not %r" % (what, bytes(rx)[:100], full[:100]))
        else:
            end = time.time() + TIMEOUT
            while run.p.poll() is None and time.time() < end:
                rd, _, _ = select.select([l] + decoys, [], [], 0.02)
                if rd:
                    raise Violation("accepted", "%s: a connection is made" % what)
            if select.select([l] + decoys, [], [], 0)[0]:
                raise Violation("accepted", "%s: a connection was made" % what)
        rc = run.wait()
        if good != (rc == 0) and k != "help":
            raise Violation("status", "%s: exit status %d: %s" % (what, rc, run.err()[-300:]))
        for d in decoys:
            if select.select([d], [], [], 0)[0]:
                raise Violation("place", "%s: connects to another socket" % what)
        same(c, before, what)
    finally:
        run.end()
        for x in [s, l] + decoys:
            if x is not None:
                x.close()
    c.count("replay-sessions" if good else "refused-" + k)
    c.count("replay-lines")
    c.hash.update(repr((k, line)).encode())
    c.sample = what


# -------------------------------------------------------------------- dump
def dump_case(c):
    r = c.rng
    ct = rand_type(r)
    fr = [payload(r, r.randint(1, 60)) for _ in range(r.choice([0, 1, 3]))]
    names = ["-x", "--help", "-h", "a=b", "--", "in file", "sub/f", name(r, 30), "--output=x"]
    a = r.choice(names)
    b = r.choice([n for n in names if n != a])
    whole = gen_file(r, ct, fr, unk=False)
    with open(c.d + "/w/" + a, "wb") as h:
        h.write(whole)
    n = r.choice([0, 1, 1, 2, 2, 3, 4])
    if r.random() < 0.3:
        with open(c.d + "/w/" + b, "wb") as h:
            h.write(b"precious" * 1000)
    line = [x.encode() for x in [a, b, "third", a][:n]]
    before = snapshot(c.d + "/w")
    what = "fstrm_dump %s" % show(line)
    so = open(c.d + "/so", "wb")
    run = Run(c, [c.exes["dump"]] + line, stdout=so, quiet=False)
    try:
        rc = run.wait()
    finally:
        run.end()
        so.close()
    out = open(c.d + "/so", "rb").read()
    if n in (1, 2):
        if rc != 0:
            raise Violation("refused", "%s: exit status %d: %s" % (what, rc, run.err()[-300:]))
        if out != b"".join(b" " + esc(x) + b"\n" for x in fr):
            raise Violation("shown", "%s: shows %r" % (what, out[:200]))
        after = snapshot(c.d + "/w")
        if n == 2:
            if os.path.normpath(b) not in after or after[os.path.normpath(b)][3] != whole:
                raise Violation("output", "%s: the copy differs" % what)
            after.pop(os.path.normpath(b))
            before.pop(os.path.normpath(b), None)
        if set(before) != set(after) or any(before[p][3] != after[p][3] for p in before):
            raise Violation("side-effect", "%s: other files changed" % what)
        c.count("dump-lines")
    else:
        if rc == 0 or not run.err().strip():
            raise Violation("status", "%s: exit status %d, message %r" % (what, rc, run.err()))
        same(c, before, what)
        c.count("refused-dump")
    c.hash.update(repr(("d", n, a, b)).encode())
    c.sample = what


LONG = ["help", "debug", "type", "unix", "tcp", "port", "buffersize", "maxconns", "write", "split", "localtime", "gmtime", "read-file", "argv-file", "usage", "version", "usage-all", "usage-short", "argv-display", "nonsense", ""]


def garbage(c):
    """any list of arguments at all: no crash, no hang, nothing leaked out of the directory"""
    r = c.rng
    tool = r.choice(["capture", "replay", "replay"])
    values = ["out", "sock", "f0", "127.0.0.1", "0", "1", "-1", "99999999999999999999", "-", "--", "x=y", "", "a b", "t", "%s", "argfile", "z" * 300, "-0.5e", "=", "true"]

    def token():
        k = r.random()
        if k < 0.3:
            return r.choice(values)
        if k < 0.5:
            return "-" + "".join(r.choice("htuapbcwsdrtuapwrZ?-=0") for _ in range(r.choice([1, 1, 1, 2, 3, 5, 8, 30, 200])))
        l = r.choice(LONG)
        l = l[:r.randint(0, len(l))] if r.random() < 0.3 else l + r.choice("sx-=") if r.random() < 0.1 else l
        return "--" + l + ("=" + r.choice(values) if r.random() < 0.3 else "")
    line = [token() for _ in range(r.choice([0, 1, 2, 3, 5, 8, 12, 20, 60]))]
    with open(c.d + "/w/argfile", "w") as h:
        h.write("".join(token() + "\n" for _ in range(r.choice([0, 1, 5, 11, 30]))))
    with open(c.d + "/w/f0", "wb") as h:
        h.write(gen_file(r, b"t", [b"x"], unk=False))
    what = "fstrm_%s %s" % (tool, show([a.encode() for a in line]))
    run = Run(c, [c.exes[tool]] + line, clock=1700000000)
    try:
        while run.p.poll() is None:
            if tool == "capture" and listening(run.p.pid):
                run.p.kill()
                run.p.wait()
                c.count("garbage-accepted")
                break
            if time.time() - run.t0 > TIMEOUT:
                raise Stuck("%s neither exits nor listens" % what)
            time.sleep(0.003)
        else:
            c.crash(run.p.returncode, run.err())
            c.count("garbage-refused")
    finally:
        run.end()
    c.hash.update(repr((tool, line)).encode())
    c.sample = what


def scen_p31(c):
    r = c.rng
    os.makedirs(c.d + "/w/sub")
    k = r.random()
    if k < 0.1:
        garbage(c)
    elif k < 0.34:
        capture_accepted(c)
    elif k < 0.6:
        capture_refused(c)
    elif k < 0.75:
        replay_case(c, True)
    elif k < 0.92:
        replay_case(c, False)
    else:
        dump_case(c)
