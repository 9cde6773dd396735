"""Build, run and report machinery shared by all checks.

A check produces a Report: violations (each with a replayable origin),
counters, hashes of distinct non-trivial cases and samples.  finish() matches
violations against known-findings.txt, writes replay files and the evidence
file and decides the exit status: 0 held, 1 violated, 3 the check itself
failed (never confused with a verdict)."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
RESULTS = os.environ.get("VERIF_RESULTS", VERIF)
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
JOBS = max(2, min(8, os.cpu_count() or 2))
T0 = time.time()
SCALE = float(os.environ.get("VERIF_SCALE", "1"))     # selftest only: part of the cases


class CheckError(Exception):
    """The check could not do its work (not a verdict on the code)."""


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


# ------------------------------------------------------------------ build
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
BASE = ["-g", "-fno-omit-frame-pointer", "-include", VERIF + "/config/config.h",
        "-I" + REPO, "-I" + REPO + "/fstrm", "-I" + VERIF + "/harness", "-w"]


class Work:
    """A private build and scratch directory, removed at the end."""

    def __init__(self, name):
        self.dir = os.path.join(VERIF, "build", "%s.%d" % (name, os.getpid()))
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)

    def path(self, *p):
        return os.path.join(self.dir, *p)

    def mkdir(self, *p):
        d = self.path(*p)
        os.makedirs(d, exist_ok=True)
        return d

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def lib_sources():
    return sorted(glob.glob(REPO + "/fstrm/*.c")) + [
        f for f in sorted(glob.glob(REPO + "/libmy/*.c")) if not f.endswith("/argv.c")]


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise CheckError("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-3000:]))


MW = ["malloc", "calloc", "realloc", "reallocarray", "free", "strdup", "strndup", "posix_memalign", "aligned_alloc", "asprintf", "vasprintf"]


def build(work, name, parts, cc="clang-18", opt="-O1", san=SAN, cflags=(), ldflags=(), libs=("-lpthread",), account=False):
    """parts: list of (source files, extra compile flags). Returns the executable. account: the allocations of the
    library's objects go to harness/memacct.h."""
    objs, jobs = [], []
    d = work.mkdir("obj-" + name)
    for srcs, extra in parts:
        for s in srcs:
            o = os.path.join(d, "%03d-%s.o" % (len(objs), os.path.basename(s)))
            objs.append(o)
            jobs.append([cc, opt] + BASE + list(san) + list(cflags) + list(extra) + ["-c", s, "-o", o])
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(_run, jobs))
    if account:
        lib = set(lib_sources())
        for j in jobs:
            if j[-3] in lib:
                _run(["objcopy"] + ["--redefine-sym=%s=mw_%s" % (f, f) for f in MW] + [j[-1]])
    exe = work.path(name)
    _run([cc] + list(san) + ["-o", exe] + objs + list(ldflags) + list(libs))
    return exe


SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=66:detect_leaks=1:detect_stack_use_after_return=1:"
                    "strict_string_checks=1:allocator_may_return_null=0:handle_abort=1:max_allocation_size_mb=6000",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=66",
    "LSAN_OPTIONS": "exitcode=66:print_suppressions=0",
    "MSAN_OPTIONS": "exitcode=66:halt_on_error=1",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:second_deadlock_stack=1:history_size=4",
}


def san_env(**kw):
    e = dict(os.environ)
    e.update(SAN_ENV)
    e.update(kw)
    e["LC_ALL"] = "C"
    e["TZ"] = "UTC"
    return e


SAN_RE = re.compile(r"(ERROR: \w+Sanitizer[^\n]*|WARNING: \w+Sanitizer[^\n]*|runtime error: [^\n]*|Assertion [^\n]* failed[^\n]*)")


def san_summary(text):
    """One line naming what a sanitizer (or an assertion) reported, or None."""
    m = SAN_RE.search(text)
    if not m:
        return None
    head = re.sub(r"0x[0-9a-f]+|==\d+==|\(pid=\d+\)", "", m.group(1))
    loc = re.search(r"#\d+ [^\n]*?in (\S+) (%s/\S+?:\d+)" % re.escape(REPO), text[m.start():])
    f = re.search(r"(%s/\S+?:\d+)[:\d]*: runtime error" % re.escape(REPO), text)
    where = (" in %s at %s" % loc.groups()) if loc else (" at " + f.group(1)) if f else ""
    return (head.strip() + where)[:400]


LSAN_FATAL = "LeakSanitizer has encountered a fatal error"


# ------------------------------------------------------------------ report
class Report:
    def __init__(self):
        self.violations = []   # dict(kind, msg, origin=dict)
        self.counters = {}
        self.hashes = set()
        self.samples = []
        self.evaluations = 0
        self.notes = []
        self.lock = threading.Lock()

    def count(self, name, n=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + n

    def violation(self, kind, msg, origin):
        with self.lock:
            self.violations.append({"kind": kind, "msg": msg, "origin": origin})

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 12:
                self.samples.append(s)


# ------------------------------------------------------------------ C harness runner
class Harness:
    """Runs slices of cases of one C harness mode in parallel."""

    def __init__(self, work, exe, name, env=None, slice_timeout=240, args=()):
        self.work, self.exe, self.name = work, exe, name
        self.env = env or san_env()
        self.slice_timeout = slice_timeout
        self.args = list(args)
        self.n = 0
        self.lock = threading.Lock()

    def _spawn(self, mode, seed, a, b, timeout):
        with self.lock:
            self.n += 1
            i = self.n
        d = self.work.mkdir("run", "%s-%s-%d" % (self.name, mode, i))
        out, prog, err, sc = d + "/out", d + "/prog", d + "/err", d + "/s"
        os.makedirs(sc)
        cmd = [self.exe, "--seed", str(seed), "--from", str(a), "--to", str(b), "--mode", mode,
               "--out", out, "--progress", prog, "--scratch", sc] + self.args
        with open(err, "wb") as ef:
            p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, env=self.env,
                                 cwd=sc, start_new_session=True)
            try:
                rc = p.wait(timeout)
            except subprocess.TimeoutExpired:
                rc = "timeout"
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except (ProcessLookupError, PermissionError):
                pass
            p.wait()
        text = open(err, errors="replace").read()
        lines = open(out, errors="replace").read().split("\n") if os.path.exists(out) else []
        cur = None
        if os.path.exists(prog):
            raw = open(prog, "rb").read(8)
            v = int.from_bytes(raw, "little") if len(raw) == 8 else 0
            cur = v - 1 if v else None
        shutil.rmtree(d, ignore_errors=True)
        return rc, text, lines, cur

    def _absorb(self, rep, mode, seed, lines):
        ended = False
        for ln in lines:
            if not ln:
                continue
            if ln[0] == "h":
                with rep.lock:
                    rep.hashes.add(ln[1:])
                continue
            try:
                d = json.loads(ln)
            except ValueError:
                continue
            if d["t"] == "v":
                rep.violation(d["kind"], d["msg"], self.origin(mode, seed, d["case"]))
            elif d["t"] == "c":
                rep.count(d["name"], d["v"])
            elif d["t"] == "s":
                rep.sample({"case": d["case"], "what": d["msg"]})
            elif d["t"] == "end":
                ended = True
        return ended

    def origin(self, mode, seed, case):
        return {"harness": self.name, "mode": mode, "seed": seed, "case": case}

    def run_range(self, rep, mode, seed, a, b, retry=True):
        """Cases a..b-1; continues after a crash with the next case (a few times)."""
        crashes = 0
        while a < b:
            rc, text, lines, cur = self._spawn(mode, seed, a, b, self.slice_timeout)
            ended = self._absorb(rep, mode, seed, lines)
            if rc == 0 and ended:
                rep.count("cases", b - a)
                return
            if rc in (98, 99):
                raise CheckError("harness %s %s: %s" % (self.name, mode, text[-1500:]))
            if LSAN_FATAL in text:
                raise CheckError("LeakSanitizer cannot run here: " + text[-500:])
            if cur is None:
                s = san_summary(text)
                if s:   # reported at exit
                    rep.violation("crash", s, self.origin(mode, seed, a))
                    return
                raise CheckError("harness %s %s ended with %s: %s" % (self.name, mode, rc, text[-1500:]))
            rep.count("cases", cur - a + 1)
            o = self.origin(mode, seed, cur)
            if rc == 97:
                pass
            elif rc == "timeout":
                # a wall-clock timeout alone proves nothing: repeat the case alone
                rc2, text2, lines2, cur2 = self._spawn(mode, seed, cur, cur + 1, self.slice_timeout)
                if rc2 == "timeout":
                    rep.violation("hang", "case %d did not finish within %d s, twice" % (cur, self.slice_timeout), o)
                else:
                    rep.count("inconclusive-timeouts")
                    self._absorb(rep, mode, seed, lines2)
            elif rc == -9:
                raise CheckError("harness %s %s was killed (out of memory?)" % (self.name, mode))
            elif rc == 1 and any('"kind":"leak"' in l for l in lines):
                pass        # already recorded
            else:
                s = san_summary(text) or "process ended with status %s" % rc
                rep.violation("crash", s, dict(o, report=text[-6000:]))
            crashes += 1
            if crashes >= 3:
                return
            a = cur + 1

    def run(self, rep, mode, ncases, seed=None, chunk=None, deadline=None, jobs=JOBS, start=0):
        seed = SEED if seed is None else seed
        chunk = chunk or max(1, min(2000, ncases // (jobs * 4) or 1))
        todo = [(a, min(a + chunk, start + ncases)) for a in range(start, start + ncases, chunk)]
        stop = threading.Event()
        errs = []
        skipped = [0]

        def work(ab):
            if stop.is_set() or (deadline and time.time() > deadline):
                skipped[0] += 1
                return
            try:
                self.run_range(rep, mode, seed, *ab)
            except CheckError as e:
                errs.append(e)
                stop.set()
            if len(rep.violations) >= 5:
                stop.set()
        with cf.ThreadPoolExecutor(jobs) as ex:
            list(ex.map(work, todo))
        if errs and not rep.violations:
            raise errs[0]
        if skipped[0] and not rep.violations:
            rep.notes.append("%s: %d of %d slices not started before the deadline" % (mode, skipped[0], len(todo)))


# ------------------------------------------------------------------ Python-driven cases
def run_py_cases(rep, fn, ncases, make_origin, seed=None, jobs=JOBS, deadline=None, start=0):
    """fn(case_number, seed) -> dict(violations=[(kind,msg)], counters={}, hash=str|None, sample=..)
    Threads suffice: the work is done by child processes."""
    seed = SEED if seed is None else seed
    stop = threading.Event()
    errs = []
    skipped = [0]

    def one(k):
        if stop.is_set() or (deadline and time.time() > deadline):
            skipped[0] += 1
            return
        try:
            r = fn(k, seed)
        except CheckError as e:
            errs.append(e)
            stop.set()
            return
        except Exception as e:      # a bug of the driver, not a verdict
            import traceback
            errs.append(CheckError("driver failed in case %d: %s" % (k, traceback.format_exc())))
            stop.set()
            return
        rep.count("cases")
        for kind, msg in r.get("violations", ()):
            rep.violation(kind, msg, make_origin(seed, k))
        for n, v in r.get("counters", {}).items():
            rep.count(n, v)
        if r.get("hash"):
            with rep.lock:
                rep.hashes.add(str(r["hash"]))
        if r.get("sample") is not None:
            rep.sample({"case": k, "what": r["sample"]})
        if len(rep.violations) >= 3:
            stop.set()
    with cf.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(one, range(start, start + ncases)))
    if errs and not rep.violations:
        raise errs[0]
    if skipped[0] and not rep.violations:
        rep.notes.append("%d of %d cases not started before the deadline" % (skipped[0], ncases))


def run_mp_cases(rep, fn, ncases, make_origin, seed=None, jobs=JOBS, deadline=None, start=0):
    """Like run_py_cases in forked worker processes; cases are dealt round-robin."""
    import pickle
    import traceback
    seed = SEED if seed is None else seed
    procs = []
    sys.stdout.flush()
    for w in range(jobs):
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            out = os.fdopen(wr, "wb")
            nv = 0
            try:
                for k in range(start + w, start + ncases, jobs):
                    if deadline and time.time() > deadline:
                        pickle.dump(("skip", k, None), out)
                        continue
                    try:
                        r = fn(k, seed)
                        kind = "ok"
                    except CheckError as e:
                        r, kind = str(e), "err"
                    except BaseException:
                        r, kind = "driver failed in case %d: %s" % (k, traceback.format_exc()), "err"
                    pickle.dump((kind, k, r), out)
                    out.flush()
                    if kind == "err":
                        break
                    nv += len(r["violations"])
                    if nv >= 2:
                        break
                out.close()
            finally:
                os._exit(0)
        os.close(wr)
        procs.append((pid, os.fdopen(rd, "rb")))
    errs, skipped = [], [0]

    def collect(f):
        while True:
            try:
                kind, k, r = pickle.load(f)
            except EOFError:
                return
            if kind == "skip":
                skipped[0] += 1
            elif kind == "err":
                errs.append(CheckError(r))
            else:
                rep.count("cases")
                for vk, msg in r["violations"]:
                    rep.violation(vk, msg, make_origin(seed, k))
                for n, v in r["counters"].items():
                    rep.count(n, v)
                if r.get("hash"):
                    with rep.lock:
                        rep.hashes.add(r["hash"])
                if r.get("sample") is not None:
                    rep.sample({"case": k, "what": r["sample"]})
    ths = [threading.Thread(target=collect, args=(f,)) for _, f in procs]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for pid, f in procs:
        f.close()
        os.waitpid(pid, 0)
    if errs and not rep.violations:
        raise errs[0]
    if skipped[0] and not rep.violations:
        rep.notes.append("%d of %d cases not started before the deadline" % (skipped[0], ncases))


# ------------------------------------------------------------------ findings and verdict
def load_findings():
    """known-findings.txt: 'finding: property=P kind=K match=REGEX :: text' suppresses
    exactly the violations of P of kind K whose message matches; 'fixed:' lines suppress nothing."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    for ln in open(p) if os.path.exists(p) else ():
        m = re.match(r"finding:\s+property=(\S+)\s+kind=(\S+)\s+match=(.*?)\s+::\s+(.*)", ln)
        if m:
            out.append(m.groups())
    return out


def finish(pid, rep, level, rule, assumptions, need=(), evals="cases"):
    known, fresh = {}, []
    for v in rep.violations:
        for p, k, rx, text in load_findings():
            if p == pid and k == v["kind"] and re.search(rx, v["msg"]):
                known.setdefault(text, v)
                break
        else:
            fresh.append(v)
    ev = {
        "property": pid, "tier": TIER, "seed": SEED, "level": level,
        "coverage": {
            "evaluations": int(rep.counters.get(evals, 0)),
            "distinct_nontrivial": len(rep.hashes),
            "rule": rule,
            "samples": rep.samples[:8] or ["(no case of this run was suitable as a sample)"],
            "observed": {k: v for k, v in sorted(rep.counters.items()) if k != "cases"},
        },
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - T0, 2),
        "violations": len(fresh),
    }
    if rep.notes:
        ev["coverage"]["notes"] = rep.notes[:10]
    os.makedirs(RESULTS + "/evidence", exist_ok=True)
    tmp = RESULTS + "/evidence/.%s.%d" % (pid, os.getpid())
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, RESULTS + "/evidence/%s.json" % pid)
    log("%s: %d cases, %d distinct, %d violations" % (pid, ev["coverage"]["evaluations"], len(rep.hashes), len(fresh)))
    for k, v in sorted(rep.counters.items()):
        print("    %-34s %d" % (k, v))
    for n in rep.notes:
        print("    note:", n)
    for text in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, text))
    if fresh:
        d = os.path.join(RESULTS, "replays", pid)
        os.makedirs(d, exist_ok=True)
        seen = set()
        for v in fresh:
            if v["kind"] in seen:
                continue
            seen.add(v["kind"])
            o = v["origin"]
            path = os.path.join(d, "%s-%s-%s.json" % (v["kind"], o.get("seed", SEED), o.get("case", "x")))
            with open(path, "w") as f:
                json.dump({"property": pid, "kind": v["kind"], "msg": v["msg"], "origin": o}, f, indent=1)
            print("  %s: %s" % (v["kind"], v["msg"][:600]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        sys.stdout.flush()
        return 1
    missing = [n for n in need if not rep.counters.get(n)]
    if missing:
        print("CHECK FAILED: the workload never produced: %s" % ", ".join(missing))
        return 3
    return 0
