#!/usr/bin/env python3
"""mutate.py FILE... [--n N] [--seed S] [--checks P01,P02..]: mechanical mutants (operators, constants, conditions,
dropped statements, swapped results) of the given files (or, with --rerun OLD.jsonl, the survivors of an earlier run), one at a time in a scratch copy of the tree, against the
checks concerned.  Mutants that do not compile, or whose optimised object code is the same, are left out.
Appends one JSON line per mutant to $OUT (default /tmp/mut/results.jsonl).  Measures the checks; nothing
registered in MANIFEST.json reads it."""
import hashlib
import json
import os
import random
import re
import shutil
import subprocess
import sys
import time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TMP = os.environ.get("MUT", "/tmp/mut")
CHECKS = {
    "control.c": "P04 P05 P30 P06 P07 P02 P03 P18 P32", "rdwr.c": "P07 P08 P30 P02 P03 P09 P18", "writer.c": "P02 P01 P30 P07 P08 P06 P09 P18 P32",
    "reader.c": "P03 P01 P30 P07 P08 P06 P18 P32", "file.c": "P29 P01 P09 P08 P18 P27", "unix_writer.c": "P29 P10 P08 P09 P18", "tcp_writer.c": "P29 P10 P08 P09 P18",
    "iothr.c": "P11 P12 P13 P14 P15 P17 P19 P18 P32", "my_queue_mb.c": "P16 P11 P14 P19", "my_queue_mutex.c": "P16 P11 P14 P19", "my_queue.h": "P16 P11",
    "time.c": "P13 P14", "fstrm_capture.c": "P20 P21 P31 P22 P26 P24 P25 P23 P32", "fstrm_dump.c": "P27 P31 P32", "fstrm_replay.c": "P28 P31 P32",
    "ubuf.h": "P01 P03 P18", "vector.h": "P02 P06 P18 P32", "read_bytes.h": "P10 P08", "print_string.h": "P27", "my_alloc.h": "P18 P02", "my_time.h": "P14 P13", "argv.c": "P31 P28 P20",
}


def sub(line, a, b, new):
    return line[:a] + new + line[b:]


def mutants_of(text):
    """(line number, description, new lines) for every mechanical change."""
    lines = text.split("\n")
    depth = 0
    incomment = False
    for i, ln in enumerate(lines):
        s = ln.strip()
        if incomment:
            if "*/" in s:
                incomment = False
            continue
        if s.startswith("/*"):
            if "*/" not in s:
                incomment = True
            continue
        if s.startswith("//") or not s:
            continue
        macro = ln.rstrip().endswith("\\")
        if s.startswith("#") and not macro:
            continue
        depth0 = depth
        depth += ln.count("{") - ln.count("}")
        if not macro and depth0 == 0:
            continue
        if re.search(r"assert\(|printf\(|fputs\(|perror\(|usage\(|conn_log\(|static_assert|__attribute__|argv_t|ARGV_", ln):
            continue
        code = re.sub(r'"(?:\\.|[^"\\])*"', lambda m: "~" * len(m.group(0)), ln)
        code = re.sub(r"/\*.*?\*/", lambda m: "~" * len(m.group(0)), code)

        def emit(new, what):
            return (i, what, lines[:i] + [new] + lines[i + 1:])
        for m in re.finditer(r"(?<![<>=!\-+*/&|])(<=|>=|==|!=|<|>)(?![<>=])", code):
            if "->" in code[m.start() - 1:m.end() + 1] and m.group(1) == ">":
                continue
            if "#include" in code or re.search(r"\bVECTOR_", code):
                continue
            for n in {"<": ["<=", ">="], "<=": ["<", ">"], ">": [">=", "<="], ">=": [">", "<"], "==": ["!=", ">="], "!=": ["==", ">"]}[m.group(1)]:
                yield emit(sub(ln, m.start(), m.end(), n), "%s -> %s" % (m.group(1), n))
        for m in re.finditer(r"&&|\|\|", code):
            n = "||" if m.group(0) == "&&" else "&&"
            yield emit(sub(ln, m.start(), m.end(), n), m.group(0) + " -> " + n)
        for m in re.finditer(r"(?<=[\w\)\] ])([+\-*])(?= )", code):
            n = {"+": "-", "-": "+", "*": "+"}[m.group(1)]
            yield emit(sub(ln, m.start(), m.end(), n), m.group(1) + " -> " + n)
        for m in re.finditer(r"(\+=|-=|\|=|&=|\+\+|--)", code):
            n = {"+=": "-=", "-=": "+=", "|=": "&=", "&=": "|=", "++": "--", "--": "++"}[m.group(1)]
            yield emit(sub(ln, m.start(), m.end(), n), m.group(1) + " -> " + n)
            if m.group(1) in ("+=", "-=", "|="):
                yield emit(sub(ln, m.start(), m.end(), "="), m.group(1) + " -> =")
        for m in re.finditer(r"(?<![\w.])(\d+)(?![\w.])", "" if "calloc(1" in code else code):
            v = int(m.group(1))
            for n in ([1] if v == 0 else [0, 2] if v == 1 else [v - 1, v + 1]):
                yield emit(sub(ln, m.start(), m.end(), str(n)), "%d -> %d" % (v, n))
        for a, b in (("true", "false"), ("false", "true"), ("fstrm_res_success", "fstrm_res_failure"), ("fstrm_res_failure", "fstrm_res_success"),
                     ("fstrm_res_stop", "fstrm_res_failure"), ("fstrm_res_again", "fstrm_res_failure"), ("fstrm_res_invalid", "fstrm_res_again"), ("EXIT_SUCCESS", "EXIT_FAILURE"), ("EXIT_FAILURE", "EXIT_SUCCESS"),
                     ("NULL", "(void*)1"), ("EV_READ", "EV_WRITE"), ("sizeof(uint32_t)", "sizeof(uint16_t)"), ("_MAX", "_MAX - 1"), ("_MAX", "_MAX + 1"), ("_MIN", "_MIN + 1"), ("_MIN", "_MIN - 1")):
            for m in re.finditer(r"(?<!\w)%s(?!\w)" % re.escape(a) if not a.startswith("_") else re.escape(a) + r"(?!\w)", code):
                if a == "NULL" and not re.search(r"[=!]=\s*NULL", code):
                    continue
                if a == "NULL":
                    continue
                yield emit(sub(ln, m.start(), m.end(), b), a + " -> " + b)
        m = re.match(r"^(\s*(?:\} else )?if \()(.*)(\)\s*\{?\s*)$", ln)
        if m:
            yield emit(m.group(1) + "!(" + m.group(2) + ")" + m.group(3), "negated condition")
            yield emit(m.group(1) + "0 && (" + m.group(2) + ")" + m.group(3), "condition false")
            yield emit(m.group(1) + "1 || (" + m.group(2) + ")" + m.group(3), "condition true")
        if re.match(r"^\s*(?!return\b|goto\b|case\b|default\b|static\b|const\b|struct\b|typedef\b|extern\b|\})[A-Za-z_(*+\-].*;\s*$", ln) and not re.match(r"^\s*(unsigned|int|size_t|uint\d+_t|uint8_t|ssize_t|bool|char|void|fstrm_res|time_t|FILE|fs_buf\w*|ubuf|fstrm_control_type|socklen_t|sigset_t|bool)\s+[*\w]", ln):
            if s.count("(") == s.count(")"):
                yield emit(re.sub(r"\S.*", ";", ln), "dropped: " + s[:70])
        if re.match(r"^\s*(goto \w+|return( .*)?);\s*$", ln) and i + 1 < len(lines):
            yield emit(re.sub(r"\S.*", ";", ln), "dropped: " + s[:70])


INC = ["-O2", "-g0", "-include", VERIF + "/config/config.h", "-w", "-DNDEBUG_X"]


def objhash(d, f):
    """Hash of the optimised code of every unit that sees f, or None if something does not compile."""
    h = hashlib.sha1()
    if f.endswith(".c"):
        us = [f]
    else:
        b = os.path.basename(f)
        us = {"ubuf.h": ["fstrm/reader.c"], "vector.h": ["fstrm/reader.c", "fstrm/writer.c", "fstrm/control.c"], "read_bytes.h": ["fstrm/unix_writer.c", "fstrm/tcp_writer.c"],
              "print_string.h": ["src/fstrm_dump.c"], "my_alloc.h": ["fstrm/reader.c", "fstrm/iothr.c", "fstrm/control.c"], "my_time.h": ["fstrm/iothr.c"], "my_queue.h": ["fstrm/iothr.c", "libmy/my_queue_mb.c"]}[b]
    for u in us:
        p = subprocess.run(["gcc"] + INC + ["-I" + d, "-I" + d + "/fstrm", "-c", d + "/" + u, "-o", TMP + "/o.o"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if p.returncode:
            return None
        subprocess.run("cd %s && objcopy --strip-debug -R .comment o.o o2.o && objdump -d -r -s o2.o | tail -n +4 > o.txt" % TMP, shell=True)
        h.update(re.sub(TMP.encode() + rb"/\S+", b"", open(TMP + "/o.txt", "rb").read()))
    return h.hexdigest()


def main():
    a = sys.argv[1:]
    opt = {}
    while "--rerun" in a or "--n" in a or "--seed" in a or "--checks" in a or "--lines" in a or "--scale" in a:
        for k in ("--rerun", "--n", "--seed", "--checks", "--lines", "--scale"):
            if k in a:
                i = a.index(k)
                opt[k] = a[i + 1]
                del a[i:i + 2]
    out = os.environ.get("OUT", TMP + "/results.jsonl")
    rnd = random.Random(int(opt.get("--seed", "1")))
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d["file"], d["line"], d["what"], d["new"]))
    d = TMP + "/repo"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO, d, ignore=shutil.ignore_patterns(".git", "_build", ".libs", "*.o"), symlinks=True)
    todo = []
    for f in a:
        text = open(REPO + "/" + f).read()
        ms = [(f, i, w, ls) for i, w, ls in mutants_of(text)]
        if "--lines" in opt:
            lo, hi = map(int, opt["--lines"].split("-"))
            ms = [m for m in ms if lo <= m[1] + 1 <= hi]
        todo += ms
    if "--rerun" in opt:  # survivors of an earlier run, found again in the current text
        old = {}
        for l in open(opt["--rerun"]):
            x = json.loads(l)
            if x["result"] != "nocompile":
                old[(x["file"], x["what"], x["new"], x["line"])] = x["result"]
        for f in sorted({k[0] for k, v in old.items() if v == "SURVIVED"}):
            c = [(f, i, w, ls) for i, w, ls in mutants_of(open(REPO + "/" + f).read())]
            for k in sorted(k for k, v in old.items() if v == "SURVIVED" and k[0] == f):
                m = [x for x in c if (x[2], x[3][x[1]].strip()) == (k[1], k[2])]
                if m:
                    todo.append(min(m, key=lambda x: abs(x[1] + 1 - k[3])))
    rnd.shuffle(todo)
    n = int(opt.get("--n", "1000000"))
    print(len(todo), "candidates", flush=True)
    base = {}
    cnt = 0
    for f, i, what, ls in todo:
        if cnt >= n:
            break
        new = ls[i].strip()
        if (f, i + 1, what, new) in done:
            continue
        orig = open(REPO + "/" + f).read()
        if f not in base:
            base[f] = objhash(d, f)
        open(d + "/" + f, "w").write("\n".join(ls))
        r = {"file": f, "line": i + 1, "what": what, "new": new, "old": orig.split("\n")[i].strip()}
        try:
            h = objhash(d, f)
            if h is None or h == base[f]:
                r["result"] = "nocompile" if h is None else "equivalent"
                open(out, "a").write(json.dumps(r) + "\n")
                continue
            cnt += 1
            r["result"] = "SURVIVED"
            t0 = time.time()
            checks = opt.get("--checks", "").split(",") if "--checks" in opt else CHECKS[os.path.basename(f)].split()
            r["rc"] = {}
            for pr in checks:
                p = subprocess.run(["timeout", "900", "python3", VERIF + "/check.py", pr], cwd=VERIF, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                                   env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick", VERIF_SCALE=opt.get("--scale", "0.25"), VERIF_RESULTS=TMP + "/res"))
                r["rc"][pr] = p.returncode
                if p.returncode == 1:
                    r["result"] = "killed"
                    r["by"] = pr
                    v = [l for l in p.stdout.splitlines() if l.startswith("  ")]
                    r["msg"] = next((l.strip()[:200] for l in reversed(v) if re.match(r"  [\w-]+: ", l)), "")
                    break
                if p.returncode not in (0, 1):
                    r["tail"] = p.stdout[-500:]
            r["s"] = round(time.time() - t0, 1)
            print("%s:%d %-28s %s %s %ss | %s" % (f, i + 1, what, r["result"], r.get("by", r["rc"]), r["s"], new[:90]), flush=True)
            open(out, "a").write(json.dumps(r) + "\n")
        finally:
            open(d + "/" + f, "w").write(orig)


main()
