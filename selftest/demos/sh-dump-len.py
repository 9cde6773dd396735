from fsdemo import *
for n in (1, 65536, 1000001, 1048576):
    f = (b"0123456789" * (n // 10 + 1))[:n]
    open("in.fs", "wb").write(stream([f, b"end"]))
    r = run(B + "fstrm_dump", "in.fs")
    check(r.returncode == 0 and f in r.stdout and r.stdout.count(b"end") == 1, n, len(r.stdout))
