from fsdemo import *
for v in range(256):
    open("in.fs", "wb").write(stream([bytes([65, v, 66])]))
    r = run(B + "fstrm_dump", "in.fs", "out.fs"); check(r.returncode == 0)
    if v >= 127 or v < 7:
        check(b"A\\x%02xB" % v in r.stdout, v, r.stdout)
