from fsdemo import *
for ct in (b"", b"t", None):
    s = stream([b"a", b"bb"], ct)
    open("in.fs", "wb").write(s)
    check(run(B + "fstrm_dump", "in.fs", "out.fs").returncode == 0)
    check(open("out.fs", "rb").read() == s, "content type", ct, "copy", open("out.fs", "rb").read()[:30])
