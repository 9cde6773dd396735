from fsdemo import *
for n in (1, 100, 10000):
    open("in.fs", "wb").write(stream([b"abcdefgh"] * n))
    r = run(B + "fstrm_dump", "in.fs", "/dev/full")
    check(r.returncode != 0, "success though the copy could not be written,", n, "frames")
