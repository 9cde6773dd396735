from fsdemo import *
open("in.fs", "wb").write(stream([b"a", b"bb"]))
check(run(B + "fstrm_dump", "in.fs", "out.fs").returncode == 0)
for fr in ([], [b"a"], [b"a", b"bb"]):
    open("in.fs", "wb").write(stream(fr, stop=False))
    check(run(B + "fstrm_dump", "in.fs", "out.fs").returncode != 0, "success for a file without STOP,", len(fr), "frames")
