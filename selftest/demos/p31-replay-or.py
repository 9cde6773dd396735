from fsdemo import *
open("f", "wb").write(stream([b"x"]))
r = run(B + "fstrm_replay", "-t", "t", "-r", "f")
check(r.returncode > 0, "status", r.returncode)
