from fsdemo import *
open("f", "wb").write(stream([b"x"]))
r = run(B + "fstrm_replay", "-u", "srv", "-r", "f")
check(r.returncode > 0, "status", r.returncode)
