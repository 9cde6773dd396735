from fsdemo import *
open("f", "wb").write(stream([b"x"]))
r = run(B + "fstrm_dump", "f", "g", "h")
check(r.returncode > 0 and not os.path.exists("g"), "status", r.returncode)
