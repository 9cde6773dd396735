from fsdemo import *
s = stream([b"%d" % i for i in range(70000)])
open("in.fs", "wb").write(s)
check(run(B + "fstrm_dump", "in.fs", "out.fs").returncode == 0)
check(open("out.fs", "rb").read() == s, len(s), os.path.getsize("out.fs"))
