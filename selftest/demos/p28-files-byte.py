from fsdemo import *
c = Capture(); PROCS.append(c.p)
a = []
for i in range(300):
    open("f%d" % i, "wb").write(stream([b"frame %d" % i])); a += ["-r", "f%d" % i]
check(run(B + "fstrm_replay", "-t", "t", "-u", c.sock, *a).returncode == 0)
check(c.stop() == 0)
check(data(c.content()) == [b"frame %d" % i for i in range(300)], len(data(c.content())))
