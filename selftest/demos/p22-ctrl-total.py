from fsdemo import *
c = Capture(); PROCS.append(c.p)
# READY frames of up to 512 bytes: 4 + (8 + 240) + (8 + n)
for n in (200, 250, 251, 252):
    cl = Client(c.sock)
    cl.send(ctl(READY, b"t", b"y" * (240 - 9), b"z" * n)); r = cl.control()
    check(r and r != "timeout" and r[0] == ACCEPT, "READY of", 4 + 9 + 239 + 8 + n, r)
    cl.send(stream([b"%d" % n])); check(cl.control()[0] == FINISH)
check(c.stop() == 0)
check(len(data(c.content())) == 4)
