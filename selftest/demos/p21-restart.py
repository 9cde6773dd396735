from fsdemo import *
c = Capture(); PROCS.append(c.p)
cl = Client(c.sock)
cl.send(ctl(READY, b"t")); check(cl.control()[0] == ACCEPT)
cl.send(ctl(START, b"t") + frame(b"a") + ctl(START, b"t") + frame(b"b") + ctl(STOP))
r = cl.control(); check(r is None, "a second START was accepted, reply", r)
check(c.stop() == 0)
check(data(c.content()) in ([], [b"a"]), data(c.content()))
