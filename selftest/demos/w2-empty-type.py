from fsdemo import *
c = Capture(ct=""); PROCS.append(c.p)
cl = Client(c.sock)
cl.send(ctl(READY, b"other")); r = cl.control()
check(r is None, "a client of another type was answered with", r)
check(c.p.poll() is None)
check(c.stop() == 0)
check(data(c.content()) == [])
