from fsdemo import *
c = Capture(); PROCS.append(c.p)
cl = Client(c.sock)
cl.send(ctl(READY, b"t")); check(cl.control()[0] == ACCEPT)
cl.send(stream([b"wrong"], b"other"))
r = cl.control(); check(r is None, "a stream of another content type was answered with", r)
check(Client(c.sock).session([b"right"]))
check(c.stop() == 0)
check(data(c.content()) == [b"right"], data(c.content()))
