from fsdemo import *
c = Capture(); PROCS.append(c.p)
for n in (3, 40):
    cl = Client(c.sock)
    cl.send(ctl(READY, *([b"%c" % (65 + i % 26 + (6 if i % 26 == 51 else 0)) for i in range(n)] + [b"t"])))
    r = cl.control(); check(r and r != "timeout" and r[0] == ACCEPT, "refused with %d types" % n, r)
    cl.send(stream([b"x%d" % n], b"t"))
    r = cl.control(); check(r and r != "timeout" and r[0] == FINISH, r)
check(c.stop() == 0)
check(data(c.content()) == [b"x3", b"x40"])
