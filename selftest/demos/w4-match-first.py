from fsdemo import *
c = Capture(); PROCS.append(c.p)
cl = Client(c.sock)
cl.send(ctl(READY, *([b"o"] * 40 + [b"t"]))); r = cl.control()
check(r and r != "timeout" and r[0] == ACCEPT, "a client that offers the type among others was turned away", r)
cl.send(stream([b"one"])); r = cl.control(); check(r and r[0] == FINISH)
check(c.stop() == 0)
check(data(c.content()) == [b"one"])
