from fsdemo import *
c = Capture(); PROCS.append(c.p)
cl = Client(c.sock)
cl.send(ctl(READY, b"t")); r = cl.control(); check(r and r[0] == ACCEPT)
cl.send(stream([b"one"], b"t", stop=False))
time.sleep(24)
cl.send(frame(b"two") + ctl(STOP))
r = cl.control(); check(r and r != "timeout" and r[0] == FINISH, "no FINISH", r)
check(c.stop() == 0)
check(data(c.content()) == [b"one", b"two"])
