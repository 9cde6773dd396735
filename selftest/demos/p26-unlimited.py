from fsdemo import *
c = Capture(); PROCS.append(c.p)
cs = []
for i in range(60):
    cl = Client(c.sock, 5); cs.append(cl); cl.send(ctl(READY, b"t"))
    r = cl.control(); check(r and r != "timeout" and r[0] == ACCEPT, "client", i, r)
check(c.stop() == 0)
