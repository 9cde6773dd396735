from fsdemo import *
c = Capture("-c", "300"); PROCS.append(c.p)
cs = []
for i in range(300):
    cl = Client(c.sock, 5); cs.append(cl); cl.send(ctl(READY, b"t"))
    r = cl.control(); check(r and r != "timeout" and r[0] == ACCEPT, "client", i, r)
cl = Client(c.sock, 1); cl.send(ctl(READY, b"t"))
check(cl.control() == "timeout", "one more client is served")
cs[7].s.close()
cl.s.settimeout(5)
r = cl.control(); check(r and r != "timeout" and r[0] == ACCEPT, r)
check(c.stop() == 0)
