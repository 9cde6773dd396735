from fsdemo import *
c = Capture("-c", "300"); PROCS.append(c.p)
cs = []
for i in range(80):
    cl = Client(c.sock, 3); cs.append(cl); cl.send(ctl(READY, b"t"))
    r = cl.control(); check(r and r != "timeout", "client", i, "not served with a limit of 300")
check(c.stop() == 0)
