from fsdemo import *
c = Capture("-c", "2"); PROCS.append(c.p)
cs = []; got = 0
for i in range(4):
    cl = Client(c.sock, 1); cs.append(cl); cl.send(ctl(READY, b"t"))
    r = cl.control(); got += bool(r) and r != "timeout"
check(got == 2, got, "clients served at once with a limit of 2")
for cl in cs[:2]: cl.s.close()
for cl in cs[2:]:
    r = cl.control(); check(r and r != "timeout", "a waiting client is not served")
check(c.stop() == 0)
