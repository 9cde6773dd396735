from fsdemo import *
c = Capture(); PROCS.append(c.p)
for i in range(20):
    cl = Client(c.sock)
    cl.send(ctl(READY, b"t") + ctl(START, b"t")); time.sleep(0.05)
    cl.send(frame(b"%d" % i) + ctl(STOP))
    r = cl.control(); check(r and r[0] == ACCEPT, r)
    r = cl.control(); check(r and r[0] == FINISH, "no FINISH", r)
check(c.stop() == 0)
check(data(c.content()) == [b"%d" % i for i in range(20)])
