from fsdemo import *
c = Capture("-b", "1000"); PROCS.append(c.p)
for cut in range(1, 8):
    cl = Client(c.sock)
    cl.send(ctl(READY, b"t")); check(cl.control()[0] == ACCEPT)
    f = frame(b"x" * 5000)
    cl.send(ctl(START, b"t") + f[:1500], f[1500:-cut], f[-cut:], frame(b"after%d" % cut) + ctl(STOP), gap=0.1)
    r = cl.control(); check(r and r != "timeout" and r[0] == FINISH, "reply", r, "last piece of", cut)
check(c.stop() == 0)
check(data(c.content()) == [b"after%d" % i for i in range(1, 8)], data(c.content()))
