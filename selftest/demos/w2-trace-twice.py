from fsdemo import *
c = Capture("-ddddd"); PROCS.append(c.p)
fr = [b"frame %d" % i for i in range(120)]
cl = Client(c.sock)
cl.send(ctl(READY, b"t")); check(cl.control()[0] == ACCEPT)
cl.send(stream(fr)); check(cl.control()[0] == FINISH)
check(c.stop() == 0)
o, full = parse(c.content())
check(full and o == [START] + fr + [STOP], len(o))
