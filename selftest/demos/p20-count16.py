from fsdemo import *
c = Capture(); PROCS.append(c.p)
fr = [b"%d" % i for i in range(70000)]
check(Client(c.sock).session(fr))
check(c.stop() == 0)
check(data(c.content()) == fr)
