from fsdemo import *
c = Capture(); PROCS.append(c.p)
check(c.stop() == 0)
f, whole = parse(c.content())
check(whole and f == [START, STOP], f)
