from fsdemo import *
c = Capture(); PROCS.append(c.p)
check(c.stop() == 0)
o, full = parse(c.content()); check(full and o == [START, STOP], o, full)
