from fsdemo import *
c = Capture("-b", "5000"); PROCS.append(c.p)
check(Client(c.sock).session([b"a" * 4000, b"b" * 7000, b"c"]))
check(c.stop() == 0)
check(data(c.content()) == [b"a" * 4000, b"c"], [len(x) for x in data(c.content())])
