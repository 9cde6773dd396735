from fsdemo import *
c = Capture("--buffersize", "10000"); PROCS.append(c.p)
check(Client(c.sock).session([b"a" * 9000, b"b" * 12000, b"c"]))
check(c.stop() == 0)
check(data(c.content()) == [b"a" * 9000, b"c"], [len(x) for x in data(c.content())])
