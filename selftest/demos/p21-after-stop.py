from fsdemo import *
c = Capture(); PROCS.append(c.p)
cl = Client(c.sock)
cl.send(ctl(READY, b"t")); check(cl.control()[0] == ACCEPT)
cl.send(stream([b"a"]) + ctl(READY, b"t") + stream([b"b"]))
rs = []
while True:
    r = cl.control(); rs.append(r)
    if r is None or r == "timeout": break
check(c.stop() == 0)
check(data(c.content()) == [b"a"], data(c.content()), rs)
