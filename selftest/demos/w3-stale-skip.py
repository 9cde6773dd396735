from fsdemo import *
c = Capture("-b", "1000"); PROCS.append(c.p)
cl = Client(c.sock)
cl.send(ctl(READY, b"t")); check(cl.control()[0] == ACCEPT)
cl.send(ctl(START, b"t") + frame(b"first"))
time.sleep(0.3)
cl.send(struct.pack(">I", 5000))
time.sleep(0.3)
cl.send(b"\0" * 5000 + frame(b"second") + ctl(STOP))
r = cl.control(); check(r and r[0] == FINISH, "closed with", r)
check(c.stop() == 0)
check(data(c.content()) == [b"first", b"second"], data(c.content()))
