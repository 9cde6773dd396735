from fsdemo import *
c = Capture("-b", "1000"); PROCS.append(c.p)
cl = Client(c.sock, 200)
cl.send(ctl(READY, b"t")); check(cl.control()[0] == ACCEPT)
n = (1 << 31) + 1000
cl.send(ctl(START, b"t") + frame(b"before") + struct.pack(">I", n))
z = bytes(1 << 20); left = n
while left:
    k = min(left, len(z))
    if not cl.send(z if k == len(z) else z[:k]): break
    left -= k
cl.send(frame(b"after") + ctl(STOP))
r = cl.control(); check(r and r != "timeout" and r[0] == FINISH, "reply", r)
check(c.stop() == 0)
check(data(c.content()) == [b"before", b"after"], [x[:20] for x in data(c.content())])
