from fsdemo import *
# frames of every size around the limit, in one piece and in two
c = Capture("-b", "2000"); PROCS.append(c.p)
sent = []
cl = Client(c.sock)
cl.send(ctl(READY, b"t")); check(cl.control()[0] == ACCEPT)
cl.send(ctl(START, b"t"))
for n in range(1990, 1997):
    f = frame(bytes([n % 256]) * n); sent.append(f[4:])
    cl.send(f[:700], f[700:], gap=0.05)
cl.send(ctl(STOP)); check(cl.control()[0] == FINISH)
check(c.stop() == 0)
check(data(c.content()) == sent, [len(x) for x in data(c.content())], "of", [len(x) for x in sent])
