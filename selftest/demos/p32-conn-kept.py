from fsdemo import *
def rss(p):
    return int([l for l in open("/proc/%d/status" % p) if l.startswith("VmRSS")][0].split()[1]) * 1024
c = Capture(); PROCS.append(c.p)
def session():
    cl = Client(c.sock)
    cl.send(ctl(READY, b"t")); check(cl.control()[0] == ACCEPT)
    cl.send(ctl(START, b"t") + frame(bytes(200)) + ctl(STOP)); check(cl.control()[0] == FINISH)
    cl.s.close()
for i in range(500): session()
before = rss(c.p.pid)
for i in range(20000): session()
after = rss(c.p.pid)
check(c.stop() == 0)
check(after - before < 1 << 20, "memory grew by", after - before)
