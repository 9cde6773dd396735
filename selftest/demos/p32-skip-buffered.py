from fsdemo import *
def rss(p):
    return int([l for l in open("/proc/%d/status" % p) if l.startswith("VmHWM")][0].split()[1]) * 1024
c = Capture("-b", "4096"); PROCS.append(c.p)
before = rss(c.p.pid)
cl = Client(c.sock)
cl.send(ctl(READY, b"t")); check(cl.control()[0] == ACCEPT)
cl.send(ctl(START, b"t"))
cl.send(frame(bytes(40 << 20)), frame(b"small"), ctl(STOP)); check(cl.control()[0] == FINISH)
peak = rss(c.p.pid)
check(c.stop() == 0)
check(data(c.content()) == [b"small"])
check(peak - before < 16 << 20, "memory grew by", peak - before)
