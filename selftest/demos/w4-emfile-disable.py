from fsdemo import *
import resource
def fill(leave):
    c = Capture(); PROCS.append(c.p)
    a, b = Client(c.sock), Client(c.sock)
    for x in (a, b):
        x.send(ctl(READY, b"t")); r = x.control(); check(r and r[0] == ACCEPT)
    d = "/proc/%d/fd" % c.p.pid
    fds = {int(f) for f in os.listdir(d)}
    old = resource.prlimit(c.p.pid, resource.RLIMIT_NOFILE)
    resource.prlimit(c.p.pid, resource.RLIMIT_NOFILE, (min(set(range(99)) - fds), old[1]))
    w = Client(c.sock, 5)
    w.send(ctl(READY, b"t"))
    time.sleep(0.1)
    check(c.p.poll() is None, "the server has ended")
    b.s.close()
    r = w.control()
    check(r and r != "timeout" and r[0] == ACCEPT, "the waiting client is not served:", r)
    a.send(stream([b"one"])); r = a.control(); check(r and r[0] == FINISH, r)
    w.send(stream([b"two"])); r = w.control(); check(r and r[0] == FINISH, r)
    resource.prlimit(c.p.pid, resource.RLIMIT_NOFILE, old)
    check(c.stop() == 0)
    check(data(c.content()) == [b"one", b"two"])
fill(1)
