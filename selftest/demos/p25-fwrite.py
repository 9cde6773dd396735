from fsdemo import *
import resource
# the output file cannot grow any more: the server must end, whatever clients go on sending
c = Capture(); PROCS.append(c.p)
check(Client(c.sock).session([b"x" * 1000] * 20))
resource.prlimit(c.p.pid, resource.RLIMIT_FSIZE, (os.path.getsize("out.fs"), resource.RLIM_INFINITY))
cl = Client(c.sock)
cl.send(ctl(READY, b"t"))
check(cl.control()[0] == ACCEPT)
cl.send(ctl(START, b"t"))
for i in range(3000):
    if not cl.send(frame(b"y" * 1000)): break
time.sleep(1)
check(c.p.poll() is not None, "the server goes on although nothing can be written")
check(c.stop() != 0)
