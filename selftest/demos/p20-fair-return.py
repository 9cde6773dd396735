from fsdemo import *
c = Capture(); PROCS.append(c.p)
# all frames are in the socket before the server looks
cl = Client(c.sock)
c.p.send_signal(signal.SIGSTOP)
cl.send(ctl(READY, b"t") + stream([b"%d" % (i % 10) for i in range(3000)], b"t"))
c.p.send_signal(signal.SIGCONT)
r = cl.control(); check(r and r[0] == ACCEPT, r)
r = cl.control(); check(r and r != "timeout" and r[0] == FINISH, "no FINISH:", r)
s = Submitter(c.sock)
check(s.submit(0, 2000)); check(s.quit() == 0, "the program hangs")
check(c.stop() == 0)
check(data(c.content()) == [b"%d" % (i % 10) for i in range(3000)] + [b"frame %d" % i for i in range(2000)])
