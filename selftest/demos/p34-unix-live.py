from fsdemo import *
for k in range(3):
    c = Capture(out="out%d" % k); PROCS.append(c.p)
    check(c.p.poll() is None, "server %d does not start" % k)
    s = Submitter(c.sock); check(s.submit(k, 10)); check(s.quit() == 0)
    if k == 1:
        c.p.kill(); c.p.wait()
    else:
        check(c.stop() == 0); check(data(c.content()) == [b"frame %d" % i for i in range(k, k + 10)])
