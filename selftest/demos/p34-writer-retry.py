from fsdemo import *
c = Capture(out="out0"); PROCS.append(c.p)
s = Submitter(c.sock)
check(s.submit(0, 10)); time.sleep(1.5)
check(c.stop() == 0)
check(len(data(c.content())) == 10)
c = Capture(out="out1"); PROCS.append(c.p)
for i in range(100, 125):
    check(s.submit(i)); time.sleep(0.4)
check(s.quit() == 0); check(c.stop() == 0)
got = data(c.content())
check(got and got[-1] == b"frame 124", "nothing arrives at the second server")
