from fsdemo import *
c = Capture(); PROCS.append(c.p)
s = Submitter(c.sock, length=1000)
check(s.submit(0, 3000))
for i in range(3):
    time.sleep(1.3); c.p.send_signal(signal.SIGHUP)
check(s.submit(3000, 3000))
time.sleep(1.3); c.p.send_signal(signal.SIGHUP); time.sleep(0.3)
check(s.quit() == 0); check(c.stop() == 0)
got = [f.rstrip(b".") for f in data(c.content())]
check(got == [b"frame %d" % i for i in range(6000)], len(got))
