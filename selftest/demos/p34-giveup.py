from fsdemo import *
s = None
for k in range(6):
    c = Capture(out="out%d" % k); PROCS.append(c.p)
    s = s or Submitter(c.sock)
    for i in range(60):
        check(s.submit(i)); time.sleep(0.1); c.p.send_signal(signal.SIGHUP); time.sleep(0.1)
        if b"frame" in c.content(): break
    else: check(False, "nothing arrives at server %d" % k)
    c.stop()
check(s.quit() == 0)
