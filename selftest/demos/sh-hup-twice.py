from fsdemo import *
c = Capture(); PROCS.append(c.p)
seen = 0
for k in range(12):
    cl = Client(c.sock)
    f = b"frame %d" % k
    check(cl.session([f]), "session", k)
    c.p.send_signal(signal.SIGHUP)
    for i in range(100):
        time.sleep(0.05)
        if f in c.content():
            break
    else:
        check(False, "frame", k, "is not in the file five seconds after SIGHUP")
check(c.stop() == 0)
