from fsdemo import *
c = Capture(); PROCS.append(c.p)
for i in range(300):
    os.rename("out.fs", "old.fs")
    c.p.send_signal(signal.SIGUSR1)
    for _ in range(300):
        if os.path.exists("out.fs"): break
        time.sleep(0.01)
    else: check(False, "rotation %d did not happen" % (i + 1))
    time.sleep(0.005)
check(c.stop() == 0)
o, full = parse(c.content()); check(full and o == [START, STOP], o, full)
