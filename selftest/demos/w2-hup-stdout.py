from fsdemo import *
c = Capture(out="-"); PROCS.append(c.p)
check(Client(c.sock).session([b"one", b"two"]))
time.sleep(0.3)
c.p.send_signal(signal.SIGHUP)
ok = False
for _ in range(100):
    if data(open("capture.out", "rb").read()) == [b"one", b"two"]:
        ok = True
        break
    time.sleep(0.1)
check(ok, "the frames are not in the output after SIGHUP", open("capture.out", "rb").read())
check(c.stop() == 0)
