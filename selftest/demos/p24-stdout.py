from fsdemo import *
c = Capture(out="-"); PROCS.append(c.p)
for i in range(3):
    check(Client(c.sock).session([b"%d" % i]))
    c.p.send_signal(signal.SIGUSR1); time.sleep(0.3)
    check(c.p.poll() is None, "the server ended with", c.p.poll())
check(c.stop() == 0)
o, full = parse(open("capture.out", "rb").read()); check(full and o == [START, b"0", b"1", b"2", STOP], o)
