from fsdemo import *
# the files of the next minute exist already and are longer
for t in range(int(time.time()) - 2, int(time.time()) + 60):
    open(time.strftime("out-%Y%m%d%H%M%S.fs", time.gmtime(t)), "wb").write(b"old" * 10000)
c = Capture("--gmtime", out="out-%Y%m%d%H%M%S.fs"); PROCS.append(c.p)
before = set()
for i in range(3):
    check(Client(c.sock).session([b"%d" % i]))
    time.sleep(1.2); c.p.send_signal(signal.SIGUSR1); time.sleep(0.3)
check(c.stop() == 0)
got = []
for f in sorted(f for f in os.listdir(".") if f.startswith("out-")):
    b = open(f, "rb").read()
    if b == b"old" * 10000: continue
    o, full = parse(b); check(full and o[0] == START and o[-1] == STOP, f, "is not a complete stream"); got += o[1:-1]
check(got == [b"0", b"1", b"2"], got)
