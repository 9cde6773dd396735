from fsdemo import *
c = Capture("--gmtime", "-s", "1", out="out-%Y%m%d%H%M%S.fs"); PROCS.append(c.p)
cl = Client(c.sock); cl.send(ctl(READY, b"t")); check(cl.control()[0] == ACCEPT); cl.send(ctl(START, b"t"))
for i in range(12):
    cl.send(frame(b"%d" % i)); time.sleep(0.3)
cl.send(ctl(STOP)); check(cl.control()[0] == FINISH); check(c.stop() == 0)
fs = sorted(f for f in os.listdir(".") if f.startswith("out-"))
check(len(fs) >= 3, fs)
got = []
for f in fs:
    o, full = parse(open(f, "rb").read()); check(full and o[0] == START and o[-1] == STOP and START not in o[1:], f, o); got += o[1:-1]
check(got == [b"%d" % i for i in range(12)], got)
