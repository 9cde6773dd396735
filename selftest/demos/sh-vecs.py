from fsdemo import *
c = Capture("-b", "8388608"); PROCS.append(c.p)
fs_ = [bytes((i * 7 + (i >> 8)) & 255 for i in range(n)) for n in (10, 100000, 3000000)]
cl = Client(c.sock, 60)
cl.send(ctl(READY, b"t")); r = cl.control(); check(r and r != "timeout" and r[0] == ACCEPT, r)
cl.send(stream(fs_)); r = cl.control(); check(r and r != "timeout" and r[0] == FINISH, r)
check(c.stop() == 0)
got = data(c.content())
check([len(x) for x in got] == [len(x) for x in fs_], [len(x) for x in got])
check(got == fs_, "contents differ")
