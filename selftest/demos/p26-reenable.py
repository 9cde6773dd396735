from fsdemo import *
for lim in (1, 2):
    c = Capture("-c", str(lim)); PROCS.append(c.p)
    for i in range(4):
        check(Client(c.sock, 5).session([b"%d" % i]), "client %d is not served (limit %d)" % (i, lim))
    check(c.stop() == 0)
