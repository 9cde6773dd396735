from fsdemo import *
c = Capture(out="cap-%Y-100%%"); PROCS.append(c.p)
check(Client(c.sock).session([b"x"]))
check(c.stop() == 0)
check(os.path.exists("cap-%Y-100%%"), os.listdir("."))
