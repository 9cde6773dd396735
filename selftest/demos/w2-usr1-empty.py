from fsdemo import *
c = Capture(); PROCS.append(c.p)
os.rename("out.fs", "moved.fs")
c.p.send_signal(signal.SIGUSR1)
for _ in range(100):
    if os.path.exists("out.fs"):
        break
    time.sleep(0.1)
check(os.path.exists("out.fs"), "no new file after SIGUSR1")
check(Client(c.sock).session([b"later"]))
check(c.stop() == 0)
check(parse(open("moved.fs", "rb").read()) == ([START, STOP], True))
check(data(c.content()) == [b"later"])
