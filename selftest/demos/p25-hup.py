from fsdemo import *
c = Capture(); PROCS.append(c.p)
check(Client(c.sock).session([b"only"]))
c.p.send_signal(signal.SIGHUP); time.sleep(0.5)
check(data(c.content()) == [b"only"], "after SIGHUP the file holds", data(c.content()))
check(c.stop() == 0)
