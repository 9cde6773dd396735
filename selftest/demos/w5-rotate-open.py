from fsdemo import *
os.mkdir("o")
c = Capture(out="o/out"); PROCS.append(c.p)
check(Client(c.sock).session([b"one"]))
os.rename("o", "o2")
c.p.send_signal(signal.SIGUSR1)
try: rc = c.p.wait(20)
except subprocess.TimeoutExpired: check(False, "the server goes on without an output")
check(rc > 0, rc)
f, whole = parse(open("o2/out", "rb").read())
check(whole and f == [START, b"one", STOP], f)
