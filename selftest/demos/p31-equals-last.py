from fsdemo import *
c = Capture("--split=3600", "--gmtime", out="o")
check(c.stop() == 0)
p = subprocess.Popen([B + "fstrm_capture", "--type=k=v", "--unix=s=1", "--write=o=u=t"], stdin=subprocess.DEVNULL); PROCS.append(p)
for _ in range(200):
    if os.path.exists("s=1") or p.poll() is not None: break
    time.sleep(0.05)
time.sleep(0.5)
check(p.poll() is None, "refused values with an equals sign")
cl = Client(os.path.abspath("s=1"))
check(cl.session([b"one"], b"k=v"), "no session")
p.terminate(); check(p.wait(20) == 0)
check(data(open("o=u=t", "rb").read()) == [b"one"])
