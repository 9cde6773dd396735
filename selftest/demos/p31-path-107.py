from fsdemo import *
n = "p" * 107
p = subprocess.Popen([B + "fstrm_capture", "-t", "t", "-u", n, "-w", "out"], stdin=subprocess.DEVNULL); PROCS.append(p)
for _ in range(100):
    if os.path.exists(n) or p.poll() is not None: break
    time.sleep(0.05)
time.sleep(0.5)
check(p.poll() is None, "a path of 107 bytes is refused")
check(Client(n).session([b"x"]))
p.terminate(); check(p.wait(20) == 0)
