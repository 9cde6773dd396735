from fsdemo import *
import random
port = random.randint(11000, 29000)
def server(k):
    p = subprocess.Popen([B + "fstrm_capture", "-t", "t", "-a", "127.0.0.1", "-p", str(port), "-w", "out%d" % k], stdin=subprocess.DEVNULL, stderr=open("err%d" % k, "wb"))
    PROCS.append(p); time.sleep(1)
    return p
p = server(0)
if p.poll() is not None:
    port += 1; p = server(0)
s = Submitter("127.0.0.1", port)
for k in range(3):
    check(p.poll() is None, "server %d does not run: %s" % (k, open("err%d" % k).read()))
    for i in range(100):
        check(s.submit(i)); time.sleep(0.1)
        p.send_signal(signal.SIGHUP); time.sleep(0.1)
        if b"frame" in open("out%d" % k, "rb").read(): break
    else: check(False, "nothing arrives")
    p.send_signal(signal.SIGTERM); p.wait()
    if k < 2: p = server(k + 1)
check(s.quit() == 0)
