from fsdemo import *
import threading
n = 60
args = []
for i in range(n):
    open("f%d" % i, "wb").write(stream([b"frame %d" % i])); args += ["-r", "f%d" % i]
l = socket.socket(socket.AF_UNIX); l.bind("srv"); l.listen(1)
got = []
def srv():
    s, _ = l.accept(); s.recv(100); s.sendall(ctl(ACCEPT, b"t")); b = b""
    while True:
        d = s.recv(65536)
        b += d
        if not d: break
        if ctl(STOP) in b:
            s.sendall(ctl(FINISH)); break
    got.append(b)
t = threading.Thread(target=srv, daemon=True); t.start()
r = run(B + "fstrm_replay", "-t", "t", "-u", "srv", *args)
check(r.returncode == 0, "status", r.returncode)
t.join(10)
check(data(got[0]) == [b"frame %d" % i for i in range(n)], "files lost")
