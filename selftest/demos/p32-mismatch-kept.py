from fsdemo import *
import resource, threading
open("other", "wb").write(stream([b"other"], b"other"))
open("good", "wb").write(stream([b"good"], b"t"))
l = socket.socket(socket.AF_UNIX); l.bind("srv"); l.listen(1)
got = []
def srv():
    s, _ = l.accept(); s.recv(100); s.sendall(ctl(ACCEPT, b"t")); b = b""
    while True:
        d = s.recv(65536)
        b += d
        if not d: break
        if ctl(STOP) in b:
            s.sendall(ctl(FINISH)); break
    got.append(b)
t = threading.Thread(target=srv, daemon=True); t.start()
r = run(*["sh", "-c", 'ulimit -n 64; exec "$@"', "sh", B + "fstrm_replay", "-t", "t", "-u", "srv"] + ["-r", "other"] * 200 + ["-r", "good"])
t.join(10)
check(data(got[0]) == [b"good"], "the last file was not sent")
