from fsdemo import *
import threading
open("a.fs", "wb").write(stream([b"x" * 60000] * 300))
l = socket.socket(socket.AF_UNIX); l.bind("srv"); l.listen(1)
def srv():
    s, _ = l.accept(); s.recv(100); s.sendall(ctl(ACCEPT, b"t")); s.recv(100000); s.close()
t = threading.Thread(target=srv, daemon=True); t.start()
r = run(B + "fstrm_replay", "-t", "t", "-u", "srv", "-r", "a.fs")
check(r.returncode != 0, "success though the server disconnected")
