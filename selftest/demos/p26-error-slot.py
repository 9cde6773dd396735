from fsdemo import *
l = socket.socket(); l.bind(("127.0.0.1", 0)); port = l.getsockname()[1]; l.close()
p = subprocess.Popen([B + "fstrm_capture", "-t", "t", "-c", "2", "-a", "127.0.0.1", "-p", str(port), "-w", "out.fs"], stdin=subprocess.DEVNULL); PROCS.append(p)
def conn():
    for _ in range(300):
        try: return socket.create_connection(("127.0.0.1", port), 5)
        except OSError: time.sleep(0.02)
    check(False, "no server")
for i in range(5):
    s = conn(); s.sendall(ctl(READY, b"t")); time.sleep(0.1)
    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)); s.close(); time.sleep(0.1)
s = conn(); s.sendall(ctl(READY, b"t"))
try: r = s.recv(100)
except OSError as e: r = b""
check(len(r) > 8, "after 5 resets no client is served any more")
p.terminate(); check(p.wait(20) == 0)
