from fsdemo import *
l = socket.socket(); l.bind(("127.0.0.1", 0)); port = l.getsockname()[1]; l.close()
p = subprocess.Popen([B + "fstrm_capture", "-t", "t", "-b", "1000", "-a", "127.0.0.1", "-p", str(port), "-w", "out.fs"], stdin=subprocess.DEVNULL); PROCS.append(p)
def conn():
    for _ in range(300):
        try: return socket.create_connection(("127.0.0.1", port), 10)
        except OSError: time.sleep(0.02)
    check(False, "no server")
for k in range(3):
    s = conn(); s.sendall(ctl(READY, b"t") + ctl(START, b"t") + struct.pack(">I", 1 << 20) + bytes(300000)); time.sleep(0.5)
    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)); s.close(); time.sleep(0.5)
    check(p.poll() is None, "the server exited with", p.poll())
p.terminate(); check(p.wait(20) == 0)
