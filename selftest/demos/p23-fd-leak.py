from fsdemo import *
# over TCP, where a client can reset its connection
l = socket.socket(); l.bind(("127.0.0.1", 0)); port = l.getsockname()[1]; l.close()
p = subprocess.Popen([B + "fstrm_capture", "-t", "t", "-a", "127.0.0.1", "-p", str(port), "-w", "out.fs"], stdin=subprocess.DEVNULL); PROCS.append(p)
def conn():
    for _ in range(300):
        try:
            s = socket.create_connection(("127.0.0.1", port), 10); return s
        except OSError: time.sleep(0.02)
    check(False, "no server")
def nfd(): return len(os.listdir("/proc/%d/fd" % p.pid))
conn().close(); time.sleep(1); base = nfd()
for i in range(20):
    s = conn(); s.sendall(ctl(READY, b"t") + ctl(START, b"t")); time.sleep(0.05)
    s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)); s.close()
for _ in range(50):
    if nfd() <= base: break
    time.sleep(0.1)
check(nfd() <= base, "descriptors: %d before, %d after 20 resets" % (base, nfd()))
p.terminate(); check(p.wait(20) == 0)
