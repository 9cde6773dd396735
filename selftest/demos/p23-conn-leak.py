from fsdemo import *
# memory of the server under many resets
l = socket.socket(); l.bind(("127.0.0.1", 0)); port = l.getsockname()[1]; l.close()
p = subprocess.Popen([B + "fstrm_capture", "-t", "t", "-a", "127.0.0.1", "-p", str(port), "-w", "out.fs"], stdin=subprocess.DEVNULL, stderr=subprocess.DEVNULL); PROCS.append(p)
def conn():
    for _ in range(300):
        try: return socket.create_connection(("127.0.0.1", port), 10)
        except OSError: time.sleep(0.02)
    check(False, "no server")
def rss(): return int([x for x in open("/proc/%d/status" % p.pid) if x.startswith("VmRSS")][0].split()[1])
def storm(n):
    for i in range(n):
        s = conn(); s.sendall(ctl(READY, b"t")); s.recv(100)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0)); s.close()
storm(2000); time.sleep(1); a = rss()
storm(20000); time.sleep(1); b = rss()
check(b - a < 2000, "memory grew by %d kB over 20000 resets" % (b - a))
p.terminate(); check(p.wait(20) == 0)
