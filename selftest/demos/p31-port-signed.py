from fsdemo import *
try:
    s = socket.socket(socket.AF_INET6); s.bind(("::1", 0)); s.close()
except OSError:
    os._exit(0)
for port in range(40000 + os.getpid() % 20000, 65000):
    s = socket.socket(socket.AF_INET6)
    try:
        s.bind(("::1", port))
    except OSError:
        continue
    finally:
        s.close()
    p = subprocess.Popen([B + "fstrm_capture", "-t", "t", "-a", "::1", "-p", str(port), "-w", "out"], stdin=subprocess.DEVNULL); PROCS.append(p)
    ok = False
    for _ in range(60):
        s = socket.socket(socket.AF_INET6)
        try:
            s.connect(("::1", port)); ok = True; break
        except OSError:
            time.sleep(0.05)
        finally:
            s.close()
    check(ok, "nobody listens on port", port)
    p.terminate(); p.wait(20)
    break
