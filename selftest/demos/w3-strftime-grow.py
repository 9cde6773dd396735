from fsdemo import *
import glob
for pat in ("x-%F-%T", "%c-%c-%c-%c"):
    p = subprocess.Popen([B + "fstrm_capture", "-t", "t", "-u", os.path.abspath("z.sock"), "-w", pat, "--gmtime"],
                         stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    PROCS.append(p)
    for _ in range(100):
        if os.path.exists("z.sock") or p.poll() is not None:
            break
        time.sleep(0.1)
    check(p.poll() is None, "the server ended with the file name", pat)
    time.sleep(0.5)
    check(Client(os.path.abspath("z.sock")).session([b"one"]))
    p.send_signal(signal.SIGTERM)
    check(p.wait(20) == 0)
    os.unlink("z.sock")
