from fsdemo import *
import resource
c = Capture(); PROCS.append(c.p)
check(Client(c.sock).session([b"one"]))
resource.prlimit(c.p.pid, resource.RLIMIT_FSIZE, (os.path.getsize("out.fs"), resource.RLIM_INFINITY))
c.p.send_signal(signal.SIGUSR1)
try: rc = c.p.wait(20)
except subprocess.TimeoutExpired: check(False, "the server goes on although it lost frames")
check(rc > 0, rc)
