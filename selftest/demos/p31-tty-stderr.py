from fsdemo import *
import pty
m, s = pty.openpty()
p = subprocess.Popen([B + "fstrm_capture", "-t", "t", "-u", "s", "-w", "-"], stdin=subprocess.DEVNULL, stdout=s, stderr=subprocess.DEVNULL); PROCS.append(p)
try:
    check(p.wait(3) > 0)
except subprocess.TimeoutExpired:
    check(False, "writes binary data to a terminal")
