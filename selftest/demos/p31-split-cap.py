from fsdemo import *
p = subprocess.Popen([B + "fstrm_capture", "-t", "t", "-u", "s", "-w", "out", "-s", "60"], stdin=subprocess.DEVNULL); PROCS.append(p)
try:
    check(p.wait(3) > 0)
except subprocess.TimeoutExpired:
    check(False, "splits without a time zone")
