from fsdemo import *
p = subprocess.Popen([B + "fstrm_capture", "-t", "t", "-u", "s", "-w", "out", "--", "-c", "1"], stdin=subprocess.DEVNULL); PROCS.append(p)
try:
    check(p.wait(3) > 0)
except subprocess.TimeoutExpired:
    check(False, "runs although there are surplus arguments")
