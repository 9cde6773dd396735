from fsdemo import *
for a in (["-a", "not an address", "-p", "5353"], ["-a", "127.0.0.1", "-p", "77777"], ["-u", "x" * 200]):
    open("keep", "wb").write(b"precious")
    r = run(B + "fstrm_capture", "-t", "t", "-w", "keep", *a)
    check(r.returncode > 0)
    check(open("keep", "rb").read() == b"precious", "output touched by a refused command line", a)
