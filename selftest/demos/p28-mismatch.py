from fsdemo import *
for ct, want in ((b"typ", b"type"), (b"type", b"typ"), (b"other", b"type")):
    open("a.fs", "wb").write(stream([b"bad"], ct)); open("b.fs", "wb").write(stream([b"good"], want))
    for f in ("out.fs",):
        if os.path.exists(f): os.unlink(f)
    c = Capture(ct=want.decode()); PROCS.append(c.p)
    run(B + "fstrm_replay", "-t", want.decode(), "-u", c.sock, "-r", "a.fs", "-r", "b.fs")
    check(c.stop() == 0)
    check(data(c.content()) == [b"good"], ct, "for", want, data(c.content()))
