from fsdemo import *
for junk in (b"", b"\0\0\0\0", b"junk" * 100, None):
    for f in ("out.fs", "a.fs"):
        if os.path.exists(f): os.unlink(f)
    if junk is not None: open("a.fs", "wb").write(junk)
    open("b.fs", "wb").write(stream([b"good"]))
    c = Capture(); PROCS.append(c.p)
    run(B + "fstrm_replay", "-t", "t", "-u", c.sock, "-r", "a.fs", "-r", "b.fs")
    check(c.stop() == 0)
    check(data(c.content()) == [b"good"], junk, data(c.content()))
