from fsdemo import *
c = Capture("--gmtime", out="o-%H", env={"TZ": "XXX-5"}); PROCS.append(c.p)
t = time.time()
check(c.stop() == 0)
check(os.path.exists(time.strftime("o-%H", time.gmtime(t))) or os.path.exists(time.strftime("o-%H", time.gmtime(t - 60))), os.listdir("."))
