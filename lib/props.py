"""The registry of checks."""
import time
import core
from core import Report, Harness, TIER

H = core.VERIF + "/harness/"


def tier(quick, thorough):
    return thorough if TIER == "thorough" else quick


def scale(quick, thorough):
    v = thorough if TIER == "thorough" else quick
    return max(1, int(v * core.SCALE))


def build_codec(work, name="codec", san=core.SAN, cc="clang-18", cflags=("-DH_LEAKCHECK",)):
    return core.build(work, name, [([H + "codec.c"] + core.lib_sources(), [])], cc=cc, san=san, cflags=cflags)


CODEC_ASSUME = ["the mock transports of harness/mt.h behave as rdwr.h documents",
                "harness/ref.h encodes and decodes Frame Streams as control.h specifies",
                "allocation never fails (the library aborts then)"]


def codec(pid, work, replay, quick, thorough, rule, need):
    exe = build_codec(work)
    h = Harness(work, exe, "codec")
    rep = Report()
    if replay:
        h.run_range(rep, pid, replay["seed"], replay["case"], replay["case"] + 1)
        return core.finish(pid, rep, "exploration", "replay", [])
    h.run(rep, pid, scale(quick, thorough), deadline=time.time() + tier(150, 5400))
    return core.finish(pid, rep, PROPS[pid]["level"], rule, CODEC_ASSUME, need, PROPS[pid].get("evals", "cases"))


def p18(pid, work, replay):
    rep = Report()
    exe = build_codec(work)
    h = Harness(work, exe, "codec")
    ex2 = build_codec(work, "codec-msan", ["-fsanitize=memory", "-fsanitize-memory-track-origins", "-fno-sanitize-recover=all"], cflags=())
    hm = Harness(work, ex2, "codec-msan")
    hs = {"codec": h, "codec-msan": hm}
    if replay:
        hs[replay["harness"]].run_range(rep, pid, replay["seed"], replay["case"], replay["case"] + 1)
        return core.finish(pid, rep, "exploration", "replay", [])
    h.run(rep, pid, scale(24000, 1500000), deadline=time.time() + tier(100, 4000))
    if not rep.violations:
        hm.run(rep, pid, scale(12000, 500000), deadline=time.time() + tier(60, 3000), start=10_000_000)
    return core.finish(pid, rep, "exploration",
                       "cases drawn from all codec workloads plus API misuse histories, run under ASan+UBSan+LSan "
                       "(leak check every 64 cases) and under MSan; distinct by workload hash", CODEC_ASSUME, ["misc", "P03-workload", "P08-workload", "2^30-frames-in-one-call"])


SIMCOV = ["-include", H + "simwrap.h", "-fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores", "-w"]
SIM_ASSUME = ["the threading, time and synchronisation primitives of harness/simcore.h behave as POSIX specifies, under sequentially consistent memory",
              "threads switch only at instrumented points (every basic block, load, store and library call of the code under test)",
              "the mock transport and its peer behave as rdwr.h and the man pages document", "allocation never fails (the library aborts then)"]


def build_sim(work, name="sim", cflags=("-DH_LEAKCHECK",), san=core.SAN):
    return core.build(work, name, [(core.lib_sources(), SIMCOV), ([H + "sim.c"], [])], san=san, cflags=cflags)


def sim(pid, work, replay, quick, thorough, rule, need):
    h = Harness(work, build_sim(work), "sim")
    rep = Report()
    if replay:
        h.run_range(rep, pid, replay["seed"], replay["case"], replay["case"] + 1)
        return core.finish(pid, rep, "exploration", "replay", [])
    h.run(rep, pid, scale(quick, thorough), deadline=time.time() + tier(200, 5400))
    return core.finish(pid, rep, PROPS[pid]["level"], rule + "; distinct by schedule and event hash", SIM_ASSUME, need, PROPS[pid].get("evals", "cases"))


def S(quick, thorough, rule, need):
    return lambda pid, work, replay: sim(pid, work, replay, quick, thorough, rule, need)


SOCK_WRAP = ["-Wl,--wrap=" + f for f in "socket connect close sendmsg send sendto write writev read readv recv recvfrom recvmsg setsockopt poll ppoll select".split()]


def build_sock(work):
    return core.build(work, "sock", [([H + "sock.c"] + core.lib_sources(), [])], cflags=["-DH_LEAKCHECK"], ldflags=SOCK_WRAP)


SOCK_ASSUME = ["Linux Unix-domain and loopback TCP sockets", "harness/ref.h encodes and decodes Frame Streams as control.h specifies"]


def p10(pid, work, replay):
    rep = Report()
    h = Harness(work, build_sock(work), "sock")
    if replay:
        h.run_range(rep, pid, replay["seed"], replay["case"], replay["case"] + 1)
        return core.finish(pid, rep, "exploration", "replay", [])
    h.run(rep, pid, scale(4000, 200000), deadline=time.time() + tier(200, 5400), jobs=24, chunk=40)
    return core.finish(pid, rep, PROPS[pid]["level"],
                       "sessions over Unix, IPv4 and IPv6 sockets: system calls truncated at random bytes and iovec boundaries, interrupted (injected and by real signals) "
                       "and failing, small kernel buffers, fragmenting, slow and resetting peers, descriptor 0 free; every byte received compared; distinct by stream and bytes accepted",
                       SOCK_ASSUME, ["short-writes", "short-reads", "injected-eintr", "real-eintr", "complete-sessions", "unix", "tcp4", "stalling-peers"])


def p29(pid, work, replay):
    rep = Report()
    exe = core.build(work, "net", [([H + "net.c"] + core.lib_sources(), [])], cflags=["-DH_LEAKCHECK"], ldflags=["-Wl,--wrap=socket", "-Wl,--wrap=connect"])
    h = Harness(work, exe, "net")
    if replay:
        h.run_range(rep, pid, replay["seed"], replay["case"], replay["case"] + 1)
        return core.finish(pid, rep, "exploration", "replay", [])
    h.run(rep, pid, scale(120000, 6000000), deadline=time.time() + tier(120, 3600))
    return core.finish(pid, rep, PROPS[pid]["level"],
                       "writers and readers made from generated file paths, socket paths of 1 to 300 bytes, IPv4 and IPv6 addresses in varied notation and ports, and from values that name no place; "
                       "options changed, reused and destroyed afterwards; refused connections; distinct by places and streams",
                       ["the address handed to connect() determines where the kernel connects", "harness/ref.h encodes Frame Streams as control.h specifies"],
                       ["sessions", "refused-connects", "too-long", "bad-addresses", "bad-ports", "unset-options", "options-changed", "ipv4", "ipv6", "unix-cases",
                        "files-read", "files-replaced", "standard-output", "standard-input", "unopenable", "broken-connections", "hundreds-of-sessions"])


MEM_ASSUME = CODEC_ASSUME + ["allocations of the library's objects are counted at malloc() and its relatives, those of the programs at the sanitizer's allocator"]


def p32(pid, work, replay):
    import capture
    import scen
    import toolscen
    rep = Report()
    root = work.mkdir("run")
    exes = {}
    build = {"codec-mem": lambda: core.build(work, "codec-mem", [([H + "codec.c"] + core.lib_sources(), [])], cflags=["-DH_MEM"], account=True),
             "sim-mem": lambda: core.build(work, "sim-mem", [(core.lib_sources(), SIMCOV), ([H + "sim.c"], [])], cflags=["-DH_MEM"], account=True)}

    def server(k, seed):
        return scen.run_case(pid, exes["capture"], root, k, seed)

    def tools(k, seed):
        return toolscen.run_case(pid, exes, root, k, seed)
    procs = {"capture": server, "tool": tools}
    if replay:
        n = replay["harness"]
        if n in build:
            Harness(work, build[n](), n).run_range(rep, pid, replay["seed"], replay["case"], replay["case"] + 1)
            return core.finish(pid, rep, "exploration", "replay", [])
        exes.update(capture.build(work, ("capture", "dump", "replay"), mem=True))
        for _ in range(10):
            core.run_mp_cases(rep, procs[n], 1, lambda seed, k: {"harness": n, "seed": seed, "case": k}, seed=replay["seed"], start=replay["case"], jobs=1)
            if rep.violations:
                break
        return core.finish(pid, rep, "exploration", "replay", [])
    Harness(work, build["codec-mem"](), "codec-mem").run(rep, pid, scale(5000, 600000), deadline=time.time() + tier(80, 2000))
    if not rep.violations:
        Harness(work, build["sim-mem"](), "sim-mem").run(rep, pid, scale(300, 30000), deadline=time.time() + tier(80, 2000))
    if not rep.violations:
        exes.update(capture.build(work, ("capture", "dump", "replay"), mem=True))
        core.run_mp_cases(rep, server, scale(72, 4000), lambda seed, k: {"harness": "capture", "seed": seed, "case": k}, jobs=12, deadline=time.time() + tier(120, 2000))
    if not rep.violations:
        core.run_mp_cases(rep, tools, scale(120, 8000), lambda seed, k: {"harness": "tool", "seed": seed, "case": k}, jobs=12, deadline=time.time() + tier(120, 2000), start=1_000_000)
    return core.finish(pid, rep, PROPS[pid]["level"],
                       "the same sessions again and again on one control frame object, reader, writer, I/O thread (many frames, many lost connections) or server (hostile, stalling and bulky clients, "
                       "rotations), and long files through fstrm_dump and fstrm_replay; heap use after every round and its peaks compared with the first rounds and with a bound from the configuration "
                       "and the longest admissible frame; distinct by workload", MEM_ASSUME,
                       ["writer-sessions", "reader-sessions", "control-objects", "announced-only", "overlong-announced", "iothr-lives", "servers-watched", "rounds",
                        "tool-runs", "replay-many-files", "bulk-oversized", "bulk-announced", "bulk-small"])


def build_e2e(work):
    return core.build(work, "e2e", [([H + "e2e.c"] + core.lib_sources(), [])], ldflags=["-Wl,--wrap=clock_gettime", "-Wl,--wrap=pthread_cond_timedwait"])


def e2e(pid, work, replay, quick, thorough, rule, need):
    import capture
    import e2escen
    exes = capture.build(work, ("capture", "dump", "replay"))
    exes["e2e"] = build_e2e(work)
    root = work.mkdir("run")
    rep = Report()

    def fn(k, seed):
        return e2escen.run_case(pid, exes, root, k, seed)

    def origin(seed, k):
        return {"harness": "e2e", "seed": seed, "case": k}
    if replay:
        for _ in range(30):     # real processes and threads: repeat until the same schedule shows up
            core.run_mp_cases(rep, fn, 1, origin, seed=replay["seed"], start=replay["case"], jobs=1)
            if rep.violations:
                break
        return core.finish(pid, rep, "exploration", "replay", [])
    core.run_mp_cases(rep, fn, scale(quick, thorough), origin, jobs=12, deadline=time.time() + tier(240, 5400))
    return core.finish(pid, rep, PROPS[pid]["level"], rule, CAP_ASSUME, need, PROPS[pid].get("evals", "cases"))


def E(quick, thorough, rule, need):
    return lambda pid, work, replay: e2e(pid, work, replay, quick, thorough, rule, need)


TSAN = ["-fsanitize=thread"]
RACE_WRAP = ["-Wl,--wrap=" + f for f in "clock_gettime pthread_cond_timedwait my_queue_mb_ops".split()]


def build_race(work):
    return core.build(work, "race", [(core.lib_sources(), ["-mllvm", "-tsan-distinguish-volatile=1"]), ([H + "race.c"], [])], san=TSAN, ldflags=RACE_WRAP)


def p19(pid, work, replay):
    rep = Report()
    h = Harness(work, build_race(work), "race")
    if replay:
        # free-running threads: repeat the case until the race shows again
        for _ in range(20):
            h.run_range(rep, pid, replay["seed"], replay["case"], replay["case"] + 1)
            if rep.violations:
                break
        return core.finish(pid, rep, "exploration", "replay", [])
    h.run(rep, pid, scale(16000, 1000000), deadline=time.time() + tier(200, 5400))
    return core.finish(pid, rep, PROPS[pid]["level"],
                       "real threads (producers, threads asking for queues, I/O threads of one or two instances, queue users) with random pauses, failing transports, accelerated time; "
                       "happens-before races reported by ThreadSanitizer in any schedule seen; distinct by wire contents and number of writes",
                       ["ThreadSanitizer sees every access and synchronisation of the code, except inside the barrier-based queue, whose operations are modelled as "
                        "publishing from insertion to removal (P16 examines their inside)", "accesses through volatile are deliberate"],
                       ["mpsc-instances", "spsc-instances", "hand-outs", "callbacks", "lock-queue-elements"])


def codec_sock(pid, work, replay, quick, thorough, q2, t2, rule, need):
    rep = Report()
    if replay and replay["harness"] == "sock":
        Harness(work, build_sock(work), "sock").run_range(rep, pid, replay["seed"], replay["case"], replay["case"] + 1)
        return core.finish(pid, rep, "exploration", "replay", [])
    if replay:
        return codec(pid, work, replay, 0, 0, "", [])
    Harness(work, build_codec(work), "codec").run(rep, pid, scale(quick, thorough), deadline=time.time() + tier(100, 3000))
    if not rep.violations:
        Harness(work, build_sock(work), "sock").run(rep, pid, scale(q2, t2), deadline=time.time() + tier(100, 3000), jobs=24, chunk=40, start=20_000_000)
    return core.finish(pid, rep, PROPS[pid]["level"], rule + "; then the Unix and TCP transports with failing, short and interrupted system calls and failing peers",
                       CODEC_ASSUME + SOCK_ASSUME[:1], need + ["failed-sessions", "complete-sessions", "injected-failures", "peer-resets"], PROPS[pid].get("evals", "cases"))


def CS(quick, thorough, q2, t2, rule, need):
    return lambda pid, work, replay: codec_sock(pid, work, replay, quick, thorough, q2, t2, rule, need)


CAP_ASSUME = ["Linux sockets, files, signals and libevent 2.1 as installed; system calls of libevent are shortened, interrupted, failed and reordered by harness/toolshim.c",
              "lib/fs.py encodes and decodes Frame Streams as control.h specifies and models the documented server",
              "memory suffices (the program aborts otherwise)"]


def capt(pid, work, replay, quick, thorough, rule, need):
    import capture
    import scen
    exe = capture.build(work)["capture"]
    root = work.mkdir("run")
    rep = Report()

    def fn(k, seed):
        return scen.run_case(pid, exe, root, k, seed)

    def origin(seed, k):
        return {"harness": "capture", "seed": seed, "case": k}
    if replay:
        for _ in range(30):     # real processes: repeat until the same schedule shows up
            core.run_mp_cases(rep, fn, 1, origin, seed=replay["seed"], start=replay["case"], jobs=1)
            if rep.violations:
                break
        return core.finish(pid, rep, "exploration", "replay", [])
    core.run_mp_cases(rep, fn, scale(quick, thorough), origin, jobs=12, deadline=time.time() + tier(240, 5400))
    return core.finish(pid, rep, PROPS[pid]["level"], rule, CAP_ASSUME, need, PROPS[pid].get("evals", "cases"))


def tool(pid, work, replay, quick, thorough, rule, need):
    import capture
    import toolscen
    exes = capture.build(work, {"P27": ("dump",), "P28": ("replay",), "P31": ("capture", "replay", "dump")}[pid])
    root = work.mkdir("run")
    rep = Report()

    def fn(k, seed):
        return toolscen.run_case(pid, exes, root, k, seed)

    def origin(seed, k):
        return {"harness": "tool", "seed": seed, "case": k}
    if replay:
        for _ in range(10):
            core.run_mp_cases(rep, fn, 1, origin, seed=replay["seed"], start=replay["case"], jobs=1)
            if rep.violations:
                break
        return core.finish(pid, rep, "exploration", "replay", [])
    core.run_mp_cases(rep, fn, scale(quick, thorough), origin, jobs=12, deadline=time.time() + tier(240, 5400))
    return core.finish(pid, rep, PROPS[pid]["level"], rule, [CAP_ASSUME[1], "Linux files, pipes and sockets as installed"], need, PROPS[pid].get("evals", "cases"))


def TT(quick, thorough, rule, need):
    return lambda pid, work, replay: tool(pid, work, replay, quick, thorough, rule, need)


def T(quick, thorough, rule, need):
    return lambda pid, work, replay: capt(pid, work, replay, quick, thorough, rule, need)


def C(quick, thorough, rule, need):
    return lambda pid, work, replay: codec(pid, work, replay, quick, thorough, rule, need)


NOTE_GEN = ("Every generated case is judged by an independent oracle while ASan and UBSan watch the real code; "
            "no violation in the sampled cases, not a proof. Trusts the harness, its reference codec and the sanitizers.")
PENDING = "check not built yet"

SIMRULE = ("random configurations, one to four producers, transport delays and idle phases in virtual time, interleaved at every basic block, "
           "load and store by random and priority-change (PCT) schedules")

PROPS = {
    "P01": dict(level="exploration", technique="generative round-trip monitoring under ASan/UBSan",
                run=C(60000, 3000000, "random frame sequences (lengths around internal boundaries, payloads imitating control frames) split into single and vectored writes over in-memory uni-/bi-directional transports and files, read back and compared; non-trivial: at least one frame",
                      ["unidirectional", "bidirectional", "file", "interleaved-streams", "readers-reused", "frames-of-a-mebibyte", "thousands-of-frames-in-one-call", "long-many-frames", "long-many-connections"])),
    "P02": dict(level="exploration", technique="wire-level trace oracle (independent reference encoder) under ASan/UBSan",
                run=C(60000, 4000000, "random workloads interleaved with calls holding an empty or 4 GiB+ frame at a random position; bytes on the wire compared with the reference encoding; non-trivial: at least one frame or refused call",
                      ["refused-calls", "bytes-compared", "2^30-frames-in-one-call", "reconnections", "long-many-frames", "long-many-connections"])),
    "P03": dict(level="exploration", technique="generative stream fuzzing against a reference reader under ASan/UBSan",
                run=C(900000, 30000000, "well-formed, mutated, truncated and random streams, frame limits and transport faults; every reader result compared with a reference reader; non-trivial: non-empty stream, distinct by content",
                      ["ended-by-stop", "ended-otherwise", "unknown-control-skipped", "transport-faults", "accepts-compared", "long-many-frames", "long-many-connections"])),
    "P04": dict(level="exploration", evals="decodes", technique="differential decoding against a reference decoder under ASan/UBSan",
                run=C(1200000, 50000000, "valid, boundary-sized, mutated and random control frames decoded by a reused object and by the reference decoder; distinct by bytes",
                      ["accepted", "rejected", "near-maximum", "encode-decode"])),
    "P05": dict(level="exploration", evals="encodes", technique="differential encoding with guarded buffers under ASan/UBSan",
                run=C(900000, 30000000, "random control frame objects and buffer sizes around the exact size, compared with the reference encoder, guard bytes around the buffer; distinct by object and buffer size",
                      ["encoded", "refused", "near-maximum"])),
    "P06": dict(level="exploration", technique="negotiation oracle over generated content type sets under ASan/UBSan",
                run=C(1200000, 50000000, "pairs of content type sets sharing prefixes, NULs, duplicates; writer against scripted ACCEPT, reader against scripted READY/START, and direct match calls; distinct by both sets",
                      ["writer-agreed", "writer-mismatch", "reader-agreed", "reader-mismatch", "match-calls", "many-types", "writer-negotiates-again", "reader-negotiates-again"])),
    "P07": dict(level="exploration", technique="protocol monitor over scripted hostile peers with injected transport faults",
                run=C(900000, 50000000, "peer replies (right, wrong type, malformed, truncated, missing, preceded by data) at each handshake step, transport faults, repeated attempts; distinct by reply kinds, operations and bytes",
                      ["writer-complete", "writer-handshake-failed", "writer-finish-failed", "reader-complete", "reader-handshake-failed", "hundreds-of-attempts", "largest-negotiation-frames"])),
    "P09": dict(level="fault_enumeration", technique="fault injection with delivered-bytes oracle",
                run=CS(60000, 3000000, 3000, 60000, "write histories with a fault (failing, partial, persistent transport operation, full device, file size limit at a random byte) and bytes at the destination compared with reported results; non-trivial: a fault took effect",
                      ["runs-all-success", "runs-with-reported-failure", "late-faults"])),
    "P08": dict(level="fault_enumeration", technique="transport life-cycle monitor with a fault at every operation of each history",
                run=CS(12000, 600000, 3000, 60000, "random API histories; each replayed with a fault, once and persistently, at every transport operation; file transport with descriptor accounting; distinct by history",
                      ["histories", "fault-points", "file-histories", "long-histories", "destroyed-on-exact-connection"])),
    "P18": dict(level="exploration", technique="ASan, UBSan, LSan and MSan over all library workloads", run=p18),
    "P10": dict(level="fault_enumeration", technique="system-call fault injection (short, interrupted, failing) on real sockets with a byte-exact peer oracle, ASan/UBSan", run=p10),
    "P11": dict(level="exploration", technique="deterministic-schedule stress of the real I/O thread with a wire-log oracle (exactly-once, FIFO, conservation), ASan/UBSan",
                run=S(120000, 4000000, SIMRULE + "; every accepted frame matched with the wire log", ["frames-written", "frames-refused-full", "two-instances", "thread-switches", "long-many-frames", "weeks-of-silence", "frames-of-16-mib"])),
    "P12": dict(level="exploration", technique="deterministic-schedule stress with a release-callback ledger, outages and ASan use-after-free detection",
                run=S(120000, 4000000, SIMRULE + "; outages, failing writes and handshakes; every callback matched with its submission", ["callbacks", "callbacks-without-argument", "connections-lost", "frames-refused-full", "long-many-frames", "long-many-connections"])),
    "P13": dict(level="exploration", technique="virtual-time outage injection with a connection-trace oracle",
                run=S(120000, 4000000, SIMRULE + "; outage windows, failing opens, reads and writes, clock steps; every connection trace and attempt time judged", ["open-attempts", "connections-lost", "cases-with-outages", "long-many-connections", "weeks-of-outage"])),
    "P14": dict(level="exploration", technique="virtual-time bounded-response and queue-capacity monitors over randomised schedules",
                run=S(60000, 2000000, SIMRULE + "; stalled outputs, exact capacity, sleeping thread and threshold, idle flush bound", ["capacity-checks", "threshold-checks", "flush-bounds-checked", "invalid-submissions", "long-many-frames", "weeks-of-silence", "frames-of-16-mib"])),
    "P15": dict(level="exploration", technique="virtual-time termination monitor (deadlock and livelock detection), life-cycle trace oracle and leak checking over randomised schedules",
                run=S(100000, 4000000, SIMRULE + "; destroy at random instants of stalls, outages and load", ["frames-written", "connections-lost", "two-instances", "long-many-frames", "long-many-connections"])),
    "P16": dict(level="exploration", technique="online FIFO-linearisation monitor of the queues over randomised instruction-level schedules, ASan/UBSan",
                run=S(400000, 20000000, "queue sizes 2 to 256, element sizes 1 to 64, one to four producers and a consumer interleaved at every load, store and word of an element copy; random and priority-change schedules", ["barrier-queue", "lock-queue", "refused-inserts", "removes", "sizes-rejected", "long-lived-queues", "queues-filled-beyond-16-bits"])),
    "P17": dict(level="exploration", technique="option-limit oracle, concurrent hand-out monitor and end-to-end runs of every accepted configuration over randomised schedules",
                run=S(40000, 1500000, SIMRULE + "; option calls with boundary and random values, 2 to 5 threads asking for queues", ["option-values-accepted", "option-values-rejected", "concurrent-hand-outs", "capacity-checks", "every-queue-used"])),
    "P19": dict(level="exploration", technique="ThreadSanitizer (happens-before race detection) over randomised free-running threads", run=p19),
    "P20": dict(level="exploration", technique="black-box trace oracle over the real server under ASan/UBSan with perturbed system calls and concurrent clients",
                run=T(2400, 300000, "1 to 12 concurrent protocol-following clients over Unix, IPv4 and IPv6 sockets, random buffer sizes, frame sizes and fragmentation, flushes, shutdown after or amid traffic; "
                      "the stored stream must be an interleaving of the clients' frames, complete for each that received FINISH; distinct by stored frames",
                      ["complete-runs", "runs-cut-short", "frames-stored", "injected", "storms", "hours-passed", "long-many-frames", "long-many-clients"])),
    "P21": dict(level="exploration", technique="protocol state oracle over misbehaving client sequences against the real server under ASan/UBSan",
                run=T(2400, 300000, "clients breaking the protocol in one of 23 ways (types, order, malformed and ill-sized control frames) mixed with correct ones; replies, disconnects and stored frames "
                      "compared with a reference server; distinct by kinds and stored frames", ["misuse-ready-wrong-type", "misuse-start-wrong-type", "misuse-data-after-stop", "misuse-two-start", "frames-stored", "long-many-clients"])),
    "P22": dict(level="exploration", technique="boundary-length workloads with a storage oracle over the real server under ASan/UBSan",
                run=T(1500, 150000, "frames of lengths around the buffer size and beyond between normal ones, announced lengths up to 2^32-1 (one such frame sent in full), control frames up to the maximum; distinct by buffer size and client bytes",
                      ["oversized-frames-sent", "4GiB-frames-skipped", "huge-lengths-announced", "control-frames-of-max-length", "frames-stored", "giant-frames-stored"])),
    "P23": dict(level="exploration", technique="hostile-client fuzzing with containment, liveness and descriptor oracles over the real server under ASan/UBSan/LSan",
                run=T(2400, 300000, "random, mutated, cut, silent and shuffled client streams with stalls, half-closes and resets among correct clients; others' results, stored frames, descriptors and leaks judged; distinct by client bytes and stored frames",
                      ["hostile-random", "hostile-mutated", "hostile-cut", "hostile-odd-control", "stalled-at-end", "frames-stored", "long-many-clients"])),
    "P24": dict(level="exploration", technique="file-set oracle over rotations by signal and controlled clock in the real server under ASan/UBSan",
                run=T(3000, 300000, "rotation by SIGUSR1 (renamed or strftime-named files) and by interval with a clock the driver sets (also backwards), under concurrent traffic; file names, files and their concatenation judged; distinct by file lengths and frames",
                      ["rotations-by-signal", "rotations-by-time", "due-rotations-checked", "clock-steps-back", "rotations-of-stdout-asked", "names-much-longer", "frames-stored", "long-many-rotations"])),
    "P25": dict(level="fault_enumeration", technique="crash, flush and full-device injection with file-content and exit-status oracles over the real server",
                run=T(3000, 300000, "SIGKILL at random moments, SIGHUP with finished and unfinished clients, output limited to a random number of bytes, full devices, vanishing pipe readers, rotations that cannot close or open a file; distinct by outcome and stored frames",
                      ["kills", "frames-flushed", "open-streams-flushed", "failures-reported", "completed-within-limit", "dev-full", "pipe-failures-reported", "rotations-failed-opening", "rotations-failed-closing"])),
    "P26": dict(level="exploration", technique="concurrency-limit monitor over connect and disconnect histories of the real server with failing accepts, under ASan/UBSan",
                run=T(700, 80000, "4 to 100 clients coming and going in orderly and abrupt ways with limits 1 to 10 or none, then exact occupancy: the limit is reached and one more is kept waiting, or without a limit the process's descriptors run out and come back; distinct by limit and stored frames",
                      ["limited-cases", "unlimited-cases", "full-occupancy-reached", "excess-clients-kept-waiting", "limit-reached-in-churn", "long-many-clients", "clients-kept-waiting-without-descriptors", "recoveries-from-no-descriptors"])),
    "P27": dict(level="fault_enumeration", technique="differential oracle over generated files and failing outputs of the real tool under ASan/UBSan/LSan",
                run=TT(3000, 500000, "valid, truncated, mutated and random files (by name, standard input, pipe) and absent, writable, limited, full and existing outputs; standard output, metadata, copy and exit status "
                       "compared with a reference reader; distinct by input and output kind", ["kind-valid", "kind-damaged", "kind-unreadable", "copies-compared", "copy-failures", "success", "failure", "frames-shown", "long-many-frames"])),
    "P28": dict(level="fault_enumeration", technique="wire oracle over scripted good and failing servers and generated file lists, real tool under ASan/UBSan/LSan",
                run=TT(4000, 400000, "lists of valid, foreign, damaged and missing files replayed to servers that do their part, refuse, reply wrongly, or go away at any point; every byte received and the exit status judged; distinct by stream and server",
                       ["complete-exchanges", "server-refuse", "server-bad-accept", "server-close-early", "server-close-amid", "server-no-finish", "server-bad-finish", "server-absent", "files-skipped", "incomplete-files", "long-many-files", "long-many-frames"])),
    "P31": dict(level="exploration", technique="command-line oracle: generated accepted and refused argument lists of the real tools, with live sessions, listening-socket inspection and directory snapshots, under ASan/UBSan",
                run=TT(3000, 300000, "argument lists in every spelling and order with random places, types, files, buffer sizes, limits and intervals, or with one thing missing, contradictory or malformed; "
                       "sessions through the configured place judged, refused lines must leave files, sockets and peers untouched; distinct by argument list",
                       ["capture-sessions", "boundary-frames", "limits-in-force", "splits", "strftime-names", "place-unix", "place-tcp4", "place-tcp6", "refused-no-type", "refused-bad-port", "refused-bad-addr", "refused-long-path",
                        "refused-unknown-long", "refused-unknown-short", "refused-surplus", "refused-two-places", "refused-two-zones", "refused-split-stdout", "replay-sessions", "dump-lines", "refused-dump", "garbage-refused"])),
    "P30": dict(level="exploration", technique="model-based histories of the passive objects against a reference model, under ASan/UBSan with freed and overwritten arguments",
                run=C(500000, 60000000, "random histories of control frame objects (types, content types of 0 to 3000 bytes, decodes, resets), transports with every subset of methods and results, and options with valid and invalid values; distinct by history",
                      ["control-histories", "states-checked", "decodes", "overlong-refused", "rdwr-histories", "init-refused", "option-histories", "max-sizes-accepted", "max-sizes-refused", "options-changed", "default-options", "frames-at-limit", "hundreds-of-types"])),
    "P33": dict(level="exploration", technique="conservation and order oracle over real programs, servers and tools under ASan/UBSan/LSan",
                run=E(400, 20000, "one to five programs, each with an I/O thread on real threads, one to eight queues of either kind and one to eight producers, deliver generated payloads over Unix, IPv4 and IPv6 sockets to a "
                      "server whose system calls are perturbed; meanwhile rotations, flush requests, stopped and continued processes, killed programs; every stored frame compared and counted per producer; the files "
                      "then go through fstrm_dump and through fstrm_replay into another server; distinct by stored order",
                      ["programs", "rotations", "flush-requests", "server-paused", "programs-killed", "lock-queues", "barrier-queues", "programs-over-unix", "programs-over-tcp4", "programs-over-tcp6",
                       "replays", "files-dumped", "long-runs", "bursts", "refused-submissions"])),
    "P34": dict(level="exploration", technique="at-most-once, order and gap oracle over restarted real servers under ASan/UBSan/LSan",
                run=E(200, 10000, "programs as for P33 keep submitting while the server is ended by signals, killed, stalled and killed, and started again at the same place, two to eight times; "
                      "or write to a named pipe whose readers come and go; the outputs of all servers and readers are compared with the log of accepted payloads; distinct by stored order",
                      ["lives", "resumptions", "early-ends", "ended-by-TERM", "ended-by-INT", "ended-by-KILL", "ended-by-stall", "ended-by-dry", "programs-first", "payloads-stored", "broken-pipes"])),
    "P32": dict(level="exploration", technique="heap accounting of the real code over periodic sessions (drift and peak monitors), under ASan/UBSan/LSan", run=p32),
    "P29": dict(level="exploration", technique="address oracle on intercepted socket and connect calls and file-content oracle on generated places, under ASan/UBSan/LSan", run=p29),
}
for _p in PROPS.values():
    _p.setdefault("note", NOTE_GEN)
NOT_APPLICABLE = {"P%02d" % i: PENDING for i in range(1, 35) if "P%02d" % i not in PROPS}


def run(pid, work, replay):
    return PROPS[pid]["run"](pid, work, replay)
