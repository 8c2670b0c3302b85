import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import main, par

KINDS = ["same", "two", "seq", "stride", "spread", "square"]


def leak_probe(c, b):
    """The recorded finding: move assignment leaks the storage of its target."""
    f = os.path.join(c.work, "probe.txt")
    open(f, "w").write('[["insert",[1,1,1],"any"],["insert",[2,2,1],"any"],["move_assign",[1],"any"]]\n')
    rc, out, err = c.run_harness(b, f, ["gen", "4", "square", "plain-move"])
    if rc not in (0, 87):
        c.fail("move assignment onto a map with entries fails (rc %d)" % rc, out + err[-3000:], "move_probe")
    elif not c.known_probe("hash map move assignment does not release the storage of the target (leak)", rc == 87) and rc == 87:
        c.fail("hash map move assignment leaks", err[-3000:], "move_probe")


def body(c):
    big = c.thorough
    jobs = [lambda: c.compile("map", "map.cc"),
            lambda: c.tlc_check("Map", "Map_mc.cfg", workers=2),
            lambda: c.tlc_enum("Map", "Map_enum.cfg", {"Depth": 5 if big else 4}),
            lambda: c.tlc_gen("Map", "Map_sim.cfg", num=6000 if big else 900, depth=200, jobs=4),
            lambda: c.tlc_gen("Map", "Map_sim.cfg", {"NK": 70, "Depth": 260, "Phase": 90}, num=800 if big else 100, depth=300, jobs=4, seed_off=1)]
    for k in ("same", "two", "stride"):
        jobs.append(lambda k=k: c.tlc_check("SwissTable", "SwissTable_mc.cfg", {
            "HashKind": '"%s"' % k, "NK": 7 if big else 6, "MaxCap": 15 if big or k == "stride" else 7}, workers=2))
    for n, k in enumerate(KINDS):
        jobs.append(lambda k=k, n=n: c.tlc_gen("SwissTable", "SwissTable_sim.cfg", {"HashKind": '"%s"' % k},
                                               num=600 if big else 60, depth=200, jobs=1, seed_off=10 + n))
    r = par(c, *jobs)
    b, enum, sim, simbig = r[0], r[2], r[3], r[4]
    swiss = sum(r[8:], [])
    allops = ["insert", "emplace", "put", "touch", "find", "find_other", "get", "at", "erase", "erase_it", "erase_if", "clear",
              "rehash", "bulk", "make", "copy_assign", "copy_construct", "move_assign", "move_construct", "swap",
              "self_assign", "equal", "round_trip"]
    def runs(fs, args, label, ops=()):
        return lambda: c.replay(b, fs, args=args, label=label, expect_ops=ops)
    par(c, runs(enum, ["ctl", "2", "same"], "enum/ctl"), runs(enum, ["gen", "2"], "enum/gen"),
        runs(sim, ["ctl", "24", "square"], "sim/ctl", allops), runs(sim, ["gen", "24"], "sim/gen", allops),
        runs(simbig, ["ctl", "70", "spread"], "simbig/ctl"), runs(simbig, ["gen", "70"], "simbig/gen"),
        runs(swiss, ["ctl", "26"], "swiss/ctl", ["insert", "erase", "round_trip"]), runs(swiss, ["gen", "26"], "swiss/gen"))
    leak_probe(c, b)
    c.assumptions += ["Eq is consistent with Hash", "single threaded use"]


main("P06", body)
