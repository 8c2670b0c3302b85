import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import main, par
from recparts import NAMES, OPS, PARTS, fields


def only(kind, **more):
    d = {n: 1 if n == kind else 0 for n in NAMES}
    d.update(more)
    return d


def body(c):
    big = c.thorough
    fams = (("offset", []), ("raw", ["-DFAM_RAW"]))
    bins = {}
    tasks = [lambda p=p, f=f, fl=fl: bins.__setitem__((p, f), c.compile("rec%d%s" % (p, f), "record.cc", flags=["-DPART=%d" % p] + fl))
             for p in (4, 3, 2, 1) for f, fl in fams]
    sims = {}
    tasks += [lambda p=p: sims.__setitem__(p, c.tlc_gen("Record", "Record_sim.cfg", fields(p), num=40000 if big else 4000, depth=60, jobs=4, seed_off=p)) for p in PARTS]
    enums = {}
    d = {"Depth": 6, "Every": 3} if big else {"Depth": 4, "Every": 2}
    for kind, part, const in (("Cells", 1, dict(Codes=7 if not big else 3)), ("Lists", 3, dict(Codes=1, MaxLen=2)), ("Maps", 4, dict(Codes=1, Keys=2)),
                              ("Multis", 4, dict(Codes=1, MaxLen=2)), ("Bits", 4, dict(MaxBits=65))):
        tasks.append(lambda kind=kind, const=const: enums.__setitem__(kind, c.tlc_enum("Record", "Record_enum.cfg", only(kind, **dict(d, **const)))))
    tasks += [lambda: c.tlc_check("Record", "Record_mc.cfg", {"Cells": 2} if big else {}, workers=2)]
    par(c, *tasks)
    jobs = []
    for p in PARTS:
        for f, _ in fams:
            jobs.append(lambda p=p, f=f: c.replay(bins[p, f], sims[p], label="%s%d-sim" % (f, p), expect_ops=OPS[p], leaks=False))
            for k, n in enumerate(NAMES):
                if PARTS[p][k]:
                    jobs.append(lambda p=p, f=f, n=n, k=k: c.replay(bins[p, f], enums[n], args=["each", str(PARTS[p][k])], label="%s%d-%s" % (f, p, n), leaks=False))
    par(c, *jobs)
    c.assumptions += ["variants hold a value when serialized", "64 bit little endian host", "g++ 13"]


main("P01", body)
