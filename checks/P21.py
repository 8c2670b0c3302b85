import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import main, par
from recparts import PARTS, fields


def body(c):
    big = c.thorough
    k = 10 if big else 1
    bins, gen = {}, {}
    tasks = [lambda p=p: bins.__setitem__(p, c.compile("rec%d" % p, "record.cc", flags=["-DPART=%d" % p, "-DENDIAN"])) for p in (4, 3, 2, 1)]
    make = lambda n, f: lambda: gen.__setitem__(n, f())
    tasks += [make(p, lambda p=p: c.tlc_gen("Record", "Record_sim.cfg", dict(fields(p), Moves=5), num=700 * k, depth=60, jobs=2, seed_off=300 + p)) for p in PARTS]
    tasks += [make("endian", lambda: c.tlc_enum("Endian", "Endian.cfg", split=4, workers=1)), lambda: bins.__setitem__("endian", c.compile("endian", "endian.cc", opt="-O0")),
              lambda: bins.__setitem__("endian2", c.compile("endian2", "endian.cc", opt="-O2", san=False, cxx="clang++"))]
    par(c, *tasks)
    par(c, lambda: c.replay(bins["endian"], gen["endian"], label="integers", expect_ops=["store", "swap", "seq"]), lambda: c.replay(bins["endian2"], gen["endian"], label="integers-O2"),
        *[lambda p=p: c.replay(bins[p], gen[p], label="record%d" % p, expect_ops=["reload"], leaks=False) for p in PARTS])


main("P21", body)
