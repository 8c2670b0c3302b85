import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import main, par

FIXED = [1, 8, 63, 64, 65, 128, 129, 200]
OPS = ["set", "set_atomic", "set_val", "unset", "unset_atomic", "set_range", "resize", "reset", "zero_out", "one_out", "max", "text", "construct_text",
       "flip", "and", "or", "xor", "shl", "shl_copy", "shr", "shr_copy", "next", "test", "claim", "compare", "copy_assign", "copy_construct",
       "move_construct", "swap", "reload"]


def body(c):
    big = c.thorough
    jobs = [lambda: c.compile("bits", "bits.cc"),
            lambda: c.tlc_check("Bits", "Bits_mc.cfg", {"Sizes": "{0, 1, 3, 4}"} if big else {}, workers=2),
            lambda: c.tlc_check("BitBlocks", "BitBlocks_mc.cfg", {"MaxSize": 7 if big else 5}, workers=2),
            lambda: c.tlc_gen("Bits", "Bits_sim.cfg", num=8000 if big else 1200, depth=100, jobs=3),
            lambda: c.tlc_gen("Bits", "Bits_sim.cfg", {"Sizes": "{0, 1, 31, 32, 33, 63, 64, 65, 95, 96, 97, 130}"}, num=4000 if big else 500, depth=100, jobs=2, seed_off=1)]
    for k, n in enumerate(FIXED):
        jobs.append(lambda k=k, n=n: c.tlc_gen("Bits", "Bits_sim.cfg", {"Sizes": "{%d}" % n, "Fixed": "TRUE"}, num=1500 if big else 150, depth=100, jobs=1, seed_off=10 + k))
    r = par(c, *jobs)
    b = r[0]
    runs = [lambda: c.replay(b, r[3], args=["vec"], label="bitvec", expect_ops=OPS), lambda: c.replay(b, r[4], args=["vec32"], label="bitvec32")]
    for k, n in enumerate(FIXED):
        runs.append(lambda k=k, n=n: c.replay(b, r[5 + k], args=[str(n)], label="bitset%d" % n))
    par(c, *runs)
    c.assumptions += ["binary operations are applied to equal sizes", "set() is called with positions below the size"]


main("P09", body)
