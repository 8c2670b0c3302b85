import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import main, par

OPS = ["push", "push_move", "emplace", "push_own", "emplace_own", "emplace_default", "pop", "insert", "insert_move", "insert_own", "insert_n",
       "insert_n_own", "insert_range", "insert_input", "insert_moved", "insert_other", "erase", "erase_range", "remove", "resize", "resize_val",
       "reserve", "clear", "set", "range_construct", "list_construct", "size_construct", "fill_construct", "write", "write_at", "write_back",
       "write_front", "at", "copy_assign", "copy_construct", "move_assign", "move_construct", "swap", "self_assign", "compare"]

LOPS = ["push", "emplace", "insert_n", "insert_range", "insert_input", "pop", "resize", "set", "construct", "reserve", "copy", "move"]
LIMITS = [(127, 60), (255, 60), (32767, 12), (65535, 12)]   # largest length, behaviours


def body(c):
    big = c.thorough
    r = par(c, lambda: c.compile("vector", "vector.cc"),
            lambda: c.tlc_check("Vector", "Vector_mc.cfg", {"MaxLen": 4 if big else 3}, workers=3),
            lambda: c.tlc_enum("Vector", "Vector_enum.cfg", {"Depth": 4 if big else 3}),
            lambda: c.tlc_gen("Vector", "Vector_sim.cfg", num=12000 if big else 2400, depth=100, jobs=4),
            lambda: c.tlc_gen("Vector", "Vector_sim.cfg", {"MaxLen": 300, "Depth": 300, "Phase": 120}, num=600 if big else 80, depth=400, jobs=2, seed_off=3),
            lambda: c.compile("veclimit", "veclimit.cc"),
            *[lambda m=m, k=k, n=n: c.tlc_gen("VecLimit", "VecLimit_sim.cfg", {"Max": m}, num=n * (20 if big else 1), depth=60, jobs=1, seed_off=10 + k)
              for k, (m, n) in enumerate(LIMITS)])
    b, enum, sim, long_ = r[0], r[2], r[3], r[4]
    par(c, lambda: c.replay(b, enum, args=["own"], label="enum"), lambda: c.replay(b, sim, args=["own"], label="sim", expect_ops=OPS),
        lambda: c.replay(b, long_, args=["own"], label="long"),
        *[lambda m=m, f=f: c.replay(r[5], f, args=[str(m)], label="size-type-limit-%d" % m, expect_ops=LOPS) for (m, _), f in zip(LIMITS, r[6:])])
    c.assumptions += ["lengths beyond the size type are not requested", "element operations do not throw", "single threaded use"]


main("P07", body)
