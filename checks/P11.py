import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import main, par

OPS = ["touch", "get_or_create", "new_bucket", "push", "emplace", "push_own", "emplace_own", "insert", "insert_move", "insert_own", "reserve_bucket",
       "resize", "resize_val", "pop", "clear_bucket", "erase", "erase_range", "erase_key", "clear", "reserve", "write", "write_at", "write_front",
       "write_back", "at", "at2", "ends", "walk", "copy_assign", "copy_to", "swap", "move_construct", "reload"]


def body(c):
    big = c.thorough
    r = par(c, lambda: c.compile("mm", "mmultimap.cc"),
            lambda: c.tlc_check("MMapSlots", "MMapSlots_mc.cfg", {"MaxData": 8 if big else 5}, workers=6 if big else 4, timeout=3000),
            lambda: c.tlc_enum("MMap", "MMap_enum.cfg", {"Depth": 5 if big else 4}),
            lambda: c.tlc_gen("MMap", "MMap_sim.cfg", num=12000 if big else 700, depth=120, jobs=4),
            lambda: c.tlc_gen("MMap", "MMap_sim.cfg", {"Depth": 250, "Phase": 60, "MaxLen": 70}, num=1500 if big else 50, depth=300, jobs=2, seed_off=1),
            lambda: c.tlc_gen("MMap", "MMap_sim.cfg", {"MaxBucket": 8, "MaxLen": 12}, num=4000 if big else 300, depth=120, jobs=2, seed_off=2))
    b = r[0]
    par(c, lambda: c.replay(b, r[2], args=["big"], label="enum"), lambda: c.replay(b, r[3], args=["big"], label="sim", expect_ops=OPS),
        lambda: c.replay(b, r[4], args=["big"], label="long"), lambda: c.replay(b, r[5], args=["small"], label="limit"))
    c.assumptions += ["elements are trivially copyable (static_assert of the container)"]


main("P11", body)
