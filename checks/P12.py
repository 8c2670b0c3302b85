import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import main, par

OPS = ["emplace", "emplace_list", "emplace_convert", "emplace_empty", "emplace_own", "too_large", "push_full", "insert_large", "insert_bucket",
       "insert_own_bucket", "push", "push_own", "insert", "resize_bucket", "resize", "clear", "write", "write_at", "write_front", "write_back",
       "at", "at2", "ends", "walk", "copy_assign", "copy_to", "swap", "reload"]


def body(c):
    big = c.thorough
    r = par(c, lambda: c.compile("paged", "paged.cc"),
            lambda: c.tlc_check("PagedFree", "PagedFree_mc.cfg", {"MaxData": 14 if big else 8}, workers=6 if big else 4, timeout=3000),
            lambda: c.tlc_enum("Paged", "Paged_enum.cfg", {"Depth": 5 if big else 4}),
            lambda: c.tlc_gen("Paged", "Paged_sim.cfg", num=12000 if big else 500, depth=120, jobs=4),
            lambda: c.tlc_gen("Paged", "Paged_sim.cfg", {"Depth": 250, "Phase": 60, "MaxLen": 70}, num=1500 if big else 40, depth=300, jobs=2, seed_off=1),
            lambda: c.tlc_gen("Paged", "Paged_sim.cfg", {"MaxPage": 16, "MaxLen": 20}, num=6000 if big else 400, depth=120, jobs=2, seed_off=2))
    b = r[0]
    par(c, lambda: c.replay(b, r[2], args=["big"], label="enum"), lambda: c.replay(b, r[3], args=["big"], label="sim", expect_ops=OPS),
        lambda: c.replay(b, r[4], args=["big"], label="long"), lambda: c.replay(b, r[5], args=["small"], label="limit"))
    c.assumptions += ["elements are trivially copyable (static_assert of the container)"]


main("P12", body)
