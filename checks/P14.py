import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import main, par

OPS = ["open", "resize", "reserve", "write", "sync", "close", "default", "move_construct", "move_assign", "swap"]
VOPS = ["push", "emplace", "push_own", "insert", "insert_move", "insert_own", "insert_fwd", "insert_input", "set", "set_input", "resize", "reserve",
        "write", "reopen", "move", "fresh"]


def body(c):
    big = c.thorough
    r = par(c, lambda: c.compile("mmapf", "mmapf.cc"),
            lambda: c.tlc_enum("Mmap", "Mmap_enum.cfg", {"Depth": 6 if big else 5}),
            lambda: c.tlc_gen("Mmap", "Mmap_sim.cfg", num=8000 if big else 400, depth=100, jobs=4),
            lambda: c.tlc_enum("MVec", "MVec_enum.cfg", {"Depth": 5 if big else 4}),
            lambda: c.tlc_gen("MVec", "MVec_sim.cfg", num=8000 if big else 300, depth=100, jobs=4, seed_off=1))
    b = r[0]
    par(c, lambda: c.replay(b, r[1], args=["mmap"], label="enum"), lambda: c.replay(b, r[2], args=["mmap"], label="sim", expect_ops=OPS),
        lambda: c.replay(b, r[3], args=["vec"], label="vec-enum"), lambda: c.replay(b, r[4], args=["vec"], label="vec-sim", expect_ops=VOPS))
    c.assumptions += ["a file is mapped by one object at a time", "no crash of the operating system (durability beyond the page cache is not observed)"]


main("P14", body)
