import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import main, par

OPS = ["make", "make_default", "resize", "reset", "write", "write_call", "write_at", "fill_row", "at", "at_const", "copy_assign", "copy_construct",
       "move_assign", "move_construct", "swap", "reload"]
TYPES = ["u8", "i8", "u16", "i16", "i32", "u32", "u64", "i64"]


def body(c):
    big = c.thorough
    k = 30 if big else 1
    r = par(c, lambda: c.compile("matrix", "matrix.cc"), lambda: c.compile("strong17", "strong.cc", opt="-O0"), lambda: c.compile("strong20", "strong.cc", std="c++20", opt="-O0"),
            lambda: c.tlc_enum("FlatMatrix", "FlatMatrix_enum.cfg", {"Depth": 3, "MaxDim": 2 if big else 1}, timeout=3000),
            lambda: c.tlc_gen("FlatMatrix", "FlatMatrix_sim.cfg", num=1600 * k, depth=80, jobs=3),
            lambda: c.tlc_gen("FlatMatrix", "FlatMatrix_sim.cfg", {"MaxDim": 17}, num=300 * k, depth=80, jobs=1, seed_off=1),
            lambda: c.tlc_enum("Strong", "Strong.cfg", {"Small": 0 if big else 1}, timeout=3000))
    m, s17, s20, enum, sim, wide, st = r
    par(c, lambda: c.replay(m, enum, label="matrix-enum"), lambda: c.replay(m, sim + wide, label="matrix", expect_ops=OPS),
        lambda: c.replay(m, sim + wide, args=["image"], label="matrix-image", expect_ops=OPS, leaks=False),
        lambda: c.replay(s17, st, label="strong-c++17", expect_ops=TYPES), lambda: c.replay(s20, st, label="strong-c++20", expect_ops=TYPES))
    c.assumptions += ["changing the number of columns keeps the row-major sequence of entries, not the position of every entry",
                      "operations of 32 and 64 bit types are checked on values whose results fit"]


main("P24", body)
