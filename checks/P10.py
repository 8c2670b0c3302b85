import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import main, par

VV = ["emplace_back", "emplace_list", "add_sized", "resize", "clear", "push", "push_own", "grow", "write", "write_at", "write_front", "write_back",
      "at", "at2", "ends", "jump", "copy_assign", "copy_to", "swap", "move_construct", "reload"]
NV = ["emplace_back", "at", "size", "sub", "write", "ends", "copy", "reload"]
FW = ["push", "emplace", "finish_key", "finish_map", "get", "walk", "reload", "copy", "restart"]


def body(c):
    big = c.thorough
    r = par(c, lambda: c.compile("nested", "nested.cc"),
            lambda: c.tlc_check("VecVec", "VecVec_mc.cfg", {"NV": 2 if big else 1}, workers=2),
            lambda: c.tlc_check("VecVecStarts", "VecVecStarts_mc.cfg", {"MaxLen": 3 if big else 2}, workers=2),
            lambda: c.tlc_check("NVecIndex", "NVecIndex_mc.cfg", {"MaxTop": 4 if big else 3}, workers=2),
            lambda: c.tlc_enum("VecVec", "VecVec_enum.cfg", {"Depth": 5 if big else 4}),
            lambda: c.tlc_gen("VecVec", "VecVec_sim.cfg", num=12000 if big else 1600, depth=100, jobs=3),
            lambda: c.tlc_enum("NVec", "NVec_enum.cfg"),
            lambda: c.tlc_gen("NVec", "NVec_sim.cfg", num=4000 if big else 600, depth=60, jobs=2),
            lambda: c.tlc_gen("NVec", "NVec_sim.cfg", {"Levels": 3}, num=4000 if big else 600, depth=60, jobs=2, seed_off=1),
            lambda: c.tlc_enum("Fws", "Fws_enum.cfg", {"Depth": 8 if big else 7}),
            lambda: c.tlc_gen("Fws", "Fws_sim.cfg", num=6000 if big else 600, depth=100, jobs=2))
    b = r[0]
    par(c, lambda: c.replay(b, r[4], args=["vecvec"], label="vecvec-enum"), lambda: c.replay(b, r[5], args=["vecvec"], label="vecvec", expect_ops=VV),
        lambda: c.replay(b, r[4], args=["vecvec-image"], label="vecvec-image-enum", leaks=False), lambda: c.replay(b, r[5], args=["vecvec-image"], label="vecvec-image", leaks=False),
        lambda: c.replay(b, r[6], args=["nvec2"], label="nvec2-enum"), lambda: c.replay(b, r[7], args=["nvec2"], label="nvec2", expect_ops=NV),
        lambda: c.replay(b, r[8], args=["nvec3"], label="nvec3", expect_ops=NV),
        lambda: c.replay(b, r[9], args=["fws"], label="fws-enum"), lambda: c.replay(b, r[10], args=["fws"], label="fws", expect_ops=FW))
    c.assumptions += ["a container handed to emplace_back may be emptied", "a frozen multimap is closed with no unfinished key"]


main("P10", body)
