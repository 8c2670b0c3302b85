import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import main, par

OPS = ["insert", "insert_own", "delete", "delete_fn", "search", "stop", "copy_to", "copy_assign", "swap", "reload"]


def body(c):
    big = c.thorough
    wide = {"C": 160, "MaxN": 150}
    r = par(c, lambda: c.compile("rtree", "rtree.cc", opt="-O0"), lambda: c.compile("rtree_deep", "rtree.cc", ["-DDEEP"], opt="-O0"),
            lambda: c.tlc_check("RTreeNode", "RTreeNode_mc.cfg", {"MaxEntries": 5, "C": 1} if big else None, workers=6 if big else 4, timeout=3000),
            lambda: c.tlc_check("RTreeNode", "RTreeNode_mc.cfg", {"MaxItems": 3, "MaxEntries": 5 if big else 4, "C": 2 if big else 1}, workers=6 if big else 4, timeout=3000),
            lambda: c.tlc_enum("RTree", "RTree_enum.cfg", {"Depth": 9 if big else 7}, split=8),
            lambda: c.tlc_gen("RTree", "RTree_sim.cfg", num=8000 if big else 400, depth=120, jobs=4),
            lambda: c.tlc_gen("RTree", "RTree_sim.cfg", dict(wide, Depth=100, Pattern='"down"'), num=800 if big else 40, depth=160, jobs=2, seed_off=1),
            lambda: c.tlc_gen("RTree", "RTree_sim.cfg", dict(wide, Depth=100, Pattern='"up"'), num=800 if big else 20, depth=160, jobs=1, seed_off=2),
            lambda: c.tlc_gen("RTree", "RTree_sim.cfg", {"C": 30, "MaxN": 250, "Depth": 600, "Phase": 200, "Full": "FALSE", "Pattern": '"mix"'},
                              num=300 if big else 12, depth=700, jobs=2, seed_off=3),
            lambda: c.tlc_gen("RTree", "RTree_sim.cfg", {"C": 6, "MaxN": 20, "Phase": 15}, num=4000 if big else 60, depth=120, jobs=1, seed_off=4))
    b = r[0]
    par(c, lambda: c.replay(b, r[4], args=["full"], label="enum"), lambda: c.replay(b, r[5], args=["full"], label="sim", expect_ops=OPS),
        lambda: c.replay(r[1], r[6] + r[7], args=["deep"], label="deep"), lambda: c.replay(b, r[8], args=["sum"], label="long"),
        lambda: c.replay(b, r[9], args=["full", "files"], label="files"))
    c.assumptions += ["coordinates are finite numbers and rectangle areas fit the coordinate type", "payload types are trivially copyable"]


main("P13", body)
