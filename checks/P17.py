import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import main, par

O = ["o_ctor", "o_assign_r", "o_assign_l", "o_deref", "o_arrow", "o_value", "o_null_ctor", "o_null_assign", "o_empty_assign", "o_copy_c", "o_copy_l",
     "o_copy_assign", "o_move_ctor", "o_move_assign", "o_self_copy", "o_self_move", "o_get", "o_compare"]
P = ["p_make", "p_take", "p_push", "p_reset", "p_null_assign", "p_null_ctor", "p_empty_assign", "p_move_ctor", "p_move_assign", "p_self_move", "p_swap",
     "p_pop", "p_cut", "p_deref", "p_arrow", "p_get"]
T = ["t_ctor", "t_assign_r", "t_assign_l", "t_get", "t_apply", "t_copy_ctor", "t_copy_assign", "t_move_ctor", "t_move_assign", "t_self_copy", "t_default",
     "t_swap", "t_compare", "t_visit", "t_zip"]


def body(c):
    big = c.thorough
    k = 20 if big else 1
    img = {"Fails": "FALSE", "Images": "TRUE"}
    deep = {"Depth": 4 if big else 3}
    only = lambda p: {"Parts": '{"%s"}' % p}
    ml = ["-DMAXL=%d" % (4 if big else 3)]
    r = par(c, lambda: c.compile("layout", "holders.cc", ["-DLAYOUT"] + ml, opt="-O0"), lambda: c.compile("img", "holders.cc", ["-DIMG"], opt="-O0"),
            lambda: c.compile("plain", "holders.cc", ["-DPLAIN"], opt="-O0"),
            lambda: c.tlc_check("Holders", "Holders_mc.cfg", {"Parts": '{"o", "p"}', "NV": 2, "MaxChain": 3} if big else {"Parts": '{"o", "p"}'}, workers=2, timeout=3000),
            lambda: c.tlc_check("Holders", "Holders_mc.cfg", {"Parts": '{"t"}', "NV": 2}, workers=2, timeout=3000),
            lambda: c.tlc_enum("TupleLayout", "TupleLayout.cfg", {"MaxLen": 4 if big else 3}, split=2),
            lambda: c.tlc_enum("Holders", "Holders_enum.cfg", dict(only("o"), Depth=3), split=8, timeout=3000),
            lambda: c.tlc_enum("Holders", "Holders_enum.cfg", dict(only("p"), **deep), split=8, timeout=3000),
            lambda: c.tlc_enum("Holders", "Holders_enum.cfg", dict(only("t"), Depth=3 if big else 2), split=4, timeout=3000),
            lambda: c.tlc_gen("Holders", "Holders_sim.cfg", num=800 * k, depth=100, jobs=2),
            lambda: c.tlc_gen("Holders", "Holders_sim.cfg", {"Width": 2}, num=500 * k, depth=100, jobs=1, seed_off=1),
            lambda: c.tlc_gen("Holders", "Holders_sim.cfg", img, num=800 * k, depth=100, jobs=2, seed_off=2),
            lambda: c.tlc_gen("Holders", "Holders_sim.cfg", dict(img, Width=2), num=400 * k, depth=100, jobs=1, seed_off=3),
            lambda: c.tlc_gen("Holders", "Holders_sim.cfg", {"Fails": "FALSE"}, num=600 * k, depth=100, jobs=1, seed_off=4),
            lambda: c.compile("order", "order.cc", opt="-O0"), lambda: c.tlc_enum("TupleOrder", "TupleOrder.cfg", {"MaxLen": 6} if big else None, split=2))
    lay, im, pl = r[:3]
    order, ocases = r[-2:]
    par(c, lambda: c.replay(order, ocases, label="order"), lambda: c.replay(lay, r[5], label="layout"), lambda: c.replay(pl, r[6] + r[7] + r[8], args=["fail"], label="enum"),
        lambda: c.replay(pl, r[9], args=["fail"], label="sim", expect_ops=O + P + T + ["o_fail_ctor", "o_fail_copy", "p_ref"]),
        lambda: c.replay(pl, r[10], args=["w2"], label="pair", expect_ops=O + P + T), lambda: c.replay(pl, r[13], args=["plain"], label="scalar", expect_ops=O + P + T),
        lambda: c.replay(im, r[11], label="image", expect_ops=["reload"] + O + P + T, leaks=False),
        lambda: c.replay(im, r[12], args=["w2"], label="image-pair", expect_ops=["reload"], leaks=False))
    c.assumptions += ["tuple and pair component constructors do not throw", "values assigned to an optional are not nested inside its own current value",
                      "values whose storage belongs to an image and that are replaced by heap values are not checked for leaks"]


main("P17", body)
