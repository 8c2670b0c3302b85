import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import main, par

OPS = ["ctor", "assign_l", "assign_c", "assign_r", "emplace_t", "emplace_i", "copy_ctor", "copy_assign", "move_ctor", "move_assign", "self_assign",
       "clear_r", "clear_l", "swap", "compare", "visit", "visit_c", "std_visit", "get_t", "get_i", "getif_t", "getif_i", "apply_set"]
FAIL = ["fail_ctor", "fail_emplace_t", "fail_emplace_i", "fail_assign_l", "fail_assign_r"]


def body(c):
    big = c.thorough
    img = {"Boom": 99, "Images": "TRUE"}
    r = par(c, lambda: c.compile("many", "variant.cc", ["-DMANY"], opt="-O0", san=big),
            lambda: c.compile("four", "variant.cc", ["-DFOUR"], opt="-O0"), lambda: c.compile("twenty", "variant.cc", ["-DTWENTY"], opt="-O0"),
            lambda: c.compile("img", "variant.cc", ["-DIMG"], opt="-O0"),
            lambda: c.compile("index", "varindex.cc", opt="-O0", san=big), lambda: c.tlc_enum("VariantIndex", "VariantIndex.cfg", {"Depth": 4} if big else None, split=2),
            lambda: c.tlc_check("Variant", "Variant_mc.cfg", {"NV": 4} if big else None, workers=4),
            lambda: c.tlc_enum("Variant", "Variant_enum.cfg", {"NV": 1, "Depth": 4} if big else None, split=8, timeout=3000),
            lambda: c.tlc_enum("Variant", "Variant_enum.cfg", dict(img, **({"NV": 1, "Depth": 4} if big else {})), split=8, timeout=3000),
            lambda: c.tlc_gen("Variant", "Variant_sim.cfg", num=20000 if big else 1000, depth=80, jobs=4),
            lambda: c.tlc_gen("Variant", "Variant_sim.cfg", img, num=20000 if big else 1000, depth=80, jobs=4, seed_off=1))
    many, four, twenty, im, index, ibeh = r[:6]
    r = r[2:]
    par(c, lambda: c.replay(index, ibeh, label="index", expect_ops=["put", "clear", "move", "visit"]), lambda: c.replay(four, r[5], label="four-enum"), lambda: c.replay(twenty, r[5], label="twenty-enum"),
        lambda: c.replay(im, r[6], label="image-enum", leaks=False), lambda: c.replay(many, r[6], label="many-enum", leaks=False),
        lambda: c.replay(four, r[7], label="four-sim", expect_ops=OPS + FAIL), lambda: c.replay(twenty, r[7], label="twenty-sim", expect_ops=OPS + FAIL),
        lambda: c.replay(im, r[8], label="image-sim", expect_ops=OPS + ["reload"], leaks=False), lambda: c.replay(many, r[8], label="many-sim", expect_ops=OPS + ["reload"], leaks=False))
    c.assumptions += ["the value assigned to a variant is not part of the variant's own current value when the alternative changes",
                      "the order between a variant without value and one with a value is only required to be consistent"]


main("P16", body)
