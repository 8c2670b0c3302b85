import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import main, par
from recparts import NAMES, OPS, PARTS, fields

POPS = ["arrow", "compare", "compare_raw", "construct", "copy", "copy_construct", "distance", "index", "is_null", "minus", "minus_strong", "move", "move_construct", "null", "null_construct",
        "null_default", "null_ptr", "null_typed", "plus", "plus_strong", "post_dec", "post_inc", "pre_dec", "pre_inc", "q_cast", "q_construct", "q_copy", "q_copy_construct", "q_from",
        "q_is_null", "q_move", "q_move_construct", "q_null", "q_null_construct", "q_null_ptr", "q_set", "q_through", "read", "relocate", "relocate_file", "relocate_overlapping",
        "reverse", "rotate", "set", "swap", "via_const", "via_raw", "via_temporary", "w_assign_range", "w_clear", "w_copy", "w_copy_assign", "w_emplace", "w_erase", "w_get", "w_insert",
        "w_move", "w_push", "w_push_own", "w_resize", "w_set", "write", "write_index"]


def body(c):
    big = c.thorough
    k = 12 if big else 1
    bins, gen = {}, {}
    tasks = [lambda p=p: bins.__setitem__(p, c.compile("rec%d" % p, "record.cc", flags=["-DPART=%d" % p])) for p in (4, 3, 2, 1)]
    tasks += [lambda: bins.__setitem__("ptr", c.compile("ptr", "offsetptr.cc")),
              lambda: bins.__setitem__("ptr20", c.compile("ptr20", "offsetptr.cc", std="c++20", opt="-O2")),
              lambda: gen.__setitem__("ptr", c.tlc_gen("OffsetPtr", "OffsetPtr_sim.cfg", num=4000 * k, depth=70)),
              lambda: gen.__setitem__("enum", c.tlc_enum("OffsetPtr", "OffsetPtr_enum.cfg", {"M": 3, "NP": 3} if big else {})),
              lambda: c.tlc_check("OffsetPtr", "OffsetPtr_mc.cfg", {} if big else {"NQ": 1}, workers=3)]
    # images that are moved after every few steps
    tasks += [lambda p=p: gen.__setitem__(p, c.tlc_gen("Record", "Record_sim.cfg", dict(fields(p), Moves=40), num=1600 * k, depth=60, jobs=2, seed_off=200 + p)) for p in PARTS]
    par(c, *tasks)
    jobs = [lambda p=p: c.replay(bins[p], gen[p], label="image%d" % p, expect_ops=OPS[p] + ["move_image"], leaks=False) for p in PARTS]
    for b in ("ptr", "ptr20"):
        jobs += [lambda b=b: c.replay(bins[b], gen["ptr"], label=b, expect_ops=POPS), lambda b=b: c.replay(bins[b], gen["enum"], args=["3" if big else "2", "1", "3" if big else "2"], label=b + "-enum")]
    par(c, *jobs)
    c.assumptions += ["the address an image is moved to is aligned like the image demands (64 bytes here)", "difference of two relative pointers and += are not offered by the library"]


main("P15", body)
