import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import main, par
from strfam import FAM

OPS = ["set", "assign_view", "assign_str", "assign_chars", "set_len", "construct_view", "construct_str", "construct_chars", "ref", "ref_assign",
       "ref_construct", "set_part", "set_from_other", "write", "reset", "mutate", "copy_assign", "copy_construct", "copy_replace", "move_assign",
       "move_construct", "swap", "self_assign", "self_move", "compare", "compare_text"]


def body(c):
    big = c.thorough
    fams = list(FAM)
    jobs = [lambda: c.compile("str", "str.cc")]
    for f in ("basic15", "generic15", "view15", "cstring"):
        k = dict(FAM[f], L=2)
        jobs.append(lambda k=k: c.tlc_check("Str", "Str_mc.cfg", k, workers=2))
    for f in ("basic15", "generic15", "cstring"):
        jobs.append(lambda f=f: (f, c.tlc_enum("Str", "Str_enum.cfg", dict(FAM[f], Loadable="FALSE", Depth=4 if big else 3), env=None)))
    for n, f in enumerate(fams):
        jobs.append(lambda f=f, n=n: (f, c.tlc_gen("Str", "Str_sim.cfg", dict(FAM[f], Loadable="FALSE"), num=4000 if big else 500, depth=100,
                                                   jobs=2 if big else 1, seed_off=20 + n)))
    r = par(c, *jobs)
    b = r[0]
    par(c, *[lambda f=f, fs=fs: c.replay(b, fs, args=[f], label=f, expect_ops=()) for f, fs in r[5:]])
    seen = set()
    for l in c.cov["operations"].values():
        seen |= set(l)
    missing = [o for o in OPS + ["erase", "affix"] if o not in seen]
    if missing and not c.violations:
        from vf import CheckError
        raise CheckError("operations never exercised: %s" % missing)
    c.assumptions += ["memory referred to by non-owning strings outlives them"]


main("P08", body)
