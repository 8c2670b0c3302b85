import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import main, par
from strfam import FAM
from recparts import NAMES, OPS, fields

VOPS = ["push", "insert", "insert_n", "insert_own", "erase", "erase_range", "resize", "reserve", "clear", "set", "write", "copy_assign", "move_assign", "move_construct", "swap", "reload"]
MOPS = ["insert", "emplace", "put", "erase", "erase_it", "clear", "rehash", "bulk", "copy_assign", "move_assign", "move_construct", "swap", "round_trip"]
SOPS = ["set", "assign_view", "ref", "write", "reset", "copy_assign", "move_assign", "move_construct", "swap", "self_move", "reload"]


def body(c):
    big = c.thorough
    k = 12 if big else 1
    bins, gen = {}, {}
    comp = lambda n, s, *f: lambda: bins.__setitem__(n, c.compile(n, s, flags=list(f)))
    make = lambda n, f: lambda: gen.__setitem__(n, f())
    recs = [(4, "offset"), (3, "offset"), (2, "offset")] + ([(4, "raw"), (3, "raw"), (2, "raw")] if big else [(3, "raw")])
    tasks = [comp("rec%d%s" % (p, f), "record.cc", "-DPART=%d" % p, *(["-DFAM_RAW"] if f == "raw" else [])) for p, f in recs]
    tasks += [comp("map", "map.cc"), comp("vector", "vector.cc"), comp("str", "str.cc"), comp("holders", "holders.cc", "-DIMG"), comp("nested", "nested.cc"), comp("mm", "mmultimap.cc"), comp("paged", "paged.cc")]
    tasks += [make(("rec", p), lambda p=p: c.tlc_gen("Record", "Record_sim.cfg", dict(fields(p), Phase=20), num=3000 * k, depth=60, jobs=2, seed_off=100 + p)) for p in (2, 3, 4)]
    tasks += [make("vec", lambda: c.tlc_gen("Vector", "Vector_sim.cfg", num=1600 * k, depth=100, jobs=4, seed_off=40)),
              make("venum", lambda: c.tlc_enum("Vector", "Vector_enum.cfg", {"Depth": 3})),
              make("map", lambda: c.tlc_gen("Map", "Map_sim.cfg", num=900 * k, depth=200, jobs=3, seed_off=41)),
              make("menum", lambda: c.tlc_enum("Map", "Map_enum.cfg", {"Depth": 4})),
              make("hold", lambda: c.tlc_gen("Holders", "Holders_sim.cfg", {"Fails": "FALSE", "Images": "TRUE"}, num=800 * k, depth=100, jobs=2, seed_off=42)),
              make("vv", lambda: c.tlc_gen("VecVec", "VecVec_sim.cfg", num=600 * k, depth=100, jobs=1, seed_off=43)),
              make("mm", lambda: c.tlc_gen("MMap", "MMap_sim.cfg", num=600 * k, depth=100, jobs=1, seed_off=44)),
              make("pg", lambda: c.tlc_gen("Paged", "Paged_sim.cfg", num=600 * k, depth=100, jobs=1, seed_off=45)),
              lambda: c.tlc_check("Record", "Record_mc.cfg", workers=2)]
    fams = ("basic15", "basic7", "basic3", "cstring")
    tasks += [make(("str", f), lambda f=f, n=n: c.tlc_gen("Str", "Str_sim.cfg", dict(FAM[f], Loadable="TRUE"), num=600 * k, depth=100, jobs=1, seed_off=50 + n)) for n, f in enumerate(fams)]
    tasks += [make(("senum", f), lambda f=f: c.tlc_enum("Str", "Str_enum.cfg", dict(FAM[f], Loadable="TRUE", Depth=3))) for f in ("basic15", "cstring")]
    par(c, *tasks)
    run = lambda b, fs, label, args=(), ops=(), leaks=True: lambda: c.replay(bins[b], fs, args=list(args), label=label, expect_ops=ops, leaks=leaks)
    jobs = [run("rec%d%s" % (p, f), gen["rec", p], "record-%s%d" % (f, p), ops=OPS[p], leaks=False) for p, f in recs]
    jobs += [run("vector", gen["vec"], "vector", ["image"], VOPS), run("vector", gen["venum"], "vector-enum", ["image"]), run("vector", gen["vec"], "vector-deep", ["image-deep"], VOPS, False),
             run("map", gen["map"], "map", ["image", "24", "square"], MOPS), run("map", gen["menum"], "map-enum", ["image", "2", "same"]),
             run("map", gen["map"], "map-deep", ["image-deep", "24", "square"], MOPS, False),
             run("holders", gen["hold"], "holders", ops=["reload"], leaks=False), run("nested", gen["vv"], "vecvec", ["vecvec-image"], ["reload"], False),
             run("mm", gen["mm"], "mmultimap", ["big"], ["reload"]), run("paged", gen["pg"], "paged", ["big"], ["reload"])]
    jobs += [run("str", gen["str", f], "str-" + f, [f, "image"], SOPS if f != "cstring" else SOPS) for f in fams]
    jobs += [run("str", gen["senum", f], "str-enum-" + f, [f, "image"]) for f in ("basic15", "cstring")]
    par(c, *jobs)
    c.assumptions += ["elements that still live in image memory are not destroyed with their container (cista runs no destructors on image memory)",
                      "deserialized objects are not moved from one image into an object that outlives that image"]


main("P23", body)
