import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import main, par

OPS = ["write", "flip", "resize", "read", "sweep", "lengths"]
HASHES = {"fnv": [], "xxh3": ["-DCISTA_XXH3", "-I/repo/tools/xxh3"], "wyhash": ["-DCISTA_WYHASH", "-I/repo/tools/wyhash"]}


def body(c):
    big = c.thorough
    bins, gen = {}, {}
    tasks = [lambda h=h, f=f: bins.__setitem__((h, f), c.compile("int_%s_%s" % (h, f), "integrity.cc", HASHES[h] + (["-DFAM_RAW"] if f == "raw" else []) + (["-DSMALL"] if h != "fnv" else []), opt="-O1" if big else "-O0"))
             for h in HASHES for f in ("offset", "raw") if h == "fnv" or f == "offset"]
    tasks += [lambda: gen.__setitem__("enum", c.tlc_enum("Integrity", "Integrity_enum.cfg")),
              lambda: gen.__setitem__("sim", c.tlc_gen("Integrity", "Integrity_sim.cfg", num=6000 if big else 120, depth=45, jobs=4))]
    par(c, *tasks)
    par(c, *[lambda k=k, g=g: c.replay(bins[k], gen[g], label="%s-%s-%s" % (k + (g,)), expect_ops=OPS if g == "sim" else ["write", "flip", "read", "sweep", "lengths"]) for k in bins for g in gen if big or g == "sim" or k[0] == "fnv"])
    c.assumptions += ["no collisions of the 64 bit checksum among the altered images tried"]


main("P05", body)
