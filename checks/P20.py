import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import main, par
from recparts import PARTS, fields

OPS = ["append", "patch", "checksum", "image", "chunk"]
HASHES = {"fnv": [], "xxh3": ["-DCISTA_XXH3", "-I/repo/tools/xxh3"], "wyhash": ["-DCISTA_WYHASH", "-I/repo/tools/wyhash"]}


def body(c):
    big = c.thorough
    k = 10 if big else 1
    bins, gen = {}, {}
    tasks = [lambda p=p: bins.__setitem__(p, c.compile("rec%d" % p, "record.cc", flags=["-DPART=%d" % p, "-DTARGETS"])) for p in (4, 3, 2, 1)]
    tasks += [lambda h=h: bins.__setitem__(h, c.compile("target_" + h, "target.cc", HASHES[h])) for h in HASHES]
    make = lambda n, f: lambda: gen.__setitem__(n, f())
    tasks += [make("buffers", lambda: c.tlc_gen("Target", "Target_sim.cfg", num=600 * k, depth=60, jobs=3)),
              make("file", lambda: c.tlc_gen("Target", "Target_sim.cfg", {"Buffer": "FALSE"}, num=600 * k, depth=60, jobs=3, seed_off=10)),
              make("ebuffers", lambda: c.tlc_enum("Target", "Target_enum.cfg", {"Depth": 6 if big else 5})),
              make("efile", lambda: c.tlc_enum("Target", "Target_enum.cfg", {"Buffer": "FALSE", "Depth": 6 if big else 5}))]
    tasks += [make(("rec", p), lambda p=p: c.tlc_gen("Record", "Record_sim.cfg", dict(fields(p), Moves=5), num=700 * k, depth=60, jobs=2, seed_off=200 + p)) for p in PARTS]
    par(c, *tasks)
    jobs = []
    for h in HASHES:
        for w in ("buffers", "file"):
            jobs.append(lambda h=h, w=w: c.replay(bins[h], gen[w], args=[w], label="%s-%s" % (w, h), expect_ops=OPS))
            if h == "fnv":
                jobs.append(lambda h=h, w=w: c.replay(bins[h], gen["e" + w], args=[w], label="%s-enum" % w))
    jobs += [lambda p=p: c.replay(bins[p], gen["rec", p], label="record%d" % p, expect_ops=["reload"], leaks=False) for p in PARTS]
    par(c, *jobs)
    c.assumptions += ["the first block appended to a target is not empty", "alignments are powers of two"]


main("P20", body)
