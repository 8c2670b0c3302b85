import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import main, par
import shapes

PAIRS = ["struct", "load", "visit", "index", "count", "nothing"]
HIST = ["struct", "put", "visit", "compare", "self", "copy", "index", "count", "print"]


def body(c):
    big = c.thorough
    files, sets = {}, {}
    plans = ["arity", "single", "double"]
    tasks = [lambda p=p: files.__setitem__(p, c.tlc_enum("ReflectShapes", "ReflectShapes.cfg", {"Plan": '"%s"' % p, "Big": str(big).upper()}, workers=1)) for p in plans]
    tasks += [lambda: files.__setitem__("random", c.tlc_gen("ReflectShapes", "ReflectShapes.cfg", {"Plan": '"random"', "Big": "FALSE"}, num=300 if big else 48, depth=4, jobs=1))]
    par(c, *tasks)
    small = shapes.read(files["single"] + files["double"])
    large = shapes.read(files["arity"] + files["random"])
    for name, shp, n in (("large", large, 24 if big else 5), ("small", small, 16 if big else 3)):
        for i in range(n):
            sets["%s%d" % (name, i)] = shp[i::n]

    def run(s):
        text, named = shapes.cxx(sets[s])
        inc = os.path.join(c.work, "shapes_%s.inc" % s)
        open(inc, "w").write(text)
        js = os.path.join(c.work, "shapes_%s.json" % s)
        open(js, "w").write("".join(json.dumps(x) + "\n" for x in named))
        out = {}
        def spec():
            if s.startswith("small"):
                out["beh"] = c.tlc_enum("Reflect", "Reflect_pairs.cfg", env={"SHAPES": js}, workers=1, split=1)
                out["hist"] = c.tlc_gen("Reflect", "Reflect_history.cfg", num=4000 if big else 400, depth=50, jobs=1, seed_off=hash_(s), env={"SHAPES": js})
            else:
                out["hist"] = c.tlc_gen("Reflect", "Reflect_history.cfg", num=4000 if big else 400, depth=50, jobs=1, seed_off=hash_(s), env={"SHAPES": js})
        par(c, spec, lambda: out.__setitem__("bin", c.compile("reflect_" + s, "reflect.cc", ['-DSHAPES="%s"' % inc], opt="-O0", san=s.startswith("small"))))
        if "beh" in out:
            c.replay(out["bin"], out["beh"], label="values-" + s)
        c.replay(out["bin"], out["hist"], label="history-" + s)
    par(c, *[lambda s=s: run(s) for s in sets])
    done = {o for ops in c.cov["operations"].values() for o in ops}
    if not c.violations and set(PAIRS + HIST) - done:
        raise RuntimeError("never exercised: %s" % sorted(set(PAIRS + HIST) - done))


def hash_(s):
    return sum(ord(x) for x in s)


main("P22", body)
