import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import main, par

KINDS = ["number", "text", "seq", "struct", "choice", "opt", "set", "map", "bits", "texts", "pair"]
HASHES = {"fnv": [], "xxh3": ["-DCISTA_XXH3", "-I/repo/tools/xxh3"], "wyhash": ["-DCISTA_WYHASH", "-I/repo/tools/wyhash"], "wyfast": ["-DCISTA_WYHASH_FASTEST", "-I/repo/tools/wyhash"]}


def body(c):
    big = c.thorough
    names = list(HASHES)
    r = par(c, lambda: c.tlc_enum("Equal", "Equal.cfg", {"SeqLen": 4, "Keys": 5} if big else {}, workers=8),
            *[lambda n=n: c.compile("equal_" + n, "equal.cc", HASHES[n], opt="-O1") for n in names])
    par(c, *[lambda n=n, b=b: c.replay(b, r[0], label=n, expect_ops=KINDS) for n, b in zip(names, r[1:])])
    c.assumptions += ["numbers are compared within one signedness", "hashing is asked of types for which cista offers it"]


main("P19", body)
