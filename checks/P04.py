import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import main, par, CheckError
import typegen

KNOWN = "the dynamic type hash does not mark where a nested struct ends: outer{inner{u32, u8}, u8} is accepted as outer{inner{u32, u8, u8}}"
N = lambda k, n=0, a=(): {"k": k, "n": n, "a": list(a)}
PROBE = [([[N("u32"), N("u8")], [N("ref", 1), N("u8")]], 0), ([[N("u32"), N("u8"), N("u8")], [N("ref", 1)]], 0)]


def body(c):
    big = c.thorough
    files = c.tlc_gen("TypeHash", "TypeHash.cfg", num=160 if big else 18, depth=200, jobs=2)
    every = c.tlc_enum("TypeHash", "TypeHash_all.cfg", split=1, workers=1, min_lines=150)
    progs = list(enumerate([p + ("", "", "") for p in PROBE] + typegen.read(every + files)))
    meta = dict(progs)
    chunks = 24 if big else 8
    image = set(n for n, p in progs[2:] if typegen.storable(p))
    image = set(sorted(image)[::1 if big else 4])
    fams = ["offset", "raw"] if big else ["offset"]
    hashes, res = {f: {} for f in fams}, {f: {} for f in fams}
    lists = os.path.join(c.work, "pairs")

    def one(i, fam):
        part = progs[i::chunks]
        h = os.path.join(c.work, "types_%d.h" % i)
        open(h, "w").write(typegen.header(part, image))
        fl = ['-DTYPES="%s"' % h, "-Wno-overflow"] + (["-DFAM_RAW"] if fam == "raw" else [])
        two = os.path.join(c.work, "second_%d_%s.cc" % (i, fam))
        open(two, "w").write('#define SECOND\n#include "typehash.cc"\n')
        b = c.compile("typehash_%d_%s" % (i, fam), ["typehash.cc", two], fl, san=False, opt="-O0")
        outs = []
        for _ in range(2):
            rc, out, err = c.run_harness(b, "hashes")
            if rc != 0:
                raise CheckError("typehash rc=%d %s" % (rc, err[-500:]))
            outs.append(out)
        if outs[0] != outs[1]:
            c.fail("type hashes differ between runs", outs[0] + "\n---\n" + outs[1], "runs")
        for l in outs[0].splitlines():
            w = l.split()
            if w[0] == "UNITS":
                c.fail("type hash differs between build units", show(meta[int(w[1])]), "units")
            else:
                hashes[fam][int(w[0])] = (int(w[1]), int(w[2]))
        d = os.path.join(c.work, "img_" + fam)
        os.makedirs(d, exist_ok=True)
        rc, out, err = c.run_harness(b, "images", [d])
        if rc != 0:
            raise CheckError("images rc=%d %s" % (rc, err[-500:]))
        return b

    def show(p):
        return typegen.program("p", p)
    bins = {}
    par(c, *[lambda i=i, f=f: bins.__setitem__((i, f), one(i, f)) for i in range(chunks) for f in fams])

    # expectations for pairs of programs
    same, different, known = 0, 0, 0
    order = sorted(n for n in meta if n >= 2)
    for fam in fams:
        h = hashes[fam]
        for x in order:
            for y in order:
                if x >= y:
                    continue
                a, b = meta[x], meta[y]
                if a[2] == b[2]:
                    same += 1
                    for kind in (0, 1):
                        if h[x][kind] != h[y][kind]:
                            c.fail("%s hash: identically structured types have different hashes" % ("dynamic", "static")[kind], show(a) + "\n" + show(b), "same")
                elif a[3] != b[3]:
                    different += 1
                    if h[x][1] == h[y][1]:
                        c.fail("static hash: types of different structure have the same hash", "%s\n%s\n%s\n%s" % (show(a), show(b), a[3], b[3]), "different")
                    if h[x][0] == h[y][0]:
                        if a[4] == b[4]:
                            known += 1            # the end of a struct is not part of the hash
                        else:
                            c.fail("dynamic hash: types of different structure have the same hash", "%s\n%s\n%s\n%s" % (show(a), show(b), a[3], b[3]), "different")
                if len(c.violations) > 3:
                    return
    if not c.known_probe(KNOWN, h[0][0] == h[1][0]) and h[0][0] == h[1][0]:
        c.fail(KNOWN, show(PROBE[0]) + show(PROBE[1]), "boundary")
    if h[0][1] == h[1][1]:
        c.fail("static hash does not mark where a nested struct ends", show(PROBE[0]) + show(PROBE[1]), "static-boundary")

    # images: written as one type, read as another
    todo = []
    img = sorted(image)
    for x in img:
        for y in img:
            for m in range(5):
                a, b = meta[x], meta[y]
                static = m in (1, 3)
                if x == y or a[2] == b[2]:
                    res_ = "accept"
                elif a[3] != b[3] and (static or a[4] != b[4]):
                    res_ = "reject"
                else:
                    continue
                if x == y or a[2] == b[2] or m < 2 or (x * 31 + y * 7) % 3 == m % 3:
                    todo.append((x, y, m, res_))
    open(lists, "w").write("".join("%d %d %d\n" % t[:3] for t in todo))
    want = {t[:3]: t[3] for t in todo}

    def read(i, fam):
        rc, out, err = c.run_harness(bins[(i, fam)], "read", [os.path.join(c.work, "img_" + fam), lists])
        last = out.splitlines()[-1:] if out else []
        if rc != 0:
            c.fail("reading an image ended with rc=%d after %s" % (rc, last), err[-3000:], "read")
            return
        for l in out.splitlines():
            r, w, m, got = l.split(" ", 3)
            key = (int(r), int(w), int(m))
            res[fam][key] = got
            if got != want[key] and len(c.violations) < 4:
                c.fail("mode %s: expected %s, got %s" % (m, want[key], got), "written as:\n%s\nread as:\n%s" % (show(meta[key[1]]), show(meta[key[0]])), "image")
    par(c, *[lambda i=i, f=f: read(i, f) for i in range(chunks) for f in fams])
    for f in fams:
        if not c.violations and (set(res[f]) != set(want) or not {"accept", "reject"} <= set(res[f].values())):
            raise CheckError("images not read")
    c.cov["operations"]["types"] = {"programs": len(order), "same": same, "different": different, "boundary only": known, "images read": sum(len(x) for x in res.values())}
    c.cov["traces_validated_against_impl"] += len(order) * len(fams)
    c.cov["steps_replayed"] += same + different + sum(len(x) for x in res.values())
    c.cov["samples"].append(show(meta[order[len(order) // 2]]))
    c.assumptions += ["no accidental collision of 64 bit hashes among the types tried", "the image was written with the same pointer representation (offset or raw)"]


main("P04", body)
