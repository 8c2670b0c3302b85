import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
from vf import main, par


def body(c):
    big = c.thorough
    bin = lambda std: c.compile("atomics" + std, ["atomics.cc"], ["-c", "-fsanitize=thread"], san=False, std="c++" + std)

    def link(std, s, a):
        return c.compile("schedules" + std, [a, s], san=False)
    E = lambda i, mode, nt, ops, total, vals, sample=0: c.tlc_enum("Atomics", "Atomics_enum.cfg", {"Mode": '"%s"' % mode, "NT": nt, "MaxOps": ops, "MaxTotal": total,
                                                              "Vals": vals, "Sample": sample}, split=8, workers=2, timeout=3000)
    M = lambda mode, nt, ops, total, vals: c.tlc_check("Atomics", "Atomics_mc.cfg", {"Mode": '"%s"' % mode, "NT": nt, "MaxOps": ops, "MaxTotal": total, "Vals": vals},
                                                       workers=2, timeout=3000)
    r = par(c, lambda: c.compile("sched.o", "sched.cc", ["-c"], san=False), lambda: bin("17"), lambda: bin("20"),
            lambda: E(0, "word", 2, 2, 4 if big else 3, "{0}"), lambda: E(1, "cell", 2, 2, 4 if big else 3, "{0, 2, 4}"),
            lambda: E(2, "cell", 3, 1, 3, "{0, 1, 3, 4}" if big else "{0, 2, 4}"), lambda: E(3, "bits", 2, 2, 3, "{0, 63, 64}"),
            lambda: E(4, "bits", 3, 1, 3, "{0, 1, 64, 129}" if big else "{1, 64}"), lambda: E(5, "claim", 2, 2, 4, "{0, 1, 63, 64, 129}" if big else "{0, 63, 64, 129}"),
            lambda: E(6, "claim", 3, 2 if big else 1, 4 if big else 3, "{0, 64, 129}"), lambda: E(7, "word", 3, 1, 3, "{0}"),
            lambda: E(8, "cell", 3, 3, 6, "{0, 1, 2, 3, 4}", 60 if big else 4), lambda: E(9, "bits", 3, 3, 7, "{0, 63, 64, 127, 128}", 60 if big else 4),
            lambda: M("word", 3, 1, 3, "{0}"), lambda: M("cell", 2, 2, 4, "{0, 1, 2}"), lambda: M("cell", 3, 1, 3, "{0, 1, 2}"), lambda: M("bits", 2, 2, 3, "{0, 1}"),
            lambda: M("claim", 3, 2 if big else 1, 4, "{0, 1, 64}"), lambda: M("claim", 2, 2, 4, "{0, 1, 64}"))
    files = [f for fs in r[3:13] for f in fs]
    s17, s20 = par(c, lambda: link("17", r[0], r[1]), lambda: link("20", r[0], r[2]))
    lim = ["3", "200000"] if big else ["2", "20000"]
    par(c, *[lambda b=b, l=l: c.replay(b, files, args=lim, label=l, expect_ops=["cell", "word", "bits", "claim"], timeout=3000) for b, l in ((s17, "c++17"), (s20, "c++20"))])
    c.assumptions += ["memory accesses are sequentially consistent (weaker orderings of the hardware are not explored)",
                      "the bit set whose bits are claimed does not change while they are claimed",
                      "at most %s spurious failures of weak compare-and-swap per schedule; at most %s schedules per program" % tuple(lim)]


main("P18", body)
