"""C++ programs for the type programs emitted by TypeHash.tla (harness/typehash.cc)."""
import json

CXX = {"u8": "std::uint8_t", "u16": "std::uint16_t", "u32": "std::uint32_t", "u64": "std::uint64_t", "f32": "float", "f64": "double",
       "e8": "base::E8", "e32": "base::E32", "str": "D::string", "cstr": "D::cstring", "str16": "D::u16string", "bitvec": "D::bitvec", "void": "void*"}
UNIT = {1: "std::ratio<1>", 2: "std::milli", 3: "std::micro"}


def read(files):
    """unique programs: (declarations, names, canon, unfold, tokens)"""
    seen, out = set(), []
    for f in files:
        for l in open(f):
            v = json.loads(l)
            v = json.loads(v) if isinstance(v, str) else v
            for d, nm, canon, unfold, tokens in v:
                key = json.dumps([d, nm])
                if key not in seen:
                    seen.add(key)
                    out.append((d, nm, canon, unfold, tokens))
    return out


def refs(t):
    return ([t["n"]] if t["k"] == "ref" else []) + [r for a in t["a"] for r in refs(a)]


def kinds(t):
    return {t["k"]} | {k for a in t["a"] for k in kinds(a)}


def name(nm, j):
    return [lambda: "N%d" % j, lambda: ["X", "Xstruct", "structX", "constX", "XconstX"][j], lambda: "M%d" % j, lambda: "N%d" % (9 - j)][nm]()


def cxx(t, nm):
    k, a = t["k"], t["a"]
    s = [cxx(x, nm) for x in a]
    if k in CXX:
        return CXX[k]
    if k == "ref":
        return name(nm, t["n"])
    return {"ptr": lambda: "D::ptr<%s>" % s[0], "uptr": lambda: "D::unique_ptr<%s>" % s[0], "vec": lambda: "D::vector<%s>" % s[0],
            "vec64": lambda: "cista::basic_vector<%s, D::ptr, false, std::uint64_t>" % s[0], "opt": lambda: "cista::optional<%s>" % s[0],
            "arr": lambda: "cista::array<%s, %d>" % (s[0], t["n"]), "tup": lambda: "cista::tuple<%s>" % ", ".join(s), "var": lambda: "cista::variant<%s>" % ", ".join(s),
            "vecvec": lambda: "D::vecvec<std::uint32_t, %s>" % s[0], "idx": lambda: "cista::indexed<%s>" % s[0], "strong": lambda: "cista::strong<%s, base::Tag>" % s[0],
            "matrix": lambda: "D::flat_matrix<%s>" % s[0], "fws": lambda: "D::fws_multimap<cista::strong<std::uint32_t, base::Tag>, %s>" % s[0],
            "mm": lambda: "D::mutable_fws_multimap<std::uint32_t, %s, %d>" % (s[0], 5 + 5 * t["n"]), "nvec": lambda: "D::nvec<std::uint32_t, %s, %d>" % (s[0], t["n"]),
            "tp": lambda: "std::chrono::time_point<std::chrono::system_clock, std::chrono::duration<%s, %s>>" % (s[0], UNIT[t["n"]]),
            "paged": lambda: "cista::paged<D::vector<%s>>" % s[0], "spair": lambda: "std::pair<%s, %s>" % tuple(s),
            "pair": lambda: "cista::pair<%s, %s>" % tuple(s), "map": lambda: "D::hash_map<%s, %s>" % tuple(s), "set": lambda: "D::hash_set<%s>" % s[0],
            "dur": lambda: "std::chrono::duration<%s, %s>" % (s[0], UNIT[t["n"]]), "bits": lambda: "cista::bitset<%d>" % t["n"]}[k]()


def program(ns, p):
    d, nm = p[0], p[1]
    inline = set()
    if nm == 2:                                   # structs used once, as a member: without a name
        used = [r for fs in d for f in fs for r in refs(f)]
        inline = {r for fs in d for f in fs if f["k"] == "ref" for r in [f["n"]] if used.count(r) == 1}

    def members(fs):
        out = []
        for i, f in enumerate(fs):
            m = ("m%d" if nm != 3 else "member_%d") % (i + 1)
            if f["k"] == "ref" and f["n"] in inline:
                out.append("struct { %s } %s{};" % (members(d[f["n"] - 1]), m))
            else:
                out.append("%s %s{};" % (cxx(f, nm), m))
        return " ".join(out)
    js = [j for j in range(1, len(d) + 1) if j not in inline]
    return "namespace %s { %s\n%s\nusing root = %s; }" % (
        ns, " ".join("struct %s;" % name(nm, j) for j in js), "\n".join("struct %s { %s };" % (name(nm, j), members(d[j - 1])) for j in js), name(nm, len(d)))


def storable(p):
    """images of a default constructed root can be written"""
    return not any("var" in kinds(f) for fs in p[0] for f in fs)


def header(programs, image):
    t = [program("p%d" % n, p) for n, p in programs]
    t.append("template <typename F> void each(F f) { %s }" % " ".join('f(static_cast<p%d::root*>(nullptr), %d, std::bool_constant<%s>{});' % (n, n, "true" if n in image else "false") for n, _ in programs))
    return "\n".join(t) + "\n"
