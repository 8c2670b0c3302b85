"""C++ structs for the shapes emitted by ReflectShapes.tla (harness/reflect.cc)."""
import json

OPAQUE = {"uptr", "map", "raw", "mo"}
PRINTED = {"i32", "u64", "f64", "enum", "str", "sstr"}


def read(files):
    out = []
    for f in files:
        for l in open(f):
            v = json.loads(l)
            v = json.loads(v) if isinstance(v, str) else v
            if v not in out:
                out.append(v)
    return sorted(out)


def cxx(shapes):
    """(definitions, shapes with names)"""
    text, named = [], []
    for n, (style, kinds) in enumerate(shapes):
        name = "S%d" % n
        named.append({"name": name, "style": style, "kinds": kinds})
        comparable = style != "plain" and not any(x in OPAQUE for x in kinds)
        printable = style != "plain" and all(x in PRINTED for x in kinds)
        mem = ["m%d" % (i + 1) for i in range(len(kinds))]
        decl = ["k::%s %s{};" % (x if x != "enum" else "enum_", m) for x, m in zip(kinds, mem)]
        ops = ""
        listed = style in ("members", "derived")
        lister = "auto cista_members() noexcept { return std::tie(%s); } " % ", ".join(mem) if listed else ""
        if comparable:
            ops = "CISTA_FRIEND_COMPARABLE(%s) " % name if style in ("friend", "derived") else "CISTA_COMPARABLE() "
        if printable:
            ops += "CISTA_PRINTABLE(%s, %s) " % (name, ", ".join('"%s"' % m for m in mem)) if mem else "CISTA_PRINTABLE(%s) " % name
        if style == "members":
            body = "template <typename> friend struct Access; %s() {} %s%sprivate: %s" % (name, lister, ops, " ".join(decl))
            base = ""
        elif style == "derived":
            h = (len(kinds) + 1) // 2
            text.append("struct B%d { B%d() {} %s };" % (n, n, " ".join(decl[:h])))
            base = " : B%d" % n
            body = "%s() {} %s%s%s" % (name, lister, ops, " ".join(decl[h:]))
        else:
            base, body = "", ops + " ".join(decl)
        text.append("struct %s%s { %s };" % (name, base, body))
    text.append("template <typename S> struct Access;")
    for n, s in enumerate(named):
        kinds, style, name = s["kinds"], s["style"], s["name"]
        mem = ["m%d" % (i + 1) for i in range(len(kinds))]
        comparable = style != "plain" and not any(x in OPAQUE for x in kinds)
        printable = style != "plain" and all(x in PRINTED for x in kinds)
        idx = style != "derived"
        text.append("template <> struct Access<%s> { static constexpr bool comparable = %s, printable = %s, indexable = %s, aggregate = %s;" %
                    (name, str(comparable).lower(), str(printable).lower(), str(idx).lower(), str(style not in ("members", "derived")).lower()))
        text.append("  static void slots(%s& s, Slots& o) { (void)s; (void)o; %s }" % (name, " ".join("o.push_back(slot(s.%s));" % m for m in mem)))
        text.append("  static std::vector<std::string> indices() { return {%s}; } };" % (", ".join("js(static_cast<long>(cista::member_index(&%s::%s)))" % (name, m) for m in mem) if idx else ""))
    text.append("template <typename F> void each_shape(F f) { %s }" % " ".join('f(static_cast<%s*>(nullptr), "%s");' % (s["name"], s["name"]) for s in named))
    return "\n".join(text) + "\n", named
