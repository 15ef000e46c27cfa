"""Random struct schemas for init_from, as data (judged by the specification) and as C++ (compiled against the code)."""
CT = {0: "int", 1: "std::string", 2: "double"}


def ct(k):
    return CT.get(k, "V<%d>" % k)


def stype(m):
    return {"v": "%s", "p": "%s*", "u": "std::unique_ptr<%s>", "s": "std::shared_ptr<%s>"}[m["c"]] % ct(m["k"])


def ttype(f):
    return {"v": "%s", "r": "%s&", "p": "%s*", "s": "std::shared_ptr<%s>"}[f["c"]] % ct(f["k"])


def first(src, f):
    for m in src:
        if m["k"] == f["k"] and (f["c"] in "vr" or m["c"] in "pus"):
            return m
    return None


def ok(src, f):
    m = first(src, f)
    return m is not None and (f["c"] != "s" or m["c"] == "s")


def schema(R, n=None, identity=None):
    """n: number of members of the source."""
    if n is None:
        n = R.randrange(1, 7)
        ks = list(range(R.choice([1, 2, 4, 6])))
        src = [{"c": R.choice("vvpus"), "k": R.choice(ks)} for _ in range(n)]
        tgt = []
        for _ in range(R.randrange(1, 7)):
            f = {"c": R.choice("vvrrps"), "k": R.choice(ks)}
            if ok(src, f):
                tgt.append(f)
        if not tgt:
            return schema(R)
    else:  # wide: every member has a type of its own
        ks = list(range(n))
        R.shuffle(ks)
        src = [{"c": R.choice("vvvpus"), "k": k} for k in ks]
        tgt = [{"c": R.choice("vr" if m["c"] == "v" else "vrp"), "k": m["k"]} for m in src]
        R.shuffle(tgt)
    return {"src": src, "tgt": tgt, "members": R.random() < 0.25, "rv": R.random() < 0.2}


def cpp(schemas):
    o = []
    for i, s in enumerate(schemas):
        ns, nt = len(s["src"]), len(s["tgt"])
        mem = " auto cista_members() { return std::tie(%s); }" % ", ".join("m%d_" % k for k in range(ns)) if s["members"] else ""
        o.append("struct S%d { %s%s };" % (i, " ".join("%s m%d_;" % (stype(m), k) for k, m in enumerate(s["src"])), mem))
        o.append("struct T%d { %s };" % (i, " ".join("%s f%d_;" % (ttype(f), k) for k, f in enumerate(s["tgt"]))))
        o.append("static J run%d(J const& c) {\n  holder h; S%d s{%s};" % (i, i, ", ".join("h.make<%s>(c[\"in\"][%d].n())" % (stype(m), k) for k, m in enumerate(s["src"]))))
        o.append("  J out = J::obj(), fs = J::arr(), before = J::arr(), after = J::arr();")
        for k in range(ns):
            o.append("  before.push(state(s.m%d_)); note(%d, s.m%d_);" % (k, k + 1, k))
        call = "utl::init_from<T%d>(%s)" % (i, "std::move(s)" if s["rv"] else "s")
        o.append("  auto t = %s;\n  out.set(\"has\", t.has_value());\n  if (t.has_value()) {" % call)
        for k, f in enumerate(s["tgt"]):
            o.append("    fs.push(look<%s>(t->f%d_));" % ("true" if f["c"] == "r" else "false", k))
        o.append("  }")
        for k in range(ns):
            o.append("  after.push(state(s.m%d_));" % k)
        o.append("  return out.set(\"fields\", fs).set(\"same\", text(before) == text(after));\n}")
    o.append("static J dispatch(int k, J const& c) { switch (k) {")
    for i in range(len(schemas)):
        o.append("  case %d: return run%d(c);" % (i, i))
    o.append("  } _exit(88); }")
    return "\n".join(o) + "\n"
