"""Terms (abstract values) used by the dataflow engine."""

TRUE, FALSE = ("bool", True), ("bool", False)
UNIT = ("agg", "tuple", None, ())


def agg(kind, variant, fields):
    return ("agg", kind, variant, tuple(fields))


def some(x):
    return agg("std::option::Option", "Some", [("0", x)])


NONE = agg("std::option::Option", "None", [])


def ok(x):
    return agg("std::result::Result", "Ok", [("0", x)])


def err(x):
    return agg("std::result::Result", "Err", [("0", x)])


def tup(*xs):
    return agg("tuple", None, [(str(i), x) for i, x in enumerate(xs)])


def is_agg(v, variant=None):
    return isinstance(v, tuple) and v and v[0] == "agg" and (variant is None or v[2] == variant)


def fields(v):
    return dict(v[3])


def pp(t, depth=0):
    """Compact human-readable rendering of a term."""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    if depth > 14:
        return "…"
    p = lambda x: pp(x, depth + 1)
    if k == "str":
        return repr(t[1])
    if k in ("int", "bool", "char"):
        return repr(t[1]) if k == "char" else str(t[1:][0] if len(t) > 1 else t)
    if k == "param":
        return t[1]
    if k == "fld":
        return "%s.%s" % (p(t[1]), t[2])
    if k == "as":
        return "%s@%s" % (p(t[1]), t[2])
    if k == "idx":
        return "%s[%s]" % (p(t[1]), p(t[2]))
    if k == "agg":
        nm = (t[2] or t[1]).split("::")[-1]
        return "%s{%s}" % (nm, ", ".join("%s:%s" % (n, p(v)) for n, v in t[3]))
    if k == "clo":
        return "|%s|" % t[1].split("::", 1)[-1]
    if k == "fn":
        return t[1]
    if k == "call":
        return "%s(%s)" % (t[1].split("::")[-1] if not t[1].startswith("<") else t[1], ", ".join(p(a) for a in t[2]))
    if k == "ref":
        return "&%s%s" % (p_root(t[2]), "".join("." + str(e[1] if len(e) > 1 else e[0]) for e in t[3]))
    if k == "fmt":
        return "fmt(%s)" % " ".join(x[1].__repr__() if x[0] == "s" else "{%s%s}" % (p(x[1]), x[2]) for x in t[1])
    if k == "code":
        return "code(%s)" % " ".join(pp(x, depth + 1) for x in t[1])
    if k == "mut":
        return "%s'" % p(t[1])
    if k == "bin":
        return "(%s %s %s)" % (p(t[2]), t[1], p(t[3]))
    if k == "eq":
        return "(%s == %s)" % (p(t[1]), p(t[2]))
    if k == "isv":
        return "%s is %s" % (p(t[1]), t[2])
    return "%s(%s)" % (k, ", ".join(pp(x, depth + 1) if isinstance(x, tuple) else str(x) for x in t[1:]))


def p_root(r):
    if r[0] == "H":
        return pp(r[1])
    return "%s#%s" % (r[0], "_".join(str(x) for x in r[1:]))


def walk(t):
    """All sub-terms."""
    st = [t]
    while st:
        x = st.pop()
        yield x
        if isinstance(x, tuple):
            st.extend(y for y in x if isinstance(y, tuple))


def mentions(t, sub):
    st = [t]
    while st:
        x = st.pop()
        if x == sub:
            return True
        if isinstance(x, tuple):
            st.extend(y for y in x if isinstance(y, tuple))
    return False
