"""The paths of normalize_identifier are selected by evaluating their conditions, against the constant tables in the program,
for every Rust keyword, every neighbour of a keyword (one letter more, one less, other case, padding characters) and other
names: keywords give the raw identifier of that name, all others themselves. Every place in the generated code where the
name of a variable, field, attribute or pattern field from the template is written is found among the emitted tokens of
the expression, pattern and statement visitors and must be the result of normalize_identifier or of the resolution of a
local name, which normalises on both sides; bindings use normalised keys."""
from exprlib import *
import g02

KEYWORDS = """as async await break const continue crate do dyn else enum extern false fn for if impl in let match mod move mut pub ref
return static struct trait true type unsafe use where while abstract become box final macro override priv try typeof unsized
virtual yield""".split()
KEPT = ["self", "Self", "super", "loop"]
EITHER = ["gen"]
P0 = ("param", "p0")


def run(C):
    R = C.R
    R.floor = 300
    R.section("table", table, C)
    R.section("expressions", exprs, C)
    R.section("patterns", patterns, C)
    R.section("statements", statements, C)
    R.section("resolve", g02.resolve, C)
    R.section("resolve_or_self", g02.resolve_or_self, C)
    R.section("shadowing", shadowing, C)


# ------------------------------------------------------------------ the table
def copy(E, fr, st, a, line):
    t = a[0]
    if t[0] == "ref":
        t = t[2]
        t = t[1] if t[0] == "H" else t
    st.ev += (("op", "copy", t, E.norm(st, a[1])),)
    return [(st, UNIT)]


class Ev:
    def __init__(self, name, copies):
        self.name, self.copies = name, copies
        self.by = name.encode()
        self.env = {}

    def val(self, t):
        if t in self.env:
            return self.env[t]
        k = t[0]
        if t == P0:
            return self.by
        if k == "lenof":
            return len(self.val(t[1]))
        if k == "bytes":
            return bytes(t[1])
        if k == "str":
            return t[1].encode()
        if k == "arr" or k == "vec":
            xs = [self.val(x) for x in t[1]]
            return xs
        if k == "idx":
            xs, i = self.val(t[1]), self.val(t[2])
            if not 0 <= i < len(xs):
                raise NoVal("index out of bounds")
            return xs[i]
        if k == "range":
            xs, a, b = self.val(t[1]), self.val(t[2]), self.val(t[3]) if t[3] is not None else None
            if b is None:
                b = len(xs)
            if not a <= b <= len(xs):
                raise NoVal("slice out of bounds")
            return xs[a:b]
        if k == "mut" and t[1][0] == "repeat":
            n = int(t[1][2])
            xs = bytearray([self.val(t[1][1])] * n)
            for tgt, src in self.copies:
                s = self.val(src)
                if tgt[0] == "call" and tgt[1].endswith("index_mut") and tgt[2][0] == t[1]:
                    a, b = self.bounds(tgt[2][1], n)
                    if b - a != len(s):
                        raise NoVal("copy of a different length")
                    xs[a:b] = s
                else:
                    raise NoVal("copy")
            return bytes(xs)
        if k == "fld" and t[1][0] == "as" and t[1][2] in ("Ok", "Some") and t[1][1][0] == "call":
            return self.val(t[1][1])
        if k == "call" and t[1].split("::")[-1] in ("try_from", "as_bytes", "from_utf8_unchecked", "from_utf8", "into", "from", "as_str", "as_slice"):
            return self.val(t[2][0])
        if k == "eq":
            a, b = self.val(t[1]), self.val(t[2])
            return a == b
        if k == "bin":
            a, b = self.val(t[2]), self.val(t[3])
            return ev(("bin", t[1], ("int", a), ("int", b)), {})
        if k == "not":
            return not self.val(t[1])
        if k == "int" or k == "bool":
            return t[1]
        if k == "code":
            return b"".join(x[1].encode() if x[0] == "s" else self.val(x[1]) for x in t[1])
        if k == "call" and t[1].split("::")[-1] in ("contains", "starts_with", "ends_with", "eq"):
            a, b = self.val(t[2][0]), self.val(t[2][1])
            f = t[1].split("::")[-1]
            return b in a if f == "contains" else a.startswith(b) if f == "starts_with" else a.endswith(b) if f == "ends_with" else a == b
        raise NoVal(pp(t)[:100])

    def bounds(self, r, n):
        if not is_agg(r):
            raise NoVal("range")
        f = fields(r)
        return self.val(f["start"]) if "start" in f else 0, self.val(f["end"]) if "end" in f else n

    def cond(self, c):
        if c[0] == "t":
            return bool(self.val(c[1])) == c[2]
        if c[0] == "is" and c[2] in ("Ok", "Some") and c[1][0] == "call" and c[1][1].split("::")[-1] in ("try_from", "from_utf8"):
            return True
        if c[0] == "is" and c[2] in ("Err", "None") and c[1][0] == "call" and c[1][1].split("::")[-1] in ("try_from", "from_utf8"):
            return False
        if c[0] == "any":
            return any(all(self.cond(x) for x in alt) for alt in c[1])
        raise NoVal("condition %s" % pp(c)[:80])


def translate(paths, name):
    """Results of the paths that can be taken with this name."""
    found, other = [], []
    for conds, rv, copies in paths:
        it = [c for c in conds if c[0] == "iter"]
        x = Ev(name, copies)
        if not it:
            if all(x.cond(c) for c in conds):
                other.append(x.val(rv))
            continue
        if len(it) != 1 or len(it[0]) > 3:
            raise Undecided("search in the table")
        src, how = it[0][1], it[0][2]
        el = ("elem", src)
        pre = [c for c in conds if c[0] != "iter" and not mentions(c, el)]
        post = [c for c in conds if c[0] != "iter" and mentions(c, el)]
        if not all(x.cond(c) for c in pre):
            continue
        if how in ("found", "next"):
            for e in x.val(src):
                x.env[el] = e
                if all(x.cond(c) for c in post):
                    found.append(x.val(rv))
                    break
        elif how in ("none-found", "end"):
            x.val(src)
            other.append(x.val(rv))
        else:
            raise Undecided("search in the table: %s" % how)
    return found or other


def table(C):
    R = C.R
    b = C.body("askama_derive", GEN.replace("Generator::", "") + "normalize_identifier")
    E = C.engine("askama_derive", vocab={"std::slice::copy_from_slice": copy, "std::slice::clone_from_slice": copy}, max_depth=3)
    paths = []
    for st, rv in C.run(E, b):
        paths.append((st.conds, rv, [e[2:] for e in st.ev if e[0] == "op" and e[1] == "copy"]))
    others = set(KEPT) | {"a", "", "_", "__", "___", "x1", "union", "auto", "default", "safe", "raw", "macro_rules", "é", "tÿpe", "typé", "as_ref", "abstraction", "continued", "überride", "loops", "selfie"}
    for k in KEYWORDS:
        others |= {k + "_", k + "__", k + "s", k[:-1], "_" + k, k[1:], k.upper(), k.capitalize(), k + "#", k[0] + k}
    others -= set(KEYWORDS)
    others -= set(EITHER)
    for n in sorted(set(KEYWORDS) | others | set(EITHER)):
        try:
            rs = set(translate(paths, n))
        except NoVal as e:
            if "out of bounds" in str(e) or "length" in str(e):
                R.bad("name:" + n, "%r makes the translation panic: %s" % (n, e), b.where())
                continue
            raise Undecided("evaluation for a name: %s" % e)
        want = {b"r#" + n.encode()} if n in KEYWORDS else {n.encode()}
        if n in EITHER and rs == {b"r#" + n.encode()}:
            continue
        R.check(rs == want, "name:" + n, "%s becomes %s" % (n, sorted(x.decode("utf-8", "replace") for x in rs)), b.where())


# ------------------------------------------------------------------ uses
NAMED = {"Var": ("0",), "Attr": ("1",), "Name": ("0",)}


def raw_names(toks):
    """Holes that are names of variables, fields, attributes or pattern fields straight from the template."""
    for t in toks:
        if t[0] == "h" and t[1][0] == "code":
            yield from raw_names(t[1][1])
            continue
        if t[0] != "h":
            continue
        x = t[1]
        d = x
        while is_agg(d) and d[2] in ("Borrowed", "Owned") or d[0] == "call" and d[1].split("::")[-1] in ("to_string", "to_owned", "into", "clone", "as_ref"):
            d = fields(d)["0"] if is_agg(d) else d[2][0]
        k = name_kind(d)
        if k:
            yield k, d


def name_kind(d):
    """Which name of the syntax tree is this?"""
    if d[0] != "fld":
        return "macro parameter" if d[0] == "elem" and d[1][0] == "fld" and d[1][2] == "args" and "macros" in pp(d[1]) else None
    f, b = d[2], d[1]
    kind = b[2] if b[0] == "as" else (b[1] if b[0] == "node" else None)
    if kind in NAMED and f in NAMED[kind]:
        return {"Var": "variable", "Attr": "attribute", "Name": "pattern variable"}[kind]
    if b[0] == "elem" and f == "0" and "node(Struct).1" in pp(b[1]):
        return "pattern field"
    if b[0] == "elem" and f == "0" and b[1][0] == "fld" and b[1][1][0] == "as" and b[1][1][2] == "Struct":
        return "pattern field"
    return None


def exempt(conds, d):
    """The name is known to be one that is not translated (self)."""
    for c in conds:
        if c[0] == "t" and c[2] is True and c[1][0] == "eq" and d in c[1][1:]:
            o = [x for x in c[1][1:] if x != d][0]
            if o[0] == "str" and o[1] in KEPT + ["_"]:
                return True
    return False


def emitted(ops):
    for o in ops:
        if o[0] == "emit":
            yield o[2]


def exprs(C):
    R = C.R
    b, d = expr_paths(C)
    n = 0
    for kind, ps in sorted(d.items()):
        for p in ps:
            for toks in emitted(p.ops):
                for k, x in raw_names(toks):
                    n += 1
                    R.check(exempt(p.conds, x), "expr:%s:%s" % (kind, k), "the %s %s is written as it is" % (k, tname(x)), b.where())
    # positive evidence: these names do occur, translated
    for kind, want in (("Var", ("call", "resolve_or_self")), ("Attr", ("call", "normalize_identifier"))):
        ps = [p for p in d.get(kind, []) if p.ok and "_loop_item" not in p.text]
        hit = [p for p in ps if any(t[0] == "h" and any(x[:2] == want for x in walk(t) if isinstance(x, tuple)) for toks in emitted(p.ops) for t in toks)]
        R.check(bool(hit), "expr:%s:used" % kind, "the name is written", b.where())
        R.ok("expr:%s:paths" % kind, "%d paths" % len(ps), b.where())


def patterns(C):
    R = C.R
    b, d = target_paths(C)
    for kind, ps in sorted(d.items()):
        for conds, ops, t in ps:
            for toks in emitted(ops):
                for k, x in raw_names(toks):
                    R.check(exempt(conds, x), "pattern:%s:%s" % (kind, k), "the %s %s is written as it is" % (k, tname(x)), b.where())
            for o in ops:
                if o[0] in ("bind", "bind-default"):
                    key = o[2]
                    if is_agg(key, "Borrowed") or is_agg(key, "Owned"):
                        key = fields(key)["0"]
                    R.check(key[:2] == ("call", "normalize_identifier"), "pattern:%s:key" % kind, "the variable is known under its normalised name: %s" % pp(key)[:60], b.where())
    nm = [t for conds, ops, t in d.get("Name", []) if t != "_"]
    R.check(bool(nm), "pattern:names", "variables are written", b.where())


def statements(C):
    R = C.R
    sc = scenarios(C)
    where = C._top[0].where()
    for kind, lst in sorted(sc.items()):
        n = 0
        for conds, ops in lst:
            for toks in emitted(ops):
                for k, x in raw_names(toks):
                    if exempt(conds, x):
                        continue
                    R.bad("statement:%s:%s" % (kind, k), "the %s %s is written as it is" % (k, tname(x)[:80]), where)
                n += 1
            for o in ops:
                if o[0] in ("bind", "bind-default"):
                    key = o[2]
                    while is_agg(key, "Borrowed") or is_agg(key, "Owned"):
                        key = fields(key)["0"]
                    k = name_kind(key)
                    if k:
                        R.bad("statement:%s:key" % kind, "the %s %s is bound under its plain name" % (k, tname(key)[:80]), where)
            for c in conds:
                for x in walk(c):
                    if isinstance(x, tuple) and len(x) > 2 and x[:2] == ("call", "get") and "locals" in pp(x[2][0]):
                        key = x[2][1]
                        while is_agg(key, "Borrowed") or is_agg(key, "Owned"):
                            key = fields(key)["0"]
                        R.check(key[:2] == ("call", "normalize_identifier") or key[0] == "code" and not list(raw_names(key[1])), "statement:%s:lookup" % kind, "a variable is looked up under its normalised name: %s" % pp(key)[:60], where)
        R.ok("statement:" + kind, "%d pieces of code" % n, where)


def shadowing(C):
    R = C.R
    b = C.body("askama_derive", GEN + "is_shadowing_variable")
    E = engine(C, drop=[GEN + "is_shadowing_variable"], max_depth=4)
    E.vocab[GEN + "is_shadowing_variable"] = VOCAB[GEN + "is_shadowing_variable"]
    n = 0
    for st, rv in run_gen(C, E, b, bufs=()):
        for c in st.conds:
            for x in walk(c):
                if isinstance(x, tuple) and len(x) > 2 and x[:2] == ("call", "get"):
                    key = x[2][1]
                    while is_agg(key, "Borrowed") or is_agg(key, "Owned"):
                        key = fields(key)["0"]
                    n += 1
                    R.check(key[:2] == ("call", "normalize_identifier"), "shadowing:lookup", "looked up under its normalised name: %s" % pp(key)[:60], b.where())
    if not n:
        raise Undecided("no lookup")
