"""Three tables, each decided for all paths. (1) flush_ws and prepare_ws, for each marker, default and shape of the pending
white space: what is output and what is remembered. (2) visit_lit, for each shape of a literal (leading white space, text,
trailing white space, with and without line breaks) and each mode left by the tag in front: what is output and what is
left pending; together with (1) this decides the precedence of two markers that control the same white space. (3) For every
kind of node, every path is split at the places where literal text is produced (bodies, raw text); between two of them the
first flush must use the leading marker and the last prepare the trailing marker of exactly the tag that is there, on the
generator that holds the text. At the end of a whole template the remaining white space is output in the mode of the last
tag."""
from genlib import *

P0 = ("param", "p0")
NEXT, SKIP = ("fld", P0, "next_ws"), ("fld", P0, "skip_ws")
CONF = ("fld", ("fld", ("fld", P0, "input"), "config"), "whitespace")
W = ("param", "p1")
MODES = ("Preserve", "Suppress", "Minimize")
CASES = {"0": "", "ws": " \t ", "nl": " \n "}


def run(C):
    R = C.R
    R.floor = 60
    R.section("flush", flush, C)
    R.section("prepare", prepare, C)
    R.section("literal", literal, C)
    sc = scenarios(C)
    where = C._top[0].where()
    for kind, lst in sorted(sc.items()):
        R.section("tag:" + kind, tag, C, kind, lst, where)
    for k in EXPECT:
        if k not in sc:
            raise Undecided("no node of kind %s" % k)
    R.section("end", at_end, C)


FNS = ("should_trim_ws", "flush_ws", "prepare_ws", "visit_lit")


def paths(C, fn):
    b = C.body("askama_derive", GEN + fn)
    E = engine(C, drop=tuple(GEN + x for x in FNS), max_depth=6)
    out = []
    for st, rv in run_gen(C, E, b, bufs=()):
        q = []
        for e in st.ev:
            if e[0] == "op" and e[1] == "queue":
                q.append(e[3])
            elif e[0] == "op":
                raise Undecided("%s in %s" % (e[1], fn))
            elif e[0] == "loop":
                raise Undecided("loop in " + fn)
        g = lambda f: E.norm(st, E.read(st, ("H", P0), (("f", f),)))
        out.append((st.conds, q, g("next_ws"), g("skip_ws")))
    return b, out


def value(t, env, strs):
    """Concrete text of a term."""
    while is_agg(t, "Borrowed") or is_agg(t, "Owned"):
        t = fields(t)["0"]
    if t in strs:
        return strs[t]
    if t[0] == "str":
        return t[1]
    if t[0] == "int" or t[0] == "chr" or t[0] == "char":
        return t[1] if isinstance(t[1], str) else chr(t[1])
    raise Undecided("text %s" % pp(t)[:80])


def holds(c, env, strs):
    """Truth of a condition in an environment of variants and strings."""
    if c[0] == "is":
        if is_agg(c[1]):
            return c[1][2] == c[2]
        if c[1] not in env:
            raise Undecided("condition on %s" % pp(c[1])[:80])
        return env[c[1]] == c[2]
    if c[0] == "not":
        return not any(holds(("is", c[1], v), env, strs) for v in c[2])
    if c[0] == "any":
        return any(all(holds(x, env, strs) for x in (alt if isinstance(alt[0], tuple) else (alt,))) for alt in c[1])
    if c[0] == "t":
        return truth(c[1], env, strs) == c[2]
    raise Undecided("condition %s" % (pp(c)[:80],))


def truth(t, env, strs):
    if t[0] == "not":
        return not truth(t[1], env, strs)
    if t[0] == "bool":
        return t[1]
    if t[0] in ("isv",):
        return holds(("is", t[1], t[2]), env, strs)
    if t[0] == "eq":
        a, b = t[1], t[2]
        for x, y in ((a, b), (b, a)):
            if x in env and is_agg(y):
                return env[x] == y[2]
        return value(a, env, strs) == value(b, env, strs)
    if t[0] == "empty":
        return value(t[1], env, strs) == ""
    if t[0] == "contains":
        return value(t[2], env, strs) in value(t[1], env, strs)
    if t[0] == "call" and t[1].split("::")[-1] in ("contains", "starts_with", "ends_with") and len(t[2]) == 2:
        a, b = (value(x, env, strs) for x in t[2])
        return {"contains": b in a, "starts_with": a.startswith(b), "ends_with": a.endswith(b)}[t[1].split("::")[-1]]
    raise Undecided("condition %s" % pp(t)[:80])


def pick(ps, env, strs):
    ok = [p for p in ps if all(holds(c, env, strs) for c in p[0])]
    if len(ok) != 1:
        if len({(tuple(map(repr, p[1])), repr(p[2]), repr(p[3])) for p in ok}) != 1:
            raise Undecided("%d paths for %s" % (len(ok), sorted(map(str, env.values()))))
    return ok[0]


def minimised(s):
    return "" if not s else ("\n" if "\n" in s else " ")


def texts(q, env, strs):
    out = ""
    for x in q:
        if not is_agg(x, "Lit"):
            raise Undecided("queued %s" % pp(x)[:60])
        out += value(fields(x)["0"], env, strs)
    return out


def pending(v, env, strs):
    if is_agg(v, "None"):
        return ""
    if is_agg(v, "Some"):
        return value(fields(v)["0"], env, strs)
    if v == NEXT:
        return strs[some(NEXT)] if env[NEXT] == "Some" else ""
    raise Undecided("pending white space %s" % pp(v)[:60])


def mode(v, env):
    if is_agg(v):
        return v[2]
    if v in env:
        return env[v]
    raise Undecided("mode %s" % pp(v)[:60])


def some(t):
    return ("fld", ("as", t, "Some"), "0")


def marks(i):
    """Environments for marker i of the parameter and the default: (env, resulting mode, name)."""
    f, g = ("fld", W, str(i)), ("fld", W, str(1 - i))
    for o in ("None",) + MODES:
        e = {g: "None"} if o == "None" else {g: "Some", some(g): o}
        for d in MODES:
            yield dict(list(e.items()) + [(f, "None"), (CONF, d)]), d, "no marker, default " + d
            for m in MODES:
                yield dict(list(e.items()) + [(f, "Some"), (some(f), m), (CONF, d)]), m, "%s marker, default %s" % (m, d)


def flush(C):
    R = C.R
    b, ps = paths(C, "flush_ws")
    for env, m, name in marks(0):
        for k in MODES[:1]:
            e = dict(env)
            e[NEXT], e[SKIP] = "None", k
            p = pick(ps, e, {})
            R.check(not p[1] and pending(p[2], {NEXT: "None"}, {}) == "", "flush:none", "no pending white space, no output", b.where())
        for cn, s in CASES.items():
            e = dict(env)
            e[NEXT], e[SKIP] = "Some", "Preserve"
            strs = {some(NEXT): s}
            p = pick(ps, e, strs)
            want = {"Preserve": s, "Suppress": "", "Minimize": minimised(s)}[m]
            got = texts(p[1], e, strs)
            R.check(got == want, "flush:%s:%s" % (name.replace(" ", "-"), cn),
                    "white space %r before a tag with %s: %r, is %r" % (s, name, want, got), b.where())
            R.check(is_agg(p[2], "None"), "flush:reset", "white space is written once", b.where())
            R.check(p[3] == SKIP, "flush:mode", "the mode of the next literal stays", b.where())


def prepare(C):
    R = C.R
    b, ps = paths(C, "prepare_ws")
    for env, m, name in marks(1):
        e = dict(env)
        e[NEXT], e[SKIP] = "None", "Preserve"
        p = pick(ps, e, {})
        got = mode(p[3], e)
        R.check(got == m and not p[1], "prepare:" + name.replace(" ", "-"), "white space after a tag with %s: %s, is %s" % (name, m, got), b.where())
        R.check(p[2] == NEXT, "prepare:pending", "pending white space is kept", b.where())


def literal(C):
    R = C.R
    b, ps = paths(C, "visit_lit")
    L, V, T = (("fld", W, f) for f in ("lws", "val", "rws"))
    for m in MODES:
        for lc, l in CASES.items():
            for v in ("", "x"):
                for tc, t in CASES.items():
                    if not v and t:
                        continue
                    env = {NEXT: "None", SKIP: m}
                    strs = {L: l, V: v, T: t}
                    p = pick(ps, env, strs)
                    lead = {"Preserve": l, "Suppress": "", "Minimize": minimised(l)}[m]
                    out, pend = (lead + v, t) if v else ("", lead)
                    got, gp = texts(p[1], env, strs), pending(p[2], env, strs)
                    key = "literal:%s:%s:%s:%s" % (m, lc, "text" if v else "blank", tc)
                    R.check((got, gp) == (out, pend), key,
                            "literal %r after a tag in mode %s: output %r, pending %r; is %r, %r" % (l + v + t, m, out, pend, got, gp), b.where())
                    want = "Preserve" if v else m
                    gm = mode(p[3], env)
                    if v or pend:
                        R.check(gm == want, "literal:mode:%s:%s" % (m, "text" if v else "blank"),
                                "mode after the literal: %s, is %s" % (want, gm), b.where())


# ------------------------------------------------------------------ attribution
def proj(ws, i):
    if is_agg(ws):
        f = fields(ws)
        if str(i) in f:
            return f[str(i)]
    return ("fld", ws, str(i))


def gaps(ops):
    """[(first flush marker, last prepare marker)] between contents, contents [(what, generator)]."""
    out, cont = [], []
    seg, prev = [], "p0"

    def close(seg, prev, nxt):
        f = [proj(o[3], 0) for o in seg if o[1] == "flush" and o[2] == prev]
        p = [proj(o[3], 1) for o in seg if o[1] == "prepare" and o[2] == nxt]
        out.append((f[0] if f else None, p[-1] if p else None))
    for o in ops:
        if o[0] == "ws":
            seg.append(o)
        elif o[0] in ("handle", "lit"):
            close(seg, prev, o[1])
            cont.append(o)
            seg, prev = [], o[1]
    close(seg, prev, "p0")
    return out, cont


def m(n, f, i):
    """Marker i of field f of the node."""
    t = ("fld", ("node", n), "0")
    for x in f:
        t = ("fld", t, x) if isinstance(x, str) else ("elem", t, x)
    return ("fld", t, str(i))


def same(n, *f):
    return (m(n, f, 0), m(n, f, 1))


def simple(*f):
    return lambda n, conds, cont: [same(n, *f)]


def e_if(n, conds, cont):
    return [same(n, "branches", i, "ws") for i in range(len(cont))] + [same(n, "ws")]


def e_match(n, conds, cont):
    g = [same(n, "arms", i, "ws") for i in range(len(cont))] + [same(n, "ws2")]
    g[0] = (m(n, ("ws1",), 0), g[0][1])
    return g


def e_loop(n, conds, cont):
    if len(cont) == 2:
        return [same(n, "ws1"), same(n, "ws2"), same(n, "ws3")]
    return [same(n, "ws1"), (m(n, ("ws2",), 0), m(n, ("ws3",), 1))]


def definition(o):
    t = o[4]
    while t[0] in ("mut", "upd"):
        t = t[1]
    if t[0] != "fld" or t[2] != "nodes":
        raise Undecided("body %s" % pp(t)[:80])
    return t[1]


def e_def(first, last):
    def f(n, conds, cont):
        d = definition(cont[0])
        return [(m(n, (first,), 0), ("fld", ("fld", d, "ws1"), "1")), (("fld", ("fld", d, "ws2"), "0"), m(n, (last,), 1))]
    return f


def e_filter(n, conds, cont):
    return [same(n, "ws1"), same(n, "ws2")]


def e_include(n, conds, cont):
    return [(m(n, ("ws",), 0), None), (None, m(n, ("ws",), 1))]


def e_raw(n, conds, cont):
    return [same(n, "ws1"), same(n, "ws2")]


EXPECT = {"Comment": simple("ws"), "Expr": simple(), "Let": simple("ws"), "Import": simple("ws"), "Break": simple(),
          "Continue": simple(), "Macro": lambda n, c, k: [(m(n, ("ws1",), 0), m(n, ("ws2",), 1))], "If": e_if, "Match": e_match,
          "Loop": e_loop, "Call": e_def("ws", "ws"), "BlockDef": e_def("ws1", "ws2"), "FilterBlock": e_filter,
          "Include": e_include, "Raw": e_raw, "Lit": lambda n, c, k: [(None, None), (None, None)]}
BODIES = {"If": None, "Match": None, "Loop": None, "Call": 1, "BlockDef": 1, "FilterBlock": 1, "Include": 1, "Raw": 1, "Lit": 1}


def unupd(t):
    """Updates of tables aside, definitions are what they were."""
    if not isinstance(t, tuple):
        return t
    while len(t) and t[0] in ("mut", "upd"):
        t = t[1]
    return tuple(unupd(x) if isinstance(x, tuple) else x for x in t)


def tag(C, kind, lst, where):
    R = C.R
    if kind == "Extends":
        R.check(all(not [o for o in ops if o[0] in ("ws", "lit", "handle")] for c, ops in lst), "tag:Extends", "extends produces nothing", where)
        return
    if kind not in EXPECT:
        raise Undecided("unknown kind of node " + kind)
    seen = set()
    for conds, ops in lst:
        got, cont = gaps(ops)
        want_n = BODIES.get(kind, 0)
        if want_n is not None and len(cont) != want_n:
            R.bad("tag:%s:bodies" % kind, "%d bodies" % len(cont), where)
            continue
        if not cont and kind in BODIES:
            continue
        want = EXPECT[kind](kind, conds, cont)
        sig = (repr(got), repr(want))
        if sig in seen:
            continue
        seen.add(sig)
        if len(want) != len(got):
            R.bad("tag:%s:bodies" % kind, "%d bodies" % len(cont), where)
            continue
        for i, (g, w) in enumerate(zip(got, want)):
            for side, (x, y) in zip(("before", "after"), zip(g, w)):
                ok = x is None if y is None else x is not None and unupd(x) == unupd(y)
                if kind == "Lit" or y is None and x is not None and is_none(x):
                    ok = ok or x is not None and kind != "Lit"
                R.check(ok, "tag:%s:%d:%s" % (kind, i, side),
                        "white space %s tag %d of %s follows %s; is %s" % (side, i, kind, short(y), short(x)), where)
        for o in cont:
            if o[0] == "handle" and o[1] != "p0":
                f = fields(o[2]) if is_agg(o[2]) else {}
                R.check(is_agg(f.get("next_ws", ("?",)), "None"), "tag:%s:own" % kind,
                        "the generator of the other template starts without pending white space", where)
                i = cont.index(o)
                if got[i][1] is None:
                    s = f.get("skip_ws", ("?",))
                    R.check(is_agg(s, "Preserve"), "tag:%s:start" % kind, "an included template starts with its own white space preserved", where)


def is_none(t):
    return is_agg(t, "None")


def short(t):
    return "nothing" if t is None else tname(unupd(t))[-40:]


def at_end(C):
    R = C.R
    b, E, res, _ = node_paths(C)
    _, top, src = C._top
    n = 0
    for st, rv in res:
        if not is_agg(rv, "Ok"):
            continue
        lv = [e for e in st.ev if e[0] == "loop" and e[1] == top[1]]
        post = st.ev[st.ev.index(lv[0]) + 1:] if lv else st.ev
        fl = [e for e in post if e[0] == "op" and e[1] == "ws" and e[2] == "flush" and e[3] == "p0"]
        lvl = level(st.conds)
        if lvl is False:
            R.check(not fl, "end:nested", "white space at the end of a body belongs to the tag that ends it", b.where())
            continue
        none = any(c[0] == "is" and c[2] == "None" and is_field(c[1], "next_ws") for c in st.conds)
        if none:
            continue
        n += 1
        x = proj(fl[0][4], 0) if fl else None
        ok = bool(fl) and is_agg(x, "Some") and is_field(fields(x)["0"], "skip_ws")
        R.check(ok, "end:top", "white space at the end of a template is output in the mode the last tag asked for", b.where())
    if not n:
        raise Undecided("end of a whole template")


def is_field(t, f):
    return t[0] == "lv" and (("f", f) in t[2] or mentions(t[2], f)) or t[0] == "fld" and t[2] == f


def level(conds):
    import g01
    return g01.level_top(conds)
