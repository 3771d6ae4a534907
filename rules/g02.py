"""Scope typestate over every path of the code generator per kind of template node: pushes, pops and variable bindings
are replayed on an abstract scope stack. At every visit of an expression or body the set of variables visible there must
be exactly the one the construct introduces for it (loop variable in filter condition and body, pattern in its arm,
parameters in the macro body, nothing else), output is written in the scope it was queued in, scopes are balanced, and
only let and filter blocks introduce variables into the surrounding body. The scope chain itself: lookup takes the
innermost scope first and then the parent, insertion and removal act on the innermost scope, a name in scope resolves to
the variable (or the expression it stands for), any other name to the field of self."""
from genlib import *
import re


def run(C):
    R = C.R
    R.floor = 60
    sc = scenarios(C)
    where = C._top[0].where()
    for kind, lst in sorted(sc.items()):
        R.section("scope:" + kind, scopes, C, kind, lst, where)
    R.section("let", let, C, sc.get("Let", []), where)
    for f in (chain_get, chain_insert, chain_insert_default, chain_push_pop, chain_new, resolve, resolve_or_self, var, meta, target, shadowing):
        R.section(f.__name__, f, C)


# ------------------------------------------------------------------ replay
def replay(ops):
    """Yields (op, visible bindings of the generator concerned); raises ValueError for an unbalanced scope."""
    st = {}
    at = {}

    def stack(l):
        return st.setdefault(l, [[]])

    for o in ops:
        k = o[0]
        if k == "push":
            stack(o[1]).append([])
        elif k == "pop":
            if len(stack(o[1])) < 2:
                raise ValueError("a scope of the surrounding code is closed")
            stack(o[1]).pop()
        elif k in ("bind", "bind-default"):
            stack(o[1])[-1].append(("bind", o[2]))
        elif k == "target":
            l = o[1] + ".locals"
            vis = tuple(x for s in stack(l) for x in s)
            stack(l)[-1].append(("target", o[3][2]))
            yield o, vis, st
            continue
        gen = o[1] if k in ("handle", "target") else (o[2] if k in ("visit", "ws") else (o[1] if k in ("flush", "lit") else None))
        vis = tuple(x for s in stack((gen or "p0") + ".locals") for x in s)
        yield o, vis, st


def names(vis):
    return sorted(short(x) for x in vis)


def short(x):
    return ("T:" + tname(x[1])) if x[0] == "target" else "V:" + nows(tname(x[1]) if x[1][0] != "agg" else pp(x[1]))


def expect(kind, role, F, N):
    """Variables visible where role is generated: list of names, a predicate, or None (not constrained)."""
    if kind == "If":
        m = re.match(r"(N\.0\.branches\[\d+\])\.(.*)", role)
        if m:
            b, r = m.groups()
            t = F.of(b + ".cond.0.target") == "Some"
            tn = ["T:%s.cond.0.target.0" % b] if t else []
            if r == "nodes":
                return tn
            if r == "cond.0.expr@BinOp.2":
                return tn
            if r.startswith("cond.0.expr"):
                return []
    if kind == "Match":
        if role == "N.0.expr":
            return []
        m = re.match(r"(N\.0\.arms\[\d+\])\.nodes", role)
        if m:
            return ["T:%s.target" % m.group(1)]
    if kind == "Loop":
        return {"N.0.iter": [], "N.0.cond.0": ["T:N.0.var"], "N.0.body": ["T:N.0.var"], "N.0.else_nodes": []}.get(role)
    if kind == "Let":
        return {"N.0.val.0": []}.get(role)
    if kind == "FilterBlock":
        return {"N.0.nodes": []}.get(role)
    return None


def scopes(C, kind, lst, where):
    R = C.R
    N = "N.0"
    n = 0
    for conds, ops in lst:
        F = Facts(conds)
        key = "scope:" + kind
        pend = [p for _, p in sim(ops)]
        origin = ("p0", ())
        try:
            end = None
            params = None
            for i, (o, vis, st) in enumerate(replay(ops)):
                k = o[0]
                if k == "handle":
                    role = tname(o[4])
                    w = expect(kind, role, F, N)
                    if kind == "Call" and is_agg(o[5], "Nested"):
                        n += 1
                        call_body(R, o, vis, ops[:i], where)
                    elif kind in ("If", "Match", "Loop", "FilterBlock"):
                        n += 1
                        if w is None:
                            raise Undecided("body %s" % role)
                        R.check(names(vis) == w, key, "visible in %s: %s; expected %s" % (role, names(vis), w), where)
                    elif kind in ("BlockDef",) or (kind == "Call" and is_agg(o[5], "Block")):
                        n += 1
                        g = fields(o[2])["locals"] if is_agg(o[2]) else None
                        R.check(o[1] != "p0" and fresh_scopes(g), key, "a block starts without variables; scopes: %s" % pp(g)[:100], where)
                    elif kind == "Include":
                        n += 1
                        g = fields(o[2])["locals"] if is_agg(o[2]) else None
                        R.check(o[1] != "p0" and g is not None and g[0] == "call" and g[1] == "with_parent" and
                                base_locals(g[2][0]) and not vis, key,
                                "an included template sees the variables of the including one and has its own scope; scopes: %s" % pp(g)[:100], where)
                    if pend[i] == 2 and (o[1], vis) != origin:
                        R.bad(key + ":queue", "output of another scope is still pending where %s is generated" % role, where)
                    if is_agg(o[5], "Top"):
                        origin = None
                    else:
                        origin = (o[1], vis)
                elif k == "queue":
                    if pend[i] == 2 and origin != ("p0", vis):
                        R.bad(key + ":queue", "output of another scope is still pending", where)
                    if is_agg(o[2], "Expr"):
                        origin = ("p0", vis)
                elif k == "visit":
                    role = role_of(o)
                    if role is not None:
                        w = expect(kind, role, F, N)
                        if w is not None:
                            n += 1
                            R.check(names(vis) == w, key, "visible in %s: %s; expected %s" % (role, names(vis), w), where)
                        elif kind == "Call":
                            n += 1
                            R.check(not vis, key, "arguments are evaluated in the scope of the caller; visible: %s" % names(vis)[:3], where)
                elif k == "flush" and pend[i] == 2:
                    n += 1
                    R.check((o[1], vis) == origin, key + ":flush",
                            "pending output is written in its own scope: queued with %s, written with %s" % (
                                (origin[0], names(origin[1])) if origin else None, (o[1], names(vis))), where)
                end = st
            left = {l: s for l, s in (end or {}).items() if len(s) != 1}
            R.check(not left, key + ":balance", "a scope stays open: %s" % sorted(left), where)
            intro = {l: names(s[0]) for l, s in (end or {}).items() if s[0] and l == "p0.locals"}
            w = {}
            if kind == "Let":
                w = ["T:N.0.var"]
                R.check(intro.get("p0.locals") == w, key + ":introduces", "let introduces its variable; introduces %s" % intro, where)
            elif kind == "FilterBlock":
                R.check(all(x.startswith("V:") for x in intro.get("p0.locals", [])) and len(intro.get("p0.locals", [])) <= 1, key + ":introduces",
                        "introduces %s" % intro, where)
            else:
                R.check(not intro, key + ":introduces", "variables are introduced into the surrounding body: %s" % intro, where)
            # what is left pending is resolved in the surrounding scope
            last = sim(list(ops) + [("none",)])[-1][1]
            if last == 2 and origin is not None:
                R.check(origin[0] == "p0" and not origin[1], key + ":leftover", "output queued in an inner scope (%s) is left pending" % origin[0], where)
            n += 1
        except ValueError as e:
            R.bad(key + ":balance", str(e), where)
    if not n:
        raise Undecided("nothing decided")


def fresh_scopes(g):
    return g is not None and (g == ("call", "empty-scopes", ()) or (g[0] == "call" and g[1].endswith("MapChain as std::default::Default>::default")))


def base_locals(t):
    while t[0] in ("mut", "upd"):
        t = t[1]
    return t[0] == "lv" or tname(t) == "p0.locals"


def role_of(o):
    if o[1] in ("expr",):
        return tname(o[3][0])
    if o[1] == "attr":
        return tname(o[3][0])
    return None


def call_body(R, o, vis, before, where):
    """The macro body sees exactly one variable per parameter."""
    m = o[4]
    if not (m[0] == "fld" and m[2] == "nodes"):
        raise Undecided("macro body")
    bad = [short(x) for x in vis if x[0] != "bind"]
    R.check(not bad, "scope:Call:params", "other variables in the macro body: %s" % bad[:3], where)
    ks = [x[1] for x in vis]
    R.check(len(set(ks)) == len(ks), "scope:Call:params", "each parameter is bound once", where)


def let(C, lst, where):
    """`let` is written unless an introduced but uninitialised variable gets its value."""
    R = C.R
    if not lst:
        raise Missing("let nodes")
    for conds, ops in lst:
        F = Facts(conds)
        sk = skeleton(ops)
        tg = [o for o in ops if o[0] == "target"]
        R.check(len(tg) == 1, "let:target", "one pattern", where)
        if F.of("N.0.val") == "None":
            R.check("let⟦" in sk and tg[0][3][0] == FALSE, "let:declare", "a declaration introduces an uninitialised variable", where)
            continue
        R.check(tg[0][3][0] == TRUE, "let:init", "an assignment initialises its variable", where)
        shadow = [v for k, v in F.b.items() if k.startswith("is_shadowing_variable(")]
        known = [c[2] for c in conds if c[0] == "is" and c[1][0] == "call" and c[1][1] == "get"]
        reuse = shadow == [False] and F.of("N.0.var") == "Name" and known == ["Some"]
        R.check(("let⟦" in sk) != reuse, "let:keyword", "%s is generated; shadowing %s, pattern %s, known %s" % (sk[:60], shadow, F.of("N.0.var"), known), where)


# ------------------------------------------------------------------ the scope chain
def plain(C, path, depth=3, vocab=None, rec=None):
    b = C.body("askama_derive", path)
    E = C.engine("askama_derive", max_depth=depth, vocab=vocab or {}, record=rec)
    E.default_value = default_value
    return b, C.run(E, b)


def chain_get(C):
    R = C.R
    b, res = plain(C, G + "MapChain::get", 2)
    sc = ("fld", ("param", "p0"), "scopes")
    par = ("fld", ("param", "p0"), "parent")
    n = 0
    for st, rv in res:
        rv = E_norm(rv)
        its = [c for c in st.conds if c[0] == "iter" and c[1] == sc]
        if mentions(rv, ("elem", sc)):
            n += 1
            v = rv[3][0][1] if is_agg(rv, "Some") else rv
            R.check(is_lookup(v, ("elem", sc)), "get:own", "a variable found in a scope is returned; returns %s" % pp(rv)[:100], b.where())
            R.check(any(len(c) > 3 and c[3] == ("rev",) or len(c) > 3 and c[3] == ("next_back",) for c in its), "get:innermost",
                    "the innermost scope comes first: %s" % [pp(c)[:80] for c in its], b.where())
        else:
            R.check(any(c[2] in ("end", "none-found") and not (len(c) > 3 and set(c[3]) - {"rev", "next_back"}) for c in its), "get:all",
                    "the parent is asked only after all scopes: %s" % [pp(c)[:80] for c in its], b.where())
            p = [c[2] for c in st.conds if c[0] == "is" and c[1] == par]
            if p == ["Some"]:
                n += 1
                R.check(rv[0] == "call" and rv[1].endswith("MapChain::get") and rv[2] == (("fld", ("as", par, "Some"), "0"), ("param", "p1")) or
                        mentions(rv, ("fld", ("as", par, "Some"), "0")), "get:parent", "then the parent; returns %s" % pp(rv)[:100], b.where())
            elif p == ["None"]:
                R.check(is_agg(rv, "None"), "get:none", "nothing found; returns %s" % pp(rv)[:100], b.where())
            else:
                raise Undecided("get returns %s" % pp(rv)[:80])
    if n < 2:
        raise Undecided("paths of get")


def E_norm(v):
    return v


def is_lookup(v, scope):
    while v[0] in ("fld", "as"):
        v = v[1]
    return v[0] == "call" and v[1].split("::")[-1] in ("get", "get_key_value") and v[2][0] == scope and v[2][1] == ("param", "p1")


def innermost(t):
    """Is t the last element of the scopes?"""
    sc = ("fld", ("param", "p0"), "scopes")
    while t[0] in ("fld", "as", "mut"):
        if t == sc:
            return False
        t = t[1]
    if t[0] == "call" and t[1].split("::")[-1] in ("last_mut", "last") and t[2][0] == sc:
        return True
    if t[0] == "idx" and t[1] == sc:
        return t[2] == ("bin", "Sub", ("lenof", sc), ("int", 1))
    return False


def chain_insert(C):
    R = C.R
    b, res = plain(C, G + "MapChain::insert", 2, rec=lambda p: "insert" in p or "entry" in p)
    for st, rv in res:
        ev_ = [e for e in st.ev if e[0] == "call"]
        if len(ev_) != 1 or not ev_[0][1].endswith("::insert"):
            raise Undecided("insert: %s" % [e[1] for e in ev_])
        a = ev_[0][2]
        R.check(innermost(a[0]) and a[1:3] == (("param", "p1"), ("param", "p2")), "insert", "the variable is put into the innermost scope: %s" % pp(a[0])[:80], b.where())


def chain_insert_default(C):
    R = C.R
    b, res = plain(C, G + "MapChain::insert_with_default", 1, rec=lambda p: "insert" in p)
    for st, rv in res:
        calls = [e for e in flat_events(st.ev) if e[0] == "call" and e[1].endswith("::insert")]
        if not calls:
            raise Undecided("insert_with_default")
        a = calls[-1][2]
        R.check(a[1] == ("param", "p1"), "insert_with_default", "the given name is inserted", b.where())


def chain_push_pop(C):
    R = C.R
    sc = ("fld", ("param", "p0"), "scopes")
    for f, names_ in (("push", ("push",)), ("pop", ("pop",))):
        b, res = plain(C, G + "MapChain::" + f, 2, rec=lambda p: "vec::Vec::" in p)
        for st, rv in res:
            e = [x for x in flat_events(st.ev) if x[0] == "call" and x[2] and base(x[2][0]) == sc and x[1].split("::")[-1] in
                 ("push", "pop", "insert", "remove", "clear", "truncate", "swap_remove", "drain", "split_off", "retain")]
            R.check(len(e) == 1 and e[0][1].split("::")[-1] == f, "chain:" + f, "%s changes the innermost scope only: %s" % (f, [x[1] for x in e]), b.where())
            if f == "push" and len(e) == 1:
                v = e[0][2][1]
                R.check(v[0] == "call" and v[1].split("::")[-1] in ("new", "default", "with_capacity"), "chain:push:empty", "an empty scope: %s" % pp(v)[:60], b.where())


def chain_new(C):
    R = C.R
    b, res = plain(C, G + "MapChain::with_parent", 2)
    for st, rv in res:
        p = fields(rv).get("parent")
        R.check(p == some(("param", "p0")), "chain:with_parent", "the parent is the given chain: %s" % pp(p)[:60], b.where())
    n = "<generator::MapChain as std::default::Default>::default"
    if n in C.P.crates["askama_derive"].by:
        b, res = plain(C, n, 2)
        for st, rv in res:
            R.check(is_agg(rv) and is_agg(fields(rv).get("parent"), "None"), "chain:default", "a default chain has no parent", b.where())


def resolve(C):
    R = C.R
    voc = {k: VOCAB[k] for k in (G + "MapChain::get", G + "normalize_identifier")}
    b, res = plain(C, G + "MapChain::resolve", 3, voc)
    n = ("call", "normalize_identifier", (("param", "p1"),))
    g = None
    seen = set()
    for st, rv in res:
        gs = {c[1] for c in st.conds if c[0] == "is" and c[1][0] == "call" and c[1][1] == "get"}
        if len(gs) != 1:
            raise Undecided("lookups of resolve: %d" % len(gs))
        g = gs.pop()
        R.check(g[2][0] == ("param", "p0") and is_agg(g[2][1]) and g[2][1][3][0][1] == n, "resolve:lookup", "the name is looked up: %s" % pp(g)[:100], b.where())
        kind = [c[2] for c in st.conds if c[0] == "is" and c[1] == g][0]
        refs = ("fld", ("fld", ("as", g, "Some"), "0"), "refs")
        r = [c[2] for c in st.conds if c[0] == "is" and c[1] == refs]
        seen.add((kind, tuple(r)))
        if kind == "None":
            R.check(is_agg(rv, "None"), "resolve:none", "a name not in scope is not resolved: %s" % pp(rv)[:80], b.where())
        elif r == ["Some"]:
            R.check(rv == some(("fld", ("as", refs, "Some"), "0")), "resolve:ref", "a parameter stands for its expression: %s" % pp(rv)[:80], b.where())
        elif r == ["None"]:
            R.check(rv == some(n), "resolve:name", "a variable stands for itself: %s" % pp(rv)[:80], b.where())
        else:
            raise Undecided("resolve")
    R.check(len(seen) == 3, "resolve:cases", "cases: %s" % sorted(seen), b.where())


def resolve_or_self(C):
    R = C.R
    voc = {k: VOCAB[k] for k in (G + "MapChain::resolve", G + "normalize_identifier")}
    b, res = plain(C, G + "MapChain::resolve_or_self", 3, voc)
    P1 = ("param", "p1")
    n = ("call", "normalize_identifier", (P1,))
    for st, rv in res:
        rs = [c for c in st.conds if c[0] == "is" and c[1][0] == "call" and c[1][1] == "resolve"]
        if len(rs) != 1:
            raise Undecided("lookup")
        a = rs[0][1][2]
        R.check(a[0] == ("param", "p0") and a[1] in (P1, n), "resolve_or_self:lookup", "the name is resolved first", b.where())
        if rs[0][2] == "Some":
            R.check(rv == ("fld", ("as", rs[0][1], "Some"), "0"), "resolve_or_self:local", "returns %s" % pp(rv)[:80], b.where())
        else:
            s = [t for t in rv[1]] if rv[0] == "code" else []
            R.check(len(s) == 2 and s[0] == ("s", "self.") and s[1][:2] == ("h", n), "resolve_or_self:field", "any other name is a field: %s" % pp(rv)[:80], b.where())


def var(C):
    """A variable expression denotes what resolve_or_self yields; self itself is left alone."""
    R = C.R
    b = C.body("askama_derive", GEN + "visit_var")
    E = engine(C)
    n = 0
    for st, rv in run_gen(C, E, b):
        s = [t for e in st.ev if e[0] == "op" and e[1] == "emit" for t in e[3]]
        isself = [c[2] for c in st.conds if c[0] == "t" and c[1][0] == "eq" and ("str", "self") in c[1]]
        if isself == [True]:
            R.check([pp(t[1]) if t[0] == "h" else t[1] for t in s] in (["p2"], ["self"]), "var:self", "self is self: %s" % pp(("code", tuple(s)))[:80], b.where())
        elif isself == [False]:
            n += 1
            t = s[0][1] if len(s) == 1 and s[0][0] == "h" else None
            if t and t[0] == "call" and t[1] == "normalize_identifier":
                t = t[2][0]
            R.check(t is not None and t[0] == "call" and t[1] == "resolve_or_self" and tname(t[2][0]) == "p0.locals" and t[2][1] == ("param", "p2"),
                    "var:resolved", "a name is resolved: %s" % pp(("code", tuple(s)))[:100], b.where())
        else:
            raise Undecided("visit_var")
    if not n:
        raise Undecided("visit_var")


def meta(C):
    R = C.R
    b, res = plain(C, G + "LocalMeta::initialized", 1)
    for st, rv in res:
        R.check(fields(rv)["initialized"] == TRUE and is_agg(fields(rv)["refs"], "None"), "meta:initialized", pp(rv)[:80], b.where())
    b, res = plain(C, G + "LocalMeta::with_ref", 1)
    for st, rv in res:
        R.check(fields(rv)["initialized"] == TRUE and fields(rv)["refs"] == some(("param", "p0")), "meta:with_ref", pp(rv)[:80], b.where())


# ------------------------------------------------------------------ patterns
def target(C):
    """Every name of a pattern becomes a variable of exactly that name; sub-patterns are all generated."""
    R = C.R
    b = C.body("askama_derive", GEN + "visit_target")
    E = engine(C)
    T = ("param", "p4")
    seen = set()
    for st, rv in run_gen(C, E, b):
        k = [c[2] for c in st.conds if c[0] == "is" and c[1] == T]
        k = k[0] if k else None
        if k is None:
            raise Undecided("kind of pattern")
        seen.add(k)
        for cs, ops in linear(st.ev, (1, 2)):
            s = nows("".join(text(o[2]) for o in ops if o[0] == "emit" and o[1] == "p1"))
            binds = [o for o in ops if o[0] in ("bind", "bind-default")]
            tg = [o[3] for o in ops if o[0] == "target"]
            if any(c[0] == "odd" for c in cs):
                R.bad("target:%s:all" % k, "sub-patterns are skipped or reordered", b.where())
            if k == "Name":
                nm = ("call", "normalize_identifier", (("fld", ("as", T, "Name"), "0"),))
                under = [c[2] for c in st.conds if c[0] == "t" and c[1][0] == "eq" and ("str", "_") in c[1]]
                if under == [True]:
                    R.check(s == "_" and not binds, "target:wildcard", "_ introduces no variable: %s" % s, b.where())
                    continue
                R.check(s == "⟦normalize_identifier(p4@Name.0)⟧", "target:Name", "generates %s" % s, b.where())
                R.check(len(binds) == 1 and binds[0][1] == "p0.locals" and is_agg(binds[0][2]) and binds[0][2][3][0][1] == nm, "target:Name:bind",
                        "introduces %s" % [pp(x[2])[:60] for x in binds], b.where())
                ini = [c[2] for c in st.conds if c[0] == "t" and c[1] == ("param", "p2")]
                if len(binds) == 1 and ini:
                    meta = is_agg(binds[0][3]) if len(binds[0]) > 3 else False
                    R.check((binds[0][0] == "bind" and meta and fields(binds[0][3])["initialized"] == TRUE and is_agg(fields(binds[0][3])["refs"], "None")) == ini[0],
                            "target:Name:initialized", "initialised: %s" % ini[0], b.where())
            elif k in ("Tuple", "Struct"):
                n = max(c[2] for c in cs if c[0] == "count") if any(c[0] == "count" for c in cs) else 0
                f = "p4@%s" % k
                el = lambda i: "%s.1[%d]%s" % (f, i, ".1" if k == "Struct" else "")
                if k == "Tuple":
                    w = "⟦join(%s.0,'::')⟧(" % f + "".join("⟦target%s⟧," % el(i) for i in range(n)) + ")"
                else:
                    w = "⟦join(%s.0,'::')⟧{" % f + "".join("⟦normalize_identifier(elem(%s.1,%d).0)⟧:⟦target%s⟧," % (f, i, el(i)) for i in range(n)) + "}"
                R.check(s == w, "target:" + k, "generates %s, expected %s" % (s, w), b.where())
                R.check(all(t[0] == ("param", "p2") and t[1] == FALSE for t in tg), "target:%s:init" % k, "sub-patterns as the pattern itself", b.where())
                R.check(not binds, "target:%s:bind" % k, "no further variables", b.where())
            elif k == "OrChain":
                first = [c[2] for c in st.conds if c[0] == "is" and c[1][0] == "call" and c[1][1].endswith("::first")]
                if first == ["None"]:
                    continue
                n = len(tg)
                if n and any(c[0] == "t" and c[2] is True and "empty" in pp(c[1]) and mentions(c[1], ("fld", ("as", T, "OrChain"), "0")) for c in st.conds):
                    continue  # no alternatives, but some are generated: infeasible
                if not n:
                    R.check(s == "_", "target:OrChain", "no alternative: generates %s" % s, b.where())
                    continue
                R.check(s == "|".join("⟦target%s⟧" % nows(tname(t[2])) for t in tg) and n >= 1, "target:OrChain", "generates %s" % s, b.where())
                R.check(all(t[0] == ("param", "p2") and t[1] == ("param", "p3") for t in tg), "target:OrChain:init", "alternatives as the pattern itself", b.where())
                if first == ["Some"]:
                    ts = [t[2] for t in tg]
                    oc = ("fld", ("as", T, "OrChain"), "0")
                    rng = ("range", oc, ("int", 1), ("lenof", oc))
                    good = all(t == ("elem", oc, i) for i, t in enumerate(ts)) or tname(ts[0]).startswith("first(") and all(t == ("elem", rng, i) for i, t in enumerate(ts[1:]))
                    if not good and not all(mentions(t, oc) for t in ts):
                        R.bad("target:OrChain:all", "alternatives: %s" % [pp(t)[:60] for t in ts], b.where())
                    elif not good:
                        raise Undecided("alternatives: %s" % [pp(t)[:60] for t in ts])
            else:
                R.check(not binds and not tg, "target:literal", "a %s introduces no variable" % k, b.where())
                q = {"StrLit": ('"', '"'), "CharLit": ("'", "'"), "NumLit": ("", ""), "BoolLit": ("", "")}.get(k)
                if q:
                    fl = [c[2] for c in st.conds if c[0] == "t" and c[1] == ("param", "p3")]
                    w = ("&" if fl == [True] else "") + q[0] + "⟦p4@%s.0⟧" % k + q[1]
                    R.check(s == w, "target:" + k, "generates %s, expected %s" % (s, w), b.where())
                elif k == "Path":
                    n = max(c[2] for c in cs if c[0] == "count") if any(c[0] == "count" for c in cs) else 0
                    w = "::".join("⟦p4@Path.0[%d]⟧" % i for i in range(n))
                    R.check(s in (w, "⟦join(p4@Path.0,'::')⟧"), "target:Path", "generates %s, expected %s" % (s, w), b.where())
    kinds = {"Name", "Tuple", "Struct", "OrChain", "StrLit", "CharLit", "NumLit", "BoolLit", "Path"}
    R.check(kinds <= seen, "target:kinds", "not handled: %s" % sorted(kinds - seen), b.where())


def shadowing(C):
    """is_shadowing_variable: a name shadows if an initialised variable of that name is visible; composite patterns if
    any of their parts does."""
    R = C.R
    b = C.body("askama_derive", GEN + "is_shadowing_variable")
    E = engine(C)
    T = ("param", "p1")
    for st, rv in run_gen(C, E, b, bufs=()):
        k = [c[2] for c in st.conds if c[0] == "is" and c[1] == T]
        k = k[0] if k else None
        if k == "Name":
            gs = [c for c in st.conds if c[0] == "is" and c[1][0] == "call" and c[1][1] == "get"]
            R.check(len(gs) == 1 and mentions(gs[0][1], ("call", "normalize_identifier", (("fld", ("as", T, "Name"), "0"),))), "shadow:lookup",
                    "the name is looked up", b.where())
            if gs and gs[0][2] == "Some":
                i = [c[2] for c in st.conds if c[0] == "t" and c[1] == ("fld", ("fld", ("as", gs[0][1], "Some"), "0"), "initialized")]
                r = rv[3][0][1] if is_agg(rv, "Ok") else None
                if i:
                    R.check(r == ("bool", i[0]), "shadow:initialized", "shadowing an %sinitialised variable: %s" % ("" if i[0] else "un", pp(rv)[:60]), b.where())
                else:
                    R.check(r == ("fld", ("fld", ("as", gs[0][1], "Some"), "0"), "initialized"), "shadow:initialized", pp(rv)[:100], b.where())
            elif gs:
                R.check(rv == ok(FALSE), "shadow:new", "a new variable does not shadow: %s" % pp(rv)[:60], b.where())
        elif k in ("Tuple", "Struct"):
            end = any(c[0] == "iter" and c[2] in ("end", "none-found") for c in st.conds)
            if end:
                R.check(rv == ok(FALSE), "shadow:%s" % k, "no part shadows: %s" % pp(rv)[:60], b.where())
            elif is_agg(rv, "Ok"):
                R.check(rv != ok(FALSE), "shadow:%s:any" % k, "a part shadows", b.where())
        elif is_agg(rv, "Ok"):
            R.bad("shadow:literal", "a literal is accepted on the left-hand side of an assignment", b.where())
