"""Every path of write_call, with the loops over arguments and parameters unrolled for 0 to 2 parameters: each parameter is
bound exactly once, under its own (normalised) name, to the argument given under its name, or else to the argument at its
position if no named argument came before; the generated let statement and the variables standing for expressions carry
exactly these arguments; nothing is bound before the last argument has been resolved. Paths that succeed require equal
numbers of arguments and parameters, and every named argument to be a parameter. The macro is looked up under the given
name in the calling template or in the imported one, and its body is generated with the definitions of that template.
Context::new registers every macro and import under its own name."""
from genlib import *

ARGS = ("fld", ("param", "p3"), "args")
NAME = ("fld", ("param", "p3"), "name")
SCOPE = ("fld", ("param", "p3"), "scope")
INSERT = "std::collections::HashMap::insert"


def run(C):
    R = C.R
    R.floor = 60
    R.section("call", call, C)
    R.section("register", register, C)


def some(t):
    return ("fld", ("as", t, "Some"), "0")


def hget(m, k):
    return ("call", "std::collections::HashMap::get", (m, k))


def record(E, fr, st, a, line):
    root, path = E.derefloc(st, a[0])
    st.ev += (("op", "insert", loc((root, path)), E.norm(st, a[1]), E.norm(st, a[2])),)
    return NotImplemented


def strip(t):
    while isinstance(t, tuple) and (is_agg(t, "Borrowed") or is_agg(t, "Owned")):
        t = fields(t)["0"]
    if isinstance(t, tuple) and t[0] == "fld" and is_agg(t[1]):
        v = fields(t[1]).get(t[2])
        if v is not None:
            return strip(v)
    return t


def base_lv(t):
    while isinstance(t, tuple) and t[0] in ("mut", "upd"):
        t = t[1]
    return t


def call(C):
    R = C.R
    b = C.body("askama_derive", GEN + "write_call")
    E = engine(C, extra={INSERT: record}, max_depth=6)
    res = run_gen(C, E, b, bufs=("p2",))
    where = b.where()
    oks = []
    for st, rv in res:
        if ("t", ("eq", NAME, ("str", "super")), False) not in st.conds:
            if any(o[0] == "bind" for o in flat_ops(st)):
                raise Undecided("super call with bindings")
            continue
        if is_agg(rv, "Ok"):
            oks.append(st)
        elif not is_agg(rv, "Err"):
            raise Undecided("result of a call: %s" % pp(rv)[:80])
    seen = set()
    for st in oks:
        scoped = [c[2] for c in st.conds if c[0] == "is" and c[1] == SCOPE]
        if not scoped:
            raise Undecided("scope of the macro")
        seen.add(scoped[0])
        one_path(C, b, st, scoped[0] == "Some")
    R.check(seen == {"Some", "None"}, "call:forms", "macros can be called with and without scope: %s" % sorted(seen), where)


def same_context(t, own):
    """The definitions of own; the path is another matter."""
    if t == own:
        return True
    if is_agg(t):
        return all(v == ("fld", own, f) for f, v in t[3] if f != "path")
    if t[0] == "upd":
        return t[1] == own and {f[1] for f, v in t[2]} <= {"path"}
    return False


def flat_ops(st):
    return [e[1:] for e in flat_events(st.ev) if e[0] == "op"]


def one_path(C, b, st, scoped):
    R = C.R
    where = b.where()
    if scoped:
        own = some(hget(("fld", ("param", "p0"), "contexts"), some(hget(("fld", ("param", "p1"), "imports"), some(SCOPE)))))
    else:
        own = ("param", "p1")
    d = ("fld", some(hget(("fld", own, "macros"), NAME)), "0")
    defargs = ("fld", d, "args")
    # --- the number of arguments
    lp, la = ("lenof", defargs), ("lenof", ARGS)
    for n in (0, 1, 2, 3, 7):
        for k in (0, 1, 2, 3, 7):
            ok = not any(evcond(c, {lp: n, la: k}) is False for c in st.conds)
            if n != k:
                R.check(not ok, "call:count", "%d arguments for %d parameters are rejected" % (k, n), where)
    # --- what is generated for the body
    hs = [o for o in flat_ops(st) if o[0] == "handle"]
    if len(hs) != 1:
        raise Undecided("%d bodies" % len(hs))
    h = hs[0]
    R.check(h[4] == ("fld", d, "nodes"), "call:body", "the body of the macro is generated: %s" % pp(h[4])[:80], where)
    R.check(same_context(h[3], own), "call:context", "the body sees the definitions of the template that defines the macro: %s" % pp(h[3])[:80], where)
    R.check(h[1] == "p0", "call:generator", "the body is generated in place", where)
    # --- named arguments
    checked = named_checked(C, b, st, defargs)
    # --- binding
    seqs = linear(st.ev, (0, 1, 2), items=True)
    for conds, ops in seqs:
        n = [c[2] for c in conds if c[0] == "count" and c[1] == defargs]
        if not n:
            n = [0] if not any(o[0] == "bind" for o in ops) else n
        if len(n) != 1:
            raise Undecided("passes over the parameters")
        n = n[0]
        if not consistent(st, conds, ops):
            continue
        if any(c[0] == "odd" and c[1] == defargs for c in conds):
            R.bad("call:parameters", "all parameters are visited: %s" % pp([c for c in conds if c[0] == "odd"][0][2])[:80], where)
            continue
        allc = st.conds + conds
        binds = [o for o in ops if o[0] in ("bind", "bind-default")]
        if any(o[1] != "p0.locals" for o in binds):
            raise Undecided("bindings elsewhere: %s" % sorted({o[1] for o in binds}))
        if len(binds) > n and any(c[0] == "count" and c[1] != defargs for c in conds):
            raise Undecided("order of the bindings")
        R.check(len(binds) == n, "call:every", "%d parameters, %d bindings" % (n, len(binds)), where)
        if len(binds) != n:
            continue
        # nothing becomes visible before everything is resolved
        last = max([i for i, o in enumerate(ops) if o[0] == "visit" or o[0] == "item"], default=-1)
        firstb = min([i for i, o in enumerate(ops) if o[0] in ("bind", "bind-default")], default=len(ops))
        bufs = {}
        names, values = [], []
        for k in range(n):
            el = ("elem", defargs, k)
            o = [x for x in binds if strip(x[2]) == ("call", "normalize_identifier", (el,))]
            if not o and any(not mentions(x[2], el) and not mentions(x[2], ("elem", defargs)) and mentions(x[2], ("elem",)) for x in binds):
                raise Undecided("names of the bindings: %s" % pp(binds[k][2])[:80])
            if not R.check(len(o) == 1, "call:name", "parameter %d is bound %d times under its name: %s" % (k, len(o), [pp(strip(x[2]))[-60:] for x in binds]), where):
                continue
            # the argument: named or at the position
            g = [c for c in allc if c[0] == "is" and c[1][0] == "call" and c[1][1].endswith("HashMap::get") and strip(c[1][2][1]) == el]
            S = None
            for c in g:
                if c[2] == "Some":
                    S = some(c[1])
            if S is None:
                S = ("idx", ARGS, ("int", k))
                if not g and checked is not False:
                    R.check(no_named(allc), "call:named-first", "an argument named after the parameter is looked for", where)
                # no named one before
                before = [c for c in allc if c[0] == "is" and c[2] == "Some" and c[1][0] == "call" and c[1][1].endswith("HashMap::get") and strip(c[1][2][1]) in [("elem", defargs, j) for j in range(k)]]
                R.check(not before, "call:positional", "a positional argument is taken only if none of the parameters before was given by name", where)
            meta = strip(o[0][3]) if o[0][0] == "bind" else None
            kind, ref = meta_of(meta)
            inner = S if kind == "ref" else None
            SS = {S, ("fld", ("as", S, "NamedArgument"), "1")}
            if kind == "ref":
                R.check(firstb > last, "call:before", "nothing is bound before all arguments are resolved", where)
                good, msg = refers(ref, SS, allc)
                R.check(good, "call:value", "parameter %d stands for its own argument: %s" % (k, msg), where)
            elif kind == "var":
                names.append(el)
                values.append(SS)
            else:
                raise Undecided("meaning of a parameter: %s" % pp(meta)[:100])
        # --- the let statement
        let = [i for i, o in enumerate(ops) if o[0] == "emit" and o[1] == "p2" and "let" in text(o[2], ops[:i])]
        if not names:
            R.check(not let, "call:let", "no variables are declared without need", where)
            continue
        if len(let) != 1:
            R.check(False, "call:let", "%d let statements for %d variables" % (len(let), len(names)), where)
            continue
        t = raw(ops[let[0]][2], ops[:let[0]])
        check_let(C, t, names, values, where)


def raw(toks, ops):
    """The tokens with local buffers and nested code replaced by what was written to them."""
    out = []
    for t in toks:
        if t[0] == "star" and len(t) > 2:
            who, on = loc((t[2], t[3])) if not isinstance(t[2], tuple) or t[2][0] != "L" else "L%d_%d" % t[2][1:], False
            for o in ops:
                if o[0] in ("begin", "end") and o[1] == t[1]:
                    on = o[0] == "begin"
                elif on and o[0] == "emit" and o[1] == who:
                    out += raw(o[2], ops)
        elif t[0] == "h" and t[1][0] == "code":
            out += raw(t[1][1], ops)
        else:
            out.append(t)
    return out


def check_let(C, toks, names, values, where):
    R = C.R
    s, holes = "", []
    for t in toks:
        if t[0] == "s":
            s += t[1]
        else:
            s += "⟦%d⟧" % len(holes)
            holes.append(t[1])
    s = nows(s)
    n = len(names)
    ex = "let(%s)=(%s);" % (",".join("⟦%d⟧" % i for i in range(n)), ",".join("(⟦%d⟧)" % (n + i) for i in range(n)))
    if not R.check(s == ex or s == ex.replace("(⟦", "⟦").replace("⟧)", "⟧"), "call:let", "the variables are declared from their arguments: %s" % s[:120], where):
        return
    for i in range(n):
        R.check(holes[i] == ("call", "normalize_identifier", (names[i],)), "call:let:name", "variable %d is the parameter: %s" % (i, pp(holes[i])[-80:]), where)
        v = holes[n + i]
        R.check(v[0] == "expr" and v[1] in values[i], "call:let:value", "variable %d is declared from its own argument: %s" % (i, pp(v)[-120:]), where)


def meta_of(m):
    """("ref", text) or ("var", None)"""
    if not is_agg(m):
        return (None, None) if m is not None else ("var", None)
    f = fields(m)
    r = f.get("refs")
    if is_agg(r, "Some"):
        return "ref", fields(r)["0"]
    if is_agg(r, "None"):
        return "var", None
    return None, None


def refers(ref, SS, conds):
    """Does the text stand for the argument as the caller sees it?"""
    t = strip(ref)
    for S in SS:
        v = ("fld", ("as", S, "Var"), "0")
        if t[0] == "call" and t[1] == "resolve_or_self" and t[2][1] == v:
            return any(evcond(c, {v: "self"}) is False for c in conds if c[0] == "t"), "self is not the name of a variable"
        a = ("attr", ("fld", ("as", S, "Attr"), "0"), ("fld", ("as", S, "Attr"), "1"))
        code = ("code", (("h", a, ""),))
        if t == code or t == a:
            r = [c for c in conds if c[0] == "is" and c[1][0] == "call" and c[1][1] == "resolve" and c[1][2][1] in (code, a)]
            return bool(r) and all(c[2] == "None" for c in r), "attribute as such although it may stand for something"
        if t[0] == "fld" and t[2] == "0" and t[1][0] == "as" and t[1][1][0] == "call" and t[1][1][1] == "resolve":
            if t[1][1][2][1] in (code, a):
                return True, ""
    return False, pp(t)[-120:]


def no_named(conds):
    """Do the conditions say that the last argument is not a named one?"""
    last = ("call", "last", (ARGS,))
    for c in conds:
        if c[0] in ("is", "not") and "last" in pp(c[1])[:12] and mentions(c, ARGS):
            if c[0] == "is" and c[2] == "None":
                return True
            if c[0] == "not" and "NamedArgument" in c[2] or c[0] == "is" and c[2] not in ("NamedArgument", "Some"):
                return True
    return False


def consistent(st, conds, ops):
    """Conditions that ask whether a local buffer is empty agree with what was written to it."""
    for c in st.conds + conds:
        if c[0] != "t":
            continue
        env = {}
        for x in walk(c):
            if isinstance(x, tuple) and len(x) == 2 and x[0] == "empty" and x[1][0] == "code" and all(t[0] == "star" for t in x[1][1]):
                env[x] = all(text(o[2], ()) == "" for t in x[1][1] for o in within(ops, t[1]) if o[0] == "emit" and o[1] == "L%d_%d" % t[2][1:])
        if env and evcond(c, env) is False:
            return False
    return True


def within(ops, lid):
    on = False
    for o in ops:
        if o[0] in ("begin", "end") and o[1] == lid:
            on = o[0] == "begin"
        elif on:
            yield o


def named_checked(C, b, st, defargs):
    """The pass over the named arguments of this path: every one is a parameter and is recorded under its name."""
    R = C.R
    where = b.where()
    if no_named(st.conds):
        return None
    lps = []
    for e in st.ev:
        if e[0] == "loop" and any(c[0] == "is" and c[2] == "NamedArgument" for a in e[2] for c in a[0]):
            lps.append(e)
    if not lps:
        raise Undecided("no pass over the named arguments")
    for e in lps:
        src = loop_src(e)
        el = ("elem", src)
        if src != ARGS:
            raise Undecided("named arguments are looked for in %s" % pp(src)[:80])
        for conds, evs, _, upd in e[2]:
            rev = any(len(c) > 3 for c in conds if c[0] == "iter")
            mods = [m for c in conds if c[0] == "iter" and len(c) > 3 for m in c[3]]
            if any("rev" not in str(m) for m in mods):
                R.bad("named:pass", "all arguments are visited: %s" % pp(mods)[:60], where)
            if ("is", el, "NamedArgument") not in conds:
                continue
            nm = ("fld", ("as", el, "NamedArgument"), "0")
            ins = [x for x in flat_events(evs) if x[0] == "op" and x[1] == "insert"]
            R.check(len(ins) == 1 and strip(ins[0][3]) == nm, "named:key", "the argument is recorded under its name: %s" % [pp(x[3])[-60:] for x in ins], where)
            if len(ins) == 1:
                R.check(ins[0][4] in (el, ("fld", ("as", el, "NamedArgument"), "1")), "named:value", "the argument is recorded as it is: %s" % pp(ins[0][4])[-80:], where)
            known = [c for c in conds if c[0] == "t" and c[2] is True and c[1][0] in ("any", "call") and member(c[1], defargs, nm)]
            R.check(bool(known), "named:known", "a named argument that is no parameter is rejected", where)
    # the loop may be left early only at an argument that is not named, coming from the end
    for c in st.conds:
        if c[0] == "not" and c[1] == ("elem", ARGS) and "NamedArgument" in c[2]:
            R.check(any("rev" in str(x[3:]) for x in st.conds if x[0] == "iter" and x[1] == ARGS), "named:pass", "the pass over the named arguments begins at the end", where)
        if c[0] == "is" and c[1] == ("elem", ARGS) and c[2] == "NamedArgument":
            R.bad("named:break", "the pass over the named arguments ends at a named argument", where)
    return True


def member(t, lst, x):
    if t[0] == "any" and t[1][0] == "iter" and t[1][1] == lst and not t[1][2]:
        for conds, v in t[2]:
            if v[0] == "eq" and set((v[1], v[2])) == {("elem", lst), x} and not conds:
                return True
    if t[0] == "call" and t[1].endswith("contains") and t[2][0] == lst and t[2][1] == x:
        return True
    return False


def register(C):
    R = C.R
    b = C.body("askama_derive", "heritage::Context::new")
    E = engine(C, extra={INSERT: record}, max_depth=5)
    res = C.run(E, b)
    got = {}
    n = 0
    for st, rv in res:
        for e in flat_events(st.ev):
            if e[0] == "op" and e[1] == "insert":
                k, v = strip(e[3]), e[4]
                src = pp(k)
                kinds = sorted({x[2] for x in walk(k) if isinstance(x, tuple) and len(x) == 3 and x[0] == "as" and x[2] in ("Macro", "Import", "BlockDef")})
                if len(kinds) != 1:
                    continue
                kind = kinds[0]
                got.setdefault(kind, set()).add((k, v))
    for kind, fld_ in (("Macro", "name"), ("Import", "scope"), ("BlockDef", "name")):
        if not R.check(kind in got, "register:" + kind, "%s nodes are registered" % kind, b.where()):
            continue
        for k, v in got[kind]:
            nodes = [x for x in walk(k) if isinstance(x, tuple) and len(x) == 3 and x[0] == "fld" and x[2] == "0" and x[1][0] == "as" and x[1][2] == kind]
            if not nodes:
                raise Undecided("registration of %s" % kind)
            nd = nodes[0]
            R.check(k == ("fld", nd, fld_), "register:%s:key" % kind, "registered under its %s: %s" % (fld_, pp(k)[-60:]), b.where())
            if kind == "Import":
                R.check(mentions(v, ("fld", nd, "path")), "register:Import:value", "the scope stands for the imported template: %s" % pp(v)[-100:], b.where())
            elif kind == "Macro" and is_agg(v) and v[1] == "tuple":
                R.check(fields(v)["0"] == nd, "register:Macro:value", "the definition itself is registered: %s" % pp(v)[:60], b.where())
            else:
                R.check(v == nd, "register:%s:value" % kind, "the definition itself is registered: %s" % pp(v)[-60:], b.where())
