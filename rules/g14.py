"""is_cacheable is decided per form of expression: on every path that returns true, or the answer for a part, every
operand of the form must have been asked for (all elements of lists, present ends of ranges); calls, macros and the try
operator must never be cacheable, and a built-in filter whose result can be displayed only once (its Display
implementation takes the value out of a cell) must not be either. Where pending output is written, an expression is
evaluated once for several uses only on paths on which is_cacheable held for that very expression and its generated code
was found in a cache that is new for each flush; every other use gets its own evaluation under a new number, and each
placeholder names the number its own expression was stored or found under."""
from genlib import *
import re

OPERANDS = {
    "BoolLit": [], "NumLit": [], "StrLit": [], "CharLit": [], "Var": [], "Path": [], "Generated": [],
    "Array": ["0*"], "Tuple": ["0*"], "Attr": ["0"], "Index": ["0", "1"], "Filter": ["0.arguments*"], "NamedArgument": ["1"],
    "Unary": ["1"], "BinOp": ["1", "2"], "Range": ["1?", "2?"], "Group": ["0"],
    "Call": None, "RustMacro": None, "Try": None,
}
P = ("param", "p0")


def run(C):
    R = C.R
    R.floor = 24
    R.section("cacheable", cacheable, C)
    R.section("sharing", sharing, C)


def operand(kind, o):
    t = ("as", P, kind)
    for f in o.rstrip("*?").split("."):
        t = ("fld", t, f)
    return t


def paths_of_cacheable(C):
    b = C.body("askama_derive", G + "is_cacheable")
    E = C.engine("askama_derive", vocab={G + "is_cacheable": v_pure("is_cacheable")}, max_depth=2)
    return b, C.run(E, b)


def asked(v, st, t):
    """Is the value v of the path only true if is_cacheable(t) was?"""
    q = ("call", "is_cacheable", (t,))
    if v == q or ("t", q, True) in st.conds or v[0] == "and" and (v[1] == q or v[2] == q):
        return True
    for x in [v] + [c[1] for c in st.conds if c[0] == "t"]:
        if x[0] in ("all", "any") and x[1][0] == "iter" and x[1][1][0] in ("arr", "call"):
            raise Undecided("operands in %s" % pp(x[1])[:80])
    return False


def asked_all(v, st, lst):
    el = ("elem", lst)
    q = ("call", "is_cacheable", (el,))
    for x in [v] + [c[1] for c in st.conds if c[0] == "t" and c[2] is True]:
        for y in walk(x):
            if isinstance(y, tuple) and y and y[0] == "all" and y[1][:2] == ("iter", lst):
                return not y[1][2] and q in [z for z in walk(y[2])]
    for x in [v] + [c[1] for c in st.conds if c[0] == "t" and c[2] is False]:
        for y in walk(x):
            if isinstance(y, tuple) and y and y[0] == "any" and y[1][:2] == ("iter", lst):
                return not y[1][2] and q in [z for z in walk(y[2])]
    for c in st.conds:
        if c[0] == "iter" and c[1] == lst and c[2] in ("end", "none-found"):
            if len(c) > 3 and set(c[3]) - {"rev"}:
                return False
            lps = [e for e in st.ev if e[0] == "loop"]
            if lps:
                return all(("t", q, True) in a[0] for e in lps for a in e[2])
            raise Undecided("loop over operands")
    return False


def cacheable(C):
    R = C.R
    b, res = paths_of_cacheable(C)
    seen = set()
    for st, rv in res:
        ks = [c[2] for c in st.conds if c[0] == "is" and c[1] == P]
        no = set().union(*[set(c[2]) for c in st.conds if c[0] == "not" and c[1] == P]) if any(c[0] == "not" and c[1] == P for c in st.conds) else set()
        kinds = ks or [k for k in OPERANDS if k not in no]
        seen |= set(kinds)
        if rv == FALSE:
            for k in kinds:
                R.check(True, "cacheable:" + k, "", b.where())
            continue
        for k in kinds:
            if k not in OPERANDS:
                raise Undecided("unknown form of expression %s" % k)
            ops = OPERANDS[k]
            if ops is None:
                R.bad("cacheable:" + k, "%s may have effects but can be evaluated once for several uses: %s" % (k, pp(rv)[:80]), b.where())
                continue
            good = True
            for o in ops:
                t = operand(k, o)
                if o.endswith("?"):
                    if ("is", t, "None") in st.conds:
                        continue
                    inner = ("fld", ("as", t, "Some"), "0")
                    ok1 = asked(rv, st, inner)
                    if not ok1 and ("is", t, "Some") not in st.conds:
                        if mentions(rv, t) or any(mentions(c, t) for c in st.conds):
                            raise Undecided("end of a range")
                    good = good and ok1
                elif o.endswith("*"):
                    good = good and asked_all(rv, st, t)
                else:
                    good = good and asked(rv, st, t)
            R.check(good, "cacheable:" + k, "every operand is checked; %s under %s" % (pp(rv)[:100], [pp(c)[:80] for c in st.conds]), b.where())
    R.check(set(OPERANDS) <= seen, "cacheable:forms", "not handled: %s" % sorted(set(OPERANDS) - seen), b.where())
    # built-in filters with a result that can be displayed once
    once = one_shot(C)
    nm = ("fld", operand("Filter", "0"), "name")
    for f, ty in sorted(once.items()):
        for st, rv in res:
            if ("is", P, "Filter") not in st.conds:
                continue
            if any(evcond(c, {nm: f}) is False for c in st.conds if c[0] in ("t", "any")):
                continue
            R.check(rv == FALSE, "once:" + f, "the result of filter %s (%s) can be displayed once only but may be used twice" % (f, ty), b.where())


def one_shot(C):
    """{filter: type} where displaying the type changes it."""
    cr = C.P.crates["askama"]
    tys = {}
    for n, b in sorted(cr.by.items()):
        m = re.fullmatch(r"<(filters::.*) as std::fmt::Display>::fmt", n)
        if not m:
            continue
        C.R.functions.add("askama::" + n)
        E = C.engine("askama", record=lambda p: re.search(r"(Cell|RefCell|OnceCell|Mutex)::", p) is not None)
        try:
            for st, rv in E.run(b):
                for e in flat_events(st.ev):
                    if e[0] == "call" and base(e[2][0])[0] == "fld" and e[1].split("::")[-1] in ("take", "replace", "set", "swap", "borrow_mut", "lock", "update"):
                        tys[m.group(1)] = e[1]
        except Undecided:
            pass
    out = {}
    for n, b in sorted(cr.by.items()):
        m = re.fullmatch(r"filters::(?:json::)?(\w+)", n)
        if not m:
            continue
        for ty in tys:
            try:
                E = C.engine("askama")
                if any(is_agg(x) and x[1] == ty for st, rv in E.run(b) for x in walk(rv)):
                    out[m.group(1)] = ty
            except Undecided:
                pass
    return out


def sharing(C):
    R = C.R
    b, paths = queue_writes(C)
    n = 0
    for q in paths:
        if not q.fmt:
            continue
        fb, ab = q.buf(0), q.buf(1)
        init = dict(q.lp[3])
        named = [lv for lv in init if isinstance(lv[2], tuple) and ("f", "named") in lv[2]] or [lv for lv, x in init.items() if x == ("fld", ("param", "p0"), "named")]
        for kind, conds, out, ops, upd in q.items:
            if kind not in ("Expr", "Generated"):
                continue
            f, a = out.get(fb, ()), out.get(ab, ())
            fh = [t for t in f if t[0] == "h"]
            if not R.check(len(fh) == 1, "sharing:placeholder", "one placeholder per expression: %s" % nows(text(f))[:80], b.where()):
                continue
            pid = fh[0][1]
            n += 1
            if a:
                ah = [t for t in a if t[0] == "h"]
                R.check(len(ah) >= 1 and ah[0][1] == pid, "sharing:number", "the placeholder has the number of its expression: %s, %s" % (pp(pid)[:60], pp(ah[0][1])[:60]), b.where())
                for lv in named:
                    R.check(pid == lv and upd.get(lv) == ("bin", "Add", lv, ("int", 1)), "sharing:fresh", "every evaluation gets a new number: %s, then %s" % (pp(pid)[:60], pp(upd.get(lv))[:60]), b.where())
                if not named:
                    raise Undecided("numbering")
                for e in [o for o in ops if o[0] == "store"]:
                    R.check(e[2][-1] == pid, "sharing:store", "the number is stored with the expression: %s" % pp(e[2][-1])[:60], b.where())
                continue
            # no evaluation of its own
            item = ("fld", ("as", q.el, kind), "0")
            R.check(kind == "Expr" and ("t", ("call", "is_cacheable", (item,)), True) in conds, "sharing:pure",
                    "an evaluation is shared only if the expression has no effects; shared %s under %s" % (kind, [pp(c)[:60] for c in conds[1:]]), b.where())
            en = [x for x in walk(pid) if isinstance(x, tuple) and len(x) > 2 and x[0] == "call" and x[1].split("::")[-1] in ("entry", "get")  and len(x[2]) == 2]
            if not en:
                raise Undecided("shared number %s" % pp(pid)[:100])
            cache, code = en[0][2]
            R.check(mentions(code, ("expr", item)), "sharing:key", "shared by the generated code of the expression: %s" % pp(code)[:100], b.where())
            c0 = init.get(cache)
            if c0 is None:
                R.bad("sharing:cache", "the cache outlives the flush: %s" % pp(cache)[:80], b.where())
            else:
                R.check(c0[0] == "call" and c0[1].split("::")[-1] in ("new", "with_capacity", "default"), "sharing:cache", "the cache is new for each flush: %s" % pp(c0)[:80], b.where())
    if not n:
        raise Undecided("no expression is written")
