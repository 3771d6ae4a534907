"""For every variant of the error type: each conversion into it must give the variant that holds exactly the value converted,
source() must give the value held, and displaying the error must write that value, once, and answer for the formatter's failure.
In every function of the run-time library that returns this error type and on every abstract path on which a failed call ends
it, the error returned must hold the failed call's own error. The code generated for the try operator must convert the
error into the variant for errors of templates and into nothing else, from the error itself."""
import re
from genlib import *
from exprlib import expr_paths
from g06 import balanced, DISCARD

ERR = "error::Error"
ME = ("param", "p0")


def run(C):
    R = C.R
    R.floor = 8
    R.section("from", conversions, C)
    R.section("source", source, C)
    R.section("display", display, C)
    R.section("cause", cause, C)
    R.section("try", try_, C)


def variants(C):
    a = C.P.crates["askama"].adts.get(ERR)
    if a is None:
        raise Missing("askama::error::Error")
    return {v[0]: [f[1] for f in v[1]] for v in a["variants"]}


def conversions(C):
    R = C.R
    vs = variants(C)
    n = 0
    for b in C.P.crates["askama"].bodies:
        if b.npath != "<error::Error as std::convert::From>::from":
            continue
        ty = b.locals[1][0]
        if ty == "!" or "Infallible" in ty:
            continue
        k = "from:" + ty.split("::")[-2] if ty.count("::") else "from:" + ty
        own = [v for v, ts in vs.items() if ts == [ty]]
        for st, rv in C.run(C.engine("askama"), b):
            n += 1
            if not is_agg(rv) or rv[2] not in vs:
                raise Undecided("conversion from %s: %s" % (ty, pp(rv)[:60]))
            if own:
                R.check(rv[2] in own, k + ":variant", "an error of type %s becomes %s" % (ty, rv[2]), b.where())
            p = dict(rv[3]).get("0")
            while p is not None and p[0] == "call" and p[1].split("::")[-1] in ("new", "into", "from") and len(p[2]) == 1:
                p = p[2][0]
            R.check(p == ME, k + ":value", "the error converted is kept: %s" % pp(rv)[:80], b.where())
    R.check(n >= 1, "from:any", "conversions: %d" % n)


def held(t, v):
    """Is t the value held by variant v of self?"""
    while t[0] == "call" and t[1].split("::")[-1] in ("as_ref", "deref", "borrow", "as_error") and len(t[2]) == 1:
        t = t[2][0]
    return t == ("fld", ("as", ME, v), "0")


def per_variant(C, npath, E):
    b = C.body("askama", npath)
    vs = variants(C)
    out = {v: [] for v in vs}
    for st, rv in C.run(E, b):
        v = [c[2] for c in st.conds if c[0] == "is" and c[1] == ME]
        if len(v) == 1:
            out[v[0]].append((st, E.norm(st, rv)))
            continue
        no = {x for c in st.conds if c[0] == "not" and c[1] == ME for x in c[2]}
        anyv = [{x[2] for alt in c[1] for x in alt if x[0] == "is" and x[1] == ME} for c in st.conds if c[0] == "any"]
        for x in vs:
            if x not in no and all(not s or x in s for s in anyv):
                out[x].append((st, E.norm(st, rv)))
    return b, out


def source(C):
    R = C.R
    b, out = per_variant(C, "<error::Error as std::error::Error>::source", C.engine("askama"))
    for v, ps in out.items():
        if not ps:
            raise Undecided("source of %s" % v)
        for st, rv in ps:
            okv = is_agg(rv, "Some") and held(dict(rv[3])["0"], v)
            if not okv and is_agg(rv, "Some") and any(held(x, v) for x in walk(rv) if isinstance(x, tuple) and x and isinstance(x[0], str)):
                # the source of the source
                R.bad("source:" + v, "the source of %s is the error it holds: %s" % (v, pp(rv)[:80]), b.where())
                continue
            R.check(okv, "source:" + v, "the source of %s is the error it holds: %s" % (v, pp(rv)[:80]), b.where())


def display(C):
    R = C.R
    b, out = per_variant(C, "<error::Error as std::fmt::Display>::fmt", C.engine("askama", record=lambda p: True))
    for v, ps in out.items():
        if not ps:
            raise Undecided("display of %s" % v)
        for st, rv in ps:
            evs = [e for e in st.ev if e[0] == "call"]
            if not evs:
                raise Undecided("display of %s writes nothing: %s" % (v, pp(rv)[:60]))
            shown = 0
            failed = any(c[0] == "is" and c[2] == "Err" for c in st.conds)
            for e in evs:
                for x in walk(e[2]):
                    if isinstance(x, tuple) and x and x[0] in ("fld", "call") and held(x, v) and x[0] == "fld":
                        shown += 1
            dbg = any(e[1].endswith("Debug>::fmt") or e[1].endswith("Debug::fmt") for e in evs) or any(
                isinstance(x, tuple) and len(x) == 3 and x[0] == "h" and isinstance(x[2], str) and x[2].startswith("?") and held(x[1], v)
                for e in evs for x in walk(e[2]))
            if failed:
                R.check(is_agg(rv, "Err") or rv[0] == "call", "display:fails:" + v, "a formatter's failure is reported", b.where())
                continue
            if not R.check(shown > 0, "display:" + v, "the text of %s shows the error it holds: %s" % (v, [pp(e)[:60] for e in evs]), b.where()):
                continue
            R.check(not dbg, "display:text:" + v, "it is the error's message, not its debug form", b.where())
            R.check(shown == 1, "display:once:" + v, "once: %d times" % shown, b.where())
            R.check(rv == evs[-1][5] or is_agg(rv, "Ok") and any(c[0] == "is" and c[2] == "Ok" for c in st.conds), "display:result:" + v, "the formatter's result is returned: %s" % pp(rv)[:60], b.where())


def cause(C):
    """An error returned because a call failed holds the call's error."""
    R = C.R
    n = 0
    for b in C.P.crates["askama"].bodies:
        rt = b.locals[0][0]
        if b.kind not in ("Fn", "AssocFn") or not re.match(r"std::result::Result<.*error::Error>$", rt):
            continue
        try:
            E = C.engine("askama", record=lambda p: True)
            res = C.run(E, b)
        except Undecided as e:
            R.undecided("cause:" + b.npath, str(e)) if hasattr(R, "undecided") else None
            continue
        for st, rv in res:
            if not is_agg(rv, "Err"):
                continue
            rv = E.norm(st, rv)
            p = dict(rv[3])["0"]
            fails = [c[1] for c in st.conds if c[0] == "is" and c[2] == "Err"]
            if not fails:
                continue
            n += 1
            k = "cause:%s" % b.npath
            good = any(any(x == ("as", f, "Err") for x in walk(p)) or mentions(p, f) for f in fails)
            if not good and is_agg(p) and all(not any(isinstance(x, tuple) and x[:1] in (("opaque",),) for x in walk(p)) for _ in (0,)):
                # a unit error (fmt::Error) holds nothing: its own variant says the same
                inner = dict(p[3]).get("0")
                fmt = [f for f in fails if f[0] == "call" and f[1].split("::")[-1] in ("write_str", "write_char", "write_fmt", "fmt")]
                good = p[2] == "Fmt" and fmt != []
            R.check(good, k, "%s returns the error of the call that failed: %s" % (b.npath, pp(p)[:80]), b.where())
    R.check(n >= 1, "cause:any", "failing paths: %d" % n)


def try_(C):
    R = C.R
    b, d = expr_paths(C)
    n = 0
    for p in d.get("Try", []):
        if not p.ok:
            continue
        n += 1
        H = r"⟦expr [^⟧]*⟧"
        forms = (r"(?:::(?:core|std)::result::Result::)map_err\(%s,\|(\w+)\|(.*)\)\?" % H, r"\(?%s\)?\.map_err\(\|(\w+)\|(.*)\)\?" % H)
        fs = (r"(?:::(?:core|std)::result::Result::)map_err\(%s,(::[\w:]*)\)\?" % H, r"\(?%s\)?\.map_err\((::[\w:]*)\)\?" % H)
        m = [re.fullmatch(f, p.text) for f in forms]
        m = [x for x in m if x]
        if not m:
            if re.fullmatch(r"\(?%s\)?\?" % H, p.text):
                R.bad("try", "an error of the template becomes a custom error: %s" % p.text[:120], b.where())
                continue
            raise Undecided("try operator: %s" % p.text[:120])
        v, body = m[0].groups()
        x = re.fullmatch(r"(::askama\w*(?:::\w+)*::Error::(\w+))\((.*)\)", body)
        if not x:
            raise Undecided("conversion of the error: %s" % body[:100])
        R.check(x.group(2) == "Custom", "try:variant", "an error of the template becomes a custom error: %s" % body[:100], b.where())
        inner = x.group(3)
        CONV = r"(?:(?:::(?:core|std)::convert::Into::into|::std::boxed::Box::(?:from|new)|::(?:core|std)::convert::From::from)\(%s\)|%s\.into\(\))" % (v, v)
        if re.fullmatch(CONV, inner):
            R.ok("try:error", "it is the error itself: %s" % inner, b.where())
        elif re.search(r"to_string|format|Error\b|type_name|\"", inner) or v not in re.findall(r"\w+", inner):
            R.bad("try:error", "it is the error itself: %s" % inner[:100], b.where())
        else:
            raise Undecided("conversion of the error: %s" % inner[:100])
    R.check(n > 0, "try:paths", "paths for try expressions: %d" % n, b.where())
