"""The two encode sets are evaluated by the compiler; the resulting masks are compared bit by bit with the unreserved set
(with and without '/'). The value a filter returns must carry its own set; displaying it must write the value once
through the encoding writer with that set, and every method of that writer must encode its whole argument with it."""
from rules import *
import e02_lib

KEEP = set(b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-~")


def run(C):
    R = C.R
    R.floor = 4
    tys = set()
    for name, keep in (("urlencode", KEEP | {ord("/")}), ("urlencode_strict", KEEP)):
        R.section(name, filt, C, name, keep, tys)
    for ty in tys:
        R.section("display", display, C, ty)


def filt(C, name, keep, tys):
    R = C.R
    b = C.body("askama", "filters::" + name)
    E = C.engine("askama")
    for st, rv in C.run(E, b):
        if not is_agg(rv, "Ok"):
            raise Undecided("returns %s" % pp(rv)[:80])
        v = rv[3][0][1]
        masks = [x for x in walk(v) if is_agg(x) and x[1].endswith("AsciiSet")]
        if len(masks) != 1:
            raise Undecided("encode set %s" % pp(v)[:80])
        try:
            words = ev(masks[0], {})[2][0]
        except NoVal:
            words = None
        arr = masks[0][3][0][1]
        words = [x[1] for x in arr[1]]
        enc = {i for i in range(128) if words[i // 32] >> (i % 32) & 1}
        want = set(range(128)) - keep
        R.check(enc == want, "set:" + name, "%s encodes exactly the other ASCII bytes; differs on %s" % (name, [chr(x) for x in sorted(enc ^ want)]), b.where())
        R.check(("param", "p0") in [x for _, x in v[3]], "value:" + name, "%s wraps its argument" % name, b.where())
        tys.add((v[1], [n for n, x in v[3] if x == ("param", "p0")][0], [n for n, x in v[3] if x == masks[0]][0]))


def display(C, ty):
    R = C.R
    t, vf, sf = ty
    b = C.body("askama", "<%s as std::fmt::Display>::fmt" % t)
    E = C.engine("askama", record=lambda p: True)
    V, S = ("fld", ("param", "p0"), vf), ("fld", ("param", "p0"), sf)
    ws = set()
    for st, rv in C.run(E, b):
        w = [written(e) for e in st.ev if e[0] == "call"]
        if len(w) != len(st.ev) or any(x is None for x in w):
            raise Undecided("calls %s" % [e[1] for e in st.ev])
        good = len(w) == 1 and w[0][1] == [("v", V, "")]
        R.check(good, "display-once", "the value is written once; writes %s" % [pp(x[1]) for x in w], b.where())
        if good:
            x = w[0][0]
            good = is_agg(x) and ("param", "p1") in [base(y) for _, y in x[3]] and S in [y for _, y in x[3]]
            R.check(good, "display-encoder", "the value goes through the encoding writer with the filter's set; goes to %s" % pp(x)[:80], b.where())
            if good:
                ws.add((x, [n for n, y in x[3] if y == S][0]))
    for w, f in ws:
        e02_lib.escaping_writer(C, "askama", w, "url-writer", sink=lambda e: written(e) is not None and encoded(e, f), chunks=lambda x: encodes(x, f))


def encoded(e, f):
    p = written(e)[1]
    return len(p) == 1 and p[0][0] == "v" and p[0][2] == "" and p[0][1][0] == "call" and p[0][1][1].endswith("percent_encode") \
        and p[0][1][2][1] == ("fld", ("param", "p0"), f)


def encodes(x, f):
    while x[0] == "iter" and not x[2]:
        x = x[1]
    return x[0] == "call" and x[1].endswith("percent_encode") and x[2] == (("param", "p1"), ("fld", ("param", "p0"), f))
