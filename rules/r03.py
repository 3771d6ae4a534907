"""new() wraps the whole iterator in an enumerating, peekable iterator. On every abstract path of next(): the underlying
iterator is advanced exactly once; None is returned exactly when it returned None; otherwise the item is passed on, the
index is its count, first is evaluated for indices around every constant in it and every integer width and must hold for 0 only, and last must be that a peek
after the advance finds nothing."""
from rules import *


def run(C):
    R = C.R
    R.floor = 7
    R.section("new", new, C)
    R.section("next", nxt, C)


def new(C):
    b = C.body("askama", "helpers::TemplateLoop::new")
    E = C.engine("askama")
    for st, rv in C.run(E, b):
        it = rv[3][0][1] if is_agg(rv) and rv[3] else None
        if it is None or it[0] != "iter":
            raise Undecided("new returns %s" % pp(rv)[:80])
        C.R.check(it == ("iter", ("param", "p0"), (("enumerate",),)), "new", "the whole iterator, enumerated; is %s" % pp(it)[:80], b.where())


def nxt(C):
    R = C.R
    b = C.body("askama", "<helpers::TemplateLoop as std::iter::Iterator>::next")
    E = C.engine("askama", record=lambda p: True)
    for st, rv in C.run(E, b):
        evs = [(e[1].split("::")[-1], e) for e in st.ev if e[0] == "call"]
        if len(evs) != len(st.ev):
            raise Undecided("loop in next")
        names = [n for n, _ in evs]
        if not set(names) <= {"next", "peek", "next_if", "is_some", "is_none", "size_hint", "len", "is_empty", "eq", "clone"}:
            raise Undecided("calls %s" % names)
        nx = [e for n, e in evs if n == "next"]
        R.check(len(nx) == 1 and base(nx[0][2][0])[:1] == ("fld",), "advance-once", "the iterator is advanced once; calls %s" % names, b.where())
        if len(nx) != 1:
            continue
        T = nx[0][5]
        state = [c[2] for c in st.conds if c[0] == "is" and c[1] == T]
        if state == ["None"]:
            R.check(is_agg(rv, "None"), "end", "the end is reported when the iterator ends; returns %s" % pp(rv)[:60], b.where())
            continue
        if state != ["Some"] or not is_agg(rv, "Some"):
            R.bad("item", "returns %s without looking at the iterator's answer" % pp(rv)[:80], b.where())
            continue
        pay = ("fld", ("as", T, "Some"), "0")
        idx, item = ("fld", pay, "0"), ("fld", pay, "1")
        out = rv[3][0][1]
        its, li = out[3][0][1], out[3][1][1]
        R.check(its == item, "item", "the item is passed on; is %s" % pp(its)[:60], b.where())
        f = fields(li)
        R.check(f.get("index") == idx, "index", "index is the count; is %s" % pp(f.get("index"))[:60], b.where())
        try:
            at = samples(f["first"])
            vals = [i for i in at if ev(f["first"], {idx: i})]
        except NoVal as e:
            raise Undecided("first: %s" % e)
        R.check(vals == [0], "first", "first holds for index 0 only; is %s, true for %s" % (pp(f["first"]), vals[:4]), b.where())
        peeks = [e for n, e in evs if n == "peek"]
        after = [e for e in peeks if names.index("peek") > names.index("next")]
        last = f["last"]
        neg = False
        while last[0] == "not":
            neg, last = not neg, last[1]
        if last[0] == "bool":
            pc = [c for c in st.conds if c[0] == "is" and any(c[1] == e[5] for e in after)]
            R.check(bool(pc) and (pc[0][2] == "None") == last[1], "last", "last holds iff nothing follows", b.where())
        elif last[0] == "isv":
            R.check(any(last[1] == e[5] for e in after) and (last[2] == "None") != neg, "last",
                    "last holds iff a peek after the advance finds nothing; is %s" % pp(f["last"])[:90], b.where())
        else:
            R.bad("last", "last does not depend on what follows: %s" % pp(last)[:90], b.where())
