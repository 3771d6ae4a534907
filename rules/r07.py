"""The indent filter's paths are split by its size conditions, which are evaluated for widths and lengths around the
limit of 10000: beyond it the input itself is returned, below it the building loop is summarised as one arbitrary
iteration and evaluated for newline/other, last/not last position: the character is copied once, followed by exactly
width spaces after a newline that does not end the input, and by nothing otherwise."""
from rules import *

W, S = ("param", "p1"), ("param", "p0")
LEN = ("lenof", S)
LIMIT = 10000


def run(C):
    R = C.R
    R.floor = 5
    b = C.body("askama", "filters::indent")
    R.section("indent", indent, C, b)


def indent(C, b):
    R = C.R
    E = C.engine("askama", record=lambda p: True)
    res = C.run(E, b)
    at = [x for x in samples(*([c for st, _ in res for c in st.conds] + [("int", LIMIT)])) if x != LIMIT]
    for w, n, want in [(w, n, w > LIMIT or n > LIMIT) for w in at for n in at]:
        if n == 0:
            continue
        env = {W: w, LEN: n, ("empty", S): n == 0}
        live = [(st, rv) for st, rv in res if all(evcond(c, env) is not False for c in st.conds)]
        if not live:
            raise Undecided("no path for width %d, length %d" % (w, n))
        for st, rv in live:
            v = rv[3][0][1] if is_agg(rv, "Ok") else rv
            same = v == S or v == ("code", (("h", S, ""),))
            key = "limit:%d:%d" % (w, n)
            if want:
                R.check(same and not any(e[0] == "loop" for e in st.ev), key,
                        "width %d, length %d: the input is returned as it is; returns %s" % (w, n, pp(v)[:80]), b.where())
            elif w:
                if not same and v[0] != "code":
                    raise Undecided("returns %s" % pp(v)[:80])
                lids = [e[1] for e in st.ev if e[0] == "loop"]
                R.check(not same and v[0] == "code" and len(lids) == 1 and [t[:2] for t in v[1]] == [("star", lids[0])], key,
                        "width %d, length %d: what the loop built is returned; returns %s" % (w, n, pp(v)[:80]), b.where())
    loops = {}
    for st, rv in res:
        for e in st.ev:
            if e[0] == "loop":
                loops[e[1]] = e
    if len(loops) != 1:
        raise Undecided("%d loops" % len(loops))
    lp = list(loops.values())[0]
    src = {c[1] for a in lp[2] for c in a[0] if c[0] == "iter" and c[1][0] != "agg"}
    if src != {("call", "chars", (S,))}:
        raise Undecided("iterates over %s" % [pp(x) for x in src])
    src = src.pop()
    odd = [c[3] for a in lp[2] for c in a[0] if c[0] == "iter" and len(c) > 3]
    R.check(not odd, "order", "all characters in order; the iterator is modified by %s" % (odd[:1],), b.where())
    el, ix = ("elem", src), ("ix", src)
    at = [x for x in samples(*[c for a in lp[2] for c in a[0]]) if x < LIMIT]
    for c, i, n in [(c, i, n) for c in "\nx \r" for n in at for i in at if i < n]:
        env = {el: ord(c), ix: i, LEN: n, W: 3}
        live = [a for a in lp[2] if all(evcond(x, env) is not False for x in a[0])]
        if not live:
            raise Undecided("no iteration for %r at %d" % (c, i))
        for a in live:
            if len(a[2]) != 1:
                raise Undecided("what is appended")
            toks = a[2][0][1]
            sp = c == "\n" and i != n - 1
            good = len(toks) >= 1 and toks[0] in (("h", el, ""), ("s", c)) and (spaces(toks[1:], a[1]) if sp else len(toks) == 1)
            R.check(good, "char:%r:%s" % (c, "first" if not i else ("last" if i == n - 1 else "inner")), "%r at %d of %d: appends %s" % (c, i, n, [pp(t)[:60] for t in toks]), b.where())


def spaces(toks, evs):
    """Exactly width spaces."""
    if len(toks) != 1:
        return False
    t = toks[0]
    if t[0] == "h":
        x = t[1]
        return x[0] == "call" and x[1].split("::")[-1] == "repeat" and x[2] in ((("str", " "), W), (("char", " "), W)) and not t[2]
    if t[0] != "star":
        raise Undecided("appended text %s" % pp(t)[:60])
    for e in evs:
        if e[0] == "loop" and e[1] == t[1]:
            for a in e[2]:
                its = [c for c in a[0] if c[0] == "iter"]
                if len(a[0]) != 1 or len(its) != 1 or its[0][1][0] != "agg":
                    raise Undecided("inner loop")
                f = fields(its[0][1])
                if f.get("start") != ("int", 0) or f.get("end") != W or not its[0][1][1].endswith("ops::Range"):
                    return False
                if [d[1] for d in a[2]] != [(("s", " "),)]:
                    return False
            return True
    raise Undecided("inner loop")
