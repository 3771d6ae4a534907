"""join stores its two arguments; displaying takes them once. The loop over the items is summarised as one arbitrary
iteration and stepped abstractly (the first positions with loop variables from their initial value, then the positions
around every constant in its conditions and every integer width): the
first item is written alone, every further one as separator and item, each once and whole, and nothing is written
before, after or without an item."""
from rules import *


def run(C):
    R = C.R
    R.floor = 4
    b = C.body("askama", "filters::join")
    E = C.engine("askama")
    for st, rv in C.run(E, b):
        v = rv[3][0][1] if is_agg(rv, "Ok") else None
        if not is_agg(v):
            raise Undecided("join returns %s" % pp(rv)[:80])
        inner = v[3][0][1]
        R.section("display", display, C, v)


def access(t, acc, target):
    """Access path (field names) of target inside the constructed term t."""
    if t == target:
        return acc
    if is_agg(t):
        for n, x in t[3]:
            r = access(x, acc + (n,), target)
            if r is not None:
                return r
    if t[0] == "call" and t[2]:
        return access(t[2][0], acc, target)
    return None


def strip(t):
    """Path of a value read out of self, through take()/unwrapping: field names only."""
    acc = ()
    while True:
        if t[0] == "fld":
            acc, t = (t[2],) + acc, t[1]
        elif t[0] == "as":
            t = t[1]
        elif t[0] == "call" and t[1].split("::")[-1] in ("take", "replace", "clone", "into_iter") and t[2]:
            t = t[2][0]
        elif t[0] == "mut":
            t = t[1]
        else:
            return t, acc


def display(C, v):
    R = C.R
    ai, asep = access(v, (), ("param", "p0")), access(v, (), ("param", "p1"))
    if ai is None or asep is None:
        raise Undecided("join does not store its arguments: %s" % pp(v)[:80])
    b = C.body("askama", "<%s as std::fmt::Display>::fmt" % v[1])
    E = C.engine("askama", record=lambda p: written((0, p, (None, ("str", "")))) is not None)
    res = C.run(E, b)

    def kind(p):
        if p[0] == "s":
            return ("lit", p[1])
        t = p[1]
        if p[0] == "v" and p[2] == "":
            if t[0] == "elem" and strip(t[1]) == (("param", "p0"), ai):
                return "item"
            r, a = strip(t)
            if r == ("param", "p0") and a == asep:
                return "sep"
        return ("other", pp(t)[:60] if p[0] == "v" else pp(p)[:60])

    done = set()
    for st, rv in res:
        its = {c[1] for c in st.conds if c[0] == "iter"}
        if not its:
            R.check(not st.ev, "empty", "nothing is written without items", b.where())
            continue
        if not any(c[0] == "iter" and c[2] == "end" for c in st.conds):
            continue  # left early: an error, see R01
        pre, lp, post = [], None, []
        for e in st.ev:
            if e[0] == "loop":
                if lp is not None:
                    raise Undecided("two loops")
                lp = e
            else:
                (pre if lp is None else post).extend(written(e)[1])
        if lp is None:
            if pre:
                # a path on which the first item was the only one
                R.check([kind(p) for p in pre] == ["item"] and any(c[0] == "iter" and c[2] == "next" for c in st.conds), "single",
                        "a single item is written alone; writes %s" % [kind(p) for p in pre], b.where())
            continue
        if repr((pre, lp, post)) in done:
            continue
        done.add(repr((pre, lp, post)))
        srcs = {c[1] for a in lp[2] for c in a[0] if c[0] == "iter"}
        R.check(all(strip(s) == (("param", "p0"), ai) for s in srcs), "source", "the loop runs over the whole input; is %s" % [pp(s)[:60] for s in srcs], b.where())
        odd = [c[3] for a in lp[2] for c in a[0] if c[0] == "iter" and len(c) > 3]
        R.check(not odd, "order", "all items in order; the iterator is modified by %s" % (odd[:1],), b.where())
        ix = ("ix", list(srcs)[0])
        k0 = [kind(p) for p in pre]
        if k0 not in ([], ["item"]):
            R.bad("before", "before the loop %s is written" % k0, b.where())
            continue
        if k0 and not any(c[0] == "iter" and c[2] == "next" for c in st.conds):
            raise Undecided("item before the loop")
        R.check(not post, "after", "nothing is written after the items; writes %s" % [kind(p) for p in post], b.where())
        env0 = {}
        for lv, init in lp[3]:
            try:
                env0[lv] = ev(init, {})
            except NoVal:
                pass
        n0 = 1 if k0 else 0
        envs = [env0]
        hist = []
        far = [i for i in samples(*[c for a in lp[2] for c in a[0]]) if i > 3]
        for i in list(range(n0, 4)) + far:
            nxt = []
            if i > 3:
                envs = [jump(e, hist[-1][0], hist[-1][1], i) for e in hist[-2][2]] if len(hist) > 1 else envs
            for env in envs:
                env = dict(env)
                env[ix] = i
                live = [a for a in lp[2] if all(evcond(c, env) is not False for c in a[0])]
                for a in live:
                    for c in a[0]:
                        if c[0] in ("t", "any") and evcond(c, env) is None:
                            raise Undecided("condition %s" % pp(c)[:100])
                    ks = [kind(p) for e in a[1] for p in written(e)[1]]
                    want = ["item"] if i == 0 else ["sep", "item"]
                    R.check(ks == want, "item:%d" % min(i, 2), "item number %d: writes %s" % (i, ks), b.where())
                    e2 = {}
                    for lv, x in a[3]:
                        try:
                            e2[lv] = ev(x, env)
                        except NoVal:
                            pass
                    nxt.append(e2)
            if not nxt:
                raise Undecided("no iteration")
            if i <= 3:
                hist.append((nxt[0], i + 1, envs))
                envs = nxt[:8]


def jump(e, last, at, i):
    """State before iteration i: loop variables that count go on counting, the others must have settled."""
    out = {}
    for lv, v in last.items():
        if e.get(lv) == v:
            out[lv] = v
        elif isinstance(v, int) and not isinstance(v, bool) and e.get(lv) == v - 1 or isinstance(v, int) and e.get(lv) == v - 2:
            out[lv] = v + (i - at)
        else:
            raise Undecided("loop variable")
    return out
