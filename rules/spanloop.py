"""Decides escaping loops: copy the input piecewise, replacing special elements.

The loop is summarised as one arbitrary iteration. The summary is evaluated for every value of the element (partition
refinement of the element's domain; the loop itself is not run)."""
from rules import *


def write_kind(p):
    n = p.split("::")[-1]
    return n if n in ("write_str", "write_char", "write_fmt", "push_str", "push") else None


def subst(t, m):
    if t in m:
        return m[t]
    if isinstance(t, tuple):
        return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    return t


def normalise(lp, S):
    """A counting while loop over an index is the enumeration of S."""
    for src in {c[1] for a in lp[2] for c in a[0] if c[0] == "iter"}:
        if is_agg(src) and src[1].endswith("ops::Range") and fields(src) == {"start": ("int", 0), "end": ("lenof", S)}:
            # for index in 0..s.len()
            els = [(n, src) for n in ("elem", "inrange")]
            g = lambda t: subst(subst(subst(t, {("idx", S, el): ("elem", S) for el in els}), {el: ("ix", S) for el in els}), {src: S})
            return ("loop", lp[1], g(lp[2]), g(lp[3])), g
    for lv, v0 in lp[3]:
        if v0 != ("int", 0) or lv[0] != "lv":
            continue
        ups = {dict(a[3]).get(lv) for a in lp[2]}
        if not ups <= {("bin", "Add", lv, ("int", 1)), ("bin", "Add", ("int", 1), lv)}:
            continue
        for a in lp[2]:
            for c in a[0]:
                if c[0] == "t" and c[2] and c[1][0] == "bin" and c[1][1] == "Lt" and c[1][2] == lv and c[1][3] == ("lenof", S):
                    m = {lv: ("ix", S), ("idx", S, lv): ("elem", S)}
                    g = lambda t: subst(subst(t, {("idx", S, lv): ("elem", S)}), {lv: ("ix", S)})
                    alts = tuple((tuple(("iter", S, "next") if x == c else g(x) for x in b[0]),) + tuple(g(y) for y in b[1:]) for b in lp[2])
                    return ("loop", lp[1], alts, tuple(x for x in lp[3] if x[0] != lv)), g
    return lp, (lambda t: t)


def check(C, crate, b, S, special, valid, pre, argi=1):
    """special: set of element values; valid(text, value) decides whether the written text stands for the value."""
    R = C.R
    E = C.engine(crate, record=lambda p: write_kind(p) is not None)
    res = C.run(E, b)
    loops = {}
    for s, rv in res:
        for e in s.ev:
            if e[0] == "loop":
                loops[e[1]] = e
    if len(loops) != 1:
        raise Undecided("%d loops" % len(loops))
    lp, g = normalise(list(loops.values())[0], S)
    src = {c[1] for a in lp[2] for c in a[0] if c[0] == "iter"}
    if len(src) != 1:
        raise Undecided("iteration source")
    src = src.pop()
    if src not in (("call", "bytes", (S,)), ("call", "chars", (S,)), S):
        R.bad(pre + "-source", "the loop iterates over %s instead of the whole input" % pp(src), b.where())
        return
    odd = [c[3] for a in lp[2] for c in a[0] if c[0] == "iter" and len(c) > 3]
    R.check(not odd, pre + "-order", "every element is visited in order; the iterator is modified by %s" % (odd[:1],), b.where())
    bytewise = src[0] != "call" or src[1] == "bytes"
    elem, ix = ("elem", src), ("ix", src)
    spans = set()
    allev = list(flat_events(tuple(g(e) if e[0] == "call" else e for s, rv in res for e in s.ev if e[0] == "call") + (lp,)))
    for e in allev:
        if e[2][argi][0] == "range":
            spans |= {x for x in walk(e[2][argi][2:]) if isinstance(x, tuple) and x and x[0] == "lv"}
    init = dict(lp[3])
    dom = list(range(256)) if bytewise else list(range(0x250)) + [0x20AC, 0x1F600, 0x10FFFF]
    if len(spans) > 1:
        raise Undecided("several span variables")
    span = spans.pop() if spans else None
    if span is not None:
        i0 = init.get(span)
        if i0 is None:
            raise Undecided("span start")
        R.check(i0 == ("int", 0), pre + "-span-init", "the unwritten span starts at 0, is %s" % pp(i0), b.where())
    one = (("bin", "Add", ix, ("int", 1)), ("bin", "Add", ("int", 1), ix))
    for v in dom:
        env = {elem: v}
        live = []
        oob = False
        for a in lp[2]:
            okk, extra = True, []
            for c in a[0]:
                if c[0] == "iter":
                    continue
                try:
                    r = evcond(c, env)
                except NoVal:
                    oob, okk = True, False
                    break
                if r is False:
                    okk = False
                    break
                if r is None:
                    if c[0] == "is" and c[2] in ("Ok", "Continue") and not mentions(c[1], ("elem", src)) or c[0] == "is" and c[1][0] == "call" and c[2] == "Ok":
                        continue
                    extra.append(c)
            if okk and feasible(extra, S, src, span, v):
                live.append((a, extra))
        key = "%s-byte-%02x" % (pre, v)
        if oob:
            R.bad(key, "the table lookup is out of bounds for %r" % chr(v), b.where())
            continue
        if not live:
            R.bad(key, "no iteration outcome for %r" % chr(v), b.where())
            continue
        for a, extra in live:
            upd = dict(a[3])
            ws = []
            for e in a[1]:
                if e[0] != "call":
                    raise Undecided("event")
                ws.append((write_kind(e[1]), e[2][argi]))
            flushes = [x for k, x in ws if x[0] == "range"]
            rest = [(k, x) for k, x in ws if x[0] != "range"]
            what = "%r: writes %s, then the span starts at %s" % (
                chr(v), [show(x, env) for k, x in ws], pp(upd.get(span, ("str", "the same place")))[:40])
            if span is not None:
                if v in special:
                    skip_ok = any(span_empty(c, span, ix) for c in extra)
                    good = flushes == [("range", S, span, ix)] or (skip_ok and not flushes)
                    good = good and (not flushes or ws[0][1] == flushes[0])
                    good = good and len(rest) == 1 and is_ref(rest[0], env, v, valid)
                    good = good and upd.get(span) in one
                else:
                    good = not ws and upd.get(span, span) == span
            else:
                if v in special:
                    good = len(ws) == 1 and is_ref(ws[0], env, v, valid)
                else:
                    good = len(ws) == 1 and ws[0][1] == elem and not bytewise
            R.check(good, key, what, b.where())
    for s, rv in res:
        if not any(c[0] == "iter" and c[2] == "end" for c in s.conds) and not any(
                c[0] == "t" and not c[2] and g(c[1]) == ("bin", "Lt", ix, ("lenof", S)) for c in s.conds):
            continue
        tail, seen = [], False
        for e in s.ev:
            if e[0] == "loop":
                seen = True
            elif seen:
                tail.append(e)
            else:
                R.bad(pre + "-before-loop", "writes %s before the loop" % pp(e[2][argi])[:60], b.where())
        if not seen:
            raise Undecided("path without loop summary")
        if span is None:
            R.check(not tail, pre + "-tail", "nothing is written after the loop", b.where())
            continue
        skip = [c for c in s.conds if c[0] == "t" and mentions(c[1], span)]
        good = len(tail) == 1 and tail[0][2][argi] == ("range", S, span, ("lenof", S))
        if not tail and any(tail_empty(c, span, S) for c in skip):
            good = True
        R.check(good, pre + "-tail", "the rest of the input from the span start is written after the loop; writes %s" % [
            pp(e[2][argi])[:60] for e in tail], b.where())


def feasible(conds, S, src, span, v):
    """Do some position, length and span start satisfy the conditions that the element's value does not decide?"""
    if not conds:
        return True
    worst = False
    ix, elem = ("ix", src), ("elem", src)
    for i in (0, 1, 2, 3, 70, 5000):
        for more in (1, 2, 3, 80, 5000):
            for sp in {0, 1, i // 2, i - 1, i}:
                if not 0 <= sp <= i:
                    continue
                env = {ix: i, elem: v, ("lenof", S): i + more, ("empty", S): False, ("idx", S, ix): v}
                if span is not None:
                    env[span] = sp
                    env[("lenof", ("range", S, span, ix))] = i - sp
                    env[("empty", ("range", S, span, ix))] = i == sp
                rs = []
                for c in conds:
                    try:
                        rs.append(evcond(c, env))
                    except NoVal:
                        rs.append(None)
                if all(r is True for r in rs):
                    return True
                if False not in rs:
                    worst = True
    if worst:
        raise Undecided("condition %s" % "; ".join(pp(c)[:100] for c in conds))
    return False


def show(x, env):
    try:
        return repr(ev(x, env))
    except NoVal:
        return pp(x)[:60]


def is_ref(w, env, v, valid):
    k, x = w
    try:
        s = ev(x, env)
    except NoVal:
        if x[0] == "range" or mentions(x, ("param", "p1")):
            return False
        raise Undecided("replacement text %s" % pp(x)[:80])
    if isinstance(s, tuple) and s and s[0] == "bytes":
        s = bytes(s[1]).decode("latin1")
    return isinstance(s, str) and valid(s, v)


def span_empty(c, span, ix):
    """The condition holds only if the span up to this position is empty."""
    rs = [(i, n, evcond(c, {span: i, ix: n})) for n in range(5) for i in range(n + 1)]
    return any(r is True for _, _, r in rs) and all(r is False or r is True and i == n for i, n, r in rs)


def tail_empty(c, span, S):
    """The condition holds only if nothing is left behind the span start."""
    rs = [(i, n, evcond(c, {span: i, ("lenof", S): n})) for n in range(5) for i in range(n + 1)]
    return any(r is True for _, _, r in rs) and all(r is False or r is True and i == n for i, n, r in rs)