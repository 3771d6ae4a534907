"""For every function of the run-time crates and on every abstract path: a call that returns a Result (with an inhabited
error type) must be answered for: the path either returns that result, or established that it is Ok, or returns an
error. A loop iteration may go on only after establishing Ok. Capacity hints (try_reserve) are exempt."""
from rules import *

EXEMPT = ("try_reserve", "try_reserve_exact")
SKIP_TRAITS = ("std::fmt::Debug", "std::clone::Clone")


def fallible(dty):
    if dty is None:
        return False
    d = dty.lstrip("&")
    if not d.startswith(("std::result::Result<", "core::result::Result<", "error::Result<")):
        return False
    return "Infallible" not in d


def run(C):
    R = C.R
    R.floor = 20
    for crate in ("askama_escape", "askama"):
        for b in C.P.crates[crate].bodies:
            if b.kind not in ("Fn", "AssocFn") or (b.trait or "").startswith(SKIP_TRAITS) or any(
                    " as %s>" % t in b.npath for t in SKIP_TRAITS):
                continue
            R.section(crate + "::" + b.npath, one, C, crate, b)


def one(C, crate, b):
    E = C.engine(crate, record=lambda p: p.split("::")[-1] not in EXEMPT)
    n = 0
    for st, rv in C.run(E, b):
        n += scan(C, crate, b, st.ev, st.conds, rv, False)
    return n


def scan(C, crate, b, evs, conds, rv, inloop):
    n = 0
    facts = {(c[1], c[2]) for c in conds if c[0] == "is"}
    for c in conds:
        if c[0] == "any":
            # established on every merged alternative
            alts = [{(x[1], x[2]) for x in alt if x[0] == "is"} for alt in c[1]]
            facts |= set.intersection(*alts)
    for e in evs:
        if e[0] == "loop":
            for a in e[2]:
                scan(C, crate, b, a[1], a[0], None, True)
            continue
        if e[0] != "call" or not fallible(e[4]):
            continue
        T = e[5]
        n += 1
        key = "%s::%s:%s" % (crate, b.npath, e[1].split("::")[-1])
        if (T, "Ok") in facts:
            C.R.ok(key)
        elif (T, "Err") in facts:
            good = rv is not None and is_err(rv, T)
            C.R.check(good, key, "%s goes on after %s failed%s" % (b.npath, e[1], "" if rv is None else ", returning " + pp(rv)[:80]), b.where(e[3]))
        else:
            good = rv is not None and (rv == T or is_err(rv, T))
            C.R.check(good, key, "the result of %s is dropped in %s" % (e[1], b.npath), b.where(e[3]))
    return n


def is_err(rv, T):
    return is_agg(rv, "Err") or rv == T or rv[0] == "call" and rv[1].split("::")[-1] in ("map_err", "from", "into") and mentions(rv, T)
