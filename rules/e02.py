"""Constructors decide which variant stands for safe. On every abstract path of MarkupDisplay's Display: a safe value is
written once, straight to the formatter; any other value is written once to the escaping writer built from the same
formatter and the value's own escaper. Every method of the escaping writer's Write impl must hand its whole argument to
Escaper::write_escaped and never touch the inner writer itself. No public function other than new_safe, mark_safe and
the safe filter may return a value in the safe state, except for passing on a value that was already safe."""
from rules import *
import e02_lib

ALLOWED = ("new_safe", "mark_safe", "safe")


def run(C):
    R = C.R
    R.floor = 8
    R.section("display", display, C)
    R.section("construct", construct, C)


def variant_of(C, name):
    b = C.body("askama_escape", "MarkupDisplay::" + name)
    E = C.engine("askama_escape")
    vs = set()
    for st, rv in C.run(E, b):
        for x in walk(rv):
            if is_agg(x) and x[1].endswith("DisplayValue"):
                vs.add((x[2], x[3][0][1]))
    return b, vs


def display(C):
    R = C.R
    bs, sv = variant_of(C, "new_safe")
    bu, uv = variant_of(C, "new_unsafe")
    if len(sv) != 1 or len(uv) != 1:
        raise Undecided("constructors")
    (S, sval), = sv
    (U, uval), = uv
    R.check(S != U, "unsafe-state", "new_unsafe builds a %s value, new_safe a %s one" % (U, S), bu.where())
    R.check(sval == ("param", "p0"), "new-safe-value", "new_safe wraps its argument", bs.where())
    R.check(uval == ("param", "p0"), "new-unsafe-value", "new_unsafe wraps its argument", bu.where())
    b = C.body("askama_escape", "<MarkupDisplay as std::fmt::Display>::fmt")
    E = C.engine("askama_escape", record=lambda p: True)
    writers = set()
    for st, rv in C.run(E, b):
        state = {c[2] for c in st.conds if c[0] == "is"}
        if S in state:
            want, via = S, ("param", "p1")
        else:
            want, via = U, None
        w = [written(e) for e in st.ev if e[0] == "call"]
        if any(x is None or x[1] is None for x in w) or len(w) != len(st.ev):
            raise Undecided("call %s" % [e[1] for e in st.ev])
        val = [p for x in w for p in x[1]]
        inner = val[0][1] if len(val) == 1 and val[0][0] == "v" else None
        R.check(inner is not None and inner[0] == "fld" and inner[1][0] == "as" and inner[1][2] == want and val[0][2] == "",
                "display-%s-once" % want.lower(), "a %s value is written once and nothing else is; writes %s" % (want, [pp(p) for p in val]), b.where())
        for x in w:
            if S in state:
                R.check(base(x[0]) == via, "safe-verbatim", "a safe value is written to the formatter itself; goes to %s" % pp(x[0]), b.where())
            else:
                esc = is_agg(x[0]) and x[0][2] is not None and x[0][1] != "tuple"
                f = [y for _, y in x[0][3]] if esc else []
                R.check(esc and ("param", "p1") in [base(y) for y in f] and any(y[0] == "fld" and y[2] == "escaper" for y in f),
                        "unsafe-through-escaper", "an unsafe value is written through a writer holding its own escaper; goes to %s" % pp(x[0])[:80], b.where())
                if esc:
                    writers.add(x[0])
    for w in writers:
        e02_lib.escaping_writer(C, "askama_escape", w, "escape-writer")


def construct(C):
    R = C.R
    n = 0
    for crate in ("askama_escape", "askama"):
        for b in C.P.crates[crate].bodies:
            if b.kind not in ("Fn", "AssocFn") or b.npath.split("::")[-1] in ALLOWED:
                continue
            if "MarkupDisplay" not in b.raw.get("ret", b.locals[0][0]):
                continue
            E = C.engine(crate)
            for st, rv in C.run(E, b):
                safe = [x for x in walk(E.norm(st, rv)) if is_agg(x, "Safe")]
                marked = [x for x in walk(E.norm(st, rv)) if isinstance(x, tuple) and x[:1] == ("call",) and str(x[1]).split("::")[-1] in ALLOWED]
                was = any(c[0] == "is" and c[2] == "Safe" for c in st.conds)
                n += 1
                R.check(not (safe or marked) or was, "never-safe:" + b.npath, "%s returns %s" % (b.npath, pp(rv)[:120]), b.where())
    b = C.body("askama", "filters::safe")
    E = C.engine("askama")
    for st, rv in C.run(E, b):
        R.check(rv[0] == "agg" and rv[2] == "Ok" and any(is_agg(x, "Safe") and x[3][0][1] == ("param", "p1") for x in walk(rv)),
                "safe-filter", "the safe filter marks its value safe", b.where())
    for nm in ("escape", "e"):
        b = C.body("askama", "filters::" + nm)
        for st, rv in C.run(E, b):
            R.check(any(is_agg(x, "Unsafe") and x[3][0][1] == ("param", "p1") for x in walk(rv)) and mentions(rv, ("param", "p0")),
                    "escape-filter:" + nm, "the %s filter wraps its value as unsafe with the given escaper" % nm, b.where())
