"""For every name of a filter the run-time library exports, every name the generator compares filter names with, and
names that are neither, the paths of visit_filter that can be taken with that name are selected by evaluating their
conditions. Names exported by the run-time library must reach the path that calls the library's filter of exactly that
name (or the notation of the few filters that are not calls), all other names the path that calls filters::<name>, and
no path may call a library filter that does not exist. The operands must be the filter's arguments in order, the first
one being the filtered value: the parser puts it there for filter expressions and leaves a placeholder for filter
blocks, which the generator replaces, in the innermost filter of the chain only, by the block's content."""
from exprlib import *

NAME_ = ("fld", ("fld", ("node", "Filter"), "0"), "name")
A = r"N\.0\.arguments"
SPECIAL = {
    "as_ref": [r"&\(?⟦expr A\[0\]⟧\)?"],
    "deref": [r"\*\(?⟦expr A\[0\]⟧\)?"],
    "escape": [r"::askama::filters::(?:escape|e)\(⟦[^⟧]*escaper[^⟧]*⟧,⟦args range\(A,0,1\)⟧\)\?"],
    "safe": [r"::askama::filters::safe\(⟦p0\.input\.escaper⟧,⟦args A⟧\)\?"],
    "json": [r"::askama::filters::json\(⟦args A⟧\)\?"],
    "fmt": [r'::std::format!\("⟦A\[1\]@StrLit\.0⟧",⟦args range\(A,0,1\)⟧\)'],
    "format": [r'::std::format!\("⟦A\[0\]@StrLit\.0⟧"(,⟦args range\(A,1,lenof\(A\)\)⟧)?\)'],
    "join": None,
}
SPECIAL["e"] = SPECIAL["escape"]
SPECIAL["tojson"] = SPECIAL["json"]
ARITY = set(SPECIAL) - {"join"}


def run(C):
    R = C.R
    R.floor = 40
    R.section("names", names, C)
    R.section("parser", parser, C)
    R.section("block-parser", block_parser, C)
    R.section("block", block, C)


def shipped(C):
    cr = C.P.crates["askama"]
    out = set()
    for n, b in cr.by.items():
        mt = re.fullmatch(r"filters::(\w+)(?:::(\w+))?", n)
        if mt and b.kind == "Fn" and b.vis == "Public" and (mt.group(2) in (None, mt.group(1))):
            out.add(mt.group(2) or mt.group(1))
    if len(out) < 10:
        raise Missing("the filters of the run-time library")
    return out


def names(C):
    R = C.R
    b, d = expr_paths(C)
    ps = d.get("Filter", [])
    lib = shipped(C)
    consts = set()
    for p in ps:
        for c in p.conds:
            if mentions(c, NAME_):
                consts |= {x[1] for x in walk(c) if isinstance(x, tuple) and len(x) == 2 and x[0] == "str"}
    users = {"my_filter", "zzz", "Abs", "ab", "abss", "Escape", "json2"} | {n + "_" for n in lib} | {n[:-1] for n in lib if len(n) > 3}
    cr = C.P.crates["askama"]
    for nme in sorted(lib | consts | set(SPECIAL) | (users - lib)):
        mine = [p for p in ps if p.on(NAME_, nme)]
        oks = [p for p in mine if p.ok]
        key = "name:" + nme
        user = nme not in lib and nme not in SPECIAL
        if not R.check(bool(oks), key, "the filter is translated", b.where()):
            continue
        for p in mine:
            undet = [c for c in p.conds if unknown(c, nme)]
            if undet:
                raise Undecided("choice of the filter: %s" % pp(undet[0])[:120])
            t = re.sub(r"node\(\w+\)", "N", p.text)
            if p.err:
                R.check(nme in ARITY, key + ":rejected", "the filter is rejected: %s" % pp(p.rv)[:80], b.where())
                continue
            t1 = t.replace("⟦N.0.name⟧", nme)
            if nme in SPECIAL and SPECIAL[nme] is not None:
                ex = [x.replace("A", A) if "A" in x else x for x in SPECIAL[nme]]
                good = any(re.fullmatch(x, t1) for x in ex)
            elif nme == "join":
                n = [c[2] for c in p.conds if c[0] == "count"]
                if not n:
                    raise Undecided("arguments of join")
                if n[0] == 0:
                    continue
                ex = r"::askama::filters::join\(\(&\(?⟦expr A\[0\]⟧\)?\)\.into_iter\(\)".replace("A", A) + "".join(r",&\(?⟦expr N\.0\.arguments\[%d\]⟧\)?" % i for i in range(1, n[0])) + r"\)\?"
                good = not odd(p.conds) and re.fullmatch(ex, t1) is not None
            elif user:
                good = t1 == "filters::%s(⟦args N.0.arguments⟧)?" % nme
            else:
                good = t1 == "::askama::filters::%s(⟦args N.0.arguments⟧)?" % nme
            R.check(good, key, "%s filter: %s" % ("user's own" if user else "built-in", t1[:140]), b.where())
            mt = re.match(r"::askama::filters::(\w+)\(", t1)
            if mt:
                R.check(mt.group(1) in lib, key + ":exists", "the run-time library has no filter %s" % mt.group(1), b.where())


def unknown(c, nme):
    """Does the condition apply something to the name that cannot be evaluated here?"""
    if not mentions(c, NAME_) or evcond(c, {NAME_: nme}) is not None:
        return False
    if c[0] == "any":
        return any(unknown(x, nme) for alt in c[1] for x in alt)
    if c[0] == "t" and c[1][0] in ("and", "or", "not"):
        return any(unknown(("t", x, True), nme) for x in c[1][1:])
    return True


def pushed(E, fr, st, a, line):
    root, path = E.derefloc(st, a[0])
    v = E.read(st, root, path)
    if v[0] in ("vec", "arr"):
        return NotImplemented
    s = st.copy()
    E.write(s, root, path, ("call", "with_last", (v, a[1])))
    return [(s, UNIT)]


def insert0(E, fr, st, a, line):
    root, path = E.derefloc(st, a[0])
    v = E.read(st, root, path)
    if a[1] != ("int", 0) or v[0] in ("vec", "arr"):
        return NotImplemented
    s = st.copy()
    E.write(s, root, path, ("call", "with_first", (v, a[2])))
    return [(s, UNIT)]


def first_rest(t):
    """(first, rest) of an argument list built at parse time."""
    if t[0] == "call" and t[1] == "with_first":
        return t[2][1], t[2][0]
    if t[0] == "call" and t[1] == "with_last":
        return ("fld", t[2][0], "0"), t
    if t[0] == "vec" and t[1] and t[1][0][0] != "star":
        return t[1][0], ("vec", t[1][1:])
    return None


def is_given(rest, el):
    """The rest are the arguments given with this filter, or there are none."""
    return rest == ("vec", ()) or rest == ("arr", ()) or rest in (("fld", ("as", ("fld", el, "1"), "Some"), "0"),)


def chain(C, b, res, what):
    """Loops that wrap filters around each other: each step makes the previous value the first argument."""
    R = C.R
    n = 0
    for st, rv in res:
        for e in st.ev:
            if e[0] != "loop":
                continue
            src = loop_src(e)
            el = ("elem", src)
            for a in e[2]:
                if any(len(c) > 3 for c in a[0] if c[0] == "iter"):
                    R.bad(what + ":order", "filters apply in order: %s" % pp([c for c in a[0] if c[0] == "iter"][0])[:80], b.where())
                fl = {}
                for lv, v in a[3]:
                    fl[lv] = v
                for lv, v in a[3]:
                    if is_agg(v, "Filter") and v[1].endswith("Expr"):
                        f = fields(fields(v)["0"])
                        prev = [lv]
                    elif isinstance(lv[2], tuple) and lv[2][1:] == (("f", "arguments"),):
                        base_ = lv[2][0]
                        star = ("vec", tuple(x for x in v[1] if x[0] == "star")) if v[0] == "vec" else lv
                        nm = [x for x in fl if isinstance(x[2], tuple) and x[2] == (base_, ("f", "name"))]
                        if not nm:
                            raise Undecided("loop over filters")
                        f = {"name": fl[nm[0]], "arguments": v}
                        prev = [agg("expr::Expr", "Filter", [("0", agg("expr::Filter", "Filter", [("name", nm[0]), ("arguments", lv)]))])]
                    else:
                        continue
                    n += 1
                    R.check(f["name"] == ("fld", el, "0"), what + ":name", "the name of the filter: %s" % pp(f["name"])[-60:], b.where())
                    fr_ = first_rest(f["arguments"])
                    if fr_ is None:
                        raise Undecided("arguments of a filter: %s" % pp(f["arguments"])[-120:])
                    first, rest = fr_
                    R.check(same(first, prev[0]) or wrapped_lists(first, prev[0]), what + ":first", "the filtered value is the first argument: %s" % pp(first)[-120:], b.where())
                    if rest == ("vec", ()):
                        R.check(("is", ("fld", el, "1"), "None") in a[0], what + ":rest", "given arguments are kept", b.where())
                    else:
                        R.check(is_given(rest, el), what + ":rest", "the given arguments follow: %s" % pp(rest)[-100:], b.where())
    if not n:
        raise Undecided("no loop over the filters")


def wrapped_lists(first, prev):
    """The previous filter with its argument list in the form built so far by the loop: what it started with, followed
    by what the iterations added."""
    if not (is_agg(first, "Filter") and is_agg(prev, "Filter")):
        return False
    f, p = fields(fields(first)["0"]), fields(fields(prev)["0"])
    a = f["arguments"]
    return p["name"] == f["name"] and a[0] == "vec" and len(a[1]) >= 1 and a[1][-1][0] == "star" and all(x[0] == "star" or is_agg(x, "Generated") for x in a[1])


def same(a, b):
    return re.sub(r"\w+::", "", pp(a)) == re.sub(r"\w+::", "", pp(b))


def parser(C):
    b = C.body("askama_parser", "expr::Expr::filtered")
    E = C.engine("askama_parser", vocab={"std::vec::Vec::insert": insert0, "std::vec::Vec::push": pushed}, max_depth=3)
    res = C.run(E, b)
    oks = [(st, rv) for st, rv in res if is_agg(rv, "Ok")]
    chain(C, b, oks, "parser")
    for st, rv in oks:
        v = fields(fields(rv)["0"]).get("1") if is_agg(fields(rv)["0"]) else None
        lps = [e for e in st.ev if e[0] == "loop"]
        for e in lps:
            C.R.check(any(v == lv for lv, i in e[3]), "parser:result", "the outermost filter is the result: %s" % pp(v)[:100], b.where())


def block_parser(C):
    R = C.R
    b = C.body("askama_parser", "node::FilterBlock::parse")
    E = C.engine("askama_parser", vocab={"std::vec::Vec::insert": insert0, "std::vec::Vec::push": pushed}, max_depth=3)
    res = C.run(E, b)
    oks = [(st, rv) for st, rv in res if is_agg(rv, "Ok")]
    if not oks:
        raise Undecided("no successful path")
    chain(C, b, oks, "block-parser")
    for st, rv in oks:
        for e in st.ev:
            if e[0] != "loop":
                continue
            for lv, i in e[3]:
                if isinstance(lv[2], tuple) and lv[2][1:] == (("f", "arguments"),):
                    a = i
                elif is_agg(i) and i[1].endswith("expr::Filter"):
                    a = fields(i)["arguments"]
                elif is_agg(i, "Filter"):
                    a = fields(fields(i)["0"])["arguments"]
                else:
                    continue
                fr_ = first_rest(a)
                if fr_ is None:
                    R.bad("block-parser:placeholder", "the innermost filter has no place for the content of the block: %s" % pp(a)[-100:], b.where())
                    continue
                R.check(is_agg(fr_[0], "Generated"), "block-parser:placeholder", "the place of the content is the first argument of the innermost filter: %s" % pp(fr_[0])[:80], b.where())


def block(C):
    """The generator replaces the placeholder of the innermost filter of the chain."""
    R = C.R
    b = C.body("askama_derive", G + "insert_first_filter_argument")
    me = G + "insert_first_filter_argument"
    def rec(E, fr, st, a, line):
        root, path = E.derefloc(st, a[0])
        s = st.copy()
        v = E.norm(s, E.read(s, root, path))
        s.ev += (("op", "fill", v, E.norm(s, a[1])),)
        E.write(s, root, path, ("call", "filled", (v,)))
        return [(s, UNIT)]
    E = C.engine("askama_derive", vocab={me: rec, "std::vec::Vec::insert": insert0, "std::vec::Vec::push": pushed}, max_depth=3)
    n = 0
    for st, rv in C.run(E, b):
        f = [c for c in st.conds if c[0] == "is" and c[2] in ("Filter", "Generated", "Some", "None")]
        kinds = [c[2] for c in f]
        fills = [e for e in st.ev if e[0] == "op" and e[1] == "fill"]
        mem = [v for k, v in st.mem.items() if k[0] == "H"]
        if "Filter" in kinds:
            n += 1
            R.check(len(fills) == 1 and fills[0][3] == ("param", "p1") and fills[0][2][0] == "fld" and fills[0][2][2] == "arguments", "block:descend",
                    "the content goes to the inner filter: %s" % [pp(e[2])[:60] for e in fills], b.where())
        elif "Generated" in kinds:
            n += 1
            R.check(not fills and any(("param", "p1") in list(walk(v)) for v in mem) and not any(x[0] == "call" and x[1] == "with_first" for v in mem for x in walk(v) if isinstance(x, tuple) and len(x) > 2),
                    "block:replace", "the placeholder becomes the content", b.where())
    if n < 2:
        raise Undecided("insert_first_filter_argument")
