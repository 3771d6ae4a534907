"""The json filter's value is displayed by serialising the wrapped value, and nothing else, into a writer type; that
type's byte sink is summarised as one arbitrary iteration and evaluated for every byte value: &, <, > and ' must be
replaced by the JSON escape of exactly that byte, all others copied, in order. write() must process what it claims."""
import json
from rules import *
import spanloop


def run(C):
    R = C.R
    R.floor = 259
    b = C.body("askama", "filters::json::json") if "filters::json::json" in C.P.crates["askama"].by else C.body("askama", "filters::json")
    E = C.engine("askama")
    tys = set()
    for st, rv in C.run(E, b):
        v = rv[3][0][1] if is_agg(rv, "Ok") else None
        R.check(is_agg(v) and [x for _, x in v[3]] == [("param", "p0")], "json-wraps", "json wraps its argument; returns %s" % pp(rv)[:80], b.where())
        if is_agg(v):
            tys.add(v[1])
    for ty in tys:
        R.section("display", display, C, ty)


def display(C, ty):
    R = C.R
    b = C.body("askama", "<%s as std::fmt::Display>::fmt" % ty)
    E = C.engine("askama", record=lambda p: "from" not in p)
    ws = set()
    for st, rv in C.run(E, b):
        ev_ = [e for e in st.ev if e[0] == "call"]
        ser = [e for e in ev_ if "to_writer" in e[1]]
        good = len(ser) == 1 and all(written(e) is None for e in ev_ if e not in ser)
        if good:
            w, v = ser[0][2][0], ser[0][2][1]
            good = v == ("fld", ("param", "p0"), "0") and is_agg(w) and ("param", "p1") in [base(x) for _, x in w[3]]
            if good:
                ws.add(w[1])
        elif not ser:
            raise Undecided("no to_writer call")
        R.check(good, "json-serialise", "displaying serialises the wrapped value once into a writer around the formatter", b.where())
    for w in ws:
        wa = C.body("askama", "<%s as std::io::Write>::write_all" % w)
        R.section("bytes", spanloop.check, C, "askama", wa, ("param", "p1"), {ord(c) for c in "&<>'"}, decodes, "json")
        wb = C.P.crates["askama"].by.get("<%s as std::io::Write>::write" % w)
        R.section("write", write_rule, C, wb, w)
        for o in bodies_of(C, "askama", "<%s as std::io::Write>::" % w):
            m = o.npath.split("::")[-1]
            R.check(m in ("write", "write_all", "flush", "by_ref", "is_write_vectored"), "json-method:" + m, "io::Write method %s is known" % m, o.where())


def decodes(s, v):
    try:
        return json.loads('"%s"' % s) == chr(v) and not set(s) & set("&<>'")
    except ValueError:
        return False


def write_rule(C, b, w):
    def wa(E, fr, st, args, line):
        s = st.copy()
        s.ev += (("wa", E.norm(st, args[0]), E.norm(st, args[1])),)
        return [(s, ("call", "write_all", (E.norm(st, args[1]),), E.fresh()))]
    E = C.engine("askama", vocab={"std::io::Write::write_all": wa, "<%s as std::io::Write>::write_all" % w: wa}, record=lambda p: True)
    for st, rv in C.run(E, b):
        was = [e for e in st.ev if e[0] == "wa"]
        if not is_agg(rv, "Ok"):
            continue
        if not was:
            raise Undecided("write without write_all")
        good = len(was) == 1 and len(st.ev) == 1 and was[0][2] == ("param", "p1") and base(was[0][1]) == ("param", "p0") \
            and rv[3][0][1] == ("lenof", ("param", "p1"))
        C.R.check(good, "json-write", "write() processes all bytes and reports all of them; %s -> %s" % ([pp(e[2]) for e in was], pp(rv)), b.where())
