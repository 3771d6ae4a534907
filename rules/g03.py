"""Literal text is followed through every function that handles it. The parser's split of a literal into leading space,
content and trailing space: the three parts, as symbolic spans, must be adjacent and cover the text. visit_lit queues
the content itself. Where a queue is written, a literal's contribution is the text itself if the result is passed to
write_str, and a character-wise rewriting of it if it becomes part of a format string, which, decoded by the format
syntax, must give every character back; text written by Buffer::write is not altered; both go into the generated
program through the Debug representation, which the compiler reads back unchanged."""
from genlib import *


def run(C):
    R = C.R
    R.floor = 14
    for f in (split, visit, written_text, indentation, buffer):
        R.section(f.__name__, f, C)


# ------------------------------------------------------------------ spans
def lin(t):
    """Linear form {symbol: coefficient} of a length or offset."""
    k = t[0]
    if k == "int":
        return {1: t[1]} if t[1] else {}
    if k == "bin" and t[1] in ("Add", "Sub"):
        a, b = lin(t[2]), lin(t[3])
        s = 1 if t[1] == "Add" else -1
        for x, c in b.items():
            a[x] = a.get(x, 0) + s * c
        return {x: c for x, c in a.items() if c}
    if k == "lenof" or k == "call" and t[1].split("::")[-1] == "len" and len(t[2]) == 1:
        x = t[1] if k == "lenof" else t[2][0]
        s = span(x)
        return minus(s[2], s[1])
    return {("sym", t): 1}


def minus(a, b):
    out = dict(a)
    for x, c in b.items():
        out[x] = out.get(x, 0) - c
    return {x: c for x, c in out.items() if c}


def plus(a, b):
    out = dict(a)
    for x, c in b.items():
        out[x] = out.get(x, 0) + c
    return {x: c for x, c in out.items() if c}


TRIMS = {"trim_start_matches": (1, 0), "trim_end_matches": (0, 1), "trim_matches": (1, 1), "trim_start": (1, 0), "trim_end": (0, 1), "trim": (1, 1)}


def span(t):
    """(source, start, end) of a string slice, as linear forms."""
    k = t[0]
    if k == "range":
        s, a, b = span(t[1])
        lo, hi = lin(t[2]), lin(t[3])
        return s, plus(a, lo), plus(a, hi)
    if k == "call" and t[1].split("::")[-1] in TRIMS:
        s, a, b = span(t[2][0])
        l, r = TRIMS[t[1].split("::")[-1]]
        if l:
            a = {("trimmed-start", t): 1}
        if r:
            b = {("trimmed-end", t): 1}
        return s, a, b
    if k == "fld" and t[1][0] == "call" and t[1][1].split("::")[-1] == "split_at" and t[2] in ("0", "1"):
        s, a, b = span(t[1][2][0])
        m = plus(a, lin(t[1][2][1]))
        return (s, a, m) if t[2] == "0" else (s, m, b)
    if k in ("str",) and t[1] == "":
        return None, {}, {}
    return t, {}, {("len", t): 1}


def split(C):
    R = C.R
    b = C.body("askama_parser", "node::Lit::split_ws_parts")
    E = C.engine("askama_parser", max_depth=4)
    S = ("param", "p0")
    for st, rv in C.run(E, b):
        f = fields(rv)
        sp = [span(f[k]) for k in ("lws", "val", "rws")]
        if any(s[0] != S for s in sp):
            if any(mentions(f[k], ("agg",)) for k in f) or not all(mentions(f[k], S) or f[k] == ("str", "") for k in f):
                R.bad("split:source", "parts of the text: %s" % pp(rv)[:120], b.where())
                continue
            raise Undecided("parts %s" % pp(rv)[:120])
        R.check(sp[0][1] == {}, "split:start", "the first part starts at the start: %s" % pp(f["lws"])[:80], b.where())
        R.check(sp[0][2] == sp[1][1], "split:lws-val", "the content follows the leading space: %s, %s" % (pp(f["lws"])[:80], pp(f["val"])[:80]), b.where())
        R.check(sp[1][2] == sp[2][1], "split:val-rws", "the trailing space follows the content: %s" % pp(f["rws"])[:80], b.where())
        R.check(sp[2][2] == {("len", S): 1} or minus(sp[2][2], sp[2][1]) == minus({("len", S): 1}, sp[2][1]), "split:end", "the last part ends at the end: %s" % pp(f["rws"])[:80], b.where())


# ------------------------------------------------------------------ queueing
def visit(C):
    R = C.R
    b = C.body("askama_derive", GEN + "visit_lit")
    E = engine(C, drop=(GEN + "visit_lit",))
    val = ("fld", ("param", "p1"), "val")
    n = 0
    for st, rv in run_gen(C, E, b, bufs=()):
        q = [e[3] for e in st.ev if e[0] == "op" and e[1] == "queue"]
        emp = [c[2] for c in st.conds if c[0] == "t" and c[1] == ("empty", val)]
        v = [x for x in q if is_agg(x, "Lit") and mentions(x, val)]
        if emp == [True]:
            R.check(all(x == agg("generator::Writable", "Lit", [("0", val)]) for x in v), "visit:empty", "queued: %s" % [pp(x)[:60] for x in v], b.where())
            continue
        n += 1
        R.check(v == [agg("generator::Writable", "Lit", [("0", val)])] and q and q[-1] == v[0], "visit:content",
                "the content is queued as it is, once, after the leading space: %s" % [pp(x)[:60] for x in q], b.where())
    if not n:
        raise Undecided("no literal with content")


# ------------------------------------------------------------------ writing
def rewrite(t, lit, c):
    """The image of the character c of the literal under the term t, a composition of character-wise replacements."""
    if t == lit:
        return c
    if t[0] == "code":
        out = ""
        for x in t[1]:
            if x[0] == "s":
                out += x[1]
            elif x[0] == "h" and not x[2]:
                r = rewrite(x[1], lit, c)
                if r is None:
                    return None
                out += r
            else:
                raise Undecided("literal text %s" % pp(t)[:80])
        return out
    if t[0] == "call":
        f = t[1].split("::")[-1]
        if f in ("clone", "to_string", "to_owned", "into", "as_str", "into_owned", "deref", "from"):
            return rewrite(t[2][0], lit, c)
        if f == "replace" and len(t[2]) == 3 and t[2][1][0] in ("char", "str") and len(t[2][1][1]) == 1 and t[2][2][0] == "str":
            r = rewrite(t[2][0], lit, c)
            return None if r is None else r.replace(t[2][1][1], t[2][2][1])
        if f in ("trim", "trim_end", "trim_start", "to_lowercase", "to_uppercase", "trim_matches", "trim_start_matches", "trim_end_matches") or f.startswith("trim") or f == "replacen":
            return None
    raise Undecided("literal text %s" % pp(t)[:100])


def decode(s):
    """What a format string without arguments stands for."""
    out, i = "", 0
    while i < len(s):
        if s[i] in "{}":
            if s[i:i + 2] not in ("{{", "}}"):
                return None
            i += 1
        out += s[i]
        i += 1
    return out


def written_text(C):
    R = C.R
    b, paths = queue_writes(C)
    seen = set()
    for q in paths:
        seen.add(q.fmt)
        if not q.holes:
            R.bad("written:debug", "the text is put between quotes as it is: %s" % q.text[:100], b.where())
            continue
        R.check(q.holes[0][2].startswith("?"), "written:debug", "the text enters the program as a string literal: %s" % pp(q.holes[0])[:80], b.where())
        fb = q.buf(0)
        for kind, conds, out, ops, upd in q.items:
            if kind != "Lit":
                continue
            lit = ("fld", ("as", q.el, "Lit"), "0")
            toks = out.get(fb, ())
            if set(out) - {fb}:
                R.bad("written:elsewhere", "literal text also goes to %s" % sorted(set(out) - {fb}), b.where())
            t = ("code", toks)
            key = "written:" + ("format" if q.fmt else "string")
            bad = []
            for c in "{}\"'\\\n\t aé€%x":
                r = rewrite(t, lit, c)
                if r is not None and q.fmt:
                    r = decode(r)
                if r != c:
                    bad.append((c, r))
            R.check(not bad, key, "characters of a literal come out as themselves; not so: %s" % (bad[:3],), b.where())
    R.check(len(seen) == 2 or seen == {True}, "written:forms", "both forms of output are analysed", b.where())


def indentation(C):
    """The buffers that collect literal text do not indent it."""
    R = C.R
    b = C.body("askama_derive", GEN + "prepare_format")
    E = engine(C, drop=(GEN + "write_buf_writable",), max_depth=6)
    n = 0
    for st, rv in run_gen(C, E, b, bufs=()):
        lits = {e[2] for l in st.ev if l[0] == "loop" for e in flat_events((l,)) if e[0] == "op" and e[1] == "emit" and mentions(e[3], ("fld", ("as", ("elem", loop_src(l)), "Lit"), "0"))}
        for x in walk(rv):
            if is_agg(x) and x[1].endswith("generator::Buffer"):
                f = fields(x)
                st_ = [t for t in f["buf"][1] if t[0] == "star"] if f["buf"][0] == "code" else []
                if st_ and loc((st_[0][2], st_[0][3])) in lits:
                    n += 1
                    R.check(f["indent"] == ("int", 0), "indentation", "literal text is not indented: %s" % pp(f["indent"])[:40], b.where())
    if not n:
        raise Undecided("buffers of literal text")


def buffer(C):
    """Buffer::write appends its argument unchanged, after indentation at the start of a line of the generated code."""
    R = C.R
    for f in ("write", "writeln"):
        b = C.body("askama_derive", G + "Buffer::" + f)
        E = C.engine("askama_derive", max_depth=3, record=lambda p: p.split("::")[-1] in ("push", "push_str", "write_str", "insert_str", "extend", "truncate", "pop", "insert"))
        P = ("param", "p1")
        n = 0
        for st, rv in C.run(E, b):
            if not (is_agg(rv, "Ok") or rv == UNIT) or any(c == ("t", ("fld", ("param", "p0"), "discard"), True) for c in st.conds):
                continue
            wr = [e for e in flat_events(st.ev) if e[0] == "call"]
            args = [e[2][1] for e in st.ev if e[0] == "call"]
            inner = [e[2][1] for e in wr if e not in st.ev]
            n += 1
            empty = any(c[0] == "t" and c[1] == ("empty", P) and c[2] for c in st.conds)
            if args == [] and inner == [] and b.npath.endswith("write") and not empty:
                # the text is in a string value instead
                raise Undecided("Buffer::%s" % f)
            R.check(all(x in (("char", " "), ("str", " "), ("str", "    ")) for x in inner), "buffer:%s:indent" % f, "only spaces are put before a line: %s" % [pp(x)[:40] for x in inner][:3], b.where())
            rest = [x for x in args if x not in (("char", "\n"), ("str", "\n"))]
            R.check(rest == [P] or empty and not rest, "buffer:%s:text" % f, "the text is appended as it is, once: %s" % [pp(x)[:60] for x in args], b.where())
        if not n:
            raise Undecided("Buffer::%s" % f)
