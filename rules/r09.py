"""The result of every text filter is computed symbolically over its paths. The conversions (case, line breaks, word count, numbers,
sizes, centring) must be exactly the documented composition of library functions of the whole input. trim's collector is judged as
a transducer of pieces: leading white space is removed only while nothing has been collected, pieces are otherwise appended as they
are, and the end is trimmed once at the end. title is run as a state machine over the classes of characters (white space, upper,
lower, other) in product with the reference machine. truncate's writer is evaluated for all orders of remaining length, piece
length and next character boundary: what it writes and the state it leaves must be those of the reference."""
import string
from rules import *

P0, P1 = ("param", "p0"), ("param", "p1")
SAME = {"to_string", "to_owned", "into", "from", "clone", "as_str", "into_string", "as_ref", "deref", "borrow"}
VOC = {"replace", "replacen", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "trim", "trim_start", "trim_end",
       "split_whitespace", "split_ascii_whitespace", "split", "lines", "chars", "count", "len", "abs", "to_f64", "to_isize", "new", "collect",
       "len_utf8", "len_utf16", "bytes", "split_terminator", "matches", "trim_matches", "to_f32", "to_i64", "to_i32", "to_usize", "signum", "neg", "repeat", "rev"}


def run(C):
    R = C.R
    R.floor = 30
    for n in SIMPLE:
        R.section(n, simple, C, n)
    for n in ("into_f64", "into_isize"):
        R.section(n, into, C, n)
    R.section("capitalize", capitalize, C)
    R.section("title", title, C)
    R.section("trim", trim, C)
    R.section("truncate", truncate, C)
    R.section("center", center, C)
    R.section("filesizeformat", sizes, C)


def last(f):
    return f.split("::")[-1]


def call(t, *names):
    return t[0] == "call" and last(t[1]) in names


def nf(t):
    """Normal form of a text or number term: conversions that keep the text are dropped, patterns are strings."""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "char":
        return ("str", t[1])
    if call(t, *SAME) and len(t[2]) == 1:
        return nf(t[2][0])
    if t[0] == "call":
        return ("call", last(t[1]), tuple(nf(x) for x in t[2]))
    if t[0] in ("code", "fmt"):
        ts = [x if x[0] == "s" else (x[0], nf(x[1])) + x[2:] if len(x) > 1 and isinstance(x[1], tuple) else x for x in t[1]]
        if len(ts) == 1 and ts[0][0] == "h" and ts[0][2] == "":
            return ts[0][1]
        return ("code", tuple(ts))
    return tuple(nf(x) if isinstance(x, tuple) else x for x in t)


def known(t):
    """Only whole-string library functions whose meaning is fixed, applied to the input."""
    for x in walk(t):
        if isinstance(x, tuple) and x and x[0] == "call" and last(x[1]) not in VOC:
            return False
        if isinstance(x, tuple) and x and x[0] in ("lv", "mut", "star", "opaque", "upd", "clo", "fn", "ite"):
            return False
    return True


def judge(R, key, got, want, what, where):
    if got == want:
        R.ok(key, what)
    elif known(got):
        R.bad(key, "%s; is %s" % (what, pp(got)[:160]), where)
    else:
        R.undecided(key, "%s: computed as %s" % (what, pp(got)[:120]))


def c(f, *a):
    return ("call", f, a)


def rep(x, a, b):
    return c("replace", x, ("str", a), ("str", b))


P = lambda x: ("code", (("s", "<p>"), ("h", x, ""), ("s", "</p>")))
SIMPLE = {
    "linebreaks": (P(rep(rep(P0, "\n\n", "</p><p>"), "\n", "<br/>")), "line breaks become <br/>, blank lines new paragraphs, all in one paragraph element"),
    "linebreaksbr": (rep(P0, "\n", "<br/>"), "every line break becomes <br/>"),
    "paragraphbreaks": (P(rep(rep(P0, "\n\n", "</p><p>"), "<p></p>", "")), "blank lines separate paragraphs, empty ones are removed"),
    "lower": (c("to_lowercase", P0), "the text in lower case"),
    "lowercase": (c("to_lowercase", P0), "the text in lower case"),
    "upper": (c("to_uppercase", P0), "the text in upper case"),
    "uppercase": (c("to_uppercase", P0), "the text in upper case"),
    "wordcount": (c("count", ("iter", c("split_whitespace", P0), ())), "the number of runs of characters that are not white space"),
    "abs": (c("abs", P0), "the absolute value"),
}


def paths(C, b, depth=4):
    E = C.engine("askama", max_depth=depth, record=lambda p: True)
    return E, C.run(E, b)


def simple(C, n):
    want, what = SIMPLE[n]
    b = C.body("askama", "filters::" + n)
    E, res = paths(C, b)
    for st, rv in res:
        v = E.norm(st, rv)
        if not is_agg(v, "Ok"):
            raise Undecided("returns %s" % pp(v)[:80])
        got = v[3][0][1]
        if n not in ("wordcount", "abs") and any(isinstance(x, tuple) and x[:1] == ("mut",) for x in walk(got)):
            got = ("code", tuple(x if x[0] == "s" else ("h", x[1], "") for x in unfold(got, st.ev)))
        got = nf(got)
        if st.conds and got != want and not known(got):
            raise Undecided("cases: %s" % pp(got)[:80])
        if st.conds and got != want:
            raise Undecided("cases")
        judge(C.R, n, got, want, what, b.where())


def into(C, n):
    b = C.body("askama", "filters::" + n)
    f = "to_" + n[5:]
    E, res = paths(C, b)
    for st, rv in res:
        v = E.norm(st, rv)
        ts = [x for x in st.conds if x[0] == "is" and x[1][0] == "call"]
        if len(ts) != 1 or len(st.conds) != 1 or not is_agg(v):
            raise Undecided("returns %s" % pp(v)[:80])
        t, arm = ts[0][1], ts[0][2]
        C.R.check(nf(t) == c(f, P0), n, "the number itself is cast by %s; is %s" % (f, pp(t)[:80]), b.where())
        if arm == "Some":
            C.R.check(v[2] == "Ok" and v[3][0][1] == ("fld", ("as", t, "Some"), "0"), n + ":some", "the cast number is returned; returns %s" % pp(v)[:80], b.where())
        else:
            C.R.check(v[2] == "Err", n + ":none", "a number that cannot be cast is an error; returns %s" % pp(v)[:80], b.where())


# ------------------------------------------------------------------ capitalize, title
def unfold(v, evs):
    """Tokens of a string built in place."""
    if v[0] == "mut":
        x, out = base(v), []
        for e in evs:
            t = e[5] if e[0] == "call" and len(e) > 5 else None
            if t is None or t[0] != "call" or len(t) < 4 or not e[2] or base(e[2][0]) != x:
                continue
            if last(e[1]) not in ("push_str", "push", "extend", "write_str", "write_char", "add_assign"):
                raise Undecided("changed by %s" % e[1])
            out += unfold(e[2][1], evs)
            if t[3] == v[2]:
                return unfold(x, evs) + out
        raise Undecided("built by %s" % pp(v)[:60])
    if v[0] == "collect" and v[2] == ():
        return unfold(v[1], evs)
    if v[0] == "iter" and v[2] == ():
        return unfold(v[1], evs)
    if v[0] == "code":
        return [x for y in v[1] for x in ([("s", y[1])] if y[0] == "s" else unfold(y[1], evs) if y[0] == "h" and y[2] == "" else [y])]
    if call(v, "with_capacity", "new") and (not v[2] or v[2][0][0] != "str"):
        return []
    v = nf(v)
    return [("s", v[1])] if v[0] == "str" else [("h", v)] if v[0] != "code" else [x for x in v[1]]


def capitalize(C):
    R = C.R
    b = C.body("askama", "filters::capitalize")
    E, res = paths(C, b)
    el = ("elem", c("chars", P0))
    want = [("h", c("to_uppercase", el)), ("h", c("to_lowercase", ("range", P0, c("len_utf8", el), ("lenof", P0))))]
    for st, rv in res:
        v = E.norm(st, rv)
        if not is_agg(v, "Ok"):
            raise Undecided("returns %s" % pp(v)[:80])
        conds = [(x[0], nf(x[1])) + tuple(x[2:]) for x in st.conds]
        empty = ("iter", c("chars", P0), "end") in conds or ("t", ("empty", P0), True) in conds
        some = ("iter", c("chars", P0), "next") in conds
        if len(conds) != 1 and not (empty or some):
            raise Undecided("cases %s" % [pp(x)[:60] for x in conds])
        got = [x if x[0] == "s" else ("h", nf(x[1])) for x in unfold(v[3][0][1], st.ev)]
        if empty:
            R.check(got in ([], [("h", P0)]), "capitalize:empty", "nothing becomes nothing; returns %s" % [pp(x)[:60] for x in got], b.where())
        elif got == want:
            R.ok("capitalize", "the first character in upper case, then the rest in lower case")
        elif all(x[0] == "s" or known(x[1]) and not any(isinstance(y, tuple) and y[:1] == ("iter",) for y in walk(x)) for x in got):
            R.bad("capitalize", "the first character in upper case, then the rest in lower case; is %s" % [pp(x)[:90] for x in got], b.where())
        else:
            raise Undecided("built as %s" % [pp(x)[:60] for x in got])


CLASSES = {"white": " \t\n\u00a0\u2003", "upper": "A\u00c4", "lower": "a\u00e4\u00df", "other": "1_-\u4e2d"}
PRED = {"is_whitespace": lambda x: x.isspace(), "is_uppercase": lambda x: x.isupper(), "is_lowercase": lambda x: x.islower(), "is_alphabetic": lambda x: x.isalpha(),
        "is_alphanumeric": lambda x: x.isalnum(), "is_numeric": lambda x: x.isnumeric(), "is_ascii_whitespace": lambda x: x in " \t\n\r\x0c",
        "is_ascii_uppercase": lambda x: x in string.ascii_uppercase, "is_ascii_lowercase": lambda x: x in string.ascii_lowercase,
        "is_ascii_alphabetic": lambda x: x in string.ascii_letters, "is_ascii_digit": lambda x: x in string.digits,
        "is_ascii_punctuation": lambda x: x in string.punctuation, "is_ascii_alphanumeric": lambda x: x in string.ascii_letters + string.digits, "is_ascii": str.isascii}


def hook(t, env):
    if call(t, *PRED) and len(t[2]) == 1:
        return PRED[last(t[1])](chr(ev(t[2][0], env)))
    raise NoVal(pp(t)[:80])


def title(C):
    R = C.R
    b = C.body("askama", "filters::title")
    E, res = paths(C, b)
    if len(res) != 1:
        raise Undecided("%d paths" % len(res))
    st, rv = res[0]
    v = E.norm(st, rv)
    lps = [e for e in st.ev if e[0] == "loop"]
    if not is_agg(v, "Ok") or len(lps) != 1 or len(st.conds) != 1:
        raise Undecided("returns %s" % pp(v)[:80])
    lp, out = lps[0], v[3][0][1]
    chars = [x[1] for a in lp[2] for x in a[0] if x[0] == "iter"]
    if {nf(x) for x in chars} != {c("chars", P0)} or any(len(x) > 3 for a in lp[2] for x in a[0] if x[0] == "iter"):
        raise Undecided("loop over %s" % [pp(x)[:60] for x in chars])
    el = ("elem", chars[0])
    inits = {l: i for l, i in lp[3]}
    outs = None
    if out[0] == "lv" and unfold(inits.get(out, ("code", ())), st.ev) == []:
        outs = out
    elif out[0] == "code" and len(out[1]) == 1 and out[1][0][:2] == ("star", lp[1]):
        pass
    else:
        raise Undecided("returns %s" % pp(out)[:80])
    s0 = {}
    for l, i in inits.items():
        if l != outs:
            try:
                s0[l] = ev(i, {})
            except NoVal:
                pass
    todo, seen = [(tuple(sorted(s0.items(), key=repr)), True)], set()
    while todo:
        state, start = todo.pop()
        if (state, start) in seen:
            continue
        seen.add((state, start))
        if len(seen) > 50:
            raise Undecided("states")
        for k, ch in [(k, ch) for k in CLASSES for ch in CLASSES[k]]:
            env = dict(state)
            env[el] = ord(ch)
            env["@hook"] = hook
            live = [a for a in lp[2] if all(x[0] == "iter" or evcond(x, env) is not False for x in a[0])]
            if not live:
                raise Undecided("no iteration for %r" % ch)
            for a in live:
                if any(x[0] != "iter" and evcond(x, env) is None for x in a[0]):
                    raise Undecided("condition %s" % [pp(x)[:60] for x in a[0]])
                up = dict(a[3])
                if outs is not None:
                    toks = unfold(up[outs], a[1]) if outs in up else [("h", outs)]
                    if toks[:1] != [("h", outs)]:
                        raise Undecided("output %s" % [pp(x)[:60] for x in toks])
                    toks = toks[1:]
                else:
                    toks = unfold(("code", a[2][0][1]), a[1]) if a[2] else []
                got = [x[1] if x[0] == "h" else x for x in toks]
                got = [el if x == nf(el) else x for x in got]
                U, L = c("to_uppercase", nf(el)), c("to_lowercase", nf(el))
                if k == "white":
                    okay = [[el]]
                elif start:
                    okay = [[U]] if k in ("lower", "other") else [[U], [el]]
                else:
                    okay = [[L]] if k in ("upper", "other") else [[L], [el]]
                if k == "other" and got == [el]:
                    raise Undecided("characters that are neither upper nor lower case")
                key = "title:%s:%s" % ("start" if start else "inside", k)
                what = "%s %s of a word becomes %s" % (repr(ch), "at the start" if start else "inside", [pp(x)[:50] for x in got])
                if got in okay:
                    R.ok(key, what)
                elif all(x[0] == "s" or x == el or known(x) for x in got):
                    R.bad(key, what, b.where())
                else:
                    raise Undecided(what)
                new = dict(state)
                for l, x in up.items():
                    if l in new:
                        try:
                            new[l] = ev(x, env)
                        except NoVal:
                            raise Undecided("state %s" % pp(x)[:60])
                todo.append((tuple(sorted(new.items(), key=repr)), k == "white"))


# ------------------------------------------------------------------ trim
def sides(v, evs):
    """(text, sides trimmed)."""
    if v[0] == "mut":
        for e in evs:
            t = e[5] if e[0] == "call" and len(e) > 5 else None
            if t and t[0] == "call" and len(t) > 3 and t[3] == v[2]:
                if last(e[1]) == "truncate" and e[2][0] == v[1] and e[2][1][0] == "lenof":
                    x = e[2][1][1]
                    if call(x, "trim_end") and x[2][0] == v[1]:
                        return sides(v[1], evs)[0], sides(v[1], evs)[1] | {"end"}
                    if call(x, "trim", "trim_start") and x[2][0] == v[1]:
                        raise Bad("cut at the length of %s" % pp(x)[:60])
                if last(e[1]) in ("write_fmt", "write_str", "push_str", "fmt", "write"):
                    return v, frozenset()
        raise Undecided("changed by %s" % pp(v)[:60])
    if call(v, *SAME) and len(v[2]) == 1:
        return sides(v[2][0], evs)
    if call(v, "trim", "trim_start", "trim_end"):
        x, s = sides(v[2][0], evs)
        return x, s | {"trim": {"start", "end"}, "trim_start": {"start"}, "trim_end": {"end"}}[last(v[1])]
    if call(v, "trim_left", "trim_right"):
        raise Undecided("deprecated trim")
    if v[0] == "code" and len(v[1]) == 1 and v[1][0][0] == "h" and v[1][0][2] == "":
        return sides(v[1][0][1], evs)
    return v, frozenset()


class Bad(Exception):
    pass


def trim(C):
    R = C.R
    b = C.body("askama", "filters::trim")
    E, res = paths(C, b)
    done = 0
    for st, rv in res:
        v = E.norm(st, rv)
        if is_agg(v, "Err"):
            continue
        if not is_agg(v, "Ok"):
            raise Undecided("returns %s" % pp(v)[:80])
        try:
            x, s = sides(v[3][0][1], st.ev)
        except Bad as e:
            R.bad("trim:end", str(e), b.where())
            continue
        done += 1
        if x == P0:
            R.check(s == {"start", "end"}, "trim", "both sides are trimmed; only %s" % sorted(s), b.where())
            continue
        while x[0] in ("fld", "mut"):
            x = x[1]
        if not is_agg(x):
            raise Undecided("text %s" % pp(x)[:80])
        ws = [e for e in st.ev if e[0] == "call" and written(e) and is_agg(base(written(e)[0])) and base(written(e)[0])[1] == x[1]]
        R.check([written(e)[1] for e in ws] == [[("v", P0, "")]], "trim:all", "the whole value is written once; writes %s" % [pp(e[2][1])[:60] for e in ws], b.where())
        R.check(all(y in (("code", ()), ("str", "")) for _, y in x[3]), "trim:init", "nothing is collected at first; is %s" % pp(x)[:60], b.where())
        start = piecewise(C, x[1], [n for n, _ in x[3]])
        R.check("end" in s, "trim:end", "the end is trimmed", b.where())
        R.check(start or "start" in s, "trim:start", "the start is trimmed", b.where())
    R.check(done, "trim:ok", "trim succeeds", b.where())


def piecewise(C, adt, flds):
    """Whether the collector removes leading white space; everything else must be appended as it is."""
    R = C.R
    cr = C.P.crates["askama"]
    own = [x for x in cr.by if x.startswith("<%s as std::fmt::Write>::" % adt) and "{" not in x]
    w = "<%s as std::fmt::Write>::write_str" % adt
    if own != [w] or len(flds) != 1:
        raise Undecided("collector with %s" % own)
    b = C.body("askama", w)
    E, res = paths(C, b)
    F = ("fld", P0, flds[0])
    starts = set()
    for text in ("", "x"):
        env = {F: text}
        live = [(st, rv) for st, rv in res if not any(evcond(x, env) is False for x in st.conds)]
        if not live:
            raise Undecided("no path")
        for st, rv in live:
            out = []
            for e in st.ev:
                if e[0] != "call":
                    raise Undecided("loop")
                y = written(e)
                if y is None:
                    continue
                if base(y[0]) != F:
                    raise Undecided("writes to %s" % pp(y[0])[:60])
                out += y[1]
            got = [p[1] for p in out if p != ("s", "")]
            extra = [x for x in st.conds if evcond(x, env) is None and not (x[0] == "is" and x[1][0] == "call" and last(x[1][1]) in WRITERS)]
            if extra and not got and any(x[0] == "t" and x[2] and x[1][0] == "empty" and x[1][1] in (P1, ("call", "std::str::trim_start", (P1,))) for x in extra):
                continue
            if extra and len(got) == 1 and got[0] == P1:
                starts.add("plain") if not text else None
                continue
            key = "trim:piece:" + ("first" if not text else "later")
            if len(got) == 1 and (got[0] == P1 or not text and call(got[0], "trim_start") and got[0][2] == (P1,)):
                R.ok(key, "appends %s" % pp(got[0]))
                if not text:
                    starts.add("plain" if got[0] == P1 else "trimmed")
            elif extra and all(x[0] == "is" and call(x[1], "strip_suffix", "strip_prefix") and x[2] == "Some" and got == [("fld", ("as", x[1], "Some"), "0")] for x in extra):
                R.bad(key, "a piece is appended as it is; appends %s" % [pp(x)[:60] for x in got], b.where())
            elif extra:
                raise Undecided("condition %s" % pp(extra[0])[:60])
            elif all(known(x) if isinstance(x, tuple) else True for x in got):
                R.bad(key, "a piece is appended as it is%s; appends %s" % ("" if text else ", without leading white space", [pp(x)[:60] for x in got]), b.where())
            else:
                raise Undecided("appends %s" % [pp(x)[:60] for x in got])
    return starts == {"trimmed"}


# ------------------------------------------------------------------ truncate
def wrapper(C, n, args):
    """(type, names of the fields that hold the arguments) of what a filter function returns."""
    b = C.body("askama", "filters::" + n)
    E, res = paths(C, b)
    if len(res) != 1:
        raise Undecided("%d paths" % len(res))
    v = E.norm(*res[0])
    v = v[3][0][1] if is_agg(v, "Ok") else v
    if not is_agg(v):
        raise Undecided("returns %s" % pp(v)[:80])
    by = {}
    for f, x in v[3]:
        by.setdefault(nf(x), f)
    C.R.check(all(a in by for a in args) and len(v[3]) == len(args), n + ":args", "the arguments are kept as given; is %s" % pp(v)[:100], b.where())
    if not all(a in by for a in args):
        raise Undecided("arguments of " + n)
    return v[1], [by[a] for a in args]


def truncate(C):
    R = C.R
    adt, (src, lim) = wrapper(C, "truncate", [P0, P1])
    b = C.body("askama", "<%s as std::fmt::Display>::fmt" % adt)
    E, res = paths(C, b)
    S, L = ("fld", P0, src), ("fld", P0, lim)
    wadt = None
    for st, rv in res:
        ws = [e for e in st.ev if e[0] == "call" and last(e[1]) in ("write", "write_fmt", "fmt", "write_str")]
        if not st.ev and is_agg(E.norm(st, rv), "Ok"):
            R.bad("truncate:source", "the value is written once; is not written if %s" % [pp(x)[:60] for x in st.conds], b.where())
            continue
        if len(ws) != 1 or len(st.ev) != 1 or not is_agg(base(ws[0][2][0])) or ws[0][2][1][0] != "fmt":
            raise Undecided("formats by %s" % [e[1] for e in st.ev])
        R.check(written(ws[0])[1] == [("v", S, "")], "truncate:source", "the value is written once; writes %s" % pp(ws[0][2][1])[:80], b.where())
        w = base(ws[0][2][0])
        wadt = w[1]
        d = [f for f, x in w[3] if x == ("agg", "std::option::Option", "Some", (("0", P1),))]
        r = [f for f, x in w[3] if x == L]
        if len(w[3]) != 2 or not d:
            raise Undecided("writer %s" % pp(w)[:80])
        R.check(bool(r), "truncate:limit", "the limit is the one given; writer %s" % pp(w)[:100], b.where())
        if not r:
            return
    cr = C.P.crates["askama"]
    own = sorted(last(x) for x in cr.by if x.startswith("<%s as std::fmt::Write>::" % wadt) and "{" not in x)
    if not set(own) <= {"write_str", "write_char", "write_fmt"}:
        raise Undecided("writer with %s" % own)
    D, RM = ("fld", P0, d[0]), ("fld", P0, r[0])
    for n in own:
        R.section("truncate:" + n, {"write_fmt": forward}.get(n, piece), C, "<%s as std::fmt::Write>::%s" % (wadt, n), D, RM, d[0], r[0])


def forward(C, fn, D, RM, df, rf):
    """write_fmt: goes on to the formatting machinery with the writer itself, unless nothing more is to be written."""
    b = C.body("askama", fn)
    E, res = paths(C, b)
    for st, rv in res:
        evs = [e for e in st.ev if e[0] == "call" and last(e[1]) in ("write", "write_fmt")]
        if len(evs) != len(st.ev) or len(evs) > 1:
            raise Undecided("calls %s" % [e[1] for e in st.ev])
        open_ = evcond_all(st.conds, {D: ("agg", "Some", (0,))})
        R = C.R
        if evs:
            e = evs[0]
            R.check(base(e[2][0]) == P0 and e[2][1] == P1, "truncate:write_fmt", "the arguments are formatted into the writer; calls %s" % pp(e[5])[:80], b.where())
        else:
            R.check(not open_, "truncate:write_fmt", "nothing is dropped while there is room", b.where())


def evcond_all(conds, env):
    return all(evcond(x, env) is not False for x in conds)


class Edge(Exception):
    pass


def piece(C, fn, D, RM, df, rf):
    R = C.R
    b = C.body("askama", fn)
    n = last(fn)
    E, res = paths(C, b)
    T = P1
    if n == "write_char":
        enc = {e[5] for st, _ in res for e in flat_events(st.ev) if e[0] == "call" and last(e[1]) in ("encode_utf8", "to_string") and e[2][0] == P1}
        T = enc | {P1}
    else:
        T = {P1}
    for dest in ("Some", "None"):
        for r in range(5):
            for size in range(5):
                for bd in range(r, max(r, size) + 1):
                    if r >= size and bd != r or r == 0 and bd != 0 or n == "write_char" and (size == 0 or r < size and bd not in ((0,) if r == 0 else (size,))):
                        continue
                    case(C, b, n, E, res, T, D, RM, df, rf, dest, r, size, bd)


def case(C, b, n, E, res, T, D, RM, df, rf, dest, r, size, bd):
    R = C.R
    env = {RM: r, D: ("agg", dest, (0,) if dest == "Some" else ())}
    for t in T:
        env[("lenof", t)] = size
        env[("empty", t)] = size == 0

    def hk(t, env):
        if call(t, "ceil_char_boundary") and t[2][0] in T and ev(t[2][1], env) == r:
            return bd
        if call(t, "checked_sub"):
            x = ev(t[2][0], env) - ev(t[2][1], env)
            return ("agg", "Some", (x,)) if x >= 0 else ("agg", "None", ())
        if call(t, "len_utf8") and t[2][0] == P1 and n == "write_char":
            return size
        raise NoVal(pp(t)[:80])

    env["@hook"] = hk
    key = "truncate:%s:%s" % (n, "closed" if dest == "None" else "fits" if r >= size else "boundary-at-end" if bd == size else "full" if not r else "cut")
    what = "limit %d, piece of %d, next boundary %d, %s" % (r, size, bd, "open" if dest == "Some" else "closed")
    live = []
    for st, rv in res:
        e2 = dict(env)
        for e in st.ev:
            if e[0] == "loop":
                rounding(R, b, e, e2, T, r, bd)
        for x in st.conds:
            if x[0] in ("is", "not") and call(x[1], "write_str", "write_char", "write_fmt"):
                e2[x[1]] = ("agg", "Ok", (0,))
            for y in walk(x):
                if isinstance(y, tuple) and len(y) > 2 and y[0] == "call" and last(y[1]) == "is_char_boundary" and y[2][0] in T:
                    try:
                        z = ev(y[2][1], e2)
                        if z in (0, size, bd) or r <= z < bd or z > size:
                            e2[y] = z <= size and z in (0, size, bd)
                    except NoVal:
                        pass
        if evcond_all(st.conds, e2):
            live.append((st, rv, e2))
    if not live:
        raise Undecided("no path for " + what)
    if dest == "None":
        want, end = [], ("None", None)
    elif r >= size:
        want, end = [("text", 0, size)], ("Some", r - size)
    elif bd == size:
        want, end = [("text", 0, size)], ("Some", 0)
    else:
        want, end = [("text", 0, bd), ("s", "...")], ("None", None)
    want = [x for x in want if x[0] == "s" or x[1] < x[2]]
    for st, rv, e2 in live:
        if any(x[0] != "iter" and evcond(x, e2) is None for x in st.conds):
            raise Undecided("condition of " + what)
        out = []
        for e in st.ev:
            y = written(e) if e[0] == "call" else None
            if y is None:
                continue
            if base(y[0]) != ("fld", ("as", D, "Some"), "0"):
                raise Undecided("writes to %s" % pp(y[0])[:60])
            for p in y[1]:
                out.append(part(p, T, e2, size))
        out = [x for x in out if x[0] == "s" and x[1] or x[0] == "text" and x[1] < x[2]]
        R.check(out == want, key, "%s: writes %s, to be %s" % (what, out, want), b.where())
        root = ("H", P0)
        nd = E.read(st, root, (("f", df),)) if root in st.mem else D
        nr = E.read(st, root, (("f", rf),)) if root in st.mem else RM
        if is_agg(nd):
            closed = nd[2]
        else:
            while nd[0] in ("upd", "mut"):
                nd = nd[1]
            if nd != D:
                raise Undecided("state %s" % pp(nd)[:60])
            closed = dest
        R.check(closed == end[0], key + ":state", "%s: then %s" % (what, "open" if closed == "Some" else "closed"), b.where())
        if end[0] == "Some" == closed:
            try:
                x = ev(nr, e2)
            except NoVal as e:
                raise Undecided("remaining: %s" % e)
            R.check(x == end[1], key + ":rest", "%s: then %s may follow, to be %s" % (what, x, end[1]), b.where())


def part(p, T, env, size):
    if p[0] == "s":
        return p
    t = p[1]
    if t in T or t == P1:
        return ("text", 0, size)
    if t[0] == "range" and t[1] in T:
        try:
            return ("text", ev(t[2], env), ev(t[3], env))
        except NoVal as e:
            raise Undecided("part: %s" % e)
    raise Undecided("writes %s" % pp(t)[:60])


def rounding(R, b, lp, env, T, r, bd):
    """A loop that looks for the next character boundary leaves its variable there."""
    for lv, init in lp[3]:
        try:
            x = ev(init, env)
        except NoVal:
            raise Undecided("loop from %s" % pp(init)[:60])
        if x != r:
            raise Undecided("loop from %s" % pp(init)[:60])
        for a in lp[2]:
            up = dict(a[3]).get(lv)
            if a[2] or not any(y[0] == "t" and call(y[1], "is_char_boundary") and y[1][2][0] in T and y[1][2][1] == lv and not y[2] for y in a[0]):
                raise Undecided("loop")
            if up == ("bin", "Sub", lv, ("int", 1)):
                R.bad("truncate:boundary", "a limit inside a character is rounded up; is rounded down", b.where())
            elif up not in (("bin", "Add", lv, ("int", 1)), ("bin", "Add", ("int", 1), lv)):
                raise Undecided("loop step %s" % pp(up)[:60])
        env[lv] = bd


# ------------------------------------------------------------------ center, filesizeformat
def center(C):
    R = C.R
    adt, (src, wd) = wrapper(C, "center", [P0, P1])
    b = C.body("askama", "<%s as std::fmt::Display>::fmt" % adt)
    E, res = paths(C, b)
    S, W = ("fld", P0, src), ("fld", P0, wd)
    for w in (0, 1, 5, 100, 9999, 10001, 65535, 65536, 1 << 40):
        live = [(st, rv) for st, rv in res if evcond_all(st.conds, {W: w})]
        if not live:
            raise Undecided("no path")
        for st, rv in live:
            ws = [written(e) for e in st.ev if e[0] == "call" and written(e)]
            if len(ws) != 1 or len(st.ev) != 1 or base(ws[0][0]) != P1:
                raise Undecided("formats by %s" % [e[1] for e in st.ev])
            sp = ":f48000020w$%s$" % pp(W)
            got = ws[0][1]
            if w < 10000:
                R.check(got == [("v", S, sp)], "center:pads", "width %d: the value, centred in spaces to the width given; writes %s" % (w, got), b.where())
            else:
                R.check(got == [("v", S, "")], "center:limit", "width %d: the value as it is; writes %s" % (w, got), b.where())


def sizes(C):
    R = C.R
    b = C.body("askama", "filters::filesizeformat")
    E, res = paths(C, b)
    v = E.norm(*res[0])
    v = v[3][0][1] if is_agg(v, "Ok") else v
    if len(res) != 1 or not is_agg(v) or len(v[3]) != 1:
        raise Undecided("returns %s" % pp(v)[:80])
    R.check(nf(v[3][0][1]) == c("to_f64", P0), "filesizeformat:value", "the number given; is %s" % pp(v)[:80], b.where())
    b = C.body("askama", "<%s as std::fmt::Display>::fmt" % v[1])
    E, res = paths(C, b)
    for st, rv in res:
        ws = [written(e) for e in st.ev if e[0] == "call" and written(e)]
        if len(ws) != 1 or len(ws[0][1]) != 1 or ws[0][1][0][0] != "v":
            raise Undecided("formats by %s" % [e[1] for e in st.ev])
        t = ws[0][1][0][1]
        if not call(t, "new") or len(t[2]) != 2 or not is_agg(t[2][1]):
            raise Undecided("formats %s" % pp(t)[:60])
        R.check(t[2][0] == ("fld", P0, v[3][0][0]), "filesizeformat:number", "the number is formatted; is %s" % pp(t[2][0])[:60], b.where())
        o = {k: x[2] if is_agg(x) else x[1] for k, x in t[2][1][3]}
        want = dict(base_unit="Byte", kilo="Decimal", units="Decimal", decimal_places=2, decimal_zeroes=0, fixed_at="None", long_units=False, space_after_value=True, suffix="")
        for k, x in want.items():
            R.check(o.get(k) == x, "filesizeformat:" + k, "%s is %s; is %s" % (k, x, o.get(k)), b.where())
