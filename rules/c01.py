"""The conversion of a configured syntax must accept exactly the delimiters that are usable: evaluated over delimiters of
every kind the conditions under which it returns a syntax must reject one shorter than two characters, one with any white
space and any operator in each of the six places, and equal or prefixing opening delimiters in each pair, and accept usable
ones; each delimiter must be the configured one of its name or, if unset, the default. Config::new must convert every
configured syntax, fail if that fails, register it under its name, fail on a name that is registered already, and fail if the
default syntax is not among the registered ones in the end."""
from conflib import *

FIELDS = ("block_start", "block_end", "expr_start", "expr_end", "comment_start", "comment_end")
DEFAULTS = ("{%", "%}", "{{", "}}", "{#", "#}")
OPS = ("||", "&&", "==", "!=", ">=", "<=", "<<", ">>", "..", "..=")
OPEN = ("block_start", "expr_start", "comment_start")
SPACES = (" ", "\t", "\n", "\r", "\x0b", "\x0c", "\x85", "\xa0", "\u2003", "\u2028", "\u3000")
USABLE = (("<%", "%>", "${", "}$", "<#", "#>"), ("[[%", "%]]", "((", "))", "/*", "*/"), ("{%", "%}", "{{", "}}", "{#", "#}"), ("?#", "#?", "?\u00e4\u00f6", "\u00f6\u00e4?", "<!--", "-->"), ("??", "??", "!!", "!!", "%%", "%%"), ("<%%", "%", "<$$", "$$$>", "<##", "##>")[:1] + ("%%>", "<$$", "$$$>", "<##", "##>"))


def run(C):
    R = C.R
    R.floor = 60
    R.section("usable", usable, C)
    R.section("register", register, C)


def usable(C):
    R = C.R
    c = C.P.crates["askama_derive"]
    names = [n for n in ("<config::RawSyntax as std::convert::TryInto>::try_into", "<askama_parser::Syntax as std::convert::TryFrom>::try_from", "<config::RawSyntax as std::convert::TryFrom>::try_from") if n in c.by]
    if not names:
        raise Missing("conversion of RawSyntax")
    b = C.body("askama_derive", names[0])
    where = b.where()
    E = C.engine("askama_derive", max_depth=5)
    SELF = ("param", "p0")
    oks = []
    for st, rv in C.run(E, b):
        if is_agg(rv, "Ok"):
            oks.append((st, fields(fields(rv)["0"])))
        elif not is_agg(rv, "Err"):
            raise Undecided("result of the conversion: %s" % pp(rv)[:80])
    # the delimiters of the result
    for st, f in oks:
        for n, d in zip(FIELDS, DEFAULTS):
            s = ("fld", SELF, n)
            v = {x[2] for x in st.conds if x[0] == "is" and x[1] == s}
            got = f.get(n)
            if v == {"Some"}:
                R.check(got == someof(s), "value:" + n, "the configured delimiter is used: %s" % pp(got)[:60], where)
            elif v == {"None"}:
                R.check(got == ("str", d), "default:" + n, "an unset delimiter is the default one: %s" % pp(got)[:60], where)
            else:
                R.check(got[0] == "call" and got[1].split("::")[-1].startswith("unwrap_or") and s in got[2], "value:" + n, "the configured delimiter is used: %s" % pp(got)[:60], where)

    def accepted(vals):
        env = {("fld", SELF, n): ("agg", "Some", (v,)) if v is not None else ("agg", "None", ()) for n, v in zip(FIELDS, vals)}
        return any(accept(st.conds, st.ev, env) for st, f in oks)
    base = USABLE[0]
    for u in USABLE:
        R.check(accepted(u), "usable:" + " ".join(u), "usable delimiters are accepted", where)
    R.check(accepted((None,) * 6), "usable:default", "the default delimiters are accepted", where)
    for i, n in enumerate(FIELDS):
        def at(v):
            return base[:i] + (v,) + base[i + 1:]
        R.check(accepted(at(None)), "usable:%s:unset" % n, "one delimiter may be unset", where)
        for v in ("", "x", "$", "|", "}"):
            R.check(not accepted(at(v)), "short:%s" % n, "%s: a delimiter must have at least two bytes: %r is accepted" % (n, v), where)
        for w in SPACES:
            for v in ("a" + w, w + "a", "a" + w + "b", w + w):
                R.check(not accepted(at(v)), "space:%s" % n, "%s: a delimiter may not contain white space: %r is accepted" % (n, v), where)
        for o in OPS:
            R.check(not accepted(at(o)), "operator:%s" % n, "%s: a delimiter may not be an operator: %r is accepted" % (n, o), where)
    for i, n in enumerate(OPEN):
        for m in OPEN:
            if m == n:
                continue
            for x, y in (("ab", "ab"), ("ab", "abc"), ("$$$", "$$"), ("{%-", "{%")):
                v = list(("(|", "|)", "[!", "!]", "/*", "*/"))
                v[FIELDS.index(n)], v[FIELDS.index(m)] = x, y
                R.check(not accepted(tuple(v)), "prefix:%s:%s" % (n, m), "no opening delimiter may be a prefix of another: %s %r and %s %r are accepted" % (n, x, m, y), where)
    # a default delimiter conflicts as well
    R.check(not accepted(("{{%", None, None, None, None, None)), "prefix:default", "an opening delimiter may not start with the default one of another kind", where)
    R.check(not accepted((None, None, None, None, "{%#", None)), "prefix:default", "an opening delimiter may not start with the default one of another kind", where)


def register(C):
    R = C.R
    b, ps = config_paths(C)
    where = b.where()
    raw = okof(("call", "toml", (("param", "p0"),)))
    SYN = ("fld", raw, "syntax")
    n = 0
    for conds, evs, rv, st in ps:
        have = ("is", SYN, "Some") in conds
        src = someof(SYN)
        el = ("elem", src)
        chk = {x for x in walk((conds, evs)) if isinstance(x, tuple) and x[:2] == ("call", "check")}
        for x in chk:
            if x != ("call", "check", (el,)):
                raise Undecided("what is converted: %s" % pp(x)[:80])
        if not is_agg(rv, "Ok"):
            continue
        f = fields(fields(rv)["0"])
        ds = f["default_syntax"]
        # known default
        known = [i for i, c in enumerate(conds) if contains_cond(c, ds) is True]
        const = ds[0] in ("static", "str") and const_of(C, ds) == "default"
        if not const:
            R.check(bool(known), "default:known", "an unknown default syntax is an error: %s" % pp(ds)[-60:], where)
        first = [e for e in evs if e[0] == "op" and e[1] == "insert"]
        good = [e for e in first if const_of(C, e[3]) == "default" if e[3][0] in ("static", "str", "const")]
        R.check(len(good) == 1 and is_agg(good[0][4], "Syntax") and tuple(x[1] for _, x in good[0][4][3]) == DEFAULTS, "builtin", "the default syntax is registered: %s" % [pp(e[4])[:80] for e in good], where)
        if not have:
            continue
        lps = [(i, e) for i, e in enumerate(evs) if e[0] == "loop" and loop_src(e) == src]
        R.check(len(lps) == 1 and not any(len(c) > 3 for c in conds if c[0] == "iter" and c[1] == src), "all", "all configured syntaxes are registered: %d loops" % len(lps), where)
        if known:
            ends = [i for i, c in enumerate(conds) if c[0] == "iter" and c[1] == src]
            R.check(bool(ends) and max(ends) < max(known), "default:after", "the default syntax is looked up after all have been registered", where)
        for i, lp in lps:
            for a in lp[2]:
                n += 1
                ins = [e for e in flat_events(a[1]) if e[0] == "op" and e[1] == "insert"]
                name = ("fld", el, "name")
                if not ins:
                    rest = [c for c in a[0] if c[0] != "iter"]
                    R.bad("all", "all configured syntaxes are registered, also with %s" % [pp(c)[-60:] for c in rest], where)
                    continue
                R.check(("is", ("call", "check", (el,)), "Ok") in a[0], "check", "only a usable syntax is registered", where)
                R.check(ins[0][3] == name, "name", "a syntax is registered under its name: %s" % pp(ins[0][3])[-60:], where)
                R.check(mentions(ins[0][4], ("call", "check", (el,))), "what", "what is registered is the syntax converted: %s" % pp(ins[0][4])[-60:], where)
                dup = any(contains_cond(c, name) is False or c[0] == "is" and c[2] == "None" and c[1][0] == "call" and c[1][1].split("::")[-1] == "insert" and c[1][2][1] == name for c in a[0])
                R.check(dup, "duplicate", "a name registered already is an error", where)
    R.check(n > 0, "register", "configured syntaxes are registered", where)


def contains_cond(c, key):
    """True/False if the condition says that a map has the key or not."""
    if c[0] == "t" and c[1][0] == "call" and c[1][1].split("::")[-1] == "contains_key" and c[1][2][1] == key:
        return c[2]
    if c[0] == "is" and c[1][0] == "call" and c[1][1].split("::")[-1] == "get" and c[1][2][1] == key:
        return c[2] == "Some"
    return None
