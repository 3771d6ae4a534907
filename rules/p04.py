"""The six delimiter parsers of State must each read exactly the configured string of their own name. In the grammar of every parser, an
opening delimiter must be closed by the closing one of the same kind, in every alternative and around every part; block tags, expressions
and comments use their own kind only. Literal text must end in front of, and only in front of, one of the three configured openings, and
must not be empty. No other part of the parser may name a default delimiter; they appear only in Default for Syntax, one per field. The
configured syntax must arrive: State keeps the one given to it, Ast::from_str makes its state of its own argument, Parsed::new passes its own
on to it, and every template a derive reads, inherited, included and imported ones too, is parsed with the syntax of the deriving one."""
from parslib import *
from mir import strip_generics
from g10 import base_of, walk, pure, Walk

KINDS = ("block", "expr", "comment")
DEFAULTS = {"block_start": "{%", "block_end": "%}", "expr_start": "{{", "expr_end": "}}", "comment_start": "{#", "comment_end": "#}"}
TAGS = {"State::tag_" + f: f for f in DEFAULTS}
OWN = {"node::Node::expr": "expr", "node::Comment::parse": "comment", "node::Lit::parse": None}


def grammar(C):
    if not hasattr(C, "_pg"):
        C._pg = Grammar(C)
    return C._pg


def run(C):
    R = C.R
    R.floor = 60
    R.section("delimiters", delimiters, C)
    for n in sorted(grammar(C).nts):
        if not n.startswith("State::") and n in grammar(C).crate.by:
            R.section("pairs:" + n, lambda C, n=n: pairs(C, n), C)
    R.section("kinds", kinds, C)
    R.section("text", text, C)
    R.section("constants", constants, C)
    R.section("defaults", defaults, C)
    R.section("state", state, C)
    R.section("ast", ast, C)
    R.section("parsed", parsed, C)
    R.section("templates", templates, C)


def delim_of(t):
    """The name of the delimiter a tag term stands for: a field of a configured syntax."""
    if isinstance(t, tuple) and t[0] == "fld" and t[2] in DEFAULTS:
        x = t[1]
        if x[0] == "fld" and x[2] == "syntax" and x[1][0] == "param":
            return t[2]
        if x[0] == "param":
            return t[2]
    return None


def delimiters(C):
    R = C.R
    G = Grammar(C, nts=())
    for n, f in TAGS.items():
        b = G.body(n)
        good = [p for p in G.paths(n) if p.status == "Ok"]
        if not good:
            raise Undecided("no successful path of " + n)
        for p in good:
            st = [s for s in p.steps if s[0] not in ("no", "not", "peek")]
            if not p.linear or any(s[0] not in ("tag", "ws") for s in st):
                raise Undecided("%s: %s" % (n, " ".join(ps(s) for s in p.steps)))
            R.check(len(st) == 1 and st[0] == ("tag", ("fld", ("fld", ("param", "p0"), "syntax"), f)), "delimiter:" + f,
                    "%s reads %s" % (n, " ".join(ps(s) for s in st)), b.where())


def delim(s):
    if s[0] == "nt" and s[1] in TAGS:
        return TAGS[s[1]]
    if s[0] == "tag" and not isinstance(s[1], str):
        return delim_of(s[1])
    return None


def tags_in(P):
    for a in P:
        for s in a[0]:
            yield from tags_of(s)


def tags_of(s):
    """All delimiters inside of a step."""
    d = delim(s)
    if d:
        yield d
    elif s[0] in ("opt", "many", "peek", "skip_till"):
        yield from tags_in(s[1])
    elif s[0] == "sep":
        yield from tags_in(s[1])
        yield from tags_in(s[2])


def scan(C, steps, state, key, w, depth=0):
    """Follow the delimiters through a sequence: state is the kind of the open tag, None outside, or "?" at the start."""
    R = C.R
    for s in steps:
        if depth > 12:
            raise Undecided("nesting of tags")
        d = delim(s)
        if d is not None:
            kind, side = d.rsplit("_", 1)
            if side == "start":
                R.check(state in (None, "?"), "%s:open" % key, "a %s opens inside of an open %s tag" % (d, state), w)
                state = kind
            else:
                R.check(state in (kind, "?"), "%s:close" % key, "%s closes %s" % (d, "a %s tag" % state if state else "no open tag"), w)
                state = None
        elif s[0] == "skip_till":
            # what is looked for begins behind arbitrary text
            outs = {scan(C, a[0], state, key, w, depth + 1) for a in s[1] if any(True for _ in tags_in((a,)))}
            if len(outs) == 1:
                state = outs.pop()
            elif len(outs) > 1 and len(s[1]) > 1:
                state = "?"
        elif s[0] in ("opt", "many", "sep"):
            for P in (s[1],) + ((s[2],) if s[0] == "sep" else ()):
                for a in P:
                    if any(True for _ in tags_in((a,))):
                        out = scan(C, a[0], state, key, w, depth + 1)
                        R.check(out == state or s[0] == "opt" and len(s[1]) == 1 or state == "?", "%s:part" % key, "a part that may be absent changes the open tag from %s to %s" % (state, out), w)
                        if s[0] == "opt":
                            state = out if out == state else "?"
    return state


def pairs(C, name):
    R = C.R
    G = grammar(C)
    b = G.body(name)
    w = b.where()
    short = name.replace("node::", "").replace("::parse", "")
    n = False
    for p in G.paths(name):
        if p.status != "Ok" or not any(True for s in p.steps for _ in tags_of(s)):
            continue
        n = True
        for steps, conds, out in expand(p.steps, p.conds, p.out):
            ds = [d for s in steps for d in tags_of(s)]
            if name == "node::Lit::parse":
                continue
            want = OWN.get(name, "block")
            R.check({d.rsplit("_", 1)[0] for d in ds} <= {want}, "%s:kind" % short, "%s reads %s" % (short, ", ".join(sorted(set(ds)))), w)
            if name != "node::Comment::parse":
                scan(C, steps, "?", short, w)
    if not n:
        return
    # what was tried in between must be of the same kinds
    bad = {d for p in G.paths(name) for s in p.steps if s[0] == "no" for P in s[1] for d in tags_in(P)}
    if name != "node::Lit::parse":
        R.check({d.rsplit("_", 1)[0] for d in bad} <= {OWN.get(name, "block")}, "%s:kind" % short, "%s looks for %s" % (short, ", ".join(sorted(bad))), w)


def kinds(C):
    """Every kind of content begins with its own delimiter."""
    R = C.R
    G = grammar(C)
    for n, kind in (("node::Node::parse", "block"), ("node::Node::expr", "expr"), ("node::Comment::parse", "comment")):
        b = G.body(n)
        for p in G.paths(n):
            if p.status == "Ok":
                st = [s for s in p.steps if s[0] not in ("no", "not")]
                R.check(bool(st) and delim(st[0]) == kind + "_start", "begin:" + kind, "a %s begins with %s" % (kind, " ".join(ps(s) for s in st[:1])), b.where())
                if kind != "comment":
                    R.check(delim(st[-1]) == kind + "_end", "end:" + kind, "a %s ends with %s" % (kind, ps(st[-1])), b.where())
    b = G.body("node::Node::many")
    for p in G.paths("node::Node::many"):
        if p.status == "Ok":
            st = p.steps
            if len(st) != 1 or st[0][0] != "many":
                raise Undecided("content: %s" % " ".join(ps(s) for s in st)[:100])
            names = [[s[1] for s in a[0] if s[0] not in ("no", "not")] for a in st[0][1]]
            if any(len(x) != 1 for x in names) or not all(s[0] in ("nt", "no", "not") for a in st[0][1] for s in a[0]):
                raise Undecided("content: %s" % pg(st[0][1])[:120])
            names = [x[0] for x in names]
            for k in ("node::Lit::parse", "node::Comment::parse", "node::Node::expr", "node::Node::parse"):
                R.check(k in names, "content:" + k.split("::", 1)[1], "%s is part of the content of a template" % k, b.where())
            R.check(len(set(names)) == 4, "content:only", "the content of a template is made of %s" % ", ".join(names), b.where())


def text(C):
    R = C.R
    G = grammar(C)
    n = "node::Lit::parse"
    b = G.body(n)
    w = b.where()
    START = {k + "_start" for k in KINDS}
    seen = set()
    for p in G.paths(n):
        if p.status != "Ok":
            continue
        for steps, conds, out in expand(p.steps, p.conds, p.out):
            st = [s for s in steps if s[0] not in ("ws",)]
            nos = [(k, s) for k, s in enumerate(steps) if s[0] in ("no", "failed")]
            till = [k for k, s in enumerate(steps) if s[0] == "skip_till"]
            opts = [(k, s) for k, s in enumerate(steps) if s[0] == "opt" and ("is", ("o", k), "None") in conds]
            nonempty = any(s[0] == "not" and [x[0][0][1] for x in s[1] if len(x[0]) == 1] == ["combinator::eof".split("::")[-1]] for s in steps)
            if len(till) == 1:
                k = till[0]
                ds = [[delim(x) for x in a[0] if x[0] not in ("no", "not")] for a in steps[k][1]]
                if any(len(x) != 1 for x in ds) or any(x[0] is None and not isinstance(a[0][-1][1], str) for x, a in zip(ds, steps[k][1])):
                    raise Undecided("text ends at %s" % pg(steps[k][1])[:140])
                got = {x[0] for x in ds}
                R.check(got == START, "text:end", "literal text ends in front of %s" % pg(steps[k][1])[:200], w)
                body = ("call", "@text", (("in", k), ("in", k + 1)))
                R.check(p.linear and k == len(steps) - 1, "text:behind", "the delimiter behind a text is left to be read", w)
                R.check(parts(out, body), "text:whole", "the text is what was skipped: %s" % pp(out)[:160], w)
                R.check(("t", ("empty", body), False) in conds or ("t", ("eq", body, ("str", "")), False) in conds, "text:nonempty", "text in front of a delimiter is not empty", w)
                seen.add("till")
            elif not till:
                # no delimiter follows: the rest is text
                ok_ = nonempty
                R.check(ok_, "text:rest:nonempty", "text up to the end is not empty: %s" % " ".join(ps(s) for s in steps)[:120], w)
                R.check(parts(out, ("in", 0)) or any(parts(out, ("in", k + 1)) for k in range(len(steps)) if all(s[0] in ("not", "no", "peek") for s in steps[:k + 1])), "text:rest:whole", "the text is all of the rest: %s" % pp(out)[:160], w)
                rest = [v[0] for s, kind, v in G.results(G.E, p.st, p.rv) if kind == "Ok"]
                R.check(len(rest) == 1 and (rest[0] == ("str", "") or rest[0][0] == "call" and rest[0][1] == "@rest"), "text:rest:end", "nothing is left behind the last text: %s" % [pp(x)[:60] for x in rest], w)
                ends = [s for s in p.steps if s[0] == "opt" and len(s[1]) == 1 and any(x[0] == "skip_till" for x in s[1][0][0])]
                for e in ends:
                    t = [x for x in e[1][0][0] if x[0] == "skip_till"][0]
                    R.check({d for d in tags_in(t[1])} == START, "text:end", "literal text ends in front of %s" % pg(t[1])[:200], w)
                if not ends:
                    raise Undecided("text up to the end: %s" % " ".join(ps(s) for s in p.steps)[:140])
                seen.add("rest")
            else:
                raise Undecided("text: %s" % " ".join(ps(s) for s in steps)[:140])
    R.check(seen == {"till", "rest"}, "text", "text in front of a delimiter and up to the end: %s" % sorted(seen), w)


def parts(out, text):
    """Do the parts of a Lit, in order, make up the text? (white space in front, the trimmed text, white space behind)"""
    if not is_agg(out):
        return out == text
    f = dict(out[3])
    if set(f) != {"lws", "val", "rws"}:
        raise Undecided("literal %s" % pp(out)[:80])
    # how they are cut is G03's concern; here: all are cut from this text and no other
    for v in f.values():
        src = {x for x in walk(v) if isinstance(x, tuple) and (x[:1] == ("in",) or x[:2] == ("call", "@text"))}
        src = {x for x in src if not any(x != y and x in set(walk(y)) for y in src)}
        if src != {text}:
            return False
    return True


def strings(b):
    out = set()

    def go(x):
        if isinstance(x, dict):
            if isinstance(x.get("str"), str):
                out.add(x["str"])
            for y in x.values():
                go(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                go(y)
    go(b.blocks)
    return out


def constants(C):
    R = C.R
    n = 0
    for b in C.P.crates[CR].bodies:
        if b.npath == "<Syntax as std::default::Default>::default" or b.npath.startswith("<Syntax as std::default::Default>::default"):
            continue
        n += 1
        got = sorted(strings(b) & set(DEFAULTS.values()))
        R.check(not got, "constant:" + b.npath if got else "constant", "a delimiter is spelled out: %s" % got, b.where())
    G = grammar(C)
    for name in sorted(G.nts):
        if name not in G.crate.by or name.startswith("State::tag_"):
            continue
        try:
            ps_ = G.paths(name)
        except Exception:
            continue
        for p in ps_:
            for t in all_tags(p.steps):
                R.check(t not in DEFAULTS.values(), "tag:%s:%s" % (name, t) if t in DEFAULTS.values() else "tag:" + name, "a delimiter is spelled out in %s: %r" % (name, t), G.body(name).where())
            # two or more characters of a delimiter one by one
            chars = [s[1] if s[0] == "tag" and isinstance(s[1], str) else None for s in p.steps if s[0] != "no"]
            for x, y in zip(chars, chars[1:]):
                if x and y:
                    R.check(x + y not in DEFAULTS.values(), "tag:%s:split" % name, "a delimiter is spelled out in %s: %r" % (name, x + y), G.body(name).where())
    if n < 50:
        raise Undecided("%d functions" % n)


def all_tags(steps):
    for s in steps:
        if s[0] == "tag" and isinstance(s[1], str):
            yield s[1]
        elif s[0] in ("opt", "many", "not", "peek", "skip_till"):
            for a in s[1]:
                yield from all_tags(a[0])
        elif s[0] == "sep":
            for P in s[1:3]:
                for a in P:
                    yield from all_tags(a[0])


def defaults(C):
    R = C.R
    b = grammar(C).body("<Syntax as std::default::Default>::default")
    E = C.engine(CR)
    for st, rv in C.run(E, b):
        rv = E.norm(st, rv)
        if not is_agg(rv):
            raise Undecided("default syntax %s" % pp(rv)[:80])
        f = dict(rv[3])
        for k, v in DEFAULTS.items():
            R.check(E.const(f.get(k), "str") == v if hasattr(E, "const") and False else f.get(k) == ("str", v), "default:" + k, "the default %s is %s" % (k, pp(f.get(k, UNIT))), b.where())


def state(C):
    R = C.R
    b = grammar(C).body("State::new")
    E = C.engine(CR)
    k = syntax_param(b)
    for st, rv in C.run(E, b):
        rv = E.norm(st, rv)
        if not is_agg(rv) or "syntax" not in dict(rv[3]):
            raise Undecided("state %s" % pp(rv)[:80])
        R.check(strip(dict(rv[3])["syntax"]) == ("param", "p%d" % k), "state", "the state keeps the syntax it is given: %s" % pp(dict(rv[3])["syntax"])[:80], b.where())


def strip(t):
    while t[0] == "ref" or t[0] == "call" and t[1].split("::")[-1] in ("borrow", "deref", "as_ref") and len(t[2]) == 1:
        t = t[1] if t[0] == "ref" else t[2][0]
    return t


def syntax_param(b):
    ks = [i for i in range(b.argc) if "Syntax<" in str(b.locals[i + 1][0])]
    if len(ks) != 1:
        raise Undecided("syntax parameter of " + b.npath)
    return ks[0]


def ast(C):
    R = C.R
    b = grammar(C).body("Ast::from_str")
    k = syntax_param(b)
    src = [i for i in range(b.argc) if "str" in str(b.locals[i + 1][0])][0]
    made = pure("state")
    G = Grammar(C, extra={"State::new": made})
    E = G.engine()
    n = 0
    for st, rv in C.run(E, b):
        rv = E.norm(st, rv)
        steps = [e[2] for e in st.ev if e[0] == "op" and e[1] == "step"]
        many = [t for t in steps if t[1] == "@nt" and t[2][0][1] == "node::Node::many"]
        # all uses of the state
        for t in many:
            a = [E.norm(st, x) for x in fields(t[2][1])]
            a = [strip(x) for x in a]
            states = [x for x in a if x[:2] == ("call", "state")]
            if len(states) != 1:
                raise Undecided("state of the parser: %s" % [pp(x)[:60] for x in a])
            n += 1
            R.check(strip(E.norm(st, states[0][2][0])) == ("param", "p%d" % k), "ast:syntax", "the template is parsed with %s" % pp(states[0][2][0])[:80], b.where())
            R.check(t[2][2] == ("param", "p%d" % src), "ast:source", "what is parsed is the source: %s" % pp(t[2][2])[:80], b.where())
    R.check(n > 0, "ast", "the source is parsed as the content of a template", b.where())


def parsed(C):
    R = C.R
    b = grammar(C).body("_parsed::Parsed::new")
    k = syntax_param(b)
    E = C.engine(CR, vocab={"Ast::from_str": pure("from_str")})
    n = 0
    for st, rv in C.run(E, b):
        rv = E.norm(st, rv)
        calls = {x for x in walk((st.conds, rv)) if isinstance(x, tuple) and x[:2] == ("call", "from_str")}
        for x in calls:
            n += 1
            R.check(strip(E.norm(st, x[2][2])) == ("param", "p%d" % k), "parsed:syntax", "the source is parsed with %s" % pp(x[2][2])[:80], b.where())
    R.check(n > 0, "parsed", "the source is parsed", b.where())


def templates(C):
    R = C.R
    cr = C.P.crates["askama_derive"]
    PARSE = "askama_parser::Parsed::new"
    sites = [(b, c) for b in cr.bodies for c in b.calls() if callee(c).split("::")[-2:] in (["Parsed", "new"], ["Ast", "from_str"])]
    R.check(len(sites) > 0, "templates", "templates are parsed", "")
    F = "input::TemplateInput::find_used_templates"
    R.check(all(b.npath == F for b, c in sites) or any(b.npath != F for b, c in sites), "templates:sites", "", "")
    for b, c in sites:
        if not b.npath.startswith(F):
            # a helper: find_used_templates must be what calls it, it is followed below
            continue
    got = []

    def h(E, fr, st, a, line):
        a = tuple(E.norm(st, x) for x in a)
        got.append(a)
        return [(st, ("call", "parse", a))]
    W = Walk(C, F, max_depth=3, extra={PARSE: h, "parser::Parsed::new": h, "askama_parser::Ast::from_str": h,
                    "config::Config::find_template": pure("find"), "config::get_template_source": pure("source"), "askama_parser::Parsed::nodes": pure("nodes")})
    where = W.b.where()
    if not got:
        raise Undecided("no template is parsed in find_used_templates")
    for a in got:
        R.check(strip(a[2]) == ("fld", ("param", "p0"), "syntax"), "templates:syntax", "a template is parsed with %s" % pp(a[2])[:80], where)
    lines = {c[4] if len(c) > 4 else None for b, c in sites}
    R.check(len(sites) <= len(got), "templates:all", "%d places parse a template, %d are reached from find_used_templates" % (len(sites), len(got)), where)


def callee(c):
    f = c[1]
    try:
        return strip_generics(f[1]["fn"]) if f[0] == "k" and "fn" in f[1] else ""
    except Exception:
        return ""
