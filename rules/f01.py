"""Every path of get_template_source is evaluated, as a function of the content of the file, for all contents of up to five
characters of a set with line breaks, carriage returns, blanks, letters and wide characters: the text must be the content
without exactly one final line break if there is one, and nothing else may be changed; a file that cannot be read must give
an error. In find_used_templates, the text of an inline template must be the source of the attribute, evaluated in the same
way, unchanged. Parsed::new must parse exactly the text it is given, under the path and with the syntax it is given, and
Ast::from_str must succeed only if the nodes it returns were parsed from the beginning of the text to its end."""
from itertools import product
from rules import *
from p07 import Hook, Panics, evaluate, evaluate_cond, cut8, some, NONE_, T_, pattern
from g10 import Walk, pure, base_of, fields, FIND, SRC, PARSE, mentions
from conflib import okof

ALPHABET = "a\n\r \té"
TEXTS = ["".join(x) for n in range(5) for x in product(ALPHABET, repeat=n)] + ["a\n" * 9, "\n" * 7, "\ufeffa\n", "a\u2028", "{{ x }}\n\n\n", "a\x0b\n", "a\x85", "a\u3000\n"]


def run(C):
    R = C.R
    R.floor = 5
    R.section("file", file, C)
    R.section("inline", inline, C)
    R.section("parsed", parsed, C)
    R.section("whole", whole, C)


def mut(name):
    """A method that changes a string: the new value is a call of it, and so is the result."""
    def h(E, fr, st, a, line):
        root, path = E.derefloc(st, a[0])
        v = E.norm(st, E.read(st, root, path))
        s = st.copy()
        args = (v,) + tuple(E.norm(st, x) for x in a[1:])
        E.write(s, root, path, ("call", "@after_" + name, args))
        return [(s, ("call", "@of_" + name, args) if name in ("pop", "remove") else UNIT)]
    return h


STRING = {"std::string::String::" + n: mut(n) for n in ("pop", "truncate", "remove", "push", "push_str", "clear")}


class Text(Hook):
    def __call__(self, t, env):
        if t[0] == "collect":
            xs = evaluate(t[1], env)
            if isinstance(xs, list) and not t[2]:
                return xs
        if t[0] == "call" and len(t) >= 3 and t[2]:
            f = t[1].split("::")[-1]
            a = t[2]
            x = evaluate(a[0], env)
            if isinstance(x, str):
                y = lambda: evaluate(a[1], env)
                if f == "@after_pop":
                    return x[:-1]
                if f == "@of_pop":
                    return some(ord(x[-1])) if x else NONE_
                if f == "@after_truncate":
                    n = y()
                    return cut8(x, 0, n) if n <= len(x.encode("utf-8")) else x
                if f == "@after_push":
                    return x + chr(y())
                if f == "@after_push_str":
                    return x + y()
                if f == "@after_clear":
                    return ""
                if f == "trim":
                    return strip(x, True, True)
                if f in ("trim_end", "trim_right"):
                    return strip(x, False, True)
                if f in ("trim_start", "trim_left"):
                    return strip(x, True, False)
                if f in ("trim_end_matches", "trim_start_matches", "strip_suffix", "strip_prefix", "trim_matches"):
                    p = pattern(a[1], env)
                    if not isinstance(p, str) or not p:
                        raise NoVal(f)
                    ps = list(p) if type(p) is not str else [p]
                    if f == "strip_suffix":
                        q = [q for q in ps if x.endswith(q)]
                        return some(x[:len(x) - len(q[0])]) if q else NONE_
                    if f == "strip_prefix":
                        q = [q for q in ps if x.startswith(q)]
                        return some(x[len(q[0]):]) if q else NONE_
                    while f != "trim_start_matches" and any(x.endswith(q) for q in ps):
                        x = x[:-len(ps[0])]
                    while f != "trim_end_matches" and any(x.startswith(q) for q in ps):
                        x = x[len(ps[0]):]
                    return x
                if f == "replace":
                    p = pattern(a[1], env)
                    if isinstance(p, str) and p:
                        for q in (list(p) if type(p) is not str else [p]):
                            x = x.replace(q, evaluate(a[2], env))
                        return x
                if f in ("to_string", "to_owned", "into", "from", "clone", "into_string", "as_str", "deref", "as_ref", "borrow", "into_owned", "into_boxed_str", "leak"):
                    return x
                if f in ("last", "first"):
                    bs = x.encode("utf-8")
                    return some(bs[-1 if f == "last" else 0]) if bs else NONE_
                if f == "is_empty":
                    return not x
                if f == "len":
                    return len(x.encode("utf-8"))
                if f == "get":
                    r = a[1]
                    if r[0] == "agg":
                        d = dict(r[3])
                        n = len(x.encode("utf-8"))
                        try:
                            return some(cut8(x, evaluate(d["start"], env) if "start" in d else 0, evaluate(d["end"], env) if "end" in d else n))
                        except Panics:
                            return NONE_
            if f == "collect":
                xs = x if isinstance(x, list) else None
                if xs is not None:
                    return xs
            if isinstance(x, str) and f in ("as_bytes", "bytes"):
                return list(x.encode("utf-8"))
            if isinstance(x, list) and f in ("join", "concat") and all(isinstance(i, str) for i in x):
                return (evaluate(a[1], env) if f == "join" else "").join(x)
            if isinstance(x, tuple) and x[:1] == ("agg",):
                if f in ("unwrap_or", "unwrap_or_else", "unwrap_or_default"):
                    return x[2][0] if x[1] in ("Some", "Ok") else evaluate(a[1], env) if f == "unwrap_or" else super().__call__(t, env)
                if f in ("unwrap", "expect") and x[1] in ("Some", "Ok"):
                    return x[2][0]
        if t[0] == "elem" and ("@elem", t[1]) in env:
            return env["@elem", t[1]]
        return super().__call__(t, env)


def holds(c, env):
    """evaluate_cond for the first or last item of a sequence as well."""
    if c[0] == "iter" and c[2] in ("next", "end") and (len(c) < 4 or c[3] in ((), None)) or c[0] == "iter" and isinstance(c[2], str) and len(c) > 3:
        m = c[3] if len(c) > 3 else ()
        xs = evaluate(c[1], env)
        if isinstance(m, str):
            m = (m,)
        if any(x not in ("next_back", "rev") for x in m):
            raise NoVal("iterator %s" % (m,))
        if isinstance(xs, str) or xs is None:
            raise NoVal("iterator")
        xs = list(xs)
        if c[2] == "next" and xs:
            env["@elem", c[1]] = xs[-1] if m else xs[0]
            env[("elem", c[1])] = env["@elem", c[1]]
        return bool(xs) == (c[2] == "next")
    return evaluate_cond(c, env)


SPACES = "".join(map(chr, [9, 10, 11, 12, 13, 32, 0x85, 0xa0, 0x1680] + list(range(0x2000, 0x200b)) + [0x2028, 0x2029, 0x202f, 0x205f, 0x3000]))


def strip(s, a, b):
    return s.strip(SPACES) if a and b else s.lstrip(SPACES) if a else s.rstrip(SPACES)


def function(C, key, E, body, paths, src, want, texts, where, what):
    """paths: [(st, conds, value)] as a function of the string src."""
    R = C.R
    H = Text(E, body)
    bad = {}
    for s in texts:
        vals = []
        for st, conds, v in paths:
            H.st = st
            env = {src: s, "@hook": H}
            try:
                loops(st, env, (conds, v))
                if all(holds(c, env) for c in conds):
                    vals.append(evaluate(v, env))
            except NoVal as e:
                raise Undecided("%s: %s" % (key, str(e)[:100]))
            except Panics as e:
                vals.append("a panic (%s)" % e)
        if not vals:
            raise Undecided("%s: no path for %r" % (key, s))
        for v in set(vals):
            if v != want(s):
                bad.setdefault((s, v), True)
    if bad:
        s, v = sorted(bad, key=lambda x: len(x[0]))[0]
        R.bad(key, "%s %r gives the text %r, must be %r" % (what, s, v, want(s)), where)
    else:
        R.ok(key, "%s: the text is right for all of %d contents" % (what, len(texts)), where)


def loops(st, env, used):
    """Binds the variables of the path's loops to their values behind the loop: the summary of one arbitrary iteration is
    applied until no alternative of it continues."""
    for e in st.ev:
        if e[0] != "loop" or not any(mentions_(used, lv) for lv, v in e[3]):
            continue
        cur = {lv: evaluate(v, env) for lv, v in e[3] if mentions_((used, tuple((a[0], a[3]) for a in e[2])), lv)}
        for _ in range(200):
            env.update(cur)
            nxt = []
            for conds, evs, deltas, upds in e[2]:
                if any(x[0] == "loop" for x in evs):
                    raise NoVal("nested loop")
                if any(c[0] == "iter" for c in conds):
                    raise NoVal("loop over a sequence")
                if all(holds(c, env) for c in conds):
                    nxt.append({lv: evaluate(v, env) for lv, v in upds if lv in cur})
            if not nxt:
                break
            if any(x != nxt[0] for x in nxt):
                raise NoVal("loop")
            if not {k: v for k, v in nxt[0].items() if cur[k] != v}:
                # nothing changes: it does not end
                raise Panics("an endless loop")
            cur = {**cur, **nxt[0]}
        else:
            raise NoVal("loop")


def without_break(s):
    return s[:-1] if s.endswith("\n") else s


def file(C):
    R = C.R
    b = C.body("askama_derive", SRC)
    where = b.where()
    E = C.engine("askama_derive", max_depth=3, vocab=STRING)
    res = [(st, E.norm(st, rv)) for st, rv in C.run(E, b)]
    READ = {x for st, rv in res for x in walk((st.conds, rv)) if isinstance(x, tuple) and x[:1] == ("call",) and x[1].split("::")[-1] in ("read_to_string",)}
    if len(READ) != 1:
        raise Undecided("%d reads" % len(READ))
    rd = READ.pop()
    R.check(rd[2] == (("param", "p0"),), "file:path", "the file read is that of the template: %s" % pp(rd)[:80], where)
    src = okof(rd)
    good, err = [], 0
    for st, rv in res:
        failed = ("is", rd, "Err") in st.conds
        if not is_agg(rv) or rv[2] not in ("Ok", "Err"):
            raise Undecided("result %s" % pp(rv)[:60])
        if failed:
            err += 1
            R.check(rv[2] == "Err", "file:error", "a file that cannot be read is an error: %s" % pp(rv)[:80], where)
            continue
        if rv[2] == "Err":
            conds = tuple(c for c in st.conds if c != ("is", rd, "Ok"))
            good.append((st, conds, ("str", "\0error")))
            continue
        good.append((st, tuple(c for c in st.conds if c != ("is", rd, "Ok") and (mentions(c, src) or any(isinstance(x, tuple) and x[:1] == ("lv",) for x in walk(c)))), dict(rv[3])["0"]))
    R.check(err > 0, "file:unreadable", "reading may fail", where)
    function(C, "file:text", E, b, good, src, without_break, TEXTS, where, "the file")


def mentions_(t, x):
    return any(y == x for y in walk(t))


def inline(C):
    R = C.R
    W = Walk(C, "input::TemplateInput::find_used_templates", max_depth=3,
             extra={FIND: pure("find"), SRC: pure("source"), PARSE: pure("parse"), "askama_parser::Parsed::nodes": pure("nodes")})
    where = W.b.where()
    selfp, srcs = ("fld", ("param", "p0"), "path"), ("fld", ("param", "p0"), "source")
    S = ("fld", ("as", srcs, "Source"), "0")
    n, vals, files = 0, set(), set()
    for conds, evs, rv, st in W.paths:
        for e in evs:
            if e[0] != "loop":
                continue
            first = [x for lv, v in e[3] for x in walk(v) if isinstance(x, tuple) and is_agg(x) and x[1] == "tuple" and fields(x).get("0") == selfp]
            for x in first:
                (vals if ("is", srcs, "Source") in conds else files).add((st, base_of(fields(x)["1"])))
    if not vals or not files:
        raise Undecided("%d inline templates, %d files" % (len(vals), len(files)))
    seen = set()
    for st, v in vals:
        if v in seen:
            continue
        seen.add(v)
        function(C, "inline:text", W.E, W.b, [(st, (), v)], S, lambda s: s, TEXTS[:400] + TEXTS[-8:], where, "the inline source")
    for st, v in files:
        R.check(v == okof(("call", "source", (selfp,))) or v == ("call", "source", (selfp,)) or v[0] == "call" and v[1] == "source" and v[2] == (selfp,), "inline:file", "the text of a file is taken as it was loaded: %s" % pp(v)[-80:], where)


def parsed(C):
    """Parsed::new and Ast::from_str."""
    R = C.R
    b = C.body("askama_parser", "_parsed::Parsed::new")
    where = b.where()
    AST = [x.npath for x in C.P.crates["askama_parser"].bodies if x.npath.endswith("Ast::from_str")]
    if len(AST) != 1:
        raise Missing("Ast::from_str")
    E = C.engine("askama_parser", max_depth=2, vocab={AST[0]: lambda E, fr, st, a, line: [(st, ("call", "ast", tuple(E.norm(st, E.deref(st, x) if x[0] == "ref" else x) for x in a)))]})
    seen = set()
    for st, rv in C.run(E, b):
        for c in {x for x in walk((st.conds, E.norm(st, rv))) if isinstance(x, tuple) and x[:2] == ("call", "ast")}:
            seen.add((st, c))
    if not seen:
        raise Undecided("no call of Ast::from_str")
    for st, c in seen:
        a = [x for x in c[2]]
        t = a[0]
        while t[0] == "call" and t[1].split("::")[-1] in ("as_str", "deref", "as_ref", "borrow", "transmute", "from_raw_parts", "from_utf8_unchecked") and len(t[2]) >= 1:
            t = t[2][0]
        H = [("param", "p0")]
        if t == H[0]:
            R.ok("parsed:text", "the text given is parsed as it is", where)
        elif mentions_(t, H[0]):
            function(C, "parsed:text", E, b, [(st, (), t)], H[0], lambda s: s, TEXTS[:300] + TEXTS[-8:], where, "the text given")
        else:
            R.bad("parsed:text", "the text given is parsed: %s" % pp(t)[:80], where)
        rest = [x for x in a[1:]]
        p = [x for x in walk(tuple(rest)) if x == ("param", "p1")]
        s = [x for x in walk(tuple(rest)) if x == ("param", "p2")]
        R.check(bool(p), "parsed:path", "under the path given: %s" % [pp(x)[:40] for x in rest], where)
        R.check(bool(s), "parsed:syntax", "with the syntax given: %s" % [pp(x)[:40] for x in rest], where)


def whole(C):
    """Ast::from_str succeeds only if the whole text was parsed."""
    from parslib import Grammar
    R = C.R
    G = Grammar(C)
    b = G.body("Ast::from_str")
    where = b.where()
    n = 0
    for p in G.paths("Ast::from_str"):
        if p.status != "Ok":
            continue
        n += 1
        steps = [s for s in p.steps if s[0] not in ("mark",)]
        R.check(len(steps) > 0 and steps[0][0] in ("nt", "many"), "whole:start", "the nodes are parsed from the beginning of the text: %s" % (steps[:1],), where)
        last = len(steps)
        end = any(s == ("leaf", "eof", ()) for s in steps) or any(c[0] == "t" and c[1] in (("empty", ("in", last)), ("empty", ("in", last - 1))) and c[2] for c in p.conds)
        R.check(end, "whole:end", "it succeeds only at the end of the text: %s" % ([s[:2] for s in steps],), where)
        st, rv = p.st, G.E.norm(p.st, p.rv)
        nts = {x for x in walk(rv) if isinstance(x, tuple) and x[:1] == ("call",) and x[1] == "@nt"} | {x for x in walk(rv) if isinstance(x, tuple) and x[:1] == ("call",) and x[1] == "@many"}
        if len(nts) != 1:
            raise Undecided("result %s" % pp(rv)[:100])
        t = nts.pop()
        R.check(t[2][-1] == ("param", "p0"), "whole:text", "the nodes are those of the whole text: %s" % pp(t[2][-1])[:80], where)
        nodes = dict(dict(rv[3])["0"][3]).get("nodes") if is_agg(rv) and is_agg(dict(rv[3])["0"]) else None
        if nodes is None:
            raise Undecided("result %s" % pp(rv)[:100])
        R.check(nodes == ("fld", okof(t), "1"), "whole:nodes", "all of them are returned: %s" % pp(nodes)[:80], where)
    if not n:
        raise Undecided("no successful path")
