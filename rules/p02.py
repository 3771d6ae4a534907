"""Every parser of a node is read as a grammar and cut into tags: from an opening delimiter (or the start of the parser, for those that
are called behind one) to the closing one (or the end). In each tag, the first step must be the optional marker, and so must be the
last; no other step of a tag is a marker. The leading and trailing marker of one tag must end up together, in this order, in the one
Ws of the value that stands for this tag: the first tag's, the last tag's, and that of the tag between. Comments, whose text
is taken as a whole, get their trailing marker from the last character before the closing delimiter. The marker parser maps + - ~."""
from parslib import *

START = ("State::tag_block_start", "State::tag_expr_start", "State::tag_comment_start")
END = ("State::tag_block_end", "State::tag_expr_end", "State::tag_comment_end")
WSP = "node::Whitespace::parse"
MEAN = {"+": "Preserve", "-": "Suppress", "~": "Minimize"}
NONE = ("agg", "std::option::Option", "None", ())


def grammar(C):
    if not hasattr(C, "_pg"):
        C._pg = Grammar(C)
    return C._pg


def run(C):
    R = C.R
    R.floor = 60
    R.section("marker", marker, C)
    R.section("dispatch", dispatch, C)
    for n in explicit(C):
        R.section(n, lambda C, n=n: tags(C, n, False), C)
    R.section("comment", comment, C)


def marker(C):
    R = C.R
    b = grammar(C).body(WSP)
    got = {}
    for p in grammar(C).paths(WSP):
        if p.status != "Ok":
            continue
        st = [s for s in p.steps if s[0] != "no"]
        if len(st) == 1 and st[0][0] == "leaf" and st[0][1] == "one_of":
            for c in [c for c in p.conds if c[0] == "t" and c[2] is True and c[1][0] == "eq"]:
                got[c[1][2][1] if c[1][2][0] in ("char", "str") else c[1][1][1]] = p.out
            continue
        if len(st) != 1 or st[0][0] != "tag" or not isinstance(st[0][1], str):
            raise Undecided("marker %s" % " ".join(ps(s) for s in p.steps))
        got.setdefault(st[0][1], p.out)
    for c, v in MEAN.items():
        R.check(c in got and is_agg(got[c], v), "marker:%s" % c, "'%s' stands for %s" % (c, pp(got[c]) if c in got else "nothing"), b.where())
    for c in sorted(set(got) - set(MEAN)):
        R.bad("marker:extra:%s" % c, "another marker character %s" % pp(got[c]), b.where())


def ismark(s):
    return s[0] == "opt" and len(s[1]) == 1 and [x[:2] for x in s[1][0][0] if x[0] != "no"] == [("nt", WSP)] and s[1][0][2] == ("o", 0)


def hasmark(s):
    return repr(s).find("'%s'" % WSP) >= 0


def expand_but(steps, conds, out):
    """Expansion of the options known to be taken or not, other than markers; the conditions on markers are kept as "mark"."""
    ks = {k for k, s in enumerate(steps) if ismark(s)}
    conds = tuple(("mark",) + c[1:] if c[0] == "is" and c[1][0] == "o" and c[1][1] in ks else c for c in conds)
    return expand(steps, conds, out)


def same(v, k, conds):
    """Is the value the marker of step k (a term ("o", k) or a projection of the end of skipped text)?"""
    v = simp(v)
    if v == k:
        return True
    known = [c[2] for c in conds if c[0] in ("mark", "is") and c[1] == k]
    return "Some" in known and v == some_(("fld", ("as", k, "Some"), "0")) or "None" in known and v == NONE


def dispatch(C):
    """The parsers that Node::parse calls directly behind an opening delimiter."""
    R = C.R
    G = grammar(C)
    b = G.body("node::Node::parse")
    seen = set()
    for p in G.paths("node::Node::parse"):
        if p.status != "Ok":
            continue
        st = [s for s in p.steps if s[0] not in ("no", "peek", "not") and s[1] != "State::nest"]
        names = [s[1] if s[0] == "nt" else s[0] for s in st]
        key = "tag:" + (names[1] if len(names) > 1 else "?")
        if key in seen:
            continue
        seen.add(key)
        if len(names) == 3 and names[0] == START[0] and names[2] == END[0] and st[1][0] == "nt" and p.linear:
            R.ok(key)
            R.section(names[1], lambda C, n=names[1]: tags(C, n, True), C)
        else:
            raise Undecided("tags of Node::parse: %s" % " ".join(ps(s) for s in p.steps)[:120])
    if len(seen) < 5:
        raise Undecided("only %d kinds of tags" % len(seen))


def explicit(C):
    """Parsers with opening delimiters of their own."""
    G = grammar(C)
    out = []
    for n in sorted(G.nts):
        if n == "node::Node::parse" or n.startswith("State::") or n == "node::Comment::parse" or G.crate.by.get(n) is None:
            continue
        ps_ = [p for p in G.paths(n) if p.status == "Ok"]
        if ps_ and all(first(p.steps) in START for p in ps_):
            out.append(n)
    return out


def first(steps):
    for s in steps:
        if s[0] not in ("ws", "no", "not", "peek"):
            return s[1] if s[0] == "nt" else s[0]


def flatten(steps, base=None):
    """[(step, value)]: with the steps a skipped-over text ends at behind it."""
    out = []
    for k, s in enumerate(steps):
        v = ("o", k)
        if s[0] == "skip_till":
            if len(s[1]) != 1:
                raise Undecided("text up to %s" % pg(s[1])[:80])
            inner, conds, o = s[1][0][:3]
            out.append((("body",), v))
            look = ("fld", v, "1")
            where = {}
            if is_agg(o) and o[1] == "tuple":
                where = {x[1]: ("fld", look, n) for n, x in o[3] if x[0] == "o"}
            for j, t in enumerate(inner):
                if t[0] == "peek":
                    out += [(u, None) for a in t[1][:1] for u in a[0]]
                else:
                    out.append((t, where.get(j, ("lost", j))))
            continue
        out.append((s, v))
    return out


def cut_tags(steps, implicit):
    """[[(step, value) of a tag]]"""
    tags_, cur = [], [] if implicit else None
    for s, v in flatten(steps):
        n = s[1] if s[0] == "nt" else None
        if n in START:
            if cur is not None:
                raise Undecided("a tag opens inside of a tag")
            cur = []
        elif n in END:
            if cur is None:
                raise Undecided("a closing delimiter without an opening one")
            tags_.append(cur)
            cur = None
        elif cur is not None:
            if n == "node::Node::many" or s[0] == "body":
                raise Undecided("content inside of a tag")
            cur.append((s, v))
        elif hasmark(s) and not (s[0] in ("many", "opt", "no") and all(first(a[0]) in START + ("nt", "node::Comment::parse") or is_nested(a) for a in alts(s))):
            tags_.append([("stray", s)])
    if cur is not None:
        tags_.append(cur)
    return tags_


def alts(s):
    return [x for P in s[1] for x in (P if isinstance(P[0], tuple) and P and isinstance(P[0], tuple) and len(P) and isinstance(P[0][0], tuple) and s[0] == "no" else [P])]


def is_nested(a):
    return all(not ismark(s) for s in a[0])


def wss(v, path=""):
    """[(path, leading, trailing)] of the Ws values inside of a value."""
    out = []
    if not isinstance(v, tuple):
        return out
    if is_agg(v) and v[1].endswith("::Ws"):
        f = dict(v[3])
        return [(path, f["0"], f["1"])]
    if is_agg(v):
        for n, x in v[3]:
            out += wss(x, path + "/" + (v[2] or "") + "." + n)
        return out
    for x in v:
        out += wss(x, path)
    return out


def role(path, n):
    last = path.split("/")[-1]
    owner, f = last.split(".", 1)
    if owner == "Cond" and path.count("/") > 1:
        return 0
    if owner == "If" and f == "ws":
        return n - 1
    if owner == "When" and path.count("/") > 1:
        return 1 if n == 3 else None
    if f == "ws1":
        return 0
    if f == "ws3":
        return n - 1
    if f == "ws2":
        return 1 if owner == "Loop" else n - 1
    if f in ("ws", "0"):
        return 0 if n == 1 else None
    return None


def tags(C, name, implicit):
    R = C.R
    G = grammar(C)
    b = G.body(name)
    w = b.where()
    short = name.replace("node::", "").replace("::parse", "")
    n = 0
    for p in G.paths(name):
        if p.status != "Ok":
            continue
        for steps, conds, out in expand_but(p.steps, p.conds, p.out):
            n += 1
            ts = cut_tags(steps, implicit)
            if any(t and t[0][0] == "stray" for t in ts):
                R.bad("%s:stray" % short, "a marker outside of a tag: %s" % " ".join(ps(s) for s in steps)[:160], w)
                continue
            if not ts:
                raise Undecided("no tag")
            got = wss(out)
            label = short + ("" if len(ts) < 3 or name == "node::Match::parse" and len(ts) == 2 else ":%d" % len(ts))
            absent = {c[1] for c in conds if c[0] == "mark" and c[2] == "None"}
            if not got and all(v in absent for t in ts for s, v in t if ismark(s)):
                # a tag that does not take markers: nothing is accepted, so nothing is lost
                R.check(not any(hasmark(s) and v not in absent for t in ts for s, v in t if s[0] not in ("no", "many")), "%s:none" % label, "a marker is read and dropped", w)
                continue
            pairs = []
            for i, t in enumerate(ts):
                real = [(s, v) for s, v in t if s[0] not in ("no", "ws", "not", "peek")]
                marks = [j for j, (s, _) in enumerate(real) if ismark(s)]
                key = "%s:tag%d" % (label, i + 1)
                lead, trail = 0 in marks, len(real) - 1 in marks and len(real) > 1
                deep = [ps(s) for j, (s, _) in enumerate(real) if j not in marks and s[0] not in ("many",) and hasmark(s)]
                R.check(lead, key + ":leading", "the tag does not begin with the marker: %s" % " ".join(ps(s) for s, _ in t)[:140], w)
                R.check(trail and (not t or t[-1][0][0] != "ws"), key + ":trailing", "the tag does not end with the marker: %s" % " ".join(ps(s) for s, _ in t)[:140], w)
                R.check(len(marks) == 2 and not deep, key + ":only", "markers are read elsewhere in the tag: %s" % " ".join(ps(s) for s, _ in t)[:140], w)
                pairs.append((real[0][1] if lead else None, real[-1][1] if trail else None))
            used = {}
            for path, a, z in got:
                f = path.split("/")[-1]
                r = role(path, len(ts))
                loop2 = path.endswith("Loop.ws2") or path.endswith("Loop.ws3")
                if loop2 and len(ts) == 2:
                    want = (pairs[1][0], NONE) if path.endswith("ws2") else (NONE, pairs[1][1])
                    r = 1
                elif r is None:
                    raise Undecided("the place of %s" % path)
                else:
                    want = pairs[r]
                for side, x, y in (("leading", a, want[0]), ("trailing", z, want[1])):
                    if y is None:
                        continue
                    R.check(same(x, y, conds), "%s:%s:%s" % (label, f, side), "%s of %s is %s, the marker of this side is %s" % (side, f, pp(x)[:60], pp(y)[:40]), w)
                used.setdefault(r, []).append(f)
            for i in range(len(ts)):
                R.check(i in used, "%s:tag%d:kept" % (label, i + 1), "no part of the value has the markers of tag %d" % (i + 1), w)
    if not n:
        raise Undecided("no successful path of " + name)


def comment(C):
    R = C.R
    G = grammar(C)
    name = "node::Comment::parse"
    b = G.body(name)
    w = b.where()
    seen = set()
    for p in G.paths(name):
        if p.status != "Ok":
            continue
        for st, conds, out in expand(p.steps, p.conds, p.out):
            comment_path(C, st, conds, out, seen, w)
    for c in sorted(set(MEAN) - seen):
        R.bad("comment:ws:trailing:%s" % c, "'%s' at the end of a comment is no marker" % c, w)


def comment_path(C, st, pconds, pout, seen, w):
    R = C.R
    if first(st) != START[2] or len(st) < 3 or not ismark(st[1]):
        R.check(False, "comment:leading", "a comment does not begin with the marker: %s" % " ".join(ps(s) for s in st)[:140], w)
        return
    R.ok("comment:leading")
    got = wss(pout)
    if len(got) != 1:
        raise Undecided("markers of a comment: %s" % pp(pout)[:100])
    _, a, z = got[0]
    R.check(a == ("o", 1), "comment:ws:leading", "the leading marker of a comment is %s" % pp(a)[:80], w)
    # the text behind the leading marker up to and including the closing delimiter
    last = [k for k, s in enumerate(st) if s[0] == "skip_till"]
    text = ("call", "@text", (("in", 2), ("fld", ("o", last[-1]), "0"))) if last else None
    strip = None
    ch, other, cond = None, [], True
    for c in pconds:
        r = repr(c)
        if "strip_suffix" in r and "'@text'" in r and "last" not in r and "chars" not in r:
            if c[0] == "is" and c[1][0] == "call" and c[1][1].endswith("strip_suffix") and c[1][2][0] == text and c[1][2][1] == ("fld", ("fld", ("param", "p1"), "syntax"), "comment_end"):
                strip = c[2]
                base = ("fld", ("as", c[1], "Some"), "0")
            else:
                raise Undecided("text of a comment: %s" % pp(c[1])[:120])
        elif "last" in r:
            x = c[1]
            while x[0] in ("eq", "fld", "as"):
                x = x[1]
            if strip != "Some" or x[0] != "call" or not x[1].endswith("last") or x[2][0][0] not in ("call", "iter") or base not in (x[2][0][1], x[2][0][2][0] if len(x[2][0]) > 2 else None):
                raise Undecided("end of a comment: %s" % pp(c[1])[:120])
            if c[0] == "is":
                ch = c[2] if ch is None else ch
            elif c[0] == "t" and c[1][0] == "eq":
                y = c[1][2] if c[1][2][0] in ("char", "str") else c[1][1]
                if c[2]:
                    ch = y[1]
                else:
                    other.append(y[1])
            else:
                raise Undecided("end of a comment: %s" % pp(c[1])[:120])
    if strip is None:
        raise Undecided("a comment is not cut at its closing delimiter")
    if strip == "None":
        return
    if ch in MEAN:
        seen.add(ch)
        R.check(is_agg(z, "Some") and is_agg(z[3][0][1], MEAN[ch]), "comment:ws:trailing:%s" % ch, "a comment that ends in '%s' has the trailing marker %s" % (ch, pp(z)[:60]), w)
    else:
        R.check(is_agg(z, "None") and (ch in (None, "None") or len(ch) == 1 or set(other) == set(MEAN)), "comment:ws:trailing:other",
                "a comment that ends in another character has the trailing marker %s" % pp(z)[:60], w)
