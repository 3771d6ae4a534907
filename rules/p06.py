"""skip_till(p) must stop at the first position at which p reads something, leaving the input in front of it, and return what p left and
read; keyword(k) must read exactly a whole identifier equal to k. The loop of Comment::parse, as a machine over the next opening or closing
comment delimiter and its counter, must accept exactly at the closing delimiter which matches the first opening one: for every level of
nesting reached (the counter is only compared with constants and changed by constants, so levels beyond the greatest constant are alike), an
opening delimiter goes one level up, a closing one goes one level down or, at level zero, ends the comment right behind itself; without
another delimiter there is no comment. Raw::parse must search for `endraw` alone, from right behind its opening tag, and hand over exactly
the text it skipped. The generator must write nothing for a comment, and the literal, once, for a raw block. Every successful parse of a tag
ends with its closing delimiter, and a template is accepted only if nothing of the input is left."""
from parslib import *
from g10 import walk, base_of
import genlib
import p04
from p04 import delim, grammar
from flow import Frame

COM = "node::Comment::parse"


def run(C):
    R = C.R
    R.floor = 12
    R.section("skip_till", skip_till, C)
    R.section("keyword", keyword, C)
    R.section("comment", comment, C)
    R.section("raw", raw, C)
    R.section("closing", closing, C)
    R.section("rest", rest, C)
    R.section("output", output, C)


# ------------------------------------------------------------------ combinators
def applied(C, name, arg):
    G = Grammar(C)
    G.frozen_combs.discard(name)
    E = G.engine()
    b = G.body(name)
    for st, rv in E.run(b, args=[arg]):
        for s, r in E.apply(Frame(b, 999, 0, ()), st, rv, [("param", "i")]):
            for s2, kind, v in G.results(E, s, E.norm(s, r)):
                yield b, E, s2, kind, tuple(E.norm(s2, x) for x in v) if kind == "Ok" else E.norm(s2, v)


def applications(x, name="identifier"):
    return {t for t in walk(x) if isinstance(t, tuple) and len(t) == 3 and t[0] == "call" and t[1] == "@nt" and t[2][0] == ("str", name)}


def skip_till(C):
    R = C.R
    n = 0
    for b, E, st, kind, v in applied(C, "skip_till", ("fn", "identifier", None, ())):
        w = b.where()
        if kind != "Ok":
            continue
        n += 1
        loops = [e for e in st.ev if e[0] == "loop"]
        oks = [c[1] for c in st.conds if c[0] == "is" and c[2] == "Ok" and c[1] in applications(c[1])]
        if len(loops) != 1 or len(oks) != 1:
            raise Undecided("skip_till: %s" % [pp(x)[:80] for x in oks])
        T = oks[0]
        P = T[2][-1]
        _, lid, alts, inits = loops[0]
        R.check(v[0] == P, "skip_till:stop", "the input left begins where the end was found: %s" % pp(v[0])[:100], w)
        R.check(v[1] == tup(rest_of(T), out_of(T)), "skip_till:found", "what was found, and the input behind it: %s" % pp(v[1])[:160], w)
        if P[0] != "lv" or P[1] != lid:
            raise Undecided("skip_till: position %s" % pp(P)[:80])
        R.check(dict(inits).get(P) == ("param", "i"), "skip_till:start", "the search begins at %s" % pp(dict(inits).get(P, UNIT))[:80], w)
        if not alts:
            raise Undecided("skip_till: no iterations")
        for conds, evs, deltas, upds in alts:
            new = dict(upds).get(P, P)
            steps = [e[2] for e in evs if e[0] == "op" and e[1] == "step"]
            leaf = [t for t in steps if t[1] == "@leaf" and t[2][0][1].endswith("anychar") and t[2][-1] == P]
            tried = any(t[1] == "@no" and any(a[0] == (("nt", "identifier", ()),) for X in t[2][0][1:] for a in X) and t[2][-1] == P for t in steps) \
                or any(t in applications(t) and t[2][-1] == P and ("is", t, "Err") in conds for t in steps)
            R.check(tried, "skip_till:tried", "every position is tried before it is skipped", w)
            R.check(any(new == rest_of(t) for t in leaf), "skip_till:next", "one character is skipped at a time: %s" % pp(new)[:100], w)
    if not n:
        raise Undecided("skip_till never succeeds")


def keyword(C):
    R = C.R
    n = 0
    for b, E, st, kind, v in applied(C, "keyword", ("param", "k")):
        w = b.where()
        T = {t for t in applications(st.conds) if t[2][-1] == ("param", "i")}
        if len(T) != 1:
            raise Undecided("keyword: %s" % [pp(t)[:80] for t in T])
        T = T.pop()
        read = ("is", T, "Ok") in st.conds
        o = out_of(T)
        same = {c[2] for c in st.conds if c[0] == "t" and c[1] in (("eq", o, ("param", "k")), ("eq", ("param", "k"), o))}
        other = [c for c in st.conds if o in set(walk(c)) and not (c[0] == "t" and c[1] in (("eq", o, ("param", "k")), ("eq", ("param", "k"), o)))]
        if kind == "Ok":
            n += 1
            weak = [c for c in other if c[0] == "t" and c[1][0] == "call" and c[1][1].split("::")[-1] in ("starts_with", "ends_with", "contains", "eq_ignore_ascii_case")]
            if other and same != {True} and len(weak) < len(other):
                raise Undecided("keyword: %s" % pp(other[0][1])[:80])
            R.check(read and same == {True} and not other, "keyword:same", "a keyword is an identifier equal to it", w)
            R.check(v[0] == rest_of(T), "keyword:rest", "what is left behind a keyword: %s" % pp(v[0])[:80], w)
        elif read:
            R.check(same != {True}, "keyword:all", "a keyword that is there is read", w)
    if not n:
        raise Undecided("keyword never succeeds")


# ------------------------------------------------------------------ comments
class Num:
    """Evaluation of conditions and updates of a counter whose value is known."""
    def __init__(self, env, bits, signed):
        self.env, self.bits, self.signed = env, bits, signed
        self.lo = -(1 << (bits - 1)) if signed else 0
        self.hi = (1 << (bits - (1 if signed else 0))) - 1

    def fits(self, n):
        return self.lo <= n <= self.hi

    def val(self, t):
        """An int, bool, ("Some", v), "None", or None if unknown."""
        if t in self.env:
            return self.env[t]
        if t[0] == "int":
            return t[1]
        if t[0] == "bool":
            return t[1]
        if t[0] == "fld" and t[2] == "0" and t[1][0] == "as":
            o = self.val(t[1][1])
            return o[1] if isinstance(o, tuple) and t[1][2] == "Some" else None
        if t[0] == "bin" or t[0] == "binop" or t[0] in ("Add", "Sub", "Lt", "Le", "Gt", "Ge", "Eq", "Ne"):
            k, a, b = (t[1], t[2], t[3]) if t[0] in ("bin", "binop") else t
            a, b = self.val(a), self.val(b)
            if a is None or b is None or isinstance(a, tuple) or isinstance(b, tuple):
                return None
            k = k.replace("WithOverflow", "").replace("Unchecked", "")
            if k in ("Add", "Sub"):
                r = a + b if k == "Add" else a - b
                return r if self.fits(r) else "overflow"
            return {"Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b, "Eq": a == b, "Ne": a != b}.get(k)
        if t[0] == "eq":
            a, b = self.val(t[1]), self.val(t[2])
            return None if a is None or b is None else a == b
        if t[0] in ("lt", "le", "gt", "ge"):
            a, b = self.val(t[1]), self.val(t[2])
            return None if a is None or b is None else {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[t[0]]
        if t[0] == "call":
            n = t[1].split("::")[-1]
            xs = [self.val(x) for x in t[2]]
            if any(not isinstance(x, int) for x in xs):
                return None
            if n in ("checked_add", "checked_sub"):
                r = xs[0] + xs[1] if n == "checked_add" else xs[0] - xs[1]
                return ("Some", r) if self.fits(r) else "None"
            if n in ("saturating_add", "saturating_sub"):
                return max(self.lo, min(self.hi, xs[0] + xs[1] if n.endswith("add") else xs[0] - xs[1]))
            if n in ("min", "max"):
                return min(xs) if n == "min" else max(xs)
            if n in ("wrapping_add", "wrapping_sub"):
                r = (xs[0] + xs[1] if n.endswith("add") else xs[0] - xs[1]) & ((1 << self.bits) - 1)
                return r - (1 << self.bits) if r > self.hi else r
        return None

    def holds(self, c):
        """True, False or None."""
        if c[0] in ("is", "not"):
            o = self.val(c[1])
            if o is None:
                return None
            if isinstance(o, int):
                return None
            name = "Some" if isinstance(o, tuple) else o
            return (name == c[2]) if c[0] == "is" else name not in c[2]
        if c[0] == "t":
            v = self.val(c[1])
            return None if not isinstance(v, bool) else v == c[2]
        if c[0] in ("int", "switch") and len(c) == 3:
            v = self.val(c[1])
            return None if v is None else v == c[2]
        return None


def consts(x):
    return {t[1] for t in walk(x) if isinstance(t, tuple) and len(t) >= 2 and t[0] == "int" and isinstance(t[1], int)}


REST, AFTER = ("str", "⟨position of the delimiter⟩"), ("str", "⟨behind the delimiter⟩")


def comment(C):
    R = C.R
    G = grammar(C)
    b = G.body(COM)
    w = b.where()
    paths = G.paths(COM)
    good = [p for p in paths if p.status == "Ok"]
    loops = {e for p in good for e in p.evs if e[0] == "loop"}
    if len(loops) != 1 or not good:
        raise Undecided("comments are not read by a loop")
    _, lid, alts, inits = loops.pop()
    inits = dict(inits)
    # the search for the next delimiter
    Ts = {e[2] for a in alts for e in a[1] if e[0] == "op" and e[1] == "step"}
    if len(Ts) != 1:
        raise Undecided("the loop of comments applies %s" % [pp(t)[:80] for t in Ts])
    T = Ts.pop()
    P = T[2][-1]
    if P not in inits:
        raise Undecided("comments: position %s" % pp(P)[:80])
    step = G.step(T)
    opt = step[0] == "opt"
    if opt:
        if len(step[1]) != 1 or len(step[1][0][0]) != 1 or step[1][0][2] != ("o", 0) or step[1][0][1]:
            raise Undecided("comments: %s" % ps(step)[:120])
        step = step[1][0][0][0]
    if step[0] != "skip_till":
        raise Undecided("comments: %s" % ps(step)[:120])
    found = []
    for steps, conds, out in step[1]:
        st = [s for s in steps if s[0] not in ("no", "not")]
        d = delim(st[0]) if len(st) == 1 else None
        if d is None or conds or any(s[0] == "not" for s in steps):
            raise Undecided("comments: %s" % pg(step[1])[:160])
        out = shift(out, lambda k: k)
        found.append((d, out))
    kinds = [d for d, _ in found]
    if not R.check(set(kinds) == {"comment_start", "comment_end"} and len(kinds) == 2, "comment:delimiters", "inside of a comment, the next of %s is looked for" % ", ".join(kinds), w):
        return
    # where the content begins
    p = good[0]
    init = G.rename(inits[P], p.names)
    if init[0] != "in":
        raise Undecided("comments: the content begins at %s" % pp(init)[:80])
    before = [s for s in p.steps[:init[1]] if s[0] != "mark"]
    R.check(bool(before) and delim(before[0]) == "comment_start" and [s[0] for s in before[1:]] in ([], ["opt"]), "comment:begin", "the content begins behind %s" % " ".join(ps(s) for s in before), w)

    # the other loop variable is the counter
    D = [l for l in inits if l != P]
    used = [l for l in D if any(l in set(walk((c, u))) for c, e, d, u in alts) or any(l in set(walk(p.st.conds)) for p in paths)]
    if len(used) != 1 or inits[used[0]][0] != "int":
        raise Undecided("comments: counters %s" % [(pp(l), pp(inits[l])[:40]) for l in D])
    D = used[0]
    bits, signed = int_type(C, D)
    mx = max({0} | {abs(k) for c, e, dd, u in alts for k in consts(c) if k < 2 ** 31} | {abs(k) for p in paths for c in p.st.conds if D in set(walk(c)) for k in consts(c) if k < 2 ** 31})
    mx = max({mx} | {abs(k) for c, e, dd, u in alts for k in consts(dict(u).get(D, D)) if k < 2 ** 31})
    if mx > 300:
        raise Undecided("comments: levels are compared with %d" % mx)

    def instances(x, kind):
        """x with the search replaced by what it found"""
        out = [o for d, o in found if d == kind][0]
        v = tup(AFTER, out)
        if opt:
            v = some_(v)
        return simp(G.rename(x, [(out_of(T), v), (rest_of(T), REST)]))

    def verdict(conds, kind, d):
        """Does the path apply? (True, False; free conditions do not matter)"""
        for c in conds:
            if c[0] == "is" and c[1] == T:
                if c[2] != "Ok":
                    return False
                continue
            if c[0] == "iter" or not ({T, D} & set(walk(c))):
                continue
            if c[0] == "any":
                if not any(verdict(conj if conj and isinstance(conj[0], tuple) else (conj,), kind, d) for conj in c[1]):
                    return False
                continue
            s = settle([instances(c, kind)])
            if s is None:
                return False
            if not s or not ({T, D} & set(walk(tuple(s)))):
                continue
            h = Num({D: d}, bits, signed).holds(s[0])
            if h is None:
                if REST in set(walk(tuple(s))) or AFTER in set(walk(tuple(s))):
                    continue
                raise Undecided("comments: %s %s" % (s[0][0], pp(s[0][1])[:100]))
            if not h:
                return False
        return True

    # without a delimiter there is no comment
    for p in good:
        if opt:
            R.check(("is", out_of(T), "Some") in p.st.conds, "comment:unclosed", "a comment that is not closed is rejected", w)
    if opt:
        for a in alts:
            R.check(("is", out_of(T), "Some") in a[0], "comment:unclosed", "a comment that is not closed is rejected", w)

    lim = mx + 3
    work, seen = [(0, inits[D][1])], {}
    while work:
        n, d = work.pop()
        if (n, d) in seen:
            continue
        seen[(n, d)] = 1
        if len(seen) > 700:
            raise Undecided("comments: the counter does not follow the level")
        for kind in ("comment_start", "comment_end"):
            ends = [p for p in good if verdict(p.st.conds, kind, d)]
            fails = [p for p in paths if p.status == "Err" and any(e in p.evs for e in p.evs if e[0] == "loop" and e[1] == lid) and ("is", T, "Ok") in p.st.conds and verdict(p.st.conds, kind, d)]
            goes = [a for a in alts if verdict(a[0], kind, d)]
            what = "%s at level %d" % (kind, n)
            if kind == "comment_end" and n == 0:
                R.check(bool(ends) and not goes and not fails, "comment:end", "the end delimiter matching the start ends the comment: %s" % outcome(ends, goes, fails), w)
                for p in ends:
                    for s, k2, v in G.results(G.E, p.st, p.rv):
                        r0 = instances(G.E.norm(s, v[0]), kind)
                        R.check(r0 == AFTER, "comment:behind", "the template goes on right behind the comment, not at %s" % pp(r0)[:80], w)
                continue
            good_ = bool(goes) and not ends and not fails
            if not R.check(good_, "comment:nested:" + kind, "%s: %s" % (what, outcome(ends, goes, fails)), w):
                continue
            for conds, evs, deltas, upds in goes:
                u = dict(upds)
                pos = instances(u.get(P, P), kind)
                R.check(pos == AFTER, "comment:next", "the search goes on right behind the delimiter, not at %s" % pp(pos)[:80], w)
                nd = Num({D: d}, bits, signed).val(u.get(D, D))
                if nd is None:
                    raise Undecided("comments: the counter becomes %s" % pp(u.get(D, D))[:80])
                if not R.check(isinstance(nd, int), "comment:counter", "the counter of the levels overflows", w):
                    continue
                m = n + (1 if kind == "comment_start" else -1)
                if m <= lim:
                    work.append((m, nd))
    for n in range(lim + 1):
        ds = {d for m, d in seen if m == n}
        R.check(len(ds) == 1, "comment:level", "the counter tells the level", w)
    # far up: the same counter must not run out within the input
    top = (1 << (bits - (1 if signed else 0))) - 1
    bad = False
    if bits < 32:
        for conds, evs, deltas, upds in [a for a in alts if verdict(a[0], "comment_start", top)]:
            bad = True
        bad = bad or any(verdict(p.st.conds, "comment_start", top) for p in good)
    R.check(not bad, "comment:deep", "more than %d levels of comments overflow their counter" % top, w)


def outcome(ends, goes, fails):
    return " or ".join(x for x, y in (("the comment ends", ends), ("the search goes on", goes), ("the comment is rejected", fails)) if y) or "nothing"


INT = {"u8": (8, False), "u16": (16, False), "u32": (32, False), "u64": (64, False), "usize": (64, False), "u128": (128, False),
       "i8": (8, True), "i16": (16, True), "i32": (32, True), "i64": (64, True), "isize": (64, True), "i128": (128, True)}


def int_type(C, D):
    """The type of the counter: the loop variable carries the number of its local; all integer locals the comment parser changes agree."""
    tys = set()
    for c in C.P.crates[CR].bodies:
        if c.npath.startswith(COM) or c.npath.split("::{")[0].startswith(COM):
            for k, (ty, name) in enumerate(c.locals):
                if k == D[2] and ty in INT:
                    tys.add(ty)
    if len(tys) != 1:
        raise Undecided("comments: the counter's type is one of %s" % sorted(tys))
    return INT[tys.pop()]


# ------------------------------------------------------------------ raw blocks
def raw(C):
    R = C.R
    G = grammar(C)
    name = "node::Raw::parse"
    b = G.body(name)
    w = b.where()
    n = 0
    for p in G.paths(name):
        if p.status != "Ok":
            continue
        st = p.steps
        till = [k for k, s in enumerate(st) if s[0] == "skip_till"]
        if len(till) != 1 or not is_agg(p.out):
            raise Undecided("raw: %s" % " ".join(ps(s) for s in st)[:160])
        n += 1
        k = till[0]
        alts = st[k][1]
        R.check(len(alts) == 1 and not alts[0][1], "raw:one", "a raw block ends at its end tag and nothing else: %s" % pg(alts)[:200], w)
        for a in alts:
            shape = [core(s) for s in a[0] if core(s)]
            R.check(shape == ["block_start", "keyword endraw", "block_end"], "raw:end", "a raw block ends at %s" % pg((a,))[:200], w)
        R.check(k > 0 and delim([s for s in st[:k] if s[0] != "mark"][-1]) == "block_end", "raw:begin", "the content begins behind the tag: %s" % " ".join(ps(s) for s in st[:k]), w)
        R.check(not [s for s in st[k + 1:] if s[0] not in ("mark",)], "raw:after", "nothing else is read behind", w)
        f = dict(p.out[3])
        lits = [v for v in f.values() if is_agg(v) and set(dict(v[3])) == {"lws", "val", "rws"}]
        if len(lits) != 1:
            raise Undecided("raw: content %s" % pp(p.out)[:160])
        R.check(p04.parts(lits[0], ("call", "@text", (("in", k), ("in", k + 1)))), "raw:content", "the content is the text skipped: %s" % pp(lits[0])[:160], w)
        rests = [G.rename(v[0], p.names) for s, kind, v in G.results(G.E, p.st, p.rv) if kind == "Ok"]
        R.check(rests == [("fld", ("o", k), "0")], "raw:rest", "the template goes on behind the end tag found: %s" % [pp(x)[:60] for x in rests], w)
    if not n:
        raise Undecided("raw blocks are never read")


def core(s):
    """What a step of an end tag reads, markers and white space aside."""
    if s[0] in ("ws", "mark", "no"):
        return None
    if s[0] == "opt" and pg(s[1]) == "<Whitespace::parse>":
        return None
    if s[0] == "peek" and len(s[1]) == 1 and len(s[1][0][0]) == 1:
        return core(s[1][0][0][0])
    if s[0] == "comb" and s[1] == "keyword":
        return "keyword " + str(s[2][0][1])
    return delim(s) or ps(s)


# ------------------------------------------------------------------ ends
def closing(C):
    R = C.R
    G = grammar(C)
    for n, end in (("node::Node::parse", "block_end"), ("node::Node::expr", "expr_end")):
        w = G.body(n).where()
        for p in G.paths(n):
            if p.status == "Ok":
                st = [s for s in p.steps if s[0] not in ("no", "not", "mark")]
                R.check(bool(st) and delim(st[-1]) == end, "closed:" + end, "ends with %s" % (ps(st[-1]) if st else "nothing"), w)
                rests = [G.rename(v[0], p.names) for s, kind, v in G.results(G.E, p.st, p.rv) if kind == "Ok"]
                R.check(all(r == ("in", len(p.steps)) for r in rests), "behind:" + end, "the template goes on behind the tag: %s" % [pp(r)[:60] for r in rests], w)


def rest(C):
    R = C.R
    G = grammar(C)
    n = "Ast::from_str"
    b = G.body(n)
    w = b.where()
    got = 0
    for p in G.paths(n):
        rv = G.E.norm(p.st, p.rv)
        if not is_agg(rv) or rv[2] != "Ok":
            continue
        got += 1
        st = [s for s in p.steps if s[0] not in ("mark", "no")]
        names = [s[1].split("::")[-1] if s[0] in ("nt", "leaf") else s[0] for s in st]
        R.check(names[:1] == ["many"] and st[0][0] == "nt", "template:nodes", "a template is a sequence of nodes: %s" % names, w)
        done = names == ["many", "eof"] or any(c[0] == "t" and c[1][0] == "empty" and c[1][1] == ("in", 1) and c[2] for c in p.conds)
        R.check(done, "template:all", "a template is accepted only if nothing is left: %s" % names, w)
        ast = dict(rv[3]).get("0")
        f = dict(ast[3]) if is_agg(ast) else {}
        if "nodes" not in f:
            raise Undecided("template: %s" % pp(rv)[:120])
        R.check(G.rename(f["nodes"], p.names) == ("o", p.steps.index(st[0])), "template:same", "the nodes are those which were read: %s" % pp(f["nodes"])[:120], w)
    if not got:
        raise Undecided("templates are never accepted")


# ------------------------------------------------------------------ output
def output(C):
    R = C.R
    b = C.body("askama_derive", "generator::Generator::handle")
    sc = genlib.scenarios(C)
    for kind in ("Comment", "Raw"):
        if kind not in sc:
            raise Undecided("no code for " + kind)
        for conds, ops in sc[kind]:
            text = genlib.skeleton(ops)
            lits = [o[2] for o in ops if o[0] == "lit"]
            q = [o[2] for o in ops if o[0] == "queue"]
            want = [] if kind == "Comment" else [("fld", ("fld", ("node", kind), "0"), "lit")]
            R.check(not text and not q and lits == want, "output:" + kind, "%s outputs %s" % (kind, text[:80] or [pp(x)[:80] for x in lits + q] or "nothing"), b.where())
