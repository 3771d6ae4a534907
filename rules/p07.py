"""Every error of a parser function must point at a rest of the text the function was given: the input itself, what a step on such a rest left
over, or the position a parser applied to one of them failed at (by induction over the calls; the positions of loops by induction over their
updates). No parser may make an error without a position, and the functions making error values must keep the position given to them.
Ast::from_str must turn the position into coordinates: for every text in front of it (all strings of up to four characters out of a letter, a
character of two bytes, a line feed and a carriage return, which distinguish all that counting lines and characters can) the row must be the
number of line feeds and the column the number of characters behind the last of them; for every text behind it (of lengths around the
constants used, with characters of one and of several bytes) the excerpt must be the text itself or a beginning of it followed by `...`, and
its slices must fall on the boundaries of characters. The message and the path given must be handed over, and displaying the error must
write the row counted from one, the column, the excerpt, the message and the path. In the derive crate, each template read from a file must
be parsed with its own path, and the error's text must become the text of the compile error."""
from parslib import *
from g10 import walk, base_of
from itertools import product
import re
import p04
from flow import Frame

FROM = "Ast::from_str"


def run(C):
    R = C.R
    R.floor = 40
    G = ErrGrammar(C)
    for n in sorted(G.nts):
        if n in G.crate.by:
            R.section("at:" + n, lambda C, n=n: positions(C, G, n), C)
    R.section("values", values, C)
    R.section("coordinates", coordinates, C, G)
    R.section("display", display, C)
    R.section("derive", derive, C)


# ------------------------------------------------------------------ positions
class ErrGrammar(Grammar):
    """Also collects the errors inside of repeated and optional parsers, and the texts handed to parsers beside their input."""

    def __init__(self, C):
        self.inner = []
        self.given = []
        V = {}
        for n in ("str::char_indices", "std::str::char_indices", "core::str::char_indices", "std::str::<impl str>::char_indices", "core::str::<impl str>::char_indices"):
            V[n] = lambda E, fr, st, a, line: [(st, ("iter", ("call", "char_indices", (E.norm(st, a[0]),)), ()))]
        super().__init__(C, extra=V)

    def kinds(self, E, st, e):
        self.inner.append((E, st, E.norm(st, e)))
        return super().kinds(E, st, e)

    def nt_app(self, E, st, name, a):
        b = self.crate.by[name]
        k = self.input_index(name)
        for i, x in enumerate(a):
            if i != k and str(b.locals[i + 1][0]).replace("'a ", "").replace("'_ ", "") == "&str":
                self.given.append((st, name, i, E.norm(st, x)))
        return super().nt_app(E, st, name, a)


class Bad(Exception):
    pass


class Positions:
    def __init__(self, G, name, st):
        self.G, self.name, self.st = G, name, st
        k = G.input_index(name)
        self.bases = {("param", "p%d" % k)}
        self.open = set()
        # other texts handed over: see `given`
        b = G.crate.by[name]
        self.texts = {("param", "p%d" % i): i for i in range(b.argc) if i != k and str(b.locals[i + 1][0]).replace("'a ", "").replace("'_ ", "") == "&str"}
        self.used = set()
        self.loops = {e[1]: e for e in st.ev if e[0] == "loop"}

    def suffix(self, x):
        """x is a rest of the text given; Bad if it is not."""
        # the text in front of what skip_till has found
        T = found(x)
        if T is not None:
            return self.suffix(T[2][-1])
        if x in self.bases or x in self.open or x[0] == "param" and x[1].startswith("@i"):
            return
        if x in self.texts:
            self.used.add(x)
            return
        if x[0] == "fld":
            T = application(x)
            if T is not None:
                return self.suffix(T[2][-1])
            if x[2] == "input":
                return self.context(x[1])
        if x[0] == "lv":
            e = self.loops.get(x[1])
            if e is None:
                raise Undecided("position of a loop: %s" % pp(x)[:80])
            self.open.add(x)
            try:
                self.suffix(dict(e[3])[x])
                for conds, evs, deltas, upds in e[2]:
                    self.suffix(dict(upds).get(x, x))
            finally:
                self.open.discard(x)
            return
        if x[0] == "call" and x[1].split("::")[-1] in ("trim_start", "trim_start_matches"):
            return self.suffix(x[2][0])
        if x[0] == "range" and x[3] == ("lenof", x[1]):
            return self.suffix(x[1])
        if x[0] in ("str", "code") or x[0] == "call" and x[1] == "@text" or x[0] == "range" or x[0] == "param" or okpart(x):
            raise Bad(pp(x)[:120])
        raise Undecided("position %s" % pp(x)[:140])

    def context(self, c):
        """The position of an error's content."""
        if c[0] == "call" and c[1] == "@at":
            return self.suffix(c[2][0])
        if c[0] == "call" and c[1] == "@inner":
            return self.error(c[2][0])
        if c[0] == "call" and c[1].split("::")[-1] == "make_error":
            return self.suffix(c[2][0])
        if c[0] == "agg" and c[1].split("::")[-1] in ("ErrorContext", "Error"):
            return self.suffix(dict(c[3])["input"])
        if c[0] == "fld" and c[1][0] == "as" and c[1][2] in ("Error", "Failure"):
            return self.error(c[1][1])
        raise Undecided("error %s" % pp(c)[:140])

    def error(self, e):
        if is_agg(e) and e[2] in ("Error", "Failure"):
            return self.context(e[3][0][1])
        if is_agg(e) and e[1].split("::")[-1] == "ErrorContext":
            # converted by From, which is checked on its own
            return self.context(e)
        if is_agg(e) and e[2] == "Incomplete":
            raise Bad("an error without a position")
        if e[0] == "call" and e[1].split("::")[-1] in ("from_err", "from", "into"):
            return self.error(e[2][0]) if e[1].endswith("from_err") else self.context(e[2][0])
        if e[0] == "fld" and e[1][0] == "as" and e[1][2] == "Err":
            T = e[1][1]
            if T[0] == "call" and (T[1].startswith("@") or T[1].split("::")[-1].startswith("split_at_position")):
                i = T[2][-1] if T[1].startswith("@") else T[2][0]
                return self.suffix(i)
        raise Undecided("error %s" % pp(e)[:140])


def found(x):
    """The application of an optional skip_till the rest x behind its end comes from."""
    if x[0] == "fld" and x[2] == "0" and x[1][0] == "fld" and x[1][1][0] == "as" and x[1][1][2] == "Some":
        o = x[1][1][1]
        if o[0] == "fld" and o[2] == "1" and o[1][0] == "fld" and o[1][1][0] == "as" and o[1][1][2] == "Ok":
            T = o[1][1][1]
            if T[0] == "call" and T[1] == "@opt" and all(len(p) == 3 and p[2][0] == "o" and p[0][p[2][1]][0] == "skip_till" for p in T[2][0]):
                return T
    return None


def okpart(x):
    """An output of a parser: the text it has read, not a rest."""
    while x[0] in ("fld", "as"):
        if x[0] == "fld" and x[2] == "1" and x[1][0] == "fld" and x[1][2] == "0" and x[1][1][0] == "as" and x[1][1][2] == "Ok":
            T = x[1][1][1]
            return T[0] == "call" and T[1].startswith("@") and not any(y == "skip_till" for y in walk(T[2][:-1]))
        x = x[1]
    return False


def application(x):
    """The application a rest of the input comes from: of a parser, or of skip_till."""
    if x[0] == "fld" and x[2] == "0":
        y = x[1]
        if y[0] == "fld" and y[2] == "0" and y[1][0] == "as" and y[1][2] == "Ok" and y[1][1][0] == "call":
            T = y[1][1]
            if T[1].startswith("@") or T[1].split("::")[-1].startswith("split_at_position"):
                return T if T[1].startswith("@") else ("call", T[1], (T[2][0],))
        # the rest behind the end skip_till has found
        if y[0] == "fld" and y[2] == "1" and y[1][0] == "fld" and y[1][1][0] == "as" and y[1][1][2] == "Ok":
            T = y[1][1][1]
            if T[0] == "call" and T[1] == "@comb" and T[2][0] == ("str", "skip_till"):
                return T
    return None


def positions(C, G, n):
    R = C.R
    b = G.body(n)
    if G.input_index(n) is None:
        raise Undecided("no input")
    w = b.where()
    G.inner, G.given = [], []
    used = set()
    errs = []
    for p in G.paths(n):
        if p.status == "Err":
            for s, kind, v in G.results(G.E, p.st, p.rv):
                if kind == "Err":
                    errs.append((s, G.E.norm(s, v)))
    errs += [(st, e) for _, st, e in G.inner]
    seen = set()
    bad = False
    for st, e in errs:
        if e in seen:
            continue
        seen.add(e)
        P = Positions(G, n, st)
        try:
            P.error(e)
        except Bad as x:
            bad = True
            R.bad("at:" + n, "%s fails at a position which is no rest of its input: %s" % (n, x), w)
        used |= P.used
    if not bad:
        R.ok("at:" + n, "%d errors of %s point into its input" % (len(seen), n))
    C.__dict__.setdefault("_used", {}).setdefault(n, set()).update(P.texts[u] for u in used) if used else None
    C.__dict__.setdefault("_given", []).extend((n,) + g for g in G.given)


def given(C, G):
    """Texts used as positions which are no input of their parser: rests as well, wherever they are handed over."""
    for caller, st, name, i, x in getattr(C, "_given", ()):
        if i in getattr(C, "_used", {}).get(name, ()):
            P = Positions(G, caller, st)
            key = "given:%s:%s" % (caller, name)
            try:
                P.suffix(x)
                if P.used:
                    raise Undecided("handed on: %s" % pp(x)[:80])
                C.R.ok(key)
            except Bad as e:
                C.R.bad(key, "%s hands %s to %s as a position" % (caller, e, name), C.body(CR, caller).where())


# ------------------------------------------------------------------ the values themselves
def values(C):
    R = C.R
    G = Grammar(C)
    given(C, G)
    E = C.engine(CR)
    for b in G.crate.bodies:
        if b.kind != "AssocFn" or "ErrorContext" not in b.npath and not (b.trait and "ErrorContext" in str(b.selfty)):
            continue
        name = b.npath.split("::")[-1]
        if name in ("fmt",):
            continue
        w = b.where()
        for st, rv in E.run(b):
            rv = E.norm(st, rv)
            inp = [("param", "p%d" % i) for i in range(b.argc) if str(b.locals[i + 1][0]).replace("'a ", "").replace("'_ ", "") == "&str"]
            if name in ("new", "from_error_kind", "from_external_error", "unclosed"):
                # the text is the one parameter which can be a position: the last one, or the first
                want = [inp[-1] if name in ("new", "unclosed") else inp[0]] if inp else []
                got = dict(rv[3]).get("input") if is_agg(rv) else None
                R.check(want and got == want[0], "values:" + name, "%s keeps its position: %s" % (name, pp(rv)[:100]), w)
            elif name == "append":
                R.check(rv == ("param", "p%d" % (b.argc - 1)) or is_agg(rv) and dict(rv[3]).get("input") in (("fld", ("param", "p%d" % (b.argc - 1)), "input"), ("param", "p0")), "values:append", "append keeps a position: %s" % pp(rv)[:100], w)
            elif name == "from_err":
                p = ("param", "p0")
                v = [c[2] for c in st.conds if c[0] == "is" and c[1] == p]
                if v == ["Incomplete"]:
                    R.check(is_agg(rv, "Incomplete"), "values:from_err:Incomplete", pp(rv)[:100], w)
                elif v in (["Error"], ["Failure"]):
                    want = ("fld", ("fld", ("as", p, v[0]), "0"), "input")
                    ok = is_agg(rv, v[0]) and is_agg(rv[3][0][1]) and dict(rv[3][0][1][3]).get("input") == want
                    R.check(ok, "values:from_err:" + v[0], "from_err keeps the kind of the error and its position: %s" % pp(rv)[:160], w)
                else:
                    raise Undecided("from_err: %s" % v)
            elif name == "from":
                R.check(is_agg(rv) and rv[2] in ("Error", "Failure") and rv[3][0][1] == ("param", "p0"), "values:from", pp(rv)[:100], w)


# ------------------------------------------------------------------ coordinates
class Panics(Exception):
    pass


def cut8(s, a, b):
    """The bytes a..b of a string; Panics if they are none or no characters."""
    x = s.encode("utf-8")
    if not 0 <= a <= b <= len(x):
        raise Panics("%d..%d of %r" % (a, b, s))
    try:
        x[:a].decode("utf-8")
        return x[a:b].decode("utf-8")
    except UnicodeDecodeError:
        raise Panics("%d..%d of %r splits a character" % (a, b, s))


def aslist(v):
    return v if isinstance(v, list) else None


def T_(*xs):
    return ("agg", None, tuple(xs))


def some(x):
    return ("agg", "Some", (x,))


NONE_ = ("agg", "None", ())


class AnyOf(str):
    """A pattern of single characters."""


def pattern(t, env):
    v = evaluate(t, env)
    if isinstance(v, list) and all(isinstance(c, int) for c in v):
        return AnyOf("".join(map(chr, v)))
    return chr(v) if isinstance(v, int) and not isinstance(v, bool) else v


class Hook:
    """Strings and iterators over them."""

    def __init__(self, E, body):
        self.E, self.body = E, body

    def closure(self, f, args, env):
        """Value of a pure closure on concrete characters or numbers."""
        E = self.E
        from flow import State as FState
        st = self.st.copy()
        st.ev, st.conds = (), ()
        vals = []
        for s, r in E.apply(Frame(self.body, 990, 0, ()), st, f, list(args)):
            cs = [evcond(c, env) for c in s.conds]
            if None in cs:
                raise NoVal("closure")
            if all(cs):
                vals.append(evaluate(E.norm(s, r), env))
        if len(vals) != 1:
            raise NoVal("closure")
        return vals[0]

    def lift(self, v, env):
        """A term for a value."""
        t = ("param", "@v%d" % len(env))
        env[t] = v
        return t

    def __call__(self, t, env):
        k = t[0]
        if k == "code":
            if all(x[0] == "s" for x in t[1]):
                return "".join(x[1] for x in t[1])
        if k == "range":
            s = evaluate(t[1], env)
            if isinstance(s, str):
                return cut8(s, evaluate(t[2], env), evaluate(t[3], env))
        if k == "iter":
            xs = evaluate(t[1], env)
            if isinstance(xs, str):
                raise NoVal("iter of a string")
            xs = list(xs)
            for m in t[2]:
                if m[0] == "enumerate":
                    xs = [T_(i, x) for i, x in enumerate(xs)]
                elif m[0] in ("take", "skip"):
                    n = evaluate(m[1], env)
                    xs = xs[:n] if m[0] == "take" else xs[n:]
                elif m[0] == "rev":
                    xs = xs[::-1]
                elif m[0] in ("filter", "take_while", "skip_while", "map"):
                    ys = []
                    on = m[0] == "skip_while"
                    for x in xs:
                        e2 = dict(env)
                        r = self.closure(m[1], [self.lift(x, e2)], e2)
                        if m[0] == "map":
                            ys.append(r)
                        elif m[0] == "filter":
                            if r:
                                ys.append(x)
                        elif m[0] == "take_while":
                            if not r:
                                break
                            ys.append(x)
                        else:
                            on = on and r
                            if not on:
                                ys.append(x)
                    xs = ys
                else:
                    raise NoVal("iterator " + m[0])
            return xs
        if k == "call" and len(t) >= 3:
            f = t[1].split("::")[-1]
            a = t[2]
            x = evaluate(a[0], env) if a else None
            if isinstance(x, str):
                if f == "split_at":
                    n = evaluate(a[1], env)
                    return T_(cut8(x, 0, n), cut8(x, n, len(x.encode("utf-8"))))
                if f == "char_indices":
                    out, n = [], 0
                    for c in x:
                        out.append(T_(n, ord(c)))
                        n += len(c.encode("utf-8"))
                    return out
                if f == "lines":
                    ls = x.split("\n")
                    if ls[-1] == "":
                        ls.pop()
                    return [l[:-1] if l.endswith("\r") and i < x.count("\n") else l for i, l in enumerate(ls)]
                if f in ("split", "rsplit", "matches", "rfind", "find", "rsplit_once", "split_once", "split_terminator", "rsplitn", "rmatches"):
                    p = pattern(a[-1], env)
                    if not isinstance(p, str) or not p:
                        raise NoVal(f)
                    if isinstance(p, AnyOf):
                        if len(p) == 1:
                            p = str(p)
                        elif f in ("split", "rsplit", "matches"):
                            ls = re.split("[%s]" % re.escape(p), x)
                            return ls if f == "split" else ls[::-1] if f == "rsplit" else ["x"] * (len(ls) - 1)
                        else:
                            raise NoVal(f)
                    if f == "split":
                        return x.split(p)
                    if f == "rsplit":
                        return x.split(p)[::-1]
                    if f == "rsplitn":
                        return x.rsplit(p, evaluate(a[1], env) - 1)[::-1]
                    if f in ("matches", "rmatches"):
                        return [p] * x.count(p)
                    if f == "split_terminator":
                        ls = x.split(p)
                        return ls[:-1] if ls[-1] == "" else ls
                    if f in ("find", "rfind"):
                        n = x.find(p) if f == "find" else x.rfind(p)
                        return NONE_ if n < 0 else some(len(x[:n].encode("utf-8")))
                    ls = x.split(p, 1) if f == "split_once" else x.rsplit(p, 1)
                    return some(T_(*ls)) if len(ls) == 2 else NONE_
            if isinstance(x, list):
                if f in ("last", "next_back"):
                    return some(x[-1]) if x else NONE_
                if f in ("next", "first"):
                    return some(x[0]) if x else NONE_
                if f in ("nth", "get"):
                    n = evaluate(a[1], env)
                    return some(x[n]) if n < len(x) else NONE_
            if f in ("is_some", "is_none") and isinstance(x, tuple):
                return (x[1] == "Some") == (f == "is_some")
        raise NoVal(pp(t)[:80])


def debug(s):
    return ("debug", s)


def excerpt(t, env):
    """(text shown, marked): the text an excerpt term shows; None if it is no rendering of a text for debugging."""
    if t[0] == "code":
        ps = [p for p in t[1] if p != ("s", "")]
        if len(ps) in (1, 2) and ps[0][0] == "h" and ps[0][2] == "?":
            tail = None if len(ps) == 1 else ps[1][1] if ps[1][0] == "s" else False
            return evaluate(ps[0][1], env), tail
        if ps and ps[0] == ("s", '"'):
            raise Undecided("excerpt %s" % pp(t)[:100])
    raise Undecided("excerpt %s" % pp(t)[:120])


def coordinates(C, G):
    R = C.R
    b = G.body(FROM)
    w = b.where()
    src = ("param", "p0")
    paths = []
    for p in G.paths(FROM):
        if p.status == "Ok":
            continue
        rv = G.E.norm(p.st, p.rv)
        e = rv[3][0][1]
        if is_agg(e, "Incomplete"):
            R.check(any(c[0] == "is" and c[2] == "Incomplete" for c in p.conds), "coordinates:incomplete", "an error with a position loses it", w)
            continue
        if not is_agg(e, "Details"):
            raise Undecided("from_str: %s" % pp(e)[:100])
        d = dict(e[3])
        # the error it stands for
        es = [c for c in p.st.conds if c[0] == "is" and c[2] in ("Error", "Failure") and c[1][0] == "fld"]
        es += [c for c in p.st.conds if c[0] == "any" and all(x[0] == "is" and x[2] in ("Error", "Failure") for alt in c[1] for x in alt)]
        pos = {x for x in walk(tuple(d.values())) if isinstance(x, tuple) and len(x) == 3 and x[0] == "fld" and x[2] == "input" and not application(x)}
        pos |= {x for c in p.st.conds for x in walk(c) if isinstance(x, tuple) and len(x) == 3 and x[0] == "fld" and x[2] == "input"}
        if len(pos) != 1:
            raise Undecided("from_str: positions %s" % sorted(map(pp, pos))[:2])
        pos = pos.pop()
        ctx = pos[1]
        R.check(d.get("message") == ("fld", ctx, "message"), "coordinates:message", "the message handed over is %s" % pp(d.get("message", UNIT))[:100], w)
        k = [i for i in range(b.argc) if "Path" in str(b.locals[i + 1][0])]
        if len(k) != 1:
            raise Undecided("from_str: parameters")
        R.check(d.get("file_path") == ("param", "p%d" % k[0]), "coordinates:path", "the path handed over is %s" % pp(d.get("file_path", UNIT))[:100], w)
        kind = ctx[1] if ctx[0] == "fld" else None
        conds = tuple(c for c in p.st.conds if any(x == pos for x in walk(c)) and c[1] != (kind[1] if kind else None))
        paths.append((pos, d, conds, p.st))
    if not paths:
        raise Undecided("from_str reports no errors")
    consts = sorted({x[1] for pos, d, conds, _ in paths for t in (tuple(d.values()), conds) for x in walk(t) if isinstance(x, tuple) and len(x) == 2 and x[0] == "int" and isinstance(x[1], int) and not isinstance(x[1], bool) and 1 < x[1] < 400})
    lengths = sorted({0, 1, 2, 3} | {n + k for n in consts for k in (-1, 0, 1, 2)} | {2 * n + k for n in consts for k in (-1, 0, 1)} | {max(consts, default=9) * 3})
    befores = ["".join(x) for n in range(5) for x in product("aé\n\r", repeat=n)]
    afters = ["".join((u * n)[:n]) for n in lengths for u in ("a", "é", "aé", "\n\r", "éaa", "€")]
    cases = [(x, y) for x in befores for y in ("", "x\ny", "é" * 60)] + [(x, y) for x in ("", "a", "é\n", "\né") for y in afters]
    groups = {}
    for x in paths:
        groups.setdefault(x[0], []).append(x)
    kinds = set()
    for pos, ps in sorted(groups.items(), key=lambda x: repr(x[0])):
        kinds |= {c[1][2] for c in [pos[1]] if c[0] == "fld" and c[1][0] == "as"} if pos[1][0] == "fld" and pos[1][1][0] == "as" else set()
        hook = Hook(G.E, b)
        n = 0
        bad = {}
        kind = pos[1][1][2] if pos[1][0] == "fld" and pos[1][1][0] == "as" else "any"
        for before, after in cases:
            if before.endswith("\r"):
                continue
            env = {src: before + after, pos: after, "@hook": hook}
            hit = 0
            for _, d, conds, st in ps:
                hook.st = st
                try:
                    if not all(evaluate_cond(c, env) for c in conds):
                        continue
                    hit += 1
                    row, col = evaluate(d["row"], env), evaluate(d["column"], env)
                    text, tail = excerpt(d["source_after"], env)
                except Panics as e:
                    bad.setdefault("panics", "reporting an error panics: %s" % e)
                    hit = 1
                    break
                if row != before.count("\n"):
                    bad.setdefault("row", "row %s for the position behind %r" % (row, before))
                if col != len(before.split("\n")[-1]):
                    bad.setdefault("column", "column %s for the position behind %r" % (col, before))
                if not isinstance(text, str) or not after.startswith(text) or (text == "" and after != ""):
                    bad.setdefault("excerpt", "the excerpt of %r is %r" % (after[:30], text))
                elif (text == after) != (tail is None) or tail not in (None, "...", "…"):
                    bad.setdefault("mark", "%d characters shown of %d, %s" % (len(text), len(after), "marked as cut" if tail else "not marked"))
            if hit != 1:
                raise Undecided("from_str: %d ways to report an error" % hit)
            n += 1
        for what in ("row", "column", "excerpt", "mark", "panics"):
            R.check(what not in bad, "coordinates:%s" % what, bad.get(what, "%d positions" % n), w)


def evaluate_cond(c, env):
    """evcond, but evaluation errors are not conditions that are not met."""
    if c[0] == "t":
        return bool(evaluate(c[1], env)) == c[2]
    v = evaluate(c[1], env) if c[0] in ("is", "not") else None
    if c[0] == "is" and isinstance(v, tuple) and v[0] == "agg":
        return v[1] == c[2]
    if c[0] == "not" and isinstance(v, tuple) and v[0] == "agg":
        return v[1] not in c[2]
    if c[0] == "any":
        return any(all(evaluate_cond(x, env) for x in alt) for alt in c[1])
    raise NoVal(pp(c)[:80])


# ------------------------------------------------------------------ display
def display(C):
    R = C.R
    b = C.body(CR, "<ParseError as std::fmt::Display>::fmt")
    w = b.where()
    E = C.engine(CR, vocab={"strip_common": lambda E, fr, st, a, line: [(st, ("call", "@shown", tuple(E.norm(st, x) for x in a)))]}, record=lambda p: True)
    me = ("param", "p0")
    D = ("as", me, "Details")
    n = 0
    for st, rv in E.run(b):
        rv = E.norm(st, rv)
        if any(c[0] == "is" and c[1] == me and c[2] == "Incomplete" for c in st.conds):
            continue
        if any(c[0] == "is" and c[2] == "Err" and "write" in repr(c[1]) for c in st.conds):
            R.check(is_agg(rv, "Err") or rv[0] == "call" and "write" in rv[1], "display:error", "a failing writer is reported: %s" % pp(rv)[:80], w)
            continue
        n += 1
        pieces = []
        for e in st.ev:
            x = written(e) if e[0] == "call" else None
            if x is None:
                continue
            if x[1] is None:
                raise Undecided("display writes %s" % pp(e)[:100])
            pieces += x[1]
        pieces = [p for p in pieces]
        vals = [p[1] for p in pieces if p[0] == "v"]
        if any(p[0] == "args" for p in pieces):
            raise Undecided("display writes %s" % pp(pieces)[:100])
        msg, path = ("fld", D, "message"), ("fld", D, "file_path")
        has = lambda f, v: any(c[0] == "is" and c[1] == ("fld", D, f) and c[2] == v for c in st.conds)
        row = [i for i, v in enumerate(vals) if v in (("bin", "Add", ("fld", D, "row"), ("int", 1)), ("bin", "Add", ("int", 1), ("fld", D, "row")))]
        col = [i for i, v in enumerate(vals) if v == ("fld", D, "column")]
        txt = [i for i, v in enumerate(vals) if v == ("fld", D, "source_after")]
        R.check(len(row) == 1 and len(col) == 1 and len(txt) == 1 and row < col < txt, "display:coordinates", "row from one, column and excerpt are shown once: %s" % [pp(v)[:40] for v in vals], w)
        shown = [v for v in vals if any(x == ("as", msg, "Some") or x == msg for x in walk(v))]
        if has("message", "Some"):
            R.check(len(shown) == 1, "display:message", "the message is shown once: %s" % [pp(v)[:40] for v in shown], w)
        elif has("message", "None"):
            R.check(not shown, "display:no-message", "nothing stands for a missing message", w)
        else:
            raise Undecided("display: message unknown")
        shown = [i for i, v in enumerate(vals) if any(x == ("as", path, "Some") or x == path for x in walk(v))]
        dirless = any(c[0] == "is" and c[2] == "Err" and "current_dir" in repr(c[1]) for c in st.conds)
        if has("file_path", "Some") and not dirless:
            R.check(len(shown) == 1 and row and shown[0] < row[0], "display:path", "the path is shown once, in front of the row: %s" % [pp(vals[i])[:60] for i in shown], w)
        elif has("file_path", "None"):
            R.check(not shown, "display:no-path", "no path is shown for an inline template", w)
        elif not has("file_path", "Some"):
            raise Undecided("display: path unknown")
        # numbers which stand side by side must be told apart
        R.check(all(not (x[0] == "v" and y[0] == "v") for x, y in zip(pieces, pieces[1:])), "display:apart", "row, column and excerpt are told apart", w)
    if not n:
        raise Undecided("display shows nothing")


# ------------------------------------------------------------------ the derive crate
def derive(C):
    R = C.R
    bs = [x for x in C.P.crates["askama_derive"].bodies if x.path.split("::")[-1] == "from" and "CompileError" in x.path and "ParseError" in x.path]
    if len(bs) != 1:
        raise Missing("From<ParseError> for CompileError")
    b = bs[0]
    E = C.engine("askama_derive")
    for st, rv in E.run(b):
        rv = E.norm(st, rv)
        ok = any(x == ("param", "p0") for x in walk(rv))
        R.check(ok, "derive:text", "the compile error is made of the parser's error: %s" % pp(rv)[:120], b.where())
    parsed(C)


def parsed(C):
    """Each template is parsed with the path of the file its text comes from, an inline template with none."""
    R = C.R
    from g10 import Walk, pure, base_of, fields, FIND, SRC, PARSE, flat_events
    W = Walk(C, "input::TemplateInput::find_used_templates", max_depth=3,
             extra={FIND: pure("find"), SRC: pure("source"), PARSE: pure("parse"), "askama_parser::Parsed::nodes": pure("nodes")})
    w = W.b.where()
    POP = ("pop", "pop_front")
    selfp, srcs = ("fld", ("param", "p0"), "path"), ("fld", ("param", "p0"), "source")
    files, inlines = 0, 0
    for conds, evs, rv, st in W.paths:
        if not is_agg(rv, "Ok"):
            continue
        lps = [e for e in evs if e[0] == "loop" and any(c[0] == "is" and c[1][0] == "call" and c[1][1].split("::")[-1] in POP for a in e[2] for c in a[0])]
        if len(lps) != 1:
            raise Undecided("%d work lists" % len(lps))
        lp = lps[0]
        first = [x for lv, v in lp[3] for x in walk(v) if isinstance(x, tuple) and is_agg(x) and x[1] == "tuple" and fields(x).get("0") == selfp]
        inline = ("is", srcs, "Source") in conds
        for a in lp[2]:
            pop = [c[1] for c in a[0] if c[0] == "is" and c[2] == "Some" and c[1][0] == "call" and c[1][1].split("::")[-1] in POP]
            if not pop:
                raise Undecided("iteration of the work list")
            item = ("fld", ("as", pop[0], "Some"), "0")
            ps = {x for x in walk((a[0], a[1])) if isinstance(x, tuple) and x[:2] == ("call", "parse")}
            if len(ps) != 1:
                raise Undecided("%d parses of an item" % len(ps))
            arg = ps.pop()[2][1]

            def given(it):
                """The path argument for an item put on the list."""
                f = fields(it)

                def go(t):
                    if not isinstance(t, tuple):
                        return t
                    if len(t) == 3 and t[0] == "fld" and t[1] == item and t[2] in f:
                        return base_of(f[t[2]])
                    if t == item:
                        return it
                    return tuple(go(x) for x in t)
                return base_of(go(arg))
            apps = [e[3] for e in flat_events(a[1]) if e[0] == "op" and e[1] == "append" and is_agg(e[3]) and first and set(fields(e[3])) == set(fields(first[0]))]
            for it, isfile in [(x, not inline) for x in first] + [(x, True) for x in apps]:
                p = base_of(fields(it)["0"])
                g = given(it)
                if not is_agg(g) or g[2] not in ("Some", "None"):
                    raise Undecided("path given to the parser: %s" % pp(g)[:100])
                if isfile:
                    files += 1
                    R.check(g[2] == "Some" and base_of(g[3][0][1]) == p, "derive:file", "the template read from %s is parsed with the path %s" % (pp(p)[-60:], pp(g)[-80:]), w)
                else:
                    inlines += 1
                    R.check(g[2] == "None", "derive:inline", "an inline template has no file: %s" % pp(g)[-80:], w)
    if not files or not inlines:
        raise Undecided("%d files and %d inline templates" % (files, inlines))
