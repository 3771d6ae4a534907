"""The parsers of names, literals and paths are read as a grammar (parslib), and every such grammar is turned into a finite
automaton: the set of all u#v such that the parser, given the text uv, succeeds and consumes exactly u. Ordered choice, options,
greedy repetition and the failure of alternatives tried before are exact in this construction; predicates on characters are
evaluated on a representative of every class of characters. The automaton must be equal to that of the rule, which reads the
longest text that is an identifier, a number, a string or a path; so what is read is decided for every text. The value of the
token must be the text read, without the quotes. What the code of path_or_identifier makes of the parts is evaluated on all
combinations of root, number of components and kind of the first letter."""
from itertools import product as cross
from rules import *
from parslib import Grammar, expand, tup, rest_of, pg, simp
from p07 import evaluate, Panics, NONE_, some as some_v
from f01 import Text, holds
import dfa

CR = "askama_parser"
REPS = list(range(128)) + [0x80, 0xE9, 0xC9, 0xDF, 0xA0, 0x663, 0x2028, 0x5B57, 0x1F600, 0x10FFFF]
SPLIT = ["<&'a str as nom::InputTakeAtPosition>::split_at_position", "nom::InputTakeAtPosition::split_at_position"]

ID = "[A-Za-z_\x80-\U0010ffff][A-Za-z0-9_\x80-\U0010ffff]*"
INT = "(?:[iu](?:8|16|32|64|128|size))"
FLT = "(?:f32|f64)"
DEC = "(?:[0-9][0-9_]*)"
NUM = "-?(?:0(?:b_*[01][01_]*|o_*[0-7][0-7_]*|x_*[0-9a-fA-F][0-9a-fA-F_]*)" + INT + "?|" + DEC + \
    "(?:" + INT + "|" + FLT + "|(?:\\." + DEC + ")?[eE][+-]?_*[0-9][0-9_]*" + FLT + "?|\\." + DEC + FLT + "?)?)"
STR = '"(?:[^"\\\\]|\\\\.)*"'
WS = "[ \t\r\n]*"
PATH = WS + "(?:::" + WS + ")?" + ID + "(?:" + WS + "::" + WS + ID + ")*"


def hexgt(k):
    """Strings of hexadecimal digits with a value above k."""
    A = "[0-9a-fA-F]"
    alts = []
    for n in range(1, 9):
        if k < 0:
            alts.append(A + "{%d}" % n)
            continue
        if k >= 16 ** n:
            continue
        ds = [(k >> 4 * (n - 1 - i)) & 15 for i in range(n)]
        one = lambda d: "[%x%X]" % (d, d)
        for i, d in enumerate(ds):
            if d < 15:
                alts.append("".join(one(x) for x in ds[:i]) + "[" + "".join("%x%X" % (x, x) for x in range(d + 1, 16)) + "]" + (A + "{%d}" % (n - i - 1) if n - i - 1 else ""))
    return "|".join(alts) if alts else None


HEX = "\\+?[0-9a-fA-F]{1,8}"
CHAR = "'(?:[^'\\\\]|\\\\[nrt\\\\0'\"]|\\\\x[0-7][0-9a-fA-F]|\\\\u\\{(?:10[0-9a-fA-F]{4}|0?[0-9a-fA-F]{1,5})\\})'"


def run(C):
    R = C.R
    R.floor = 6
    T = Tokens(C)
    R.section("blanks", blanks, C, T)
    R.section("identifier", token, C, T, "identifier", ID, "identifier")
    R.section("number", token, C, T, "num_lit", NUM, "numeric literal")
    R.section("string", token, C, T, "str_lit", STR, "string literal", 1)
    R.section("char", token, C, T, "char_lit", CHAR, "character literal", 1)
    R.section("path", token, C, T, "path_or_identifier", PATH, "path")
    R.section("kind", kind, C, T)
    R.section("keyword", keyword, C, T)
    R.section("literals", literals, C)


class Chars(Text):
    """Predicates on characters."""

    def __call__(self, t, env):
        if t[0] == "call" and len(t) >= 3 and t[2]:
            f, a = t[1].split("::")[-1], t[2]
            if f in ("chars", "count", "as_char", "first", "next", "unwrap_or_default", "as_str", "default"):
                pass
            x = evaluate(a[0], env)
            if isinstance(x, str) and f == "chars":
                return [ord(c) for c in x]
            if isinstance(x, list) and f == "count":
                return len(x)
            if isinstance(x, int) and not isinstance(x, bool):
                c = chr(x)
                asc = x < 128
                if f in ("as_char", "clone", "into", "from"):
                    return x
                if f in ("is_alpha", "is_ascii_alphabetic"):
                    return asc and c.isalpha()
                if f in ("is_alphanum", "is_ascii_alphanumeric"):
                    return asc and c.isalnum()
                if f in ("is_dec_digit", "is_ascii_digit"):
                    return asc and c.isdigit()
                if f in ("is_hex_digit", "is_ascii_hexdigit"):
                    return asc and c in "0123456789abcdefABCDEF"
                if f == "is_oct_digit":
                    return asc and c in "01234567"
                if f == "is_digit":
                    n = evaluate(a[1], env)
                    return asc and c.lower() in "0123456789abcdefghijklmnopqrstuvwxyz"[:n]
                if f == "is_ascii":
                    return asc
                if f == "to_digit":
                    n = "0123456789abcdefghijklmnopqrstuvwxyz"[:evaluate(a[1], env)].find(c.lower()) if asc else -1
                    return NONE_ if n < 0 else some_v(n)
                if f == "is_alphabetic":
                    return c.isalpha()
                if f == "is_numeric":
                    return c.isnumeric()
                if f == "is_alphanumeric":
                    return c.isalpha() or c.isnumeric()
                if f == "is_lowercase":
                    return c.islower()
                if f == "is_uppercase":
                    return c.isupper()
                if f == "is_ascii_lowercase":
                    return asc and c.islower()
                if f == "is_ascii_uppercase":
                    return asc and c.isupper()
                if f in ("is_whitespace",):
                    return c.isspace()
                if f == "is_ascii_whitespace":
                    return c in " \t\n\r\x0c"
                if f == "is_control":
                    return x < 32 or 127 <= x < 160
                if f == "len_utf8":
                    return len(c.encode("utf-8"))
        if t[0] == "call" and t[1].split("::")[-1] == "default" and not t[2]:
            return []
        return Text.__call__(self, t, env)


class Tokens:
    """The token parsers as expressions over character sets, and as automata."""

    def __init__(self, C):
        self.C = C

        def leaf(E, fr, st, a, line):
            v = [E.norm(st, E.deref(st, x) if x[0] == "ref" else x) for x in a]
            return self.G.leaf(E, st, "nom::split1", (v[1],), v[0])

        def leaf0(E, fr, st, a, line):
            v = [E.norm(st, E.deref(st, x) if x[0] == "ref" else x) for x in a]
            return self.G.leaf(E, st, "nom::split", (v[1],), v[0])
        V = {}
        for s in SPLIT:
            V[s + "1_complete"] = leaf
            V[s + "_complete"] = leaf0
        self.G = Grammar(C, extra=V, depth=14)
        self.G.frozen_combs = {n for n in self.G.frozen_combs if n == "skip_till"}
        self.G.E = self.G.engine()
        self.G.E.any_limit = 5000
        self.asts, self.preds, self.rx = {}, set(), {}
        self.autos = {}

    # ------------------------------------------------------------ character predicates
    def hook(self):
        b = self.C.body(CR, "identifier")
        H = Chars(self.G.E, b)
        H.st = self.state()
        return H

    def state(self):
        p = self.G.paths("identifier")
        return p[0].st

    def pred(self, f):
        """The characters for which a closure or function holds."""
        if ("p", f) in self.autos:
            return self.autos[("p", f)]
        H = self.hook()
        out = set()
        for c in REPS:
            env = {"@hook": H}
            try:
                v = H.closure(f, [H.lift(c, env)], env)
            except NoVal as e:
                raise Undecided("predicate %s: %s" % (pp(f)[:60], str(e)[:60]))
            if v is True:
                out.add(c)
            elif v is not False:
                raise Undecided("predicate %s" % pp(f)[:60])
        out = frozenset(out)
        self.autos[("p", f)] = out
        return out

    def pattern(self, a):
        if a[0] == "str":
            return frozenset(ord(c) for c in a[1])
        if a[0] in ("arr", "vec"):
            if all(x[0] == "char" for x in a[1]):
                return frozenset(ord(x[1]) for x in a[1])
        if a[0] == "ref":
            return self.pattern(self.G.E.deref(self.state(), a))
        if a[0] == "range" or is_agg(a) and "Range" in str(a[1]):
            raise Undecided("pattern %s" % pp(a)[:40])
        raise Undecided("pattern %s" % pp(a)[:40])

    @staticmethod
    def rest(s):
        return frozenset(c for c in REPS if c not in s)

    # ------------------------------------------------------------ expressions
    def alts(self, P):
        if any(len(a) > 3 for a in P):
            raise Undecided("input is not passed on in order")
        out = []
        for a in P:
            for steps, conds, o in expand(a[0], a[1], a[2]):
                out.append(self.path(steps, conds))
        return ("alt", tuple(out))

    def path(self, steps, conds):
        """Conditions may only concern the options (which expand() has replaced) or the number of characters of the text."""
        restr = {}
        whole = []
        inner = {}
        for c in conds:
            if c[0] == "side":
                inner.setdefault(c[1], []).append(c)
            elif c[0] == "t" and (n := self.count_cond(c)) is not None:
                whole.append((n[0], n[1]))
            else:
                k = [x for x in self.outs(c)]
                if len(set(k)) == 1 and any(s[0] == "side" and s[1] == k[0] for s in conds):
                    inner.setdefault(k[0], []).append(c)
                else:
                    raise Undecided("condition %s" % pp(c)[:100])
        for k, cs in inner.items():
            side = [c for c in cs if c[0] == "side"]
            if len(side) != 1:
                raise Undecided("nested parser")
            src = side[0][2]
            if src[0] != "o" or src[1] == k[1]:
                raise Undecided("text of the nested parser: %s" % pp(src)[:60])
            restr.setdefault(src[1], []).append(("parsed", steps[k[1]][1], tuple(c for c in cs if c[0] != "side"), k))
        seq = []
        sides = {k[1] for k in inner}
        for i, s in enumerate(steps):
            if i in sides:
                continue
            x = self.step(s)
            for r in restr.get(i, ()):
                x = ("restrict", x, r)
            seq.append(x)
        x = ("seq", tuple(seq))
        for n, pos in whole:
            x = ("count", x, n, pos)
        return x

    @staticmethod
    def outs(c):
        from g10 import walk
        return [x for x in walk(c) if isinstance(x, tuple) and len(x) == 2 and x[0] == "o"] + [("o", x[1] - 1) for x in walk(c) if isinstance(x, tuple) and len(x) == 2 and x[0] == "in" and isinstance(x[1], int)]

    MOST = 13

    def count_cond(self, c):
        """A condition on the number of characters or bytes of the whole text: (unit, the numbers for which it holds)"""
        from g10 import walk
        t = c[1]
        chars = ("call", "chars", (("in", 0),))
        units = {("call", "count", (("iter", chars, ()),)): "chars", ("call", "count", (chars,)): "chars", ("lenof", ("in", 0)): "bytes"}
        used = [x for x in walk(t) if isinstance(x, tuple) and x in units]
        if t == ("empty", ("in", 0)):
            return "chars", frozenset(n for n in range(self.MOST + 1) if (n == 0) == c[2])
        if len(set(used)) != 1 or any(isinstance(x, tuple) and x[:1] == ("int",) and x[1] >= self.MOST for x in walk(t)):
            return None
        try:
            return units[used[0]], frozenset(n for n in range(self.MOST + 1) if bool(evaluate(t, {used[0]: n})) == c[2])
        except NoVal:
            return None

    def cls(self, s):
        s = frozenset(s)
        self.preds.add(s)
        return ("cls", s)

    def step(self, s):
        k = s[0]
        if k == "tag":
            if not isinstance(s[1], str):
                raise Undecided("tag %s" % pp(s[1])[:40])
            for c in s[1]:
                if ord(c) not in REPS:
                    raise Undecided("tag %s" % s[1])
            return ("seq", tuple(self.cls({ord(c)}) for c in s[1]))
        if k == "ws":
            return ("many", self.cls(self.rest(self.pred(("fn", "not_ws", None, ())))), 0)
        if k == "opt":
            x = self.alts(s[1])
            return ("alt", (x, ("fail", (x,))))
        if k == "many":
            return ("many", self.alts(s[1]), s[2])
        if k == "sep":
            x, y = self.alts(s[2]), self.alts(s[1])
            z = ("seq", (x, ("many", ("seq", (y, x)), 0)))
            return z if s[3] else ("alt", (z, ("fail", (x,))))
        if k == "not":
            return ("fail", (self.alts(s[1]),))
        if k == "peek":
            return ("peek", self.alts(s[1]))
        if k == "no":
            return ("fail", tuple(self.alts(P) for P in s[1]))
        if k == "mark":
            return ("seq", ())
        if k == "nt":
            return ("nt", s[1])
        if k == "leaf":
            n, a = s[1], s[2]
            if n == "satisfy":
                return self.cls(self.pred(a[0]))
            if n == "anychar":
                return self.cls(REPS)
            if n in ("one_of", "is_a"):
                x = self.cls(self.pattern(a[0]))
                return x if n == "one_of" else ("many", x, 1)
            if n in ("none_of", "is_not"):
                x = self.cls(self.rest(self.pattern(a[0])))
                return x if n == "none_of" else ("many", x, 1)
            if n in ("take_while", "take_while1"):
                return ("many", self.cls(self.pred(a[0])), int(n[-1] == "1"))
            if n in ("take_till", "take_till1", "split1", "split"):
                return ("many", self.cls(self.rest(self.pred(a[0]))), int(n[-1] == "1"))
            if n in ("digit1", "alpha1", "alphanumeric1", "multispace0"):
                s = {"digit1": lambda c: c.isdigit(), "alpha1": lambda c: c.isalpha(), "alphanumeric1": lambda c: c.isalnum(), "multispace0": lambda c: c in " \t\r\n"}[n]
                return ("many", self.cls(c for c in REPS if c < 128 and s(chr(c))), int(n[-1]))
            if n == "take_while_m_n" and a[0][0] == a[1][0] == "int" and a[1][1] <= 40:
                x = self.cls(self.pred(a[2]))
                lo, hi = a[0][1], a[1][1]
                y = ("seq", ())
                for _ in range(hi - lo):
                    y = ("alt", (("seq", (x, y)), ("fail", (x,))))
                return ("seq", (x,) * lo + (y,))
            if n == "take" and a[0][0] == "int" and a[0][1] <= 40:
                return ("seq", (self.cls(REPS),) * a[0][1])
            if n == "eof":
                return ("eof",)
            if n == "escaped" and a[0][0] == a[2][0] == "P" and a[1][0] == "char":
                x, ctl, y = self.alts(a[0][1]), self.cls({ord(a[1][1])}), self.alts(a[2][1])
                # a character that is neither ends it; the control character must be followed by something
                return ("seq", (("many", ("alt", (x, ("seq", (("fail", (x,)), ctl, y)))), 1), ("fail", (x, ctl))))
        if k == "comb":
            raise Undecided("parser %s" % s[1])
        raise Undecided("step %s" % str(s)[:60])

    def fn(self, name):
        """[(expression, output, steps, conditions)] of the successful paths"""
        if name in self.asts:
            return self.asts[name]
        self.asts[name] = None
        out = []
        for p in self.G.paths(name):
            if p.status != "Ok":
                continue
            steps, conds, sides, lin = self.linear(p)
            if name == "path_or_identifier":
                conds = []  # they only decide the value; kind() checks that there is one in every case
            for st, cs, o in expand(tuple(steps), tuple(conds), tup(p.out, *[("in", len(steps))])):
                vals = [x for _, x in o[3]]
                out.append((st, cs, vals[0], sides, p))
        self.asts[name] = out
        return out

    def linear(self, p):
        """The steps of a path, of which those that parse the text of another one are marked."""
        conds, steps = list(p.conds), list(p.steps)
        if p.linear or not steps:
            return steps, conds, 0, True
        cur = None
        k = 0
        d = dict(p.names)
        seen = [e[2] for e in p.evs if e[0] == "op" and e[1] == "step"]
        nsides = 0
        last = ("in", 0)
        for t in seen:
            if t not in {x for x in d} and ("call" != t[0]):
                continue
            o = d.get(("fld", ("fld", ("as", t, "Ok"), "0"), "1"))
            if o is None:
                continue
            i = self.G.rename(t[2][-1], p.names)
            if i != last:
                x = i
                conds.append(("side", o, x))
                nsides += 1
                continue
            if t[1] not in ("@not", "@peek"):
                last = ("in", o[1] + 1)
        rest = self.G.rename(self.G.E.norm(p.st, rest_of(p.rv)), p.names)
        rest = simp(rest)
        if nsides and rest != last or not nsides:
            raise Undecided("input is not passed on in order: %s" % pp(rest)[:60])
        return steps, conds, nsides, True

    # ------------------------------------------------------------ automata
    def alphabet(self, regexes):
        """Classes of characters that no predicate and no rule tells apart."""
        import re
        sig = {}
        singles = sorted({c for s in self.preds if len(s) == 1 for c in s})
        rxs = []
        for r in regexes:
            rxs += re.findall(r"\[(?:\\.|[^\]\\])*\]|\\.|.", r, re.S)
        rxs = sorted(set(rxs))
        cache = []
        for r in rxs:
            try:
                cache.append(re.compile(r, re.S))
            except re.error:
                cache.append(re.compile(re.escape(r), re.S))
        for c in REPS:
            key = (len(chr(c).encode("utf-8")), tuple(c in s for s in sorted(self.preds, key=sorted)), tuple(bool(x.fullmatch(chr(c))) for x in cache))
            sig.setdefault(key, []).append(c)
        self.classes = list(sig.values())
        self.n = len(self.classes)
        self.autos = {k: v for k, v in self.autos.items() if k[0] == "p"}

    def of(self, s):
        return [i for i, c in enumerate(self.classes) if c[0] in s]

    def regex(self, r):
        return dfa.regex(r, self.n, lambda f: [i for i, c in enumerate(self.classes) if f(c[0])])

    def auto(self, x):
        if x in self.autos:
            return self.autos[x]
        r = self.auto_(x)
        self.autos[x] = r
        return r

    def auto_(self, x):
        k = x[0]
        n = self.n
        if k == "cls":
            return dfa.one(n, self.of(x[1]))
        if k == "seq":
            if not x[1]:
                return dfa.epsilon(n)
            A = self.auto(x[1][-1])
            for y in x[1][-2::-1]:
                A = dfa.seq(self.auto(y), A)
            return A
        if k == "alt":
            A = dfa.empty(n)
            for y in x[1]:
                A = dfa.union(A, self.auto(y))
            return A
        if k == "fail":
            A = dfa.anytext(n)
            for y in x[1]:
                A = dfa.inter(A, dfa.fails(self.auto(y)))
            return dfa.at_start(A)
        if k == "peek":
            return dfa.at_start(dfa.proj(self.auto(x[1])))
        if k == "many":
            return dfa.many(self.auto(x[1]), x[2])
        if k == "eof":
            return dfa.end(n)
        if k == "count":
            # counts the text, wherever the mark is
            size = [len(chr(c[0]).encode("utf-8")) if x[2] == "bytes" else 1 for c in self.classes]
            U = dfa.D(n, [{**{a: min(q + size[a], self.MOST) for a in range(n)}, dfa.MARK: q} for q in range(self.MOST + 1)], set(x[3]))
            return dfa.inter(self.auto(x[1]), U)
        if k == "nt":
            return self.auto(("alt", self.exprs(x[1])))
        if k == "restrict":
            return dfa.restrict(self.auto(x[1]), self.texts(x[2]))
        raise Undecided("expression " + k)

    def exprs(self, name):
        """The expressions of the paths of a function."""
        out = []
        for steps, conds, o, sides, p in self.fn(name):
            out.append(self.whole(p) if not p.steps and not p.linear else self.path(steps, conds))
        return tuple(out)

    def whole(self, p):
        """A path without steps that returns the empty rest consumes everything."""
        rest = simp(self.G.E.norm(p.st, rest_of(p.rv)))
        if rest not in (("str", ""), ("code", ())):
            raise Undecided("rest %s" % pp(rest)[:40])
        x = ("seq", (("many", self.cls(REPS), 0), ("eof",)))
        for c in p.conds:
            n = self.count_cond(c) if c[0] == "t" else None
            if n is None:
                raise Undecided("condition %s" % pp(c)[:80])
            x = ("count", x, n[0], n[1])
        return x

    def texts(self, r):
        """The texts a nested parser accepts under the conditions on its result."""
        _, name, conds, k = r
        complete = False
        variants, numeric = None, []
        for c in conds:
            if c == ("t", ("empty", ("in", k[1] + 1)), True) or c[0] == "is" and c[1] == ("in", k[1] + 1):
                complete = True
            elif c[0] == "is" and c[1] == k:
                variants = {c[2]} if variants is None else variants & {c[2]}
            elif c[0] == "t" and c[1][0] == "bin" or c[0] == "is" and c[1][0] == "call" and "from_str_radix" in c[1][1]:
                numeric.append(c)
            else:
                raise Undecided("condition %s" % pp(c)[:100])
        L = dfa.empty(self.n)
        if not any(True for _ in self.fn(name)):
            raise Undecided("no path of %s" % name)
        for steps, cs, o, sides, p in self.fn(name):
            if not is_agg(o):
                raise Undecided("result %s" % pp(o)[:60])
            if variants is not None and o[2] not in variants:
                continue
            x = self.whole(p) if not p.steps and not p.linear else None
            if x is None:
                restr = {}
                for c in numeric:
                    j, lang = self.number(c, k, o)
                    restr.setdefault(j, []).append(lang)
                seq = []
                for i, s in enumerate(steps):
                    y = self.step(s)
                    for l in restr.get(i, ()):
                        y = ("among", y, l)
                    seq.append(y)
                x = ("seq", tuple(seq))
                for c in cs:
                    n = self.count_cond(c) if c[0] == "t" else None
                    if n is None:
                        raise Undecided("condition %s" % pp(c)[:80])
                    x = ("count", x, n[0], n[1])
            elif numeric:
                raise Undecided("number of %s" % pp(o)[:40])
            A = self.among(x)
            if complete:
                A = dfa.inter(A, dfa.D(self.n, [{**{a: 0 for a in range(self.n)}, dfa.MARK: 1}, {}], {1}))
            L = dfa.union(L, dfa.proj(A))
        return L

    def among(self, x):
        if x[0] == "seq":
            A = dfa.epsilon(self.n)
            for y in x[1]:
                A = dfa.seq(A, self.among(y))
            return A
        if x[0] == "count":
            y = self.among(x[1])
            self.autos[("done", id(x))] = y
            return self.auto_(("count", ("done", id(x)), x[2], x[3]))
        if x[0] == "among":
            return dfa.restrict(self.among(x[1]), x[2])
        return self.auto(x)

    def number(self, c, k, o):
        """A condition on the value of hexadecimal digits: (step, language)"""
        from g10 import walk
        calls = [x for x in walk(c) if isinstance(x, tuple) and x[:1] == ("call",) and "from_str_radix" in str(x[1])]
        if len(set(calls)) != 1 or calls[0][2][1] != ("int", 16):
            raise Undecided("condition %s" % pp(c)[:100])
        t = calls[0]
        a = t[2][0]
        if a != ("fld", ("as", k, o[2]), "0"):
            raise Undecided("digits %s" % pp(a)[:60])
        d = dict(o[3])["0"]
        if d[0] != "o":
            raise Undecided("digits %s" % pp(d)[:60])
        if c[0] == "is":
            L = self.regex(HEX)
            return d[1], L if c[2] == "Ok" else dfa.complement(L)
        v = ("fld", ("as", t, "Ok"), "0")
        op, x, y = c[1][1], c[1][2], c[1][3]
        if op in ("Lt", "Le") and y == v and x[0] == "int":
            K, pos = x[1] - (op == "Le"), True
        elif op in ("Lt", "Le") and x == v and y[0] == "int":
            K, pos = y[1] - (op == "Lt"), False
        else:
            raise Undecided("condition %s" % pp(c)[:100])
        r = hexgt(K)
        L = self.regex("\\+?(?:" + r + ")") if r else dfa.empty(self.n)
        return d[1], L if pos == c[2] else dfa.complement(L)

    def show(self, w):
        if w is None:
            return None
        i = w.index(dfa.MARK) if dfa.MARK in w else len(w)
        f = lambda xs: "".join(chr(self.nice(self.classes[x])) for x in xs)
        return f(w[:i]), f(w[i + 1:])

    @staticmethod
    def nice(cs):
        for c in cs:
            if 97 <= c < 123 or 48 <= c < 58:
                return c
        for c in cs:
            if 33 <= c < 127:
                return c
        return cs[0]


# ------------------------------------------------------------------ the tokens
def token(C, T, fn, rule, what, quotes=0):
    R = C.R
    if fn not in T.G.parsers:
        raise Missing(fn)
    where = C.body(CR, fn).where()
    ps = T.fn(fn)
    if not ps:
        raise Undecided("no successful path")
    xs = T.exprs(fn)
    need(T, fn, set())
    T.alphabet([rule, "[0-9]", "[a-f]", "[A-F]", "+"] + ["[%x%X]" % (d, d) for d in range(16)])
    A = T.auto(("alt", xs))
    B = dfa.longest(T.regex(rule))
    more, less = T.show(dfa.witness(dfa.minus(A, B))), T.show(dfa.witness(dfa.minus(B, A)))
    if less:
        # what does it do instead?
        R.bad("%s:reads" % fn, "of the text %r, %r is the %s, but it is not read as that" % ("".join(less), less[0], what), where)
    elif more:
        R.bad("%s:reads" % fn, "of the text %r, %r is read as the %s" % ("".join(more), more[0], what), where)
    else:
        R.ok("%s:reads" % fn, "the %s read is the longest one, for every text (%d classes of characters, %d states)" % (what, T.n, len(A.d)), where)
    if fn == "path_or_identifier":
        return
    for steps, conds, o, sides, p in ps:
        main = [i for i, s in enumerate(steps) if not any(c[0] == "side" and c[1] == ("o", i) for c in conds) and s[0] not in ("mark", "no", "not", "peek")]
        end = main[-1] + 1 if main else 0
        a = b = None
        if o[0] == "call" and o[1] == "@text" and o[2][0][0] == o[2][1][0] == "in":
            a, b = o[2][0][1], o[2][1][1]
        elif o[0] == "o" and steps[o[1]][0] == "leaf":
            a, b = o[1], o[1] + 1
        elif o in (("code", ()), ("str", "")):
            R.check(quotes and all(steps[i][0] == "tag" for i in main) and sum(len(steps[i][1]) for i in main) == 2, "%s:value" % fn, "nothing is between the quotes: %s" % pg(((steps, (), o),))[:100], where)
            continue
        else:
            raise Undecided("value %s" % pp(o)[:80])
        before, after = [steps[i] for i in main if i < a], [steps[i] for i in main if i >= b]
        if any(s[0] not in ("tag",) for s in before + after) and not (all(s[0] == "tag" for s in before) or all(s[0] == "tag" for s in after)):
            raise Undecided("value %s" % pp(o)[:80])
        n = lambda ss: sum(len(s[1]) if s[0] == "tag" else 9 for s in ss)
        R.check(n(before) == quotes and n(after) == quotes, "%s:value" % fn, "the value is the text read%s: %s of %s" % (", without the quotes" if quotes else "", pp(o)[:40], pg(((steps, (), o),))[:100]), where)


def need(T, fn, seen):
    """Compile the functions used, so that their predicates are known."""
    if fn in seen:
        return
    seen.add(fn)
    from g10 import walk
    for name in {x[1] for x in walk(T.exprs(fn)) if isinstance(x, tuple) and len(x) == 2 and x[0] == "nt"}:
        need(T, name, seen)
    for name in {x[1] for x in walk(T.exprs(fn)) if isinstance(x, tuple) and len(x) == 4 and x[0] == "parsed"}:
        need(T, name, seen)


def blanks(C, T):
    R = C.R
    where = C.body(CR, "not_ws").where()
    s = T.rest(T.pred(("fn", "not_ws", None, ())))
    R.check(s == frozenset(map(ord, " \t\r\n")), "blanks", "blanks between tokens are space, tab, carriage return and line feed: %s" % sorted(s), where)


# ------------------------------------------------------------------ variable or path
def kind(C, T):
    R = C.R
    fn = "path_or_identifier"
    b = C.body(CR, fn)
    where = b.where()
    H = Chars(T.G.E, b)
    cases = 0
    firsts = "aéz_字ßAÉZ"
    bad = {}
    paths = [p for p in T.G.paths(fn) if p.status == "Ok"]
    for first, root, tail in cross(firsts, (False, True), ([], ["b"], ["B"], ["b", "C"], ["D", "e", "f"])):
        name = first + "1"
        got = []
        for p in paths:
            H.st = p.st
            env = {"@hook": H}
            ids = [k for k, s in enumerate(p.steps) if s[0] == "nt" and s[1] == "identifier"]
            opts = [k for k, s in enumerate(p.steps) if s[0] == "opt"]
            manys = [k for k, s in enumerate(p.steps) if s[0] == "many"]
            if len(ids) != 1:
                raise Undecided("identifiers of %s" % pg(((p.steps, (), p.out),))[:100])
            env[("o", ids[0])] = name
            for k in opts:
                if k < ids[0]:
                    env[("o", k)] = some_v("::") if root else NONE_
                else:
                    env[("o", k)] = some_v(tail) if tail else NONE_
            for k in manys:
                if k > ids[0]:
                    env[("o", k)] = tail
            try:
                if conds_hold(T, p, p.conds, env):
                    got.append(value(T, p, p.out, env))
            except NoVal as e:
                raise Undecided("path %s: %s" % (pp(p.out)[:60], str(e)[:80]))
        cases += 1
        want = ("Identifier", name) if not root and not tail and not first.isupper() else ("Path", ([""] if root else []) + [name] + tail)
        if not got:
            raise Undecided("no path for %s" % name)
        for g in got:
            if g != want:
                bad["%s%s" % ("::" if root else "", "::".join([name] + tail))] = (g, want)
    for k, (g, w) in sorted(bad.items(), key=lambda x: len(x[0]))[:2]:
        R.bad("kind:%s" % w[0], "%s is read as %s, must be %s" % (k, g, w), where)
    if not bad:
        R.ok("kind", "names are variables unless they start with an uppercase letter, everything else is a path of its components: %d cases" % cases, where)


def conds_hold(T, p, conds, env):
    for c in conds:
        if c[0] == "iter":
            src = c[1]
            x = evaluate(src, env)
            if not isinstance(x, list):
                raise NoVal("iter %s" % pp(c)[:60])
            if in_loop(T, p, src):
                continue  # the loop over it has ended
            if c[2] == "next":
                if not x:
                    return False
                env[("elem", src)] = x[0]
            elif c[2] == "end":
                if x:
                    return False
            else:
                raise NoVal("iter " + c[2])
            continue
        if not holds(c, env):
            return False
    return True


def in_loop(T, p, src):
    for e in p.evs:
        if e[0] == "loop":
            for conds, evs, deltas, upds in e[2]:
                for c in conds:
                    if c[0] == "iter" and T.G.rename(c[1], p.names) == src:
                        return True
    return False


def value(T, p, v, env):
    if is_agg(v) and v[2] in ("Identifier", "Path") and len(v[3]) == 1:
        x = v[3][0][1]
        return v[2], elements(T, p, x, env)
    raise NoVal("value %s" % pp(v)[:60])


def elements(T, p, x, env):
    if x[0] in ("vec", "arr"):
        out = []
        for y in x[1]:
            if y[0] == "star":
                out += loop_items(T, p, y, env)
            else:
                out.append(evaluate(y, env))
        return out
    return evaluate(x, env)


def loop_items(T, p, y, env):
    for e in p.evs:
        if e[0] == "loop" and e[1] == y[1]:
            alts = [(tuple(T.G.rename(c, p.names) for c in conds), evs, [(b, tuple(T.G.rename(i, p.names) for i in items)) for b, items in deltas], upds) for conds, evs, deltas, upds in e[2]]
            its = {(c[1], c[3] if len(c) > 3 else ()) for conds, _, _, _ in alts for c in conds if c[0] == "iter"}
            if len(its) != 1 or y[3]:
                raise NoVal("loop")
            src, mods = its.pop()
            out = []
            items = evaluate(src, env)
            for m in mods:
                # how many is not recorded; no component may be left out
                items = items[::-1] if m == "rev" else items[1:] if m.startswith("skip") else items[:1]
            for item in items:
                e2 = dict(env)
                e2[("elem", src)] = item
                got = []
                for conds, evs, deltas, upds in alts:
                    cs = [c for c in conds if c[0] != "iter"]
                    if all(holds(c, e2) for c in cs):
                        got.append([evaluate(i, e2) for b, items in deltas if b == y[2] for i in items])
                if len(got) != 1:
                    raise NoVal("loop")
                out += got[0]
            return out
    raise NoVal("loop")


# ------------------------------------------------------------------ keywords
def keyword(C, T):
    """keyword(k) succeeds exactly if the identifier read is k, and leaves what the identifier leaves."""
    R = C.R
    crate = C.P.crates[CR]
    if "keyword" not in T.G.combs:
        raise Missing("keyword")
    body = crate.by["keyword"]
    where = body.where()
    clos = [b for b in crate.bodies if b.npath.startswith("keyword::{closure")]
    if len(clos) != 1:
        raise Undecided("%d closures" % len(clos))
    E = T.G.E
    k, i0 = ("param", "p0"), ("param", "@text")
    n = 0
    from flow import Frame
    for st, f in C.run(E, body):
        for s, r in E.apply(Frame(body, 1, 0, ()), st, f, [i0]):
            for s2, kindof, v in T.G.results(E, s, E.norm(s, r)):
                if kindof != "Ok":
                    continue
                n += 1
                steps, conds, o, lin = T.G.path(E, s2, i0, v[0], v[1])
                main = [x for x in steps if x[0] not in ("mark",)]
                ident = len(main) == 1 and main[0][:2] == ("nt", "identifier")
                if not ident and not any(x[:2] == ("nt", "identifier") for x in main):
                    R.bad("keyword:whole", "a keyword is a whole identifier: %s" % pg(((steps, conds, o),))[:120], where)
                    continue
                if not ident or not lin:
                    raise Undecided("keyword is %s" % pg(((steps, conds, o),))[:100])
                eqs = [c for c in conds if c[0] == "t" and c[1][0] == "eq" and {strip_ref(c[1][1]), strip_ref(c[1][2])} == {k, ("o", 0)}]
                R.check(len(eqs) == 1 and eqs[0][2] is True, "keyword:equal", "the identifier is equal to the keyword: %s" % [pp(c)[:60] for c in conds], where)
                R.check(o in (("o", 0), k), "keyword:value", "its value is the keyword: %s" % pp(o)[:60], where)
    if not n:
        raise Undecided("no successful path")


def strip_ref(t):
    while t[0] in ("deref", "refto") and len(t) == 2:
        t = t[1]
    return t


# ------------------------------------------------------------------ literals in expressions and patterns
TOKEN = {"NumLit": "num_lit", "StrLit": "str_lit", "CharLit": "char_lit"}


def literals(C):
    """Wherever an expression or a pattern is made a literal, its text is that of a token of this kind."""
    from g10 import walk
    import p04
    R = C.R
    G = p04.grammar(C)
    n = 0
    for fn in sorted(G.nts):
        if not fn.startswith(("expr::", "node::Target")):
            continue
        try:
            ps = G.paths(fn)
        except (Undecided, Missing):
            continue
        for p in ps:
            if p.status != "Ok":
                continue
            for st, cs, o in [(p.steps, p.conds, p.out)]:
                for x, steps in made(st, o):
                    kind_ = x[2]
                    v = x[3][0][1]
                    n += 1
                    k = v[1] if v[0] == "o" else None
                    s = steps[k] if k is not None and k < len(steps) else None
                    want = TOKEN.get(kind_)
                    if s is None:
                        R.undecided("literals:%s:%s" % (fn, kind_), "value %s" % pp(v)[:60], C.body(CR, fn).where())
                        continue
                    R.check(s[:2] == ("nt", want), "literals:%s:%s" % (fn, kind_), "the text of a %s is that of %s: %s" % (kind_, want, pg(((steps[k:k + 1], (), v),))[:60]), C.body(CR, fn).where())
    if n < 6:
        raise Undecided("%d literals" % n)


def made(steps, out):
    """Literals made by the path or by the alternatives within its steps, with the steps they refer to."""
    from g10 import walk
    for x in walk(out):
        if is_agg(x) and x[2] in TOKEN and len(x[3]) == 1:
            yield x, steps
    for s in steps:
        for y in walk(s[1:]):
            if isinstance(y, tuple) and len(y) >= 3 and isinstance(y[0], tuple) and isinstance(y[1], tuple) and isinstance(y[2], tuple) and y[0] and isinstance(y[0][0], tuple) and y[0][0] and isinstance(y[0][0][0], str):
                if s[0] != "no":
                    for x in walk(y[2]):
                        if is_agg(x) and x[2] in TOKEN and len(x[3]) == 1:
                            yield x, y[0]
