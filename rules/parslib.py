"""The parser as a grammar, read from its source. nom's combinators are given their meaning (sequence, ordered choice, option,
repetition, cut, ...) and evaluated over symbolic input, together with the imperative code around them, so that a parser function
becomes its set of ordered alternatives: each the sequence of elementary steps it takes, every one on the rest left by the one before,
and the value it makes of their outputs. The parser functions themselves are nonterminals.

Steps:  ("tag", s)  ("leaf", name, args)  ("ws",)  ("nt", name, args)  ("opt", P)  ("many", P, min)  ("sep", Psep, P, min)  ("not", P)
        ("peek", P)  ("no", P): the alternatives P were tried here before and do not match    ("text", P)
P = ((steps, conds, out), ...) in the order of choice; ("o", k) is the output of step k, ("in", k) the input at step k."""
from rules import *
from rules import ev as evaluate
from flow import State, Undecided as FlowUndecided

CR = "askama_parser"
N = "nom::"
LEAFS = {"bytes::complete::take_till", "character::complete::one_of", "character::complete::satisfy", "bytes::complete::is_not",
         "bytes::complete::take_while_m_n", "bytes::complete::take_until", "bytes::complete::take_while", "bytes::complete::take_while1",
         "character::complete::none_of", "bytes::complete::is_a", "bytes::complete::take_till1", "bytes::complete::escaped", "bytes::complete::tag",
         "character::complete::char", "bytes::complete::take"}
DIRECT = {"character::complete::anychar", "combinator::eof", "character::complete::multispace0", "character::complete::alpha1",
          "character::complete::alphanumeric1", "character::complete::digit1", "combinator::rest"}
TREE = {"branch::alt", "sequence::pair", "sequence::tuple", "sequence::preceded", "sequence::terminated", "sequence::delimited",
        "sequence::separated_pair", "combinator::opt", "combinator::cut", "combinator::map", "combinator::map_res", "combinator::map_opt", "combinator::value",
        "combinator::verify", "combinator::not", "combinator::peek", "combinator::recognize", "combinator::complete", "combinator::consumed", "combinator::into",
        "combinator::cond", "combinator::success", "combinator::all_consuming", "combinator::iterator",
        "multi::many0", "multi::many1", "multi::many0_count", "multi::many1_count", "multi::fold_many0", "multi::fold_many1",
        "multi::separated_list0", "multi::separated_list1", "multi::many_till"}
KEEP = {(0, 1): None}
ALWAYS = {"bytes::complete::take_till", "bytes::complete::take_while", "character::complete::multispace0", "combinator::rest"}


def mark(name):
    """A call recorded between the steps."""
    def h(E, fr, st, a, line):
        st = st.copy()
        st.ev += (("op", "step", ("call", "@mark", (("str", name), UNIT))),)
        return [(st, UNIT)]
    return h


def tup(*xs):
    return ("agg", "tuple", None, tuple((str(i), x) for i, x in enumerate(xs)))


def okof(t):
    return ("fld", ("as", t, "Ok"), "0")


def rest_of(t):
    """The rest of the input after a successful application."""
    return ("fld", okof(t), "0")


def out_of(t):
    return ("fld", okof(t), "1")


def err_of(t):
    return ("fld", ("as", t, "Err"), "0")


def fields(t):
    return tuple(v for _, v in t[3]) if is_agg(t) and t[1] == "tuple" else t[1] if t[0] in ("arr", "vec") else (t,)


class Path:
    """One path of a parser function."""

    def __init__(self, steps, conds, out, status, evs, rv, st, linear, names):
        self.steps, self.conds, self.out, self.status, self.evs, self.rv, self.st, self.linear = steps, conds, out, status, evs, rv, st, linear
        self.names = names


class Grammar:
    def __init__(self, C, nts=None, extra=None, depth=9, inline=()):
        """nts: the functions to keep as nonterminals (default: those of the pinned tree)."""
        self.C = C
        self.crate = C.P.crates[CR]
        self.extra = extra or {}
        self.depth = depth
        self.cache = {}
        self.parsers = {b.npath for b in self.crate.bodies if b.kind in ("Fn", "AssocFn") and self.is_parser(b)}
        self.combs = {b.npath for b in self.crate.bodies if b.kind in ("Fn", "AssocFn") and self.returns_parser(b)} - self.parsers
        self.nts = {n for n in self.parsers if n in (KNOWN if nts is None else nts)} - set(inline)
        self.frozen_combs = {n for n in self.combs if n in ("skip_till", "keyword", "separated_digits")}
        self.n = 0
        self.E = self.engine()

    @staticmethod
    def ret(b):
        s, d = str(b.sig), 0
        for i, c in enumerate(s):
            if c in "(<[{":
                d += 1
            elif c in ")]}" or c == ">" and s[i - 1] != "-":
                d -= 1
            elif s[i:i + 2] == "->" and d == 0:
                return s[i + 2:].strip()
        return ""

    def is_parser(self, b):
        r = self.ret(b)
        return "nom::Err<" in r and r.replace("for<'a> ", "").startswith("std::result::Result<(&")

    def returns_parser(self, b):
        r = self.ret(b)
        return r.startswith("impl ") and "nom::Err<" in r

    # ---------------------------------------------------------------- engine
    def engine(self):
        V = {}
        for n in self.nts:
            V[n] = self.h_nt(n)
        for n in self.frozen_combs:
            V[n] = self.h_raw(n)
            for k in range(3):
                V["%s::{closure#%d}" % (n, k)] = self.h_app
        for n in LEAFS | TREE:
            V[N + n] = self.h_raw(N + n)
            for k in range(2):
                V["%s%s::{closure#%d}" % (N, n, k)] = self.h_app
        for n in DIRECT:
            V[N + n] = self.h_direct(N + n)
        for n in ("std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once", "std::ops::Fn::call"):
            V[n] = self.h_call
        V["std::vec::Vec::insert"] = self.h_insert
        V["std::vec::Vec::push"] = self.h_push
        V.update(self.extra)
        return self.C.engine(CR, vocab=V, max_depth=self.depth)

    @staticmethod
    def h_insert(E, fr, st, a, line):
        """Insertion at the front of an opaque list."""
        if a[1] != ("int", 0) or a[0][0] != "ref":
            return NotImplemented
        root, path = E.derefloc(st, a[0])
        v = E.read(st, root, path)
        if v[0] in ("vec", "arr"):
            return NotImplemented
        st = st.copy()
        E.write(st, root, path, ("call", "@cons", (E.norm(st, a[2]), v)))
        return [(st, UNIT)]

    @staticmethod
    def h_push(E, fr, st, a, line):
        """An element appended to an opaque list."""
        if a[0][0] != "ref":
            return NotImplemented
        root, path = E.derefloc(st, a[0])
        v = E.read(st, root, path)
        if v[0] in ("vec", "arr", "uninit") or is_agg(v):
            return NotImplemented
        st = st.copy()
        E.write(st, root, path, ("call", "@push", (v, E.norm(st, a[1]))))
        return [(st, UNIT)]

    def h_call(self, E, fr, st, a, line):
        g = E.deref(st, a[0])
        if g[0] == "call" and self.isparser(g) and len(a) == 2 and is_agg(a[1]) and len(a[1][3]) == 1:
            return self.apply(E, fr, st, a[0], a[1][3][0][1])
        return NotImplemented

    def isparser(self, g):
        n = g[1]
        return n in self.frozen_combs or n.startswith(N) and n[5:] in LEAFS | TREE

    def h_nt(self, name):
        def h(E, fr, st, a, line):
            return self.nt_app(E, st, name, a)
        return h

    def nt_app(self, E, st, name, a):
        k = self.input_index(name)
        args = tuple(E.norm(st, x) for i, x in enumerate(a) if i != k)
        t = ("call", "@nt", (("str", name), tup(*args), E.norm(st, a[k]) if k is not None else UNIT))
        st = st.copy()
        st.ev += (("op", "step", t),)
        return [(st, t)]

    def h_raw(self, name):
        def h(E, fr, st, a, line):
            return [(st, ("call", name, tuple(a)))]
        return h

    def h_direct(self, name):
        def h(E, fr, st, a, line):
            return self.leaf(E, st, name, (), E.norm(st, a[0]))
        return h

    def h_app(self, E, fr, st, a, line):
        g = E.deref(st, a[0]) if a[0][0] == "ref" else a[0]
        if not (g[0] == "call" and self.isparser(g)):
            raise Undecided("parser value %s" % pp(g)[:60])
        i = a[1]
        if is_agg(i) and i[1] == "tuple" and len(i[3]) == 1:
            i = i[3][0][1]
        return self.apply(E, fr, st, g, i)

    def input_index(self, n):
        b = self.crate.by[n]
        idx = [i for i in range(b.argc) if str(b.locals[i + 1][0]).replace("'a ", "").replace("'_ ", "") in ("&str",)]
        if len(idx) > 1:
            named = [i for i in idx if b.locals[i + 1][1] in ("i", "input", "start", "s")]
            idx = [i for i in idx if b.locals[i + 1][1] in ("i", "input")] or named or idx
        return idx[0] if idx else None

    # ---------------------------------------------------------------- meaning of the combinators
    def fork(self, E, st, t):
        """Success and failure of an elementary application: (ok states, error states)."""
        s1 = E.assume_is(st, t, "Ok")
        s2 = E.assume_is(st, t, "Err")
        return s1, s2

    def leaf(self, E, st, name, args, i):
        n = name[5:]
        if n in ALWAYS:
            t = ("call", "@leaf", (("str", n), tup(*args), i))
            st = st.copy()
            st.ev += (("op", "step", t),)
            return [(st, ok(tup(rest_of(t), out_of(t))))]
        t = ("call", "@leaf", (("str", n), tup(*args), i))
        st = st.copy()
        st.ev += (("op", "step", t),)
        s1, s2 = self.fork(E, st, t)
        out = []
        if s1 is not None:
            o = args[0] if n in ("bytes::complete::tag", "character::complete::char") else out_of(t)
            out.append((s1, ok(tup(rest_of(t), o))))
        if s2 is not None:
            out.append((s2, err(("agg", "nom::Err", "Error", (("0", ("call", "@at", (i,))),)))))
        return out

    def results(self, E, st, r):
        """Split a result value: [(state, "Ok", (rest, out))] / [(state, "Err", error)]."""
        if r[0] == "agg":
            v = r[3][0][1]
            if r[2] == "Ok":
                if is_agg(v) and v[1] == "tuple":
                    return [(st, "Ok", (v[3][0][1], v[3][1][1]))]
                return [(st, "Ok", (E.proj(v, ("f", "0")), E.proj(v, ("f", "1"))))]
            return [(st, "Err", v)]
        out = []
        s = E.assume_is(st, r, "Ok")
        if s is not None:
            p = E.proj(E.proj(r, ("d", "Ok")), ("f", "0"))
            out.append((s, "Ok", (E.proj(p, ("f", "0")), E.proj(p, ("f", "1")))))
        s = E.assume_is(st, r, "Err")
        if s is not None:
            out.append((s, "Err", E.proj(E.proj(r, ("d", "Err")), ("f", "0"))))
        return out

    def run(self, E, fr, st, g, i):
        """Apply a parser value; the results split."""
        out = []
        for s, r in self.apply(E, fr, st, g, i):
            out += self.results(E, s, r)
        return out

    def seq(self, E, fr, st, gs, i):
        """[(state, "Ok", rest, outs)] / [(state, "Err", e)]"""
        cur, bad = [(st, i, ())], []
        for g in gs:
            nxt = []
            for s, j, outs in cur:
                for s2, k, v in self.run(E, fr, s, g, j):
                    if k == "Ok":
                        nxt.append((s2, v[0], outs + (v[1],)))
                    else:
                        bad.append((s2, v))
            cur = nxt
            if len(cur) + len(bad) > 3000:
                raise Undecided("too many parser paths")
        return cur, bad

    def fn(self, E, fr, st, f, args):
        return E.apply(fr, st, f, args)

    def apply(self, E, fr, st, g, i):
        if g[0] == "ref":
            v = E.deref(st, g)
            if v[0] != "clo":
                g = v
        if g[0] != "call" or not self.isparser(g):
            if g[0] in ("fn", "clo", "ref"):
                return self.fn(E, fr, st, g, [i])
            raise Undecided("parser value %s" % pp(g)[:60])
        name, a = g[1], g[2]
        i = E.norm(st, i)
        if name in self.frozen_combs:
            if name == "skip_till":
                # every position is tried in turn: the input ends, or the parser matches
                P = self.canon(E, fr, st, a[0])
                args = (P,)
            else:
                args = tuple(E.norm(st, x) for x in a)
            t = ("call", "@comb", (("str", name), ("tuple",) + args if name == "skip_till" else tup(*args), i))
            st = st.copy()
            st.ev += (("op", "step", t),)
            return [(st, t)]
        n = name[5:]
        if n in LEAFS:
            args = []
            for x in a:
                v = E.deref(st, x) if x[0] == "ref" else x
                args.append(("P", self.canon(E, fr, st, x)) if n == "bytes::complete::escaped" and v[0] in ("call",) or v[0] == "fn" and (v[1] in DIRECT_N or v[1] in self.nts) else E.norm(st, x))
            return self.leaf(E, st, name, tuple(args), i)
        errs = lambda bad: [(s, err(e)) for s, e in bad]
        if n in ("sequence::pair", "sequence::tuple", "sequence::preceded", "sequence::terminated", "sequence::delimited", "sequence::separated_pair"):
            gs = fields(a[0]) if n.endswith("tuple") else a
            good, bad = self.seq(E, fr, st, gs, i)
            pick = {"sequence::pair": lambda o: tup(*o), "sequence::tuple": lambda o: tup(*o), "sequence::preceded": lambda o: o[1],
                    "sequence::terminated": lambda o: o[0], "sequence::delimited": lambda o: o[1], "sequence::separated_pair": lambda o: tup(o[0], o[2])}[n]
            return [(s, ok(tup(j, pick(o)))) for s, j, o in good] + errs(bad)
        if n == "branch::alt":
            out, cur, tried = [], st, ()
            for p in fields(a[0]):
                again = False
                for s, k, v in self.run(E, fr, cur, p, i):
                    if k == "Ok":
                        out.append((s, ok(tup(v[0], v[1]))))
                        continue
                    soft, hard = self.kinds(E, s, v)
                    again = again or soft
                    if soft:
                        self.recovered(E, cur, s)
                    if hard is not None:
                        out.append((hard, err(self.failure(v))))
                if not again:
                    break
                tried += (self.canon(E, fr, st, p),)
                cur = st.copy()
                cur.ev += (("op", "step", ("call", "@no", (("tuple",) + tried, i))),)
            else:
                out.append((cur, err(self.error(i))))
            return out
        if n in ("combinator::opt", "combinator::not", "combinator::peek", "multi::many0", "multi::many1", "multi::many0_count", "multi::many1_count"):
            P = self.canon(E, fr, st, a[0])
            kind = {"combinator::opt": "opt", "combinator::not": "not", "combinator::peek": "peek"}.get(n, "many")
            extra = ("int", 1 if "many1" in n else 0)
            t = ("call", "@" + kind, (P, extra, i))
            st = st.copy()
            st.ev += (("op", "step", t),)
            out = []
            if kind in ("opt",) and self.infallible(E, fr, st, a[0]):
                return [(st, ok(tup(rest_of(t), out_of(t))))]
            s1, s2 = self.fork(E, st, t)
            if s1 is not None:
                rest = i if kind in ("not", "peek") else rest_of(t)
                o = UNIT if kind == "not" else ("call", "@count", (out_of(t),)) if "count" in n else out_of(t)
                out.append((s1, ok(tup(rest, o))))
            if s2 is not None:
                out.append((s2, err(self.failure(err_of(t)) if kind == "opt" or kind == "many" and extra == ("int", 0) else self.error(i) if kind == "not" else err_of(t))))
            return out
        if n in ("multi::fold_many0", "multi::fold_many1"):
            P = self.canon(E, fr, st, a[0])
            t = ("call", "@many", (P, ("int", 1 if "many1" in n else 0), i))
            st = st.copy()
            st.ev += (("op", "step", t),)
            s1, s2 = self.fork(E, st, t)
            out = []
            if s2 is not None:
                out.append((s2, err(self.failure(err_of(t)))))
            for s, acc in self.fn(E, fr, s1, a[1], []):
                from models import Ctx as MCtx, I as MODELS
                c = MCtx(E, fr, s, ("fn", "std::iter::Iterator::fold", None, ()), [("iter", out_of(t), ()), acc, a[2]], None, None, "std::iter::Iterator::fold", None)
                for s2, v in MODELS["std::iter::Iterator::fold"](c):
                    out.append((s2, ok(tup(rest_of(t), v))))
            return out
        if n in ("multi::separated_list0", "multi::separated_list1"):
            Ps, P = self.canon(E, fr, st, a[0]), self.canon(E, fr, st, a[1])
            t = ("call", "@sep", (Ps, P, ("int", int(n[-1])), i))
            st = st.copy()
            st.ev += (("op", "step", t),)
            s1, s2 = self.fork(E, st, t)
            return [(s1, ok(tup(rest_of(t), out_of(t))))] + ([(s2, err(err_of(t)))] if s2 is not None else [])
        res = self.run(E, fr, st, a[1] if n == "combinator::value" else a[0], i)
        out = []
        for s, k, v in res:
            if k == "Err":
                out.append((s, err(self.failure(v) if n == "combinator::cut" else v)))
                continue
            j, o = v
            if n in ("combinator::cut", "combinator::complete", "combinator::into"):
                out.append((s, ok(tup(j, o))))
            elif n == "combinator::value":
                out.append((s, ok(tup(j, a[0]))))
            elif n == "combinator::map":
                for s2, r in self.fn(E, fr, s, a[1], [o]):
                    out.append((s2, ok(tup(j, r))))
            elif n in ("combinator::map_res", "combinator::map_opt"):
                for s2, r in self.fn(E, fr, s, a[1], [o]):
                    good = "Ok" if n.endswith("res") else "Some"
                    s3 = E.assume_is(s2, r, good)
                    if s3 is not None:
                        out.append((s3, ok(tup(j, E.proj(E.proj(r, ("d", good)), ("f", "0"))))))
                    s3 = E.assume_is(s2, r, "Err" if n.endswith("res") else "None")
                    if s3 is not None:
                        out.append((s3, err(self.error(i))))
            elif n == "combinator::verify":
                for s2, r in self.fn(E, fr, s, a[1], [o]):
                    for s3, b in E.branch(s2, r):
                        out.append((s3, ok(tup(j, o)) if b else err(self.error(i))))
            elif n == "combinator::recognize":
                out.append((s, ok(tup(j, ("call", "@text", (i, j))))))
            elif n == "combinator::consumed":
                out.append((s, ok(tup(j, tup(("call", "@text", (i, j)), o)))))
            elif n == "combinator::all_consuming":
                for s2, k2, v2 in self.run(E, fr, s, ("fn", N + "combinator::eof", None, ()), j):
                    out.append((s2, ok(tup(j, o)) if k2 == "Ok" else err(v2)))
            else:
                raise Undecided("combinator %s" % n)
        return out

    @staticmethod
    def error(i):
        return ("agg", "nom::Err", "Error", (("0", ("call", "@at", (i,))),))

    @staticmethod
    def failure(e):
        if is_agg(e, "Error") or is_agg(e, "Failure"):
            return ("agg", "nom::Err", "Failure", e[3])
        return ("agg", "nom::Err", "Failure", (("0", ("call", "@inner", (e,))),))

    def recovered(self, E, before, after):
        """Called with the states around a parser after which the surrounding one can go on."""

    def kinds(self, E, st, e):
        """(may be a recoverable error, state in which it is a failure or None)"""
        if is_agg(e):
            return e[2] == "Error", None if e[2] == "Error" else st
        if e[0] == "call" and e[1] in ("ErrorContext::from_err",):
            return self.kinds(E, st, e[2][0])
        s = st.copy()
        s.conds += (("is", e, "Failure"),)
        return True, s

    def infallible(self, E, fr, st, g):
        """No failure comes out of opt(g): all of g's errors are recoverable."""
        key = ("inf", g)
        for s, k, v in self.run(E, fr, st.copy(), g, ("param", "@i")):
            if k == "Err" and not (is_agg(v, "Error")):
                return False
        return True

    # ---------------------------------------------------------------- canonical form
    def canon(self, E, fr, st, g):
        self.n += 1
        if self.n > 4000:
            raise Undecided("grammar too large")
        i0 = ("param", "@i%d" % self.n)
        s0 = st.copy()
        s0.ev, s0.conds = (), ()
        alts = []
        for s, k, v in self.run(E, fr, s0, g, i0):
            if k == "Ok":
                steps, conds, out, lin = self.path(E, s, i0, v[0], v[1])
                alts.append((steps, conds, out) if lin else (steps, conds, out, "nonlinear"))
                self.recovered(E, s0, s)
            elif self.kinds(E, s, v)[0]:
                self.recovered(E, s0, s)
        return tuple(alts)

    def chain(self, evs, failed, i0):
        """(steps, names of their outputs, input left, every step works on the rest of the one before, applications)"""
        steps, lin, cur, sub = [], True, i0, {}
        seen = [e[2] for e in evs if e[0] == "op" and e[1] == "step"]
        for t in seen:
            k, i = t[1], t[2][-1]
            if k == "@mark":
                steps.append(("mark", t[2][0]))
                continue
            if k == "@no":
                if steps and steps[-1][0] == "no" and len(t[2][0]) > len(steps[-1][1]):
                    steps.pop()
                # only the last, longest, list of alternatives counts
                steps.append(("no", t[2][0][1:]))
                continue
            if failed(t):
                steps.append(("failed", self.step(t)) if i == cur else ("failed-elsewhere", self.step(t)))
                continue
            if i != cur:
                lin = False
            sub[t] = len(steps)
            steps.append(self.step(t))
            if k not in ("@not", "@peek"):
                cur = rest_of(t)
        names = [(out_of(t), ("o", k)) for t, k in sub.items()] + [(rest_of(t), ("in", k + 1)) for t, k in sub.items()] + [(i0, ("in", 0))]
        return steps, names, cur, lin, seen

    def path(self, E, st, i0, rest, out):
        """Canonical steps of a successful path, its other conditions and its output."""
        steps, names, cur, lin, seen = self.chain(st.ev, lambda t: st.facts.get(t) == ("is", "Err"), i0)
        rest, out = E.norm(st, rest), E.norm(st, out)
        if rest != cur:
            lin = False
        conds = tuple(c for c in st.conds if not (c[0] == "is" and c[1] in seen and c[2] in ("Ok", "Err")))
        f = lambda x: self.rename(x, names)
        self.names = names
        return tuple(f(s) for s in steps), tuple(f(c) for c in conds), f(out), lin

    def rename(self, x, names):
        """Replace terms by names; ("up", name) inside of a part that has names of its own."""
        d = dict(names)

        def go(t, n):
            if not isinstance(t, tuple):
                return t
            if t in d:
                r = d[t]
                return lift(r, n) if len(r) == 2 and r[0] in ("o", "in", "up") else r
            ps = parts(t)
            return tuple(go(y, n + 1 if i in ps else n) for i, y in enumerate(t))
        return go(x, 0)

    def step(self, t):
        k, a = t[1], t[2]
        if k == "@nt":
            return ("nt", a[0][1], fields(a[1]))
        if k == "@leaf":
            n, args = a[0][1], fields(a[1]) if a[1][3] else ()
            if n in ("bytes::complete::tag", "character::complete::char"):
                return ("tag", args[0][1] if args[0][0] in ("str", "char") else args[0])
            if n == "bytes::complete::take_till" and args[0][0] == "fn" and args[0][1] == "not_ws":
                return ("ws",)
            return ("leaf", n.split("::")[-1], args)
        if k == "@comb":
            if a[0][1] == "skip_till":
                return ("skip_till", a[1][1])
            return ("comb", a[0][1], fields(a[1]))
        if k in ("@opt", "@not", "@peek"):
            return (k[1:], a[0])
        if k == "@many":
            return ("many", a[0], a[1][1])
        if k == "@sep":
            return ("sep", a[0], a[1], a[2][1])
        raise Undecided("step " + k)

    # ---------------------------------------------------------------- functions
    def body(self, name):
        b = self.crate.by.get(name)
        if b is None:
            raise Missing("%s::%s" % (CR, name))
        return b

    def paths(self, name):
        """All paths of a parser function."""
        if name in self.cache:
            return self.cache[name]
        b = self.body(name)
        k = self.input_index(name)
        i0 = ("param", "p%d" % k)
        E = self.engine()
        out = []
        for st, rv in self.C.run(E, b):
            rv = E.norm(st, rv)
            for s, kind, v in self.results(E, st, rv):
                if kind == "Ok":
                    steps, conds, o, lin = self.path(E, s, i0, v[0], v[1])
                    out.append(Path(steps, conds, o, "Ok", s.ev, rv, s, lin, self.names))
                else:
                    steps, conds, o, lin = self.path(E, s, i0, ("none",), v)
                    out.append(Path(steps, conds, o, "Err", s.ev, rv, s, lin, self.names))
        self.cache[name] = out
        return out


    def rename_raw(self, p, x):
        return self.rename(x, p.names)

    def iterations(self, p):
        """The arbitrary iteration of the loop of a path: (loop variables with their initial values, [(steps, conds, updates, order)]).
        The loop runs over the results of a repetition, or applies parsers itself; both come out the same way."""
        loops = [e for e in p.evs if e[0] == "loop"]
        if len(loops) != 1:
            return None
        _, lid, alts, inits = loops[0]
        inits = {l: self.rename(v, p.names) for l, v in inits}
        out = []
        for conds, evs, deltas, upds in alts:
            its = [c for c in conds if c[0] == "iter" and c[2] == "next"]
            conds = tuple(c for c in conds if c not in its)
            upds = dict(upds)
            stepped = [e for e in evs if e[0] == "op" and e[1] == "step"]
            if its and not stepped:
                src = its[0][1]
                raw = src
                while raw[0] == "iter" or raw[0] == "call" and raw[1].split("::")[-1] in ("iter", "into_iter", "iter_mut") and raw not in dict(p.names):
                    raw = raw[1] if raw[0] == "iter" else raw[2][0]
                o = dict(p.names).get(raw)
                if o is None or p.steps[o[1]][0] != "many":
                    return None
                order = "rev" if len(its[0]) > 3 and "rev" in its[0][3] else "fwd" if len(its[0]) == 3 else "odd"
                el = ("elem", src)
                for a in p.steps[o[1]][1]:
                    f = lambda x: simp(self.rename(self.rename(x, [(el, a[2])]), p.names))
                    cs = settle([f(c) for c in conds] + list(a[1]))
                    if cs is not None:
                        out.append((a[0], tuple(cs), {l: f(v) for l, v in upds.items()}, order))
            elif stepped and not its:
                i0 = ([e for e in stepped if e[2][1] != "@mark"] or stepped)[0][2][2][-1]
                failed = lambda t: ("is", t, "Err") in conds
                steps, names, cur, lin, seen = self.chain(evs, failed, i0)
                cs = tuple(c for c in conds if not (c[0] == "is" and c[1] in seen and c[2] in ("Ok", "Err")))
                f = lambda x: simp(self.rename(x, names))
                if upds.get(i0) != cur or not lin:
                    out.append((("nonlinear",), cs, upds, "odd"))
                    continue
                for st, c2, o2 in expand(tuple(self.rename(x, names) for x in steps), tuple(f(c) for c in cs), tup(*[f(v) for v in upds.values()])):
                    out.append((st, c2, dict(zip(upds, fields(o2))), "fwd"))
                inits.pop(i0, None)
                for x in out:
                    x[2].pop(i0, None)
            else:
                return None
        return inits, out


def simp(t):
    """Project aggregates."""
    if not isinstance(t, tuple) or not t:
        return t
    t = tuple(simp(x) for x in t)
    if t[0] == "as" and len(t) == 3 and is_agg(t[1]):
        return t[1]
    if t[0] == "fld" and len(t) == 3 and is_agg(t[1]):
        for n, x in t[1][3]:
            if n == t[2]:
                return x
    return t


def settle(conds):
    """Drop the conditions on known values; None if one of them does not hold."""
    out = []
    for c in conds:
        if c[0] == "is" and is_agg(c[1]):
            if c[1][2] != c[2]:
                return None
            continue
        if c[0] == "not" and is_agg(c[1]):
            if c[1][2] in c[2]:
                return None
            continue
        out.append(c)
    for i, c in enumerate(out):
        for d in out[:i]:
            if c[0] == "is" and d[0] == "is" and c[1] == d[1] and c[2] != d[2] or c[0] == "is" and d[0] == "not" and c[1] == d[1] and c[2] in d[2] \
                    or c[0] == "not" and d[0] == "is" and c[1] == d[1] and d[2] in c[2]:
                return None
    return out


def parts(t):
    """The positions of a step at which there are grammars with outputs of their own."""
    if t and t[0] in ("opt", "not", "peek", "skip_till", "no", "P") and len(t) == 2 or t and t[0] == "many" and len(t) == 3:
        return (1,)
    return (1, 2) if t and t[0] == "sep" and len(t) == 4 else ()


def lift(r, n):
    for _ in range(n):
        r = ("up", r)
    return r


def shift(x, f, drop=False, val=None):
    """Rename the step numbers in steps, conditions and outputs by f; drop: what refers to the outside refers to the same level now;
    val: (a number, what its output is replaced with)."""
    def go(t, n):
        if not isinstance(t, tuple):
            return t
        u, r = 0, t
        while isinstance(r, tuple) and len(r) == 2 and r[0] == "up":
            u, r = u + 1, r[1]
        if isinstance(r, tuple) and len(r) == 2 and r[0] in ("o", "in") and isinstance(r[1], int):
            if u == n:
                if val is not None and r == ("o", val[0]):
                    return lifted(val[1], n)
                return lift((r[0], f(r[1])), n)
            return lift(r, u - 1) if drop and u > n else t
        ps = parts(t)
        return tuple(go(y, n + 1 if i in ps else n) for i, y in enumerate(t))
    return go(x, 0)


def lifted(x, n):
    if not isinstance(x, tuple) or not n:
        return x
    if len(x) == 2 and x[0] in ("o", "in", "up"):
        return lift(x, n)
    return tuple(lifted(y, n) for y in x)


def expand(steps, conds, out):
    """Alternatives in which the options known to be taken, or not, are replaced by what they stand for."""
    for k, s in enumerate(steps):
        if s[0] != "opt":
            continue
        some, none = ("is", ("o", k), "Some") in conds, ("is", ("o", k), "None") in conds
        if not some and not none:
            continue
        alts = s[1] if some else (((), (), None),)
        res = []
        for a in alts:
            n = len(a[0])
            mv = lambda j: j if j <= k else j - 1 + n
            into = lambda x: shift(x, lambda j: j + k, drop=True)
            val = ("agg", "std::option::Option", "None", ()) if none else some_(into(a[2]))
            mvin = lambda x: simp(shift(x, mv, val=(k, val)))
            cs = settle([mvin(c) for c in conds] + [into(c) for c in a[1]])
            if cs is None:
                continue
            st = steps[:k] + tuple(into(x) for x in a[0]) + tuple(mvin(x) for x in steps[k + 1:])
            res += expand(st, tuple(cs), mvin(out))
        return res
    return [(steps, conds, out)]


def some_(x):
    return ("agg", "std::option::Option", "Some", (("0", x),))


DIRECT_N = {N + x for x in DIRECT}
UNIT = ("agg", "tuple", None, ())
KNOWN = {"identifier", "bool_lit", "num_lit", "str_lit", "char_lit", "Char::parse", "path_or_identifier", "State::nest", "State::tag_block_start", "State::tag_block_end",
         "State::tag_comment_start", "State::tag_comment_end", "State::tag_expr_start", "State::tag_expr_end", "filter",
         "expr::Expr::arguments", "expr::Expr::named_argument", "expr::Expr::parse", "expr::Expr::or", "expr::Expr::and", "expr::Expr::compare",
         "expr::Expr::bor", "expr::Expr::bxor", "expr::Expr::band", "expr::Expr::shifts", "expr::Expr::addsub", "expr::Expr::muldivmod", "expr::Expr::filtered",
         "expr::Expr::prefix", "expr::Expr::single", "expr::Expr::group", "expr::Expr::array", "expr::Expr::path_var_bool", "expr::Expr::str", "expr::Expr::num",
         "expr::Expr::char", "expr::Suffix::parse", "expr::Suffix::attr", "expr::Suffix::index", "expr::Suffix::call", "expr::Suffix::r#try", "expr::Suffix::r#macro",
         "expr::Suffix::r#macro::nested_parenthesis",
         "node::Node::many", "node::Node::parse", "node::Node::r#break", "node::Node::r#continue", "node::Node::expr", "node::Target::parse", "node::Target::lit",
         "node::Target::named", "node::When::r#else", "node::When::when", "node::Cond::parse", "node::CondTest::parse", "node::Whitespace::parse", "node::Loop::parse",
         "node::Macro::parse", "node::FilterBlock::parse", "node::Import::parse", "node::Call::parse", "node::Match::parse", "node::BlockDef::parse", "node::Lit::parse",
         "node::Raw::parse", "node::Let::parse", "node::If::parse", "node::Include::parse", "node::Extends::parse", "node::Comment::parse"}


def pg(P):
    """Readable grammar of a canonical parser."""
    return " / ".join(" ".join(ps(s) for s in a[0]) + (" {%s}" % pp(a[2])[:60] if a[2][0] != "o" else "") + ("!" if len(a) > 3 else "") for a in P)


def ps(s):
    k = s[0]
    if k == "tag":
        return repr(s[1]) if isinstance(s[1], str) else "tag(%s)" % pp(s[1])
    if k == "leaf" or k == "comb":
        return "%s(%s)" % (s[1], ", ".join(pp(x)[:40] if x[0] != "P" else pg(x[1]) for x in s[2]))
    if k == "ws":
        return "_"
    if k == "nt":
        return "<%s%s>" % (s[1].replace("expr::", "").replace("node::", ""), "(%s)" % ", ".join(pp(x)[:30] for x in s[2]) if s[2] and s[2] != (UNIT,) else "")
    if k in ("opt", "not", "peek", "skip_till"):
        return "%s(%s)" % (k, pg(s[1]))
    if k == "many":
        return "(%s)%s" % (pg(s[1]), "+" if s[2] else "*")
    if k == "sep":
        return "sep%d(%s, %s)" % (s[3], pg(s[1]), pg(s[2]))
    if k == "no":
        return "!(%s)" % " | ".join(pg(x) for x in s[1])
    if k == "mark":
        return "^" + pp(s[1])
    if k in ("failed", "failed-elsewhere"):
        return "FAIL" + k[6:] + " " + ps(s[1])
    return str(s)
