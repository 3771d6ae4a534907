"""Finite automata over character classes, for deciding what a token parser accepts on every text.

A parser denotes a set of strings u # v: on the text uv it succeeds and consumes u. Symbols are the numbers of the classes;
MARK is the '#'. Automata are deterministic and minimal; a missing transition is rejection."""

MARK = -1


class D:
    def __init__(self, n, delta, acc):
        self.n, self.d, self.acc = n, delta, acc  # n classes; delta: list of {symbol: state}; state 0 starts

    def syms(self):
        return list(range(self.n)) + [MARK]

    def step(self, q, a):
        return None if q is None else self.d[q].get(a)


def build(n, starts, move, eps, accept, syms=None):
    """Subset construction, then minimisation."""
    syms = list(range(n)) + [MARK] if syms is None else syms

    def close(qs):
        qs, todo = set(qs), list(qs)
        while todo:
            q = todo.pop()
            for r in eps(q):
                if r not in qs:
                    qs.add(r)
                    todo.append(r)
        return frozenset(qs)
    s0 = close(starts)
    ids, order, delta = {s0: 0}, [s0], []
    i = 0
    while i < len(order):
        row = {}
        for a in syms:
            t = set()
            for q in order[i]:
                t.update(move(q, a))
            if t:
                t = close(t)
                if t not in ids:
                    ids[t] = len(order)
                    order.append(t)
                    if len(order) > 20000:
                        raise OverflowError("automaton")
                row[a] = ids[t]
        delta.append(row)
        i += 1
    acc = {k for k, s in enumerate(order) if any(accept(q) for q in s)}
    return minimal(D(n, delta, acc))


def minimal(A):
    n = len(A.d)
    # states from which acceptance can be reached
    rev = [[] for _ in range(n)]
    for q, row in enumerate(A.d):
        for r in row.values():
            rev[r].append(q)
    live, todo = set(A.acc), list(A.acc)
    while todo:
        for q in rev[todo.pop()]:
            if q not in live:
                live.add(q)
                todo.append(q)
    cls = {q: (1 if q in A.acc else 2) if q in live else 0 for q in range(n)}
    while True:
        sig = {}
        new = {}
        for q in range(n):
            k = (cls[q], tuple(sorted((a, cls[r]) for a, r in A.d[q].items() if r in live))) if q in live else (0,)
            new[q] = sig.setdefault(k, len(sig))
        if len(set(new.values())) == len(set(cls.values())):
            break
        cls = new
    cls = new
    if 0 not in live:
        return D(A.n, [{}], set())
    ids, order = {cls[0]: 0}, [0]
    delta, i = [], 0
    while i < len(order):
        row = {}
        for a, r in A.d[order[i]].items():
            if r in live:
                if cls[r] not in ids:
                    ids[cls[r]] = len(order)
                    order.append(r)
                row[a] = ids[cls[r]]
        delta.append(row)
        i += 1
    return D(A.n, delta, {k for k, q in enumerate(order) if q in A.acc})


def product(A, B, keep):
    """keep(a accepts, b accepts)"""
    return build(A.n, [(0, 0)], lambda q, s: [r for r in [(A.step(q[0], s), B.step(q[1], s))] if r != (None, None)], lambda q: (),
                 lambda q: keep(q[0] in A.acc, q[1] in B.acc))


def union(A, B):
    return product(A, B, lambda a, b: a or b)


def inter(A, B):
    return product(A, B, lambda a, b: a and b)


def minus(A, B):
    return product(A, B, lambda a, b: a and not b)


def complement(A):
    """Over texts without mark."""
    dead = len(A.d)
    return build(A.n, [0], lambda q, s: [A.d[q].get(s, dead)] if q != dead else [dead], lambda q: (), lambda q: q not in A.acc, list(range(A.n)))


def proj(A):
    """The texts uv of u#v."""
    return build(A.n, [0], lambda q, s: [A.d[q][s]] if s in A.d[q] else [], lambda q: [A.d[q][MARK]] if MARK in A.d[q] else [], lambda q: q in A.acc, list(range(A.n)))


def at_start(L):
    """#v for the texts v of L."""
    return D(L.n, [{MARK: 1}] + [{a: r + 1 for a, r in row.items()} for row in L.d], {q + 1 for q in L.acc})


def fails(A):
    return complement(proj(A))


def anytext(n):
    return D(n, [{a: 0 for a in range(n)}], {0})


def empty(n):
    return D(n, [{}], set())


def epsilon(n):
    """Consumes nothing, succeeds always."""
    return at_start(anytext(n))


def one(n, cls):
    """Consumes one character of the classes."""
    return D(n, [{a: 1 for a in cls}, {MARK: 2}, {a: 2 for a in range(n)}], {2})


def end(n):
    return D(n, [{MARK: 1}, {}], {1})


def seq(A, B):
    def move(q, s):
        p, r = q
        if r is None:
            return [] if s == MARK else [(A.d[p][s], None)] if s in A.d[p] else []
        if s == MARK:
            return [(p, B.d[r][s])] if s in B.d[r] else []
        return [(A.d[p][s], B.d[r][s])] if s in A.d[p] and s in B.d[r] else []
    return build(A.n, [(0, None)], move, lambda q: [(A.d[q[0]][MARK], 0)] if q[1] is None and MARK in A.d[q[0]] else [],
                 lambda q: q[1] is not None and q[0] in A.acc and q[1] in B.acc)


def many(A, least=0):
    """Greedy repetition. States: (states of the iterations done, state of the one going on, number of them)."""
    F = fails(A)
    full = universal(A)

    def move(q, s):
        past, cur, k, ended = q
        if s == MARK:
            return [(past, 0, k, True)] if not ended and cur == 0 and k >= least and fresh(q) else []
        p2 = set()
        for p in past:
            r = A.d[p].get(s)
            if r is None:
                return []
            if r not in full:
                p2.add(r)
        X = F if ended else A
        r = X.d[cur].get(s)
        return [] if r is None else [(frozenset(p2), r, k if ended else -1 - k if k >= 0 else k, ended)]

    def fresh(q):
        return q[2] >= 0

    def eps(q):
        past, cur, k, ended = q
        # an iteration ends; one that consumes nothing is an error
        if ended or k >= 0 or MARK not in A.d[cur]:
            return []
        return [(past | {A.d[cur][MARK]}, 0, min(-1 - k + 1, least), False)]
    return build(A.n, [(frozenset(), 0, 0, False)], move, eps, lambda q: q[3] and q[1] in F.acc and all(p in A.acc for p in q[0]))


def universal(A):
    """States from which every text without mark is accepted."""
    u = set(range(len(A.d))) & A.acc
    while True:
        v = {q for q in u if all(A.d[q].get(a) in u for a in range(A.n))}
        if v == u:
            return u
        u = v


def restrict(A, L):
    """Only those u#v with u in L."""
    n = A.n
    top = len(L.d)
    B = D(n, [dict(row) for row in L.d] + [{a: top for a in range(n)}], {top})
    for q in L.acc:
        B.d[q][MARK] = top
    return inter(A, B)


def longest(L):
    """u#v where u is the longest beginning of uv that is in L."""
    n = L.n

    base = restrict(D(n, [{**{a: 0 for a in range(n)}, MARK: 1}, {a: 1 for a in range(n)}], {1}), L)

    def move(q, s):
        p, m = q
        if s == MARK:
            return [(p, 1)] if m == 0 and p in L.acc else []
        if p == "done":
            return [q]
        if s not in L.d[p]:
            return []
        r = L.d[p][s]
        return [(r, 2 if m else 0)] + ([("done", 2)] if m and r in L.acc else [])
    longer = build(n, [(0, 0)], move, lambda q: (), lambda q: q[0] == "done" and q[1] == 2)
    return minus(base, longer)


def witness(A):
    """A shortest string of the language."""
    todo, seen = [(0, ())], {0}
    while todo:
        nxt = []
        for q, w in todo:
            if q in A.acc:
                return w
            for a in sorted(A.d[q], key=lambda a: (a == MARK, a)):
                r = A.d[q][a]
                if r not in seen:
                    seen.add(r)
                    nxt.append((r, w + (a,)))
        todo = nxt
    return None


def regex(rx, n, classes):
    """The language of a regular expression (Python syntax); classes(predicate on a character) gives the classes."""
    import re
    try:
        import re._parser as sre
    except ImportError:
        import sre_parse as sre
    trans, count = {}, [0]

    def new():
        count[0] += 1
        return count[0] - 1

    def edge(a, s, b):
        trans.setdefault(a, []).append((s, b))

    def node(items, a):
        for op, v in items:
            a = item(str(op), v, a)
        return a

    def item(op, v, a):
        if op in ("LITERAL", "NOT_LITERAL", "IN", "ANY"):
            b = new()
            if op == "IN":
                neg = str(v[0][0]) == "NEGATE"

                def f(c, v=v):
                    hit = any(str(o) == "LITERAL" and c == x or str(o) == "RANGE" and x[0] <= c <= x[1] for o, x in v if str(o) != "NEGATE")
                    return hit != neg
                for o, x in v:
                    if str(o) not in ("LITERAL", "RANGE", "NEGATE"):
                        raise ValueError(o)
            else:
                f = lambda c: op == "ANY" or (c == v) == (op == "LITERAL")
            for s in classes(f):
                edge(a, s, b)
            return b
        if op == "SUBPATTERN":
            return node(v[-1], a)
        if op == "BRANCH":
            b = new()
            for alt in v[1]:
                c = new()
                edge(a, None, c)
                edge(node(alt, c), None, b)
            return b
        if op == "MAX_REPEAT":
            lo, hi, sub = v
            for _ in range(lo):
                a = node(sub, a)
            if str(hi) == "MAXREPEAT":
                b, c = new(), new()
                edge(a, None, b)
                edge(node(sub, b), None, b)
                edge(b, None, c)
                return c
            b = new()
            edge(a, None, b)
            for _ in range(hi - lo):
                c = new()
                edge(a, None, c)
                a = node(sub, c)
                edge(a, None, b)
            return b
        raise ValueError(op)
    s = new()
    e = node(sre.parse(rx, re.S), s)
    return build(n, [s], lambda q, a: [b for x, b in trans.get(q, ()) if x == a and x is not None], lambda q: [b for x, b in trans.get(q, ()) if x is None], lambda q: q == e, list(range(n)))
