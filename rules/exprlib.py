"""Code generated for one expression, by form of expression.

visit_expr is analysed for one expression: the visits of its operands stay primitives, everything else (the visit_* and
filter functions) is inlined; loops over operand lists are unrolled for 0, 1, 2 and 3 elements. Each path becomes an
ExprPath with the conditions, the result, and the generated text in which ⟦expr X⟧ stands for the code of operand X.
Elements of the expression are named N.0, N.1, … by field of its form, N.0[k] for list elements."""
from genlib import *
import re

E_ = ("param", "p2")


class ExprPath:
    def __init__(self, kind, conds, rv, ops):
        self.kind, self.conds, self.rv, self.ops = kind, conds, rv, ops
        self.raw = "".join(text(o[2], ops[:i]) for i, o in enumerate(ops) if o[0] == "emit" and o[1] == "p1")
        self.ok = is_agg(rv, "Ok")
        self.err = is_agg(rv, "Err")
        self.wrap = fields(rv).get("0") if self.ok else None
        self.f = Facts(conds)

    @property
    def text(self):
        return squash(self.raw)

    def on(self, name_term, value):
        """Can this path be taken when the term has the value?"""
        return not any(evcond(c, {name_term: value}) is False for c in self.conds if c[0] in ("t", "any", "is", "not"))


def squash(s):
    """White space is kept only where it separates two tokens that would merge."""
    s = re.sub(r"\s+", " ", s).strip()
    out = []
    for i, ch in enumerate(s):
        if ch == " ":
            a, b = s[i - 1], s[i + 1]
            if (a.isalnum() or a in "_⟧") and (b.isalnum() or b in "_⟦"):
                out.append(ch)
            continue
        out.append(ch)
    return "".join(out)


def expr_paths(C, counts=(0, 1, 2, 3)):
    """{kind: [ExprPath]}"""
    if hasattr(C, "_xp"):
        return C._xp
    b = C.body("askama_derive", GEN + "visit_expr")
    E = engine(C, drop=[GEN + d for d in ("visit_filter", "visit_attr")], max_depth=7)
    out = {}
    for st, rv in run_gen(C, E, b):
        ks = [c[2] for c in st.conds if c[0] == "is" and c[1] == E_]
        if len(ks) != 1:
            raise Undecided("form of expression: %s" % ks)
        k = ks[0]
        m = {("as", E_, k): ("node", k)}
        conds = tuple(subst(c, m) for c in st.conds if not (c[0] == "is" and c[1] == E_) and c[0] != "iter")
        its = tuple(subst(c, m) for c in st.conds if c[0] == "iter")
        for c2, ops in unroll([subst(c, m) for c in st.conds], [subst(e, m) for e in st.ev], counts):
            if feasible(conds + c2):
                out.setdefault(k, []).append(ExprPath(k, conds + its + c2, subst(rv, m), ops))
    C._xp = (b, out)
    return C._xp


def unroll(conds, evs, counts):
    """linear, for paths on which the first element of a list was taken before the loop over the rest."""
    peeled = {}
    for c in conds:
        if c[0] == "iter" and c[2] == "next":
            peeled[c[1]] = peeled.get(c[1], 0) + 1
    inloop = {loop_src(e) for e in evs if e[0] == "loop" and has_ops(e)}
    if any(k > 1 for k in peeled.values()):
        raise Undecided("several elements taken before a loop")
    if not peeled:
        extra = tuple(("count", c[1], 0) for c in conds if c[0] == "iter" and c[2] == "end" and c[1] not in inloop and len(c) == 3)
        return [(extra + c2, ops) for c2, ops in linear(evs, counts)]
    m = {("elem", s): ("elem", s, 0) for s in peeled}
    evs2 = [e if e[0] == "loop" else subst(e, m) for e in evs]
    out = []
    shift = {}
    for s in peeled:
        shift.update({("elem", s, k): ("elem", s, k + 1) for k in range(12)})
    def renum(t):
        return subst(t, shift)
    for c2, ops in linear([e if e[0] != "loop" else e for e in evs2], counts):
        # operations inside the loop are between its begin and end marks
        depth, o2 = 0, []
        for o in ops:
            if o[0] == "begin":
                depth += 1
            elif o[0] == "end":
                depth -= 1
            o2.append(renum(o) if depth else o)
        c3 = tuple(("count", c[1], c[2] + 1) if c[0] == "count" and c[1] in peeled else
                   ("odd", c[1], tuple(x for x in c[2] if x != "skip1")) if c[0] == "odd" else renum(c) for c in c2)
        for s in peeled:
            if not any(c[0] == "count" and c[1] == s for c in c3):
                c3 += (("count", s, 1),)
        out.append((c3, tuple(o2)))
    return out


def odd(conds):
    return any(c[0] == "odd" for c in conds)


def feasible(conds):
    """Counts of unrolled lists against conditions on their length."""
    env = {}
    for c in conds:
        if c[0] == "count":
            env[("lenof", c[1])] = c[2]
    for c in conds:
        if c[0] in ("t", "any"):
            if c[0] == "t" and c[1][0] == "empty" and ("lenof", c[1][1]) in env:
                if (env[("lenof", c[1][1])] == 0) != c[2]:
                    return False
            elif evcond(c, env) is False:
                return False
    return True


def args_paths(C, counts=(0, 1, 2, 3)):
    """Paths of _visit_args (list p2): [(conds, text)]."""
    b = C.body("askama_derive", GEN + "_visit_args")
    E = engine(C, drop=[GEN + "_visit_args"], max_depth=6, extra={G + "is_copyable": v_pure("is_copyable")})
    out = []
    for st, rv in run_gen(C, E, b):
        if not is_agg(rv, "Ok"):
            raise Undecided("_visit_args fails")
        for c2, ops in unroll(list(st.conds), list(st.ev), counts):
            cs = tuple(st.conds) + c2
            if feasible(cs):
                out.append((cs, ops, squash("".join(text(o[2], ops[:i]) for i, o in enumerate(ops) if o[0] == "emit" and o[1] == "p1"))))
    return b, out


def target_paths(C, counts=(0, 1, 2, 3)):
    """Paths of visit_target (target p4): {kind: [(conds, ops, text)]}."""
    b = C.body("askama_derive", GEN + "visit_target")
    E = engine(C, drop=[GEN + "visit_target"], max_depth=6)
    h = E.vocab
    E.vocab[GEN + "visit_target"] = v_target
    T = ("param", "p4")
    out = {}
    for st, rv in run_gen(C, E, b):
        ks = [c[2] for c in st.conds if c[0] == "is" and c[1] == T]
        if len(ks) != 1:
            raise Undecided("form of pattern: %s" % ks)
        k = ks[0]
        m = {("as", T, k): ("node", k)}
        conds = tuple(subst(c, m) for c in st.conds if not (c[0] == "is" and c[1] == T))
        for c2, ops in unroll([subst(c, m) for c in st.conds], [subst(e, m) for e in st.ev], counts):
            if feasible(conds + c2):
                out.setdefault(k, []).append((conds + c2, ops, squash("".join(text(o[2], ops[:i]) for i, o in enumerate(ops) if o[0] == "emit" and o[1] == "p1"))))
    return b, out
